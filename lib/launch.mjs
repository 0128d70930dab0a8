// Launches one check in a child Node with the tsx loader, inside a private
// scratch TMPDIR that is removed afterwards (tsx's transform cache included, so
// nothing carries over from one run to the next and /repo is never written).
import { spawn } from "node:child_process";
import { existsSync, mkdtempSync, rmSync } from "node:fs";
import { join, dirname } from "node:path";
import { fileURLToPath, pathToFileURL } from "node:url";

const root = dirname(dirname(fileURLToPath(import.meta.url)));
const argv = process.argv.slice(2);
const id = argv[0];
if (!id || !/^[A-Z]\d{2,3}$/.test(id)) { console.error("usage: ./check <ID> [--tier t] [--seed n] [--replay f]"); process.exit(2); }
const opt = (n) => { const i = argv.indexOf(n); return i >= 0 ? argv[i + 1] : undefined; };
const loaders = ["/opt/veriftools/node/node_modules/tsx/dist/loader.mjs", "/repo/node_modules/tsx/dist/loader.mjs"];
const loader = loaders.find((p) => existsSync(p));
if (!loader) { console.error("no tsx loader"); process.exit(2); }
const scratch = mkdtempSync("/tmp/verif-");
const env = {
  ...process.env,
  TMPDIR: scratch, HOME: scratch, XDG_CACHE_HOME: join(scratch, "cache"),
  TZ: "UTC", LANG: "C.UTF-8", NO_COLOR: "1", CI: "1",
  DOMOTION_HELPER_NO_SERVE: process.env.DOMOTION_HELPER_NO_SERVE ?? "1",
  TSX_TSCONFIG_PATH: join(root, "lib", "tsconfig.json"),
  VERIF_ROOT: root, VERIF_SCRATCH: scratch,
  VERIF_SEED: opt("--seed") ?? process.env.VERIF_SEED ?? "1",
  VERIF_TIER: opt("--tier") ?? process.env.VERIF_TIER ?? "quick",
};
const replay = opt("--replay");
if (replay) env.VERIF_REPLAY = replay;
const child = spawn(process.execPath, [
  "--max-old-space-size=6144", "--stack-size=4000", "--no-warnings",
  "--import", pathToFileURL(loader).href, join(root, "checks", `${id}.ts`),
], { env, stdio: "inherit", cwd: root });
const done = (code) => { try { rmSync(scratch, { recursive: true, force: true }); } catch { /* best effort */ } process.exit(code); };
for (const s of ["SIGINT", "SIGTERM"]) process.on(s, () => child.kill(s));
child.on("exit", (code, signal) => done(signal ? 3 : code ?? 3));
