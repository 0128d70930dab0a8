// Property-based check runner: drives fast-check, counts what was generated,
// shrinks failures to a replay file, honours the known-findings file, and
// writes the evidence file.
import * as fc from "./fc.ts";
import { createHash } from "node:crypto";
import { mkdirSync, readFileSync, writeFileSync, existsSync } from "node:fs";
import { join } from "node:path";
import { inspect, isDeepStrictEqual } from "node:util";

export { fc };
const ROOT = process.env.VERIF_ROOT ?? "/verif";
export const SCRATCH = process.env.VERIF_SCRATCH ?? "/tmp";
export const TIER = (process.env.VERIF_TIER === "thorough" ? "thorough" : "quick") as "quick" | "thorough";
export const SEED = Number.parseInt(process.env.VERIF_SEED ?? "1", 10) | 0;

/** Raised when an oracle disagrees with the code. `key` names the defect for the known-findings file. */
export class Violation extends Error {
  key?: string;
  constructor(msg: string, key?: string) { super(msg); this.name = "Violation"; this.key = key; }
}
export function fail(msg: string, key?: string): never { throw new Violation(msg, key); }
export function ensure(cond: unknown, msg: string | (() => string), key?: string): asserts cond {
  if (!cond) throw new Violation(typeof msg === "function" ? msg() : msg, key);
}
export const show = (v: unknown, depth = 8): string => {
  const s = inspect(v, { depth, maxStringLength: 400, maxArrayLength: 60, breakLength: 140 });
  return s.length > 3000 ? s.slice(0, 3000) + " …" : s;
};
export function same(actual: unknown, expected: unknown, what: string, key?: string): void {
  if (!isDeepStrictEqual(actual, expected)) throw new Violation(`${what}: expected ${show(expected)}, got ${show(actual)}`, key);
}
export function near(actual: number, expected: number, tol: number, what: string | (() => string), key?: string): void {
  if (!(Math.abs(actual - expected) <= tol)) throw new Violation(`${typeof what === "function" ? what() : what}: expected ${expected} ± ${tol}, got ${actual}`, key);
}

/** Per-case context: classify the case, and say whether it was non-trivial. */
export class Ctx {
  labels: string[] = [];
  nontrivial = false;
  label(...l: (string | false | null | undefined)[]): void { for (const x of l) if (x) this.labels.push(x); }
  /** Mark this case non-trivial by the part's rule. */
  hit(cond: unknown = true): void { if (cond) this.nontrivial = true; }
}

export interface Part<T = any> {
  name: string;
  /** What is generated and what makes a case non-trivial. */
  rule: string;
  arb: fc.Arbitrary<T> | (() => fc.Arbitrary<T>);
  prop: (value: T, ctx: Ctx) => void | Promise<void>;
  runs: { quick: number; thorough: number };
  /** Fixed inputs always tried first (regressions for fixed findings, corner cases). */
  examples?: T[];
  maxShrinks?: number;
}
export interface KnownProbe { key: string; what: string; run: () => void | Promise<void> }
export interface CheckSpec {
  id: string;
  parts: Part<any>[];
  assumptions?: string[];
  /** Fixed reproductions of findings listed in known-findings.txt. */
  known?: KnownProbe[];
}

interface Known { status: "open" | "fixed"; property: string; key: string; text: string }
function readKnown(): Known[] {
  const f = join(ROOT, "known-findings.txt");
  if (!existsSync(f)) return [];
  const out: Known[] = [];
  for (const line of readFileSync(f, "utf8").split("\n")) {
    const m = /^(open|fixed): property=(\S+) (\S+) (.*)$/.exec(line);
    if (m) out.push({ status: m[1] as "open" | "fixed", property: m[2], key: m[3], text: m[4] });
  }
  return out;
}

const REPLACER = (_k: string, v: unknown): unknown =>
  typeof v === "bigint" ? `${v}n`
    : typeof v === "number" && (Number.isNaN(v) || !Number.isFinite(v) || Object.is(v, -0)) ? { $num: Object.is(v, -0) ? "-0" : String(v) }
      : v instanceof Uint8Array ? { $bytes: Buffer.from(v).toString("base64") }
        : v instanceof Map ? { $map: [...v] } : v instanceof Set ? { $set: [...v] } : v === undefined ? { $undef: 1 } : v;
const toJson = (v: unknown): string => { try { return JSON.stringify(v, REPLACER) ?? "undefined"; } catch { return inspect(v, { depth: 20 }); } };

function hashSeed(s: string): number { return createHash("sha256").update(s).digest().readInt32LE(0) | 0; }

export async function runCheck(spec: CheckSpec): Promise<never> {
  const t0 = Date.now();
  const known = readKnown().filter((k) => k.property === spec.id);
  const openKeys = new Set(known.filter((k) => k.status === "open").map((k) => k.key));
  const replayFile = process.env.VERIF_REPLAY;
  const only = process.env.VERIF_PART;
  const scale = Number(process.env.VERIF_SCALE ?? "1");
  const budgetMs = Number(process.env.VERIF_BUDGET_S ?? (TIER === "thorough" ? "780" : "600")) * 1000;
  let replay: { part: string; seed: number; path: string } | undefined;
  if (replayFile) replay = JSON.parse(readFileSync(replayFile, "utf8"));

  let evaluations = 0, violations = 0, suppressed = 0;
  const distinct = new Set<string>();
  const samples: unknown[] = [];
  const perPart: Record<string, unknown> = {};
  const rules: string[] = [];

  for (const part of spec.parts) {
    if (replay && replay.part !== part.name) continue;
    if (only && only !== part.name) continue;
    const partT0 = Date.now();
    let cases = 0, nontrivial = 0, sup = 0;
    const partDistinct = new Set<string>();
    const labels: Record<string, number> = {};
    const partSamples: unknown[] = [];
    rules.push(`[${part.name}] ${part.rule}`);
    const arb = typeof part.arb === "function" ? part.arb() : part.arb;
    let shrinking = false;
    const property = fc.asyncProperty(arb, async (value: any) => {
      const ctx = new Ctx();
      try {
        await part.prop(value, ctx);
      } catch (e) {
        const key = (e as Violation).key;
        if (key && openKeys.has(key)) { sup++; suppressed++; cases++; return; }
        shrinking = true;
        throw e;
      } finally {
        if (!shrinking) {
          cases++; evaluations++;
          for (const l of new Set(ctx.labels)) labels[l] = (labels[l] ?? 0) + 1;
          if (ctx.nontrivial) {
            nontrivial++;
            const js = toJson(value);
            const h = createHash("sha1").update(part.name + "\0" + js).digest("base64");
            if (!partDistinct.has(h)) {
              partDistinct.add(h); distinct.add(h);
              if (partSamples.length < 2 && js.length < 1500 && partDistinct.size % 7 === 1) partSamples.push(JSON.parse(js.startsWith("{") || js.startsWith("[") || js.startsWith('"') ? js : JSON.stringify(js)));
            }
          }
        }
      }
    });
    const rounds = TIER === "thorough" && !replay ? Number.POSITIVE_INFINITY : 1;
    const perRound = Math.max(1, Math.round((TIER === "thorough" && !replay ? part.runs.quick : part.runs[TIER]) * scale));
    let remaining = Math.max(1, Math.round(part.runs[TIER] * scale));
    let result: fc.RunDetails<[any]> | undefined;
    const partBudget = budgetMs / spec.parts.length;
    for (let r = 0; r < rounds && remaining > 0; r++) {
      const seed = replay ? replay.seed : hashSeed(`${spec.id}/${part.name}/${SEED}/${r}`);
      const n = Math.min(perRound, remaining);
      result = await fc.check(property, {
        seed, path: replay?.path, numRuns: replay ? 1 : n, endOnFailure: false, interruptAfterTimeLimit: undefined,
        examples: r === 0 && !replay ? (part.examples ?? []).map((e) => [e] as [any]) : [],
        maxSkipsPerRun: 10000,
      });
      remaining -= n;
      if (result.failed) break;
      // A thorough run stops early (never fails) when its share of the budget is used.
      if (TIER === "thorough" && Date.now() - partT0 > partBudget) break;
    }
    perPart[part.name] = { cases, nontrivial, distinct_nontrivial: partDistinct.size, suppressed_known: sup, labels, wall_s: (Date.now() - partT0) / 1000 };
    samples.push(...partSamples.map((s) => ({ part: part.name, case: s })));
    if (result?.failed) {
      violations++;
      const ce = result.counterexample?.[0];
      const err = result.errorInstance as Error | undefined;
      mkdirSync(join(ROOT, "replays"), { recursive: true });
      const h = createHash("sha1").update(part.name + toJson(ce)).digest("hex").slice(0, 10);
      const file = join(ROOT, "replays", `${spec.id}-${h}.json`);
      writeFileSync(file, JSON.stringify({ property: spec.id, part: part.name, seed: result.seed, path: result.counterexamplePath, shrinks: result.numShrinks, counterexample: JSON.parse(JSON.stringify(ce ?? null, REPLACER) ?? "null"), error: String(err?.message ?? err), stack: err?.stack }, null, 1));
      console.log(`part ${part.name}: ${err?.name ?? "Error"}: ${String(err?.message ?? err).slice(0, 4000)}`);
      if (err && err.name !== "Violation") console.log(String(err.stack).split("\n").slice(0, 8).join("\n"));
      console.log(`counterexample (after ${result.numShrinks} shrinks): ${show(ce, 12)}`);
      console.log(`VIOLATION property=${spec.id} replay=${file}`);
    }
  }

  // Listed findings: confirm each still reproduces, and say so. Never adds to the file.
  for (const k of known) {
    if (k.status !== "open" || replay) continue;
    const probe = spec.known?.find((p) => p.key === k.key);
    let reproduces = false;
    try { if (probe) await probe.run(); } catch { reproduces = true; }
    if (probe == null || reproduces) console.log(`KNOWN-FINDING: property=${spec.id} ${k.key} ${k.text}`);
    else console.log(`note: listed finding ${k.key} no longer reproduces`);
  }

  const wall = (Date.now() - t0) / 1000;
  if (!replay && !only) {
    mkdirSync(join(ROOT, "evidence"), { recursive: true });
    writeFileSync(join(ROOT, "evidence", `${spec.id}.json`), JSON.stringify({
      property: spec.id, tier: TIER, seed: SEED, level: "exploration",
      coverage: {
        evaluations, distinct_nontrivial: distinct.size, rule: rules.join(" "),
        samples: samples.length ? samples : ["(no non-trivial sample small enough to print)"], parts: perPart, suppressed_known: suppressed,
      },
      assumptions: spec.assumptions ?? [], wall_s: wall, violations,
    }, null, 1));
  }
  for (const [n, p] of Object.entries(perPart)) console.log(`${spec.id} ${n}: ${JSON.stringify(p)}`);
  console.log(`${spec.id} ${violations ? "FAILED" : "ok"}: ${evaluations} cases, ${distinct.size} distinct non-trivial, ${wall.toFixed(1)} s`);
  await new Promise<void>((r) => process.stdout.write("", () => r()));
  process.exit(violations ? 1 : 0);
}
