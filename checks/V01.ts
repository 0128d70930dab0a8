// V01: converting an SVG to video or an image samples every animation at the right instant, hands the
// encoder exactly the frames it took, asks it for what the options say, and fails cleanly.
// The browser and ffmpeg are stand-ins; an independent reader of ffmpeg's command line is the oracle.
import { mkdirSync, writeFileSync, readFileSync, existsSync, readdirSync, rmSync, chmodSync } from "node:fs";
import { join } from "node:path";
import { fc, runCheck, ensure, same, near, show, SCRATCH } from "../lib/harness.ts";
import { png, sharp } from "../lib/png.ts";
import { runSvgToVideo, buildFfmpegArgs, fitContain, resolveFormat, resolveDurationMs, parseSvgIntrinsicSize as videoSize } from "/repo/src/cli/svg-to-video-core.ts";
import { runSvgToImage } from "/repo/src/cli/svg-to-image-core.ts";
import { parseSvgIntrinsicSize as metaSize } from "/repo/src/animation/svg-meta.ts";

const stray: unknown[] = []; process.on("unhandledRejection", (e) => { stray.push(e); }); process.on("uncaughtException", (e) => { stray.push(e); });
const opt = <T>(a: fc.Arbitrary<T>, freq = 2): fc.Arbitrary<T | undefined> => fc.option(a, { nil: undefined, freq });
const sleep = (ms: number): Promise<void> => new Promise((r) => setTimeout(r, ms));

// ── stand-in browser ─────────────────────────────────────────────────────────
interface AnimSpec { dur: number; iters: number; delay: number; late: boolean; refuses: boolean }
interface World { anims: AnimSpec[]; smil: number; frameBytes: number; failAt?: number; realPng?: Buffer }
class FakeBrowser {
  closed = 0; contexts: any[] = []; html: string[] = []; shots: { state: any; opts: any; bytes: Buffer }[] = []; pdf: any[] = []; calls = 0; media: any[] = [];
  constructor(readonly w: World) {}
  #tick(): void { if (this.w.failAt != null && this.calls++ === this.w.failAt) throw new Error("browser went away"); }
  async newContext(o: any): Promise<any> {
    this.#tick(); this.contexts.push(o); const self = this;
    return { newPage: async () => { self.#tick(); return self.#page(); }, close: async () => {} };
  }
  #page(): any {
    const self = this, w = this.w; let rafs = 0; let committed: any = null;
    const anims = w.anims.map((a) => ({ spec: a, paused: false, time: 0 }));
    const smil = Array.from({ length: w.smil }, () => ({ paused: false, time: 0 }));
    let running = true; const commit = (): void => { committed = { a: anims.map((x) => x.time), s: smil.map((x) => x.time) }; };
    const frame = (): void => { rafs++; for (const a of anims) if (!a.paused && running) a.time += 16.7; for (const s of smil) if (!s.paused) s.time += 0.0167; commit(); };
    const doc: any = {
      documentElement: {}, fonts: { ready: Promise.resolve() },
      getAnimations: () => anims.filter((a) => !a.spec.late || rafs > 0).map((a) => ({
        effect: { getComputedTiming: () => ({ duration: a.spec.dur, iterations: a.spec.iters, delay: a.spec.delay, endTime: a.spec.iters === Infinity ? Infinity : a.spec.delay + a.spec.dur * a.spec.iters, activeDuration: a.spec.dur * a.spec.iters, endDelay: 0 }), getTiming: () => ({ duration: a.spec.dur, iterations: a.spec.iters, delay: a.spec.delay }), getKeyframes: () => [{ offset: 0, opacity: "1" }, { offset: 0.5, opacity: "1" }, { offset: 1, opacity: "0" }] },
        pause: () => { a.paused = true; }, play: () => { a.paused = false; }, cancel: () => { a.paused = true; a.time = NaN; }, get playState() { return a.paused ? "paused" : "running"; },
        get currentTime() { return a.time; }, set currentTime(t: number) { if (a.spec.refuses) throw new Error("cannot seek"); a.time = t; },
      })),
      querySelectorAll: (sel: string) => /svg/.test(sel) ? smil.map((s) => ({ tagName: "svg", pauseAnimations: () => { s.paused = true; }, unpauseAnimations: () => { s.paused = false; }, animationsPaused: () => s.paused, setCurrentTime: (t: number) => { s.time = t; }, getCurrentTime: () => s.time, querySelector: () => ({}), querySelectorAll: () => [{}] })) : [],
      querySelector: () => null,
    };
    const run = async (fn: any, arg: any): Promise<any> => {
      const g = globalThis as any; const save = [g.document, g.requestAnimationFrame, g.window];
      g.document = doc; g.requestAnimationFrame = (cb: any) => { setImmediate(() => { frame(); cb(rafs * 16.7); }); return 1; }; g.window = g;
      try { return await fn(arg); } finally { [g.document, g.requestAnimationFrame, g.window] = save; }
    };
    return {
      setContent: async (h: string) => { self.#tick(); self.html.push(h); running = !/animation-play-state:\s*paused/.test(h); commit(); },
      goto: async () => { self.#tick(); },
      evaluate: async (fn: any, arg: any) => { self.#tick(); return run(fn, arg); },
      emulateMedia: async (m: any) => { self.media.push(m); }, waitForTimeout: async () => {}, on: () => {}, close: async () => {},
      screenshot: async (o: any) => { self.#tick(); const head = JSON.stringify({ ...committed, n: self.shots.length, omit: o?.omitBackground === true }); const body = w.realPng ?? Buffer.concat([Buffer.from(`#${head.length}:${w.frameBytes}#${head}`), Buffer.alloc(w.frameBytes, 65 + self.shots.length % 26)]); self.shots.push({ state: committed, opts: o, bytes: body }); return body; },
      pdf: async (o: any) => { self.#tick(); self.pdf.push(o); const b = Buffer.from("%PDF " + JSON.stringify(committed)); self.shots.push({ state: committed, opts: o, bytes: b }); return b; },
    };
  }
  async close(): Promise<void> { this.closed++; }
}
function frames(b: Buffer): { head: any; raw: Buffer }[] { const out: { head: any; raw: Buffer }[] = []; let i = 0; while (i < b.length) { const m = /^#(\d+):(\d+)#/.exec(b.subarray(i, i + 40).toString("latin1")); ensure(m, `the stream given to ffmpeg is torn at byte ${i} of ${b.length}`); const len = m[0].length + Number(m[1]) + Number(m[2]); ensure(i + len <= b.length, "the last frame given to ffmpeg is cut off"); const raw = b.subarray(i, i + len); out.push({ head: JSON.parse(raw.subarray(m[0].length, m[0].length + Number(m[1])).toString()), raw }); i += len; } return out; }

// ── reading an ffmpeg command line ───────────────────────────────────────────
interface Filter { ins: string[]; name: string; args: [string | null, string][]; outs: string[] }
const WS = " \n\t\r";
/** av_get_token: unescapes `\x` and '…', stops at a terminator, trims unprotected blanks. */
function token(s: string, i: number, term: string): [string, number] {
  while (i < s.length && WS.includes(s[i])) i++; let out = "", end = 0;
  while (i < s.length && !term.includes(s[i])) { const c = s[i++]; if (c === "\\" && i < s.length) { out += s[i++]; end = out.length; } else if (c === "'") { while (i < s.length && s[i] !== "'") out += s[i++]; if (i < s.length) { i++; end = out.length; } } else out += c; }
  while (out.length > end && WS.includes(out[out.length - 1])) out = out.slice(0, -1); return [out, i];
}
function optionsOf(s: string): [string | null, string][] { const r: [string | null, string][] = []; let i = 0; while (i < s.length) { const m = /^\s*([A-Za-z0-9_]+)\s*=/.exec(s.slice(i)); let key: string | null = null; if (m) { key = m[1]; i += m[0].length; } let v: string; [v, i] = token(s, i, ":"); r.push([key, v]); if (s[i] === ":") i++; } return r; }
function graph(s: string): Filter[][] {
  const chains: Filter[][] = [[]]; let i = 0; const ws = (): void => { while (i < s.length && WS.includes(s[i])) i++; };
  const labels = (): string[] => { const l: string[] = []; ws(); while (s[i] === "[") { let v: string; [v, i] = token(s, i + 1, "]"); ensure(s[i] === "]", `filter graph: unclosed label in ${s}`); i++; l.push(v); ws(); } return l; };
  for (;;) { const ins = labels(); let name: string, a = ""; [name, i] = token(s, i, "=,;["); if (s[i] === "=") [a, i] = token(s, i + 1, "[],;"); ensure(s[i] !== "]", `filter graph: stray ] in ${s}`); const outs = labels(); chains[chains.length - 1].push({ ins, name, args: optionsOf(a), outs }); if (i >= s.length) break; if (s[i] === ";") chains.push([]); else ensure(s[i] === ",", `filter graph: unexpected "${s.slice(i)}" in ${s}`); i++; }
  return chains;
}
const arg = (f: Filter, key: string, pos?: number): string | undefined => f.args.find((a) => a[0] === key)?.[1] ?? (pos != null && f.args[pos]?.[0] === null ? f.args[pos][1] : undefined);
const FLAGS = new Set(["-y", "-n", "-hide_banner", "-shortest", "-nostdin", "-an", "-vn", "-sn", "-nostats"]);
interface Cmd { inputs: { url: string; o: Map<string, string> }[]; o: [string, string][]; output: string; shortest: boolean }
function command(argv: string[]): Cmd {
  const c: Cmd = { inputs: [], o: [], output: "", shortest: false }; let pend: [string, string][] = [];
  for (let i = 0; i < argv.length; i++) { const a = argv[i]; if (a === "-i") { c.inputs.push({ url: argv[++i], o: new Map(pend) }); pend = []; } else if (FLAGS.has(a)) { if (a === "-shortest") c.shortest = true; else if (a !== "-hide_banner" && a !== "-y" && a !== "-nostats") pend.push([a, ""]); } else if (a.startsWith("-") && a.length > 1) { ensure(i + 1 < argv.length, `ffmpeg option ${a} has no value`); pend.push([a, argv[++i]]); } else { ensure(c.output === "", `ffmpeg is given two outputs: ${c.output} and ${a}`); c.output = a; ensure(i === argv.length - 1, `options after the output: ${argv.slice(i)}`); } }
  c.o = pend; ensure(argv.includes("-y"), "ffmpeg would ask before overwriting"); return c;
}
const VIDEO: Record<string, { codec: string; container: string; pix: string; alpha?: string; profile?: [string, string] }> = {
  h264: { codec: "libx264", container: "mp4", pix: "yuv420p" }, avc: { codec: "libx264", container: "mp4", pix: "yuv420p" }, hevc: { codec: "libx265", container: "mp4", pix: "yuv420p" }, h265: { codec: "libx265", container: "mp4", pix: "yuv420p" },
  vp9: { codec: "libvpx-vp9", container: "webm", pix: "yuv420p", alpha: "yuva420p" }, vp8: { codec: "libvpx", container: "webm", pix: "yuv420p" }, av1: { codec: "libaom-av1", container: "mp4", pix: "yuv420p" },
  prores: { codec: "prores_ks", container: "mov", pix: "yuv422p10le", alpha: "yuva444p10le", profile: ["3", "4"] }, gif: { codec: "gif", container: "gif", pix: "pal8", alpha: "pal8" }, apng: { codec: "apng", container: "apng", pix: "rgba", alpha: "rgba" },
};
interface Want { fps: number; frame: [number, number]; out: [number, number]; format: string; container?: string; transparent: boolean; music?: string; audio?: string; offset?: number; captions?: string; burn: boolean; range?: string; output: string }
function judge(argv: string[], w: Want): void {
  const f = VIDEO[w.format.toLowerCase()]; const image = f.container === "gif" || f.container === "apng"; const container = image ? f.container : w.container ?? f.container; const alpha = w.transparent && f.alpha != null;
  const c = command(argv); same(c.output, w.output, "output file"); const get = (k: string): string | undefined => c.o.filter((x) => x[0] === k).pop()?.[1];
  same(get("-f"), container, "container"); same(Number(get("-r") ?? w.fps), w.fps, "output frame rate");
  ensure(["-", "pipe:", "pipe:0"].includes(c.inputs[0]?.url), `first input is ${c.inputs[0]?.url}`); same(c.inputs[0].o.get("-f"), "image2pipe", "form of the frame stream"); same(Number(c.inputs[0].o.get("-framerate") ?? c.inputs[0].o.get("-r")), w.fps, "rate of the frame stream");
  const idx = (u?: string): number => (u == null ? -1 : c.inputs.findIndex((x, i) => i > 0 && x.url === u)); const soft = w.captions != null && !w.burn && !image;
  const want: string[] = []; if (w.music && !image) want.push(w.music); if (w.audio && !image) want.push(w.audio); if (soft) want.push(w.captions!); same(c.inputs.slice(1).map((x) => x.url), want, "further inputs");
  const mi = w.music && !image ? 1 : -1, ai = w.audio && !image ? (mi > 0 ? 2 : 1) : -1, ci = soft ? c.inputs.length - 1 : -1; void idx;
  if (mi > 0) same(c.inputs[mi].o.get("-stream_loop"), "-1", "looping of the music"); if (ai > 0) { same(Number(c.inputs[ai].o.get("-itsoffset") ?? 0), w.offset ?? 0, "delay of the audio"); same(c.inputs[ai].o.get("-stream_loop"), undefined, "looping of the foreground audio"); }
  // streams
  const fcx = get("-filter_complex") ? graph(get("-filter_complex")!).flat() : []; const vf = get("-vf") ? graph(get("-vf")!)[0] : []; const af = get("-af") ? graph(get("-af")!)[0] : [];
  const maps = c.o.filter((x) => x[0] === "-map").map((x) => x[1]); ensure(maps.length > 0, "nothing is mapped");
  const linear = (): Map<string, { f: Filter; ins: string[] }> => { const m = new Map<string, { f: Filter; ins: string[] }>(); let auto = 0; for (const chain of get("-filter_complex") ? graph(get("-filter_complex")!) : []) { let prev: string[] = []; chain.forEach((fl, k) => { const ins = [...fl.ins, ...(k > 0 ? prev : [])]; const outs = fl.outs.length ? fl.outs : [`#${auto++}`]; for (const o of outs) m.set(o, { f: fl, ins }); prev = fl.outs.length && k < chain.length - 1 ? fl.outs : outs; }); } return m; };
  const nodes = linear(); const path = (label: string): { filters: Filter[]; sources: string[] } => { const n = nodes.get(label); if (!n) return { filters: [], sources: [label] }; const up = n.ins.map(path); return { filters: [...up.flatMap((u) => u.filters), n.f], sources: up.flatMap((u) => u.sources) }; };
  const streams = maps.map((m) => (m.startsWith("[") ? path(m.slice(1, -1)) : { filters: [], sources: [m] })); const kind = (s: string): string => /^(\d+)(?::([vas]))?/.exec(s)?.[1] === "0" ? "v" : Number(/^\d+/.exec(s)?.[0]) === ci ? "s" : "a";
  const vids = streams.filter((s) => s.sources.every((x) => kind(x) === "v")), auds = streams.filter((s) => s.sources.every((x) => kind(x) === "a")), subs = streams.filter((s) => s.sources.every((x) => kind(x) === "s"));
  same([vids.length, auds.length, subs.length], [1, mi > 0 || ai > 0 ? 1 : 0, soft ? 1 : 0], "mapped streams (picture, sound, captions)");
  const chain = [...new Set(vids[0].filters), ...vf]; void fcx;
  const scales = chain.filter((x) => x.name === "scale"); let [cw, ch] = w.frame; for (const s of scales) { const sw = arg(s, "w", 0), sh = arg(s, "h", 1); cw = sw === "iw" || sw === undefined ? cw : Number(sw); ch = sh === "ih" || sh === undefined ? ch : Number(sh); } same([cw, ch], w.out, "encoded picture size");
  const burn = chain.filter((x) => x.name === "subtitles"); same(burn.map((x) => arg(x, "filename", 0)), w.captions != null && w.burn ? [w.captions] : [], "burned-in captions"); for (const b of burn) same(b.args.length, 1, `options of the subtitles filter ${show(b.args)}`);
  for (const x of chain) ensure(["scale", "subtitles", "split", "palettegen", "paletteuse", "format"].includes(x.name), `unexpected picture filter ${x.name}`);
  // codecs
  if (container === "gif") { ensure(chain.some((x) => x.name === "palettegen") && chain.some((x) => x.name === "paletteuse"), "palette of the GIF"); same(chain.filter((x) => x.name === "palettegen").map((x) => arg(x, "reserve_transparent") === "1"), [alpha], "transparent entry of the palette"); }
  else { same(get("-c:v"), f.codec, "codec"); const pix = alpha ? f.alpha : f.pix; same(get("-pix_fmt"), pix, "pixel format"); if (f.profile) same(get("-profile:v"), f.profile[alpha ? 1 : 0], "codec profile");
    if (pix === "yuv420p") { const range = w.range === "pc" ? "pc" : "tv"; same(get("-color_range"), range, "range tag"); same(get("-colorspace"), "bt709", "matrix tag"); const conv = scales.filter((s) => arg(s, "out_color_matrix") != null); same(conv.map((s) => [arg(s, "out_color_matrix"), arg(s, "out_range")]), [["bt709", range]], "colour conversion"); } else same(get("-color_range"), undefined, "range tag of an unconverted stream"); }
  if (container === "apng") same(get("-plays"), "0", "looping of the APNG");
  if (mi > 0 || ai > 0) {
    same(get("-c:a"), container === "webm" ? "libopus" : "aac", "sound codec"); const src = auds[0].sources.map((x) => Number(/^\d+/.exec(x)![0])).sort(); same(src, [mi, ai].filter((x) => x > 0), "sounds that are heard");
    // a picture of 10 s, with a foreground sound of 3 s or 30 s
    for (const len of [3, 30]) { const pad = [...auds[0].filters, ...af].some((x) => x.name === "apad"); const mix = auds[0].filters.find((x) => x.name === "amix"); const each = src.map((i) => (i === mi ? Infinity : len)); const sound = pad ? Infinity : mix ? (arg(mix, "duration") === "shortest" ? Math.min(...each) : arg(mix, "duration") === "first" ? each[0] : Math.max(...each)) : each[0]; if (mix) same(Number(arg(mix, "inputs") ?? 2), src.length, "mixed inputs"); const total = c.shortest ? Math.min(10, sound) : Math.max(10, sound); same(total, 10, `length of a 10 s video with a ${len} s foreground sound`); }
  }
  if (soft) same(get("-c:s"), container === "webm" ? "webvtt" : "mov_text", "caption codec");
}

// ── generators ───────────────────────────────────────────────────────────────
const FILES = ["cap.srt", "a b.srt", "/tmp/x/cap,1.srt", "C:\\caps\\c.srt", "it's.srt", "[1].srt", "a;b.srt", "k=v.srt", " lead.srt", "trail ", "\\", "a'b:c\\d,e[f]g;h=i", "''", "ends\\", "é日.srt", "a%20b.srt", "\\\\srv\\s.srt"];
const pathA = fc.oneof(fc.constantFrom(...FILES), fc.array(fc.constantFrom("\\", "'", ":", "=", ",", ";", "[", "]", " ", "a", "b1", "é"), { minLength: 1, maxLength: 8, size: "max" }).map((a) => a.join("")));
const cmdA = fc.record({ fps: fc.constantFrom(1, 12, 24, 25, 29.97, 30, 60), out: fc.tuple(fc.integer({ min: 1, max: 960 }), fc.integer({ min: 1, max: 540 })), scale: fc.constantFrom(1, 1, 2, 1.5), format: fc.constantFrom(...Object.keys(VIDEO), "H264", "GIF"), container: opt(fc.constantFrom("mp4", "mov", "webm")), transparent: fc.boolean(), music: opt(fc.constantFrom("bed.mp3", "a b.mp3")), audio: opt(fc.constantFrom("vo.m4a", "-vo.m4a", "bed2.mp3")), offset: opt(fc.constantFrom(0.5, 3)), captions: opt(pathA), burn: fc.boolean(), range: opt(fc.constantFrom("tv", "pc")) });
const dirFor = (() => { let n = 0; return (): string => { const d = join(SCRATCH, `v${n++}`); mkdirSync(d, { recursive: true }); return d; }; })();

const animA = fc.record({ dur: fc.constantFrom(0, 40, 100, 250, 300.4, 500, 999.6, 1200), iters: fc.constantFrom(Infinity, Infinity, 1, 2, 0.5), delay: fc.constantFrom(0, 0, 150, -50), late: fc.constantFrom(false, false, true), refuses: fc.constantFrom(false, false, false, false, false, true) });
const runA = fc.record({ anims: fc.array(animA, { maxLength: 4, size: "max" }), smil: fc.constantFrom(0, 0, 0, 1, 2), durationSec: opt(fc.constantFrom(0.04, 0.1, 0.5, 0.999, 1.2)), fps: fc.constantFrom(1, 5, 10, 12, 25, 30), w: fc.integer({ min: 1, max: 300 }), h: fc.integer({ min: 1, max: 300 }), sized: fc.constantFrom(true, true, true, false), width: opt(fc.integer({ min: 2, max: 400 })), height: opt(fc.integer({ min: 2, max: 400 })), scale: fc.constantFrom(1, 2, 1.5), bg: fc.constantFrom("white", "transparent", "#0000", "#fff", "none"), format: fc.constantFrom("h264", "vp9", "gif", "apng", "prores", "av1"), keep: fc.boolean(), quiet: fc.boolean(), bytes: fc.constantFrom(0, 10, 5000, 70000, 300000), captions: opt(fc.constantFrom("c.srt", "it's:x.srt")), burn: fc.boolean() });
const TRANSPARENT = new Set(["transparent", "#0000", "none"]);
const gcd = (a: number, b: number): number => (b ? gcd(b, a % b) : a);
/** One full turn of everything that loops, or the end of what does not, whichever is later. */
function turn(anims: AnimSpec[], override?: number): number | null { if (override != null) return Math.round(override * 1000); let end = 0, cyc = 0; for (const a of anims) if (a.iters === Infinity) { const d = Math.round(a.dur); if (d > 0) cyc = cyc === 0 ? d : cyc / gcd(cyc, d) * d; } else end = Math.max(end, a.delay + a.dur * a.iters); const t = Math.max(end, cyc); return t > 0 && t <= 600000 ? t : null; }
function setup(dir: string, ff: { read?: number; code: number }): string {
  const p = join(dir, "ffmpeg-stand-in"); writeFileSync(p, `#!/bin/sh\nif [ "$1" = "-version" ]; then exit 0; fi\necho $$ > '${dir}/pid'\nfor a in "$@"; do printf '%s\\0' "$a"; done > '${dir}/argv'\n${ff.read == null ? `cat > '${dir}/stdin'` : `head -c ${ff.read} > '${dir}/stdin'`}\nexit ${ff.code}\n`); chmodSync(p, 0o755); return p;
}
const svgFor = (v: any): string => `<svg xmlns="http://www.w3.org/2000/svg"${v.sized ? ` viewBox="0 0 ${v.w} ${v.h}"` : ""}><rect width="3" height="3"/></svg>`;
const gone = async (dir: string): Promise<boolean> => { const pid = existsSync(join(dir, "pid")) ? Number(readFileSync(join(dir, "pid"), "utf8")) : 0; if (!(pid > 1)) return true; /* killed before it could even say who it is */ for (let i = 0; i < 150; i++) { try { process.kill(pid, 0); } catch { return true; } await sleep(20); } return false; };
async function video(v: any, dir: string, ff: { read?: number; code: number }, failAt?: number): Promise<{ browser: FakeBrowser; error?: any; logs: string[]; svg: string }> {
  const svg = svgFor(v); const input = join(dir, "in.svg"); writeFileSync(input, svg); const browser = new FakeBrowser({ anims: v.anims, smil: v.smil, frameBytes: v.bytes, failAt }); const logs: string[] = [];
  const ffmpegPath = setup(dir, ff); let error: any; stray.length = 0; let launched = 0;
  try { await runSvgToVideo({ input, output: join(dir, "out.vid"), width: v.width, height: v.height, fps: v.fps, durationSec: v.durationSec, format: v.format, scale: v.scale, background: v.bg, burnCaptions: v.burn, captions: v.captions, keepFrames: v.keep ? join(dir, "frames") : undefined, ffmpegPath, quiet: v.quiet, log: (m: string) => logs.push(m), launchBrowser: (async () => { launched++; return browser; }) as any }); } catch (e) { error = e ?? new Error("rejected with nothing"); }
  await sleep(0); same(browser.closed, launched, "browsers closed"); return { browser, error, logs, svg };
}

await runCheck({ id: "V01", parts: [
  { name: "encoder", rule: "random combinations of format, container, transparency, sizes, sounds, captions with hostile paths; non-trivial = a sound, captions or a resize",
    arb: cmdA, runs: { quick: 3000, thorough: 200000 },
    prop: (c, ctx) => {
      const fmt = resolveFormat(c.format, c.container, c.transparent); const frame: [number, number] = [c.out[0] * c.scale, c.out[1] * c.scale];
      const v = VIDEO[c.format.toLowerCase()]; same([fmt.alpha, fmt.alphaCapable], [c.transparent && v.alpha != null, v.alpha != null], "transparency of the format");
      const argv = buildFfmpegArgs({ fps: c.fps, frameWidth: frame[0], frameHeight: frame[1], outWidth: c.out[0], outHeight: c.out[1], fmt, output: "out.bin", music: c.music, audio: c.audio, audioOffsetSec: c.offset, captions: c.captions, burnCaptions: c.burn, colorRange: c.range as any });
      judge(argv, { fps: c.fps, frame, out: c.out, format: c.format, container: c.container, transparent: c.transparent, music: c.music, audio: c.audio, offset: c.audio ? c.offset : undefined, captions: c.captions, burn: c.burn, range: c.range, output: "out.bin" });
      ctx.hit(c.music != null || c.audio != null || c.captions != null || c.scale !== 1); ctx.label(c.format.toLowerCase());
    } },
  { name: "measures", rule: "random root elements with look-alike attributes, random bounds and random sets of timings; non-trivial = a size is found or a loop derived",
    arb: fc.record({ attrs: fc.shuffledSubarray([0, 1, 2, 3, 4, 5, 6, 7], { minLength: 0, maxLength: 8 }), w: fc.constantFrom("120", "64.5", "7"), h: fc.constantFrom("90", "33.25"), unit: fc.constantFrom("", "px", "%", "cm"), q: fc.constantFrom('"', "'"), sep: fc.constantFrom(" ", ",", ", ", "  "), org: fc.constantFrom("0", "-10", "5.5"), prolog: fc.boolean(), nat: fc.tuple(fc.integer({ min: 1, max: 4000 }), fc.integer({ min: 1, max: 4000 })), max: fc.tuple(opt(fc.integer({ min: 2, max: 3000 })), opt(fc.integer({ min: 2, max: 3000 }))), anims: fc.array(animA, { maxLength: 6, size: "max" }), over: opt(fc.constantFrom(0.5, 2.3456, 1), 4) }), runs: { quick: 4000, thorough: 200000 },
    prop: (c, ctx) => {
      const Q = c.q; const names = [`width=${Q}${c.w}${c.unit}${Q}`, `height=${Q}${c.h}${c.unit}${Q}`, `viewBox=${Q}${c.org}${c.sep}${c.org}${c.sep}300${c.sep}200.5${Q}`, `stroke-width=${Q}2${Q}`, `data-width=${Q}9${Q} data-height=${Q}8${Q}`, `line-height=${Q}17${Q}`, `data-viewBox=${Q}0 0 1 1${Q}`, `aria-label=${Q}a > b${Q}`];
      const tag = `${c.prolog ? "<?xml version=\"1.0\"?>\n" : ""}<svg xmlns="http://www.w3.org/2000/svg" ${c.attrs.map((i) => names[i]).join(" ")}><rect width="1" height="1"/></svg>`; const has = (i: number): boolean => c.attrs.includes(i);
      const px = has(0) && has(1) && (c.unit === "" || c.unit === "px") ? { w: Number(c.w), h: Number(c.h) } : null, box = has(2) ? { w: 300, h: 200.5 } : null;
      same(videoSize(tag), box ?? px, `size for video of ${tag}`); same(metaSize(tag), px ?? box, `size of ${tag}`);
      const r = fitContain(c.nat[0], c.nat[1], c.max[0], c.max[1]); const s = Math.min(c.max[0] != null ? c.max[0] / c.nat[0] : Infinity, c.max[1] != null ? c.max[1] / c.nat[1] : Infinity); const k = s === Infinity ? 1 : s; for (const [got, want] of [[r.width, c.nat[0] * k], [r.height, c.nat[1] * k]]) { same(got % 2, 0, "parity of the video size"); ensure(got >= 2 && Math.abs(got - Math.max(1, want)) <= 1.5, () => `${c.nat} in ${c.max}: ${r.width}x${r.height}`); }
      const want = turn(c.anims, c.over); let got: number | null; try { got = resolveDurationMs(c.anims.map((a) => ({ duration: a.dur, iterations: a.iters, endTime: a.iters === Infinity ? Infinity : a.delay + a.dur * a.iters })), c.over); } catch { got = null; } same(got, want, "length of the animation");
      ctx.hit(px != null || box != null || want != null);
    } },
  { name: "video", rule: "full conversions against the stand-in browser and encoder: random animations (late, unseekable, SMIL), rates, sizes, backgrounds, frame weights; non-trivial = at least two frames",
    arb: runA, runs: { quick: 220, thorough: 6000 },
    prop: async (v, ctx) => {
      const dir = dirFor(); try {
        const r = await video(v, dir, { code: 0 });
        // animations that join late are seen by the measuring pass only once the page has painted
        const seen = turn(v.anims.filter((a: AnimSpec) => !a.late), v.durationSec), all = turn(v.anims, v.durationSec); const noSize = !v.sized && (v.width == null || v.height == null);
        if (noSize || seen == null && all == null) { ensure(r.error, "a conversion that cannot work succeeded"); same(existsSync(join(dir, "argv")), false, "encoder started for nothing"); ctx.label("refused"); return; }
        if (seen !== all) { ctx.label("late timing"); if (r.error) return; }
        ensure(!r.error, () => `conversion failed: ${r.error}`); same(stray, [], "stray errors");
        const out = v.sized ? fitContain(v.w, v.h, v.width, v.height) : fitContain(v.width!, v.height!); const b = r.browser; const tr = TRANSPARENT.has(v.bg), can = VIDEO[v.format].alpha != null;
        same(b.contexts.map((x) => [x.viewport.width, x.viewport.height, x.deviceScaleFactor]), [[out.width, out.height, v.scale]], "page size"); same(b.html.length, 1, "page loads"); same(b.html[0].split(r.svg).length, 2, "copies of the document on the page");
        const bg = /html,body\{[^}]*background:([^;}]*)/.exec(b.html[0])?.[1]; same(bg, tr ? (can ? "transparent" : "#ffffff") : v.bg, "page background");
        const D = [seen, all].filter((x): x is number => x != null); const got = frames(readFileSync(join(dir, "stdin"))); const counts = D.map((d) => Math.max(1, Math.round(d / 1000 * v.fps))); ensure(counts.includes(got.length), () => `${got.length} frames for ${D} ms at ${v.fps}/s`);
        got.forEach((f, i) => { const t = (i + 0.5) * 1000 / v.fps; v.anims.forEach((a: AnimSpec, k: number) => { if (!a.refuses) near(f.head.a[k], t, 1e-6, `animation ${k} in frame ${i}`); }); f.head.s.forEach((x: number) => near(x * 1000, t, 1e-6, `SMIL time in frame ${i}`)); same(f.head.omit, tr && can, `see-through frame ${i}`); ensure(b.shots.some((s) => s.bytes.equals(f.raw)), `frame ${i} is not what the browser returned`); if (i) ensure(f.head.n > got[i - 1].head.n, "frames out of order"); });
        for (const s of b.shots) { ensure(s.opts.animations !== "disabled", "animations disabled in a frame"); same(s.opts.type ?? "png", "png", "frame format"); }
        if (v.keep) { const kept = readdirSync(join(dir, "frames")).sort(); same(kept.length, got.length, "kept frames"); kept.forEach((n, i) => ensure(readFileSync(join(dir, "frames", n)).equals(got[i].raw), `kept frame ${n} differs from the one encoded`)); }
        const argv = readFileSync(join(dir, "argv"), "utf8").split("\0").slice(0, -1); judge(argv, { fps: v.fps, frame: [out.width * v.scale, out.height * v.scale], out: [out.width, out.height], format: v.format, transparent: tr, captions: v.captions, burn: v.burn, output: join(dir, "out.vid") });
        ctx.hit(got.length >= 2); ctx.label(v.smil ? "smil" : "css");
      } finally { rmSync(dir, { recursive: true, force: true }); }
    } },
  { name: "faults", rule: "conversions in which the encoder dies after a random number of bytes or the browser at a random call; non-trivial = the fault happens after the encoder was started",
    arb: fc.record({ v: runA.filter((v) => v.sized && turn(v.anims.filter((a) => !a.late), v.durationSec) != null), who: fc.constantFrom("encoder", "browser", "missing"), read: fc.constantFrom(0, 1, 100, 66000, 400000), code: fc.integer({ min: 1, max: 250 }), at: fc.integer({ min: 0, max: 40 }) }), runs: { quick: 90, thorough: 3000 },
    prop: async ({ v, who, read, code, at }, ctx) => {
      const dir = dirFor(); try {
        if (who === "missing") { const input = join(dir, "in.svg"); writeFileSync(input, svgFor(v)); let launched = 0, err: any; try { await runSvgToVideo({ input, output: join(dir, "o.mp4"), fps: v.fps, format: "h264", scale: 1, background: "white", burnCaptions: false, ffmpegPath: join(dir, "nope"), quiet: true, log: () => {}, launchBrowser: async () => { launched++; throw new Error("no"); } }); } catch (e) { err = e; } ensure(/ffmpeg not found/.test(String(err?.message)), `missing encoder: ${err}`); same(launched, 0, "browsers started without an encoder"); return; }
        const r = await video(v, dir, who === "encoder" ? { read, code } : { code: 0 }, who === "browser" ? at : undefined); const started = existsSync(join(dir, "argv"));
        if (who === "browser" && r.browser.calls <= at) { ensure(!r.error, () => `failed without a fault: ${r.error}`); ctx.label("no fault reached"); return; }
        ensure(r.error instanceof Error, () => `the run did not fail (${who}, ${show(r.error)})`); if (who === "browser") ensure(/browser went away/.test(String(r.error.message)), () => `the failure hides its cause: ${r.error}`); else ensure(new RegExp(`\\b${code}\\b`).test(String(r.error.message)), () => `the failure does not name the encoder's exit code ${code}: ${r.error}`);
        await sleep(5); same(stray.map(String), [], "errors nobody handled"); ensure(await gone(dir), "the encoder was left running"); ensure(!r.logs.some((l) => /^wrote /.test(l)), "a failed run reports success"); ctx.hit(started); ctx.label(who);
      } finally { rmSync(dir, { recursive: true, force: true }); }
    } },
  { name: "still", rule: "image conversions: random formats, instants, bounds, scales and backgrounds; non-trivial = animated input or a transcoded format",
    arb: fc.record({ anims: fc.array(animA.map((a) => ({ ...a, refuses: false })), { maxLength: 3 }), smil: fc.constantFrom(0, 1), w: fc.integer({ min: 1, max: 300 }), h: fc.integer({ min: 1, max: 300 }), width: opt(fc.integer({ min: 1, max: 300 })), height: opt(fc.integer({ min: 1, max: 300 })), ext: fc.constantFrom("png", "jpg", "jpeg", "PNG", "pdf", "webp", "tif", "tiff"), format: opt(fc.constantFrom("png", "jpeg", "pdf", "webp", "tiff"), 4), atMs: opt(fc.constantFrom(0, 1, 333.3, 5000)), scale: opt(fc.constantFrom(1, 2)), bg: opt(fc.constantFrom("transparent", "white", "#1234", "#0000")) }), runs: { quick: 250, thorough: 10000 },
    prop: async (v, ctx) => {
      const dir = dirFor(); try {
        const input = join(dir, "in.svg"), output = join(dir, `o.${v.ext}`); writeFileSync(input, svgFor({ ...v, sized: true })); const fmt = v.format ?? ({ jpg: "jpeg", tif: "tiff" } as any)[v.ext.toLowerCase()] ?? v.ext.toLowerCase();
        const pic = png(12, 9, (x, y) => [x * 20, y * 20, 90, x < 4 ? 0 : 255]); const b = new FakeBrowser({ anims: v.anims, smil: v.smil, frameBytes: 9, ...(["webp", "tiff"].includes(fmt) ? { realPng: pic } : {}) });
        const r = await runSvgToImage({ input, output, format: v.format as any, width: v.width, height: v.height, atMs: v.atMs, scale: v.scale, background: v.bg, log: () => {}, launchBrowser: (async () => b) as any });
        same(b.closed, 1, "browsers closed"); same(r.format, fmt, "format"); same(b.shots.length, 1, "pictures taken"); const shot = b.shots[0]; const file = readFileSync(output);
        const k = v.width == null && v.height == null ? 1 : Math.min(v.width != null ? v.width / v.w : Infinity, v.height != null ? v.height / v.h : Infinity); for (const [g, n, m] of [[r.width, v.w, v.width], [r.height, v.h, v.height]] as const) { ensure(Math.abs(g - Math.max(1, n * k)) <= 0.5 + 1e-9, () => `${v.w}x${v.h} in ${v.width}x${v.height}: ${r.width}x${r.height}`); ensure(m == null || g <= m, "larger than its bound"); }
        same([b.contexts[0].viewport.width, b.contexts[0].viewport.height, b.contexts[0].deviceScaleFactor], [r.width, r.height, fmt === "pdf" ? 1 : v.scale ?? 1], "page size");
        const t = v.atMs ?? 0; shot.state.a.forEach((x: number, i: number) => near(x, t, 1e-6, `animation ${i}`)); shot.state.s.forEach((x: number) => near(x * 1000, t, 1e-6, "SMIL time"));
        const tr = v.bg == null || TRANSPARENT.has(v.bg), opaque = fmt === "jpeg" || fmt === "pdf"; if (!opaque) same(shot.opts.omitBackground === true, tr, "see-through"); const bg = /html,body\{[^}]*background:([^;}]*)/.exec(b.html[0])?.[1]; same(bg, tr && opaque ? "#ffffff" : v.bg ?? "transparent", "page background");
        if (fmt === "png" || fmt === "jpeg" || fmt === "pdf") ensure(file.equals(shot.bytes), "the file is not the picture taken"); if (fmt === "jpeg") same(shot.opts.type, "jpeg", "picture format"); if (fmt === "pdf") { same([shot.opts.width, shot.opts.height, shot.opts.printBackground], [`${r.width}px`, `${r.height}px`, true], "PDF page"); }
        if (fmt === "webp" || fmt === "tiff") { const a = await sharp(pic).ensureAlpha().raw().toBuffer(), m = await sharp(file).metadata(), g = await sharp(file).ensureAlpha().raw().toBuffer(); same([m.format, m.width, m.height], [fmt, 12, 9], "transcoded picture"); if (fmt === "tiff") ensure(a.equals(g), "the TIFF is not lossless"); else for (let i = 3; i < a.length; i += 4) ensure(Math.abs(a[i] - g[i]) < 40, "alpha lost in the WebP"); }
        ctx.hit(v.anims.length > 0 || ["webp", "tiff"].includes(fmt)); ctx.label(fmt);
      } finally { rmSync(dir, { recursive: true, force: true }); }
    } },
], assumptions: ["the browser and ffmpeg are stand-ins; ffmpeg's command line and filter graph are read by an independent parser of its documented syntax", "paths of captions are not checked to exist"] });
