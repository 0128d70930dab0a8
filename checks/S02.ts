// S02: executing a scroll pattern. Oracle: a reference interpreter of the pattern
// language over a model page (docs/37), compared with the captures the executor takes.
import { registerHooks } from "node:module";
import { fc, runCheck, ensure, fail, near, show } from "../lib/harness.ts";
import { el } from "../lib/tree.ts";
registerHooks({ resolve(spec, ctx, next) {
  if (/capture\/index\.(js|ts)$/.test(spec) && ctx.parentURL?.includes("/src/scroll/")) return { url: new URL("../lib/stub-capture.ts", import.meta.url).href, shortCircuit: true };
  return next(spec, ctx);
} });
import { parseXml } from "../lib/xml.ts";
import { Player } from "../lib/css.ts";
const { parseScrollPattern, executeScrollPattern, composeScrollSvg } = await import("/repo/src/scroll/index.ts");

const changes = (c: Cfg, ms: number): boolean => ms > 0 && c.lazy[Math.round(ms) % c.lazy.length];
class HTMLElementFake { }
interface Cfg { W: number; H: number; maxX: number; maxY: number; sels: Record<string, { x: number; y: number }>; inner: boolean; startY: number; startX: number; prescroll: boolean; lazy: boolean[]; speed?: number; fractional: boolean }
/** A page with a scroller, nothing else: what the executor can see of a browser. */
function fakePage(c: Cfg) {
  const st = { x: c.startX, y: c.startY, version: 0, waits: [] as number[], captures: [] as any[] };
  const clampX = (v: number) => Math.min(Math.max(0, v), c.maxX), clampY = (v: number) => Math.min(Math.max(0, v), c.maxY);
  const wx = () => c.inner ? 0 : st.x, wy = () => c.inner ? 0 : st.y;
  const scroller = Object.create(HTMLElementFake.prototype);
  Object.defineProperties(scroller, {
    scrollLeft: { get: () => st.x, set: (v) => { st.x = clampX(v); } }, scrollTop: { get: () => st.y, set: (v) => { st.y = clampY(v); } },
    scrollWidth: { get: () => c.W + c.maxX }, scrollHeight: { get: () => c.H + c.maxY }, clientWidth: { get: () => c.W }, clientHeight: { get: () => c.H },
  });
  const docEl = c.inner ? { scrollWidth: c.W, scrollHeight: c.H, clientWidth: c.W, clientHeight: c.H } : scroller;
  const win = { get scrollX() { return wx(); }, get scrollY() { return wy(); }, get pageXOffset() { return wx(); }, get pageYOffset() { return wy(); }, innerWidth: c.W, innerHeight: c.H, scrollTo: (a: any, b?: any) => { if (c.inner) return; if (typeof a === "object") { st.x = clampX(a.left ?? st.x); st.y = clampY(a.top ?? st.y); } else { st.x = clampX(a); st.y = clampY(b); } } };
  const doc = { documentElement: docEl, scrollingElement: docEl, body: docEl, querySelector: (s: string) => {
    if (s === "#scroller") return c.inner ? scroller : null;
    const b = Object.hasOwn(c.sels, s) ? c.sels[s] : null; if (!b) return null;
    const r = { left: b.x - wx(), top: b.y - wy(), width: 50, height: 20, x: b.x - wx(), y: b.y - wy(), right: b.x - wx() + 50, bottom: b.y - wy() + 20 };
    return Object.assign(Object.create(HTMLElementFake.prototype), { getBoundingClientRect: () => r });
  } };
  const page = {
    evaluate: async (fn: any, arg: any) => {
      const g = globalThis as any; const saved = { window: g.window, document: g.document, HTMLElement: g.HTMLElement };
      g.window = win; g.document = doc; g.HTMLElement = HTMLElementFake; g.scrollTo = win.scrollTo;
      try { return await fn(arg); } finally { g.window = saved.window; g.document = saved.document; g.HTMLElement = saved.HTMLElement; delete g.scrollTo; }
    },
    // Content arrives after some waits and not after others.
    waitForTimeout: async (ms: number) => { st.waits.push(ms); if (changes(c, ms)) st.version++; },
    __capture: (mode: string, selector: string, viewport: any) => {
      const snap = { mode, selector, viewport, x: st.x, y: st.y, version: st.version };
      st.captures.push(snap);
      return [el({ x: 0, y: 0, width: c.W, height: c.H, children: [el({ x: 3, y: 4, width: 40, height: 10, text: `v${st.version}` })] })];
    },
  };
  return { page, st };
}

// ── reference interpreter ──
interface Step { x: number; y: number; start: number; end: number; easing: any; loose: boolean; minEnd: number }
class Stop extends Error { }
function reference(p: any, c: Cfg, limit = 500): { steps: Step[]; total: number; ops: number } | null {
  let x = c.prescroll ? (c.inner ? c.startX : 0) : c.startX, y = c.prescroll ? 0 : c.startY, t = 0, drift = 0; const steps: Step[] = []; let ops = 0;
  const maxOf = (a: string) => a === "x" ? c.maxX : c.maxY, cur = (a: string) => a === "x" ? x : y;
  const px = (l: any, a: string) => l.unit === "px" ? l.value : l.value / 100 * maxOf(a);
  const abs = (tg: any, a: string): number => {
    let b: number; const an = tg.anchor;
    if (an.kind === "selector") { const s = c.sels[an.cssSelector]; if (!s) throw new Stop("no such element"); b = (tg.axisSuffix ?? a) === "x" ? s.x : s.y; }
    else b = an.name === "top" || an.name === "left" || an.name === "start" ? 0 : an.name === "bottom" ? c.maxY : an.name === "right" ? c.maxX : maxOf(a);
    for (const o of tg.offsets) b += (o.op === "+" ? 1 : -1) * px(o.length, a);
    return b;
  };
  const axisOf = (tg: any, dir?: string): string => dir ? (dir === "up" || dir === "down" ? "y" : "x") : tg.kind === "delta" ? "y" : tg.anchor.kind === "named" && (tg.anchor.name === "left" || tg.anchor.name === "right") ? "x" : tg.anchor.kind === "named" && (tg.anchor.name === "top" || tg.anchor.name === "bottom") ? "y" : tg.axisSuffix ?? "y";
  type Cap = (a: string, d: number) => number;
  const act = (a: any, caps: Cap[]): void => {
    if (++ops > limit) throw new Stop("too long");
    if (a.kind === "pause") { t += a.durationMs; steps.push({ x, y, start: t - a.durationMs, end: t, easing: "pause", loose: false, minEnd: t }); return; }
    const axis = axisOf(a.target, a.direction); const sign = a.direction == null ? 0 : a.direction === "down" || a.direction === "right" ? 1 : -1;
    let d: number;
    if (a.target.kind === "delta") d = (sign || 1) * a.target.signedLength.sign * px(a.target.signedLength, axis);
    else { d = abs(a.target, axis) - cur(axis); if (sign && d !== 0 && Math.sign(d) !== sign) d = 0; }
    let dest = Math.min(Math.max(0, cur(axis) + d), maxOf(axis));
    const ms = a.durationMs ?? Math.round(Math.abs(dest - cur(axis)) / (a.speedPxPerSec ?? c.speed ?? 1500) * 1000);
    const full = dest; for (const cap of caps) dest = cap(axis, dest);
    const vp = axis === "x" ? c.W : c.H; const from = cur(axis); const dist = Math.abs(dest - from);
    const n = Math.max(1, Math.ceil(dist / vp)); const dir = dest >= from ? 1 : -1;
    const t0 = t;
    for (let k = 1; k <= n; k++) {
      const pos = k === n ? dest : from + dir * k * vp; if (axis === "x") x = pos; else y = pos;
      steps.push({ x, y, start: t0 + ms * (k - 1) / n, end: t0 + ms * k / n, easing: a.easing, loose: full !== dest, minEnd: t0 });
    }
    t = t0 + ms;
  };
  const untilAxis = (tg: any): string => tg.axisSuffix ?? (tg.anchor.kind === "named" && (tg.anchor.name === "left" || tg.anchor.name === "right") ? "x" : "y");
  const seg = (s: any, caps: Cap[]): void => {
    const body = (cs: Cap[]) => s.kind === "bracketed" ? s.pattern.segments.forEach((q: any) => seg(q, cs)) : s.actions.forEach((q: any) => act(q, cs));
    if (!s.until) return body(caps);
    if (s.until.kind === "count") { for (let i = 0; i < s.until.count; i++) body(caps); return; }
    const a = untilAxis(s.until.target); let px0: number | null = null, py0 = 0;
    for (let i = 0; i < 1000; i++) {
      const target = abs(s.until.target, a), here = cur(a);
      if (Math.abs(here - target) < 0.5) break;
      // The loop's goal lies behind it: what "reached" means then is not documented.
      if (target > 0 && here > target) { if (i === 0) throw new Stop("target behind"); break; }
      if (target < 0) throw new Stop("unreachable target");
      if (px0 != null && px0 === x && py0 === y) break;
      px0 = x; py0 = y;
      body([...caps, (ax, dest) => ax !== a ? dest : dest > here && target >= here ? Math.min(dest, target) : dest < here && target <= here ? Math.max(dest, target) : dest]);
    }
  };
  try { p.segments.forEach((q: any) => seg(q, [])); } catch (e) { if (e instanceof Stop) return e.message === "no such element" ? { steps: [], total: -1, ops } : null; throw e; }
  return { steps, total: t, ops };
}

// ── patterns ──
const n1 = fc.oneof(fc.integer({ min: 0, max: 3000 }).map(String), fc.integer({ min: 1, max: 9000 }).map((v) => (v / 8).toString()));
const lenA = fc.oneof({ weight: 3, arbitrary: n1.map((n) => `${n}px`) }, { weight: 1, arbitrary: fc.integer({ min: 0, max: 120 }).map((n) => `${n}%`) });
const SEL = [".a", ".b", "#deep", ".missing"];
const anchor = fc.oneof({ weight: 4, arbitrary: fc.constantFrom("top", "bottom", "left", "right", "start", "end", "start.x", "end.x", "bottom.y") }, { weight: 2, arbitrary: fc.tuple(fc.constantFrom(".a", ".b", "#deep", ".a", ".b", ".missing"), fc.constantFrom("", "", ".x", ".y")).map(([s, a]) => `selector("${s}")${a}`) });
const absS = fc.tuple(anchor, fc.array(fc.tuple(fc.constantFrom("+", "-"), lenA), { maxLength: 2 })).map(([a, o]) => a + o.map(([s, l]) => ` ${s} ${l}`).join(""));
const scrollS = fc.tuple(fc.constantFrom("", "", "down:", "down:", "up:", "left:", "right:", "right:"), fc.oneof({ weight: 3, arbitrary: fc.tuple(fc.constantFrom("", "", "", "-"), lenA).map(([s, l]) => s + l) }, { weight: 2, arbitrary: absS }), fc.oneof(fc.constant(""), fc.constant(""), fc.integer({ min: 0, max: 5000 }).map((d) => `/${d}ms`), fc.integer({ min: 1, max: 4 }).map((d) => `/${d}s`), fc.integer({ min: 50, max: 4000 }).map((s) => `@${s}pxps`)), fc.constantFrom("", "", "[ease-in]", "[steps(3)]", "[cubic-bezier(0.5,-0.5,0.5,1.5)]", "[linear]")).map((t) => t.join(""));
const actS = fc.oneof({ weight: 4, arbitrary: scrollS }, { weight: 1, arbitrary: fc.integer({ min: 0, max: 3000 }).map((d) => `pause:${d}ms`) });
const untilS = fc.oneof({ weight: 3, arbitrary: fc.constant("") }, { weight: 1, arbitrary: fc.integer({ min: 1, max: 4 }).map((n) => ` until ${n} times`) }, { weight: 3, arbitrary: fc.oneof(fc.constantFrom("bottom", "bottom - 1000px", "right", "end - 5%", "bottom - 33px"), absS).map((a) => ` until ${a}`) });
const { pat } = fc.letrec((tie) => ({
  pat: fc.array(tie("seg"), { minLength: 1, maxLength: 3 }).map((a: any) => a.join(", ")),
  seg: fc.oneof({ maxDepth: 2 }, fc.tuple(fc.array(actS, { minLength: 1, maxLength: 3 }).map((a) => a.join(", ")), untilS).map(([a, u]) => a + u), fc.tuple(tie("pat"), untilS).map(([p, u]) => `(${p})${u}`)),
}));
const cfgA: fc.Arbitrary<Cfg> = fc.record({
  W: fc.integer({ min: 100, max: 1400 }), H: fc.integer({ min: 80, max: 1000 }), maxX: fc.constantFrom(0, 0, 150, 2600), maxY: fc.oneof(fc.integer({ min: 0, max: 6000 }), fc.constantFrom(0, 4000, 1234.5)),
  sels: fc.record({ ".a": fc.record({ x: fc.integer({ min: 0, max: 900 }), y: fc.integer({ min: 0, max: 5000 }) }), ".b": fc.record({ x: fc.integer({ min: 0, max: 2000 }), y: fc.integer({ min: 0, max: 900 }) }), "#deep": fc.constant({ x: 10, y: 3000.25 }) }),
  inner: fc.boolean(), startY: fc.constantFrom(0, 0, 0, 321, 50), startX: fc.constantFrom(0, 0, 40), prescroll: fc.boolean(), lazy: fc.array(fc.boolean(), { minLength: 1, maxLength: 3 }), speed: fc.constantFrom(undefined, undefined, 300, 4000), fractional: fc.boolean(),
}).map((c) => ({ ...c, startY: Math.min(c.startY, c.maxY), startX: Math.min(c.startX, c.maxX) }));

await runCheck({ id: "S02", assumptions: ["the browser capture call is replaced by a stand-in that records position and content version; scrolling behaves as an instant, clamped scrollTo", "loops whose goal lies behind the current position are left out: what 'reached' means there is undocumented"], parts: [
  { name: "execution", rule: "random patterns x random page extents/viewports/window-or-inner scrollers; non-trivial = the reference plan has a loop, a multi-viewport scroll, or a pause, and at least two captures",
    arb: fc.record({ src: pat as fc.Arbitrary<string>, c: cfgA }), runs: { quick: 4000, thorough: 120000 },
    prop: async ({ src, c }, ctx) => {
      const p = parseScrollPattern(src);
      const cfg: Cfg = c.inner && src.includes("selector(") ? { ...c, inner: false } : c;
      const ref = reference(p, cfg, 120);
      if (ref == null) { ctx.label("outside the specified domain"); return; }
      const { page, st } = fakePage(cfg);
      let last = { x: NaN, y: NaN };
      const caps: any[] = [];
      const run = (): Promise<any[]> => executeScrollPattern(page as any, p, { viewportW: cfg.W, viewportH: cfg.H, prescroll: cfg.prescroll, selector: cfg.inner ? "#scroller" : undefined, defaultSpeed: cfg.speed, captureSelector: "main", maxTimeoutMs: 1e9, log: () => {} });
      if (ref.total < 0) {
        let msg = ""; try { await run(); } catch (e) { msg = (e as Error).name; }
        ensure(msg === "ScrollExecutionError", () => `${show(src)}: a selector that matches nothing must be reported as a scroll-execution error, got ${msg || "success"}`); ctx.label("missing selector"); ctx.hit(); return;
      }
      caps.push(...await run());
      const scrolls = ref.steps.filter((s) => s.easing !== "pause"); const pauses = ref.steps.filter((s) => s.easing === "pause");
      ctx.hit((src.includes("until") || pauses.length > 0 || scrolls.length > p.segments.length) && ref.steps.length >= 2);
      ctx.label(src.includes("until") && "until", pauses.length > 0 && "pause", cfg.inner && "inner scroller", scrolls.some((s) => s.loose) && "clamped to target", scrolls.length > 4 && "5+ captures");
      ensure(st.captures.every((k) => k.mode === "embedded" && k.selector === "main"), "every capture must be self-contained and of the requested subtree");
      const first = caps[0]; ensure(first && first.segmentStartMs === 0 && first.segmentEndMs === 0 && first.diffFromPrev == null, () => `${show(src)}: the first capture must be the initial state`);
      near(first.scrollY, cfg.prescroll ? 0 : cfg.startY, 1e-6, "initial scroll y"); near(first.scrollX, cfg.prescroll && !cfg.inner ? 0 : cfg.startX, 1e-6, "initial scroll x");
      // Walk the plan and the captures together. A pause adds a capture exactly when the page changed during it.
      let k = 1, drift = 2, prevEnd = 0;
      for (const s of ref.steps) {
        if (s.easing === "pause") {
          drift += 1;
          const changed = changes(cfg, s.end - s.start);
          if (!changed) continue;
          const g = caps[k++]; ensure(g, () => `${show(src)}: the page changed during a pause but no capture followed`);
          near(g.scrollX, s.x, 0.01, () => `${show(src)}: x during a pause`); near(g.scrollY, s.y, 0.01, () => `${show(src)}: y during a pause`);
          near(g.segmentEndMs - g.segmentStartMs, s.end - s.start, 0.01, () => `${show(src)}: pause length`);
          near(g.segmentEndMs, s.end, drift, () => `${show(src)}: pause end time`); prevEnd = g.segmentEndMs; continue;
        }
        const g = caps[k++]; drift += 1;
        ensure(g, () => `${show(src)} on ${show(cfg)}: expected a capture at (${s.x}, ${s.y}), got only ${caps.length}`);
        near(g.scrollX, s.x, 0.01, () => `${show(src)} on ${show(cfg)}: capture ${k - 1} x`); near(g.scrollY, s.y, 0.01, () => `${show(src)} on ${show(cfg)}: capture ${k - 1} y`);
        ensure(g.segmentStartMs >= prevEnd - 1e-6 && g.segmentEndMs >= g.segmentStartMs, () => `${show(src)}: segment times run backwards: ${show(caps.map((q) => [q.segmentStartMs, q.segmentEndMs]))}`);
        if (!ref.steps.some((q) => q.loose)) { near(g.segmentStartMs, s.start, drift, () => `${show(src)}: capture ${k - 1} start time`); near(g.segmentEndMs, s.end, drift, () => `${show(src)}: capture ${k - 1} end time`); }
        ensure(JSON.stringify(g.easing) === JSON.stringify(s.easing), () => `${show(src)}: capture ${k - 1} easing ${show(g.easing)}, expected ${show(s.easing)}`);
        ensure(g.diffFromPrev != null, "a later capture carries its diff"); prevEnd = g.segmentEndMs;
      }
      ensure(caps.length === k, () => `${show(src)} on ${show(cfg)}: ${caps.length} captures, expected ${k}`);
      ensure(caps.every((g) => g.scrollX >= 0 && g.scrollX <= cfg.maxX && g.scrollY >= 0 && g.scrollY <= cfg.maxY), "a capture lies outside the page");
      // The composed animation plays the whole pattern, a closing pause included.
      if (!ref.steps.some((q) => q.loose) && ref.total >= 1 && ref.steps.length <= 12) {
        const root = parseXml(composeScrollSvg(caps, { viewportW: cfg.W, viewportH: cfg.H }));
        const durs = new Player(root).durations();
        ensure(durs.length > 0 && durs.every((d) => Math.abs(d - ref.total) <= drift), () => `${show(src)}: the pattern lasts ${ref.total} ms but the composed loop lasts ${show(durs)}`);
        const tailPause = ref.steps.at(-1)!.easing === "pause"; ctx.label(tailPause && "ends in a pause");
      }
    } },
] });
