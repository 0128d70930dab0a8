// A02: intra-frame animations. Oracle: the value each track's definition gives at
// the instant (hold from → ease → hold to; own-clock cycles for repeats), composed
// as CSS composes them, against the document played by an independent evaluator.
import { fc, runCheck, ensure, near, same, show } from "../lib/harness.ts";
import { parseXml, walk, classes, type XNode } from "../lib/xml.ts";
import { Player, parseEasing, matOf, parseTransform, mul, I, type Mat } from "../lib/css.ts";
import { el } from "../lib/tree.ts";
import { generateAnimatedSvg, elementTreeToSvgInner, annotateAnimatedProperties, resolveEasingPreset } from "/repo/src/index.ts";

const EASES = [undefined, undefined, "linear", "ease", "ease-in", "ease-out", "ease-in-out", "cubic-bezier(0.22,1,0.36,1)", "cubic-bezier(0.34,1.56,0.64,1)", "cubic-bezier(0.68,-0.55,0.265,1.55)"];
const smooth = fc.constantFrom(...EASES, "spring-bouncy", "spring-soft").map((e) => e && resolveEasingPreset(e));
const anyEase = fc.oneof({ weight: 4, arbitrary: smooth }, { weight: 1, arbitrary: fc.constantFrom("steps(4)", "steps(3, jump-start)", "step-end", "steps(2, jump-none)", "steps(3, jump-both)") });
const opt = <T>(a: fc.Arbitrary<T>, freq = 2): fc.Arbitrary<T | undefined> => fc.option(a, { nil: undefined, freq });
const px = fc.integer({ min: -800, max: 800 }).map((n) => n / 2);
/** A track: its property, and per end the numbers that vary, with the CSS they print to. */
type Kind = { prop: string; css: (v: number[]) => string; n: number };
const KINDS: Record<string, Kind> = {
  translateX: { prop: "translateX", css: ([a]) => `${a}px`, n: 1 }, translateY: { prop: "translateY", css: ([a]) => `${a}px`, n: 1 },
  scale: { prop: "scale", css: ([a]) => `${a}`, n: 1 }, opacity: { prop: "opacity", css: ([a]) => `${a}`, n: 1 },
  width: { prop: "width", css: ([a]) => `${a}px`, n: 1 }, height: { prop: "height", css: ([a]) => `${a}%`, n: 1 },
  clipPath: { prop: "clipPath", css: ([a, b]) => `inset(${b}% ${a}% -10% 0)`, n: 2 },
  transform: { prop: "transform", css: ([a, b, c]) => `translate(${a}px, ${b}px) scale(${c})`, n: 3 },
  rotate: { prop: "transform", css: ([a, b]) => `rotate(${a}deg) translateX(${b}px)`, n: 2 },
};
const num = (k: string, i: number): fc.Arbitrary<number> =>
  k === "scale" || (k === "transform" && i === 2) ? fc.constantFrom(0, 0.3, 0.6, 0.8, 1, 1.1, 1.25, 2, -1) : k === "opacity" ? fc.constantFrom(0, 0.2, 0.35, 0.5, 0.8, 1)
    : k === "clipPath" || k === "height" ? fc.integer({ min: 0, max: 100 }) : k === "width" ? fc.integer({ min: 0, max: 400 }) : k === "rotate" && i === 0 ? fc.integer({ min: -360, max: 360 }) : px;
const endsOf = (k: string): fc.Arbitrary<{ k: string; a: number[]; b: number[] }> => { const t = fc.tuple(...Array.from({ length: KINDS[k].n }, (_, i) => num(k, i))); return fc.record({ k: fc.constant(k), a: t as any, b: t as any }) as any; };
const trackA = fc.constantFrom(...Object.keys(KINDS)).chain(endsOf);
const groups: Record<string, string> = { translateX: "t", translateY: "t", scale: "t", transform: "t", rotate: "t" };
const fuseA = (main: string): fc.Arbitrary<any[]> => fc.uniqueArray(fc.tuple(fc.constantFrom(...Object.keys(KINDS).filter((k) => k !== main)).chain(endsOf), opt(fc.integer({ min: 60, max: 1500 })), opt(fc.integer({ min: 0, max: 800 })), opt(smooth)), { maxLength: 3, selector: (x) => KINDS[x[0].k].prop });
const animA = trackA.chain((t) => fc.record({
  t: fc.constant(t), d: fc.integer({ min: 60, max: 2500 }), delay: opt(fc.oneof(fc.integer({ min: 0, max: 1500 }), fc.constant(0))), mode: fc.constantFrom("plain", "plain", "fuse", "own", "own", "repeat"),
  easing: anyEase, smoothEase: smooth, fuse: fuseA(t.k), repeat: fc.oneof(fc.constant("infinite" as const), fc.integer({ min: 1, max: 6 })), alternate: opt(fc.boolean()), neg: fc.integer({ min: 0, max: 1500 }),
  org: opt(fc.constantFrom("center", "50% 50%", "left top", "10px 20px"), 3), box: opt(fc.constantFrom("fill-box", "stroke-box", "view-box"), 2),
}));
const sceneA = fc.record({
  frames: fc.array(fc.record({ d: fc.integer({ min: 200, max: 3000 }), tr: fc.constantFrom(undefined, 0, 200, 450), anims: fc.array(animA, { minLength: 0, maxLength: 3, size: "max" }) }), { minLength: 1, maxLength: 5, size: "max" }),
  ts: fc.array(fc.integer({ min: 0, max: 1000 }), { minLength: 3, maxLength: 5 }), loops: fc.constantFrom(0, 0, 1, 3), pad: fc.constantFrom(0, 0, 8000, 40000),
});

interface Track { k: string; a: number[]; b: number[]; s: number; d: number; ease: (p: number, before?: boolean) => number; rep?: { n: number; alt: boolean } }
/** Eased progress of a track at document time t (ms); `scene` = loop length. */
function progress(tr: Track, t: number, scene: number): number {
  if (!tr.rep) { const u = ((t % scene) + scene) % scene; const p = (u - tr.s) / tr.d; return p <= 0 ? 0 : p >= 1 ? 1 : tr.ease(p); }
  const local = t - tr.s; const { n, alt } = tr.rep;
  if (local < 0) return tr.ease(0, true);
  let over = false, k = Math.floor(local / tr.d), p = local / tr.d - k; if (k >= n) { k = n - 1; p = 1; over = true; }
  return tr.ease(alt && k % 2 === 1 ? 1 - p : p, over && alt && k % 2 === 1);
}
function mapFor(trs: Track[], ps: number[]): Map<string, number[]> {
  const out = new Map<string, number[]>(); let m: Mat = I, hasT = false;
  trs.forEach((tr, i) => {
    const v = tr.a.map((x, q) => x + (tr.b[q] - x) * ps[i]);
    if (groups[tr.k]) { hasT = true; const K = KINDS[tr.k]; m = mul(m, matOf(parseTransform(K.prop === "transform" ? K.css(v) : `${K.prop}(${K.css(v)})`))); }
    else out.set(tr.k === "clipPath" ? "clip-path" : tr.k, tr.k === "opacity" ? [Math.max(0, Math.min(1, v[0]))] : v);
  });
  if (hasT) out.set("transform", [...m]);
  return out;
}
const readVal = (prop: string, v: string): number[] => prop === "transform" ? [...matOf(parseTransform(v))] : prop === "clip-path" ? (() => { const m = /^inset\(\s*(\S+)%\s+(\S+)%\s+-10%\s+0\s*\)$/.exec(v); if (!m) throw new Error(`clip-path ${v}`); return [Number(m[2]), Number(m[1])]; })() : prop === "opacity" ? [Math.max(0, Math.min(1, Number(v)))] : [parseFloat(v)];

await runCheck({ id: "A02", parts: [
  { name: "values", rule: "1-5 frames holding 0-3 animations each (plain, shared-clock fused, own-clock fused, repeating / alternating / negative phase), 12 easings incl. overshoot, springs and steps, scenes up to a minute; every animated property read before, inside and after its window, in several loops; non-trivial = a probe falls strictly inside an animation's window",
    arb: sceneA, runs: { quick: 700, thorough: 30000 },
    prop: (c, ctx) => {
      const frames = c.frames.map((f, i) => ({ ...f, d: f.d + (i === c.frames.length - 1 ? c.pad : 0) }));
      const adv = frames.map((f) => f.d + (f.tr ?? 300)); const starts = adv.map((_, i) => adv.slice(0, i).reduce((x, y) => x + y, 0)); const total = adv.reduce((x, y) => x + y, 0);
      const want: { id: string; tracks: Track[]; org?: string; box?: string; sampled: boolean; rep: boolean }[] = [];
      const cfgFrames = frames.map((f, i) => {
        const anims = f.anims.map((a, ai) => {
          const id = `f${i}a${ai}`; const room = f.d; // windows stay inside the hold, as the schema asks
          const d = Math.min(a.d, room), fit = (x: number | undefined, dd: number): number | undefined => x == null ? undefined : Math.max(0, Math.min(x, room - dd));
          const delay = a.mode === "repeat" && a.neg % 3 === 0 ? -a.neg : fit(a.delay, d);
          const easing = a.mode === "own" ? a.smoothEase : a.easing;
          const rep = a.mode === "repeat" ? { n: a.repeat === "infinite" ? Infinity : a.repeat, alt: a.alternate === true } : undefined;
          const mk = (t: any, s: number, dd: number, e: string | undefined): Track => ({ ...t, s: starts[i] + s, d: dd, ease: parseEasing(e ?? "linear")!, rep });
          const fuse = a.mode === "plain" ? [] : a.fuse.filter((x) => KINDS[x[0].k].prop !== KINDS[a.t.k].prop);
          const own = a.mode === "own";
          const fz = fuse.map(([t, fd, fdel, fe]) => { const dd = own && fd != null ? Math.min(fd, room) : undefined; const de = own && (fdel != null || dd != null) ? fit(fdel ?? delay ?? 0, dd ?? d) : undefined; return { t, dd, de, fe: own ? fe : undefined }; });
          const tracks = [mk(a.t, delay ?? 0, d, easing), ...fz.map((x) => mk(x.t, x.de ?? delay ?? 0, x.dd ?? d, x.fe ?? easing))];
          const sampled = fz.some((x) => x.dd != null || x.de != null || x.fe != null);
          want.push({ id, tracks, org: a.org, box: a.box, sampled, rep: rep != null });
          ctx.label(a.mode, sampled && "sampled", easing?.startsWith("steps") && "steps", rep && rep.n !== Infinity && "finite repeat", delay != null && delay < 0 && "negative phase");
          const o: any = { animId: id, property: KINDS[a.t.k].prop, from: KINDS[a.t.k].css(a.t.a), to: KINDS[a.t.k].css(a.t.b), duration: d };
          if (delay != null) o.delay = delay; if (easing != null) o.easing = easing;
          if (fz.length) o.fuse = fz.map((x) => { const q: any = { property: KINDS[x.t.k].prop, from: KINDS[x.t.k].css(x.t.a), to: KINDS[x.t.k].css(x.t.b) }; if (x.dd != null) q.duration = x.dd; if (x.de != null) q.delay = x.de; if (x.fe != null) q.easing = x.fe; return q; });
          if (rep) { o.repeat = a.repeat; if (a.alternate != null) o.alternate = a.alternate; }
          if (a.org) o.transformOrigin = a.org; if (a.box) o.transformBox = a.box;
          return o;
        });
        return { svgContent: f.anims.map((_, ai) => `<g class="anim-f${i}a${ai}"><rect width="50" height="50"/></g>`).join("") + "<path d='M0 0'/>", duration: f.d, ...(f.tr === undefined ? {} : { transition: f.tr === 0 ? { type: "cut", duration: 0 } : { type: "crossfade", duration: f.tr } }), animations: anims };
      });
      const root = parseXml(generateAnimatedSvg({ width: 400, height: 300, frames: cfgFrames } as any)); const pl = new Player(root);
      const by = new Map<string, XNode>(); for (const e of walk(root)) for (const k of classes(e)) if (k.startsWith("anim-")) by.set(k, e);
      
      for (const w of want) {
        const g = by.get(`anim-${w.id}`)!; ensure(g, `element of ${w.id}`);
        if (w.org) { same(pl.base(g).get("transform-origin"), w.org, `${w.id} transform-origin`); same(pl.base(g).get("transform-box"), w.box ?? "fill-box", `${w.id} transform-box`); }
        const lo = Math.min(...w.tracks.map((t) => t.s)), hi = Math.max(...w.tracks.map((t) => t.s + t.d)); const span = hi - lo;
        const D = w.rep ? total : pl.anims(g)[0].dur; near(D, total, 6, `${w.id} runs on the scene clock`); const k = D / total;
        for (const q of c.ts) {
          // half of the probes sit in and around the window, half anywhere in the scene
          let ms = q % 2 ? lo - span * 0.2 + (q / 1000) * span * 1.4 : (q / 1000) * total; ms = Math.max(0, Math.min(w.rep ? Infinity : total - 1, ms));
          const t = w.rep ? ms + c.loops * total : ms * k + c.loops * D;
          const dt = w.rep ? 1 : total * 1.1e-5 + 0.02; const acts = pl.animated(g, t);
          const u = w.rep ? t : ms + c.loops * total;
          const sampleAt = (x: number): number[] => w.tracks.map((tr) => { const s = ((x % total) + total) % total; const near0 = !w.rep && (s < dt || s > total - dt); return near0 ? NaN : progress(tr, x, total); });
          const P = [-1, -0.5, 0, 0.5, 1].map((f) => sampleAt(u + f * dt)); if (P.some((x) => x.some(Number.isNaN))) continue;
          ctx.hit(w.tracks.some((tr) => ms > tr.s + dt && ms < tr.s + tr.d - dt));
          const refs = P.map((ps) => mapFor(w.tracks, ps));
          const keys = [...refs[0].keys()].sort();
          same([...acts.keys()].sort(), keys, `${w.id}: the animated properties`);
          for (const key of keys) {
            const got = readVal(key, acts.get(key)!); const vs = refs.map((r) => r.get(key)!);
            // slack: a baked curve is piecewise linear (2.5 % of the track's progress, springs oscillate faster), values print 4 decimals
            const slack = vs[2].map(() => 0);
            if (w.sampled) w.tracks.forEach((tr, q2) => { const eps = tr.ease(0.09) > 0.9 ? 0.09 : tr.ease(0.4) > 1 || tr.ease(0.15) > 0.45 ? 0.05 : 0.025; for (const sg of [-1, 1]) { const v = mapFor(w.tracks, P[2].map((x, z) => z === q2 ? x + sg * eps : x)).get(key)!; v.forEach((x, z) => { slack[z] += Math.abs(x - vs[2][z]); }); } });
            got.forEach((x, i) => {
              const l = Math.min(...vs.map((v) => v[i])), h = Math.max(...vs.map((v) => v[i]));
              const tol = 0.002 + 1e-3 * Math.max(Math.abs(l), Math.abs(h)) + slack[i];
              ensure(x >= l - tol && x <= h + tol, () => `${w.id} ${key} at ${t.toFixed(1)} ms (scene ${total}, window ${lo}-${hi}): expected ${l}${l === h ? "" : `..${h}`} ± ${tol.toFixed(4)}, got ${x} — ${show(cfgFrames.flatMap((f) => f.animations).find((a: any) => a.animId === w.id))}`);
            });
          }
        }
      }
    } },
  { name: "subtree", rule: "captured trees where an animated element has captured opacity (incl. 0), positioned / floated / z-indexed / flex descendants and nested animated elements; rendered, composed and played; non-trivial = the animated element has at least two descendants",
    arb: fc.record({
      kids: fc.array(fc.record({ x: fc.integer({ min: 0, max: 200 }), y: fc.integer({ min: 0, max: 120 }), pos: fc.constantFrom("static", "relative", "absolute", "fixed"), z: fc.constantFrom("auto", "auto", "1", "-1", "5"), fl: fc.constantFrom("none", "none", "left"), disp: fc.constantFrom("block", "flex", "inline-block", "grid"), op: fc.constantFrom("1", "1", "0.5"), parent: fc.nat({ max: 20 }), anim: fc.constantFrom(false, false, false, true) }), { minLength: 1, maxLength: 9, size: "max" }),
      root: fc.record({ op: fc.constantFrom("1", "0.2", "0.5", "0", "0"), pos: fc.constantFrom("static", "relative", "absolute"), disp: fc.constantFrom("block", "flex", "grid"), prop: fc.constantFrom("opacity", "fused", "translateX", "own"), order: fc.constantFrom("0", "1") }),
      before: fc.boolean(), q: fc.integer({ min: 5, max: 95 }), ends: fc.tuple(fc.constantFrom(0, 0.2, 1), fc.constantFrom(1, 0.6)),
    }), runs: { quick: 500, thorough: 25000 },
    prop: (c, ctx) => {
      const color = (i: number): string => `rgb(${i + 1}, 40, 50)`;
      const mk = (i: number, o: any, kids: any[]): any => el({ x: o.x ?? 10, y: o.y ?? 10, width: 60, height: 40, children: kids, ...(o.animId ? { animId: o.animId } : {}), styles: { backgroundColor: color(i), position: o.pos, zIndex: o.pos === "static" ? "auto" : o.z ?? "auto", float: o.fl ?? "none", display: o.disp, opacity: o.op, order: o.order ?? "0" } });
      // node 0 is the animated root; kid i hangs under an earlier node
      const N = c.kids.length + 1; const children: number[][] = Array.from({ length: N }, () => []); const parent = [-1];
      c.kids.forEach((k, i) => { const p = k.parent % (i + 1); parent[i + 1] = p; children[p].push(i + 1); });
      const animIds = c.kids.map((k, i) => k.anim ? `n${i + 1}` : undefined);
      const build = (i: number): any => i === 0 ? mk(0, { ...c.root, animId: "n0" }, children[0].map(build)) : mk(i, { ...c.kids[i - 1], animId: animIds[i - 1] }, children[i].map(build));
      const tree = [el({ x: 0, y: 0, width: 300, height: 200, styles: { display: "flex" }, children: [...(c.before ? [mk(60, { op: "1", pos: "static", disp: "block" }, [])] : []), build(0), mk(61, { op: "1", pos: "relative", disp: "block" }, [])] })];
      const [from, to] = c.ends; const anims: any[] = [];
      const P = c.root.prop;
      anims.push(P === "opacity" ? { animId: "n0", property: "opacity", from: `${from}`, to: `${to}`, duration: 1000, delay: 500 }
        : P === "fused" ? { animId: "n0", property: "translateX", from: "40px", to: "0px", duration: 1000, delay: 500, fuse: [{ property: "opacity", from: `${from}`, to: `${to}` }] }
          : P === "own" ? { animId: "n0", property: "translateX", from: "40px", to: "0px", duration: 1000, delay: 500, fuse: [{ property: "opacity", from: `${from}`, to: `${to}`, duration: 1000, delay: 500 }] }
            : { animId: "n0", property: "translateX", from: "40px", to: "0px", duration: 1000, delay: 500 });
      animIds.forEach((id) => { if (id) anims.push({ animId: id, property: "opacity", from: "0.25", to: "0.75", duration: 1000, delay: 500 }); });
      annotateAnimatedProperties(tree, anims);
      const inner = elementTreeToSvgInner(tree, 300, 200, "f0-", true, 2, false);
      const root = parseXml(generateAnimatedSvg({ width: 300, height: 200, frames: [{ svgContent: inner, duration: 2000, animations: anims, transition: { type: "cut", duration: 0 } }] } as any)); const pl = new Player(root);
      ctx.hit(N > 2); ctx.label(`root ${P}`, c.root.op === "0" && "captured at opacity 0", c.kids.some((k) => k.pos === "fixed") && "fixed descendant", animIds.some(Boolean) && "nested");
      const find = (i: number): XNode[] => [...walk(root)].filter((e) => e.attrs.get("fill") === color(i) || e.attrs.get("fill")?.replace(/\s/g, "") === color(i).replace(/\s/g, ""));
      const lerp = (a: number, b: number, q: number): number => a + (b - a) * q;
      const ownsOpacity = P !== "translateX";
      for (const [ms, q] of [[100, 0], [500 + c.q * 10, c.q / 100], [1900, 1]] as [number, number][]) {
        for (const i of [60, 61]) { if (i === 60 && !c.before) continue; const [n] = find(i); ensure(n, `sibling ${i}`); near(pl.effectiveOpacity(n, ms), 1, 1e-6, "a sibling's opacity"); near(pl.ctm(n, ms)[4], 0, 1e-6, "a sibling must not move"); }
        if (!ownsOpacity && c.root.op === "0") { ensure(find(0).length === 0, "an invisible element nothing fades in is not emitted"); continue; }
        const chainOp: number[] = [];
        for (let i = 0; i < N; i++) {
          const o = i === 0 ? (ownsOpacity ? lerp(from, to, q) : Number(c.root.op)) : animIds[i - 1] ? lerp(0.25, 0.75, q) : Number(c.kids[i - 1].op);
          chainOp[i] = (i === 0 ? 1 : chainOp[parent[i]]) * o;
          const ns = find(i); ensure(ns.length === 1, () => `node ${i} painted ${ns.length} times: ${show(c)}`);
          near(pl.effectiveOpacity(ns[0], ms), chainOp[i], 2e-3, () => `node ${i} opacity at ${ms} ms (root ${show(c.root)}, kids ${show(c.kids)})`);
          near(pl.ctm(ns[0], ms)[4], P === "opacity" ? 0 : lerp(40, 0, q), 0.05, () => `node ${i} offset at ${ms} ms (root ${show(c.root)}, kids ${show(c.kids)})`);
        }
      }
    } },
] });
