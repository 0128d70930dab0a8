// A04: overlays. Oracle: each kind's own description (when it appears, what it shows
// at each instant of its window, how it leaves) evaluated independently of the document,
// against the document played by an independent CSS evaluator.
import { fc, runCheck, ensure, near, same, show } from "../lib/harness.ts";
import { parseXml, walk, els, classes, idReport, textContent, type XNode } from "../lib/xml.ts";
import { Player, parseEasing, matOf, parseTransform, mul, apply, I, type Mat } from "../lib/css.ts";
import { generateAnimatedSvg } from "/repo/src/index.ts";
import { clearGlyphDefs, clearEmbeddedFonts } from "/repo/src/render/index.ts";

const opt = <T>(a: fc.Arbitrary<T>, freq = 2): fc.Arbitrary<T | undefined> => fc.option(a, { nil: undefined, freq });
const clean = <T extends object>(o: T): T => { for (const k of Object.keys(o)) if ((o as any)[k] === undefined) delete (o as any)[k]; return o; };
const dim = fc.integer({ min: 1, max: 900 }), pos = fc.integer({ min: -40, max: 1500 });
const ms = (hi: number): fc.Arbitrary<number> => fc.integer({ min: 0, max: hi });
const slide = fc.record({ from: fc.constantFrom("top", "bottom", "left", "right"), duration: fc.integer({ min: 60, max: 700 }), easing: opt(fc.constantFrom("linear", "ease-in-out", "cubic-bezier(0.34,1.56,0.64,1)")), delay: opt(ms(300)) }).map(clean);
const box = { x: pos, y: pos, width: dim, height: dim };
const win = { delay: opt(fc.oneof(ms(600), ms(4000))), endAt: opt(fc.integer({ min: 1, max: 3500 }), 3) };
const rep = fc.oneof({ weight: 2, arbitrary: fc.constant(undefined) }, { weight: 1, arbitrary: fc.constant("infinite") }, { weight: 1, arbitrary: fc.integer({ min: 1, max: 5 }) });
const svgA = fc.record({ kind: fc.constant("svg"), innerSvg: fc.constant("<rect class='pay' width='7' height='9'/>"), animId: fc.constantFrom("a", "b", "pip"), ...box, ...win, enter: opt(slide), exit: opt(slide) });
const tapA = fc.record({ kind: fc.constant("tap"), x: pos, y: pos, ...win });
const blinkA = fc.record({ kind: fc.constant("blink"), ...box, ...win, periodMs: opt(fc.integer({ min: 120, max: 1600 })), radius: opt(ms(20)), fillOpacity: opt(fc.constantFrom(0.5, 1)) });
const interactA = fc.record({ kind: fc.constant("interact"), ...box, ...win, treatment: opt(fc.constantFrom("hover", "focus", "press")), scale: opt(fc.constantFrom(0.9, 1, 1.1, 1.5)), duration: opt(ms(800)), holdMs: opt(ms(1500)), releaseMs: opt(ms(600)), repeat: rep, repeatPeriodMs: opt(fc.integer({ min: 300, max: 2500 })) });
const shineA = fc.record({ kind: fc.constant("shine"), ...box, ...win, duration: opt(fc.integer({ min: 100, max: 2000 })), bandWidth: opt(fc.integer({ min: 4, max: 300 })), skewDeg: opt(fc.integer({ min: -40, max: 40 })), repeat: rep, repeatPeriodMs: opt(fc.integer({ min: 300, max: 2500 })) });
const frameA = (ov: fc.Arbitrary<any>, max: number) => fc.record({ d: fc.integer({ min: 150, max: 4000 }), tr: fc.constantFrom(0, 0, 200, 450), ov: fc.array(ov, { maxLength: max, size: "max" }) });
const probes = fc.array(fc.integer({ min: 0, max: 1000 }), { minLength: 4, maxLength: 7 });

/** The scene lap as the frames' own animations print it (rounded to 10 ms today). */
function sceneLap(pl: Player, total: number): number { const ds = pl.durations().filter((d) => Math.abs(d - total) < 6); const lap = Math.round(total / 10) * 10; return ds.reduce((b, d) => Math.abs(d - lap) < Math.abs(b - lap) ? d : b, ds[0] ?? total); }
interface Scene { frames: any[]; start: number[]; total: number; root: XNode; pl: Player; D: number }
function build(fs: any[], W = 1400, H = 1200): Scene {
  clearEmbeddedFonts(); clearGlyphDefs();
  const frames = fs.map((f) => ({ svgContent: "<path d='M0 0'/>", duration: f.d, transition: f.tr === 0 ? { type: "cut", duration: 0 } : { type: "crossfade", duration: f.tr }, overlays: f.ov.map((o: any) => clean({ ...o })) }));
  const adv = fs.map((f) => f.d + f.tr); const start = adv.map((_, i) => adv.slice(0, i).reduce((a, b) => a + b, 0)); const total = adv.reduce((a, b) => a + b, 0);
  const root = parseXml(generateAnimatedSvg({ width: W, height: H, frames } as any)); const pl = new Player(root);
  const ids = idReport(root); ensure(!ids.duplicates.length && !ids.dangling.length, `ids: ${show(ids.duplicates)} twice, ${show(ids.dangling)} dangling`);
  return { frames, start, total, root, pl, D: sceneLap(pl, total) };
}
/** The element group an overlay of a kind emitted, by the order overlays of the kind appear in. */
const cls = (root: XNode, re: RegExp): XNode[] => { const out: XNode[] = []; for (const e of walk(root)) if (classes(e).some((c) => re.test(c))) out.push(e); return out; };
/** Range of a function of time over [u-dt, u+dt]. */
const range = (f: (u: number) => number, u: number, dt: number): [number, number] => { const v = [-1, -0.6, -0.3, 0, 0.3, 0.6, 1].map((k) => f(u + k * dt)); return [Math.min(...v), Math.max(...v)]; };
const between = (x: number, [lo, hi]: [number, number], tol: number, what: () => string): void => ensure(x >= lo - tol && x <= hi + tol, () => `${what()}: expected ${lo.toFixed(3)}${hi - lo > 1e-6 ? `..${hi.toFixed(3)}` : ""}, got ${x}`);
const ease = parseEasing("ease")!;
const clampW = (o: any, d: number): number => o.endAt == null ? d : Math.min(d, Math.max(1, o.endAt));
/** Probe instants: half in and around the window, the others anywhere in the loop. */
const instants = (qs: number[], lo: number, hi: number, total: number): number[] => qs.map((q, i) => { const f = q / 1000; return i % 3 === 0 ? f * (total - 1) : i % 3 === 1 ? lo + (hi - lo) * f : lo - (hi - lo) * 0.2 + (hi - lo) * 1.4 * f; }).filter((u) => u >= 0 && u < total);
/** Polygon clipped to a box; its area. */
function clippedArea(p: [number, number][], b: { x: number; y: number; width: number; height: number }): number {
  const cut = (q: [number, number][], inside: (z: [number, number]) => number): [number, number][] => { const r: [number, number][] = []; for (let i = 0; i < q.length; i++) { const a = q[i], c = q[(i + 1) % q.length]; const fa = inside(a), fc2 = inside(c); if (fa >= 0) r.push(a); if ((fa >= 0) !== (fc2 >= 0)) { const k = fa / (fa - fc2); r.push([a[0] + (c[0] - a[0]) * k, a[1] + (c[1] - a[1]) * k]); } } return r; };
  let q = p; for (const f of [(z: any) => z[0] - b.x, (z: any) => b.x + b.width - z[0], (z: any) => z[1] - b.y, (z: any) => b.y + b.height - z[1]]) { q = cut(q, f); if (q.length < 3) return 0; }
  return Math.abs(q.reduce((s, [x, y], i) => { const [x2, y2] = q[(i + 1) % q.length]; return s + x * y2 - x2 * y; }, 0)) / 2;
}

await runCheck({ id: "A04", parts: [
  { name: "effects", rule: "1-4 frames (cut / crossfade) holding 0-3 svg, tap, blink, interact or shine overlays each, default and explicit delays (also past the window), endAt, slide-in and -out, one-shot and repeating; each played before, in and after its window and in later loops; non-trivial = a probe falls inside the window of an overlay that shows something",
    arb: fc.record({ fs: fc.array(frameA(fc.oneof(svgA, tapA, blinkA, interactA, shineA), 3), { minLength: 1, maxLength: 4, size: "max" }), qs: probes, loop: fc.constantFrom(0, 0, 1, 4), tail: fc.constantFrom(0, 1500) }),
    runs: { quick: 900, thorough: 40000 },
    prop: (c, ctx) => {
      const fs = c.fs.map((f, i) => ({ ...f, d: f.d + (i === c.fs.length - 1 ? c.tail : 0) }));
      const S = build(fs); const { root, pl, total } = S;
      const seq: Record<string, number> = {};
      fs.forEach((f, i) => { const n: Record<string, number> = {}; f.ov.forEach((o: any) => {
        const kn = n[o.kind] = (n[o.kind] ?? -1) + 1; const base = kn === 0 ? `${i}` : `${i}_${kn}`; seq[o.kind] = (seq[o.kind] ?? 0) + 1;
        const W = S.start[i] + clampW(o, f.d), s0 = S.start[i]; const what = (u: number) => `${o.kind} overlay of frame ${i} at ${u.toFixed(1)} ms (window ${s0}-${W}, loop ${total}): ${show(clean({ ...o }))}`;
        const dt = total * 1.2e-4 + 1.2;
        
        const get = (re: string): XNode | undefined => cls(root, new RegExp(`^${re}$`))[0];
        ctx.label(o.kind, o.endAt != null && "endAt", o.repeat != null && "repeat", o.enter && o.exit && "enter+exit");
        const kk = S.D / total; const T = (u: number): number => u * kk + c.loop * S.D;
        if (o.kind === "svg") {
          const pay = [...walk(root)].filter((e) => classes(e).includes("pay")); const a0 = s0 + Math.min(o.delay ?? 0, Math.max(0, W - s0 - 1));
          const g = cls(root, new RegExp(`^ov-${base}-${o.animId}$`))[0]; ensure(g, () => `no group for ${what(0)}`);
          const inner = pay.find((p) => { for (let e: XNode | null = p; e; e = e.parent) if (e === g) return true; return false; })!; ensure(inner, "payload inside its group");
          const eS = a0 + (o.enter?.delay ?? 0), eE = eS + (o.enter?.duration ?? 0), xS = W - (o.exit?.duration ?? 0) - (o.exit?.delay ?? 0), xE = xS + (o.exit?.duration ?? 0);
          const off = (d: string): [number, number] => d === "top" ? [0, -o.height] : d === "bottom" ? [0, o.height] : d === "left" ? [-o.width, 0] : [o.width, 0];
          const e1 = parseEasing(o.enter?.easing ?? "ease-out")!, e2 = parseEasing(o.exit?.easing ?? "ease-in")!;
          const cl = (p: number): number => p < 0 ? 0 : p > 1 ? 1 : p;
          const fx = (ax: 0 | 1) => (u: number): number => { let v = 0; if (o.enter) { const p = cl((u - eS) / (eE - eS)); v += off(o.enter.from)[ax] * (1 - (p <= 0 ? 0 : p >= 1 ? 1 : e1(p))); } if (o.exit) { const p = cl((u - xS) / (xE - xS)); v += off(o.exit.from)[ax] * (p <= 0 ? 0 : p >= 1 ? 1 : e2(p)); } return v; };
          for (const u of instants(c.qs, a0, W, total)) {
            const op = pl.effectiveOpacity(inner, T(u)); const on = (v: number): number => v >= a0 && v < W ? 1 : 0;
            between(op, range(on, u, dt), 1e-3, () => `opacity of ${what(u)}`);
            if (u <= a0 + dt || u >= W - dt) continue; ctx.hit();
            if ((o.enter && (eE > total || eE > W)) || (o.exit && xS < 0)) continue;
            const m = pl.ctm(inner, T(u)); for (const ax of [0, 1] as const) between(m[4 + ax] - (ax ? o.y : o.x), range(fx(ax), u, dt), 0.02 + Math.max(o.width, o.height) * 2e-3, () => `${ax ? "y" : "x"} shift of ${what(u)}`);
          }
        } else if (o.kind === "tap") {
          const t0 = s0 + (o.delay ?? 50), end = Math.min(t0 + 500, o.endAt != null ? W : Infinity, total); const ring = get(`tap${base}`), dot = get(`tap${base}-dot`);
          if (o.endAt != null && W <= t0) { ensure(!ring && !dot, () => `a tap whose window is over paints nothing — ${what(0)}`); return; }
          if (t0 + 2 > total) return;
          if (end - t0 < 3) return; ensure(ring && dot, () => `no ripple for ${what(0)}`); same([Number(ring.attrs.get("cx")), Number(dot.attrs.get("cx")), Number(dot.attrs.get("cy"))], [o.x, o.x, o.y], "ripple centre");
          let prev = -1, pu = -1;
          for (const u of instants([...c.qs], t0, end, total).sort((a, b) => a - b)) {
            const r = parseFloat(pl.value(ring, "r", T(u)) ?? "0"), ro = r > 0 ? pl.effectiveOpacity(ring, T(u)) : 0, dop = pl.effectiveOpacity(dot, T(u));
            if (u < t0 - dt || u > end + dt) { ensure(ro < 1e-3 && dop < 1e-3, () => `painted (${ro}, ${dop}) outside its time — ${what(u)}`); continue; }
            if (u < t0 + dt + 1 || u > end - dt - 1 || end - t0 < 8 * dt) continue; ctx.hit();
            ensure(dop > 0 && ro > 0, () => `nothing painted (ring ${ro}, dot ${dop}) during ${what(u)}`);
            ensure(r <= 35.01 && (pu < 0 || r >= prev - 1e-6), () => `ring shrinks from ${prev} to ${r}: ${what(u)}`); prev = r; pu = u;
          }
        } else if (o.kind === "blink") {
          const t0 = s0 + (o.delay ?? 0), half = (o.periodMs ?? 1000) / 2; const r = get(`blink${base}`)!; if (!r) { ensure(t0 >= W, () => `no rect for ${what(0)}`); return; }
          same([r.attrs.get("x"), r.attrs.get("y"), r.attrs.get("width"), r.attrs.get("height")], [`${o.x}`, `${o.y}`, `${o.width}`, `${o.height}`], "blink box");
          const on = (u: number): number => u < t0 || u >= W ? 0 : Math.floor((u - t0) / half) % 2 === 0 ? 1 : 0;
          for (const u of instants(c.qs, t0, Math.max(t0 + 1, W), total)) { ctx.hit(u > t0 && u < W); between(pl.effectiveOpacity(r, T(u)), range(on, u, dt), 1e-3, () => `opacity of ${what(u)}`); }
        } else if (o.kind === "interact") {
          const g = get(`ix${base}`)!; if (!g) { ensure(s0 + (o.delay ?? 200) >= W, () => `no group for ${what(0)}`); return; } const kind = o.treatment ?? "hover"; const s1 = o.scale ?? { hover: 1.03, focus: 1, press: 0.96 }[kind as string]!;
          const leaf = els(g)[0]; ensure(leaf, "a painted layer");
          const du = o.duration ?? 240, rel = o.releaseMs ?? 180; const ap = o.repeat != null ? s0 + (o.delay ?? 200) : Math.min(s0 + (o.delay ?? 200), W);
          if (o.repeat != null) {
            const P = o.repeatPeriodMs ?? 1600, hold = o.holdMs ?? 140; const n = o.repeat === "infinite" ? Infinity : o.repeat;
            for (const u of instants(c.qs, ap, Math.max(ap + 1, W), total)) {
              const op = pl.effectiveOpacity(leaf, T(u));
              if (u < Math.min(ap, W) - dt - 2 || u > W + dt + 2) { ensure(op < 2e-3, () => `painted (${op}) outside the window — ${what(u)}`); continue; }
              if (c.loop > 0 || u <= ap + dt || u >= W - dt || du + hold + rel > P * 0.98) continue; const k = Math.floor((u - ap) / P), l = u - ap - k * P; const e = P * 2e-4 + 2 + Math.abs(S.D - total);
              if (k >= n) { ensure(op < 2e-3, () => `pulses more than ${n} times — ${what(u)}`); continue; }
              ctx.hit();
              if (l > du + e && l < du + hold - e) near(op, 1, 2e-3, () => `peak of ${what(u)}`); if (l > du + hold + rel + e && l < P - e) near(op, 0, 2e-3, () => `rest of ${what(u)}`);
            }
            return;
          }
          const pk = Math.min(ap + du, W), h0 = o.holdMs ?? (kind === "press" ? 120 : Math.max(0, W - rel - pk)); const he = Math.min(Math.max(pk, pk + h0), Math.max(pk, W - rel)), re = Math.min(he + rel, W);
          const eo = parseEasing("ease-out")!, ei = parseEasing("ease-in")!;
          const f = (u: number): number => u <= ap || u >= re ? 0 : u < pk ? eo((u - ap) / (pk - ap)) : u <= he ? 1 : 1 - ei((u - he) / (re - he));
          for (const u of instants(c.qs, ap, Math.max(re, ap + 1), total)) {
            const op = pl.effectiveOpacity(g, T(u));
            if (u < ap - dt || u > re + dt) { ensure(op < 1e-3, () => `painted (${op}) outside its time — ${what(u)}`); continue; }
            if (re - he < dt * 3 || pk - ap < dt * 3) continue; ctx.hit(); // squeezed to nothing
            between(op, range(f, u, dt), 5e-3, () => `opacity of ${what(u)}`);
            const m = matOf(parseTransform(pl.value(g, "transform", T(u)) ?? "scale(1)")); between(m[0], range((v) => 1 + (s1 - 1) * f(v), u, dt), 5e-3, () => `scale of ${what(u)}`); near(m[3], m[0], 1e-9, "uniform scale");
            same((pl.value(g, "transform-origin", T(u)) ?? "").replace(/px/g, "").split(" ").map(Number), [o.x + o.width / 2, o.y + o.height / 2], "pops about the box centre");
          }
        } else {
          const g = get(`shine-sh${base}`)!; if (!g) { ensure(s0 + (o.delay ?? 200) >= W, () => `no band for ${what(0)}`); return; } const r = els(g)[0]; const bw = Number(r.attrs.get("width")), bh = Number(r.attrs.get("height")), bx = Number(r.attrs.get("x")), by = Number(r.attrs.get("y"));
          near(bw, o.bandWidth ?? Math.max(24, Math.round(o.width * 0.28)), 1e-9, "band width");
          const poly = (t: number): [number, number][] => { const m = pl.ctm(r, t); return [apply(m, bx, by), apply(m, bx + bw, by), apply(m, bx + bw, by + bh), apply(m, bx, by + bh)]; };
          const seen = (t: number): number => pl.effectiveOpacity(r, t) * clippedArea(poly(t), o);
          const t0 = s0 + (o.delay ?? 200), du = o.repeat != null ? o.repeatPeriodMs ?? 1400 : o.duration ?? 900, e0 = o.repeat != null ? W : Math.min(W, t0 + du); const n = o.repeat === "infinite" ? Infinity : o.repeat ?? 1;
          const speed = (o.width + 3 * bw + o.height * 2) / Math.max(1, Math.min(du, e0 - t0)); const slop = (speed * dt * 1.5 + 0.2) * o.height + 1e-6;
          for (const u of instants(c.qs, t0, Math.max(e0, t0 + 1), total)) {
            const a = seen(T(u));
            const lim = u < t0 && u > t0 - dt || u > e0 && u < e0 + dt ? (o.repeat != null ? Infinity : slop) : 1e-3 * o.height * o.width + 1e-3;
            if (u < t0 || u > e0) { ensure(a <= lim || (e0 <= t0 && Math.abs(u - t0) < dt), () => `glint painted (${a.toFixed(2)} px²) outside its time — ${what(u)}`); continue; }
            ctx.hit(e0 - t0 > 30);
          }
          if (e0 - t0 < 60 + 8 * dt || (o.repeat != null && t0 + du > W)) return;
          // the band crosses: it is on the box at mid-sweep, and moves one way
          const L = o.repeat != null ? 0 : c.loop; const TT = (u: number): number => u * kk + L * S.D; const end = o.repeat != null ? t0 + du : e0;
          const mid = (t0 + end) / 2; ensure(seen(TT(mid)) > 1e-3, () => `the glint misses its box at mid-sweep (${seen(TT(mid)).toFixed(2)} px²) — ${what(mid)}`);
          let px = -Infinity; for (let k = 1; k < 8; k++) { const p = poly(TT(t0 + (end - t0) * k / 8)); const x = p[0][0]; ensure(x > px, () => `the glint does not advance — ${what(mid)}`); px = x; }
          void n;
        }
      }); });
    } },
  { name: "typing", rule: "a typing overlay (type / paste, jitter, typed mistakes by list or rate, wrapping to a width, blank paragraphs, several fonts and sizes, caret shapes, mask, kerning, endAt, hold) among other frames; reveal, caret, slips, mask and exit read at keystroke instants; non-trivial = at least three keystrokes of the overlay have distinct instants",
    arb: fc.record({
      text: fc.oneof(fc.array(fc.constantFrom("hello", "AV", "To", "wor ld", "i", "WWWW", "x1", "supercalifragilistic", "é", "日本", "😀", "a b", "\n", "", "z,"), { minLength: 1, maxLength: 8, size: "max" }).map((a) => a.join(" ").replace(/ ?\n ?/g, "\n")), fc.string({ unit: fc.constantFrom(..."abcdefghij KLMNOP 019.,-"), minLength: 1, maxLength: 40, size: "max" }), fc.constantFrom("lorem ipsum dolor sit amet consectetur ".repeat(9).trim())),
      o: fc.record({ x: pos, y: pos, fontSize: opt(fc.integer({ min: 9, max: 40 })), fontFamily: opt(fc.constantFrom("Arial", "Georgia, serif", "Courier New", "sans-serif")), kern: opt(fc.boolean()), ...win, delay: opt(ms(900)), endAt: opt(fc.integer({ min: 1, max: 6000 }), 5), speed: opt(fc.integer({ min: 15, max: 150 })), mode: opt(fc.constantFrom("type", "paste"), 4), jitter: opt(fc.constantFrom(0, 0.3, 1)), wrapWidth: opt(fc.integer({ min: 30, max: 400 })), mask: opt(fc.record({ color: fc.constant("#ffffff"), width: opt(dim), height: opt(ms(80)) }).map(clean)), bgWidth: opt(fc.integer({ min: 60, max: 300 }), 5),
        caret: fc.oneof(fc.constant(true), fc.record({ shape: opt(fc.constantFrom("bar", "block", "underscore")), blinkMs: opt(fc.integer({ min: 200, max: 1200 })), width: opt(fc.integer({ min: 1, max: 5 })) }).map(clean)),
        mistakes: fc.oneof({ weight: 2, arbitrary: fc.constant(undefined) }, { weight: 1, arbitrary: fc.constantFrom(0, 0.2, 1) as fc.Arbitrary<any> }, { weight: 2, arbitrary: fc.uniqueArray(fc.record({ at: ms(30), wrong: opt(fc.constantFrom("q", "W", "7")) }).map(clean), { maxLength: 4, selector: (m) => (m as any).at }) as fc.Arbitrary<any> }), mistakeThinkMs: opt(ms(600)), holdToFrameEnd: opt(fc.boolean()) }),
      pre: fc.constantFrom(0, 700, 2500), d: fc.oneof({ weight: 1, arbitrary: fc.integer({ min: 200, max: 1500 }) }, { weight: 3, arbitrary: fc.integer({ min: 1500, max: 12000 }) }), tr: fc.constantFrom(0, 0, 300), post: fc.constantFrom(0, 0, 800, 2000), qs: probes, loop: fc.constantFrom(0, 0, 2),
    }),
    runs: { quick: 500, thorough: 20000 },
    prop: (c, ctx) => {
      const o: any = clean({ kind: "typing", text: c.text, ...c.o });
      const fs = [...(c.pre ? [{ d: c.pre, tr: 0, ov: [] }] : []), { d: c.d, tr: c.tr, ov: [o] }, ...(c.post ? [{ d: c.post, tr: 0, ov: [] }] : [])]; const i = c.pre ? 1 : 0;
      const S = build(fs); const { root, pl, total } = S; const kk = S.D / total; const T = (u: number): number => u * kk + c.loop * S.D; const dt = total * 1.2e-4 + 1;
      const s0 = S.start[i], W = s0 + clampW(o, c.d), last = !c.post, cutEarly = W < s0 + c.d, t0 = s0 + (o.delay ?? 300);
      const exit = cutEarly ? "cut" : last ? "loop" : c.tr > 0 ? "dissolve" : "cut"; const loop = exit === "loop" && o.holdToFrameEnd !== true; const reserve = loop ? 150 : 0;
      const desc = (u: number): string => `typing overlay at ${u.toFixed(1)} ms (window ${s0}-${W}, typing from ${t0}, ${exit}, loop ${total}): ${show(o)}`;
      const id = `t${i}`; const size = o.fontSize ?? 14, lh = Math.round(size * 1.35);
      const revs = cls(root, new RegExp(`^${id}-rev\\d+$`)), lines = cls(root, new RegExp(`^${id}-text$`)), slips = cls(root, new RegExp(`^${id}-mis\\d+$`)), caret = cls(root, new RegExp(`^${id}-caret$`))[0], mask = cls(root, new RegExp(`^${id}-bg$`))[0];
      ctx.label(exit, o.mode, revs.length > 1 && "wrapped", slips.length > 0 && "slips", o.kern && "kern", o.endAt != null && "endAt", t0 >= W && "never types", [...c.text].length > 300 && "long");
      // the text: lines in order hold the characters typed, at increasing x, each line no wider than asked
      const titleOf = (n: XNode): string => { const t = [...walk(n)].find((e) => e.name === "title"); return t ? textContent(t) : ""; };
      const byLine = new Map(lines.map((l) => [/-clip(\d+)\)/.exec(l.attrs.get("clip-path") ?? "")?.[1] ?? "?", l])); const texts = revs.map((_, k) => byLine.has(`${k}`) ? titleOf(byLine.get(`${k}`)!) : "");
      const flat = (s: string): string => s.replace(/\s+/g, ""); if (t0 >= W && !revs.length) { ctx.hit(false); ensure(![...walk(root)].some((e) => classes(e).some((k) => k.startsWith(`${id}-`))), () => `leftovers of a ${desc(0)}`); return; }
      same(flat(texts.join("")), flat(c.text), `the lines spell the text — ${desc(0)}`);
      const wrap = o.wrapWidth ?? o.bgWidth;
      if (wrap == null) same(texts, c.text.split("\n"), `unwrapped lines — ${desc(0)}`);
      // per-line right edges from the settled reveal
      const hidden = (w: number): boolean => w < 0.5; const width = (r: XNode, u: number): number => parseFloat(pl.value(r, "width", T(u)) ?? "0");
      const nChars = texts.map((t) => [...t].length), n = nChars.reduce((a, b) => a + b, 0);
      const span = W - reserve - t0;
      revs.forEach((r, k) => { near(Number(r.attrs.get("x")), o.x, 1e-6, "reveal starts at the text"); const y = Number(r.attrs.get("y")), h = Number(r.attrs.get("height")); ensure(y <= o.y + k * lh - size * 0.75 && y + h >= o.y + k * lh + size * 0.05 && h <= lh + size, () => `reveal of line ${k} covers rows ${y}..${y + h} — ${desc(0)}`); });
      const gone = exit === "dissolve" ? Math.min(total, Math.max(W, t0 + 1) + c.tr) : W;
      const vis = (u: number): number => Math.max(0, ...lines.map((l) => pl.effectiveOpacity(l, T(u))));
      const painted = (u: number): boolean => [...lines, ...slips, ...(caret ? [caret] : []), ...(mask ? [mask] : [])].some((e) => pl.effectiveOpacity(e, T(u)) > 2e-3);
      for (const u of instants(c.qs, t0, Math.max(gone, t0 + 1), total)) {
        if (u < t0 - dt || u > gone + dt) ensure(!painted(u), () => `something is painted outside the window — ${desc(u)}`);
        else if (u > t0 + 30 + dt && u < W - reserve - dt && lines.length) near(vis(u), 1, 2e-3, () => `text opacity of ${desc(u)}`);
        if (mask && u > t0 + 50 + dt && u < W - reserve - dt) near(pl.effectiveOpacity(mask, T(u)), 1, 2e-3, () => `mask opacity of ${desc(u)}`);
      }
      if (span < 150 + 8 * dt || n === 0) { ctx.hit(false); return; }
      if (mask) { const my = Number(mask.attrs.get("y")), mh = Number(mask.attrs.get("height")); ensure(my <= o.y - size * 0.7 && my + mh >= o.y + (revs.length - 1) * lh + 2, () => `mask rows ${my}..${my + mh} leave lines bare — ${desc(0)}`); }
      // reveal: monotone; edges = caret positions; complete in time
      const speed = o.speed ?? 60, think = o.mistakeThinkMs ?? 400; const discrete = o.mode !== "paste" && n <= 300;
      if (Array.isArray(o.mistakes)) { const uniq = new Set(o.mistakes.map((m: any) => m.at).filter((a: number) => a < n)); same(slips.length, discrete ? uniq.size : 0, `number of slips — ${desc(0)}`); } else if (!o.mistakes || !discrete) same(slips.length, 0, `slips without mistakes — ${desc(0)}`);
      const natural = t0 + n * speed + slips.length * (2 * speed + think); const done = o.mode === "paste" ? t0 : Math.min(natural, W - reserve); const drift = (n + slips.length * 2 + 4) * total * 1e-4 + dt; // stops are kept 0.01 % apart
      const cut = W - reserve - dt; const settled = Math.min(done + drift + 1, cut - 1);
      if (done + drift + 2 >= cut && drift > dt * 3) { ctx.hit(false); return; }
      const full = revs.map((r) => width(r, Math.min(settled, cut))); const atEnd = revs.map((r) => width(r, W - reserve - dt * 0.3 > 0 ? Math.max(settled, W - reserve - dt) : settled));
      if (done + drift < cut) revs.forEach((_, k) => near(full[k], atEnd[k], 0.02, () => `line ${k} not fully typed by ${done.toFixed(0)} ms — ${desc(settled)}`));
      if (wrap != null) revs.forEach((_, k) => ensure(atEnd[k] - 1 <= wrap - 4 + 0.01 || nChars[k] <= 1, () => `line ${k} ${show(texts[k])} is ${(atEnd[k] - 1).toFixed(2)} px wide, wrap ${wrap} — ${desc(0)}`));
      const tight = done + drift + 2 >= cut; const lastLine = nChars.reduce((b, q, k) => q > 0 ? k : b, 0); // typing squeezed against the cut: the last strokes are not readable
      nChars.forEach((q, k) => ensure(tight && k === lastLine || (q === 0 ? hidden(atEnd[k]) : !hidden(atEnd[k])), () => `line ${k} (${q} characters) ends ${atEnd[k]} px wide — ${desc(0)}`));
      // left edges of the painted glyphs, from the markup
      const lefts = texts.map((t, k) => { const l = byLine.get(`${k}`); if (!l) return [] as number[]; const xs: number[] = []; for (const e of walk(l)) if (e.name === "use") { let m: Mat = I; for (let q: XNode | null = e; q && q !== l; q = q.parent) { const tr = q.attrs.get("transform"); if (tr) m = mul(matOf(parseTransform(tr)), m); } xs.push(apply(m, Number(e.attrs.get("x") ?? 0), Number(e.attrs.get("y") ?? 0))[0] - o.x); } return xs; });
      if (discrete) {
        // keystroke table of each line from the reveal's own staircase, read at the instants it changes
        const stops = new Set<number>(); for (const r of revs) for (const a of pl.anims(r)) for (const s of pl.sheet.keyframes.get(a.name)!.stops) { const u = s.offset * total; if (u > t0 - dt && u < cut - 1) stops.add(u); }
        if (caret) for (const a of pl.anims(caret)) for (const s of pl.sheet.keyframes.get(a.name)!.stops) { const u = s.offset * total; if (u > t0 - dt && u < cut - 1) stops.add(u); }
        const T2 = [...stops].sort((a, b) => a - b); let prev = revs.map(() => 0); const edges: number[][] = revs.map(() => []); const typedAt: number[] = []; let strokes = 0;
        for (const u0 of T2) {
          const u = u0 + total * 2e-5; const w = revs.map((r) => width(r, u)); w.forEach((x, k) => { ensure(x >= prev[k] - 0.01, () => `line ${k} is un-typed from ${prev[k]} to ${x} — ${desc(u)}`); if (x > prev[k] + 0.02 && !hidden(x)) { edges[k].push(x - 1); typedAt.push(u0); strokes++; for (let q = 0; q < k; q++) near(x && w[q], Math.max(atEnd[q], 0), 0.02, () => `line ${k} starts before line ${q} is typed — ${desc(u)}`); } }); prev = w;
        }
        edges.forEach((e, k) => { const q = nChars[k]; ensure(e.length <= q + 1 && (q === 0 || e.length >= 1 || tight && k === lastLine), () => `line ${k} ${show(texts[k])} is revealed in ${e.length} steps — ${desc(0)}`); });
        // every painted glyph starts where an earlier keystroke ended
        lefts.forEach((xs, k) => { for (const x of xs) ensure(Math.abs(x) < 0.06 || edges[k].some((e) => Math.abs(e - x) < 0.06 + x * 1e-3), () => `a glyph of line ${k} is painted at ${x.toFixed(2)}, keystrokes end at ${show(edges[k].map((e) => Math.round(e * 100) / 100))} — ${desc(0)}`); });
        // cadence: the last keystroke lands when typing is due to end; steady typists are even
        if (typedAt.length && slips.length === 0) { if (done + drift < cut - 1) near(typedAt[typedAt.length - 1], done, drift, () => `last keystroke of ${desc(done)}`); if (!o.jitter && n >= 2 && !texts.some((t) => /^ | $/.test(t))) { const step = (done - t0) / n; typedAt.forEach((u, q) => { if (typedAt.length >= n - 1 && typedAt.length <= n) near(u, t0 + step * (q + 1), drift, () => `keystroke ${q + 1} of ${desc(u)}`); }); } }
        ctx.hit(new Set(typedAt).size >= 3);
        // the caret is glued to the edge; with a slip on screen it stands behind the wrong glyph
        if (caret) for (const u0 of T2) {
          const u = u0 + total * 4e-5; if (u < t0 + dt || T2.some((z) => z !== u0 && Math.abs(z - u) < total * 1.5e-4)) continue; const w = revs.map((r) => width(r, u)); const m = matOf(parseTransform(pl.value(caret, "transform", T(u)) ?? "translate(0px,0px)"));
          const line = Math.round(m[5] / lh); near(m[5], line * lh, 0.02, "caret row"); let cur = 0; w.forEach((x, k) => { if (!hidden(x)) cur = k; });
          const slip = slips.find((s) => pl.effectiveOpacity(s, T(u)) > 0.5);
          if (slip) { const tr = matOf(parseTransform(els(slip)[0]?.attrs.get("transform") ?? "")); ensure(m[4] > tr[4] - o.x + 0.5, () => `caret at ${m[4]} is not past the slip at ${tr[4] - o.x} — ${desc(u)}`); if (line === cur && !hidden(w[cur])) near(tr[4] - o.x, w[line] - 1, 0.06, () => `the slip is typed after the text so far — ${desc(u)}`); }
          else if (line === cur) near(m[4], hidden(w[cur]) ? 0 : w[cur] - 1, 0.03, () => `caret against the typed edge — ${desc(u)}`);
          else { ensure(line === cur + 1 || nChars.slice(cur + 1, line).every((q) => q === 0), () => `caret on line ${line}, typing on ${cur} — ${desc(u)}`); near(m[4], 0, 0.03, "caret at the line start"); }
          if (Math.min(u, done) > t0 + 30 + dt && Math.min(u, done) < cut - dt) near(pl.effectiveOpacity(caret, T(Math.min(u, done))), 1, 1e-3, () => `caret is solid while typing — ${desc(u)}`);
        }
      } else ctx.hit(o.mode === "paste" && n >= 3);
      if (caret && done + drift < cut) { const m = matOf(parseTransform(pl.value(caret, "transform", T(settled)) ?? "")); const li = nChars.reduce((b, q, k) => q > 0 ? k : b, 0); near(m[4], atEnd[li] - 1, 0.03, () => `parked caret x — ${desc(settled)}`); near(m[5], li * lh, 0.02, "parked caret row");
        const half = ((typeof o.caret === "object" ? o.caret.blinkMs : undefined) ?? 530) / 2; const bl = Math.min(natural, W - reserve); const b = (u: number): number => u < bl + half ? 1 : Math.floor((u - bl - half) / half) % 2 === 0 ? 0 : 1;
        for (const q of c.qs) { const u = bl + (cut - bl) * q / 1000; if (u > bl + dt && u > t0 + 30 + dt && u < cut) between(pl.effectiveOpacity(caret, T(u)), range(b, u, dt), 1e-3, () => `caret blink of ${desc(u)}`); } }
      // slips: each is on screen for its think pause, one at a time
      const on = (u: number): number => slips.filter((s) => pl.effectiveOpacity(s, T(u)) > 0.5).length; for (const q of c.qs) { const u = t0 + (done - t0) * q / 1000; ensure(on(u) <= 1, () => `${on(u)} slips at once — ${desc(u)}`); } if (slips.length) same(on(done + dt), 0, `a slip stays — ${desc(done)}`);
    } },
], assumptions: ["Glyph advances come from the font the sandbox resolves (Liberation); the check relates painted glyphs, clips and caret to one another, not to a browser's text.", "Keystroke stops are printed at 0.01 % of the loop and kept 0.01 % apart: instants are compared to that precision."] });
