// A03: out-of-view culling never hides what is in view. Oracle: geometry - the box
// of every element, carried through the played transforms, against the viewBox, at
// instants of the first and later loops.
import { fc, runCheck, ensure, show } from "../lib/harness.ts";
import { parseXml, walk, type XNode } from "../lib/xml.ts";
import { Player, apply, type Mat } from "../lib/css.ts";
import { el } from "../lib/tree.ts";
import { generateAnimatedSvg, elementTreeToSvgInner, elementTreeToSvg, annotateAnimatedProperties, cullElementsOutsideViewBox } from "/repo/src/index.ts";

const W = 320, H = 240;
const opt = <T>(a: fc.Arbitrary<T>, freq = 2): fc.Arbitrary<T | undefined> => fc.option(a, { nil: undefined, freq });
const off = fc.oneof({ weight: 2, arbitrary: fc.integer({ min: 5, max: 200 }) }, { weight: 3, arbitrary: fc.constantFrom(-500, -260, -120, -80, 250, 330, 400, 520, 700, 900) }, { weight: 1, arbitrary: fc.integer({ min: -600, max: 900 }) });
const px = fc.oneof(fc.constantFrom(0, 0, -400, 400, 600, -600, 120, -120, 250, 300, -300), fc.integer({ min: -900, max: 900 }));
const sc = fc.constantFrom(1, 1, 0.2, 0.5, 1.5, 3, -1, 0, -0.5);
const endsA = fc.oneof(
  { weight: 4, arbitrary: fc.record({ property: fc.constantFrom("translateX", "translateY"), from: px.map((v) => `${v}px`), to: px.map((v) => `${v}px`) }) },
  { weight: 2, arbitrary: fc.record({ property: fc.constant("scale"), from: sc.map(String), to: sc.map(String) }) },
  { weight: 3, arbitrary: fc.constantFrom((a: number, b: number, c: number) => `translate(${a}px, ${b}px) scale(${c})`, (a: number, b: number, c: number) => `scale(${c}) translate(${a}px, ${b}px)`, (a: number, b: number) => `translate(${a}px,${b}px)`, (a: number, b: number) => `translateX(${a}px) rotate(${b}deg)`, (a: number, b: number) => `rotate(${b}deg) translateY(${a}px)`, (_a: number, b: number) => `rotate(${b}deg)`, (a: number, b: number, c: number) => `matrix(${c}, 0, 0, 1, ${a}, ${b})`, (a: number, _b: number, c: number) => `skewX(${c * 10}deg) translateX(${a}px)`)
    .chain((f) => fc.tuple(px, px, sc, px, px, sc, fc.constantFrom(0, 0, 0, 1, 2)).map(([a, b, c, d, e, g, none]) => ({ property: "transform", from: none === 1 ? "none" : f(a, b, c), to: none === 2 ? "none" : f(d, e, g) }))) },
  { weight: 1, arbitrary: fc.constant({ property: "opacity", from: "0.3", to: "1" }) });
const easing = fc.constantFrom(undefined, "linear", "ease-out", "ease-in-out", "cubic-bezier(0.34,1.56,0.64,1)", "cubic-bezier(0.68,-0.55,0.265,1.55)", "steps(3)", "step-start", "linear(0, 1.4, 0.8, 1)");
const animA = fc.record({
  e: endsA, d: fc.integer({ min: 80, max: 1600 }), delay: opt(fc.integer({ min: -400, max: 900 })), easing, mode: fc.constantFrom("once", "once", "fuse", "own", "repeat", "repeat"),
  repeat: fc.oneof(fc.constant("infinite" as const), fc.integer({ min: 1, max: 4 })), alternate: opt(fc.boolean()), f: endsA, fd: opt(fc.integer({ min: 80, max: 1200 })), fdel: opt(fc.integer({ min: 0, max: 600 })),
  org: opt(fc.constantFrom("center", "left top", "100% 0%", "10px 20px"), 2), box: opt(fc.constantFrom("fill-box", "stroke-box", "view-box"), 2),
});
const nodeA = fc.record({ x: off, y: off, w: fc.integer({ min: 10, max: 120 }), h: fc.integer({ min: 10, max: 90 }), parent: fc.nat({ max: 30 }), anim: opt(animA, 2), shadow: fc.constantFrom(0, 0, 0, 30, 90), overflow: fc.constantFrom(false, false, false, true), pos: fc.constantFrom("static", "static", "relative", "absolute") });
// a box carried out of view by one level and brought back by another, with a gap in between
const outBackA = fc.record({ d: fc.integer({ min: 1000, max: 2500 }), tr: fc.constantFrom(0, 0, 300), x: fc.integer({ min: 5, max: 200 }), y: fc.integer({ min: 5, max: 150 }), axis: fc.constantFrom("translateX", "translateY"), by: fc.constantFrom(-400, 400, -260, 700), t1: fc.integer({ min: 0, max: 350 }), t2: fc.integer({ min: 380, max: 850 }), len: fc.integer({ min: 40, max: 140 }), easing, swap: fc.boolean(), rest: fc.boolean(), more: fc.array(nodeA, { maxLength: 2 }) })
  .map((o) => { const an = (from: string, to: string, at: number): any => ({ e: { property: o.axis, from, to }, d: Math.max(80, Math.round(o.d * o.len / 1000)), delay: Math.round(o.d * at / 1000), easing: o.easing, mode: "once", repeat: 1, alternate: undefined, f: { property: "opacity", from: "0.3", to: "1" }, fd: undefined, fdel: undefined, org: undefined, box: undefined });
    const away = an("0px", `${o.by}px`, o.t1), back = an("0px", `${-o.by}px`, o.t2); const node = (parent: number, anim: any): any => ({ x: o.x, y: o.y, w: 40, h: 30, parent, anim, shadow: 0, overflow: false, pos: "static" });
    return { d: o.d, tr: o.tr, nodes: [node(0, o.swap ? back : away), node(1, o.swap ? away : back), ...(o.rest ? [node(2, undefined)] : []), ...o.more] }; });
const frameA = fc.oneof({ weight: 1, arbitrary: outBackA }, { weight: 5, arbitrary: fc.record({ d: fc.integer({ min: 300, max: 2500 }), tr: fc.constantFrom(0, 0, 300), nodes: fc.array(nodeA, { minLength: 1, maxLength: 8, size: "max" }) }) });

const color = (f: number, i: number): string => `rgb(${f + 1},${i + 1},77)`;
const seen = (m: Mat, b: { x: number; y: number; w: number; h: number }): number => {
  // area-ish of the transformed box inside the viewBox: clip the quad to it and take the smaller side
  let poly = [[b.x, b.y], [b.x + b.w, b.y], [b.x + b.w, b.y + b.h], [b.x, b.y + b.h]].map(([x, y]) => apply(m, x, y));
  const cut = (f: (p: number[]) => number): void => { const out: [number, number][] = []; for (let i = 0; i < poly.length; i++) { const a = poly[i], c = poly[(i + 1) % poly.length]; const fa = f(a), fb = f(c); if (fa >= 0) out.push(a); if ((fa >= 0) !== (fb >= 0)) { const u = fa / (fa - fb); out.push([a[0] + (c[0] - a[0]) * u, a[1] + (c[1] - a[1]) * u]); } } poly = out; };
  cut((p) => p[0]); cut((p) => W - p[0]); cut((p) => p[1]); cut((p) => H - p[1]);
  if (poly.length < 3) return 0;
  let A = 0; for (let i = 0; i < poly.length; i++) { const a = poly[i], c = poly[(i + 1) % poly.length]; A += a[0] * c[1] - a[1] * c[0]; } return Math.abs(A) / 2;
};

await runCheck({ id: "A03", parts: [
  { name: "never-hides", rule: "1-3 frames of nested boxes in and around the viewBox, animated by translate / scale / rotate / matrix lists, fused and own-clock tracks, repeats, overshoot and step easings and transform origins; rendered with culling and played at instants of the first four loops; non-trivial = culling hid something and an animated element was seen in view",
    arb: fc.record({ frames: fc.array(frameA, { minLength: 1, maxLength: 3 }), qs: fc.array(fc.integer({ min: 5, max: 995 }), { minLength: 5, maxLength: 8 }), loop: fc.constantFrom(1, 2, 3, 7) }), runs: { quick: 1100, thorough: 60000 },
    prop: (c, ctx) => {
      const adv = c.frames.map((f) => f.d + f.tr), starts = adv.map((_, i) => adv.slice(0, i).reduce((a, b) => a + b, 0)), total = adv.reduce((a, b) => a + b, 0);
      let culled = false, animSeen = false;
      const info: { f: number; i: number; n: any; owner: boolean; clipped: boolean; st: boolean }[] = [];
      const frames = c.frames.map((f, fi) => {
        const N = f.nodes.length; const kids: number[][] = Array.from({ length: N }, () => []); const roots: number[] = []; const parent: number[] = [];
        f.nodes.forEach((n, i) => { const p = n.parent % (i + 2) - 1; parent[i] = Math.min(p, i - 1); if (parent[i] < 0) roots.push(i); else kids[parent[i]].push(i); });
        const anyBelow = (i: number): boolean => kids[i].some((k) => f.nodes[k].anim != null || anyBelow(k));
        const anims: any[] = [];
        f.nodes.forEach((n, i) => {
          if (!n.anim) return; const a = n.anim; const repeat = a.mode === "repeat"; const d = Math.min(a.d, f.d); const delay = a.delay == null ? undefined : repeat ? a.delay : Math.max(0, Math.min(a.delay, f.d - d));
          const o: any = { animId: `f${fi}n${i}`, ...a.e, duration: d }; if (delay != null) o.delay = delay; if (a.easing) o.easing = a.easing;
          if (repeat) { o.repeat = a.repeat; if (a.alternate != null) o.alternate = a.alternate; }
          const clash = a.f.property === a.e.property || a.f.from === "none" || a.f.to === "none" || a.e.from === "none" || a.e.to === "none";
          if ((a.mode === "fuse" || a.mode === "own") && !clash) { const t: any = { ...a.f }; if (a.mode === "own") { if (a.easing && /^(steps|step-|linear\()/.test(a.easing)) delete o.easing; t.duration = Math.min(a.fd ?? d, f.d); t.delay = Math.max(0, Math.min(a.fdel ?? 0, f.d - t.duration)); } o.fuse = [t]; }
          if (a.org && !anyBelow(i)) { o.transformOrigin = a.org; if (a.box) o.transformBox = a.box; ctx.label("transform origin"); }
          ctx.label(a.mode, repeat && a.repeat !== "infinite" && "finite repeat"); anims.push(o);
        });
        const build = (i: number): any => { const n = f.nodes[i]; return el({ x: n.x, y: n.y, width: n.w, height: n.h, children: kids[i].map(build), ...(n.anim ? { animId: `f${fi}n${i}` } : {}), styles: { backgroundColor: color(fi, i).replace(/,/g, ", "), position: n.pos, boxShadow: n.shadow ? `rgb(9, 9, 9) 0px 0px 0px ${n.shadow}px` : "none", overflowX: n.overflow ? "hidden" : "visible", overflowY: n.overflow ? "hidden" : "visible" } }); };
        const tree = roots.map(build);
        f.nodes.forEach((n, i) => { let st = n.anim == null, clipped = false; for (let p = parent[i]; p >= 0; p = parent[p]) { if (f.nodes[p].anim) st = false; if (f.nodes[p].overflow) clipped = true; } info.push({ f: fi, i, n, owner: n.anim != null, clipped, st }); });
        annotateAnimatedProperties(tree, anims);
        const { css } = cullElementsOutsideViewBox(tree, W, H, anims, starts[fi], total);
        const inner = elementTreeToSvgInner(tree, W, H, `f${fi}-`, true, 2, false);
        if (css !== "" || inner.includes("display:none") || inner.includes("display: none")) culled = true;
        return { svgContent: inner, duration: f.d, transition: f.tr ? { type: "crossfade", duration: f.tr } : { type: "cut", duration: 0 }, animations: anims, cullCss: css };
      });
      const root = parseXml(generateAnimatedSvg({ width: W, height: H, frames } as any)); const pl = new Player(root); const by = new Map<string, XNode>();
      for (const e of walk(root)) { const f = e.attrs.get("fill"); if (f?.startsWith("rgb(") && !by.has(f)) by.set(f, e); }
      // SVG reference box of an animated group: the union of the boxes below it
      const boxOf = (g: XNode): any => {
        const o = pl.base(g).get("transform-origin"); if (o == null) return undefined;
        if (pl.base(g).get("transform-box") === "view-box") return { x: 0, y: 0, w: W, h: H };
        let x0 = Infinity, y0 = Infinity, x1 = -Infinity, y1 = -Infinity;
        const below = (e: XNode): void => { for (const k of e.children) if (k.kind === "el") { if (pl.base(k).get("display") === "none" || k.name === "defs" || k.name === "clipPath") continue; if (k.name === "rect") { const v = (a: string): number => Number(k.attrs.get(a) ?? 0); x0 = Math.min(x0, v("x")); y0 = Math.min(y0, v("y")); x1 = Math.max(x1, v("x") + v("width")); y1 = Math.max(y1, v("y") + v("height")); } else if (k.name !== "g") throw new Error(`<${k.name}> in an animated group`); below(k); } };
        below(g); return x0 === Infinity ? undefined : { x: x0, y: y0, w: x1 - x0, h: y1 - y0 };
      };
      const dt = total * 3e-5 + 0.05; // keyframe offsets are rounded to a thousandth of a per cent
      const D = Math.round(Number((total / 1000).toFixed(2)) * 1000), k = D / total;
      for (const it of info) {
        if (it.clipped) continue;
        const node = by.get(color(it.f, it.i)); ensure(node, () => `element ${it.i} of frame ${it.f} is missing from the document`);
        const pad = it.n.shadow; const box = { x: it.n.x - pad, y: it.n.y - pad, w: it.n.w + 2 * pad, h: it.n.h + 2 * pad };
        for (const loop of [0, c.loop]) for (const q of c.qs) {
          const ms = starts[it.f] + c.frames[it.f].d * q / 1000; const t = ms * k + loop * D;
          if (ms - starts[it.f] < 8 || starts[it.f] + c.frames[it.f].d - ms < 8) continue;
          const vis = [t - dt, t, t + dt].map((x) => seen(pl.ctm(node!, x, boxOf), box));
          if (Math.min(...vis) < 2) continue;
          let hid = ""; for (let e: XNode | null = node!; e; e = e.parent) { const v = pl.value(e, "visibility", t), dsp = pl.value(e, "display", t); if (dsp === "none") { hid = "display:none"; break; } if (v === "hidden") { hid = "visibility:hidden"; break; } if (v === "visible") break; }
          if (!it.st) animSeen = true;
          ensure(hid === "", () => `element ${it.i} of frame ${it.f} covers ${vis[1].toFixed(1)} px² of the view at ${t.toFixed(1)} ms (loop ${loop + 1}, scene ${total} ms) but is ${hid} — ${show(frames[it.f].animations)} box ${show(box)}`);
        }
      }
      ctx.label(c.frames.some((f: any) => f.nodes[1]?.parent === 1 && f.nodes[1].x === f.nodes[0].x && f.nodes[1].anim) && "out and back"); ctx.hit(culled && animSeen); ctx.label(culled && "something culled");
    } },
  { name: "static", rule: "a single captured page, culled without animations: an element in view is painted, a static subtree wholly to one side is not; non-trivial = some element in view and some subtree outside",
    arb: fc.array(nodeA, { minLength: 2, maxLength: 14, size: "max" }), runs: { quick: 700, thorough: 40000 },
    prop: (nodes, ctx) => {
      const N = nodes.length; const kids: number[][] = Array.from({ length: N }, () => []); const roots: number[] = []; const parent: number[] = [];
      nodes.forEach((n, i) => { const p = Math.min(n.parent % (i + 2) - 1, i - 1); parent[i] = p; if (p < 0) roots.push(i); else kids[p].push(i); });
      const build = (i: number): any => { const n = nodes[i]; return el({ x: n.x, y: n.y, width: n.w, height: n.h, children: kids[i].map(build), styles: { backgroundColor: color(0, i).replace(/,/g, ", "), position: n.pos, boxShadow: n.shadow ? `rgb(9, 9, 9) 0px 0px 0px ${n.shadow}px` : "none" } }); };
      const tree = roots.map(build); cullElementsOutsideViewBox(tree, W, H, undefined, 0, 1000);
      const root = parseXml(elementTreeToSvg(tree, W, H)); const pl = new Player(root); const by = new Map<string, XNode>(); for (const e of walk(root)) { const f = e.attrs.get("fill"); if (f?.startsWith("rgb(") && !by.has(f)) by.set(f, e); }
      const inView = (i: number): boolean => { const n = nodes[i], p = n.shadow; return n.x - p < W && n.x + n.w + p > 0 && n.y - p < H && n.y + n.h + p > 0; };
      const hull = (i: number): number[] => { const n = nodes[i], p = n.shadow; return kids[i].map(hull).reduce((a, b) => [Math.min(a[0], b[0]), Math.min(a[1], b[1]), Math.max(a[2], b[2]), Math.max(a[3], b[3])], [n.x - p, n.y - p, n.x + n.w + p, n.y + n.h + p]); };
      const outside = (i: number): boolean => { const [x0, y0, x1, y1] = hull(i); return x0 > W || y0 > H || x1 < 0 || y1 < 0; };
      let a = false, b = false;
      nodes.forEach((n, i) => {
        const e = by.get(color(0, i)); const o = e ? pl.effectiveOpacity(e, 0) : 0;
        if (inView(i)) { a = true; ensure(e && o === 1, () => `element ${i} is in view but not painted: ${show(nodes)}`); }
        else if (outside(i)) { b = true; ensure(o === 0, () => `element ${i}'s whole subtree lies to one side of the view but is painted: ${show(nodes)}`); }
      });
      ctx.hit(a && b);
    } },
] });
