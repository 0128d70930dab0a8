// S03: composing scroll captures into one animated SVG. Oracle: the segment
// timeline itself (position at every instant, what must be on screen then),
// evaluated on the emitted document with an independent CSS animation player.
import { fc, runCheck, ensure, fail, near, same, show } from "../lib/harness.ts";
import { el } from "../lib/tree.ts";
import { parseXml, walk, textContent, idReport, externalOrActive, type XNode } from "../lib/xml.ts";
import { Player, apply, parseEasing } from "../lib/css.ts";
import { composeScrollSvg } from "/repo/src/index.ts";

const css = (e: any): string => e == null ? "linear" : e.kind === "named" ? e.name : e.kind === "steps" ? `steps(${e.count}${e.position ? `, ${e.position}` : ""})` : `cubic-bezier(${e.values.join(",")})`;
const easings = [undefined, undefined, undefined, { kind: "named", name: "ease-in-out" }, { kind: "named", name: "linear" }, { kind: "named", name: "step-end" }, { kind: "steps", count: 3 }, { kind: "steps", count: 4, position: "jump-start" }, { kind: "cubic-bezier", values: [0.4, 0, 0.2, 1] }];
const caseA = fc.record({
  W: fc.integer({ min: 60, max: 400 }), H: fc.integer({ min: 60, max: 400 }), axis: fc.constantFrom("y", "y", "y", "x"),
  start: fc.constantFrom(0, 0, 500, 123.5),
  moves: fc.array(fc.record({ d: fc.oneof({ weight: 4, arbitrary: fc.integer({ min: 1, max: 100 }) }, { weight: 2, arbitrary: fc.constant(100) }, { weight: 3, arbitrary: fc.integer({ min: -100, max: -1 }) }, { weight: 1, arbitrary: fc.constant(0) }), rep: fc.integer({ min: 1, max: 4 }), ms: fc.integer({ min: 50, max: 4000 }), gap: fc.constantFrom(0, 0, 0, 700, 2500), easing: fc.constantFrom(...easings) }), { minLength: 0, maxLength: 5 }),
  up: fc.boolean(),
  tail: fc.constantFrom(0, 0, 1500),
  fixed: fc.array(fc.record({ y: fc.integer({ min: 0, max: 300 }), from: fc.nat(3), depth: fc.boolean() }), { maxLength: 2 }),
  sticky: fc.option(fc.record({ flow: fc.nat(3), depth: fc.boolean() }), { nil: undefined }),
  chunk: fc.constantFrom(undefined, 1, 3), bg: fc.constantFrom(undefined, undefined, "rgb(9, 8, 7)", "transparent"), rootBg: fc.constantFrom(undefined, "rgb(1, 2, 3)", "rgba(0, 0, 0, 0)"),
  title: fc.constantFrom(undefined, "A & <b>"), times: fc.array(fc.double({ min: 0, max: 1, noNaN: true }), { minLength: 3, maxLength: 6 }),
});
type Case = typeof caseA extends fc.Arbitrary<infer T> ? T : never;
function build(c: Case) {
  const dim = c.axis === "y" ? c.H : c.W; let pos = c.start, t = 0;
  const raw: { pos: number; start: number; end: number; easing: any }[] = [{ pos, start: 0, end: 0, easing: undefined }];
  const up = c.up ? 6 * dim : 0; if (up) { pos += up; raw[0].pos = pos; }
  for (const m of c.moves) { t += m.gap; for (let k = 0; k < m.rep; k++) { const np = Math.max(0, pos + Math.round(dim * m.d / 100)); raw.push({ pos: np, start: t, end: t + m.ms, easing: m.easing }); t += m.ms; pos = np; } }
  const mk = (i: number, x: number, y: number, w: number, h: number, styles: any = {}, children: any[] = [], id = i): any => el({ x, y, width: w, height: h, children, styles: { backgroundColor: color(id), ...styles } });
  const color = (id: number): string => `rgb(${id >> 8}, ${id & 255}, 77)`;
  const segs = raw.map((r, i) => {
    const kids = [mk(0, 7, 11, 20, 13, {}, [], 1000 + i)];
    const wrap = (node: any, depth: boolean): void => { kids.push(depth ? el({ x: 0, y: 0, width: c.W, height: c.H, children: [node] }) : node); };
    if (c.sticky && c.axis === "y") { // flows with the page in the first `flow` segments, then sticks at 5
      const stuck = i >= c.sticky.flow; const off = stuck ? 5 : 5 + 40 + i * 3;
      wrap(el({ x: c.axis === "y" ? 40 : off, y: c.axis === "y" ? off : 40, width: 12, height: 8, styles: { position: "sticky", backgroundColor: color(3000) } }), c.sticky.depth);
    }
    c.fixed.forEach((f, k) => { if (i >= f.from) wrap(mk(0, 3 + k, f.y % c.H, 30 + k, 9, { position: "fixed" }, [mk(0, 4 + k, f.y % c.H, 5, 5, {}, [], 2100 + k)], 2000 + k), f.depth); });
    const root = el({ tag: "body", x: 0, y: 0, width: c.W, height: c.H, children: kids, styles: c.rootBg ? { rootBgComputed: c.rootBg } : {} });
    return { scrollX: c.axis === "x" ? r.pos : 0, scrollY: c.axis === "y" ? r.pos : 0, segmentStartMs: r.start, segmentEndMs: r.end, tree: [root], diffFromPrev: null, ...(r.easing ? { easing: r.easing } : {}) } as any;
  });
  if (c.tail) { segs[segs.length - 1].holdUntilMs = t + c.tail; t += c.tail; }
  return { segs, raw, dim, color, total: Math.max(t, 1) };
}
const posAt = (raw: ReturnType<typeof build>["raw"], t: number): number => {
  let p = raw[0].pos;
  for (let i = 1; i < raw.length; i++) {
    if (t < raw[i].start) return p;
    if (t < raw[i].end) { const f = parseEasing(css(raw[i].easing))!; return p + (raw[i].pos - p) * f((t - raw[i].start) / (raw[i].end - raw[i].start)); }
    p = raw[i].pos;
  }
  return p;
};
const fillIs = (n: XNode, c: string): boolean => (n.attrs.get("fill") ?? "").replace(/\s/g, "") === c.replace(/\s/g, "");
const paints = (root: XNode, c: string): XNode[] => [...walk(root)].filter((n) => n.name !== "clipPath" && fillIs(n, c));
function place(n: XNode): [number, number] {
  if (n.name === "rect") return [Number(n.attrs.get("x") ?? 0), Number(n.attrs.get("y") ?? 0)];
  const m = /M\s*(-?[\d.]+)[ ,](-?[\d.]+)/.exec(n.attrs.get("d") ?? ""); if (m) return [Number(m[1]), Number(m[2])];
  return fail(`cannot place <${n.name}>`);
}

await runCheck({ id: "S03", parts: [
  { name: "playback", rule: "random segment timelines (down, up, mixed, pauses, easings, both axes) with fixed and sticky elements, sampled inside every slot and at random instants; non-trivial = at least 3 segments",
    arb: caseA, runs: { quick: 350, thorough: 15000 },
    prop: (c, ctx) => {
      const { segs, raw, dim, color, total } = build(c); ctx.hit(segs.length >= 3);
      const dirs = new Set(raw.slice(1).map((r, i) => Math.sign(r.pos - raw[i].pos)).filter(Boolean));
      ctx.label(dirs.has(-1) && "moves up/left", dirs.size > 1 && "mixed directions", c.moves.some((m) => m.gap > 0) && "pauses", c.axis === "x" && "x axis", c.fixed.length > 0 && "fixed", c.sticky && "sticky", raw.some((r) => r.easing) && "easing");
      const opts: any = { viewportW: c.W, viewportH: c.H, axis: c.axis, bgColor: c.bg, chunkSize: c.chunk, title: c.title };
      const svg = composeScrollSvg(segs, opts);
      same(composeScrollSvg(build(c).segs, opts), svg, "composing the same captures twice");
      const root = parseXml(svg); const ids = idReport(root);
      ensure(ids.duplicates.length === 0, () => `duplicate ids ${show(ids.duplicates)}`); ensure(ids.dangling.length === 0, () => `unresolved references ${show(ids.dangling)}`);
      ensure(externalOrActive(root).length === 0, "external references in the output");
      same([root.attrs.get("viewBox"), root.attrs.get("width"), root.attrs.get("height")], [`0 0 ${c.W} ${c.H}`, String(c.W), String(c.H)], "root size");
      const bg = c.bg ?? c.rootBg; const opaque = bg != null && bg !== "transparent" && bg !== "rgba(0, 0, 0, 0)";
      if (opaque) { const r0 = root.children.find((n): n is XNode => typeof n !== "string" && n.name === "rect"); ensure(r0 && fillIs(r0, bg!) && Number(r0.attrs.get("width")) === c.W && Number(r0.attrs.get("height")) === c.H, () => `page background ${bg} is not painted behind the viewport`); }
      else for (const n of root.children) if (typeof n !== "string") ensure(n.name !== "rect", "a transparent page must stay transparent");
      const pl = new Player(root);
      const marks = raw.map((_, i) => paints(root, color(1000 + i)));
      marks.forEach((m, i) => ensure(m.length === 1, () => `content of segment ${i} painted ${m.length} times`));
      const times: number[] = [];
      for (let i = 1; i < raw.length; i++) { times.push(raw[i].start + (raw[i].end - raw[i].start) * 0.31, raw[i].start + (raw[i].end - raw[i].start) * 0.87); if (raw[i].start > raw[i - 1].end) times.push((raw[i].start + raw[i - 1].end) / 2, raw[i].start - (raw[i].start - raw[i - 1].end) * 0.1); }
      for (const f of c.times) times.push(f * total * 0.9999);
      const eps = total * 2e-5 + 1e-3; // keyframe offsets are printed with three decimals of a percent
      const fixedSeen = c.fixed.map((_, k) => c.fixed.some((f, j) => j === k && f.from < segs.length));
      for (const t0 of times) for (const t of [t0, t0 + total * 3]) {
        // stay clear of the instants where a keyframe offset was rounded
        if (raw.some((r) => Math.abs(t0 - r.start) < eps || Math.abs(t0 - r.end) < eps)) continue;
        const p = posAt(raw, t0); const lo = posAt(raw, t0 - eps), hi = posAt(raw, t0 + eps); const tol = 0.6 + Math.abs(hi - lo);
        if (Math.abs(hi - lo) > 5) continue;
        raw.forEach((r, i) => {
          const n = marks[i][0]; const [x, y] = place(n); const m = pl.ctm(n, t); const [X, Y] = apply(m, x, y); const rel = r.pos - p;
          const wantX = 7 + (c.axis === "x" ? rel : 0), wantY = 11 + (c.axis === "y" ? rel : 0);
          near(X, wantX, tol, () => `at ${t.toFixed(1)} ms of ${total} the content captured at ${r.pos} is at x=${X}; the scroll position is ${p.toFixed(1)}`);
          near(Y, wantY, tol, () => `at ${t.toFixed(1)} ms of ${total} the content captured at ${r.pos} is at y=${Y}; the scroll position is ${p.toFixed(1)}`);
          if (Math.abs(rel) < dim - 1) { const o = pl.effectiveOpacity(n, t); ensure(o === 1, () => `at ${t.toFixed(1)} ms of ${total} (scroll ${p.toFixed(1)}) the content captured at ${r.pos} is in view but hidden; positions ${show(raw.map((q) => [q.pos, q.start, q.end]))}`); }
        });
        c.fixed.forEach((f, k) => {
          if (!fixedSeen[k]) return;
          for (const id of [2000 + k, 2100 + k]) { const ns = paints(root, color(id)); ensure(ns.length === 1, () => `a fixed element is painted ${ns.length} times`); const [x, y] = place(ns[0]); const [X, Y] = apply(pl.ctm(ns[0], t), x, y); near(X, id >= 2100 ? 4 + k : 3 + k, 0.01, "fixed element x"); near(Y, f.y % c.H, 0.01, "fixed element y"); ensure(pl.effectiveOpacity(ns[0], t) === 1, "a fixed element must stay visible"); }
        });
        if (c.sticky && c.axis === "y" && segs.length - c.sticky.flow >= 2) {
          const ns = paints(root, color(3000)); const flow = Math.min(c.sticky.flow, segs.length);
          const from = raw[c.sticky.flow].start;
          const stuckNow = t0 >= from + eps;
          const overlay = ns.filter((n) => { const [x, y] = place(n); const [X, Y] = apply(pl.ctm(n, t), x, y); const [X2, Y2] = apply(pl.ctm(n, 0), x, y); return Math.abs((c.axis === "y" ? Y : X) - 5) < 0.01 && pl.anims(n.parent!.parent ?? n).length >= 0 && [...ancestors(n)].every((a) => !/translate3d/.test(pl.value(a, "transform", t) ?? "")) && Number.isFinite(X2 + Y2); });
          ensure(ns.length === flow + 1, () => `a sticky element stuck for segments ${flow}.. is painted ${ns.length} times, expected ${flow} in flow and one pinned`);
          ensure(overlay.length === 1, () => `a stuck element must be pinned to the viewport exactly once (${overlay.length})`);
          if (stuckNow) ensure(pl.effectiveOpacity(overlay[0], t) === 1, () => `at ${t0.toFixed(1)} ms the stuck element is hidden`); else if (t0 < from - eps) ensure(pl.effectiveOpacity(overlay[0], t) === 0, () => `at ${t0.toFixed(1)} ms the pinned copy shows before the element sticks at ${from}`);
        }
      }
      if (c.title) { const ti = root.children.find((n): n is XNode => typeof n !== "string" && n.name === "title"); ensure(ti && textContent(ti) === c.title && root.attrs.get("role") === "img", "accessible name"); }
    } },
] });
function* ancestors(n: XNode): Iterable<XNode> { for (let a: XNode | null = n; a; a = a.parent) yield a; }
