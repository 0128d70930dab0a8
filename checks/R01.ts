// R01: a captured page's boxes are stacked, clipped and composited as CSS paints them.
// The oracle is an independent painter of CSS 2.1 Appendix E (plus overflow, opacity and flex items)
// that paints the same tree into a pixel buffer; the emitted SVG is rasterised and compared pixel by pixel.
import { fc, runCheck, ensure, show } from "../lib/harness.ts";
import { el } from "../lib/tree.ts";
import { sharp } from "../lib/png.ts";
import { elementTreeToSvg } from "/repo/src/render/element-tree-to-svg.ts";
import { hitTestTopmost } from "/repo/src/render/paint-order.ts";

const N = 32;
interface Node { tag: string; x: number; y: number; w: number; h: number; color: string | null; pos: string; z: string; float: string; display: string; opacity: number; overflow: string; sc: string; order: number; bw: number; kids: Node[]; parent?: Node; id: number }

// ── reference painter ────────────────────────────────────────────────────────
type Buf = Float64Array; // premultiplied rgba per pixel
const blank = (): Buf => new Float64Array(N * N * 4);
const over = (dst: Buf, src: Buf, alpha: number, clip: Rect[]): void => { for (let y = 0; y < N; y++) for (let x = 0; x < N; x++) { if (!clip.every((c) => x >= c.x0 && x < c.x1 && y >= c.y0 && y < c.y1)) continue; const i = (y * N + x) * 4; const a = src[i + 3] * alpha; if (a === 0) continue; for (let k = 0; k < 3; k++) dst[i + k] = src[i + k] * alpha + dst[i + k] * (1 - a); dst[i + 3] = a + dst[i + 3] * (1 - a); } };
interface Rect { x0: number; y0: number; x1: number; y1: number }
const rgba = (s: string): [number, number, number, number] => { const m = /rgba?\(([^)]*)\)/.exec(s)![1].split(",").map(Number); return [m[0] / 255, m[1] / 255, m[2] / 255, m[3] ?? 1]; };
function fill(b: Buf, r: Rect, c: [number, number, number, number], clips: Rect[]): void { for (let y = Math.max(0, r.y0); y < Math.min(N, r.y1); y++) for (let x = Math.max(0, r.x0); x < Math.min(N, r.x1); x++) { if (!clips.every((q) => x >= q.x0 && x < q.x1 && y >= q.y0 && y < q.y1)) continue; const i = (y * N + x) * 4; for (let k = 0; k < 3; k++) b[i + k] = c[k] * c[3] + b[i + k] * (1 - c[3]); b[i + 3] = c[3] + b[i + 3] * (1 - c[3]); } }

const flexItem = (n: Node): boolean => n.parent != null && /flex/.test(n.parent.display);
const positioned = (n: Node): boolean => n.pos !== "static";
const isSC = (n: Node): boolean => n.parent == null || n.pos === "fixed" || n.pos === "sticky" || (positioned(n) || flexItem(n)) && n.z !== "auto" || n.opacity < 1 || n.sc !== "";
/** Contains its absolutely positioned and fixed descendants whatever its own position. */
const holdsFixed = (n: Node): boolean => ["transform", "paint", "willTransform"].includes(n.sc);
const blockLevel = (n: Node): boolean => !/^inline/.test(n.display);
const floats = (n: Node): boolean => n.float !== "none" && !positioned(n) && !flexItem(n);
/** The boxes whose overflow clips n: its containing-block chain. */
function clipsOf(n: Node, stop: Node | null): Rect[] {
  const out: Rect[] = []; let cur: Node = n;
  for (;;) {
    let cb = cur.parent; const p = cur.pos;
    if (p === "absolute") while (cb && !(positioned(cb) || holdsFixed(cb))) cb = cb.parent;
    if (p === "fixed") while (cb && !holdsFixed(cb)) cb = cb.parent;
    if (!cb) break; if (cb.overflow !== "visible" || cb.sc === "paint") out.push({ x0: cb.x + cb.bw, y0: cb.y + cb.bw, x1: cb.x + cb.w - cb.bw, y1: cb.y + cb.h - cb.bw }); cur = cb;
  }
  void stop; return out;
}
/** Tree order, with a flex container's items in order-modified order. */
const kidsOf = (n: Node): Node[] => (/flex/.test(n.display) ? n.kids.map((k, i) => [k, i] as const).sort((a, b) => a[0].order - b[0].order || a[1] - b[1]).map((x) => x[0]) : n.kids);
/** When set, boxes are recorded in paint order instead of painted. */
let events: Node[] | null = null;
function box(b: Buf, n: Node): void {
  if (events) { events.push(n); return; }
  const cl = clipsOf(n, null);
  if (n.color) fill(b, { x0: n.x, y0: n.y, x1: n.x + n.w, y1: n.y + n.h }, rgba(n.color), cl);
  if (n.bw) { const c: [number, number, number, number] = [0, 0, 0, 1]; const { x, y, w, h, bw } = n; fill(b, { x0: x, y0: y, x1: x + w, y1: y + bw }, c, cl); fill(b, { x0: x, y0: y + h - bw, x1: x + w, y1: y + h }, c, cl); fill(b, { x0: x, y0: y, x1: x + bw, y1: y + h }, c, cl); fill(b, { x0: x + w - bw, y0: y, x1: x + w, y1: y + h }, c, cl); }
}
/** Members of the stacking context or pseudo-context rooted at n. */
function layers(root: Node): { z: Node[]; blocks: Node[]; floats: Node[]; inline: Node[] } {
  const L = { z: [] as Node[], blocks: [] as Node[], floats: [] as Node[], inline: [] as Node[] };
  const walk = (n: Node, pseudo: boolean): void => { for (const k of kidsOf(n)) {
    if (isSC(k)) { L.z.push(k); continue; }
    if (positioned(k)) { L.z.push(k); walk(k, true); continue; }
    if (floats(k)) { if (!pseudo) L.floats.push(k); walk(k, true); continue; }
    if (flexItem(k) || !blockLevel(k)) { if (!pseudo) L.inline.push(k); walk(k, true); continue; }
    if (!pseudo) L.blocks.push(k); walk(k, pseudo);
  } };
  walk(root, false); return L;
}
const zOf = (n: Node): number => (n.z === "auto" ? 0 : Number(n.z)) ;
const zUsed = (n: Node): number => (positioned(n) || flexItem(n) ? zOf(n) : 0);
function paint(b: Buf, n: Node, real: boolean): void {
  if (real && n.opacity < 1) { const g = blank(); inner(g, n, real); over(b, g, n.opacity, []); } else inner(b, n, real);
}
function inner(b: Buf, n: Node, real: boolean): void {
  const L = layers(n);
  if (n.parent) box(b, n);
  if (real) for (const k of L.z.filter((x) => zUsed(x) < 0).sort((p, q) => zUsed(p) - zUsed(q))) paint(b, k, isSC(k));
  for (const k of L.blocks) box(b, k);
  for (const k of L.floats) paint(b, k, false);
  for (const k of L.inline) paint(b, k, false);
  if (real) { for (const k of L.z.filter((x) => zUsed(x) === 0)) paint(b, k, isSC(k)); for (const k of L.z.filter((x) => zUsed(x) > 0).sort((p, q) => zUsed(p) - zUsed(q))) paint(b, k, isSC(k)); }
}

// ── generator ────────────────────────────────────────────────────────────────
const COLORS = (i: number): string => `rgb(${[(i * 67 + 31) % 256, (i * 131 + 77) % 256, (i * 193 + 5) % 256].join(", ")})`;
const geo = fc.tuple(fc.integer({ min: 0, max: 24 }), fc.integer({ min: 0, max: 24 }), fc.integer({ min: 4, max: 28 }), fc.integer({ min: 4, max: 28 }));
const nodeA = (depth: number): fc.Arbitrary<any> => fc.record({
  geo, painted: fc.constantFrom(true, true, true, false), pos: fc.constantFrom("static", "static", "static", "relative", "absolute", "fixed", "sticky"), z: fc.constantFrom("auto", "auto", "auto", "0", "1", "2", "-1"), float: fc.constantFrom("none", "none", "none", "left"),
  display: fc.constantFrom("block", "block", "block", "inline-block", "flex"), opacity: fc.constantFrom(1, 1, 1, 1, 1, 0.5), overflow: fc.constantFrom("visible", "visible", "visible", "hidden"), sc: fc.constantFrom("", "", "", "", "", "isolate", "transform", "paint", "willTransform"), order: fc.constantFrom(0, 0, 0, 1, -1), bw: fc.constantFrom(0, 0, 0, 2),
  kids: depth > 0 ? fc.array(nodeA(depth - 1), { maxLength: 3, size: "max" }) : fc.constant([]),
});
const pageA = fc.array(nodeA(3), { minLength: 1, maxLength: 4, size: "max" });
/** Out of scope: content that is outside a clip which applies to the whole stacking context it belongs to. */
function escapesGroup(n: Node): boolean { const mine = clipsOf(n, null).map((r) => JSON.stringify(r)); for (let s = n.parent; s?.parent; s = s.parent) if (isSC(s)) { const own: Node = { ...n, pos: "static", parent: s }; if (clipsOf(own, null).some((r) => !mine.includes(JSON.stringify(r)))) return true; } return false; }
/** Out of scope: a fixed box inside a scroller (it escapes the scroller's clip, which single-file output cannot always express). */
const underScroller = (n: Node): boolean => { for (let s = n.parent; s?.parent; s = s.parent) if (s.overflow !== "visible") return true; return false; };
let uid = 0;
function build(g: any, parent: Node | undefined): Node { const [x, y, w, h] = g.geo; const id = uid++; const n: Node = { tag: "div", x, y, w, h, color: g.painted ? COLORS(id) : null, pos: g.pos, z: g.z, float: g.pos === "absolute" || g.pos === "fixed" ? "none" : g.float, display: g.display, opacity: g.opacity, overflow: g.overflow, sc: g.sc, order: g.order, bw: g.bw, kids: [], parent, id }; const itemOfFlex = parent && /flex/.test(parent.display); if (n.pos === "absolute" || n.pos === "fixed" || n.float !== "none" || itemOfFlex) { if (n.display === "inline-block") n.display = "block"; } if (itemOfFlex) n.float = "none"; if (n.pos === "fixed" && underScroller(n)) n.pos = "absolute"; if (escapesGroup(n)) { n.pos = "relative"; } n.kids = g.kids.map((k: any) => build(k, n)); return n; }
const tree = (n: Node): any => tree1(n, n.kids.map(tree));
const tree1 = (n: Node, children: any[]): any => el({ tag: n.tag, x: n.x, y: n.y, width: n.w, height: n.h, children, styles: { backgroundColor: n.color ?? "rgba(0, 0, 0, 0)", position: n.pos, zIndex: n.z, float: n.float, display: n.display, opacity: String(n.opacity), overflowX: n.overflow, overflowY: n.overflow, order: String(n.order), ...(n.bw ? { borderWidth: `${n.bw}px`, borderColor: "rgb(0, 0, 0)", ...Object.fromEntries(["Top", "Right", "Bottom", "Left"].flatMap((s) => [[`border${s}Width`, `${n.bw}px`], [`border${s}Style`, "solid"]])) } : {}), ...(n.sc === "isolate" ? { isolation: "isolate" } : n.sc === "transform" ? { transformCreatesSc: true } : n.sc === "paint" ? { contain: "paint" } : n.sc === "willTransform" ? { willChange: "transform" } : {}) } });

const describe = function describe(n: Node): any { return { id: n.id, c: n.color, box: [n.x, n.y, n.w, n.h].join(" "), ...(n.pos !== "static" ? { pos: n.pos } : {}), ...(n.z !== "auto" ? { z: n.z } : {}), ...(n.float !== "none" ? { float: n.float } : {}), ...(n.display !== "block" ? { display: n.display } : {}), ...(n.opacity < 1 ? { opacity: n.opacity } : {}), ...(n.overflow !== "visible" ? { overflow: n.overflow } : {}), ...(n.sc ? { sc: n.sc } : {}), ...(n.order ? { order: n.order } : {}), ...(n.bw ? { bw: n.bw } : {}), kids: n.kids.map(describe) }; };
async function judge(g: any[], ctx: any): Promise<void> {
  uid = 0; const root: Node = { tag: "body", x: 0, y: 0, w: N, h: N, color: null, pos: "static", z: "auto", float: "none", display: "block", opacity: 1, overflow: "visible", sc: "", order: 0, bw: 0, kids: [], id: -1 }; root.kids = g.map((k) => build(k, root));
  const want = blank(); for (let i = 0; i < want.length; i++) want[i] = 1; paint(want, root, true);
  const svg = elementTreeToSvg(root.kids.map(tree), N, N);
  const { data, info } = await sharp(Buffer.from(svg)).flatten({ background: "#fff" }).removeAlpha().raw().toBuffer({ resolveWithObject: true }); ensure(info.width === N && info.height === N, "raster size");
  let bad = 0, first = ""; for (let p = 0; p < N * N; p++) for (let k = 0; k < 3; k++) if (Math.abs(data[p * 3 + k] - want[p * 4 + k] * 255) > 10) { if (!bad++) first = `(${p % N},${Math.floor(p / N)}): painted rgb(${[...data.subarray(p * 3, p * 3 + 3)]}), CSS paints rgb(${[0, 1, 2].map((q) => Math.round(want[p * 4 + q] * 255))})`; break; }
  ensure(bad === 0, () => `${bad} pixels differ, first ${first}; ${show(root.kids.map(describe))}`);
  let count = 0; const walk = (n: Node): void => { count++; n.kids.forEach(walk); }; root.kids.forEach(walk); ctx.hit(count >= 3);
}
// ── which box is on top ──────────────────────────────────────────────────────
// (Block-level boxes only: hitTestTopmost documents that it keeps atomic inline-level content in tree order.)
const plain = (g: any): any => ({ ...g, display: "block", kids: g.kids.map(plain) });
async function judgeHit(raw: any[], ctx: any): Promise<void> {
  uid = 0; const g = raw.map(plain); const root: Node = { tag: "body", x: 0, y: 0, w: N, h: N, color: null, pos: "static", z: "auto", float: "none", display: "block", opacity: 1, overflow: "visible", sc: "", order: 0, bw: 0, kids: [], id: -1 }; root.kids = g.map((k) => build(k, root));
  events = []; paint(blank(), root, true); const order = events; events = null;
  const els = new Map<any, Node>(); const mk = (n: Node): any => { const e = tree1(n, n.kids.map(mk)); els.set(e, n); return e; };
  const roots = root.kids.map(mk); let hits = 0;
  for (let y = 0; y < N; y += 3) for (let x = 0; x < N; x += 3) {
    let want: Node | null = null; for (const n of order) if (x >= n.x && x < n.x + n.w && y >= n.y && y < n.y + n.h && clipsOf(n, null).every((c) => x >= c.x0 && x < c.x1 && y >= c.y0 && y < c.y1)) want = n;
    const got = hitTestTopmost(roots, x, y); const gid = got ? els.get(got)!.id : null; if (want) hits++;
    ensure(gid === (want?.id ?? null), () => `at (${x},${y}) the topmost box is #${want?.id ?? "none"}, hit #${gid ?? "none"}; ${show(root.kids.map(describe))}`);
  }
  ctx.hit(hits >= 20 && order.length >= 3);
}
export const R01 = { pageA, judge };
await runCheck({ id: "R01", parts: [
  { name: "order", rule: "random pages; non-trivial = at least three boxes", arb: pageA, runs: { quick: 1500, thorough: 60000 }, prop: judge },
  { name: "topmost", rule: "random pages probed on a grid; non-trivial = three boxes and twenty hits", arb: pageA, runs: { quick: 3000, thorough: 120000 }, prop: judgeHit },
], assumptions: ["the SVG is rasterised by librsvg"] });
