// Point probing of an animated SVG: how opaque is an element at a viewport point
// at time t, given every ancestor's opacity, visibility, transform and clip.
import { type XNode, walk } from "./xml.ts";
import { Player, apply, invert, splitTop, CssError, type Mat } from "./css.ts";

const NUMRE = /^[+-]?(\d+\.?\d*|\.\d+)(e[+-]?\d+)?/i;
export interface Box { x: number; y: number; w: number; h: number }
const len = (s: string, ref: number): number => { const m = NUMRE.exec(s); if (!m) throw new CssError(`bad length ${s}`); return s.endsWith("%") ? Number(m[0]) / 100 * ref : Number(m[0]); };
/** Signed distance-ish containment: >0 inside, <0 outside, magnitude in px (approximate for polygons). */
export function shapeDepth(shape: string, x: number, y: number, box: Box): number {
  const v = shape.trim().replace(/\s+(view-box|fill-box|stroke-box|border-box|padding-box|content-box)$/, "");
  const m = /^(\w+)\((.*)\)$/s.exec(v); if (!m) throw new CssError(`clip-path ${shape}`);
  const [, fn, body] = m;
  if (fn === "inset") {
    const p = splitTop(body.split(" round ")[0], " "); const t = p[0], r = p[1] ?? t, b = p[2] ?? t, l = p[3] ?? r;
    return Math.min(x - (box.x + len(l, box.w)), box.x + box.w - len(r, box.w) - x, y - (box.y + len(t, box.h)), box.y + box.h - len(b, box.h) - y);
  }
  if (fn === "circle") {
    const [r, at] = body.split(/\s+at\s+/); const [cx, cy] = (at ?? "50% 50%").trim().split(/\s+/);
    return len(r.trim(), Math.hypot(box.w, box.h) / Math.SQRT2) - Math.hypot(x - box.x - len(cx, box.w), y - box.y - len(cy, box.h));
  }
  if (fn === "polygon") {
    const pts = splitTop(body, ",").map((s) => { const [a, b] = s.split(/\s+/); return [box.x + len(a, box.w), box.y + len(b, box.h)] as [number, number]; });
    let wind = 0, d = Infinity;
    for (let i = 0; i < pts.length; i++) {
      const [x1, y1] = pts[i], [x2, y2] = pts[(i + 1) % pts.length];
      if (y1 <= y ? y2 > y : y2 <= y) { const cross = (x2 - x1) * (y - y1) - (x - x1) * (y2 - y1); if (y2 > y1 ? cross > 0 : cross < 0) wind += y2 > y1 ? 1 : -1; }
      const L = (x2 - x1) ** 2 + (y2 - y1) ** 2; const u = L === 0 ? 0 : Math.max(0, Math.min(1, ((x - x1) * (x2 - x1) + (y - y1) * (y2 - y1)) / L));
      d = Math.min(d, Math.hypot(x - x1 - u * (x2 - x1), y - y1 - u * (y2 - y1)));
    }
    return wind !== 0 ? d : -d;
  }
  throw new CssError(`clip-path ${shape} not supported by the evaluator`);
}
export class Probe {
  ids = new Map<string, XNode>();
  constructor(public pl: Player, root: XNode, public bbox: (n: XNode) => Box) { for (const e of walk(root)) { const i = e.attrs.get("id"); if (i != null && !this.ids.has(i)) this.ids.set(i, e); } }
  private chain(n: XNode): XNode[] { const c: XNode[] = []; for (let e: XNode | null = n; e; e = e.parent) c.unshift(e); return c; }
  /** Depth of (x,y) inside the intersection of every clip on the way to `n` (Infinity when unclipped). */
  clipDepth(n: XNode, x: number, y: number, t: number): number {
    let m: Mat = [1, 0, 0, 1, 0, 0]; let depth = Infinity;
    for (const e of this.chain(n)) {
      m = this.pl.ctm(e, t);
      const v = this.pl.value(e, "clip-path", t); if (v == null || v === "none") continue;
      const inv = invert(m); if (!inv) return -Infinity;
      const [lx, ly] = apply(inv, x, y);
      const u = /^url\(["']?#([^"')]+)["']?\)$/.exec(v.trim());
      if (u) {
        const cp = this.ids.get(u[1]); if (!cp || cp.name !== "clipPath") { depth = Math.min(depth, -Infinity); continue; }
        let any = -Infinity;
        for (const c of cp.children) if (c.kind === "el") {
          if (c.name !== "rect") throw new CssError(`clip shape <${c.name}>`);
          const g = (k: string): number => Number(c.attrs.get(k) ?? 0);
          any = Math.max(any, Math.min(lx - g("x"), g("x") + g("width") - lx, ly - g("y"), g("y") + g("height") - ly));
        }
        depth = Math.min(depth, any);
      } else depth = Math.min(depth, shapeDepth(v, lx, ly, this.bbox(e)));
    }
    return depth;
  }
  /** Opacity with which the box-shaped element `n` shows at viewport point (x,y); null when the point is within `edge` px of a boundary. */
  alpha(n: XNode, box: Box, x: number, y: number, t: number, edge = 0.5): number | null {
    const o = this.pl.effectiveOpacity(n, t); if (o === 0) return 0;
    const inv = invert(this.pl.ctm(n, t)); if (!inv) return 0;
    const [lx, ly] = apply(inv, x, y);
    const d = Math.min(this.clipDepth(n, x, y, t), lx - box.x, box.x + box.w - lx, ly - box.y, box.y + box.h - ly);
    return Math.abs(d) < edge ? null : d > 0 ? o : 0;
  }
}
