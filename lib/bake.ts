// Freeze an animated SVG at an instant: animated values are written onto the
// elements, style sheets are folded into them, and text set in an embedded font
// becomes the outlines of that font. The result is a plain still picture any
// SVG rasteriser can paint.
import { createRequire } from "node:module";
import { parseXml, walk, classes, textContent, serialize, type XNode } from "./xml.ts";
import { Player, type Mat } from "./css.ts";
const opentype: any = createRequire("/repo/package.json")("opentype.js");
const fontCache = new Map<string, any>();
function fontOf(src: string): any {
  const m = /base64,([A-Za-z0-9+/=]+)/.exec(src); if (!m) throw new Error("font face without data");
  let f = fontCache.get(m[1]);
  if (!f) { const b = Buffer.from(m[1], "base64"); f = opentype.parse(b.buffer.slice(b.byteOffset, b.byteOffset + b.byteLength)); if (fontCache.size > 400) fontCache.clear(); fontCache.set(m[1], f); }
  return f;
}
/** A glyph's outline in font units (y down), exact so that joins are too. */
export const unitPath = (g: any, font: any): string => {
  const d: string = g.getPath(0, 0, font.unitsPerEm).toPathData(6);   // contours of a font are closed curves
  return d.replace(/Z/gi, "").split(/(?=M)/).filter((c) => c.length > 1).map((c) => { const at = c.slice(1).match(/^[-\d.]+[ ,-][-\d.]*/)?.[0] ?? ""; return (c.endsWith("L" + at) ? c.slice(0, -1 - at.length) : c) + "Z"; }).join("");
};
const scaledStroke = (n: XNode, k: number): [string, string][] => { const w = n.attrs.get("stroke-width"); return w ? [["stroke-width", String(Number(w) * k)]] : []; };
const GEOM = new Set(["x", "y", "width", "height", "rx", "ry", "cx", "cy", "r"]);
const TEXT_ATTRS = new Set(["x", "y", "font-family", "font-size", "font-weight", "font-style", "xml:space", "text-rendering", "direction", "unicode-bidi", "letter-spacing", "font-stretch", "font-kerning", "font-variant-ligatures", "textLength", "lengthAdjust"]);
const nums = (s: string | undefined): number[] => (s ?? "").trim().split(/[\s,]+/).filter(Boolean).map(Number);
export interface PaintedGlyph { glyph: string; x: number; y: number; size: number; fill: string; node: XNode }
export interface BakeOptions { keepDisplayNone?: boolean; glyphs?: PaintedGlyph[]; onNode?: (n: XNode, v: Map<string, string>) => void }
export function bake(svg: string, t: number, opt: BakeOptions = {}): string {
  const root = parseXml(svg); const pl = new Player(root);
  const faces = new Map<string, any>();
  for (const ff of pl.sheet.fontFaces) { const d = new Map(ff.map((x) => [x.prop, x.value])); faces.set(d.get("font-family")!.replace(/["']/g, ""), d.get("src")!); }
  const nodes = [...walk(root)];
  const styles = new Map<XNode, Map<string, string>>();
  for (const n of nodes) {
    const v = new Map<string, string>(); const base = pl.base(n);
    for (const [k, x] of base) if (n.attrs.get(k) !== x) v.set(k, pl.subst(n, x));
    const an = pl.animated(n, t); for (const [k, x] of an) v.set(k, x);
    if (v.has("transform") || base.has("transform-origin")) { const m: Mat = pl.ownTransform(n, t); n.attrs.set("transform", `matrix(${m.join(",")})`); n.attrs.delete("transform-origin"); v.delete("transform"); v.delete("transform-origin"); v.delete("transform-box"); }
    for (const k of [...v.keys()]) {
      if (k.startsWith("animation") || k === "will-change" || k.startsWith("--")) v.delete(k);
      else if (GEOM.has(k)) { n.attrs.set(k, v.get(k)!.replace(/px$/, "")); v.delete(k); }
    }
    styles.set(n, v); opt.onNode?.(n, v);
  }
  for (const n of nodes) {
    if (n.name === "style") { n.children = []; continue; }
    const v = styles.get(n)!; n.attrs.delete("style");
    if (v.size) n.attrs.set("style", [...v].map(([k, x]) => `${k}:${x}`).join(";"));
    if (n.name !== "text") continue;
    const fam = (n.attrs.get("font-family") ?? "").replace(/["']/g, ""); const src = faces.get(fam);
    if (!src) continue;
    const font = fontOf(src), size = Number(n.attrs.get("font-size")), xs = nums(n.attrs.get("x")), ys = nums(n.attrs.get("y"));
    const text = textContent(n); let px = xs[0] ?? 0, py = ys[0] ?? 0; const out: XNode[] = [];
    for (let i = 0; i < text.length; i++) {
      const cp = text.codePointAt(i)!;
      if (i < xs.length) px = xs[i]; if (i < ys.length) py = ys[i];
      const g = font.charToGlyph(String.fromCodePoint(cp));
      const d = unitPath(g, font);
      opt.glyphs?.push({ glyph: g.getPath(0, 0, 100).toPathData(3), x: px, y: py, size, fill: n.attrs.get("fill") ?? "", node: n });
      if (d) out.push({ kind: "el", name: "path", attrs: new Map([["d", d], ["transform", `translate(${px},${py}) scale(${size / font.unitsPerEm})`], ...scaledStroke(n, font.unitsPerEm / size)]), children: [], parent: n, pos: 0, end: 0, openEnd: 0 });
      px += g.advanceWidth * size / font.unitsPerEm; if (cp > 0xffff) i++;
    }
    for (const a of TEXT_ATTRS) n.attrs.delete(a);
    n.name = "g"; n.children = out;
  }
  return serialize(root);
}
