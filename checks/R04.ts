// R04: text is painted glyph for glyph where the page had it. Oracle: the
// outlines of the installed font files (read with opentype.js), placed by this
// file at the captured positions, in both text modes; the two pictures are
// rasterised at twice their size and compared.
import { fc, runCheck, ensure, same, show } from "../lib/harness.ts";
import { el } from "../lib/tree.ts";
import { bake, unitPath } from "../lib/bake.ts";
import { raster, diff, png, dataUri } from "../lib/png.ts";
import { parseXml, idReport } from "../lib/xml.ts";
import { readFileSync } from "node:fs";
import { createRequire } from "node:module";
import { elementTreeToSvgInner } from "/repo/src/render/element-tree-to-svg.ts";
import { clearEmbeddedFonts, clearGlyphDefs, getEmbeddedFontFaceCss } from "/repo/src/render/index.ts";
import { withRenderTextMode } from "/repo/src/render/font-resolution.ts";
const opentype: any = createRequire("/repo/package.json")("opentype.js");
const W = 320, H = 200;
const D = "/usr/share/fonts/truetype/";
const FACES: Record<string, string[]> = {
  "Liberation Sans": ["liberation/LiberationSans-Regular.ttf", "liberation/LiberationSans-Bold.ttf", "liberation/LiberationSans-Italic.ttf", "liberation/LiberationSans-BoldItalic.ttf"],
  "Liberation Serif": ["liberation/LiberationSerif-Regular.ttf", "liberation/LiberationSerif-Bold.ttf", "liberation/LiberationSerif-Italic.ttf", "liberation/LiberationSerif-BoldItalic.ttf"],
  "Liberation Mono": ["liberation/LiberationMono-Regular.ttf", "liberation/LiberationMono-Bold.ttf", "liberation/LiberationMono-Italic.ttf", "liberation/LiberationMono-BoldItalic.ttf"],
  "DejaVu Sans": ["dejavu/DejaVuSans.ttf", "dejavu/DejaVuSans-Bold.ttf"],
};
const fonts = new Map<string, any>();
const load = (f: string): any => { let v = fonts.get(f); if (!v) { const b = readFileSync(D + f); v = opentype.parse(b.buffer.slice(b.byteOffset, b.byteOffset + b.byteLength)); fonts.set(f, v); } return v; };
const bold = (w: string): boolean => w === "bold" || Number(w) >= 600;
/** The first family of the list that is installed, in the face its weight and style select. */
function face(list: string, weight: string, style: string): any {
  const fam = list.split(",").map((s) => s.trim().replace(/["']/g, "")).find((f) => FACES[f])!;
  return load(FACES[fam][(bold(weight) ? 1 : 0) + (style === "italic" || style === "oblique" ? 2 : 0)]);
}
const COLORS = ["rgb(20, 20, 20)", "rgb(200, 0, 0)", "rgb(0, 90, 200)", "rgba(0, 120, 0, 0.5)"];
const FAMS = ["Liberation Sans", "Liberation Serif", "Liberation Mono", "DejaVu Sans", '"No Such Face", "Liberation Serif"', '"Liberation Mono", "Liberation Sans"'];
const PLAIN = [..."abcdeghkmnopqrsuvwxyzABCDGHKMNOPQRSTVWXYZ2345678.,:;!?+-=#%&@$*/_~"], SPACED = [" ", " ", "\u00a0"], WIDE = [..."éñüÅčΩπλЖяЩ€—“”"], HEB = [..."ובהחפצ"];
const IMG = [0, 1].map((k) => dataUri(png(3, 3, (x, y) => [k ? 255 : 60 * x, 80 * y, k ? 40 : 200, 255])));
const lum = (font: any): number => font.unitsPerEm;

interface Run { chars: string[]; gaps: number[]; over: any; raster?: { at: number; kind: number } }
interface Block { kind: string; x: number; y: number; fam: string; size: number; weight: string; style: string; color: number; asc: number; lines: Run[][]; look: any; opacity: string; clip: boolean; xf: any; shy: boolean }
type Glyph = { d: string; fill: string };
/** Characters in source order to captured x positions: right-to-left words sit mirrored. */
function place(run: Run, font: any, size: number, x0: number): { text: string; xs: number[]; glyphs: { ch: string; x: number; u: number }[]; width: number } {
  const text = run.chars.join("");
  const xs: number[] = [], glyphs: any[] = []; let x = x0, u = 0;
  const cells: { ch: string; w: number; u: number }[] = run.chars.map((ch, i) => { const c = { ch, w: ch === "\u00ad" ? 0 : (font.charToGlyph(ch).advanceWidth / lum(font)) * size + run.gaps[i % run.gaps.length], u }; u += ch.length; return c; });
  const isHeb = (c: string): boolean => c >= "\u0590" && c <= "\u05ff";
  for (let i = 0; i < cells.length;) {
    if (!isHeb(cells[i].ch)) { for (let k = 0; k < cells[i].ch.length; k++) xs[cells[i].u + k] = x; glyphs.push({ ch: cells[i].ch, x, u: cells[i].u }); x += cells[i].w; i++; continue; }
    let j = i; while (j < cells.length && isHeb(cells[j].ch)) j++;
    for (let k = j - 1; k >= i; k--) { xs[cells[k].u] = x; glyphs.push({ ch: cells[k].ch, x, u: cells[k].u }); x += cells[k].w; }
    i = j;
  }
  return { text, xs, glyphs, width: x - x0 };
}
const esc = (s: string): string => s.replace(/&/g, "&amp;").replace(/</g, "&lt;");
function block(b: Block, snap: boolean): { tree: any; want: string; glyphs: number } {
  const fs = `${b.size}px`; const lh = Math.round(b.size * 1.3 * 4) / 4;
  const st: any = { fontFamily: b.fam, fontSize: fs, fontWeight: b.weight, fontStyle: b.style, color: COLORS[b.color], lineHeight: `${lh}px`, opacity: b.opacity, ...b.look };
  const segs: any[] = []; const parts: { shadow: string[]; main: string } = { shadow: [], main: "" }; let count = 0;
  const input = b.kind === "input" || b.kind === "textarea";
  const shadows: { x: number; y: number; c: string }[] = [...String(b.look.textShadow ?? "").matchAll(/(rgba?\([^)]*\)) (-?[\d.]+)px (-?[\d.]+)px 0px/g)].map((m) => ({ c: m[1], x: Number(m[2]), y: Number(m[3]) }));
  const fillOf = (o: any): string => o.color ?? b.look.webkitTextFillColor ?? COLORS[b.color];
  const strokeW = parseFloat(b.look.webkitTextStrokeWidth ?? "0");
  const stroke = (c: string, k: number): string => (strokeW ? ` stroke="${c}" stroke-width="${strokeW / k}" stroke-linejoin="miter"${b.look.paintOrder ? ` paint-order="${b.look.paintOrder}"` : ""}` : "");
  const layers: string[][] = shadows.map(() => []); let text = "", maxR = b.x, maxB = 0;
  b.lines.forEach((line, li) => {
    let x = b.x; const y = b.y + li * lh;
    line.forEach((run, ri) => {
      const o = input ? {} : run.over; const size = o.fontSize ?? b.size, asc = o.fontAscent ?? b.asc;
      const font = face(o.fontFamily ?? b.fam, o.fontWeight ?? b.weight, o.fontStyle ?? b.style);
      const p = place(run, font, size, x); const raw = y + asc; const base = snap ? Math.floor(raw + 0.5) : raw;
      const seg: any = { text: p.text, x, y, width: p.width, height: lh, xOffsets: p.xs, ...o };
      const im = !input && run.raster && p.glyphs.length ? p.glyphs[run.raster.at % p.glyphs.length] : null;
      const half = (v: number): number => Math.round(v * 2) / 2, ir = im ? { x: half(im.x), y: half(y + 1), width: Math.max(1, half((font.charToGlyph(im.ch).advanceWidth / lum(font)) * size)), height: half(size) } : { x: 0, y: 0, width: 0, height: 0 };
      const gone = im && run.raster!.kind === 2; // a character painted elsewhere (a drop cap): nothing here
      if (im) seg.rasterGlyphs = [gone ? { charIndex: im.u, charLength: im.ch.length, rect: { x: im.x, y, width: 0, height: 0 }, suppressGlyph: true } : { charIndex: im.u, charLength: im.ch.length, rect: { ...ir }, dataUri: IMG[run.raster!.kind] }];
      segs.push(seg);
      const draw = (dx: number, dy: number, fill: string, sc: string): string => p.glyphs.filter((g) => !(gone && g === im) && !/^[\s\u00ad\u00a0]$/.test(g.ch)).map((g) => { count++; const k = size / font.unitsPerEm; return `<path d="${unitPath(font.charToGlyph(g.ch), font)}" transform="translate(${g.x + dx},${snap ? Math.floor(raw + dy + 0.5) : raw + dy}) scale(${k})" fill="${fill}"${stroke(sc, k)}/>`; }).join("");
      parts.main += draw(0, 0, fillOf(o), b.look.webkitTextStrokeColor);
      const own = o.textShadow ? [...o.textShadow.matchAll(/(rgba?\([^)]*\)) (-?[\d.]+)px (-?[\d.]+)px 0px/g)].map((m: any) => ({ c: m[1], x: Number(m[2]), y: Number(m[3]) })) : null;
      if (own) parts.shadow.push(...own.reverse().map((s: any) => draw(s.x, s.y, s.c, s.c)));
      else shadows.forEach((s, i) => layers[i].push(draw(s.x, s.y, s.c, s.c)));
      if (im && !gone) { maxR = Math.max(maxR, ir.x + ir.width); maxB = Math.max(maxB, ir.y + ir.height - b.y); }   // glyph images lie inside the element's box
      if (im && !gone) parts.main += `<image href="${IMG[run.raster!.kind]}" x="${ir.x}" y="${ir.y}" width="${ir.width}" height="${ir.height}" preserveAspectRatio="none"/>`;
      if (!run.chars.length) segs.pop();
      void base; text += p.text; x += p.width; maxR = Math.max(maxR, x);
    });
    if (li < b.lines.length - 1) text += b.kind === "wrapped" ? " " : "\n";
  });
  const h = Math.max(lh * b.lines.length, maxB);
  const box = { x: Math.round((b.x - 4) * 2) / 2, y: Math.floor(b.y - 2), width: b.clip ? Math.round((maxR - b.x) * 0.7) + 4 : Math.ceil(maxR - b.x) + 12, height: Math.ceil(h + 5) };
  if (b.clip) { st.overflowX = "hidden"; st.overflowY = "hidden"; }
  if (b.xf) { st.transform = `matrix(${b.xf.join(", ")})`; st.transformOrigin = `${box.width / 2}px ${box.height / 2}px`; }
  const common = { ...box, text, styles: st, textLeft: b.x, textTop: b.y, textWidth: maxR - b.x, textHeight: lh, fontAscent: b.asc, fontDescent: Math.round(b.size * 0.2) };
  const tree = segs.length === 0 ? el({ ...box, styles: st }) : b.kind === "input" ? el({ tag: "input", ...common, inputXOffsets: segs[0].xOffsets, styles: { ...st, inputType: "text" } }) : el({ ...(b.kind === "textarea" ? { tag: "textarea" } : {}), ...common, textSegments: segs });
  let want = layers.map((l) => l.join("")).reverse().join("") + parts.shadow.join("") + parts.main;
  if (b.clip || input) want = `<clipPath id="c${b.y}"><rect x="${box.x}" y="${box.y}" width="${box.width}" height="${box.height}"/></clipPath><g clip-path="url(#c${b.y})">${want}</g>`;
  want = `<g opacity="${b.opacity}">${want}</g>`;
  if (b.xf) { const cx = box.x + box.width / 2, cy = box.y + box.height / 2; want = `<g transform="translate(${cx},${cy}) matrix(${b.xf.join(",")}) translate(${-cx},${-cy})">${want}</g>`; }
  return { tree, want, glyphs: count };
}
const ch = fc.oneof({ weight: 14, arbitrary: fc.constantFrom(...PLAIN) }, { weight: 3, arbitrary: fc.constantFrom(...SPACED) }, { weight: 2, arbitrary: fc.constantFrom(...WIDE) }, { weight: 1, arbitrary: fc.constant("\u00ad") });
const chars = fc.oneof({ weight: 8, arbitrary: fc.array(ch, { minLength: 1, maxLength: 9, size: "max" }) }, { weight: 1, arbitrary: fc.tuple(fc.array(fc.constantFrom(...HEB), { minLength: 1, maxLength: 5 }), fc.array(fc.constantFrom("a", "b", " "), { maxLength: 2 })).map(([h, l]) => [...l, ...h]) });
const astral = fc.array(fc.constantFrom("𝔸", "𝔹", "a", "𝕏", "b"), { minLength: 1, maxLength: 4 });
const over = fc.record({ color: fc.constantFrom(...COLORS, "rgb(255, 140, 0)"), fontSize: fc.constantFrom(9, 13.5, 22), fontWeight: fc.constantFrom("700", "400"), fontStyle: fc.constantFrom("italic", "normal"), fontFamily: fc.constantFrom("Liberation Mono", "Liberation Serif"), fontAscent: fc.constantFrom(10, 17), textShadow: fc.constant("rgb(255, 0, 255) 2px 1px 0px") }, { requiredKeys: [] });
const run = fc.record({ chars, gaps: fc.array(fc.constantFrom(0, 0, 0.3, 1.5, 4, -0.5), { minLength: 1, maxLength: 4 }), over: fc.oneof({ weight: 2, arbitrary: fc.constant({}) }, { weight: 1, arbitrary: over }), raster: fc.option(fc.record({ at: fc.nat(8), kind: fc.nat(2) }), { freq: 9, nil: undefined }) });
const look = fc.constantFrom<any>({}, {}, {}, {}, { textShadow: "rgb(255, 0, 0) 2px 1px 0px" }, { textShadow: "rgb(255, 0, 0) 1px 2px 0px, rgb(0, 160, 0) -2px 3px 0px" }, { webkitTextStrokeWidth: "1px", webkitTextStrokeColor: "rgb(0, 0, 255)" }, { webkitTextStrokeWidth: "2px", webkitTextStrokeColor: "rgb(255, 200, 0)", paintOrder: "stroke fill" }, { webkitTextFillColor: "rgb(90, 0, 140)" }, { webkitTextStrokeWidth: "1px", webkitTextStrokeColor: "rgb(0, 0, 255)", textShadow: "rgb(255, 0, 0) 3px 3px 0px" });
const blk = fc.record({
  kind: fc.constantFrom("line", "line", "wrapped", "wrapped", "pre", "input", "textarea"), x: fc.integer({ min: 16, max: 480 }).map((v) => v / 4), fam: fc.constantFrom(...FAMS), size: fc.constantFrom(9, 12, 13.5, 16, 20, 28), weight: fc.constantFrom("400", "400", "700", "300", "500", "600", "800"), style: fc.constantFrom("normal", "normal", "italic"), color: fc.nat(3), frac: fc.constantFrom(0, 0, 0.25, 0.5, 0.8),
  lines: fc.array(fc.array(run, { minLength: 1, maxLength: 3 }), { minLength: 1, maxLength: 3 }), look, opacity: fc.constantFrom("1", "1", "1", "0.5"), clip: fc.constantFrom(false, false, false, true), xf: fc.constantFrom<any>(null, null, null, null, [1.25, 0, 0, 1.25, 0, 0], [0.98, 0.17, -0.17, 0.98, 4, -3], [1, 0, 0, 1, 7.5, 3.25], [-1, 0, 0, 1, 0, 0]), astral: fc.option(astral, { freq: 8 }),
});
function blocks(raw: any[]): Block[] {
  let y = 6; const out: Block[] = [];
  for (const r of raw) {
    const b: Block = structuredClone(r); b.asc = Math.round(b.size * 0.905); b.y = y + r.frac;
    if (r.style === "italic" && b.fam === "DejaVu Sans") b.style = "normal";
    if (b.kind === "line" || b.kind === "input") b.lines = [b.kind === "input" ? [b.lines[0][0]] : b.lines[0]];
    if (r.astral && b.fam === "DejaVu Sans") b.lines[0][0].chars = r.astral;
    if (b.kind === "input" || b.kind === "textarea") { for (const l of b.lines) for (const q of l) { q.chars = q.chars.filter((c) => !HEB.includes(c) && c !== "\u00ad"); if (!q.chars.length) q.chars = ["a"]; } }
    for (const l of b.lines) for (const q of l) { if (b.fam === "DejaVu Sans" && q.over.fontStyle) delete q.over.fontStyle; if (q.over.fontFamily && q.chars.some((c) => c.length > 1)) delete q.over.fontFamily; q.chars = q.chars.map((c, i) => (c === "\u00ad" && !(/^\p{L}$/u.test(q.chars[i - 1] ?? "") && /^\p{L}$/u.test(q.chars[i + 1] ?? "")) ? "v" : c)); }   // a hyphen not taken sits inside a word
    const ws = (c: string): boolean => c === " " || c === "\u00a0";
    for (const l of b.lines) { if (ws(l[0].chars[0])) l[0].chars[0] = "M"; const q = l[l.length - 1].chars; if (ws(q[q.length - 1])) q[q.length - 1] = "m"; }
    if (b.look.webkitTextStrokeWidth) for (const l of b.lines) for (const q of l) q.gaps = q.gaps.map((g) => g + 5);   // strokes of neighbours stay apart
    out.push(b); y += b.size * 1.3 * b.lines.length + 14;
  }
  return out;
}
const hush = console.warn; console.warn = (...a: any[]) => { if (!/ICU companion|domotion/.test(String(a[0]))) hush(...a); };
const doc = (body: string, css = ""): string => `<svg xmlns="http://www.w3.org/2000/svg" xmlns:xlink="http://www.w3.org/1999/xlink" width="${W * 2}" height="${H * 2}" viewBox="0 0 ${W} ${H}"><style>${css}</style>${body}</svg>`;
function render(trees: any[], mode: "paths" | "embedded-font"): string {
  return withRenderTextMode(mode, () => { clearEmbeddedFonts(); clearGlyphDefs(); const inner = elementTreeToSvgInner(structuredClone(trees), W, H, "t-", true, 2, false); return doc(inner, getEmbeddedFontFaceCss()); }) as string;
}
runCheck({ id: "R04", parts: [
  { name: "glyphs", rule: "one to three blocks of text (single line, wrapped or pre-formatted lines with runs in their own colour, size, face or shadow, inputs, textareas; six font stacks, weights, italics, spacing, right-to-left words, astral letters, soft hyphens, image glyphs, shadows, strokes, opacity, clipping, transforms), in both text modes; non-trivial = at least eight glyphs painted",
    arb: fc.array(blk, { minLength: 1, maxLength: 3 }), runs: { quick: 260, thorough: 8000 },
    prop: async (raw, ctx) => {
      const bs = blocks(raw as any); const pend: any[] = [];
      for (const mode of ["paths", "embedded-font"] as const) {
        const made = bs.map((b) => block(b, mode === "paths" && !b.xf));
        const svg = render(made.map((m) => m.tree), mode);
        const ids = idReport(parseXml(svg)); ensure(!ids.duplicates.length && !ids.dangling.length, () => `ids ${show(ids)}`);
        pend.push({ mode, glyphs: made.reduce((a, m) => a + m.glyphs, 0), got: raster(bake(svg, 0)), want: raster(doc([false, true].flatMap((over) => made.filter((_, i) => (bs[i].xf != null || bs[i].opacity !== "1") === over)).map((m) => m.want).join(""))) });
      }
      await Promise.all(pend.flatMap((p) => [p.got, p.want]));
      for (const p of pend) { const d = diff(await p.got, await p.want, 56); ensure(d.n <= (bs.some((b) => b.look.webkitTextStrokeWidth) ? 40 : 4), () => `${p.mode}: ${d.n} pixels differ (by up to ${d.max}), the first at ${d.at}`); }
      ctx.hit(pend[0].glyphs >= 8); ctx.label(...new Set(bs.map((b) => b.kind)), bs.some((b) => b.xf) && "transformed", bs.some((b) => b.look.textShadow) && "shadowed", bs.some((b) => b.look.webkitTextStrokeWidth) && "stroked", bs.some((b) => b.lines.flat().some((q) => q.raster)) && "image glyphs");
    } },
], assumptions: ["sharp's rasteriser (librsvg) as the picture oracle, opentype.js as reader of the installed and embedded fonts", "the sandbox's Liberation and DejaVu fonts"] });
void esc; void same;
