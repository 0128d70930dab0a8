// P02: the size passes (optimizeSvg, WOFF2 fonts, gzip) keep picture, motion, text and fonts.
import { fc, runCheck, ensure, same, near, show } from "../lib/harness.ts";
import { parseXml, walk, idReport, textContent, classes, type XNode } from "../lib/xml.ts";
import { Player, parseTransform, matOf, apply } from "../lib/css.ts";
import { noise, dataUri, raster, diff } from "../lib/png.ts";
import { el } from "../lib/tree.ts";
import { gunzipSync } from "node:zlib";
import { createRequire } from "node:module";
import { optimizeSvg, compressEmbeddedFontsToWoff2, gzipSvg, generateAnimatedSvg, elementTreeToSvgInner, elementTreeToSvg, wrapSvg, getEmbeddedFontFaceCss, clearEmbeddedFonts, clearGlyphDefs, annotateAnimatedProperties } from "/repo/src/index.ts";
const req = createRequire("/repo/package.json"); const fontkit: any = req("fontkit"), wawoff2: any = req("wawoff2");

const opt = <T>(a: fc.Arbitrary<T>, freq = 3): fc.Arbitrary<T | undefined> => fc.option(a, { nil: undefined, freq });
const px = fc.integer({ min: 0, max: 200 });
const col = fc.tuple(fc.integer({ min: 0, max: 255 }), fc.integer({ min: 0, max: 255 }), fc.integer({ min: 0, max: 255 }), fc.constantFrom(1, 1, 0.5)).map(([r, g, b, a]) => (a === 1 ? `rgb(${r}, ${g}, ${b})` : `rgba(${r}, ${g}, ${b}, ${a})`));
const textA = fc.oneof(fc.constantFrom("Hello & <b>", "Ωж \"quoted\"", "a  b", "fi ffl AV", "naïve — ok", "0123;{}"), fc.string({ minLength: 1, maxLength: 8, unit: fc.constantFrom(..."abcXYZ019 .,!?éßΔ") }));
const boxA = fc.record({
  x: px, y: px, w: fc.integer({ min: 4, max: 140 }), h: fc.integer({ min: 4, max: 100 }), bg: col, parent: fc.nat({ max: 9 }),
  radius: fc.constantFrom(0, 0, 6, 14.5), border: fc.constantFrom(0, 0, 1, 3), grad: fc.constantFrom("none", "none", "linear-gradient(90deg, rgb(255, 0, 0), rgb(0, 0, 255))", "radial-gradient(circle, rgb(1, 200, 3), rgb(0, 9, 90) 70%)"),
  opacity: fc.constantFrom("1", "1", "0.5"), tr: fc.constantFrom("none", "none", "matrix(0.9, 0.2, -0.2, 0.9, 5, 3)", "matrix(1, 0, 0, 1, 12.345, 6.789)"), overflow: fc.constantFrom("visible", "visible", "hidden"), shadow: fc.constantFrom("none", "none", "rgb(0, 0, 0) 2px 3px 4px 0px"), img: fc.constantFrom(false, false, true),
  text: opt(textA, 6), font: fc.constantFrom("Liberation Sans", "Liberation Serif", "DejaVu Sans"), size: fc.constantFrom("14px", "23px"), clip: fc.constantFrom("none", "none", "inset(3px)", "polygon(0% 0%, 100% 0%, 50% 100%)"),
  anim: opt(fc.record({ property: fc.constantFrom("opacity", "translateX", "scale", "transform", "width", "backgroundColor"), d: fc.integer({ min: 100, max: 900 }), delay: fc.integer({ min: 0, max: 300 }), easing: fc.constantFrom(undefined, "linear", "ease-in-out", "cubic-bezier(0.3,1.5,0.6,1)"), repeat: fc.constantFrom(undefined, undefined, 2, "infinite" as const), alternate: fc.boolean() }), 2),
});
const frameA = fc.record({ d: fc.integer({ min: 400, max: 2000 }), nodes: fc.array(boxA, { minLength: 1, maxLength: 6, size: "max" }), tr: fc.constantFrom("cut", "crossfade", "push-left", "scroll", "wipe", "iris", "zoom-in"), td: fc.integer({ min: 100, max: 500 }) });
const URI = dataUri(noise(3, 12, 9));
const ends: Record<string, [string, string]> = { opacity: ["0.2", "0.9"], translateX: ["0px", "60px"], scale: ["1", "0.4"], transform: ["translate(3px, 4px) rotate(10deg)", "translate(30px, 4px) rotate(80deg)"], width: ["10px", "60px"], backgroundColor: ["rgb(1, 2, 3)", "rgb(200, 2, 3)"] };
function tree(nodes: any[], fi: number, anims: any[]): any[] {
  const kids: number[][] = nodes.map(() => []), roots: number[] = [];
  nodes.forEach((n, i) => { const p = Math.min(n.parent % (i + 2) - 1, i - 1); if (p < 0) roots.push(i); else kids[p].push(i); });
  const build = (i: number): any => {
    const n = nodes[i]; const id = `f${fi}n${i}`; const bw = `${n.border}px`;
    if (n.anim && ends[n.anim.property]) { const a = n.anim; anims.push({ animId: id, property: a.property, from: ends[a.property][0], to: ends[a.property][1], duration: a.d, delay: a.delay, ...(a.easing ? { easing: a.easing } : {}), ...(a.repeat != null ? { repeat: a.repeat, alternate: a.alternate } : {}) }); }
    return el({ x: n.x, y: n.y, width: n.w, height: n.h, tag: n.img ? "img" : "div", ...(n.img ? { imageSrc: URI } : {}), ...(n.anim ? { animId: id } : {}), text: n.img ? "" : n.text ?? "", ...(n.text && !n.img ? { textTop: n.y, textLeft: n.x, textWidth: n.w } : {}), children: n.img ? [] : kids[i].map(build), styles: { backgroundColor: n.bg, backgroundImage: n.grad, opacity: n.opacity, transform: n.tr, overflowX: n.overflow, overflowY: n.overflow, boxShadow: n.shadow, clipPath: n.clip, fontFamily: `"${n.font}"`, fontSize: n.size, color: "rgb(20, 30, 40)", borderTopLeftRadius: `${n.radius}px`, borderTopRightRadius: `${n.radius}px`, borderBottomLeftRadius: `${n.radius}px`, borderBottomRightRadius: "0px", ...(n.border ? { borderTopWidth: bw, borderRightWidth: bw, borderBottomWidth: bw, borderLeftWidth: bw, borderTopStyle: "solid", borderRightStyle: "solid", borderBottomStyle: "dashed", borderLeftStyle: "solid", borderTopColor: "rgb(9, 9, 9)", borderRightColor: "rgb(9, 9, 200)", borderBottomColor: "rgb(9, 9, 9)", borderLeftColor: "rgb(9, 99, 9)" } : {}) } });
  };
  return roots.map(build);
}
const docA = fc.record({ frames: fc.array(frameA, { minLength: 1, maxLength: 3 }), qs: fc.array(fc.double({ min: 0, max: 2, noNaN: true }), { minLength: 6, maxLength: 8 }), title: fc.constantFrom(undefined, "A & <B>") });
function make(c: any, ctx: any): string {
  if (c.frames.length === 1 && c.frames[0].nodes.every((n: any) => !n.anim)) { ctx.label("static"); return wrapSvg(elementTreeToSvg(tree(c.frames[0].nodes, 0, []) as any, 320, 240).replace(/^<svg[^>]*>|<\/svg>$/g, ""), 320, 240, { title: c.title }); }
  ctx.label("animated");
  clearEmbeddedFonts(); clearGlyphDefs();
  const frames = c.frames.map((f: any, fi: number) => {
    const anims: any[] = []; const t = tree(f.nodes, fi, anims); for (const a of anims) { a.duration = Math.min(a.duration, f.d); if (a.repeat == null) a.delay = Math.max(0, Math.min(a.delay, f.d - a.duration)); }
    annotateAnimatedProperties(t, anims);
    return { svgContent: elementTreeToSvgInner(t, 320, 240, `f${fi}-`, true, 2, false), duration: f.d, transition: { type: f.tr, duration: f.tr === "cut" ? 0 : f.td }, animations: anims };
  });
  return generateAnimatedSvg({ width: 320, height: 240, frames, fontFaceCss: getEmbeddedFontFaceCss() } as any);
}
const elems = (r: XNode): XNode[] => [...walk(r)];
const num = (s: string | undefined): number | undefined => (s == null || s === "" ? undefined : Number(s));
function sameMotion(before: string, after: string, qs: number[], ctx: any): void {
  const A = parseXml(before), B = parseXml(after.replace(/%(?=[-\d.])/g, "% ")); /* the reader splits values at blanks */ const ea = elems(A), eb = elems(B);
  same(eb.map((e) => e.name), ea.map((e) => e.name), "element structure");
  const ra = idReport(A), rb = idReport(B); same([...rb.ids].sort(), [...ra.ids].sort(), "ids"); ensure(rb.dangling.length === 0, `dangling references ${rb.dangling}`);
  ea.forEach((e, i) => { same(classes(eb[i]), classes(e), "classes"); if (e.name === "text" || e.name === "title" || e.name === "tspan") same(textContent(eb[i]).trim(), textContent(e).trim(), "text"); if (e.attrs.has("href")) same(eb[i].attrs.get("href"), e.attrs.get("href"), "href"); });
  const pa = new Player(A), pb = new Player(B); let moving = 0;
  const ts = qs.flatMap((q) => { const d = pa.duration || 1000; return [q * d]; });
  ea.forEach((e, i) => {
    const na = pa.anims(e).length, nb = pb.anims(eb[i]).length; ensure(na === nb, `<${e.name} class="${e.attrs.get("class")}"> has ${nb} animations, had ${na}`);
    for (const p of ["opacity", "visibility", "display", "transform", "clip-path", "width", "fill", "transform-origin", "transform-box", "mask", "filter"]) {
      const an = pa.animated(e, p); if (an) moving++;
      if (!an && !pa.base(e).has(p) && !pb.base(eb[i]).has(p)) continue;
      for (const t of ts) {
        const va = pa.value(e, p, t), vb = pb.value(eb[i], p, t);
        if (!eq(p, va, vb)) ensure(false, () => `<${e.name} id=${e.attrs.get("id")} class="${e.attrs.get("class")}"> ${p} at ${t} ms: ${vb}, was ${va}`);
      }
    }
  });
  ctx.hit(moving > 0); ctx.label(moving > 0 && "moving");
}
const eq = (p: string, a: any, b: any): boolean => {
  if (a === b) return true; const sa = String(a ?? ""), sb = String(b ?? "");
  const toks = (s: string): string[] => s.toLowerCase().replace(/\s*([(),])\s*/g, "$1").replace(/,/g, " ").match(/[-+]?(?:\d*\.\d+|\d+)(?:e[-+]?\d+)?|[a-z#%-]+|[()]/g) ?? [];
  if (p === "transform") { const m = matOf(parseTransform(sa)), n = matOf(parseTransform(sb)); return [[0, 0], [320, 0], [0, 240]].every(([x, y]) => { const u = apply(m, x, y), v = apply(n, x, y); return Math.hypot(u[0] - v[0], u[1] - v[1]) <= 0.1; }); }
  const ta = toks(sa), tb = toks(sb);
  const strip = (t: string[]): string[] => t.map((x, i) => (x === "px" && t[i - 1] === "0" ? "" : x)).filter(Boolean);
  const xa = strip(ta), xb = strip(tb); if (xa.length !== xb.length) return false;
  return xa.every((x, i) => { const m = Number(x), n = Number(xb[i]); return Number.isNaN(m) || Number.isNaN(n) ? x === xb[i] || /none|normal|^#|rgb/.test(x) : Math.abs(m - n) <= 0.02 + Math.abs(m) * 1e-3; });
};
const faces = (s: string): { family: string; weight: string; uri: string }[] => elems(parseXml(s)).filter((e) => e.name === "style").flatMap((e) => [...textContent(e).matchAll(/@font-face\s*\{([^}]*)\}/g)].map((m) => ({ family: /font-family:\s*["']?([^;"'}]+)/.exec(m[1])![1].trim(), weight: /font-weight:\s*([^;}]+)/.exec(m[1])?.[1].trim() ?? "400", uri: /url\(\s*["']?(data:[^"')]+)/.exec(m[1])![1] })));
const isStatic = (c: any): boolean => c.frames.length === 1;

await runCheck({ id: "P02", parts: [
  { name: "same-document", rule: "documents the renderer and the animator make from random captured trees (boxes, gradients, clips, shadows, images, text in embedded fonts, transitions and element animations), before and after optimisation; non-trivial = something in it moves",
    arb: docA, runs: { quick: 120, thorough: 8000 },
    prop: async (c, ctx) => {
      const before = make(c, ctx), after = optimizeSvg(before);
      ensure(after.length <= before.length * 1.02 + 200, "optimising made the document larger");
      sameMotion(before, after, c.qs, ctx);
      const d = diff(await raster(before), await raster(after), 24);
      // coordinates may be rounded to a tenth of a pixel: only edge pixels may shift slightly
      ensure(d.n <= 60 && d.max < 160, () => `picture changed at ${d.n} pixels (max ${d.max}), first ${d.at}`);
      const fa = faces(before), fb = faces(after); same(fb.map((f) => [f.family, f.weight === "normal" ? "400" : f.weight, f.uri]), fa.map((f) => [f.family, f.weight === "normal" ? "400" : f.weight, f.uri]), "embedded fonts"); ctx.label(fa.length > 0 && "fonts");
      for (const s of [before, after]) ensure(gunzipSync(gzipSvg(s)).toString("utf8") === s, "gzip round trip");
    } },
  { name: "fonts", rule: "documents with embedded fonts, optimised or not, re-compressed to WOFF2: every face still there, nothing else changed, every glyph and character mapping identical; non-trivial = two or more faces",
    arb: fc.record({ nodes: fc.array(boxA.map((b) => ({ ...b, anim: undefined, img: false, text: b.text ?? "Abc" })), { minLength: 1, maxLength: 4 }), first: fc.boolean() }), runs: { quick: 25, thorough: 1500 },
    prop: async (c, ctx) => {
      const raw = wrapSvg(elementTreeToSvg(tree(c.nodes, 0, []) as any, 320, 240).replace(/^<svg[^>]*>|<\/svg>$/g, ""), 320, 240); const before = c.first ? optimizeSvg(raw) : raw;
      const after = await compressEmbeddedFontsToWoff2(before); const fa = faces(before), fb = faces(after); ensure(fa.length > 0, "no font embedded"); ctx.hit(fa.length > 1);
      same(fb.map((f) => f.family), fa.map((f) => f.family), "families");
      const rest = (s: string): string => s.replace(/url\(\s*["']?data:font[^)]*\)(\s*format\([^)]*\))?/g, "FONT"); ensure(rest(after) === rest(before), "something other than the font payloads changed");
      for (let i = 0; i < fa.length; i++) {
        ensure(fb[i].uri.startsWith("data:font/woff2;base64,"), `face ${i} is ${fb[i].uri.slice(0, 30)}`); ensure(fb[i].uri.length < fa[i].uri.length, "not smaller");
        const A = fontkit.create(Buffer.from(fa[i].uri.split(",")[1], "base64")), W = Buffer.from(await wawoff2.decompress(Buffer.from(fb[i].uri.split(",")[1], "base64"))), B = fontkit.create(W);
        same(B.numGlyphs, A.numGlyphs, "glyph count"); same([...B.characterSet].sort(), [...A.characterSet].sort(), "characters"); same(B.unitsPerEm, A.unitsPerEm, "units per em");
        for (const cp of A.characterSet) { const ga = A.glyphForCodePoint(cp), gb = B.glyphForCodePoint(cp); same(gb.id, ga.id, `glyph of U+${cp.toString(16)}`); same(gb.path.toSVG(), ga.path.toSVG(), `outline of U+${cp.toString(16)}`); same(gb.advanceWidth, ga.advanceWidth, "advance"); }
      }
      ensure((await compressEmbeddedFontsToWoff2(after)) === after, "a second pass changed the document");
    } },
], assumptions: ["librsvg for pictures, fontkit and wawoff2 as font readers"] });
void show; void near; void num; void isStatic;
