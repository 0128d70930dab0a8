// R03: whatever a page holds, its rendering is one well-formed, self-consistent document, the same every time.
import { fc, runCheck, ensure, show } from "../lib/harness.ts";
import { el } from "../lib/tree.ts";
import { parseXml, type XNode } from "../lib/xml.ts";
import { png, dataUri } from "../lib/png.ts";
import { elementTreeToSvg, elementTreeToSvgInner } from "/repo/src/render/element-tree-to-svg.ts";
import { clearEmbeddedFonts, clearGlyphDefs } from "/repo/src/render/index.ts";

const int = (a: number, b: number): fc.Arbitrary<number> => fc.integer({ min: a, max: b });
const PNG = dataUri(png(6, 4, (x, y) => [x * 40, y * 60, 90, 255]));
const SVG = "data:image/svg+xml;base64," + Buffer.from('<svg xmlns="http://www.w3.org/2000/svg" viewBox="0 0 8 8"><defs><linearGradient id="g"><stop stop-color="red"/></linearGradient></defs><style>.a{fill:url(#g)}</style><rect class="a" width="8" height="8" fill="url(#g)"/></svg>').toString("base64");

// Any text a page can hold, weighted towards what breaks markup.
const nasty = fc.constantFrom("<b>&amp;\"'", "]]>", "</svg>", "<!--", "--", "&", "&nbsp;", "\u00a0", "\u0000", "\u0001", "\u000c", "\ufffe", "\ud800", "a\udc00b", "\u2028", "<script>alert(1)</script>", "url(#x)", "url(javascript:1)", "${x}", "$&", "$1", "%3C", "\\", "\"", "'", "`", "𝒜", "👧", "שלום", "日", "e\u0301", "\t\n", "{}", ";}", "id=\"a\"");
const text = fc.oneof({ weight: 2, arbitrary: fc.constantFrom("Hello", "Save & close", "42", "") }, { weight: 3, arbitrary: fc.array(fc.oneof(nasty, fc.constantFrom("word", " ", "fi", "x", "ÿ")), { maxLength: 4 }).map((p) => p.join("")) });
const ident = fc.oneof(fc.constantFrom("a", "b", "grad", "Ünï", "x.y", "a-b", "0a", "m:1"), fc.constantFrom("a&b", "q'uote", "a<b", "p)q", "$&"));
const color = fc.constantFrom("rgb(255, 0, 0)", "rgba(0, 128, 255, 0.5)", "rgb(0, 0, 0)", "rgba(0, 0, 0, 0)", "color(srgb 0.2 0.4 0.6)", "color(display-p3 1 0 0 / 0.5)", "oklch(0.7 0.1 200)", "transparent");
const family = fc.oneof(fc.constantFrom("sans-serif", "serif", "monospace", "\"Liberation Sans\", Arial"), text.map((t) => JSON.stringify(t.replace(/[\\"]/g, "")) + ", sans-serif"));
const px = (a: number, b: number): fc.Arbitrary<string> => int(a, b).map((n) => n + "px");
const grads = fc.constantFrom("linear-gradient(45deg, rgb(255, 0, 0), rgb(0, 0, 255))", "radial-gradient(circle at 20% 30%, rgb(255, 0, 0) 10%, rgba(0, 0, 0, 0) 60%)", "repeating-linear-gradient(90deg, rgb(255, 0, 0) 0px, rgb(0, 255, 0) 4px)", "conic-gradient(rgb(255, 0, 0), rgb(0, 0, 255))");
const image = fc.oneof(grads, fc.constant(`url("${PNG}")`), fc.constant(`url("${SVG}")`), fc.constant("url(\"https://example.test/a b?x=1&y=<2>\")"));

// Styles beyond a plain block, each a group that makes sense together.
const styleBits: fc.Arbitrary<Record<string, any>>[] = [
  fc.record({ backgroundColor: color }), fc.record({ color, fontFamily: family, fontSize: px(6, 40), fontWeight: fc.constantFrom("400", "700"), fontStyle: fc.constantFrom("normal", "italic"), letterSpacing: fc.constantFrom("normal", "2px"), lang: text }),
  fc.tuple(px(0, 6), fc.constantFrom("solid", "dashed", "dotted", "double", "groove", "ridge", "inset", "outset"), color).map(([w, s, c]) => Object.fromEntries(["Top", "Right", "Bottom", "Left"].flatMap((k) => [[`border${k}Width`, w], [`border${k}Style`, s], [`border${k}Color`, c]]))),
  fc.record({ borderTopLeftRadius: px(0, 30), borderTopRightRadius: px(0, 30), borderBottomRightRadius: fc.constantFrom("0px", "10px 4px"), borderBottomLeftRadius: px(0, 30), borderRadius: px(0, 30) }),
  fc.record({ backgroundImage: fc.array(image, { minLength: 1, maxLength: 3 }).map((a) => a.join(", ")), backgroundSize: fc.constantFrom("auto", "cover", "10px 20px", "50%"), backgroundPosition: fc.constantFrom("0% 0%", "50% 50%", "3px -2px"), backgroundRepeat: fc.constantFrom("repeat", "no-repeat", "space round"), backgroundClip: fc.constantFrom("border-box", "content-box", "text"), backgroundIntrinsic: fc.constant([{ w: 6, h: 4 }, { w: 8, h: 8 }, { w: 6, h: 4 }]) }),
  fc.record({ boxShadow: fc.constantFrom("rgba(0, 0, 0, 0.5) 2px 3px 4px 0px", "rgb(255, 0, 0) 0px 0px 0px 3px inset, rgb(0, 0, 255) 1px 1px 0px 0px"), outlineWidth: px(0, 3), outlineStyle: fc.constantFrom("solid", "dotted", "auto"), outlineColor: color }),
  fc.record({ transform: fc.constantFrom("matrix(1, 0, 0, 1, 5, 6)", "matrix(0.5, 0.5, -0.5, 0.5, 0, 0)", "matrix3d(1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 10, 20, 30, 1)"), transformOrigin: fc.constantFrom("50px 10px", "0px 0px") }),
  fc.record({ opacity: fc.constantFrom("0.5", "0", "1"), mixBlendMode: fc.constantFrom("normal", "multiply"), filter: fc.constantFrom("none", "blur(2px)", "drop-shadow(rgb(255, 0, 0) 1px 2px 3px)", "url(\"#f1\")", "hue-rotate(90deg) saturate(2)") }),
  fc.record({ clipPath: fc.constantFrom("none", "circle(40% at 50% 50%)", "inset(1px 2px 3px round 4px)", "polygon(0% 0%, 100% 0%, 50% 100%)", "url(\"#c1\")", "path(\"M0 0 L10 0 L0 10 Z\")"), maskImage: fc.oneof(fc.constantFrom("none", "url(\"#m1\")"), image) }),
  fc.record({ overflowX: fc.constantFrom("hidden", "auto", "scroll", "clip"), overflowY: fc.constantFrom("hidden", "auto", "scroll", "clip"), textOverflow: fc.oneof(fc.constantFrom("clip", "ellipsis"), text.map((t) => JSON.stringify(t))), whiteSpace: fc.constant("nowrap"), scrollTop: int(0, 30), scrollHeight: fc.constant(400) }),
  fc.record({ position: fc.constantFrom("relative", "absolute", "fixed", "sticky"), zIndex: fc.constantFrom("auto", "1", "-1"), float: fc.constantFrom("none", "left"), isolation: fc.constantFrom("auto", "isolate") }),
  fc.record({ display: fc.constant("list-item"), listStyleType: fc.oneof(fc.constantFrom("disc", "decimal", "lower-roman", "upper-alpha", "lower-greek", "cjk-ideographic", "hebrew", "square"), text.map((t) => JSON.stringify(t))), listStylePosition: fc.constantFrom("inside", "outside"), listStyleImage: fc.constantFrom("none", `url("${PNG}")`) }),
  fc.record({ textDecorationLine: fc.constantFrom("underline", "line-through overline"), textDecorationStyle: fc.constantFrom("solid", "wavy", "dotted", "double"), textDecorationColor: color, textShadow: fc.constantFrom("none", "rgb(255, 0, 0) 1px 1px 2px") }),
  fc.record({ borderImageSource: image, borderImageSlice: fc.constantFrom("1", "30% fill"), borderImageWidth: fc.constant("4px"), borderImageRepeat: fc.constantFrom("stretch", "round", "space"), borderImageIntrinsicWidth: fc.constant(6), borderImageIntrinsicHeight: fc.constant(4) }),
  fc.record({ writingMode: fc.constantFrom("vertical-rl", "sideways-lr"), direction: fc.constantFrom("ltr", "rtl") }), fc.record({ direction: fc.constant("rtl"), textTransform: fc.constant("uppercase"), webkitTextStrokeWidth: px(0, 2), webkitTextStrokeColor: color, webkitTextFillColor: color }),
];
const styles = fc.subarray(styleBits, { maxLength: 4 }).chain((bits) => (bits.length ? fc.tuple(...bits) : fc.constant([])) as any).map((parts: any) => Object.assign({}, ...parts));

// Inline SVG as the capture stores it: the browser's HTML serialisation of a random SVG DOM.
type Dom = { n: string; a: [string, string][]; c: (Dom | string)[] };
const VOID = new Set(["br", "img", "input", "hr"]);
const htmlSer = (d: Dom | string): string => (typeof d === "string" ? d.replace(/&/g, "&amp;").replace(/\u00a0/g, "&nbsp;").replace(/</g, "&lt;").replace(/>/g, "&gt;") : `<${d.n}${d.a.map(([k, v]) => ` ${k}="${v.replace(/&/g, "&amp;").replace(/\u00a0/g, "&nbsp;").replace(/"/g, "&quot;").replace(/</g, "&lt;").replace(/>/g, "&gt;")}"`).join("")}>${VOID.has(d.n) ? "" : d.c.map(htmlSer).join("") + `</${d.n}>`}`);
const dom = (root: string, own = ""): fc.Arbitrary<Dom> => fc.tuple(fc.uniqueArray(ident, { minLength: 1, maxLength: 3 }), fc.array(int(0, 9), { minLength: 1, maxLength: 6 }), text, fc.constantFrom("0 0 10 10", "")).map(([ids, kinds, t, vb]) => {
  const id = ids.map((s) => s.replace(/[\s<>)'&$]/g, "")).filter(Boolean).map((s) => s + own), one = id[0] ?? "a" + own; const kid = (k: number): Dom | string => [
    { n: "path", a: [["d", "M0 0L5 5"], ["fill", `url(#${one})`]], c: [] } as Dom, { n: "text", a: [["x", "1"], ["data-t", t]], c: [t] } as Dom, { n: "use", a: [["xlink:href", `#${one}`]], c: [] } as Dom, { n: "title", a: [], c: [t] } as Dom,
    { n: "foreignObject", a: [["width", "9"], ["height", "9"]], c: [{ n: "div", a: [["title", t]], c: [t, { n: "br", a: [], c: [] }, { n: "img", a: [["src", PNG], ["alt", t]], c: [] }] }] } as Dom,
    { n: "style", a: [], c: [`.k { fill: red } #${one} > .k { stroke: blue }`] } as Dom, { n: "rect", a: [["class", "k"], ["width", "3"], ["height", "3"], ["aria-label", t]], c: [] } as Dom, t, { n: "g", a: [["clip-path", `url(#${one})`]], c: [{ n: "tspan", a: [], c: [t] }] } as Dom, { n: "circle", a: [["r", "2"], ["style", "fill: rgb(1, 2, 3); content: \"a > b\""]], c: [] } as Dom][k];
  return { n: root, a: [["data-n", t], ["class", "i"], ...(vb ? [["viewBox", vb] as [string, string]] : [])], c: [{ n: "defs", a: [], c: [...new Set(id.length ? id : ["a" + own])].map((i) => ({ n: "linearGradient", a: [["id", i]] as [string, string][], c: [{ n: "stop", a: [["stop-color", "red"]] as [string, string][], c: [] }] })) }, ...kinds.map(kid)] };
});
const seg = (at: fc.Arbitrary<string>): fc.Arbitrary<any> => fc.record({ text: at, x: int(0, 60), y: int(0, 60), width: int(0, 80), height: fc.constant(20), xs: fc.boolean(), styled: fc.boolean(), col: color, fam: family }).map(({ xs, styled, col, fam, ...s }) => ({ ...s, ...(xs ? { xOffsets: Array.from({ length: s.text.length }, (_, i) => s.x + i * 7.5) } : {}), ...(styled ? { color: col, fontFamily: fam, fontSize: 12, fontWeight: "700", fontAscent: 11, rasterGlyphs: s.text.length ? [{ charIndex: 0, rect: { x: s.x, y: s.y, width: 9, height: 9 }, dataUri: PNG }] : undefined, pseudoBox: { x: s.x, y: s.y, width: 20, height: 10, backgroundColor: col } } : {}) }));
const kind: fc.Arbitrary<any> = fc.oneof(
  { weight: 4, arbitrary: fc.record({ tag: fc.constantFrom("div", "span", "p", "a", "section"), textSegments: fc.array(seg(text), { maxLength: 3 }) }).map((k) => ({ ...k, text: k.textSegments.map((s: any) => s.text).join(""), fontAscent: 14, fontDescent: 4, ...(k.textSegments.length ? { textTop: 0, textLeft: 0, textHeight: 20, textWidth: 60 } : {}) })) },
  { weight: 2, arbitrary: fc.record({ tag: fc.constant("input"), text, t: fc.constantFrom("text", "checkbox", "radio", "range", "color", "number", "search", "date", "file", "password", "submit"), v: text, c: fc.boolean(), p: fc.boolean() }).map(({ t, v, c, p, ...k }) => ({ ...k, isPlaceholderText: p || undefined, placeholderColor: "rgb(1, 2, 3)", fontAscent: 14, st: { inputType: t, inputValue: t === "range" || t === "number" ? "30" : t === "color" ? "#ff0000" : v, checked: c, inputMin: "0", inputMax: "100", inputFileName: v, display: "inline-block" } })) },
  { weight: 1, arbitrary: fc.record({ tag: fc.constantFrom("progress", "meter"), v: fc.constantFrom(0, 0.5, 1, 30) }).map(({ tag, v }) => ({ tag, st: { progressValue: v, progressMax: 100, meterValue: v, meterMin: 0, meterMax: 100, meterLow: 20, meterHigh: 80, meterOptimum: 50 } })) },
  { weight: 1, arbitrary: fc.record({ tag: fc.constant("select"), text, opts: fc.array(text, { minLength: 1, maxLength: 3 }), list: fc.boolean() }).map(({ opts, list, ...k }) => ({ ...k, st: { selectDisplayText: k.text, selectChevron: true, ...(list ? { selectListboxOptions: opts.map((t: string, i: number) => ({ text: t, selected: i === 0, disabled: i === 1 })) } : {}) } })) },
  { weight: 1, arbitrary: fc.record({ tag: fc.constant("textarea"), text }) },
  { weight: 2, arbitrary: fc.record({ tag: fc.constant("img"), imageSrc: fc.constantFrom(PNG, SVG, "https://example.test/i.png?a=1&b=\"<\""), imageAlt: text, imageBroken: fc.constantFrom(false, false, true), fit: fc.constantFrom("fill", "cover", "contain", "none", "scale-down") }).map(({ fit, ...k }) => ({ ...k, imageIntrinsic: { w: 8, h: 8 }, st: { objectFit: fit } })) },
  { weight: 2, arbitrary: fc.tuple(dom("svg"), fc.boolean()).map(([d, sc]) => ({ tag: "svg", svgContent: htmlSer(d), ...(sc ? { svgReferenceScope: 3 } : {}) })) },
  { weight: 1, arbitrary: fc.record({ tag: fc.constantFrom("video", "canvas", "iframe") }).map((k) => ({ ...k, replacedSnapshot: { dataUri: PNG, x: 1, y: 1, width: 20, height: 10 } })) },
  { weight: 1, arbitrary: fc.record({ tag: fc.constant("li"), text, i: int(-3, 30), mc: fc.option(text, { nil: undefined, freq: 2 }) }).map(({ i, mc, ...k }) => ({ ...k, listItemIndex: i, markerContent: mc, markerColor: "rgb(9, 9, 9)", fontAscent: 14, textSegments: [{ text: k.text, x: 20, y: 0, width: 40, height: 20 }], st: { display: "list-item" } })) },
  { weight: 1, arbitrary: fc.record({ tag: fc.constantFrom("details", "summary"), text, detailsOpen: fc.boolean() }).map(({ detailsOpen, ...k }) => ({ ...k, st: { detailsOpen } })) },
  { weight: 1, arbitrary: fc.record({ tag: fc.constant("h1"), titleText: text }).map(({ titleText, ...k }) => ({ ...k, text: titleText, imageReplacement: { titleText } })) },
);
const extra = fc.oneof({ weight: 3, arbitrary: fc.constant({}) }, { weight: 1, arbitrary: fc.record({ animId: ident.map((s) => s.replace(/[^\w-]/g, "")).filter(Boolean), animatedProperties: fc.constant(["opacity"]) }) }, { weight: 1, arbitrary: fc.record({ pseudoBoxes: fc.tuple(color, image).map(([c, i]) => [{ pseudo: "::before", x: 1, y: 2, width: 30, height: 10, backgroundColor: c, backgroundImage: i, opacity: 0.5, borderTopWidth: 1, borderTopColor: c, borderTopStyle: "solid" }]), pseudoImages: fc.constantFrom(PNG, "https://example.test/?a&b").map((url) => [{ url, x: 1, y: 1, width: 5, height: 5 }]) }) }, { weight: 1, arbitrary: fc.constant({ inlineFragments: [{ x: 0, y: 0, width: 30, height: 10 }, { x: 0, y: 12, width: 20, height: 10 }] }) });
const node: fc.Arbitrary<any> = fc.letrec((tie) => ({ n: fc.record({ k: kind, s: styles, x: int(-10, 80), y: int(-10, 80), w: int(0, 90), h: int(0, 60), e: extra, kids: fc.oneof({ maxDepth: 3 }, fc.constant([]), fc.array(tie("n"), { maxLength: 3 })) }).map(({ k: { st, ...k }, s, x, y, w, h, e, kids }: any) => el({ ...k, ...e, x, y, width: w, height: h, styles: { ...s, ...st }, children: kids })) })).n;
const page = fc.record({ roots: fc.array(node, { minLength: 1, maxLength: 3 }), defs: fc.tuple(dom("mask", "m"), dom("clipPath", "c"), dom("filter", "f")), root: fc.record({ rootColorScheme: fc.constantFrom("light", "dark"), rootBgComputed: color }), title: fc.option(text, { nil: undefined, freq: 2 }), desc: fc.option(text, { nil: undefined, freq: 2 }), prefix: fc.constantFrom("", "f0-", "p1_") }).map((p: any) => {
  const [m, c, f] = p.defs.map((d: Dom, i: number) => htmlSer({ ...d, a: [["id", ["m1", "c1", "f1"][i]]] })); const first = p.roots[0];
  Object.assign(first, { maskDefs: [{ id: "m1", outerHTML: m }], clipPathDefs: [{ id: "c1", outerHTML: c, clipPathUnits: "userSpaceOnUse" }], filterDefs: [{ id: "f1", outerHTML: f }] }); Object.assign(first.styles, p.root); let scope = 1; const number = (n: any): void => { if (n.svgReferenceScope != null) n.svgReferenceScope = scope++; for (const c of n.children) number(c); }; p.roots.forEach(number); return p;
});

function walk(n: XNode, f: (n: XNode) => void): void { f(n); for (const c of n.children) if (c.kind === "el") walk(c, f); }
const foreign = (n: XNode): boolean => { for (let p: XNode | null = n; p; p = p.parent) if (p.name === "foreignObject") return true; return false; };
function inspect(svg: string, ctxNote: string): { ids: string[]; drawn: number } {
  let root: XNode; try { root = parseXml(svg); } catch (e: any) { ensure(false, () => `${ctxNote}: not well-formed: ${e.message}`); throw e; }
  const ids: string[] = [], glyphs = new Map<string, string>(); let drawn = 0; const refs: [string, string][] = [];
  walk(root, (n) => {
    if (/^(path|rect|image|use|text|circle|line|polygon)$/.test(n.name)) drawn++;
    for (const [k, v] of n.attrs) {
      // A glyph outline is repeated in every frame that draws it; the copies agree.
      if (k === "id" && n.name === "path" && /^g\d+$/.test(v)) { const d = n.attrs.get("d")!, was = glyphs.get(v); ensure(was == null || was === d, () => `${ctxNote}: glyph outline ${v} is defined twice, differently`); if (was == null) ids.push(v); glyphs.set(v, d); } else if (k === "id") ids.push(v);
      if (/^(fill|stroke|filter|clip-path|mask|style|marker.*)$/.test(k) && !foreign(n)) for (const m of v.matchAll(/\burl\(\s*["']?#([^"')]+)["']?\s*\)/g)) refs.push([m[1], `${n.name} ${k}`]);
      if ((k === "href" || k === "xlink:href") && v.startsWith("#")) refs.push([v.slice(1), `${n.name} ${k}`]);
      if (/^(x|y|x1|x2|y1|y2|cx|cy|r|rx|ry|width|height|d|points|transform|viewBox|offset|opacity|font-size|stroke-width|stdDeviation)$/.test(k)) ensure(!/NaN|Infinity|undefined|null|\[object/.test(v), () => `${ctxNote}: <${n.name}> has ${k}="${v.slice(0, 60)}"`);
    }
  });
  const dup = ids.find((v, i) => ids.indexOf(v) !== i); ensure(dup === undefined, () => `${ctxNote}: id ${show(dup)} is defined twice`);
  const have = new Set(ids); for (const [id, where] of refs) ensure(have.has(id), () => `${ctxNote}: ${where} refers to #${id}, which the document does not define`);
  return { ids, drawn };
}
const bare = (v: any): string => JSON.stringify(v, (k, x) => (k === "propagatedDecorations" ? undefined : x)); // rendering fills that one field in
const copy = (v: any): any => JSON.parse(JSON.stringify(v));
const fresh = (): void => { clearEmbeddedFonts(); clearGlyphDefs(); }; // what every producer does before a document
const render = (p: any, o: any = {}): string => { fresh(); return elementTreeToSvg(p.roots, 120, 100, o); };
console.warn = () => {};
await runCheck({ id: "R03", parts: [
  { name: "document", rule: "a random page with hostile strings; non-trivial = at least eight drawn elements", arb: page, runs: { quick: 500, thorough: 20000 }, prop: (p: any, ctx) => {
    const before = bare(p.roots), svg = render(p, { idPrefix: p.prefix, title: p.title, desc: p.desc });
    ensure(bare(p.roots) === before, () => "rendering changed the captured tree");
    const { drawn } = inspect(svg, "document"); ctx.hit(drawn >= 8);
  } },
  { name: "independence", rule: "two random pages rendered in turn; non-trivial = both draw at least five elements", arb: fc.tuple(page, page), runs: { quick: 250, thorough: 8000 }, prop: ([a, b]: any, ctx) => {
    const A = render(a), B = render(b), A2 = render(copy(a));
    ensure(A === A2, () => { let i = 0; while (A[i] === A2[i]) i++; return `the same page rendered again differs from …${show(A.slice(Math.max(0, i - 60), i + 60))} to …${show(A2.slice(Math.max(0, i - 60), i + 60))}`; });
    // Two frames of one document: their ids must not meet.
    fresh(); const one = `<svg xmlns="http://www.w3.org/2000/svg" xmlns:xlink="http://www.w3.org/1999/xlink">${elementTreeToSvgInner(a.roots, 120, 100, "f0-", true)}${elementTreeToSvgInner(b.roots, 120, 100, "f1-", true)}</svg>`; inspect(one, "two frames"); ctx.hit((A.match(/<(path|rect|image|use|text)\b/g) ?? []).length >= 5 && (B.match(/<(path|rect|image|use|text)\b/g) ?? []).length >= 5);
  } },
], assumptions: [] });
