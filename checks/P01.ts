// P01: sharing repeated image payloads never changes the picture, and stores each
// shareable payload once. Oracle: rasterisation of the document before and after.
import { fc, runCheck, ensure, show } from "../lib/harness.ts";
import { parseXml, walk, idReport, type XNode } from "../lib/xml.ts";
import { noise, dataUri, raster, diff } from "../lib/png.ts";
import { hoistDuplicateImagePayloads, wrapSvg, generateAnimatedSvg } from "/repo/src/index.ts";

const PAY = [1, 2, 3, 4].map((i) => dataUri(noise(i, 9 + i, 9)));
const SHORT = dataUri(noise(9, 1, 1));
const opt = <T>(a: fc.Arbitrary<T>, freq = 3): fc.Arbitrary<T | undefined> => fc.option(a, { nil: undefined, freq });
const num = fc.integer({ min: 0, max: 90 });
const imgA = fc.record({
  pay: fc.constantFrom(0, 0, 0, 1, 1, 2, 3), short: fc.constantFrom(false, false, false, false, true), x: opt(num, 5), y: opt(num, 5), w: fc.constantFrom("20", "20", "20", "34.5", "12"), h: fc.constantFrom("20", "20", "15"),
  par: opt(fc.constantFrom("none", "xMidYMid meet", "xMinYMin slice"), 2),
  clip: opt(fc.nat({ max: 2 }), 2), mask: opt(fc.nat({ max: 1 }), 2), filter: opt(fc.constant(0), 2), transform: opt(fc.constantFrom("rotate(20)", "translate(10 5)", "scale(1.5)", "matrix(1 0.3 0 1 4 2)"), 2),
  style: opt(fc.constantFrom("opacity:0.5", "transform:translate(7px,3px)", "clip-path:url(#c0)", "image-rendering:pixelated"), 2), cls: opt(fc.constantFrom("k0", "k1", "k0 k1"), 2), opacity: opt(fc.constantFrom("0.4", "0.9"), 2), id: opt(fc.constant(true), 2),
  kids: fc.constantFrom("", "", "", "<title>t &lt;image/&gt;</title>", " "), paired: fc.boolean(), xlink: fc.constantFrom(false, false, false, false, false, true), dropSize: fc.constantFrom(false, false, false, false, false, true), single: fc.constantFrom(false, false, false, false, false, false, true),
  order: fc.nat({ max: 5 }), gap: fc.constantFrom(" ", " ", "\n  "),
});
type Img = typeof imgA extends fc.Arbitrary<infer U> ? U : never;
const wrapA = fc.record({ kind: fc.constantFrom("g", "g", "gt", "gclip", "gop", "nested", "symbol", "pattern", "mask", "clipg"), kids: fc.array(fc.oneof(imgA.map((i) => ({ img: i })), fc.constant({ rect: 1 } as any)), { minLength: 1, maxLength: 4, size: "max" }) });
const docA = fc.record({
  items: fc.array(fc.oneof({ weight: 4, arbitrary: imgA.map((img) => ({ img })) as any }, { weight: 3, arbitrary: wrapA.map((wrap) => ({ wrap })) as any }, { weight: 1, arbitrary: fc.constant({ rect: 1 }) as any }), { minLength: 1, maxLength: 9, size: "max" }),
  prolog: fc.constantFrom("", "", '<?xml version="1.0" encoding="UTF-8"?>\n', "<!-- a svg -->"), a11y: fc.constantFrom("", "", "<title>T</title>", "\n<title>T &amp; x</title>\n<desc>D</desc>"), taken: fc.array(fc.constantFrom("dmi0", "dmi1", "dmi2"), { maxLength: 2 }), stage: fc.constantFrom("flat", "flat", "inner", "inner"),
});
let uid = 0;
function imgXml(i: Img): string {
  const href = i.short ? SHORT : PAY[i.pay]; const at: string[] = [];
  if (!i.xlink) at.push(`href="${href}"`); else at.push(`xlink:href="${href}"`);
  if (!i.dropSize) at.push(`width="${i.w}"`, `height="${i.h}"`);
  if (i.x != null) at.push(`x="${i.x}"`); if (i.y != null) at.push(`y="${i.y}"`);
  if (i.par) at.push(`preserveAspectRatio="${i.par}"`); if (i.clip != null) at.push(`clip-path="url(#c${i.clip})"`); if (i.mask != null) at.push(`mask="url(#m${i.mask})"`); if (i.filter != null) at.push(`filter="url(#fl)"`);
  if (i.transform) at.push(`transform="${i.transform}"`); if (i.style) at.push(`style="${i.style}"`); if (i.cls) at.push(`class="${i.cls}"`); if (i.opacity) at.push(`opacity="${i.opacity}"`); if (i.id) at.push(`id="im${uid++}"`);
  const k = i.order % at.length; const list = [...at.slice(k), ...at.slice(0, k)];
  let s = list.join(i.gap); if (i.single) s = s.replace(/(width|x)="([^"]*)"/, "$1='$2'");
  return i.kids === "" && !i.paired ? `<image ${s}/>` : `<image ${s}>${i.kids}</image>`;
}
const eligible = (i: Img): boolean => !i.short && !i.xlink && !i.dropSize && !i.single;
const keyOf = (e: XNode): string => `${e.attrs.get("width")}|${e.attrs.get("height")}|${e.attrs.get("preserveAspectRatio") ?? ""}|${e.attrs.get("href")}`;

function build(d: any): { svg: string; imgs: Img[] } {
  uid = 0; const imgs: Img[] = []; const img = (i: Img): string => { imgs.push(i); return imgXml(i); };
  let n = 0; const rect = (): string => `<rect x="${(n * 13) % 90}" y="${(n++ * 29) % 90}" width="14" height="9" fill="rgb(${40 * (n % 6)},90,${200 - 20 * (n % 9)})"/>`;
  const item = (it: any): string => {
    if (it.img) return img(it.img); if (it.rect) return rect();
    const b = it.wrap.kids.map(item).join(""); const id = `w${uid++}`;
    switch (it.wrap.kind) {
      case "gt": return `<g transform="translate(6 9) scale(0.9)">${b}</g>`;
      case "gclip": return `<g clip-path="url(#c1)">${b}</g>`;
      case "gop": return `<g opacity="0.6">${b}</g>`;
      case "nested": return `<svg x="10" y="12" width="80" height="70" viewBox="0 0 100 100">${b}</svg>`;
      case "symbol": return `<defs><symbol id="${id}">${b}</symbol></defs><use href="#${id}" x="11" y="4"/>`;
      case "pattern": return `<defs><pattern id="${id}" width="40" height="40" patternUnits="userSpaceOnUse">${b}</pattern></defs><rect x="20" y="20" width="70" height="60" fill="url(#${id})"/>`;
      case "mask": return `<defs><mask id="${id}" maskUnits="userSpaceOnUse" x="0" y="0" width="120" height="120">${b}</mask></defs><rect x="5" y="5" width="80" height="80" fill="green" mask="url(#${id})"/>`;
      default: return `<g>${b}</g>`;
    }
  };
  const defs = `<defs><clipPath id="c0"><rect x="12" y="12" width="30" height="33"/></clipPath><clipPath id="c1"><circle cx="40" cy="40" r="32"/></clipPath><clipPath id="c2" clipPathUnits="objectBoundingBox"><rect x="0.2" y="0.1" width="0.6" height="0.5"/></clipPath><mask id="m0" maskUnits="userSpaceOnUse" x="0" y="0" width="60" height="60"><rect width="50" height="44" fill="white"/></mask><mask id="m1"><rect width="100%" height="50%" fill="white"/></mask><filter id="fl" filterUnits="userSpaceOnUse" x="10" y="10" width="50" height="50"><feOffset dx="3" dy="2"/></filter></defs>`;
  const taken = d.taken.map((t: string) => `<g id="${t}"/>`).join("");
  const body = d.items.map(item).join("\n");
  const svg = `${d.prolog}<svg xmlns="http://www.w3.org/2000/svg" xmlns:xlink="http://www.w3.org/1999/xlink" viewBox="0 0 120 120" width="120" height="120">${d.a11y}<style>.k0{opacity:0.7}.k1{clip-path:url(#c1)}</style>${defs}${d.taken.length && [...new Set(d.taken)].length === d.taken.length ? taken : ""}${body}</svg>`;
  return { svg, imgs };
}
async function verify(before: string, after: string, ctx: any): Promise<void> {
  const root = parseXml(after), broot = parseXml(before);
  const rep = idReport(root); ensure(rep.duplicates.length === 0, `duplicate ids ${rep.duplicates}`); ensure(rep.dangling.length === 0, `dangling references ${rep.dangling}`);
  const bids = idReport(broot).ids; for (const i of bids) ensure(rep.ids.has(i), `id ${i} was lost`);
  // accessible name stays first
  const firstEl = (r: XNode): string | undefined => r.children.find((c): c is XNode => c.kind === "el")?.name;
  if (firstEl(broot) === "title") ensure(firstEl(root) === "title", "title is no longer the root's first child");
  const plain = before.match(/<image\b[^>]*>/g) ?? []; // markup with unusual quoting is left alone
  const count = new Map<string, number>(); const scan = [...walk(broot)].filter((e) => e.name === "image");
  scan.forEach((e, k) => { const href = e.attrs.get("href"); if (href == null || e.attrs.has("xlink:href") || !href.startsWith("data:") || href.length < 256 || !e.attrs.has("width") || !e.attrs.has("height") || /='/.test(plain[k])) return; count.set(keyOf(e), (count.get(keyOf(e)) ?? 0) + 1); });
  let shared = 0;
  const left = new Map<string, number>(); const plainA = after.match(/<image\b[^>]*>/g) ?? [];
  [...walk(root)].filter((e) => e.name === "image").forEach((e, k) => { if (!/='/.test(plainA[k])) left.set(keyOf(e), (left.get(keyOf(e)) ?? 0) + 1); });
  for (const [k, n] of count) { if (n > 1) shared++; ensure(left.get(k) === 1 || (n === 1 && left.get(k) === 1), `payload occurring ${n} times at one size is stored ${left.get(k) ?? 0} times`); }
  if (shared === 0) ensure(after === before, "nothing to share, but the document changed");
  const d = diff(await raster(before), await raster(after), 3);
  ensure(d.n === 0, () => `picture changed at ${d.n} pixels, first ${d.at}\n--- before ${before.replace(/base64,[^"]*/g, "…")}\n--- after ${after.replace(/base64,[^"]*/g, "…")}`);
  ctx.hit(shared > 0); ctx.label(shared > 0 ? "shared" : "nothing shared");
  ensure(hoistDuplicateImagePayloads(after) === after, "a second pass changed the document");
}
await runCheck({ id: "P01", parts: [
  { name: "same-picture", rule: "documents with images at random sizes, positions, clips, masks, filters, transforms, classes, inside groups, nested svg, symbols, patterns and masks; already-shared inner documents embedded in outer ones; non-trivial = a payload was shared",
    arb: docA, runs: { quick: 900, thorough: 60000 },
    prop: async (d, ctx) => {
      const { svg } = build(d); let before = svg;
      if (d.stage === "inner") { // an inner document shared first, then embedded next to more images
        const inner = hoistDuplicateImagePayloads(svg).replace(/^<\?xml[^>]*>\s*|^<!--.*?-->/, "").replace("<svg ", '<svg x="3" y="2" ').replace(/ (width|height)="120"/g, (w, _n, o) => (o < 200 ? w : w));
        const extra = d.items.filter((i: any) => i.img).map((i: any) => imgXml({ ...i.img, id: undefined, x: (i.img.x ?? 0) + 11, clip: undefined, mask: undefined, filter: undefined, cls: undefined, style: undefined })).join("");
        before = `<svg xmlns="http://www.w3.org/2000/svg" xmlns:xlink="http://www.w3.org/1999/xlink" viewBox="0 0 130 130" width="130" height="130"><rect width="130" height="130" fill="#eee"/>${extra}${inner}${extra}</svg>`; ctx.label("embedded");
      }
      await verify(before, hoistDuplicateImagePayloads(before), ctx);
    } },
  { name: "producers", rule: "the document producers (wrapSvg, generateAnimatedSvg) given frames with repeated images: each payload occurs once in what they return; non-trivial = a payload repeated",
    arb: fc.record({ frames: fc.array(fc.array(imgA, { minLength: 1, maxLength: 5 }), { minLength: 2, maxLength: 4 }) }), runs: { quick: 150, thorough: 5000 },
    prop: (d, ctx) => {
      const ok = d.frames.map((f) => f.map((i) => ({ ...i, short: false, xlink: false, dropSize: false, single: false, id: undefined, clip: undefined, mask: undefined, filter: undefined })));
      const inner = ok.map((f) => f.map(imgXml).join(""));
      const outs = [wrapSvg(inner.join(""), 120, 120), generateAnimatedSvg({ width: 120, height: 120, frames: inner.map((svgContent) => ({ svgContent, duration: 500, transition: { type: "cut", duration: 0 } })) } as any)];
      const keys = new Set(ok.flat().map((i) => `${i.w}|${i.h}|${i.par ?? ""}|${PAY[i.pay]}`)); ctx.hit(keys.size < ok.flat().length);
      for (const o of outs) { const seen = new Map<string, number>(); for (const e of walk(parseXml(o))) if (e.name === "image") seen.set(keyOf(e), (seen.get(keyOf(e)) ?? 0) + 1); for (const k of keys) ensure(seen.get(k) === 1, `payload stored ${seen.get(k) ?? 0} times: ${show(k.slice(0, 40))}`); }
    } },
], assumptions: ["sharp's rasteriser (librsvg) as the picture oracle"] });
