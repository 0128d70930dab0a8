// A07: a run composed from N captured states shows, while each state holds,
// exactly the picture that state's own still shows. Oracle: the still of every
// state, rasterised; the run is frozen at instants of every hold (its embedded
// fonts turned into outlines) and rasterised the same way.
import { fc, runCheck, ensure, same, show } from "../lib/harness.ts";
import { el } from "../lib/tree.ts";
import { bake } from "../lib/bake.ts";
import { raster, diff, png, dataUri } from "../lib/png.ts";
import { readFileSync } from "node:fs";
import { createRequire } from "node:module";
import { parseXml, idReport } from "../lib/xml.ts";
import { composeCompressedRun } from "/repo/src/animation/compressed-run.ts";
import { elementTreeToSvgInner } from "/repo/src/render/element-tree-to-svg.ts";
import { clearEmbeddedFonts, clearGlyphDefs, getEmbeddedFontFaceCss } from "/repo/src/render/index.ts";

const W = 260, H = 170;
const COLORS = ["rgb(20, 20, 20)", "rgb(200, 0, 0)", "rgb(0, 90, 200)", "rgba(0, 120, 0, 0.5)"];
const BGS = ["rgba(0, 0, 0, 0)", "rgb(250, 240, 200)", "rgb(200, 230, 255)", "rgba(255, 0, 0, 0.25)"];
const IMG = dataUri(png(4, 4, (x, y) => [x * 60, y * 60, 128, 255]));
interface Tok { t: string; c: number; b?: number }
interface Pane { x: number; y: number; w: number; h: number; clip: boolean; radius: number; bg: number; mode: string; lines: Tok[][]; scroll: number; size: number; style: any; mark: number | null; z: number | null; bw: number; gutter: boolean; anim: boolean; fam: string; kid: any }
interface Scene { panes: Pane[]; popup: any; pic: any; bg: number }
const copy = <T>(v: T): T => JSON.parse(JSON.stringify(v));
const lhOf = (p: Pane): number => p.size + 6;
const fontFile = (f: string): any => { const b = readFileSync(f); return (createRequire("/repo/package.json")("opentype.js") as any).parse(b.buffer.slice(b.byteOffset, b.byteOffset + b.byteLength)); };
const LIB = fontFile("/usr/share/fonts/truetype/liberation/LiberationSans-Regular.ttf");
const adv = (p: Pane, ch: string): number => p.fam.includes("Mono") && ch < "\u0250" ? p.size * 0.6 : /[\u0300-\u036f]/.test(ch) ? 0 : /[A-Za-z0-9=() }]/.test(ch) ? LIB.charToGlyph(ch).advanceWidth * p.size / LIB.unitsPerEm : ch > "\u2e80" ? p.size * 1.25 : p.size * 0.75;

function renderLine(p: Pane, toks: Tok[], x0: number, y: number): { segs: any[]; text: string } {
  let x = x0; const segs: any[] = []; let text = "";
  for (const k of toks) {
    if (k.t === "") continue;
    const xs: number[] = []; const st = x; for (const ch of k.t) { for (let u = 0; u < ch.length; u++) xs.push(x); x += adv(p, ch); }
    segs.push({ text: k.t, x: st, y, width: x - st, height: lhOf(p) - 2, xOffsets: xs, color: COLORS[k.c], ...(k.b === 1 ? { fontWeight: "700" } : k.b === 2 ? { fontStyle: "italic" } : k.b === 3 ? { fontSize: p.size + 3 } : k.b === 4 ? { textShadow: "rgb(255, 0, 255) 1px 1px 0px" } : {}) });
    text += k.t;
  }
  return { segs, text };
}
function textEl(p: Pane, o: any, segs: any[], text: string): any {
  if (!segs.length) return el(o);
  const right = Math.max(...segs.map((s) => s.x + s.width));
  return el({ ...o, text, textSegments: segs, textLeft: segs[0].x, textTop: segs[0].y, textWidth: right - segs[0].x, textHeight: segs[0].height, fontAscent: Math.round(p.size * 0.9), fontDescent: Math.round(p.size * 0.22) });
}
function build(s: Scene): any[] {
  const kids: any[] = [];
  s.panes.forEach((p, pi) => {
    const st: any = { fontFamily: p.fam, fontSize: `${p.size}px`, lineHeight: `${lhOf(p)}px`, color: COLORS[0], ...p.style };
    const inner: any[] = []; const base = { fontFamily: p.fam, fontSize: `${p.size}px`, lineHeight: `${lhOf(p)}px`, color: COLORS[0], ...Object.fromEntries(Object.entries(p.style).filter(([k]) => /^(textShadow|webkitTextStroke|fontStyle$)/.test(k))) }; let own: any[] = [], ownText: string[] = [];
    const gx = p.gutter ? 16 : 0;
    p.lines.forEach((toks, i) => {
      const y = p.y + 4 - p.scroll + i * lhOf(p); if (y > H + 40 || y < -60) return; const x = p.x + 4 + gx;
      const marked = p.mark === i ? { backgroundColor: BGS[2] } : {};
      const { segs, text } = renderLine(p, toks, x, y);
      if (p.gutter) inner.push(textEl(p, { x: p.x, y, width: 14, height: lhOf(p), styles: base }, renderLine(p, [{ t: String(i % 9 + 2), c: 3 }], p.x + 2, y).segs, String(i % 9 + 2)));
      if (p.mode === "pre") { own.push(...segs); ownText.push(text); if (p.mark === i) inner.push(el({ x, y, width: 40, height: lhOf(p), styles: marked })); }
      else if (p.mode === "spans") inner.push(el({ x, y, width: p.w - 8 - gx, height: lhOf(p), styles: { ...base, ...marked }, children: segs.map((q) => textEl(p, { tag: "span", x: q.x, y, width: q.width, height: lhOf(p), styles: { ...base, display: "inline", color: q.color, fontWeight: q.fontWeight ?? "400", fontStyle: q.fontStyle ?? p.style.fontStyle ?? "normal", fontSize: `${q.fontSize ?? p.size}px` } }, [q], q.text)) }));
      else inner.push(textEl(p, { x, y, width: p.w - 8 - gx, height: lhOf(p), styles: { ...base, ...marked, ...(p.mode === "flat" && toks[0] ? { color: COLORS[toks[0].c] } : {}) } }, p.mode === "flat" ? renderLine(p, [{ t: toks.map((k) => k.t).join(""), c: toks[0]?.c ?? 0 }], x, y).segs.map(({ color, ...r }) => r) : segs, text));
    });
    if (p.kid) inner.splice(p.kid.at % (inner.length + 1), 0, el({ x: p.x + p.kid.x, y: p.y + p.kid.y, width: 34, height: 18, styles: { ...p.kid.st, backgroundColor: p.kid.bg }, children: p.kid.t ? [textEl({ ...p, size: 10 }, { x: p.x + p.kid.x, y: p.y + p.kid.y, width: 30, height: 14, styles: { ...base, fontSize: "10px" } }, renderLine({ ...p, size: 10 }, [{ t: p.kid.t, c: 2 }], p.x + p.kid.x + 2, p.y + p.kid.y + 1).segs, p.kid.t)] : [] }));
    const box = { x: p.x, y: p.y, width: p.w, height: p.h, ...(p.anim ? { animId: `pane${pi}` } : {}), children: inner, styles: { ...st, backgroundColor: BGS[p.bg], ...(p.clip ? { overflowX: "hidden", overflowY: "hidden" } : {}), ...(p.radius ? Object.fromEntries(["borderRadius", "borderTopLeftRadius", "borderTopRightRadius", "borderBottomLeftRadius", "borderBottomRightRadius"].filter((_, i) => p.radius !== 20 || i === 1 + p.x % 4).map((k) => [k, `${p.radius}px`])) : {}), ...(p.bw ? Object.fromEntries(['Top', 'Right', 'Bottom', 'Left'].flatMap((k) => [[`border${k}Width`, `${p.bw}px`], [`border${k}Style`, 'solid'], [`border${k}Color`, 'rgb(90, 90, 90)']])) : {}), ...(p.z != null ? { position: "relative", zIndex: String(p.z) } : {}) } };
    kids.push(own.length ? textEl(p, box, own, ownText.join("\n")) : el(box));
  });
  if (s.pic) kids.push(el({ tag: "img", x: s.pic.x, y: s.pic.y, width: 30, height: 20, imageSrc: IMG, styles: {} }));
  if (s.popup) { const q = s.popup; const p = { ...s.panes[0], fam: "Liberation Sans", size: 11 } as Pane; const pop = el({ x: q.x, y: q.y, width: 70, height: 40, styles: { backgroundColor: q.bg, transformOrigin: "35px 20px", ...q.fx, ...(q.z ? { position: "absolute", zIndex: q.z } : {}), ...(q.border ? { borderTopWidth: "2px", borderRightWidth: "2px", borderBottomWidth: "2px", borderLeftWidth: "2px", borderTopStyle: "solid", borderRightStyle: "solid", borderBottomStyle: "solid", borderLeftStyle: "solid" } : {}) }, children: q.label ? [textEl(p, { x: q.x + 3, y: q.y + 4, width: 60, height: 16, styles: { fontFamily: p.fam, fontSize: "11px" } }, renderLine(p, [{ t: q.label, c: 1 }], q.x + 3, q.y + 4).segs, q.label)] : [] }); q.first ? kids.unshift(pop) : kids.push(pop); }
  return [el({ tag: "body", x: 0, y: 0, width: W, height: H, styles: { backgroundColor: BGS[s.bg] }, children: kids })];
}
function step(s0: Scene, op: any, history: Scene[]): Scene {
  const s = copy(s0); const p = s.panes[op.p % s.panes.length]; const L = p.lines, li = op.i % Math.max(1, L.length); const line = L[li] ?? (L[0] = [{ t: "", c: 0 }]);
  const flat = (): { ch: string; c: number; b?: number }[] => line.flatMap((k) => [...k.t].map((ch) => ({ ch, c: k.c, b: k.b })));
  const put = (f: { ch: string; c: number; b?: number }[]): void => { const out: Tok[] = []; for (const q of f) { const l = out[out.length - 1]; if (l && l.c === q.c && l.b === q.b) l.t += q.ch; else out.push({ t: q.ch, c: q.c, ...(q.b != null ? { b: q.b } : {}) }); } L[li] = out.length ? out : [{ t: "", c: 0 }]; };
  switch (op.k) {
    case "type": { const f = flat(); f.splice(op.j % (f.length + 1), 0, ...[...op.t].map((ch) => ({ ch, c: op.c }))); put(f.slice(0, 20)); break; }
    case "delete": { const f = flat(); f.splice(op.j % (f.length + 1), 1 + op.n % 4); put(f); break; }
    case "recolor": { const f = flat(); const a = op.j % (f.length + 1); for (let k = a; k < Math.min(f.length, a + 1 + op.n); k++) f[k].c = op.c; put(f); break; }
    case "face": { const f = flat(); const a = op.j % (f.length + 1); for (let k = a; k < Math.min(f.length, a + 1 + op.n); k++) f[k].b = op.b; put(f); break; }
    case "split": { const f = flat(); L[li] = f.length > 1 ? [{ t: f.slice(0, 1 + op.j % (f.length - 1)).map((q) => q.ch).join(""), c: f[0].c }, { t: f.slice(1 + op.j % (f.length - 1)).map((q) => q.ch).join(""), c: f[0].c }] : line; break; }
    case "newline": { const f = flat(); const a = op.j % (f.length + 1); put(f.slice(0, a)); const keep = L[li]; put(f.slice(a)); const rest = L[li]; L.splice(li, 1, keep, rest); break; }
    case "insertLine": L.splice(li, 0, [{ t: op.t, c: op.c }]); break;
    case "deleteLine": L.splice(li, 1); break;
    case "dupLine": L.splice(li, 0, copy(line)); break;
    case "swapLines": { const j = op.j % L.length; [L[li], L[j]] = [L[j], L[li]]; break; }
    case "scroll": p.scroll = op.n * (op.j % 2 ? lhOf(p) : 5); break;
    case "mark": p.mark = p.mark === li ? null : li; break;
    case "popup": s.popup = s.popup && op.n % 2 ? null : op.popup; break;
    case "pic": s.pic = s.pic && op.n % 2 ? null : { x: op.x, y: op.y }; break;
    case "kid": p.kid = p.kid && op.n === 0 ? null : op.kid; break;
    case "kidText": if (p.kid) p.kid.t = op.t; break;
    case "bg": p.bg = op.c; break;
    case "rootBg": s.bg = op.c; break;
    case "movePane": p.x = op.x % 120; p.y = op.y % 60; break;
    case "resize": p.w = 60 + op.x % 150; p.h = 40 + op.y; break;
    case "style": p.style = op.style; break;
    case "z": p.z = op.n % 3 ? op.n : null; break;
    case "size": p.size = 10 + op.n * 2; break;
    case "family": p.fam = op.fam; break;
    case "undo": return copy(history[op.i % history.length]);
    case "none": break;
  }
  return s;
}
const text = fc.string({ unit: fc.constantFrom("a", "b", "a", "=", " ", "(", ")", "x", "2"), minLength: 1, maxLength: 7 });
const odd = fc.constantFrom("日本", "a\u0301b", "😀", "x\ty", "שלום", "fi");
const style = fc.constantFrom<any>({}, {}, { opacity: "0.5" }, { textShadow: "rgb(255, 0, 0) 2px 1px 0px" }, { color: COLORS[1] }, { textDecorationLine: "underline" }, { transform: "matrix(1, 0, 0, 1, 10, 5)" }, { clipPath: "inset(10px)" }, { mixBlendMode: "multiply" }, { letterSpacing: "1px" }, { fontStyle: "italic" }, { webkitTextStrokeWidth: "1px", webkitTextStrokeColor: "rgb(0, 0, 255)" });
const fam = fc.constantFrom("Liberation Sans", "Liberation Mono", "Liberation Mono");
const tok = fc.record({ t: fc.oneof({ weight: 9, arbitrary: text }, { weight: 1, arbitrary: odd }), c: fc.nat(3), b: fc.oneof({ weight: 6, arbitrary: fc.constant(undefined) }, { weight: 1, arbitrary: fc.nat(4) }) }).map((t) => copy(t));
const lineArb = fc.oneof({ weight: 4, arbitrary: fc.array(tok, { maxLength: 3 }) }, { weight: 1, arbitrary: fc.constantFrom<Tok[]>([{ t: "}", c: 0 }], [{ t: "", c: 0 }], [{ t: "a = b", c: 0 }]) });
const kid = fc.record({ x: fc.integer({ min: -10, max: 100 }), y: fc.integer({ min: -10, max: 60 }), at: fc.nat(6), bg: fc.constantFrom("rgb(255, 220, 0)", "rgba(0, 0, 255, 0.3)", "rgba(0, 0, 0, 0)"), t: fc.constantFrom("", "tip", "日"), st: fc.constantFrom<any>({}, { position: "relative" }, { position: "absolute", zIndex: "2" }, { position: "absolute", zIndex: "-1" }, { float: "left" }, { position: "fixed" }, { display: "inline-block" }, { opacity: "0.6" }, { position: "sticky" }) });
const pane = fc.record({ x: fc.integer({ min: 0, max: 120 }), y: fc.integer({ min: 0, max: 60 }), w: fc.integer({ min: 60, max: 140 }), h: fc.integer({ min: 40, max: 110 }), clip: fc.boolean(), radius: fc.constantFrom(0, 0, 6, 20, 20), bg: fc.nat(3), mode: fc.constantFrom("lines", "flat", "pre", "spans"), lines: fc.array(lineArb, { minLength: 1, maxLength: 5, size: "max" }), scroll: fc.constantFrom(0, 0, 0, 7), size: fc.constantFrom(10, 12, 14), style: fc.oneof({ weight: 4, arbitrary: fc.constant({}) }, { weight: 2, arbitrary: style }), mark: fc.constantFrom(null, null, 0, 1), z: fc.constantFrom(null, null, null, 1), bw: fc.constantFrom(0, 0, 0, 5), gutter: fc.constantFrom(false, false, true), anim: fc.boolean(), fam, kid: fc.option(kid, { freq: 3 }) });
const popup = fc.record({ x: fc.integer({ min: 0, max: 190 }), y: fc.integer({ min: 0, max: 120 }), bg: fc.constantFrom("rgb(255, 255, 255)", "rgba(0, 0, 0, 0.4)", "rgba(0, 0, 0, 0)"), z: fc.constantFrom("", "1", "-1", "auto"), border: fc.boolean(), label: fc.constantFrom("", "popup"), fx: fc.constantFrom<any>({}, {}, {}, { boxShadow: 'rgb(0, 0, 0) 6px 8px 4px 2px' }, { outlineStyle: 'solid', outlineWidth: '4px', outlineOffset: '3px', outlineColor: 'rgb(0, 100, 200)' }, { transform: 'matrix(1, 0, 0, 1, -25, 12)' }, { transform: 'matrix(0, 1, -1, 0, 0, 0)' }, { filter: 'drop-shadow(rgb(200, 0, 0) 9px 9px 0px)' }, { backgroundImage: 'linear-gradient(rgb(255, 0, 0), rgb(0, 0, 255))' }), first: fc.constantFrom(false, false, true) });
const op = fc.record({ k: fc.oneof({ weight: 5, arbitrary: fc.constantFrom("type", "delete", "recolor", "newline", "insertLine", "deleteLine", "undo") }, { weight: 3, arbitrary: fc.constantFrom("face", "split", "dupLine", "swapLines", "scroll", "mark", "popup", "pic", "kid", "kidText", "bg", "rootBg", "movePane", "resize", "style", "z", "size", "family", "none") }), p: fc.nat(1), i: fc.nat(5), j: fc.nat(30), n: fc.nat(4), c: fc.nat(3), b: fc.nat(4), t: text, x: fc.nat(200), y: fc.nat(100), style, fam, popup, kid });
const history = fc.record({ panes: fc.array(pane, { minLength: 1, maxLength: 2 }), popup: fc.option(popup, { freq: 5 }), bg: fc.nat(1), ops: fc.array(fc.array(op, { minLength: 1, maxLength: 2 }), { minLength: 1, maxLength: 5, size: "max" }), holds: fc.array(fc.constantFrom(0, 40, 100, 333, 500, 1200), { minLength: 6, maxLength: 6 }), lap: fc.constantFrom(0, 0, 1, 3) });
type Hist = typeof history extends fc.Arbitrary<infer T> ? T : never;
function scenes(c: Hist): Scene[] {
  const first: Scene = { panes: copy(c.panes) as any, popup: c.popup, pic: null, bg: c.bg };
  if (first.panes.length === 2) { first.panes[1].x = first.panes[0].x + first.panes[0].w + (first.panes[1].x % 3 ? 10 : -20); }
  const out = [first];
  for (const ops of c.ops) out.push(ops.reduce((s, o) => step(s, o, out), out[out.length - 1]));
  return out;
}
/** Pixels where the glyphs of two runs of text lie over one another (which of them is on top there is not judged). */
function overprint(trees: any[][]): Uint8Array {
  const m = new Uint8Array(W * H);
  for (const tree of trees) {
    const rects: number[][] = [];
    // text inside a transformed element is masked where the transform (about the element's middle) puts it
    const visit = (e: any, via: ((x: number, y: number) => number[])[]): void => {
      const t = e.styles?.transform?.startsWith("matrix") ? e.styles.transform.match(/-?[\d.]+(?:e-?\d+)?/g).map(Number) : null;
      if (t) { const ox = e.x + e.width / 2, oy = e.y + e.height / 2; via = [(x, y) => [ox + t[0] * (x - ox) + t[2] * (y - oy) + t[4], oy + t[1] * (x - ox) + t[3] * (y - oy) + t[5]], ...via]; }
      for (const g of e.textSegments ?? []) {
        const at = [[g.x, g.y], [g.x + g.width, g.y], [g.x, g.y + g.height], [g.x + g.width, g.y + g.height]].map(([x, y]) => via.reduce((q, f) => f(q[0], q[1]), [x, y]));
        rects.push([Math.min(...at.map((q) => q[0])) - 2, Math.min(...at.map((q) => q[1])) - 2, Math.max(...at.map((q) => q[0])) + 3, Math.max(...at.map((q) => q[1])) + 3]);
      }
      for (const k of e.children ?? []) visit(k, via);
    };
    for (const r of tree) visit(r, []);
    for (let i = 0; i < rects.length; i++) for (let j = i + 1; j < rects.length; j++) {
      const a = rects[i], b = rects[j];
      const x0 = Math.max(0, Math.floor(Math.max(a[0], b[0]))), x1 = Math.min(W, Math.ceil(Math.min(a[2], b[2]))), y0 = Math.max(0, Math.floor(Math.max(a[1], b[1]))), y1 = Math.min(H, Math.ceil(Math.min(a[3], b[3])));
      for (let y = y0; y < y1; y++) for (let x = x0; x < x1; x++) m[y * W + x] = 1;
    }
  }
  return m;
}
const without = (r: any, m: Uint8Array): any => { for (let i = 0; i < m.length; i++) if (m[i]) r.px.fill(0, i * 4, i * 4 + 4); return r; };
const hush = console.warn; console.warn = (...a: any[]) => { if (!/ICU companion|domotion/.test(String(a[0]))) hush(...a); };
function still(tree: any[]): string {
  clearEmbeddedFonts(); clearGlyphDefs(); const inner = elementTreeToSvgInner(structuredClone(tree), W, H, "s-", true, 2, false);
  return `<svg xmlns="http://www.w3.org/2000/svg" width="${W}" height="${H}" viewBox="0 0 ${W} ${H}"><style>${getEmbeddedFontFaceCss()}</style>${inner}</svg>`;
}
async function compare(c: Hist, opts: any, ctx: any): Promise<any> {
  const trees = scenes(c).map(build); const states = trees.map((tree, i) => ({ tree, holdMs: c.holds[i % c.holds.length] }));
  if (states.every((s) => s.holdMs === 0)) states[0].holdMs = 100;
  // a declared region's stamp names it to the composer; the page itself does not have it
  const bare = (e: any): any => ({ ...e, ...(opts.regionRootIds?.includes(e.animId) ? { animId: undefined } : {}), children: e.children.map(bare) });
  const pages = trees.map((t) => t.map(bare));
  const before = JSON.stringify(trees);
  const run = composeCompressedRun(states, { width: W, height: H, ...opts });
  ensure(JSON.stringify(trees) === before, "the captured trees were changed");
  const total = states.reduce((a, s) => a + s.holdMs, 0); same(run.durationMs, total, "run length"); same([run.width, run.height], [W, H], "size");
  const ids = idReport(parseXml(run.svg)); ensure(!ids.duplicates.length && !ids.dangling.length, () => `ids ${show(ids)}`);
  let at = 0, changed = 0, prev: any = null;
  const jobs = states.flatMap(({ holdMs: h }, s) => {
    const start = at; at += h; if (h === 0) return [];
    const fr = h <= 20 ? [0.5] : (s + c.holds[1]) % 3 === 0 ? [0.02, 0.97] : [s % 2 ? 0.97 : 0.02];
    return [{ s, want: raster(bake(still(pages[s]), 0)), got: fr.map((f) => ({ f, r: raster(bake(run.svg, start + h * f + total * c.lap)) })) }];
  });
  await Promise.all(jobs.flatMap((j) => [j.want, ...j.got.map((g) => g.r)]));
  for (const j of jobs) {
    const mask = overprint([pages[j.s]]); const want = without(await j.want, mask); if (prev && diff(prev, want, 8).n > 0) changed++; prev = want;
    for (const g of j.got) { const d = diff(without(await g.r, mask), want, 48); ensure(d.n <= 2, () => `state ${j.s} of ${states.length} at ${g.f * 100}% of its hold: ${d.n} pixels differ (by up to ${d.max}), the first at ${d.at}`); }
  }
  ctx.hit(changed > 0 && run.pairingStats.glyphsPaired > 0); ctx.label(`${Math.min(changed, 4)}${changed > 4 ? "+" : ""} visible changes`, run.pairingStats.births + run.pairingStats.deaths > 0 && "edits", run.pairingStats.recolored > 0 && "recoloured", run.pairingStats.chromeTrackCount > 0 && "boxes come and go");
  return { run, trees, states };
}
runCheck({ id: "A07", parts: [
  { name: "run", rule: "editor-like scenes (one or two panes, clipping or not, lines as blocks, one pre-formatted block or coloured spans, gutters, marks, popups, pictures, stacking, opacity, shadows, strokes, complex scripts) taken through 1-5 steps of typing, deleting, recolouring, line moves, scrolling, restyling, undo; every state's hold sampled at both ends, also in later laps; non-trivial = states that look different and share characters",
    arb: fc.tuple(history, fc.record({ demote: fc.nat(3), roots: fc.boolean() })), runs: { quick: 130, thorough: 4000 },
    prop: async ([c, o], ctx) => {
      const opts: any = {}; if (o.roots) opts.regionRootIds = ["pane0", "pane1"];
      const { run, states } = await compare(c, opts, ctx);
      if (o.demote && run.regions.length) { ctx.label("demoted"); const demotedRegions = run.regions.filter((_: string, i: number) => (o.demote >> (i % 2)) & 1); if (demotedRegions.length) { const r2 = (await compare(c, { ...opts, demotedRegions }, ctx)).run; for (const k of demotedRegions) ensure(!r2.regions.includes(k), "a demoted region kept its animated text"); } }
    } },
], assumptions: ["sharp's rasteriser (librsvg) as the picture oracle, opentype.js as reader of the embedded fonts"] });
