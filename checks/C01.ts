// C01: stacking animated documents: every layer's content keeps its own look, its own text and
// its own motion, at its place and on its own time; layer animations move, fade and clip it.
// Oracle: the layer's own document played alone at the mapped time, times the layer's own motion.
import { fc, runCheck, ensure, same, near, show } from "../lib/harness.ts";
import { parseXml, walk, textContent, idReport, type XNode } from "../lib/xml.ts";
import { Player, parseTransform, matOf, mul, apply, I, parseEasing, lerpTransform, type Mat } from "../lib/css.ts";
import { composeAnimatedLayers, generateAnimatedSvg, offsetEmbeddedAnimatedSvgTimeline, namespaceEmbeddedAnimatedSvg } from "/repo/src/index.ts";
import { elementTreeToSvgInner } from "/repo/src/index.ts";
import { el } from "../lib/tree.ts";

const NAMES = ["clip", "layer", "a0", "clipa", "rclip", "clipper", "a", "a1", "a-1", "f", "f-0", "fv-0", "fv-0-1", "spin", "grow", "ln0o", "bg", "viewport-clip", "f0-a", "x_y"];
const TEXTS = ["hello", "fv-0", "the .f-0 rule", "spin .spin grow", 'id="a" url(#a)', "class=\"f\"", "--scene-dur: 2s", "animation: spin 1s", "a.f-0.b", "@keyframes fv-0 { }", "font-family: \"dmf0\"", "#a href=\"#a\"", "& <b>", "<style>.f{}</style>"];
const esc = (s: string): string => s.replace(/&/g, "&amp;").replace(/</g, "&lt;").replace(/>/g, "&gt;");
const opt = <T>(a: fc.Arbitrary<T>, freq = 2): fc.Arbitrary<T | undefined> => fc.option(a, { nil: undefined, freq });
const nm = fc.nat({ max: NAMES.length - 1 });
const EASE = ["linear", "ease", "ease-in", "step-end", "cubic-bezier(0.2,0.8,0.4,1)", "ease-in-out"];
const trackA = fc.record({ kf: nm, prop: fc.constantFrom("opacity", "transform", "fill"), ease: fc.constantFrom(...EASE), stops: fc.array(fc.tuple(fc.constantFrom(0, 10, 25, 25.01, 50, 99.99, 100), fc.integer({ min: 0, max: 20 }), fc.constantFrom("", "", "linear", "step-end")), { minLength: 0, maxLength: 4 }), from: fc.boolean(), two: fc.boolean() });
const nodeA = fc.record({ parent: fc.nat({ max: 6 }), kind: fc.constantFrom("g", "g", "rect", "rect", "text", "use", "clipped"), x: fc.integer({ min: 0, max: 60 }), y: fc.integer({ min: 0, max: 40 }), cls: nm, id: opt(nm), paint: fc.constantFrom("attr", "class", "grad", "inherit"), text: fc.nat({ max: TEXTS.length - 1 }), font: fc.nat({ max: 2 }), track: opt(trackA), inline: fc.boolean(), style: fc.boolean() });
const docA = fc.record({ w: fc.constantFrom(100, 160, 201.5), h: fc.constantFrom(80, 120), period: fc.constantFrom(500, 1000, 2500, 4000), dp: fc.constantFrom(2, 3), nodes: fc.array(nodeA, { minLength: 1, maxLength: 7, size: "max" }), blink: fc.boolean(), xlink: fc.boolean(), prolog: fc.boolean(), vb: fc.constantFrom(0, 0, 1, 2, 3, 4), defs: fc.constantFrom(0, 1, 2), scene: fc.boolean() });
const BLINK = 730; // ms, never within 1 % of a period
const num = (v: number): string => String(Number(v.toFixed(4)));
/** A small animated document in Domotion's vocabulary; data-m marks every leaf. */
function handDoc(d: any, tag: string): { svg: string; w: number; h: number } {
  const ids = new Set<string>(), css: string[] = [], kfNames = new Set<string>(); const defs: string[] = [];
  const gid = NAMES[(d.defs * 3 + 1) % NAMES.length] + "-g"; let xl = false;
  defs.push(`<linearGradient id="${gid}" data-m="${tag}:grad"><stop offset="0" stop-color="red"/><stop offset="1" stop-color="blue"/></linearGradient>`, `<rect id="${gid}-s" data-m="${tag}:shape" width="5" height="6"/>`, `<clipPath id="c-${gid}"><rect data-m="${tag}:clip" x="1" y="1" width="40" height="30"/></clipPath>`);
  for (let i = 0; i < 2; i++) css.push(`@font-face { font-family: "dmf${i}"; font-style: normal; src: url("data:font/ttf;base64,${["AAAAfv+0AAAA", "BBBB/spin+BBB", "CCCCdmf0CCCC"][(d.defs + i) % 3]}"); }`);
  const kids: number[][] = d.nodes.map(() => []), roots: number[] = [];
  d.nodes.forEach((n: any, i: number) => { let p = n.parent % (i + 1) - 1; while (p >= 0 && d.nodes[p].kind !== "g") p--; if (p < 0) roots.push(i); else kids[p].push(i); });
  const dur = (d.period / 1000).toFixed(d.dp);
  const render = (i: number): string => {
    const n = d.nodes[i]; const at: string[] = [], st: string[] = []; let cls = NAMES[n.cls] + (i % 2 ? `-${i}` : "");
    if (n.id != null) { let id = NAMES[n.id]; if (!ids.has(id)) { ids.add(id); at.push(`id="${id}"`); } }
    if (n.track) {
      let k = NAMES[n.track.kf]; while (kfNames.has(k)) k += "-1"; kfNames.add(k);
      const val = (v: number): string => n.track.prop === "opacity" ? `opacity:${num(v / 20)}` : n.track.prop === "fill" ? `fill:rgb(${v * 10},3,4)` : `transform:translate(${v}px,${20 - v}px) scale(${num(0.5 + v / 20)})`;
      const stops = [...n.track.stops].sort((x: any, y: any) => x[0] - y[0]).filter((x: any, z: number, l: any[]) => z === 0 || l[z - 1][0] !== x[0]); const body: string[] = []; if (!stops.length || stops[0][0] !== 0) stops.unshift([0, 3, ""]); if (stops[stops.length - 1][0] !== 100) stops.push([100, 17, ""]);
      stops.forEach((s: any, q: number) => {  body.push(`${n.track.from && s[0] === 0 ? "from" : n.track.from && s[0] === 100 ? "to" : n.track.two && s[0] > 0 && s[0] < 100 ? `${s[0]}%, ${num(s[0] + 0.0)}%` : `${s[0]}%`} { ${val(s[1])}${s[2] ? `; animation-timing-function: ${s[2]}` : ""}; }`); });
      css.push(`@keyframes ${k} {${body.join(" ")}}`);
      const a = `animation:${n.style ? " " : ""}${k} ${dur}s ${n.track.ease} infinite`;
      if (n.inline) st.push(a); else { cls = `anim-${NAMES[n.cls]}${i}`; css.push(`.${cls}${n.style ? " " : ""}{ ${a}; }`); }
    }
    if (n.kind === "g") return `<g class="${cls}" ${at.join(" ")}${st.length ? ` style="${st.join(";")}"` : ""}>${kids[i].map(render).join("")}</g>`;
    const m = `data-m="${tag}:${i}"`;
    if (n.paint === "attr") at.push(`fill="rgb(${i},20,30)"`); else if (n.paint === "grad") at.push(`fill="url(#${gid})"`); else if (n.paint === "class") { const pc = `p${i}-${NAMES[n.cls]}`; css.push(`.${pc} { fill: rgb(9,${i},0.5); }`); cls += ` ${pc}`; }
    const S = st.length ? ` style="${st.join(";")}"` : "";
    if (n.kind === "text") return `<text class="${cls}" ${m} x="${n.x}" y="${n.y + 10}" font-family="dmf${n.font % 2}" ${at.join(" ")}${S}>${n.style ? esc(TEXTS[n.text]) : esc(TEXTS[n.text]).replace(/"/g, "&quot;")}</text>`;
    if (n.kind === "use") { const x = d.xlink; if (x) xl = true; return `<use class="${cls}" ${m} ${x ? "xlink:" : ""}href="#${gid}-s" x="${n.x}" y="${n.y}" ${at.join(" ")}${S}/>`; }
    return `<rect class="${cls}" ${m} x="${n.x}" y="${n.y}" width="${1 + i}" height="7" ${n.kind === "clipped" ? `clip-path="url(#c-${gid})" ` : ""}${at.join(" ")}${S}/>`;
  };
  const inner = roots.map(render).join(""); const blink = d.blink ? `<rect class="tcur-b" data-m="${tag}:blink" x="2" y="2" width="3" height="3"/>` : "";
  if (d.blink) css.push(`.tcur-b{animation:tcurb ${BLINK / 1000}s step-end infinite}@keyframes tcurb{0%{opacity:1}50%{opacity:0}100%{opacity:1}}`);
  const pre = d.vb === 3 ? ' preserveAspectRatio="none"' : d.vb === 4 ? ' preserveAspectRatio="xMidYMid slice"' : ""; const vb = d.vb >= 2 ? `viewBox="-10,5 ${d.w * 2} ${d.h}"${pre}` : d.vb === 1 ? `viewBox="0 0 ${d.w * 2} ${d.h * 2}"` : `viewBox="0 0 ${d.w} ${d.h}"`;
  return { w: d.w, h: d.h, svg: `${d.prolog ? '<?xml version="1.0" encoding="UTF-8"?>\n' : ""}<svg xmlns="http://www.w3.org/2000/svg"${xl ? ' xmlns:xlink="http://www.w3.org/1999/xlink"' : ""} width="${d.w}" height="${d.h}" ${vb}>${d.scene ? `<style>:root{--scene-dur:${dur}s}</style>` : ""}<style>${css.join("\n")}</style><defs>${defs.join("")}</defs><rect data-m="${tag}:full" width="${d.w * (d.vb ? 2 : 1)}" height="${d.h * (d.vb ? 2 : 1)}" fill="white"/>${inner}${blink}</svg>` };
}
// documents made by the animator itself
const genA = fc.record({ frames: fc.array(fc.record({ d: fc.constantFrom(300, 700, 1200), tr: fc.constantFrom("cut", "crossfade", "push-left", "wipe", "iris", "scroll"), td: fc.constantFrom(100, 200), x: fc.integer({ min: 0, max: 60 }), anim: opt(fc.record({ p: fc.constantFrom("opacity", "translateX", "scale"), d: fc.integer({ min: 50, max: 200 }), delay: fc.integer({ min: 0, max: 90 }), easing: fc.constantFrom("linear", "ease-out") })) }), { minLength: 1, maxLength: 3 }) });
function genDoc(g: any, tag: string): { svg: string; w: number; h: number; period: number } {
  const frames = g.frames.map((f: any, i: number) => {
    const tree = [el({ x: f.x, y: 10 * i, width: 30, height: 12, animId: `b${i}`, styles: { backgroundColor: `rgb(${10 + i}, 2, 77)` } })];
    const animations = f.anim ? [{ animId: `b${i}`, property: f.anim.p, from: { opacity: "0.1", translateX: "0px", scale: "1" }[f.anim.p as "scale"], to: { opacity: "0.8", translateX: "33px", scale: "0.5" }[f.anim.p as "scale"], duration: f.anim.d, delay: f.anim.delay, easing: f.anim.easing }] : undefined;
    return { svgContent: elementTreeToSvgInner(tree as any, 120, 80, `f${i}-`), duration: f.d, transition: i === g.frames.length - 1 || f.tr === "cut" ? { type: "cut", duration: 0 } : { type: f.tr, duration: f.td }, animations };
  });
  const svg = generateAnimatedSvg({ width: 120, height: 80, frames } as any);
  let k = 0; const out = svg.replace(/<(rect|path|use|text|circle|ellipse)(?=[\s/>])/g, (w) => `${w} data-m="${tag}:${k++}"`);
  const m = /--scene-dur:\s*([\d.]+)s/.exec(svg);
  return { svg: out, w: 120, h: 80, period: m ? Math.round(Number(m[1]) * 1000) : 0 };
}
const layAnimA = fc.record({ property: fc.constantFrom("scale", "translateX", "translateY", "opacity", "transform", "clipScaleX", "clipScaleY"), a: fc.integer({ min: 0, max: 20 }), b: fc.integer({ min: 0, max: 20 }), s: fc.integer({ min: 0, max: 10 }), d: fc.integer({ min: 1, max: 10 }), nod: fc.constantFrom(false, false, true), easing: opt(fc.constantFrom("linear", "ease-in", "cubic-bezier(0.3,0.1,0.2,1)", "steps(2,end)")), origin: opt(fc.constantFrom("0 0", "center", "50% 50%", "right bottom", "100% 0%", "10px 20px", "top left", "left")) });
const layerA = fc.record({ src: fc.oneof({ weight: 5, arbitrary: docA.map((hand) => ({ hand })) as any }, { weight: 2, arbitrary: genA.map((gen) => ({ gen })) as any }), nest: fc.constantFrom(false, false, false, true), dup: fc.constantFrom(false, false, true), x: opt(fc.integer({ min: -20, max: 200 })), y: opt(fc.integer({ min: -20, max: 200 })), size: opt(fc.tuple(fc.integer({ min: 20, max: 300 }), fc.integer({ min: 20, max: 300 }))), explicit: fc.boolean(), start: fc.constantFrom(0, 0, 300, 1000, 1750), mode: fc.constantFrom(undefined, "hold", "stretch", "loop"), stretch: fc.constantFrom(250, 1000, 3000, undefined), noPeriod: fc.constantFrom(false, false, false, true), clip: fc.boolean(), radius: fc.constantFrom(undefined, 4, 7.5), anims: fc.array(layAnimA, { maxLength: 4 }) });
const compA = fc.record({ layers: fc.array(layerA, { minLength: 1, maxLength: 4, size: "max" }), extra: fc.constantFrom(undefined, 0, 700, 3000), bg: fc.constantFrom(undefined, "transparent", "#123456"), qs: fc.array(fc.integer({ min: 0, max: 250000 }).map((v) => v / 100000), { minLength: 5, maxLength: 7 }) });

const marks = (root: XNode): Map<string, XNode> => { const m = new Map<string, XNode>(); for (const e of walk(root)) { const k = e.attrs.get("data-m"); if (k != null) { ensure(!m.has(k), `leaf ${k} appears twice`); m.set(k, e); } } return m; };
const nums = (s: string | undefined): number[] => (s ?? "").split(/[\s,]+/).filter(Boolean).map(Number);
function ownM(p: Player, e: XNode, t: number, top: XNode): Mat {
  if (e.name === "svg" && e !== top) {
    return vbMap(e, Number(e.attrs.get("x") ?? 0), Number(e.attrs.get("y") ?? 0));
  }
  const tb = p.value(e, "transform-box", t); return p.ownTransform(e, t, tb === "fill-box" ? bbox(p, e, t, top) : undefined);
}
/** Bounding box of a group's rects in its own user space. */
function bbox(p: Player, g: XNode, t: number, top: XNode): { x: number; y: number; w: number; h: number } {
  let x0 = Infinity, y0 = Infinity, x1 = -Infinity, y1 = -Infinity;
  const rec = (e: XNode, m: Mat): void => { for (const c of e.children) if (c.kind === "el" && !["defs", "clipPath", "style", "mask"].includes(c.name)) { const q = mul(m, ownM(p, c, t, top)); if (c.name === "rect") for (const [a, b] of [[0, 0], [1, 0], [0, 1], [1, 1]]) { const [X, Y] = apply(q, Number(c.attrs.get("x") ?? 0) + a * Number(c.attrs.get("width")), Number(c.attrs.get("y") ?? 0) + b * Number(c.attrs.get("height"))); x0 = Math.min(x0, X); y0 = Math.min(y0, Y); x1 = Math.max(x1, X); y1 = Math.max(y1, Y); } rec(c, q); } };
  if (g.name === "rect") return { x: Number(g.attrs.get("x") ?? 0), y: Number(g.attrs.get("y") ?? 0), w: Number(g.attrs.get("width")), h: Number(g.attrs.get("height")) };
  rec(g, I); return x0 === Infinity ? { x: 0, y: 0, w: 0, h: 0 } : { x: x0, y: y0, w: x1 - x0, h: y1 - y0 };
}
function ctm(p: Player, e: XNode, t: number, top: XNode): Mat { let m: Mat = I; for (let q: XNode | null = e; q; q = q.parent) { m = mul(ownM(p, q, t, top), m); if (q === top) break; } return m; }
// a document root's own viewBox mapping (the browser's), for layers whose viewBox is not their size
function rootVb(r: XNode): Mat { return vbMap(r, 0, 0); }
function vbMap(e: XNode, x: number, y: number): Mat {
  const w = Number(e.attrs.get("width")), h = Number(e.attrs.get("height")), vb = nums(e.attrs.get("viewBox")); if (vb.length !== 4) return [1, 0, 0, 1, x, y];
  let sx = w / vb[2], sy = h / vb[3], ox = 0, oy = 0; const par = e.attrs.get("preserveAspectRatio") ?? "xMidYMid meet"; if (!par.startsWith("none")) { const s = /slice/.test(par) ? Math.max(sx, sy) : Math.min(sx, sy); ox = (w - s * vb[2]) / 2; oy = (h - s * vb[3]) / 2; sx = sy = s; }
  return [sx, 0, 0, sy, x + ox - vb[0] * sx, y + oy - vb[1] * sy];
}
function paint(p: Player, e: XNode, t: number): string { for (let q: XNode | null = e; q; q = q.parent) { const v = p.value(q, "fill", t); if (v != null) return v; } return "black"; }
const colorNear = (a: string, b: string): boolean => { const na = a.match(/[\d.]+(?:e-?\d+)?/g) ?? [], nb = b.match(/[\d.]+(?:e-?\d+)?/g) ?? []; return a.replace(/[-\d.e\s]+/g, "") === b.replace(/[-\d.e\s]+/g, "") && na.length === nb.length && na.every((v, i) => Math.abs(Number(v) - Number(nb[i])) < 0.6); };
const urlId = (v: string | undefined): string | undefined => /^url\(["']?#([^"')]+)["']?\)$/.exec(v ?? "")?.[1];
function fontOf(p: Player, e: XNode): string | undefined { for (let q: XNode | null = e; q; q = q.parent) { const f = q.attrs.get("font-family") ?? p.base(q).get("font-family"); if (f) { const faces = p.sheet.fontFaces.filter((d) => d.find((x) => x.prop === "font-family")?.value.replace(/["']/g, "") === f.replace(/["']/g, "")); return [...new Set(faces.map((d) => d.find((x) => x.prop === "src")?.value))].join("|"); } } return undefined; }

interface Src { svg: string; w: number; h: number; period: number; key: string }
let uid = 0;
function source(s: any, tag: string): Src { if (s.hand) { const d = handDoc(s.hand, tag); return { ...d, period: s.hand.period, key: tag }; } const g = genDoc(s.gen, tag); return { ...g, key: tag }; }
const originOf = (o: string | undefined, w: number, h: number): [number, number] => { const kw: Record<string, string> = { left: "0%", right: "100%", top: "0%", bottom: "100%", center: "50%" }; let [a, b] = (o ?? "0 0").split(/\s+/); b = b ?? "center"; if (a === "top" || a === "bottom" || b === "left" || b === "right") [a, b] = [b, a]; const v = (s: string, r: number): number => { const q = kw[s] ?? s; return q.endsWith("%") ? r * parseFloat(q) / 100 : parseFloat(q); }; return [v(a, w), v(b, h)]; };

await runCheck({ id: "C01", parts: [
  { name: "compose", rule: "stacks of one to four animated documents (hand-made with colliding names and hostile text, made by the animator, or themselves stacks), with random places, timelines and layer animations, played at random instants; non-trivial = at least two layers of which one is re-timed or moved",
    arb: compA, runs: { quick: 700, thorough: 40000 },
    prop: (c, ctx) => {
      uid = 0; const metas: any[] = []; let masterWanted = 1;
      const layers = c.layers.map((l: any, i: number) => {
        let src = source(l.dup && metas.length ? c.layers[0].src : l.src, `L${i}`);
        if (l.nest) { const inner2 = composeAnimatedLayers([{ svg: src.svg, periodMs: src.period, x: 5, y: 7 }, { svg: `<svg xmlns="http://www.w3.org/2000/svg" width="10" height="10" viewBox="0 0 10 10"><rect data-m="L${i}:n" width="10" height="10" fill="red"/></svg>`, animations: [{ property: "translateX", from: 0, to: 30, start: 100, duration: 200, easing: "linear" }] }], { width: 210, height: 130, durationMs: Math.max(500, src.period) }); src = { svg: inner2.svg, w: 210, h: 130, period: inner2.durationMs, key: src.key }; ctx.label("nested"); }
        const props = new Map<string, any[]>(); const anims: any[] = [];
        for (const a of l.anims) {
          if (a.property === "transform" && anims.some((x) => ["scale", "transform"].includes(x.property)) || a.property === "scale" && anims.some((x) => x.property === "transform")) continue;
          const prev = props.get(a.property) ?? []; const start = prev.length ? Math.max(...prev.map((p: any) => p.start + p.duration)) + a.s * 100 : a.s * 170; if (prev.some((p: any) => p.nod)) continue;
          const clip = a.property.startsWith("clip"); const val = (v: number): any => a.property === "opacity" ? v / 20 : a.property === "scale" ? 0.2 + v / 10 : clip ? 0.1 + v / 25 : a.property === "transform" ? `translate(${v}px, 3px) rotate(${v * 2}deg)` : v % 2 ? v * 3 : `${v * 3}px`;
          const o: any = { property: a.property, from: val(a.a), to: val(a.b), start, duration: a.d * 130, easing: a.easing, nod: a.nod, ...(a.property === "opacity" ? {} : { transformOrigin: clip ? ["left", "center", "25%", "10px", "right"][a.a % 5].replace("left", a.property === "clipScaleX" ? "left" : "top").replace("right", a.property === "clipScaleX" ? "right" : "bottom") : a.origin }) };
          prev.push(o); props.set(a.property, prev); anims.push(o);
        }
        const mode = l.mode ?? "hold"; const period = l.noPeriod ? 0 : src.period; const win = mode === "stretch" ? (l.stretch ?? period) : period;
        let end = l.start + (mode === "loop" ? period : win); for (const a of anims) end = Math.max(end, a.start + (a.nod ? 0 : a.duration)); masterWanted = Math.max(masterWanted, end);
        const w = l.size ? l.size[0] : src.w, h = l.size ? l.size[1] : src.h, x = l.x ?? 0, y = l.y ?? 0;
        metas.push({ src, isGen: !!(l.dup && metas.length > 0 ? c.layers[0].src : l.src).gen, l, mode, period, win, anims, w, h, x, y, props });
        return { svg: src.svg, ...(l.noPeriod ? {} : { periodMs: src.period }), ...(l.explicit ? { contentWidth: src.w, contentHeight: src.h } : {}), x: l.x, y: l.y, ...(l.size ? { width: w, height: h } : {}), start: l.start || undefined, mode: l.mode, ...(mode === "stretch" ? { duration: l.stretch } : {}), clip: l.clip || undefined, clipRadius: l.radius, animations: anims.map(({ nod, ...a }) => (nod ? { ...a, duration: undefined } : a)) };
      });
      const durationMs = c.extra == null ? undefined : Math.ceil(masterWanted) + c.extra; const W = 400, H = 300;
      const r = composeAnimatedLayers(layers as any, { width: W, height: H, durationMs, background: c.bg });
      const M = durationMs ?? Math.max(1, Math.ceil(masterWanted)); same(r.durationMs, M, "loop length"); same(r.warnings, undefined, "warnings");
      const root = parseXml(r.svg); const rep = idReport(root); same(rep.duplicates, [], "duplicate ids"); same(rep.dangling, [], "dangling references");
      same([root.attrs.get("width"), root.attrs.get("height"), root.attrs.get("viewBox")], [String(W), String(H), `0 0 ${W} ${H}`], "canvas");
      const P = new Player(root); const got = marks(root); const byId = new Map<string, XNode>(); for (const e of walk(root)) { const id = e.attrs.get("id"); if (id) byId.set(id, e); }
      same(P.sheet.allKeyframes.length, new Set(P.sheet.allKeyframes.map((k) => k.name)).size, "keyframes of the same name");
      const fills = [...walk(root)].filter((e) => e.name === "rect" && e.parent === root); if (c.bg === "#123456") ensure(fills.length === 1 && fills[0].attrs.get("fill") === c.bg && Number(fills[0].attrs.get("width")) === W && Number(fills[0].attrs.get("height")) === H && fills[0].pos < Math.min(...[...got.values()].map((e) => e.pos)), "background"); else same(fills.length, 0, "background rects");
      let retimed = 0; const order: number[] = [];
      for (const [li, mt] of metas.entries()) {
        const own = parseXml(mt.src.svg); const PL = new Player(own); const mine = marks(own); const ownById = new Map<string, XNode>(); for (const e of walk(own)) { const id = e.attrs.get("id"); if (id) ownById.set(id, e); }
        order.push(Math.min(...[...mine.keys()].map((k) => got.get(k)?.pos ?? -1))); order.push(Math.max(...[...mine.keys()].map((k) => got.get(k)?.pos ?? -1)));
        const V = rootVb(own); const place: Mat = mul([mt.w / mt.src.w, 0, 0, mt.h / mt.src.h, mt.x, mt.y], V);
        // what does not depend on time
        for (const [k, e] of mine) {
          const g = got.get(k); ensure(g, `leaf ${k} of layer ${li} is gone`);
          if (e.name === "text") same(textContent(g), textContent(e), `text of ${k}`);
          if (e.name === "text") same(fontOf(P, g), fontOf(PL, e), `font of ${k}`);
          for (const a of ["x", "y", "width", "height", "r", "d", "points"]) if (e !== own) same(g.attrs.get(a), e.attrs.get(a), `${a} of ${k}`);
          for (const a of ["href", "xlink:href"]) { const ref = e.attrs.get(a); if (ref?.startsWith("#")) { const tgt = byId.get((g.attrs.get(a) ?? "").slice(1)); same(tgt?.attrs.get("data-m"), ownById.get(ref.slice(1))?.attrs.get("data-m"), `what ${k} refers to`); } }
          const cp = urlId(e.attrs.get("clip-path")); if (cp) { const a = byId.get(urlId(g.attrs.get("clip-path")) ?? ""), b = ownById.get(cp); const mk = (n?: XNode): any => n && [...walk(n)].map((z) => z.attrs.get("data-m")).filter(Boolean); same(mk(a), mk(b), `clip of ${k}`); }
        }
        for (const q of c.qs) {
          const t = q * M, tm = t - Math.floor(t / M) * M;
          // layer motion
          const val = (list: any[] | undefined, interp: (f: any, to: any, p: number) => any, none: any): any => { if (!list?.length) return none; const s = [...list].sort((a, b) => a.start - b.start); let k = 0; for (let z = 0; z < s.length; z++) if (s[z].start <= tm) k = z; const a = s[k]; const d = a.nod ? M - a.start : a.duration; const p = tm <= a.start ? 0 : tm >= a.start + d ? 1 : (tm - a.start) / d; return interp(a.from, a.to, p >= 1 ? 1 : p <= 0 ? 0 : parseEasing(a.easing ?? "ease")!(p)); };
          const pxv = (v: any): number => typeof v === "number" ? v : parseFloat(v); const lin = (f: any, to: any, p: number): number => pxv(f) + (pxv(to) - pxv(f)) * p;
          const edge = mt.anims.some((a: any) => [a.start, a.start + (a.nod ? M - a.start : a.duration)].some((z) => Math.abs(tm - z) < 0.02) || a.easing?.startsWith("steps") && Math.abs(tm - a.start - a.duration / 2) < 0.02) || tm < 0.02 || M - tm < 0.02; if (edge) continue;
          const tx = val(mt.props.get("translateX"), lin, 0), ty = val(mt.props.get("translateY"), lin, 0), sc = val(mt.props.get("scale"), lin, 1), op = val(mt.props.get("opacity"), lin, 1), raw = val(mt.props.get("transform"), (f, to, p) => lerpTransform(f, to, p), "none");
          const about = (list: any[] | undefined, m: Mat): Mat => { if (!list?.length) return m; const [ox, oy] = originOf(list[0].transformOrigin, mt.w, mt.h); return mul(mul([1, 0, 0, 1, mt.x + ox, mt.y + oy], m), [1, 0, 0, 1, -mt.x - ox, -mt.y - oy]); };
          const sameOrigin = (p: string): boolean => new Set((mt.props.get(p) ?? []).map((a: any) => a.transformOrigin)).size <= 1; if (!sameOrigin("scale") || !sameOrigin("transform")) continue;
          const A = mul(mul([1, 0, 0, 1, tx, ty], about(mt.props.get("transform"), matOf(parseTransform(raw)))), about(mt.props.get("scale"), [sc, 0, 0, sc, 0, 0]));
          // content time
          const last = 1 - (mt.isGen ? 1.5e-5 : 1e-9); const local = (d: number): number => { const z = tm + d; if (mt.period === 0) return t + d; if (mt.mode === "loop") return t + d < mt.l.start ? 0 : mt.l.start > 0 ? t + d - mt.l.start : t + d; if (z <= mt.l.start) return 0; if (z >= mt.l.start + mt.win) return mt.period * last; return Math.min(mt.period * last, (z - mt.l.start) * mt.period / mt.win); };
          if (mt.period > 0 && (mt.l.start > 0 || mt.win !== M)) retimed++;
          for (const [k, e] of mine) {
            if (e.parent?.name === "clipPath" || e.parent?.name === "defs" || e.parent?.name === "mask" || e.name === "linearGradient") continue;
            const g = got.get(k)!; const free = k.endsWith(":blink") && mt.period > 0 && Math.abs(BLINK - mt.period) > 20;
            const ts = [-0.06, 0, 0.06].map((d) => (free ? t + d : local(d)));
            const eo = ts.map((z) => PL.effectiveOpacity(e, z) * op), go = P.effectiveOpacity(g, t); const where = (): string => `${k} at ${t} ms (own time ${ts[1]})`;
            ensure(go >= Math.min(...eo) - 0.003 && go <= Math.max(...eo) + 0.003, () => `opacity of ${where()}: ${go}, expected ${eo[1]}`);
            const gm = ctm(P, g, t, root), ems = ts.map((z) => mul(A, mul(place, ctm(PL, e, z, own))));
            for (const [px, py] of [[0, 0], [20, 10]]) { const gp = apply(gm, px, py), eps = ems.map((m) => apply(m, px, py)); for (const ax of [0, 1]) { const lo = Math.min(...eps.map((p) => p[ax])), hi = Math.max(...eps.map((p) => p[ax])); ensure(gp[ax] >= lo - 0.05 && gp[ax] <= hi + 0.05, () => `${where()}: point (${px},${py}) is at ${gp}, expected ${eps[1]}`); } }
            const gf = paint(P, g, t), efs = ts.map((z) => paint(PL, e, z)); const u = urlId(gf); if (u) same(byId.get(u)?.attrs.get("data-m"), ownById.get(urlId(efs[1]) ?? "")?.attrs.get("data-m"), `gradient of ${where()}`); else ensure(efs.some((f) => colorNear(f, gf)), () => `paint of ${where()}: ${gf}, expected ${efs[1]}`);
          }
          // clips carried by the layer
          const leaf = got.get(`${mt.src.key}:full`) ?? got.get(`${mt.src.key}:0`) ?? [...mine.keys()].map((k) => got.get(k)!).find((g) => g.parent?.name !== "clipPath"); if (!leaf) continue;
          const regions: [number, number, number, number, number][] = []; let lg: XNode = leaf; while (lg.parent && lg.parent !== root) lg = lg.parent;
          for (let g: XNode | null = leaf, past = false; g && g !== root; g = g.parent) { if (g.name === "svg" && Number(g.attrs.get("width")) !== undefined && !past) { past = [...walk(lg)].find((z) => z.name === "svg") === g; continue; } if (!past) continue; const id = urlId(g.attrs.get("clip-path")); if (!id) continue; const cpn = byId.get(id)!; const rc = [...walk(cpn)].find((z) => z.name === "rect")!; const m = P.ownTransform(rc, t); const x0 = Number(rc.attrs.get("x")), y0 = Number(rc.attrs.get("y")); const p0 = apply(m, x0, y0), p1 = apply(m, x0 + Number(rc.attrs.get("width")), y0 + Number(rc.attrs.get("height"))); regions.push([p0[0], p0[1], p1[0], p1[1], Number(rc.attrs.get("rx") ?? 0)]); }
          const sx = val(mt.props.get("clipScaleX"), lin, 1), sy = val(mt.props.get("clipScaleY"), lin, 1); const hasClip = mt.l.clip || mt.props.has("clipScaleX") || mt.props.has("clipScaleY");
          if (!hasClip) { same(regions.length, 0, `clips on layer ${li}`); continue; }
          const one = (p: string): boolean => new Set((mt.props.get(p) ?? []).map((a: any) => a.transformOrigin)).size <= 1; if (!one("clipScaleX") || !one("clipScaleY")) continue;
          const ax = (p: string, base: number, size: number, s: number): [number, number] => { const l = mt.props.get(p); if (!l) return [base, base + size]; const o = originOf(l[0].transformOrigin + (p === "clipScaleX" ? " top" : " left"), size, size); const ov = p === "clipScaleX" ? o[0] : originOf("left " + l[0].transformOrigin, size, size)[1]; return [base + ov - ov * s, base + ov + (size - ov) * s]; };
          const ex = ax("clipScaleX", mt.x, mt.w, sx), ey = ax("clipScaleY", mt.y, mt.h, sy); const EX = mt.l.clip ? [Math.max(ex[0], mt.x), Math.min(ex[1], mt.x + mt.w)] : ex, EY = mt.l.clip ? [Math.max(ey[0], mt.y), Math.min(ey[1], mt.y + mt.h)] : ey;
          const X = [Math.max(...regions.map((z) => z[0])), Math.min(...regions.map((z) => z[2]))], Y = [Math.max(...regions.map((z) => z[1])), Math.min(...regions.map((z) => z[3]))];
          ensure(regions.length > 0, `layer ${li} lost its clip`); for (const [a, b] of [[X, EX], [Y, EY]]) for (const z of [0, 1]) near(a[z], b[z], 0.05, () => `visible box of layer ${li} at ${t} ms (${show(regions)})`);
          for (const z of regions) same(z[4], mt.l.radius ?? 0, `corner radius of layer ${li}`);
        }
      }
      for (let i = 1; i < order.length; i++) ensure(order[i] > order[i - 1] || i % 2 === 1 && order[i] >= order[i - 1], "layers are out of stacking order");
      ctx.hit(metas.length >= 2 && retimed > 0 || metas.some((m) => m.anims.length > 0)); if (retimed) ctx.label("retimed"); for (const m of metas) { ctx.label(m.mode); if (m.anims.length > 1) ctx.label("several animations"); }
    } },
] });
