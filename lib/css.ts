// Minimal CSS reader + a browser-independent CSS animation evaluator. Written
// from the CSS specifications (css-syntax, css-animations-1, css-easing-2,
// css-transforms-1); shares nothing with the code under test.
import { type XNode, walk, textContent, classes, els } from "./xml.ts";

export class CssError extends Error {}
export interface Decl { prop: string; value: string; important: boolean }
export interface Rule { selectors: string[]; decls: Decl[]; order: number }
export interface Stop { offset: number; decls: Decl[] }
export interface Keyframes { name: string; stops: Stop[] }
export interface Sheet { rules: Rule[]; keyframes: Map<string, Keyframes>; allKeyframes: Keyframes[]; fontFaces: Decl[][]; media: { query: string; sheet: Sheet }[] }

function skipString(s: string, i: number): number { const q = s[i]; i++; while (i < s.length && s[i] !== q) { if (s[i] === "\\") i++; i++; } return i + 1; }
export function splitTop(s: string, sep: string): string[] {
  const out: string[] = []; let d = 0, st = 0;
  for (let i = 0; i < s.length; i++) {
    const c = s[i];
    if (c === '"' || c === "'") { i = skipString(s, i) - 1; continue; }
    if (c === "(" || c === "[") d++; else if (c === ")" || c === "]") d--;
    else if (d === 0 && (sep === " " ? /\s/.test(c) : c === sep)) { out.push(s.slice(st, i)); st = i + 1; }
  }
  out.push(s.slice(st));
  const t = out.map((x) => x.trim());
  return sep === " " ? t.filter((x) => x !== "") : t;
}
export function parseDecls(body: string): Decl[] {
  const out: Decl[] = [];
  for (const d of splitTop(body, ";")) {
    if (d === "") continue;
    const c = d.indexOf(":");
    if (c <= 0) throw new CssError(`malformed declaration ${JSON.stringify(d.slice(0, 120))}`);
    const prop = d.slice(0, c).trim();
    if (!/^-{0,2}[A-Za-z_][\w-]*$/.test(prop)) throw new CssError(`bad property name ${JSON.stringify(prop.slice(0, 80))}`);
    let value = d.slice(c + 1).trim(); let important = false;
    const m = /\s*!\s*important$/i.exec(value); if (m) { important = true; value = value.slice(0, m.index); }
    out.push({ prop: prop.startsWith("--") ? prop : prop.toLowerCase(), value, important });
  }
  return out;
}
export function parseSheet(css: string, into?: Sheet): Sheet {
  const sheet: Sheet = into ?? { rules: [], keyframes: new Map(), allKeyframes: [], fontFaces: [], media: [] };
  let s = "";
  for (let i = 0; i < css.length; i++) { // strip comments outside strings
    if (css[i] === '"' || css[i] === "'") { const e = skipString(css, i); s += css.slice(i, e); i = e - 1; continue; }
    if (css[i] === "/" && css[i + 1] === "*") { const e = css.indexOf("*/", i + 2); if (e < 0) throw new CssError("unterminated comment"); i = e + 1; s += " "; continue; }
    s += css[i];
  }
  let i = 0;
  const block = (from: number): number => { let d = 0; for (let j = from; j < s.length; j++) { const c = s[j]; if (c === '"' || c === "'") { j = skipString(s, j) - 1; continue; } if (c === "{") d++; else if (c === "}") { d--; if (d === 0) return j; } } throw new CssError(`unbalanced block: ${s.slice(from, from + 80)}`); };
  while (i < s.length) {
    if (/\s/.test(s[i])) { i++; continue; }
    let j = i; while (j < s.length && s[j] !== "{" && s[j] !== ";" && s[j] !== "}") { if (s[j] === '"' || s[j] === "'") { j = skipString(s, j); continue; } if (s[j] === "(") { let d = 1; j++; while (j < s.length && d > 0) { if (s[j] === "(") d++; else if (s[j] === ")") d--; j++; } continue; } j++; }
    if (s[j] === "}") throw new CssError(`stray '}' after ${JSON.stringify(s.slice(Math.max(0, j - 60), j))}`);
    const prelude = s.slice(i, j).trim();
    if (s[j] === ";" || j >= s.length) { if (prelude !== "" && !prelude.startsWith("@")) throw new CssError(`stray text ${JSON.stringify(prelude.slice(0, 100))}`); i = j + 1; continue; }
    const e = block(j); const body = s.slice(j + 1, e); i = e + 1;
    if (/^@(-webkit-)?keyframes\s/i.test(prelude)) {
      const name = prelude.replace(/^@\S+\s+/, "").replace(/^["']|["']$/g, "");
      const kf: Keyframes = { name, stops: [] };
      const inner = parseSheetRules(body);
      for (const r of inner) for (const sel of r.selectors) {
        const o = sel.toLowerCase() === "from" ? 0 : sel.toLowerCase() === "to" ? 100 : /^[+-]?(\d+\.?\d*|\.\d+)(e[+-]?\d+)?%$/i.test(sel) ? parseFloat(sel) : NaN;
        if (!(o >= 0 && o <= 100)) throw new CssError(`@keyframes ${name}: bad offset ${JSON.stringify(sel)}`);
        kf.stops.push({ offset: o / 100, decls: r.decls });
      }
      sheet.allKeyframes.push(kf); sheet.keyframes.set(name, kf);
    } else if (/^@font-face/i.test(prelude)) sheet.fontFaces.push(parseDecls(body));
    else if (/^@media/i.test(prelude)) sheet.media.push({ query: prelude.slice(6).trim(), sheet: parseSheet(body) });
    else if (prelude.startsWith("@")) { /* other at-rules ignored */ }
    else sheet.rules.push({ selectors: splitTop(prelude, ","), decls: parseDecls(body), order: sheet.rules.length });
  }
  return sheet;
}
function parseSheetRules(body: string): Rule[] { return parseSheet(body).rules; }

// ── selectors ────────────────────────────────────────────────────────────────
function matchCompound(el: XNode, c: string, root: XNode): boolean {
  const toks = c.match(/(\*|:root|[.#][^.#:[\s]+|\[[^\]]+\]|::?[\w-]+(\([^)]*\))?|[A-Za-z][\w-]*)/g);
  if (!toks || toks.join("") !== c) return false;
  for (const t of toks) {
    if (t === "*") continue;
    if (t === ":root") { if (el !== root) return false; }
    else if (t[0] === ".") { if (!classes(el).includes(t.slice(1))) return false; }
    else if (t[0] === "#") { if (el.attrs.get("id") !== t.slice(1)) return false; }
    else if (t[0] === "[") { const m = /^\[([\w:-]+)(?:=["']?([^"'\]]*)["']?)?\]$/.exec(t); if (!m) return false; if (!el.attrs.has(m[1])) return false; if (m[2] != null && el.attrs.get(m[1]) !== m[2]) return false; }
    else if (t[0] === ":") return false;
    else if (el.name !== t) return false;
  }
  return true;
}
export function matches(el: XNode, sel: string, root: XNode): boolean {
  const parts = sel.replace(/\s*>\s*/g, " > ").split(/\s+/).filter(Boolean);
  const rec = (e: XNode | null, k: number): boolean => {
    if (e == null || !matchCompound(e, parts[k], root)) return false;
    if (k === 0) return true;
    if (parts[k - 1] === ">") return rec(e.parent, k - 2);
    for (let a = e.parent; a; a = a.parent) if (rec(a, k - 1)) return true;
    return false;
  };
  return rec(el, parts.length - 1);
}
function specificity(sel: string): number {
  const ids = (sel.match(/#[\w-]+/g) ?? []).length, cls = (sel.match(/\.[\w-]+|\[[^\]]+\]|:(?!:)[\w-]+/g) ?? []).length, t = (sel.match(/(^|[\s>])[A-Za-z]/g) ?? []).length;
  return ids * 1e6 + cls * 1e3 + t;
}

// ── easing ───────────────────────────────────────────────────────────────────
export type Ease = (p: number, before?: boolean) => number;
export function bezier(x1: number, y1: number, x2: number, y2: number): Ease {
  const f = (a: number, b: number, u: number): number => 3 * (1 - u) * (1 - u) * u * a + 3 * (1 - u) * u * u * b + u * u * u;
  return (x) => {
    if (x <= 0) return 0; if (x >= 1) return 1;
    let lo = 0, hi = 1;
    for (let k = 0; k < 60; k++) { const m = (lo + hi) / 2; if (f(x1, x2, m) < x) lo = m; else hi = m; }
    return f(y1, y2, (lo + hi) / 2);
  };
}
export function steps(n: number, pos: string): Ease {
  const p = pos === "start" ? "jump-start" : pos === "end" || pos === "" ? "jump-end" : pos;
  const jumps = p === "jump-none" ? n - 1 : p === "jump-both" ? n + 1 : n;
  return (x, before) => {
    let cur = Math.floor(x * n + 1e-12);
    if (p === "jump-start" || p === "jump-both") cur++;
    if (before && Number.isInteger(x * n)) cur--;
    if (x >= 0 && cur < 0) cur = 0;
    if (x <= 1 && cur > jumps) cur = jumps;
    return cur / jumps;
  };
}
const NUM = "[+-]?(?:\\d+\\.?\\d*|\\.\\d+)(?:e[+-]?\\d+)?";
export function parseEasing(s: string): Ease | null {
  const v = s.trim().toLowerCase();
  switch (v) {
    case "linear": return (p) => p;
    case "ease": return bezier(0.25, 0.1, 0.25, 1);
    case "ease-in": return bezier(0.42, 0, 1, 1);
    case "ease-out": return bezier(0, 0, 0.58, 1);
    case "ease-in-out": return bezier(0.42, 0, 0.58, 1);
    case "step-start": return steps(1, "jump-start");
    case "step-end": return steps(1, "jump-end");
  }
  let m = new RegExp(`^cubic-bezier\\(\\s*(${NUM})\\s*,\\s*(${NUM})\\s*,\\s*(${NUM})\\s*,\\s*(${NUM})\\s*\\)$`).exec(v);
  if (m) { const [a, b, c, d] = m.slice(1).map(Number); if (a < 0 || a > 1 || c < 0 || c > 1) return null; return bezier(a, b, c, d); }
  m = /^steps\(\s*(\d+)\s*(?:,\s*(jump-start|jump-end|jump-none|jump-both|start|end)\s*)?\)$/.exec(v);
  if (m) { const n = Number(m[1]); if (n < 1 || (m[2] === "jump-none" && n < 2)) return null; return steps(n, m[2] ?? ""); }
  m = /^linear\((.*)\)$/s.exec(v);
  if (m) {
    const pts: { o: number; i: number | null }[] = [];
    for (const part of splitTop(m[1], ",")) {
      const toks = part.split(/\s+/); const num = toks.filter((t) => !t.endsWith("%")); const pc = toks.filter((t) => t.endsWith("%"));
      if (num.length !== 1 || pc.length > 2 || Number.isNaN(Number(num[0]))) return null;
      if (pc.length === 0) pts.push({ o: Number(num[0]), i: null }); else for (const p of pc) pts.push({ o: Number(num[0]), i: parseFloat(p) / 100 });
    }
    if (pts.length < 2) return null;
    if (pts[0].i == null) pts[0].i = 0; if (pts[pts.length - 1].i == null) pts[pts.length - 1].i = 1;
    let mx = -Infinity; for (const p of pts) if (p.i != null) { p.i = Math.max(p.i, mx); mx = p.i; }
    for (let k = 0; k < pts.length; k++) if (pts[k].i == null) { let e = k; while (pts[e].i == null) e++; const a = pts[k - 1].i!, b = pts[e].i!; for (let q = k; q < e; q++) pts[q].i = a + (b - a) * (q - k + 1) / (e - k + 1); }
    return (p) => {
      let k = 0; for (let q = 0; q < pts.length; q++) if (pts[q].i! <= p) k = q;
      if (k === pts.length - 1) k--;
      const a = pts[k], b = pts[k + 1]; if (a.i === b.i) return b.o;
      return a.o + (b.o - a.o) * (p - a.i!) / (b.i! - a.i!);
    };
  }
  return null;
}

// ── values ───────────────────────────────────────────────────────────────────
const TOK = new RegExp(`(${NUM})`, "g");
const HEX = /#([0-9a-f]{3,8})\b/gi;
function expandHex(s: string): string {
  return s.replace(HEX, (w, h: string) => { if (![3, 4, 6, 8].includes(h.length)) return w; const f = h.length <= 4 ? [...h].map((c) => c + c).join("") : h; const n = (k: number): number => parseInt(f.slice(k, k + 2), 16); return `rgba(${n(0)},${n(2)},${n(4)},${f.length === 8 ? n(6) / 255 : 1})`; });
}
export function lerpGeneric(a: string, b: string, p: number): string {
  if (a === b) return a;
  const rgba = (v: string): string => expandHex(v).replace(/rgba?\(([^)]*)\)/g, (_, x: string) => { const c = x.split(/[\s,/]+/).filter(Boolean); return `rgba(${c.length === 3 ? [...c, 1].join(",") : c.join(",")})`; });
  let ea = expandHex(a), eb = expandHex(b); if (/rgba/.test(ea) !== /rgba/.test(eb)) { ea = rgba(a); eb = rgba(b); }
  // unitless zero adapts to the unit it meets
  const sa = ea.split(TOK), sb = eb.split(TOK);
  if (sa.length !== sb.length) return p < 0.5 ? a : b;
  let out = "";
  for (let i = 0; i < sa.length; i++) {
    if (i % 2 === 1) out += String(Number(sa[i]) + (Number(sb[i]) - Number(sa[i])) * p);
    else {
      if (sa[i] !== sb[i]) {
        const ua = /^(px|%|em|deg)?/.exec(sa[i])![0], ub = /^(px|%|em|deg)?/.exec(sb[i])![0];
        const ra = sa[i].slice(ua.length), rb = sb[i].slice(ub.length);
        const za = i > 0 && Number(sa[i - 1]) === 0 && ua === "", zb = i > 0 && Number(sb[i - 1]) === 0 && ub === "";
        if (ra === rb && (za || zb)) { out += (ua || ub) + ra; continue; }
        return p < 0.5 ? a : b;
      }
      out += sa[i];
    }
  }
  return out;
}
export type Mat = [number, number, number, number, number, number];
export const I: Mat = [1, 0, 0, 1, 0, 0];
export const mul = (m: Mat, n: Mat): Mat => [m[0] * n[0] + m[2] * n[1], m[1] * n[0] + m[3] * n[1], m[0] * n[2] + m[2] * n[3], m[1] * n[2] + m[3] * n[3], m[0] * n[4] + m[2] * n[5] + m[4], m[1] * n[4] + m[3] * n[5] + m[5]];
export const apply = (m: Mat, x: number, y: number): [number, number] => [m[0] * x + m[2] * y + m[4], m[1] * x + m[3] * y + m[5]];
export function invert(m: Mat): Mat | null { const d = m[0] * m[3] - m[1] * m[2]; if (Math.abs(d) < 1e-12) return null; return [m[3] / d, -m[1] / d, -m[2] / d, m[0] / d, (m[2] * m[5] - m[3] * m[4]) / d, (m[1] * m[4] - m[0] * m[5]) / d]; }
export interface TFn { fn: string; args: string[] }
export function parseTransform(s: string): TFn[] {
  const v = s.trim(); if (v === "" || v === "none") return [];
  const out: TFn[] = []; const re = /([A-Za-z0-9]+)\s*\(([^()]*)\)\s*,?\s*/y; let i = 0;
  while (i < v.length) { re.lastIndex = i; const m = re.exec(v); if (!m) throw new CssError(`bad transform ${JSON.stringify(v.slice(0, 200))}`); out.push({ fn: m[1], args: m[2].split(/[\s,]+/).filter(Boolean) }); i = re.lastIndex; }
  return out;
}
const len = (a: string | undefined, ref: number): number => {
  if (a == null) return 0;
  const m = new RegExp(`^(${NUM})(px|%|em)?$`, "i").exec(a); if (!m) throw new CssError(`bad length ${a}`);
  return m[2] === "%" ? Number(m[1]) / 100 * ref : Number(m[1]);
};
const ang = (a: string): number => { const m = new RegExp(`^(${NUM})(deg|rad|turn|grad)?$`, "i").exec(a); if (!m) throw new CssError(`bad angle ${a}`); const n = Number(m[1]); return m[2] === "rad" ? n : m[2] === "turn" ? n * 2 * Math.PI : m[2] === "grad" ? n * Math.PI / 200 : n * Math.PI / 180; };
const num = (a: string): number => { const m = new RegExp(`^(${NUM})(%)?$`).exec(a); if (!m) throw new CssError(`bad number ${a}`); return m[2] ? Number(m[1]) / 100 : Number(m[1]); };
export function matOf(list: TFn[], ref: { w: number; h: number } = { w: 0, h: 0 }): Mat {
  let m: Mat = I;
  for (const { fn, args: a } of list) {
    const f = fn.toLowerCase();
    let n: Mat;
    if (f === "translate") n = [1, 0, 0, 1, len(a[0], ref.w), len(a[1], ref.h)];
    else if (f === "translatex") n = [1, 0, 0, 1, len(a[0], ref.w), 0];
    else if (f === "translatey") n = [1, 0, 0, 1, 0, len(a[0], ref.h)];
    else if (f === "translate3d") n = [1, 0, 0, 1, len(a[0], ref.w), len(a[1], ref.h)];
    else if (f === "scale") n = [num(a[0]), 0, 0, a[1] != null ? num(a[1]) : num(a[0]), 0, 0];
    else if (f === "scalex") n = [num(a[0]), 0, 0, 1, 0, 0];
    else if (f === "scaley") n = [1, 0, 0, num(a[0]), 0, 0];
    else if (f === "rotate") { const t = ang(a[0]); n = [Math.cos(t), Math.sin(t), -Math.sin(t), Math.cos(t), 0, 0]; if (a.length === 3) { const [cx, cy] = [len(a[1], 0), len(a[2], 0)]; n = mul(mul([1, 0, 0, 1, cx, cy], n), [1, 0, 0, 1, -cx, -cy]); } }
    else if (f === "skewx") n = [1, 0, Math.tan(ang(a[0])), 1, 0, 0];
    else if (f === "skewy") n = [1, Math.tan(ang(a[0])), 0, 1, 0, 0];
    else if (f === "skew") n = [1, a[1] != null ? Math.tan(ang(a[1])) : 0, Math.tan(ang(a[0])), 1, 0, 0];
    else if (f === "matrix") n = a.map(Number) as Mat;
    else throw new CssError(`transform function ${fn} not supported by the evaluator`);
    m = mul(m, n);
  }
  return m;
}
const identityOf = (t: TFn): TFn => { const f = t.fn.toLowerCase(); return { fn: t.fn, args: f.startsWith("scale") ? t.args.map(() => "1") : f === "matrix" ? ["1", "0", "0", "1", "0", "0"] : t.args.map((x) => lerpGeneric(x, x, 0).replace(new RegExp(NUM), "0")) }; };
export function lerpTransform(a: string, b: string, p: number): string {
  let A = parseTransform(a), B = parseTransform(b);
  if (A.length === 0 && B.length === 0) return "none";
  if (A.length === 0) A = B.map(identityOf); else if (B.length === 0) B = A.map(identityOf);
  const str = (l: TFn[]): string => l.map((t) => `${t.fn}(${t.args.join(",")})`).join(" ");
  if (A.length === B.length && A.every((t, i) => t.fn.toLowerCase() === B[i].fn.toLowerCase())) {
    return A.map((t, i) => {
      const f = t.fn.toLowerCase(); const dflt = f === "scale" ? undefined : "0";
      const n = Math.max(t.args.length, B[i].args.length);
      const args: string[] = [];
      for (let k = 0; k < n; k++) { const x = t.args[k] ?? (dflt ?? t.args[0]), y = B[i].args[k] ?? (dflt ?? B[i].args[0]); args.push(lerpGeneric(x, y, p)); }
      return `${t.fn}(${args.join(",")})`;
    }).join(" ");
  }
  const ma = matOf(A), mb = matOf(B);
  // both axis-aligned (scale+translate): componentwise is exact under matrix interpolation
  if (ma[1] === 0 && ma[2] === 0 && mb[1] === 0 && mb[2] === 0) return `matrix(${ma.map((x, i) => x + (mb[i] - x) * p).join(",")})`;
  return p < 0.5 ? str(A) : str(B);
}
export function lerpProp(prop: string, a: string, b: string, p: number): string {
  if (a === b) return a;
  if (prop === "transform") return lerpTransform(a, b, p);
  if (prop === "visibility") { if (a === b) return a; if (a === "visible" || b === "visible") return p <= 0 ? a : p >= 1 ? b : "visible"; return p < 0.5 ? a : b; }
  if (prop === "display") return p < 0.5 ? a : b;
  return lerpGeneric(a, b, p);
}

// ── animations ───────────────────────────────────────────────────────────────
export interface Anim { name: string; dur: number; delay: number; iter: number; dir: string; fill: string; ease: Ease; easeText: string }
export function parseAnimation(v: string): Anim[] {
  const out: Anim[] = [];
  for (const part of splitTop(v, ",")) {
    if (part === "none" || part === "") continue;
    const a: Anim = { name: "", dur: 0, delay: 0, iter: 1, dir: "normal", fill: "none", ease: bezier(0.25, 0.1, 0.25, 1), easeText: "ease" };
    let times = 0;
    for (const t of splitTop(part, " ")) {
      const tm = new RegExp(`^(${NUM})(ms|s)$`, "i").exec(t);
      if (tm) { const ms = Number(tm[1]) * (tm[2].toLowerCase() === "s" ? 1000 : 1); if (times === 0) { if (ms < 0) throw new CssError(`negative animation duration in ${part}`); a.dur = ms; } else if (times === 1) a.delay = ms; else throw new CssError(`three times in animation ${part}`); times++; continue; }
      const e = parseEasing(t); if (e) { a.ease = e; a.easeText = t; continue; }
      if (t === "infinite") { a.iter = Infinity; continue; }
      if (/^\d*\.?\d+$/.test(t)) { a.iter = Number(t); continue; }
      if (/^(normal|reverse|alternate|alternate-reverse)$/.test(t)) { a.dir = t; continue; }
      if (/^(forwards|backwards|both)$/.test(t)) { a.fill = t; continue; }
      if (/^(running|paused)$/.test(t)) continue;
      if (/^-?[A-Za-z_][\w-]*$|^--[\w-]+$/.test(t)) { if (a.name !== "") throw new CssError(`two names in animation ${JSON.stringify(part)}`); a.name = t; continue; }
      throw new CssError(`cannot read ${JSON.stringify(t)} in animation ${JSON.stringify(part)}`);
    }
    if (a.name) out.push(a);
  }
  return out;
}
/** Directed progress of `a` at time t (ms), or null when it has no effect. */
export function progressAt(a: Anim, t: number): { p: number; before: boolean } | null {
  const active = a.dur * a.iter;
  const local = t - a.delay;
  let phase: "before" | "active" | "after" = local < 0 ? "before" : local >= active && a.iter !== Infinity ? "after" : "active";
  if (a.dur === 0) phase = local < 0 ? "before" : "after";
  if (phase === "before" && a.fill !== "backwards" && a.fill !== "both") return null;
  if (phase === "after" && a.fill !== "forwards" && a.fill !== "both") return null;
  let overall = phase === "before" ? 0 : phase === "after" ? a.iter : local / a.dur;
  let idx = Math.floor(overall), p = overall - idx;
  if (phase === "after" && p === 0 && a.iter > 0) { p = 1; idx = idx - 1; }
  const rev = a.dir === "reverse" || (a.dir === "alternate" && idx % 2 === 1) || (a.dir === "alternate-reverse" && idx % 2 === 0);
  return { p: rev ? 1 - p : p, before: rev ? phase === "after" : phase === "before" };
}
/** Value of every property keyframes `kf` sets, at directed progress p. `base` gives the underlying value. */
export function sampleKeyframes(kf: Keyframes, p: number, ease: Ease, base: (prop: string) => string, before = false): Map<string, string> {
  const props = new Set<string>();
  for (const s of kf.stops) for (const d of s.decls) if (d.prop !== "animation-timing-function") props.add(d.prop);
  const out = new Map<string, string>();
  for (const prop of props) {
    const byOffset = new Map<number, { v: string; ease: Ease | null }>();
    for (const s of kf.stops) {
      const d = s.decls.filter((x) => x.prop === prop).pop(); const tf = s.decls.filter((x) => x.prop === "animation-timing-function").pop();
      const prev = byOffset.get(s.offset);
      if (d) byOffset.set(s.offset, { v: d.value, ease: tf ? parseEasing(tf.value) : prev?.ease ?? null });
      else if (tf && prev) prev.ease = parseEasing(tf.value);
    }
    if (!byOffset.has(0)) byOffset.set(0, { v: base(prop), ease: null });
    if (!byOffset.has(1)) byOffset.set(1, { v: base(prop), ease: null });
    const stops = [...byOffset].sort((x, y) => x[0] - y[0]);
    let k = 0; for (let q = 0; q < stops.length; q++) if (stops[q][0] <= p) k = q;
    if (k === stops.length - 1) k--;
    const [oa, sa] = stops[k], [ob, sb] = stops[k + 1];
    const raw = oa === ob ? 1 : (p - oa) / (ob - oa);
    out.set(prop, lerpProp(prop, sa.v, sb.v, (sa.ease ?? ease)(raw, before)));
  }
  return out;
}

export interface PlayerOptions { reducedMotion?: boolean }
const PRESENTATION = new Set(["opacity", "visibility", "display", "transform", "clip-path", "fill", "stroke", "mask", "filter", "font-size", "transform-origin", "transform-box", "stroke-dashoffset", "stroke-dasharray"]);
export class Player {
  sheet: Sheet; rules: { sel: string; decls: Decl[]; spec: number; order: number }[] = [];
  private cache = new Map<XNode, Map<string, string>>(); private animCache = new Map<XNode, Anim[]>();
  constructor(public root: XNode, opt: PlayerOptions = {}) {
    this.sheet = { rules: [], keyframes: new Map(), allKeyframes: [], fontFaces: [], media: [] };
    let css = ""; for (const e of walk(root)) if (e.name === "style") css += textContent(e) + "\n";
    parseSheet(css, this.sheet);
    let order = 0;
    const add = (sh: Sheet): void => { for (const r of sh.rules) for (const s of r.selectors) this.rules.push({ sel: s, decls: r.decls, spec: specificity(s), order: order++ }); };
    add(this.sheet);
    for (const m of this.sheet.media) {
      const q = m.query.replace(/\s+/g, "");
      const on = q === "(prefers-reduced-motion:reduce)" ? !!opt.reducedMotion : false;
      if (on) { add(m.sheet); for (const k of m.sheet.allKeyframes) this.sheet.keyframes.set(k.name, k); }
    }
    this.rules.sort((a, b) => a.spec - b.spec || a.order - b.order);
  }
  /** Non-animated declared style (presentation attributes < rules < inline). */
  base(el: XNode): Map<string, string> {
    const c = this.cache.get(el); if (c) return c;
    const m = new Map<string, string>(); const imp = new Map<string, string>();
    for (const [k, v] of el.attrs) if (PRESENTATION.has(k)) m.set(k, v);
    for (const r of this.rules) if (matches(el, r.sel, this.root)) for (const d of r.decls) (d.important ? imp : m).set(d.prop, d.value);
    const st = el.attrs.get("style"); if (st) for (const d of parseDecls(st)) (d.important ? imp : m).set(d.prop, d.value);
    for (const [k, v] of imp) m.set(k, v);
    this.cache.set(el, m); return m;
  }
  custom(el: XNode, name: string): string | null { for (let e: XNode | null = el; e; e = e.parent) { const v = this.base(e).get(name); if (v != null) return v; } return null; }
  subst(el: XNode, v: string): string { let out = v; for (let k = 0; k < 8 && out.includes("var("); k++) out = out.replace(/var\(\s*(--[\w-]+)\s*(?:,\s*([^()]*))?\)/g, (_w, n: string, d?: string) => this.custom(el, n) ?? d ?? "unset"); return out; }
  anims(el: XNode): Anim[] {
    const c = this.animCache.get(el); if (c) return c;
    const b = this.base(el); const v = b.get("animation"); const list = v ? parseAnimation(this.subst(el, v)) : [];
    const each = (prop: string, f: (a: Anim, v: string) => void): void => { if (!b.has(prop)) return; const vs = splitTop(b.get(prop)!, ",").map((x) => x.trim()); list.forEach((a, i) => f(a, vs[i % vs.length])); };
    each("animation-delay", (a, v) => { const m = /^([-\d.]+)(ms|s)$/.exec(v); if (m) a.delay = Number(m[1]) * (m[2] === "s" ? 1000 : 1); });
    each("animation-fill-mode", (a, v) => { a.fill = v; });
    each("animation-timing-function", (a, v) => { const e = parseEasing(v); if (e) a.ease = e; });
    this.animCache.set(el, list); return list;
  }
  /** Every distinct animation duration in the document (ms). */
  durations(): number[] { const d = new Set<number>(); for (const e of walk(this.root)) for (const a of this.anims(e)) d.add(a.dur); return [...d]; }
  /** Animated values at time t. */
  animated(el: XNode, t: number): Map<string, string> {
    const out = new Map<string, string>();
    for (const a of this.anims(el)) {
      const kf = this.sheet.keyframes.get(a.name); if (!kf) continue;
      const pr = progressAt(a, t); if (!pr) continue;
      const b = this.base(el);
      for (const [k, v] of sampleKeyframes(kf, pr.p, a.ease, (p) => b.get(p) ?? (p === "opacity" ? "1" : p === "visibility" ? this.inheritedVis(el.parent, t) : "none"), pr.before)) out.set(k, this.subst(el, v));
    }
    return out;
  }
  private inheritedVis(el: XNode | null, t: number): string { return el ? this.value(el, "visibility", t) ?? this.inheritedVis(el.parent, t) : "visible"; }
  value(el: XNode, prop: string, t: number): string | undefined { return this.animated(el, t).get(prop) ?? this.base(el).get(prop); }
  /** Product of the opacities down to `el`; 0 when hidden by visibility/display. */
  effectiveOpacity(el: XNode, t: number): number {
    let o = 1; let vis: string | null = null;
    for (let e: XNode | null = el; e; e = e.parent) {
      if (this.value(e, "display", t) === "none") return 0;
      const v = this.value(e, "visibility", t); if (vis == null && v != null && v !== "inherit") vis = v;
      const op = this.value(e, "opacity", t); if (op != null) o *= Math.min(1, Math.max(0, op.endsWith("%") ? parseFloat(op) / 100 : parseFloat(op)));
    }
    return vis === "hidden" || vis === "collapse" ? 0 : o;
  }
  /** The element's own transform at t, origin folded in; box = its reference box. */
  ownTransform(el: XNode, t: number, box?: { x: number; y: number; w: number; h: number }): Mat {
    const tv = this.value(el, "transform", t); if (tv == null) return I;
    const m = matOf(parseTransform(tv), box ?? { w: 0, h: 0 });
    const org = this.value(el, "transform-origin", t);
    const isCss = this.animated(el, t).has("transform") || this.base(el).get("transform") !== el.attrs.get("transform") || true;
    if (org == null || !isCss) return m;
    const kw: Record<string, string> = { left: "0%", right: "100%", top: "0%", bottom: "100%", center: "50%" };
    const parts = org.trim().split(/\s+/);
    let [ox, oy] = [parts[0], parts[1] ?? "center"];
    if (ox === "top" || ox === "bottom" || oy === "left" || oy === "right") [ox, oy] = [oy, ox];
    const x = (box?.x ?? 0) + len(kw[ox] ?? ox, box?.w ?? 0), y = (box?.y ?? 0) + len(kw[oy] ?? oy, box?.h ?? 0);
    return mul(mul([1, 0, 0, 1, x, y], m), [1, 0, 0, 1, -x, -y]);
  }
  ctm(el: XNode, t: number, boxOf?: (e: XNode) => { x: number; y: number; w: number; h: number } | undefined): Mat {
    let m: Mat = I; for (let e: XNode | null = el; e; e = e.parent) m = mul(this.ownTransform(e, t, boxOf?.(e)), m);
    return m;
  }
}
export { els, classes };
