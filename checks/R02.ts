// R02: a box's background, border, shadows and outline are painted as CSS paints them.
// The oracle is an independent per-point shader of CSS Backgrounds 3 and CSS Images 3; the emitted SVG is
// rasterised and compared at every pixel where the expected picture is smooth (so edges never decide).
import { fc, runCheck, ensure, show } from "../lib/harness.ts";
import { el } from "../lib/tree.ts";
import { sharp, png, dataUri } from "../lib/png.ts";
import { elementTreeToSvg } from "/repo/src/render/element-tree-to-svg.ts";

let N = 44; // canvas side; shadows get a larger one, so no blurred shape leaves it
type RGBA = [number, number, number, number];
interface Rect { x: number; y: number; w: number; h: number }
type Radii = [[number, number], [number, number], [number, number], [number, number]]; // tl tr br bl
const SHARP: Radii = [[0, 0], [0, 0], [0, 0], [0, 0]];
const PALETTE: RGBA[] = [[255, 0, 0, 1], [0, 0, 255, 1], [255, 255, 0, 1], [0, 128, 0, 1], [0, 255, 255, 1], [128, 0, 128, 1], [0, 0, 0, 1], [255, 160, 64, 1]];
const css = (c: RGBA): string => (c[3] === 1 ? `rgb(${c[0]}, ${c[1]}, ${c[2]})` : `rgba(${c[0]}, ${c[1]}, ${c[2]}, ${c[3]})`);
const overC = (d: RGBA, s: RGBA): RGBA => { const a = s[3]; return [s[0] * a + d[0] * (1 - a), s[1] * a + d[1] * (1 - a), s[2] * a + d[2] * (1 - a), 1]; };
const inRound = (px: number, py: number, r: Rect, q: Radii): boolean => {
  if (px < r.x || py < r.y || px >= r.x + r.w || py >= r.y + r.h) return false;
  const t = (dx: number, dy: number, c: [number, number]): boolean => c[0] <= 0 || c[1] <= 0 || dx >= c[0] || dy >= c[1] || ((c[0] - dx) / c[0]) ** 2 + ((c[1] - dy) / c[1]) ** 2 <= 1;
  const l = px - r.x, u = py - r.y, ri = r.x + r.w - px, b = r.y + r.h - py;
  return t(l, u, q[0]) && t(ri, u, q[1]) && t(ri, b, q[2]) && t(l, b, q[3]);
};
const fitRadii = (q: Radii, w: number, h: number): Radii => { const f = Math.min(1, ...([[q[0][0] + q[1][0], w], [q[2][0] + q[3][0], w], [q[1][1] + q[2][1], h], [q[0][1] + q[3][1], h]] as const).map(([s, l]) => (s > 0 ? l / s : 1))); return q.map((c) => [c[0] * f, c[1] * f]) as Radii; };
const inset = (q: Radii, t: number, r: number, b: number, l: number): Radii => [[q[0][0] - l, q[0][1] - t], [q[1][0] - r, q[1][1] - t], [q[2][0] - r, q[2][1] - b], [q[3][0] - l, q[3][1] - b]].map((c) => [Math.max(0, c[0]), Math.max(0, c[1])]) as Radii;
const inner = (r: Rect, t: number, ri: number, b: number, l: number): Rect => ({ x: r.x + l, y: r.y + t, w: r.w - l - ri, h: r.h - t - b });

// ── gradients ────────────────────────────────────────────────────────────────
interface Stop { c: RGBA; pos: { v: number; u: "%" | "px" }[] }
interface Grad { kind: "linear" | "radial"; repeating: boolean; dir: any; stops: Stop[] }
type Shader = (x: number, y: number) => RGBA;
/** Which tile of each layer a point fell in: part of the mark, so tile edges are never judged. */
let tiles = 0, fractional = false;
/** Set when a ramp has all its stops on one point (out of scope for radial gradients: the renderer copies Chromium's own reading). */
let coincident = false, skip = false;
function ramp(stops: Stop[], len: number, repeating: boolean): (t: number) => RGBA {
  const s: { c: RGBA; p: number }[] = []; for (const st of stops) { if (!st.pos.length) s.push({ c: st.c, p: NaN }); else for (const p of st.pos) s.push({ c: st.c, p: p.u === "%" ? p.v / 100 : p.v / len }); }
  if (Number.isNaN(s[0].p)) s[0].p = 0; if (Number.isNaN(s.at(-1)!.p)) s.at(-1)!.p = 1;
  let max = -Infinity; for (const x of s) if (!Number.isNaN(x.p)) { x.p = Math.max(max, x.p); max = x.p; }
  for (let i = 0; i < s.length; i++) if (Number.isNaN(s[i].p)) { let j = i; while (Number.isNaN(s[j].p)) j++; const a = s[i - 1].p, b = s[j].p, n = j - i + 1; for (let k = i; k < j; k++) s[k].p = a + ((b - a) * (k - i + 1)) / n; i = j; }
  if (s.at(-1)!.p - s[0].p < 1e-6 || s.at(-1)!.p < 1e-6) coincident = true;
  const first = s[0].p, last = s.at(-1)!.p, per = last - first;
  return (t) => {
    if (repeating) { if (per * len < 1e-6) return s.at(-1)!.c; t = first + ((((t - first) % per) + per) % per); }
    if (t < s[0].p) return s[0].c; for (let i = 1; i < s.length; i++) if (t < s[i].p) { const u = (t - s[i - 1].p) / (s[i].p - s[i - 1].p), a = s[i - 1].c, b = s[i].c; const al = a[3] + (b[3] - a[3]) * u; if (al <= 0) return [0, 0, 0, 0]; return [0, 1, 2].map((k) => (a[k] * a[3] * (1 - u) + b[k] * b[3] * u) / al).concat(al) as RGBA; }
    return s.at(-1)!.c;
  };
}
function gradShader(g: Grad, w: number, h: number): Shader {
  if (g.kind === "linear") {
    let a: number; if (typeof g.dir === "number") a = (g.dir * Math.PI) / 180; else { const [vx, vy] = g.dir as [number, number]; a = vx && vy ? Math.atan2(vx * h, -vy * w) : Math.atan2(vx, -vy); }
    const sx = Math.sin(a), sy = -Math.cos(a), len = Math.abs(w * sx) + Math.abs(h * sy); const f = ramp(g.stops, len, g.repeating);
    return (x, y) => f(((x - w / 2) * sx + (y - h / 2) * sy) / len + 0.5);
  }
  const { shape, size, at } = g.dir; const cx = at[0].u === "%" ? (at[0].v / 100) * w : at[0].v, cy = at[1].u === "%" ? (at[1].v / 100) * h : at[1].v;
  const near = [Math.min(Math.abs(cx), Math.abs(w - cx)), Math.min(Math.abs(cy), Math.abs(h - cy))], far = [Math.max(Math.abs(cx), Math.abs(w - cx)), Math.max(Math.abs(cy), Math.abs(h - cy))]; let rx: number, ry: number;
  if (Array.isArray(size)) [rx, ry] = size.length === 1 ? [size[0], size[0]] : size; else { const d = /closest/.test(size) ? near : far, side = /side/.test(size); if (shape === "circle") rx = ry = side ? (/closest/.test(size) ? Math.min(d[0], d[1]) : Math.max(d[0], d[1])) : Math.hypot(d[0], d[1]); else [rx, ry] = side ? d : [d[0] * Math.SQRT2, d[1] * Math.SQRT2]; }
  coincident = false; const f = ramp(g.stops, rx, g.repeating); if (coincident) skip = true; return (x, y) => f(Math.hypot((x - cx) / rx, (y - cy) / ry));
}
const stopText = (s: Stop): string => [css(s.c), ...s.pos.map((p) => p.v + p.u)].join(" ");
function gradText(g: Grad): string {
  let head = ""; if (g.kind === "linear") head = typeof g.dir === "number" ? (g.dir === 180 ? "" : `${g.dir}deg`) : "to " + [g.dir[1] < 0 ? "top" : g.dir[1] > 0 ? "bottom" : "", g.dir[0] < 0 ? "left" : g.dir[0] > 0 ? "right" : ""].filter(Boolean).join(" ");
  else { const { shape, size, at } = g.dir; head = `${[Array.isArray(size) ? "" : shape, Array.isArray(size) ? size.map((x: number) => x + "px").join(" ") : size === "farthest-corner" ? "" : size].filter(Boolean).join(" ")} at ${at.map((p: any) => p.v + p.u).join(" ")}`.trim(); }
  return `${g.repeating ? "repeating-" : ""}${g.kind}-gradient(${[head, ...g.stops.map(stopText)].filter(Boolean).join(", ")})`;
}

// ── background layers ────────────────────────────────────────────────────────
type Len = { v: number; u: "%" | "px" } | "auto";
interface Layer { img: { g: Grad } | { w: number; h: number; cols: RGBA[] }; size: "auto" | "cover" | "contain" | [Len, Len]; pos: [Len, Len]; rep: [string, string]; clip: string; origin: string }
const boxName = ["border-box", "padding-box", "content-box"];
function layerShader(L: Layer, origin: Rect): (x: number, y: number) => RGBA | null {
  const nat = "g" in L.img ? null : [L.img.w, L.img.h]; const area = [origin.w, origin.h]; let t: [number, number];
  if (L.size === "cover" || L.size === "contain") { if (!nat) t = [area[0], area[1]]; else { const k = L.size === "cover" ? Math.max(area[0] / nat[0], area[1] / nat[1]) : Math.min(area[0] / nat[0], area[1] / nat[1]); t = [nat[0] * k, nat[1] * k]; } }
  else { const d = (L.size === "auto" ? ["auto", "auto"] : L.size) as [Len, Len]; const v = d.map((x, i) => (x === "auto" ? null : x.u === "%" ? (x.v / 100) * area[i] : x.v)); if (v[0] == null && v[1] == null) t = nat ? [nat[0], nat[1]] : [area[0], area[1]]; else if (v[0] == null) t = [nat ? (nat[0] * v[1]!) / nat[1] : area[0], v[1]!]; else if (v[1] == null) t = [v[0], nat ? (nat[1] * v[0]) / nat[0] : area[1]]; else t = [v[0], v[1]]; }
  // round: rescale to a whole number of tiles; a sole round axis rescales an auto other axis to keep the ratio
  const auto = (i: number): boolean => L.size === "auto" || (Array.isArray(L.size) && L.size[i] === "auto");
  for (const i of [0, 1]) if (L.rep[i] === "round" && t[i] > 0) { const n = Math.max(1, Math.round(area[i] / t[i])), was = t[i]; t[i] = area[i] / n; const o = 1 - i; if (L.rep[o] !== "round" && auto(o)) { t[o] = (t[o] * t[i]) / was; } }
  const gap = [0, 0], off = [0, 0], one = [false, false];
  for (const i of [0, 1]) { const p = L.pos[i] as any; off[i] = p.u === "%" ? (p.v / 100) * (area[i] - t[i]) : p.v; if (L.rep[i] === "no-repeat") one[i] = true; /* round: positioned as usual */ if (L.rep[i] === "space") { const n = Math.floor((area[i] + 1e-6) / t[i]); if (n >= 2) { gap[i] = (area[i] - n * t[i]) / (n - 1); off[i] = 0; } else one[i] = true; } }
  for (const i of [0, 1]) if (!one[i] && ((t[i] + gap[i]) % 1 > 1e-6 || (t[i] % 1) > 1e-6)) fractional = true;
  let sh: Shader; if ("g" in L.img) sh = t[0] > 0 && t[1] > 0 ? gradShader(L.img.g, t[0], t[1]) : () => [0, 0, 0, 0] as RGBA; else { const { cols } = L.img; sh = (x, y) => cols[(x >= t[0] / 2 ? 1 : 0) + (y >= t[1] / 2 ? 2 : 0)]; }
  return (x, y) => { const q = [x - origin.x - off[0], y - origin.y - off[1]]; let out = false; for (const i of [0, 1]) { const per = t[i] + gap[i]; if (!(t[i] > 0)) return null; const n = Math.floor(q[i] / per); tiles = (tiles * 31 + n) | 0; if (!one[i]) q[i] -= n * per; if (q[i] < 0 || q[i] >= t[i]) out = true; } return out ? null : sh(q[0], q[1]); };
}
const lenText = (l: Len): string => (l === "auto" ? "auto" : l.v + l.u);

// ── the box ──────────────────────────────────────────────────────────────────
interface Shadow { inset: boolean; x: number; y: number; blur: number; spread: number; c: RGBA }
interface Box { r: Rect; bw: number[]; bc: RGBA[]; pad: number[]; rad: Radii; bg: RGBA | null; layers: Layer[]; shadows: Shadow[]; outline: { w: number; off: number; c: RGBA } | null; clip?: string }
/** Gaussian-blurred coverage of a shape, on the pixel grid with a margin. */
function blurred(inside: (x: number, y: number) => boolean, sigma: number): (x: number, y: number) => number {
  const M = Math.ceil(3 * sigma) + 2, W = N + 2 * M; let a = new Float64Array(W * W); for (let j = 0; j < W; j++) for (let i = 0; i < W; i++) { let s = 0; for (const dy of [0.17, 0.5, 0.83]) for (const dx of [0.17, 0.5, 0.83]) if (inside(i - M + dx, j - M + dy)) s++; a[j * W + i] = s / 9; }
  const R = Math.ceil(3 * sigma), k = Array.from({ length: 2 * R + 1 }, (_, i) => Math.exp(-((i - R) ** 2) / (2 * sigma * sigma))), S = k.reduce((p, q) => p + q, 0); const at = (b: Float64Array, i: number, j: number): number => b[Math.min(W - 1, Math.max(0, j)) * W + Math.min(W - 1, Math.max(0, i))];
  for (const ax of [0, 1]) { const b = new Float64Array(W * W); for (let j = 0; j < W; j++) for (let i = 0; i < W; i++) { let s = 0; for (let d = -R; d <= R; d++) s += k[d + R] * (ax ? at(a, i, j + d) : at(a, i + d, j)); b[j * W + i] = s / S; } a = b; }
  return (x, y) => { const fx = x + M - 0.5, fy = y + M - 0.5, i = Math.floor(fx), j = Math.floor(fy), u = fx - i, v = fy - j; return at(a, i, j) * (1 - u) * (1 - v) + at(a, i + 1, j) * u * (1 - v) + at(a, i, j + 1) * (1 - u) * v + at(a, i + 1, j + 1) * u * v; };
}
function shader(b: Box): Shader {
  const R = b.r, rad = fitRadii(b.rad, R.w, R.h); const [t, ri, bo, l] = b.bw; const [pt, pr, pb, pl] = b.pad; const pad = inner(R, t, ri, bo, l), padRad = inset(rad, t, ri, bo, l), con = inner(pad, pt, pr, pb, pl), conRad = inset(padRad, pt, pr, pb, pl);
  const boxes: Record<string, [Rect, Radii]> = { "border-box": [R, rad], "padding-box": [pad, padRad], "content-box": [con, conRad] };
  let side = 0; const steps: ((x: number, y: number) => RGBA | null)[] = [];
  for (const s of [...b.shadows].reverse()) if (!s.inset) { const sr = inner({ ...R, x: R.x + s.x, y: R.y + s.y }, -s.spread, -s.spread, -s.spread, -s.spread); if (sr.w <= 0 || sr.h <= 0) continue; const sq = rad.map((c) => c.map((v) => (v > 0 ? Math.max(0, v + s.spread) : 0))) as Radii; const inS = (x: number, y: number): boolean => inRound(x, y, sr, fitRadii(sq, sr.w, sr.h)); const cov = s.blur > 0 ? blurred(inS, s.blur / 2) : (x: number, y: number) => (inS(x, y) ? 1 : 0); steps.push((x, y) => (inRound(x, y, R, rad) || (s.blur === 0 && !inS(x, y)) ? null : [s.c[0], s.c[1], s.c[2], s.c[3] * cov(x, y)])); }
  const clipC = b.layers.length ? b.layers.at(-1)!.clip : b.clip ?? "border-box"; if (b.bg) steps.push((x, y) => (inRound(x, y, ...boxes[clipC]) ? b.bg! : null));
  for (const L of [...b.layers].reverse()) { const sh = layerShader(L, boxes[L.origin][0]); steps.push((x, y) => (inRound(x, y, ...boxes[L.clip]) ? sh(x, y) : null)); }
  for (const s of [...b.shadows].reverse()) if (s.inset) { const hr = inner({ ...pad, x: pad.x + s.x, y: pad.y + s.y }, s.spread, s.spread, s.spread, s.spread); const hq = inset(padRad, s.spread, s.spread, s.spread, s.spread).map((c, i) => padRad[i].map((v, k) => (v > 0 ? c[k] : 0))) as Radii; const hole = (x: number, y: number): boolean => hr.w > 0 && hr.h > 0 && inRound(x, y, hr, fitRadii(hq, hr.w, hr.h)); const cov = s.blur > 0 ? blurred((x, y) => !hole(x, y), s.blur / 2) : (x: number, y: number) => (hole(x, y) ? 0 : 1); steps.push((x, y) => (inRound(x, y, pad, padRad) && (s.blur > 0 || !hole(x, y)) ? [s.c[0], s.c[1], s.c[2], s.c[3] * cov(x, y)] : null)); }
  if (b.bw.some((w) => w > 0)) steps.push((x, y) => { if (!inRound(x, y, R, rad) || inRound(x, y, pad, padRad)) return null; const d = [t > 0 ? (y - R.y) / t : Infinity, ri > 0 ? (R.x + R.w - x) / ri : Infinity, bo > 0 ? (R.y + R.h - y) / bo : Infinity, l > 0 ? (x - R.x) / l : Infinity]; side = d.indexOf(Math.min(...d)); return b.bc[side]; });
  if (b.outline) { const o = b.outline, A = inner(R, -o.off, -o.off, -o.off, -o.off), B = inner(A, -o.w, -o.w, -o.w, -o.w); const qa = rad.map((c) => c.map((v) => (v > 0 ? Math.max(0, v + o.off) : 0))) as Radii, qb = rad.map((c) => c.map((v) => (v > 0 ? v + o.off + o.w : 0))) as Radii; steps.push((x, y) => (inRound(x, y, B, qb) && !inRound(x, y, A, qa) ? o.c : null)); }
  // The colour, and a mark that changes wherever any shape's edge is crossed.
  return (x, y) => { let d: RGBA = [255, 255, 255, 1], mark = 0; side = 0; tiles = 0; for (const s of steps) { const c = s(x, y); mark = mark * 2 + (c ? 1 : 0); if (c && c[3] > 0) d = overC(d, c); } return [d[0], d[1], d[2], (mark * 4 + side) * 65536 + (tiles & 65535)]; };
}
const SIDES = ["Top", "Right", "Bottom", "Left"], CORNERS = ["TopLeft", "TopRight", "BottomRight", "BottomLeft"];
function toElement(b: Box): any {
  const styles: Record<string, any> = { backgroundColor: b.bg ? css(b.bg) : "rgba(0, 0, 0, 0)", ...(b.clip ? { backgroundClip: b.clip } : {}) };
  SIDES.forEach((s, i) => { styles[`border${s}Width`] = `${b.bw[i]}px`; styles[`border${s}Color`] = css(b.bc[i]); styles[`border${s}Style`] = b.bw[i] ? "solid" : "none"; styles[`padding${s}`] = `${b.pad[i]}px`; });
  styles.borderWidth = b.bw.map((w) => `${w}px`).join(" "); styles.borderColor = b.bc.map(css).join(" ");
  CORNERS.forEach((c, i) => { const [h, v] = b.rad[i]; styles[`border${c}Radius`] = h === v ? `${h}px` : `${h}px ${v}px`; }); styles.borderRadius = styles.borderTopLeftRadius;
  if (b.layers.length) {
    const j = (f: (l: Layer) => string): string => b.layers.map(f).join(", ");
    styles.backgroundImage = j((l) => ("g" in l.img ? gradText(l.img.g) : `url("${dataUri(png(l.img.w, l.img.h, (x, y) => { const c = (l.img as any).cols[(x >= (l.img as any).w / 2 ? 1 : 0) + (y >= (l.img as any).h / 2 ? 2 : 0)]; return [c[0], c[1], c[2], 255]; }))}")`));
    styles.backgroundIntrinsic = b.layers.map((l) => ("g" in l.img ? null : { w: l.img.w, h: l.img.h }));
    styles.backgroundSize = j((l) => (Array.isArray(l.size) ? (l.size[1] === "auto" && l.size[0] !== "auto" ? lenText(l.size[0]) : l.size.map(lenText).join(" ")) : l.size)); styles.backgroundPosition = j((l) => l.pos.map(lenText).join(" "));
    styles.backgroundRepeat = j((l) => (l.rep[0] === l.rep[1] ? l.rep[0] : l.rep[0] === "repeat" && l.rep[1] === "no-repeat" ? "repeat-x" : l.rep[0] === "no-repeat" && l.rep[1] === "repeat" ? "repeat-y" : l.rep.join(" "))); styles.backgroundClip = j((l) => l.clip); styles.backgroundOrigin = j((l) => l.origin);
  }
  if (b.shadows.length) styles.boxShadow = b.shadows.map((s) => `${css(s.c)} ${s.x}px ${s.y}px ${s.blur}px ${s.spread}px${s.inset ? " inset" : ""}`).join(", ");
  if (b.outline) Object.assign(styles, { outlineWidth: `${b.outline.w}px`, outlineStyle: "solid", outlineColor: css(b.outline.c), outlineOffset: `${b.outline.off}px` });
  return el({ x: b.r.x, y: b.r.y, width: b.r.w, height: b.r.h, styles });
}
/** Out of scope: an inner edge whose corner curves no longer fit inside it. */
function fits(b: Box): boolean { const rad = fitRadii(b.rad, b.r.w, b.r.h); const ok = (t: number, r: number, bo: number, l: number): boolean => { const q = inset(rad, t, r, bo, l), w = b.r.w - l - r, h = b.r.h - t - bo; return w >= 2 && h >= 2 && q[0][0] + q[1][0] <= w + 1e-6 && q[2][0] + q[3][0] <= w + 1e-6 && q[0][1] + q[3][1] <= h + 1e-6 && q[1][1] + q[2][1] <= h + 1e-6; }; const [t, r, bo, l] = b.bw, [pt, pr, pb, pl] = b.pad; return ok(t, r, bo, l) && ok(t + pt, r + pr, bo + pb, l + pl) && (!b.outline || b.outline.off >= 0 || ok(-b.outline.off, -b.outline.off, -b.outline.off, -b.outline.off)); }
/** Out of scope: a small radius grown by a larger spread (specifications and browsers correct it differently). */
const corrected = (b: Box): boolean => { const q = fitRadii(b.rad, b.r.w, b.r.h).flat().filter((v) => v > 0); return q.length > 0 && b.shadows.some((s) => (s.inset ? -s.spread : s.spread) > Math.min(...q) - (s.inset ? Math.max(...b.bw) : 0)); };
async function judge(b: Box, ctx: any, tol = 26): Promise<void> {
  if (!fits(b) || corrected(b)) return;
  N = b.shadows.length ? 66 : 44; skip = fractional = false; const f = shader(b); if (skip) return; const K = 4, W = N * K, OFF = [0.01, 0.34, 0.66, 0.99]; const G = new Float64Array(W * W * 4); for (let j = 0; j < W; j++) for (let i = 0; i < W; i++) G.set(f(Math.floor(i / K) + OFF[i % K], Math.floor(j / K) + OFF[j % K]), (j * W + i) * 4);
  const e = toElement(b); const svg = elementTreeToSvg([e], N, N); const { data } = await sharp(Buffer.from(svg)).flatten({ background: "#fff" }).removeAlpha().raw().toBuffer({ resolveWithObject: true });
  const m = b.layers.some((l) => !("g" in l.img)) ? 10 : fractional ? 6 : b.layers.length ? 2 : 0; let bad = 0, judged = 0, painted = 0, first = "";
  for (let y = 2; y < N - 2; y++) for (let x = 2; x < N - 2; x++) {
    let smooth = true; const mm = fractional ? K : 0; const want = [0, 0, 0]; const at = (u: number, v: number): number => ((y * K + v) * W + x * K + u) * 4;
    const mk = G[at(0, 0) + 3]; for (let v = 0; v < K; v++) for (let u = 0; u < K; u++) { const o = at(u, v); for (let k = 0; k < 3; k++) want[k] += G[o + k] / (K * K); }
    for (let v = -mm; v < K + mm && smooth; v++) for (let u = -mm; u < K + mm; u++) if (G[at(u, v) + 3] !== mk) smooth = false;
    for (let k = 0; k < 3 && smooth; k++) { let lo = 999, hi = -999; for (let v = -m; v < K + m; v++) for (let u = -m; u < K + m; u++) { const g = G[at(u, v) + k]; if (g < lo) lo = g; if (g > hi) hi = g; } if (hi - lo > 60) smooth = false; }
    if (!smooth) continue; judged++; if (want.some((w) => w < 250)) painted++;
    const p = (y * N + x) * 3; if ([0, 1, 2].some((k) => Math.abs(data[p + k] - want[k]) > tol)) { if (!bad++) first = `(${x},${y}) painted rgb(${[...data.subarray(p, p + 3)]}), CSS paints rgb(${want.map(Math.round)})`; }
  }
  ensure(bad <= (b.layers.length ? 8 : 1), () => `${bad} of ${judged} smooth pixels differ, first ${first}; ${show({ box: e.styles && { x: b.r.x, y: b.r.y, w: b.r.w, h: b.r.h }, ...Object.fromEntries(Object.entries(e.styles).filter(([k, v]) => /background|border(Top|Right|Bottom|Left)(Left|Right)?(Width|Color|Radius)|padding|shadow|outline/i.test(k) && !/^(0px|none|rgb\(0, 0, 0\))$/.test(String(v)) && !/base64/.test(String(v)))) })}`);
  ctx.hit(painted >= 60);
}

// ── generators ───────────────────────────────────────────────────────────────
const color = fc.constantFrom(...PALETTE); const int = (a: number, b: number): fc.Arbitrary<number> => fc.integer({ min: a, max: b });
const rectA = fc.tuple(int(4, 12), int(4, 12), int(14, 28), int(14, 28)).map(([x, y, w, h]) => ({ x, y, w, h }));
const radA: fc.Arbitrary<Radii> = fc.oneof({ weight: 2, arbitrary: fc.constant(SHARP) }, { weight: 2, arbitrary: int(1, 12).map((r) => [[r, r], [r, r], [r, r], [r, r]] as Radii) }, { weight: 2, arbitrary: fc.array(fc.oneof(fc.constant([0, 0]), int(1, 12).map((r) => [r, r]), fc.tuple(int(1, 14), int(1, 10))), { minLength: 4, maxLength: 4 }) as any }, { weight: 1, arbitrary: fc.constant([[999, 999], [999, 999], [999, 999], [999, 999]] as Radii) });
const posA = fc.oneof(int(-2, 12).map((v) => ({ v: v * 10, u: "%" as const })), int(-6, 30).map((v) => ({ v, u: "px" as const })));
const stopA: fc.Arbitrary<Stop> = fc.record({ c: color, pos: fc.oneof({ weight: 3, arbitrary: fc.constant([]) }, { weight: 3, arbitrary: posA.map((p) => [p]) }, { weight: 1, arbitrary: fc.tuple(posA, posA).map((p) => [...p]) }) as any });
// (Opaque stops only: gradients whose alpha varies are rasterised by the browser at capture time.)
const stopsA = fc.array(stopA, { minLength: 2, maxLength: 4, size: "max" });
const gradA: fc.Arbitrary<Grad> = fc.oneof(
  fc.record({ kind: fc.constant("linear" as const), repeating: fc.constantFrom(false, false, true), dir: fc.oneof(fc.constantFrom(0, 90, 180, 270, 45, 30, 120, -60, 400) as any, fc.constantFrom([0, -1], [0, 1], [1, 0], [-1, 0], [1, 1], [-1, 1], [1, -1], [-1, -1])), stops: stopsA }),
  fc.record({ kind: fc.constant("radial" as const), repeating: fc.constantFrom(false, false, true), dir: fc.record({ shape: fc.constantFrom("circle", "ellipse"), size: fc.oneof(fc.constantFrom("closest-side", "closest-corner", "farthest-side", "farthest-corner"), fc.tuple(int(4, 20)), fc.tuple(int(4, 20), int(4, 20))), at: fc.tuple(int(1, 9).map((v) => ({ v: v * 10, u: "%" })), fc.oneof(int(1, 9).map((v) => ({ v: v * 10, u: "%" })), int(1, 10).map((v) => ({ v, u: "px" })))) }), stops: stopsA }),
) as any;
const lenA = (i: boolean): fc.Arbitrary<Len> => fc.oneof(fc.constant("auto" as const), int(2, 10).map((v) => ({ v: v * 10, u: "%" as const })), int(i ? 6 : 4, 24).map((v) => ({ v, u: "px" as const })));
const placeA = fc.tuple(fc.oneof(fc.constantFrom(0, 50, 100, 25).map((v) => ({ v, u: "%" as const })), int(-8, 12).map((v) => ({ v, u: "px" as const }))), fc.oneof(fc.constantFrom(0, 50, 100, 75).map((v) => ({ v, u: "%" as const })), int(-8, 12).map((v) => ({ v, u: "px" as const })))) as fc.Arbitrary<[Len, Len]>;
const rep = fc.constantFrom("repeat", "repeat", "no-repeat", "no-repeat", "round", "space");
const layerA: fc.Arbitrary<Layer> = fc.oneof({ weight: 3, arbitrary: gradA.map((g) => ({ g })) as any }, { weight: 1, arbitrary: fc.record({ w: fc.constantFrom(8, 16), h: fc.constantFrom(8, 12), cols: fc.uniqueArray(color, { minLength: 4, maxLength: 4, selector: (c) => css(c) }) }) as any }).chain((img: any) => fc.record({ img: fc.constant(img), size: fc.oneof({ weight: 2, arbitrary: fc.constant("auto") }, { weight: 1, arbitrary: fc.constantFrom("cover", "contain") }, { weight: 3, arbitrary: fc.tuple(lenA(!("g" in img)), lenA(!("g" in img))) }) as any, pos: fc.oneof(fc.constant([{ v: 0, u: "%" }, { v: 0, u: "%" }]), placeA) as any, rep: fc.oneof(fc.constant(["repeat", "repeat"]), fc.tuple(rep, rep)) as any, clip: fc.constantFrom(...boxName, "border-box"), origin: fc.constantFrom("padding-box", ...boxName) })).map((L: any) => ({ ...L, pos: L.pos.map((p: any, i: number) => (L.rep[i] === "round" && p.u === "%" ? { v: 0, u: "%" } : p)) }));
const widths = fc.oneof({ weight: 2, arbitrary: fc.constant([0, 0, 0, 0]) }, { weight: 2, arbitrary: int(1, 5).map((w) => [w, w, w, w]) }, { weight: 2, arbitrary: fc.array(fc.constantFrom(0, 1, 2, 3, 5), { minLength: 4, maxLength: 4 }) });
const colors4 = fc.oneof(color.map((c) => [c, c, c, c]), fc.array(color, { minLength: 4, maxLength: 4 }));
const plainBox = { r: rectA, bw: fc.constant([0, 0, 0, 0]), bc: fc.constant([PALETTE[6], PALETTE[6], PALETTE[6], PALETTE[6]]), pad: fc.constant([0, 0, 0, 0]), rad: radA, bg: fc.oneof(fc.constant(null), color) as fc.Arbitrary<RGBA | null>, layers: fc.constant([] as Layer[]), shadows: fc.constant([] as Shadow[]), outline: fc.constant(null) };
const bgBox = fc.record({ ...plainBox, bw: widths as any, bc: fc.constant(Array(4).fill([60, 60, 60, 0.5])) as any, pad: fc.oneof(fc.constant([0, 0, 0, 0]), fc.tuple(int(0, 3), int(0, 3), int(0, 3), int(0, 3))) as any, layers: fc.array(layerA, { minLength: 1, maxLength: 3 }) }) as fc.Arbitrary<Box>;
const colorBox = fc.record({ ...plainBox, bw: widths as any, bc: colors4 as any, pad: fc.tuple(int(0, 3), int(0, 3), int(0, 3), int(0, 3)) as any, clip: fc.constantFrom(...boxName), outline: fc.oneof(fc.constant(null), fc.record({ w: int(1, 3), off: int(-3, 3), c: color })) as any }) as fc.Arbitrary<Box>;
const shadowA: fc.Arbitrary<Shadow> = fc.record({ inset: fc.boolean(), x: int(-8, 8), y: int(-8, 8), blur: fc.constantFrom(0, 0, 4, 6, 9), spread: int(-4, 5), c: fc.oneof(color, fc.constant([0, 0, 0, 0.5] as RGBA)) });
const shadowBox = fc.record({ ...plainBox, r: fc.tuple(int(20, 24), int(20, 24), int(14, 20), int(14, 20)).map(([x, y, w, h]) => ({ x, y, w, h })), bw: fc.oneof(fc.constant([0, 0, 0, 0]), int(1, 3).map((w) => [w, w, w, w])) as any, shadows: fc.array(shadowA, { minLength: 1, maxLength: 3 }) }) as fc.Arbitrary<Box>;

await runCheck({ id: "R02", parts: [
  { name: "frame", rule: "border, radius, colour clip and outline; non-trivial = sixty painted pixels judged", arb: colorBox, runs: { quick: 250, thorough: 20000 }, prop: (b, c) => judge(b, c) },
  { name: "background", rule: "gradient and image layers; non-trivial = sixty painted pixels judged", arb: bgBox, runs: { quick: 350, thorough: 20000 }, prop: (b, c) => judge(b, c) },
  { name: "shadow", rule: "outer and inset shadows; non-trivial = sixty painted pixels judged", arb: shadowBox, runs: { quick: 110, thorough: 15000 }, prop: (b, c) => judge(b, c, 26) },
], assumptions: ["the SVG is rasterised by librsvg"] });
