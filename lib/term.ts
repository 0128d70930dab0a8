// Shared by the terminal checks: stream generator, visible-cell normal form, HTML row reader.
import * as fc from "./fc.ts";

export interface Vis { ch: string; fg: string | null; bg: string | null; bold: boolean; italic: boolean; dim: boolean; underline: boolean }
/** What a row looks like: per code point with the style that can be seen; trailing invisible blanks dropped. */
export function visible(cells: Vis[]): string[] {
  const out: string[] = [];
  for (const c of cells) for (const ch of Array.from(c.ch === "\u00a0" ? " " : c.ch)) {
    const blank = ch === " " || ch === "\u00a0";
    const fg = blank && !c.underline ? "" : c.fg ?? "", bg = c.bg ?? "";
    const flags = (c.bold && !blank ? "b" : "") + (c.italic && !blank ? "i" : "") + (c.dim && (!blank || c.bg != null || c.underline) ? "d" : "") + (c.underline ? "u" : "");
    out.push(`${blank ? " " : ch}|${fg}|${bg}|${flags}`);
  }
  while (out.length && out[out.length - 1] === " |||") out.pop();
  return out;
}
export const rowOf = (cells: any[]): string[] => visible(cells.map((c) => ({ ...c, ch: c.char })));
const ENT: Record<string, string> = { amp: "&", lt: "<", gt: ">", quot: '"', apos: "'", nbsp: "\u00a0" };
export function decodeEntities(s: string): string {
  return s.replace(/&(#x?[0-9a-fA-F]+|\w+);?|&/g, (w, n) => {
    if (n == null) throw new Error(`bare & in ${JSON.stringify(s)}`);
    if (n[0] === "#") return String.fromCodePoint(n[1] === "x" ? parseInt(n.slice(2), 16) : parseInt(n.slice(1), 10));
    if (!(n in ENT)) throw new Error(`entity ${w}`); return ENT[n];
  });
}
/** Read one terminal row's markup (text and style spans) back into cells. */
export function readRow(html: string): Vis[] {
  const out: Vis[] = []; let st: Omit<Vis, "ch">[] = [{ fg: null, bg: null, bold: false, italic: false, dim: false, underline: false }];
  let i = 0;
  while (i < html.length) {
    if (html[i] === "<") {
      const m = /^<(\/?)(span)(?:\s+style="([^"]*)")?>/.exec(html.slice(i)); if (!m) throw new Error(`unexpected markup in a row: ${JSON.stringify(html.slice(i, i + 60))}`);
      if (m[1]) { st.pop(); if (st.length === 0) throw new Error("unbalanced span"); }
      else {
        const s = { ...st[st.length - 1] };
        for (const d of (m[3] ?? "").split(";")) {
          if (d.trim() === "") continue; const k = d.slice(0, d.indexOf(":")).trim(), v = d.slice(d.indexOf(":") + 1).trim();
          if (k === "color") s.fg = v; else if (k === "background" || k === "background-color") s.bg = v; else if (k === "font-weight") s.bold = v === "bold" || Number(v) >= 600;
          else if (k === "font-style") s.italic = v === "italic"; else if (k === "opacity") s.dim = Number(v) < 1; else if (k.startsWith("text-decoration")) s.underline = v.includes("underline"); else throw new Error(`style ${d}`);
        }
        st.push(s);
      }
      i += m[0].length; continue;
    }
    let j = html.indexOf("<", i); if (j < 0) j = html.length;
    for (const ch of Array.from(decodeEntities(html.slice(i, j)))) out.push({ ch, ...st[st.length - 1] });
    i = j;
  }
  if (st.length !== 1) throw new Error("unbalanced span");
  return out;
}
/** The rows of a terminal page: markup, explicit top, animation id. */
export function readRows(html: string): { inner: string; top: number | null; anim: string | null }[] {
  const out: { inner: string; top: number | null; anim: string | null }[] = [];
  const re = /<div([^>]*)>((?:(?!<\/?div)[\s\S])*)<\/div>/g; let m;
  while ((m = re.exec(html))) {
    if (!/class="[^"]*\br\b[^"]*"/.test(m[1])) continue;
    const top = /top:\s*([\d.]+)px/.exec(m[1]); const anim = /data-domotion-anim="([^"]*)"/.exec(m[1]);
    out.push({ inner: m[2], top: top ? Number(top[1]) : null, anim: anim ? anim[1] : null });
  }
  return out;
}

// ── byte streams ──
const ESC = "\x1b";
const comp = fc.oneof(fc.constantFrom(0, 0, 255, 1, 15, 16), fc.integer({ min: 0, max: 255 }));
export const color = fc.oneof(fc.integer({ min: 0, max: 7 }).map((n) => [`3${n}`, `4${n}`, `9${n}`, `10${n}`]).chain((a) => fc.constantFrom(...a)), fc.tuple(fc.constantFrom("38", "48"), fc.integer({ min: 0, max: 255 })).map(([a, n]) => `${a};5;${n}`), fc.tuple(fc.constantFrom("38", "48"), comp, comp, comp).map(([a, r, g, b]) => `${a};2;${r};${g};${b}`), fc.constantFrom("39", "49", "39", "49"));
export const sgr = fc.oneof(fc.array(fc.oneof(color, fc.constantFrom("0", "1", "2", "3", "4", "22", "23", "24", "1", "4")), { minLength: 1, maxLength: 3 }).map((p) => `${ESC}[${p.join(";")}m`), fc.constantFrom(`${ESC}[0m`, `${ESC}[m`));
export const word = fc.oneof({ weight: 5, arbitrary: fc.string({ minLength: 1, maxLength: 9, unit: fc.constantFrom(..."abcXYZ019 <>&\"'|/$#.;") }) }, { weight: 1, arbitrary: fc.constantFrom("é", "日本", "한", "e\u0301", "漢字", "─┼", "λ") });
export const n = (max: number) => fc.integer({ min: 1, max });
export { ESC };
/** The subset the reference screen model covers. */
export const plainTok = (cols: number, rows: number): fc.Arbitrary<string> => fc.oneof(
  { weight: 8, arbitrary: word }, { weight: 5, arbitrary: sgr }, { weight: 4, arbitrary: fc.constantFrom("\r\n", "\r\n", "\r", "\n") },
  { weight: 2, arbitrary: fc.tuple(n(rows), n(cols)).map(([r, c]) => `${ESC}[${r};${c}H`) }, { weight: 1, arbitrary: fc.constantFrom(`${ESC}[2J`, `${ESC}[K`, `${ESC}[1K`, `${ESC}[2K`, `${ESC}[J`) },
  { weight: 2, arbitrary: fc.constantFrom(`${ESC}[?25l`, `${ESC}[?25h`) });
/** Anything a program may send. */
export const anyTok = (cols: number, rows: number): fc.Arbitrary<string> => fc.oneof({ weight: 6, arbitrary: plainTok(cols, rows) },
  { weight: 2, arbitrary: fc.constantFrom(`${ESC}[?1049h`, `${ESC}[?1049l`, `${ESC}[?25;7h`, `${ESC}[?7;25l`, `${ESC}c`, `${ESC}[!p`, `${ESC}7`, `${ESC}8`, `${ESC}M`, `${ESC}D`, `${ESC}[A`, `${ESC}[2B`, `${ESC}[3C`, `${ESC}[D`, "\b", "\t", "\x07", `${ESC}[2L`, `${ESC}[M`, `${ESC}[3P`, `${ESC}[2@`, `${ESC}[2X`, `${ESC}[S`, `${ESC}[T`, `${ESC}[1;3r`, `${ESC}[r`, `${ESC}]0;title\x07`, `${ESC}[7m`, `${ESC}[27m`, "🎉", "\u200d") });

// ── recordings ──
export interface Rec { c: number; r: number; evs: { dt: number; s: string }[]; resizes: { at: number; c: number; r: number }[]; opts: any }
/** Shell-like or screen-like sessions with pauses on both sides of the settle limit. Times are multiples of 1/64 s. */
export const recording = (over: { resize?: boolean } = {}): fc.Arbitrary<Rec> => fc.tuple(fc.integer({ min: 4, max: 24 }), fc.integer({ min: 2, max: 7 })).chain(([c, r]) => {
  const dt = fc.oneof({ weight: 3, arbitrary: fc.integer({ min: 0, max: 5 }) }, { weight: 4, arbitrary: fc.constantFrom(4, 6, 8, 10, 16, 32) }, { weight: 2, arbitrary: fc.integer({ min: 20, max: 400 }) });
  const typed = fc.array(fc.constantFrom("l", "s", " ", "-", "x", "&"), { minLength: 1, maxLength: 4 }).map((a) => ["$ ", ...a, "\r\n"]);
  const outp = fc.array(word, { minLength: 1, maxLength: 4 }).map((a) => a.map((w) => w + "\r\n"));
  const prog = fc.tuple(fc.constantFrom("\r", "\x1b[2K\r", ""), word).map(([a, w]) => [a + w]);
  const misc = fc.array(plainTok(c, r), { minLength: 1, maxLength: 3 });
  const same = fc.constantFrom(["\x1b[0m"], ["\x1b[?25l"], ["\x1b[?25h"], [""]);
  const tail = fc.constantFrom(["\x1b[4m   "], ["\x1b[41m  \x1b[0m"], ["\x1b[1m  "]);
  return fc.record({
    c: fc.constant(c), r: fc.constant(r),
    evs: fc.array(fc.oneof({ weight: 3, arbitrary: typed }, { weight: 4, arbitrary: outp }, { weight: 2, arbitrary: prog }, { weight: 3, arbitrary: misc }, { weight: 1, arbitrary: same }, { weight: 1, arbitrary: tail }), { minLength: 1, maxLength: 7, size: "max" }).chain((gs) => { const flat = gs.flat(); return fc.array(dt, { minLength: flat.length, maxLength: flat.length }).map((ds) => flat.map((s, i) => ({ dt: ds[i], s }))); }),
    resizes: over.resize === false ? fc.constant([]) : fc.oneof({ weight: 2, arbitrary: fc.constant([]) }, { weight: 1, arbitrary: fc.array(fc.record({ at: fc.nat(1200), c: fc.integer({ min: 3, max: 30 }), r: fc.integer({ min: 1, max: 9 }) }), { minLength: 1, maxLength: 3 }) }),
    opts: fc.record({ settleMs: fc.constantFrom(undefined, undefined, 62.5, 125, 250), minFrameMs: fc.constantFrom(undefined, undefined, 0, 200, 900), maxFrameMs: fc.constantFrom(undefined, undefined, 1000, 2500), tailMs: fc.constantFrom(undefined, undefined, 0, 700, 6000) }).map((o) => Object.fromEntries(Object.entries(o).filter(([, v]) => v !== undefined))),
  });
});
export interface RefFrame { grid: any[][]; ms: number; cursor: { x: number; y: number; visible: boolean } }
const plainCell = (c: any): boolean => c.char === " " && c.fg == null && c.bg == null && !c.bold && !c.italic && !c.dim && !c.underline;
/** The screen with its default blanks at the row and screen ends dropped. */
export function screenKey(g: any[][]): string { const rows = g.map((r) => { const k = r.map((c) => plainCell(c) ? 0 : { ...c }); while (k.length && k[k.length - 1] === 0) k.pop(); return k; }); while (rows.length && rows[rows.length - 1].length === 0) rows.pop(); return JSON.stringify(rows); }
/** The frames a recording plays as: pauses, clamps, merging, resizes (docs/67). */
export async function referenceFrames(rec: Rec, mk: (c: number, r: number) => any): Promise<RefFrame[]> {
  const o = { settleMs: 90, minFrameMs: 400, maxFrameMs: 4000, tailMs: 1500, ...rec.opts }; const emu = mk(rec.c, rec.r);
  const clamp = (v: number): number => Math.min(o.maxFrameMs, Math.max(o.minFrameMs, v));
  const frames: RefFrame[] = []; const rz = rec.resizes.map((z, i) => ({ ...z, i })).sort((a, b) => a.at - b.at || a.i - b.i); let t = 0, ri = 0;
  const snap = (): { grid: any[][]; cursor: any } => ({ grid: emu.snapshot(), cursor: emu.cursor() });
  try {
    for (let i = 0; i < rec.evs.length; i++) {
      t += rec.evs[i].dt; for (; ri < rz.length && rz[ri].at <= t; ri++) emu.resize(rz[ri].c, rz[ri].r);
      await emu.write(rec.evs[i].s);
      const last = i === rec.evs.length - 1; const gap = last ? o.tailMs : rec.evs[i + 1].dt * 1000 / 64;
      if (!last && gap < o.settleMs) continue;
      const s = snap(); const prev = frames[frames.length - 1]; const hold = clamp(Math.round(gap));
      if (prev && screenKey(prev.grid) === screenKey(s.grid)) prev.ms = Math.min(o.maxFrameMs, prev.ms + hold); else frames.push({ ...s, ms: hold });
    }
    if (ri < rz.length) {
      for (; ri < rz.length; ri++) emu.resize(rz[ri].c, rz[ri].r);
      const s = snap(); const prev = frames[frames.length - 1];
      if (!prev || prev.grid.length !== s.grid.length || prev.grid[0].length !== s.grid[0].length || screenKey(prev.grid) !== screenKey(s.grid)) frames.push({ ...s, ms: Math.max(o.minFrameMs, Math.round(o.tailMs)) });
    }
  } finally { emu.dispose(); }
  while (frames.length > 1 && screenKey(frames[0].grid) === "[]") frames.shift();
  return frames;
}
export function castText(rec: Rec): string {
  let t = 0; const lines = [JSON.stringify({ version: 2, width: rec.c, height: rec.r })];
  const evs: [number, string, string][] = rec.evs.map((e) => [(t += e.dt) / 64, "o", e.s]);
  for (const z of rec.resizes) evs.push([z.at / 64, "r", `${z.c}x${z.r}`]);
  return [...lines, ...evs.map((e, i) => ({ e, i })).sort((a, b) => a.e[0] - b.e[0] || a.i - b.i).map((x) => JSON.stringify(x.e))].join("\n") + "\n";
}
