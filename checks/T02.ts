// T02: the terminal emulator's screen. Oracles: chunk invariance, and an independent
// screen model for text, styles, erasing, cursor addressing and scrolling.
import { fc, runCheck, ensure, same, show } from "../lib/harness.ts";
import { plainTok, anyTok } from "../lib/term.ts";
const { TerminalEmulator } = await import("/repo/src/terminal/emulator.ts");
const { THEMES, resolveThemeSpec } = await import("/repo/src/terminal/theme.ts");

// ── reference screen ──
const hex = (r: number, g: number, b: number): string => "#" + [r, g, b].map((v) => v.toString(16).padStart(2, "0")).join("");
const CUBE = [0, 95, 135, 175, 215, 255];
const pal = (ansi: string[], i: number): string => i < 16 ? ansi[i] : i < 232 ? hex(CUBE[Math.floor((i - 16) / 36)], CUBE[Math.floor((i - 16) / 6) % 6], CUBE[(i - 16) % 6]) : hex(8 + 10 * (i - 232), 8 + 10 * (i - 232), 8 + 10 * (i - 232));
const width = (ch: string): number => /[\u1100-\u115f\u2e80-\ua4cf\uac00-\ud7a3\uf900-\ufaff\ufe30-\ufe4f\uff00-\uff60]/.test(ch) ? 2 : 1;
export class Model {
  x = 0; y = 0; vis = true; st = { fg: null as string | null, bg: null as string | null, bold: false, italic: false, dim: false, underline: false }; g: any[][];
  constructor(public cols: number, public rows: number, public ansi: string[]) { this.g = Array.from({ length: rows }, () => this.line(null)); }
  line(bg: string | null): any[] { return Array.from({ length: this.cols }, () => this.blank(bg)); }
  blank(bg: string | null) { return { char: " ", fg: null, bg, bold: false, italic: false, dim: false, underline: false }; }
  lf(): void { if (this.y === this.rows - 1) { this.g.shift(); this.g.push(this.line(this.st.bg)); } else this.y++; if (this.x >= this.cols) this.x = this.cols - 1; }
  put(ch: string): void {
    if (/\p{M}/u.test(ch)) { let k = this.x - 1; if (k >= 0 && this.g[this.y][k].char === "") k--; if (k >= 0) this.g[this.y][k].char += ch; return; }
    const w = width(ch);
    if (w > this.cols) return;
    if (this.x + w > this.cols) { this.breakPair(this.x); for (let k = this.x; k < this.cols; k++) this.g[this.y][k] = { ...this.blank(this.st.bg), ...this.st }; const nx = this.y === this.rows - 1; this.x = 0; if (nx) { this.g.shift(); this.g.push(this.line(this.st.bg)); } else this.y++; }
    const r = this.g[this.y]; this.breakPair(this.x); this.breakPair(this.x + w);
    r[this.x] = { char: ch, ...this.st }; if (w === 2) r[this.x + 1] = { ...this.blank(null), char: "" }; this.x += w;
  }
  /** Overwriting half of a wide glyph leaves the other half blank. */
  breakPair(x: number, cell: any = { ...this.blank(null), ...this.st }): void { const r = this.g[this.y]; if (x > 0 && x < this.cols && r[x].char === "") { r[x - 1] = { ...cell }; r[x] = { ...cell }; } }
  erase(y: number, a: number, b: number): void { for (let x = a; x < Math.min(b, this.cols); x++) this.g[y][x] = this.blank(this.st.bg); }
  sgr(ps: number[]): void {
    const s = this.st;
    for (let i = 0; i < ps.length; i++) {
      const p = ps[i];
      if (p === 0) this.st = Object.assign(s, { fg: null, bg: null, bold: false, italic: false, dim: false, underline: false });
      else if (p === 1) s.bold = true; else if (p === 2) s.dim = true; else if (p === 3) s.italic = true; else if (p === 4) s.underline = true;
      else if (p === 22) s.bold = s.dim = false; else if (p === 23) s.italic = false; else if (p === 24) s.underline = false;
      else if (p >= 30 && p <= 37) s.fg = this.ansi[p - 30]; else if (p >= 40 && p <= 47) s.bg = this.ansi[p - 40]; else if (p >= 90 && p <= 97) s.fg = this.ansi[p - 82]; else if (p >= 100 && p <= 107) s.bg = this.ansi[p - 92];
      else if (p === 39) s.fg = null; else if (p === 49) s.bg = null;
      else if (p === 38 || p === 48) { let c: string; if (ps[i + 1] === 5) { c = pal(this.ansi, ps[i + 2]); i += 2; } else { c = hex(ps[i + 2], ps[i + 3], ps[i + 4]); i += 4; } if (p === 38) s.fg = c; else s.bg = c; }
    }
  }
  feed(tok: string): void {
    const m = /^\x1b\[(\??)([\d;]*)([A-Za-z])$/.exec(tok);
    if (!m) { for (const ch of Array.from(tok)) if (ch === "\r") this.x = 0; else if (ch === "\n") this.lf(); else this.put(ch); return; }
    const ps = m[2].split(";").map((v) => Number(v || 0)); const p = ps[0];
    if (m[1]) { if (p === 25) this.vis = m[3] === "h"; return; }
    if (m[3] === "m") this.sgr(ps); else if (m[3] === "H") { this.y = Math.min(this.rows, Math.max(1, p)) - 1; this.x = Math.min(this.cols, Math.max(1, ps[1])) - 1; }
    else if (m[3] === "K") { this.wideEdge(p); if (p === 0) this.erase(this.y, this.x, this.cols); else if (p === 1) this.erase(this.y, 0, this.x + 1); else this.erase(this.y, 0, this.cols); }
    else if (m[3] === "J") { if (p === 0) { this.wideEdge(0); this.erase(this.y, this.x, this.cols); for (let y = this.y + 1; y < this.rows; y++) this.erase(y, 0, this.cols); } else for (let y = 0; y < this.rows; y++) this.erase(y, 0, this.cols); }
  }
  wideEdge(p: number): void { const b = this.blank(this.st.bg); if (p === 0) this.breakPair(this.x, b); if (p === 1) this.breakPair(this.x + 1, b); }
}
const size = fc.tuple(fc.integer({ min: 2, max: 14 }), fc.integer({ min: 2, max: 6 }));
const themeA = fc.oneof(fc.constantFrom(...Object.keys(THEMES)).map((n) => ({ name: n as string | undefined, spec: undefined as any })), fc.record({ extends: fc.constantFrom(undefined, ...Object.keys(THEMES)), bg: fc.constantFrom(undefined, "#010101"), fg: fc.constantFrom(undefined, "#fefefe"), ansi: fc.constantFrom(undefined, Array.from({ length: 16 }, (_, i) => `#0${i.toString(16)}0${i.toString(16)}ff`)) }).map((s) => ({ name: undefined as string | undefined, spec: Object.fromEntries(Object.entries(s).filter(([, v]) => v !== undefined)) as any })));

await runCheck({ id: "T02", assumptions: ["character cells are produced by @xterm/headless; the property is about what the emulator reports of them"], parts: [
  { name: "model", rule: "random streams of text (wide and combining characters included), SGR styles, line feeds, cursor addressing, erasing and cursor visibility, on every theme, compared cell by cell with an independent screen model; non-trivial = at least 4 tokens with a style and a line break",
    arb: size.chain(([c, r]) => fc.record({ c: fc.constant(c), r: fc.constant(r), th: themeA, toks: fc.array(plainTok(c, r), { maxLength: 25, size: "max" }) })), runs: { quick: 3000, thorough: 120000 },
    prop: async ({ c, r, th, toks }, ctx) => {
      const theme = resolveThemeSpec(th.name ?? th.spec); const base = THEMES[th.name ?? th.spec.extends ?? "catppuccin"];
      same([theme.bg, theme.fg, theme.ansi], [th.spec?.bg ?? base.bg, th.spec?.fg ?? base.fg, th.spec?.ansi ?? base.ansi], "resolved theme");
      ctx.hit(toks.length >= 4 && toks.some((t) => t.endsWith("m") && t[0] === "\x1b") && toks.some((t) => t.includes("\n"))); ctx.label(toks.some((t) => /[日한漢]/.test(t)) && "wide", toks.some((t) => /\u0301/.test(t)) && "combining", toks.some((t) => t.includes("?25")) && "cursor visibility");
      const m = new Model(c, r, theme.ansi); const emu = new TerminalEmulator(c, r, theme);
      try {
        for (const t of toks) m.feed(t);
        await emu.write(toks.join(""));
        const g = emu.snapshot(); same([g.length, g[0].length], [r, c], "screen size");
        for (let y = 0; y < r; y++) for (let x = 0; x < c; x++) {
          const a = g[y][x], b = m.g[y][x];
          same(a.char, b.char, `${show(toks)} on ${c}x${r}: text of cell ${x},${y} (row ${show(g[y].map((q: any) => q.char).join("|"))})`);
          if (b.char === "") continue; // the covered half of a wide glyph shows nothing of its own
          same({ ...a }, { ...b }, `${show(toks)} on ${c}x${r}: cell ${x},${y}`);
        }
        const cur = emu.cursor(); same({ ...cur }, { x: Math.min(m.x, c - 1), y: m.y, visible: m.vis }, `${show(toks)} on ${c}x${r}: cursor`);
      } finally { emu.dispose(); }
    } },
  { name: "chunks", rule: "random streams over everything a program may send, cut into random chunks (inside escape sequences and surrogate pairs too); screen, cursor and cursor visibility must not depend on the cuts; non-trivial = a cut falls inside an escape sequence",
    arb: size.chain(([c, r]) => fc.record({ c: fc.constant(c), r: fc.constant(r), toks: fc.array(anyTok(c, r), { minLength: 1, maxLength: 20, size: "max" }), cuts: fc.array(fc.noBias(fc.integer({ min: 0, max: 999 })), { minLength: 1, maxLength: 8, size: "max" }), resize: fc.option(fc.record({ c: fc.integer({ min: 2, max: 16 }), r: fc.integer({ min: 1, max: 7 }) }), { nil: undefined, freq: 4 }) })), runs: { quick: 1500, thorough: 120000 },
    prop: async ({ c, r, toks, cuts, resize }, ctx) => {
      const s = toks.join(""); const at = [...new Set(cuts.map((u) => Math.floor(u * (s.length + 1) / 1000)))].sort((a, b) => a - b);
      const spans: [number, number][] = []; let p = 0; for (const t of toks) { if (t[0] === "\x1b") spans.push([p, p + t.length]); p += t.length; }
      ctx.hit(at.some((k) => spans.some(([a, b]) => k > a && k < b))); ctx.label(resize && "resize", s.includes("?25") && "cursor visibility");
      const A = new TerminalEmulator(c, r), B = new TerminalEmulator(c, r);
      try {
        await A.write(s); let q = 0; for (const k of [...at, s.length]) { await B.write(s.slice(q, k)); q = k; }
        if (resize) { A.resize(resize.c, resize.r); B.resize(resize.c, resize.r); }
        const ga = A.snapshot(), gb = B.snapshot(); same(gb, ga, `${show(s)} cut at ${show(at)}: screen`); same(B.cursor(), A.cursor(), `${show(s)} cut at ${show(at)}: cursor`);
        const [C, R] = resize ? [resize.c, resize.r] : [c, r]; ensure(ga.length === R && ga.every((row: any) => row.length === C), () => `screen is ${ga.length} rows, expected ${C}x${R}`);
        const k = A.cursor(); ensure(k.x >= 0 && k.x < C && k.y >= 0 && k.y < R, () => `${show(s)}: cursor ${show(k)} lies off the ${C}x${R} screen`);
        // Cursor visibility as the stream last set it.
        let vis = true; for (const t of toks) { if (/^\x1b\[\?(?:[\d;]*;)?25(?:;[\d;]*)?[hl]$/.test(t)) vis = t.endsWith("h"); else if (t === "\x1bc" || t === "\x1b[!p") vis = true; }
        ensure(k.visible === vis, () => `${show(s)}: cursor ${k.visible ? "shown" : "hidden"}, the program ${vis ? "shows" : "hides"} it`);
      } finally { A.dispose(); B.dispose(); }
    } },
] });
