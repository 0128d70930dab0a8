// T03: which screens a recording plays as, for how long, and what their markup shows.
import { fc, runCheck, ensure, same, near, show } from "../lib/harness.ts";
import { recording, referenceFrames, screenKey, readRow, readRows, rowOf, visible, anyTok, type Rec } from "../lib/term.ts";
const { buildFrames, gridToHtml } = await import("/repo/src/terminal/render.ts");
const { TerminalEmulator } = await import("/repo/src/terminal/emulator.ts");
const { resolveTheme, THEMES } = await import("/repo/src/terminal/theme.ts");

await runCheck({ id: "T03", assumptions: ["screen contents are those of the emulator, which T02 decides"], parts: [
  { name: "frames", rule: "random shell-like and screen-like sessions with pauses on both sides of the settle limit, resizes and random timing options; non-trivial = at least 3 frames expected and fewer frames than output events",
    arb: recording(), runs: { quick: 700, thorough: 80000 },
    prop: async (rec: Rec, ctx) => {
      const want = await referenceFrames(rec, (c, r) => new TerminalEmulator(c, r));
      ctx.hit(want.length >= 3 && want.length < rec.evs.length); ctx.label(rec.resizes.length > 0 && "resizes", Object.keys(rec.opts).length > 0 && "timing options", want.length >= 6 && "6+ frames");
      const emu = new TerminalEmulator(rec.c, rec.r); let t = 0; let got: any[];
      try { got = await buildFrames(emu, rec.evs.map((e) => ({ time: (t += e.dt) / 64, data: e.s })), rec.opts, rec.resizes.map((z) => ({ time: z.at / 64, cols: z.c, rows: z.r }))); } finally { emu.dispose(); }
      same(got.map((f) => f.durationMs), want.map((f) => f.ms), `${show(rec)}: frame durations`);
      got.forEach((f, i) => {
        ensure(screenKey(f.grid) === screenKey(want[i].grid), () => `${show(rec)}: frame ${i} shows\n${f.grid.map((r: any[]) => r.map((c) => c.char).join("")).join("\n")}\nexpected\n${want[i].grid.map((r) => r.map((c) => c.char).join("")).join("\n")}`);
        same([f.grid.length, f.grid[0].length], [want[i].grid.length, want[i].grid[0].length], `${show(rec)}: size of frame ${i}`);
        same({ ...f.cursor }, { ...want[i].cursor }, `${show(rec)}: cursor of frame ${i}`);
      });
    } },
  { name: "markup", rule: "screens of random streams rendered to markup and read back by an independent reader: every visible character, colour and style; non-trivial = at least 3 non-blank rows with a style",
    arb: fc.record({ c: fc.integer({ min: 3, max: 30 }), r: fc.integer({ min: 1, max: 8 }), theme: fc.constantFrom(...Object.keys(THEMES)), toks: fc.array(anyTok(20, 6), { minLength: 3, maxLength: 40, size: "max" }), fs: fc.constantFrom(undefined, 10, 18.5), lh: fc.constantFrom(undefined, 1.2), pad: fc.constantFrom(undefined, 0, 7) }), runs: { quick: 2500, thorough: 80000 },
    prop: async ({ c, r, theme, toks, fs, lh, pad }, ctx) => {
      const th = resolveTheme(theme); const emu = new TerminalEmulator(c, r, th); let g: any[][];
      try { await emu.write(toks.join("")); g = emu.snapshot(); } finally { emu.dispose(); }
      const html = gridToHtml(g as any, { theme: th, fontSize: fs, lineHeight: lh, padding: pad }); const rows = readRows(html);
      ctx.hit(g.filter((row) => rowOf(row).length > 0).length >= 3 && g.some((row) => row.some((k) => k.fg || k.bg || k.underline)));
      same(rows.length, g.length, "rows in the markup");
      g.forEach((row, i) => same(visible(readRow(rows[i].inner)), rowOf(row), `${show(toks)} on ${c}x${r}: row ${i}, markup ${show(rows[i].inner)}`));
      rows.forEach((q, i) => ensure(q.inner !== "", () => `row ${i} has no content, so its line box collapses`));
      const css = html.slice(html.indexOf("<style>"), html.indexOf("</style>")); const term = /\.term\{([^}]*)\}/.exec(css.replace(/\s+/g, " "));
      ensure(term, "no .term rule"); const decl = (k: string): string | undefined => new RegExp(`(?:^|[;{ ])${k}:([^;]*)`).exec(term![1])?.[1]?.trim();
      same([decl("background"), decl("color")], [th.bg, th.fg], "page colours"); near(parseFloat(decl("font-size")!), fs ?? 14, 1e-9, "font size"); near(parseFloat(decl("line-height")!), lh ?? 1.4, 1e-9, "line height"); near(parseFloat(decl("padding")!), pad ?? 16, 1e-9, "padding");
    } },
] });
