// T04: terminal playback. A stand-in browser lays the composer's page out as coloured
// rows; the emitted animation is played by an independent evaluator and every row of
// every settled instant is compared with the recording's reference frames.
import { registerHooks } from "node:module";
import { fc, runCheck, ensure, near, same, show } from "../lib/harness.ts";
import { el } from "../lib/tree.ts";
registerHooks({ resolve(spec, ctx, next) {
  if (ctx.parentURL?.includes("/src/terminal/")) {
    if (/render\/element-tree-to-svg\.(js|ts)$/.test(spec)) return { url: new URL("../lib/stub-render-capture.ts", import.meta.url).href, shortCircuit: true };
    if (/capture\/index\.(js|ts)$/.test(spec)) return { url: new URL("../lib/stub-capture.ts", import.meta.url).href, shortCircuit: true };
  }
  return next(spec, ctx);
} });
import { parseXml, walk, idReport, externalOrActive, type XNode } from "../lib/xml.ts";
import { Player, apply } from "../lib/css.ts";
import { recording, referenceFrames, castText, readRow, readRows, rowOf, visible, type Rec } from "../lib/term.ts";
const { castToAnimatedSvg } = await import("/repo/src/terminal/index.ts");
const { TerminalEmulator } = await import("/repo/src/terminal/emulator.ts");

const keys = new Map<string, number>(); const keyOf = new Map<string, string>();
const colorOf = (key: string): string => { let i = keys.get(key); if (i == null) keys.set(key, i = keys.size); const v = i + 1; const c = `rgb(${1 + (v >> 16)}, ${(v >> 8) & 255}, ${v & 255})`; keyOf.set(c.replace(/\s/g, ""), key); return c; };
function fakeBrowser(o: { cw: number; lh: number; pad: number }) {
  let html = ""; const st = { contexts: 0, closed: 0 };
  const box = () => { const rows = readRows(html); const n = Math.max(0, ...rows.map((q) => readRow(q.inner).length)); const w = 2 * o.pad + n * o.cw, h = 2 * o.pad + rows.length * o.lh; return { width: w, height: h, x: 0, y: 0, left: 0, top: 0, right: w, bottom: h }; };
  const page = {
    setDefaultTimeout() {}, setContent: async (h: string) => { html = h; }, waitForTimeout: async () => {}, close: async () => {},
    evaluate: async (fn: any, arg: any) => { const g = globalThis as any; const saved = g.document; g.document = { fonts: { ready: Promise.resolve() }, querySelector: (s: string) => s === ".term" ? { getBoundingClientRect: box } : null }; try { return await fn(arg); } finally { g.document = saved; } },
    __capture: (_m: string, _s: string, vp: any) => {
      const kids = readRows(html).flatMap((q, i) => {
        const key = visible(readRow(q.inner)); if (key.length === 0) return [];
        return [el({ x: o.pad, y: q.top ?? o.pad + i * o.lh, width: 50, height: o.lh, styles: { backgroundColor: colorOf(JSON.stringify(key)), ...(q.top != null ? { position: "absolute" } : {}) }, ...(q.anim ? { animId: q.anim } : {}) })];
      });
      return [el({ tag: "body", x: 0, y: 0, width: vp.width, height: vp.height, children: kids })];
    },
  };
  return { browser: { newContext: async () => { st.contexts++; return { newPage: async () => page, close: async () => { st.closed++; } }; } }, st };
}
const SLIDE = 130;
/** docs: the caret shows on lines the user types at; the prompt is the common beginning of the lines that grow. */
function inputFrames(fs: any[]): boolean[] {
  const line = (i: number, y: number): string => { const row = fs[i].grid[y] ?? []; let e = row.length; while (e > 0 && row[e - 1].char === " " && row[e - 1].fg == null && row[e - 1].bg == null) e--; return row.slice(0, e).map((c: any) => c.char).join(""); };
  const at = (i: number): string => line(i, fs[i].cursor.y); const grows = (a: string, b: string): boolean => a !== "" && b.length > a.length && b.startsWith(a);
  const prompts = fs.slice(0, -1).map((f, i) => [at(i), line(i + 1, f.cursor.y)]).filter(([a, b]) => grows(a, b)).map(([a]) => a);
  let sig = prompts[0] ?? ""; for (const p of prompts) while (!p.startsWith(sig)) sig = sig.slice(0, -1);
  return fs.map((f, i) => at(i) !== "" && ((sig !== "" && at(i).startsWith(sig)) || (i > 0 && grows(line(i - 1, f.cursor.y), at(i)))));
}

await runCheck({ id: "T04", assumptions: ["the browser is a stand-in that lays rows out on a monospace grid and paints each distinct row in its own colour"], parts: [
  { name: "playback", rule: "random sessions (scrolling, overwriting, clearing, resizing) composed in both modes, with every caret shape, and probed inside every frame over several loops; non-trivial = at least 3 frames, one of which moves a line that stays on screen",
    arb: fc.record({ rec: recording(), mode: fc.constantFrom("incremental", "incremental", "incremental", "full", undefined), cursor: fc.constantFrom(undefined, "block", "bar", "underline", "none"), fs: fc.constantFrom(undefined, 10, 21), pad: fc.constantFrom(undefined, 0, 9), manageFonts: fc.constantFrom(undefined, false), pin: fc.constantFrom(false, false, false, true), us: fc.array(fc.integer({ min: 1, max: 999 }), { minLength: 2, maxLength: 2 }) }), runs: { quick: 450, thorough: 20000 },
    prop: async (c, ctx) => {
      const rec: Rec = c.pin ? { ...c.rec, resizes: [] } : c.rec; // a pinned grid ignores resizes
      const frames = await referenceFrames(rec, (a, b) => new TerminalEmulator(a, b));
      if (frames.length === 0 || frames.reduce((a, f) => a + f.ms, 0) === 0) { ctx.label("plays for no time"); return; }
      const fs = c.fs ?? 14, pad = c.pad ?? 16, lh = fs * 1.4, cw = fs * 0.6;
      const { browser, st } = fakeBrowser({ cw, lh, pad });
      const r = await castToAnimatedSvg(castText(c.rec), browser as any, { ...rec.opts, mode: c.mode, cursor: c.cursor, fontSize: c.fs, padding: c.pad, manageFonts: c.manageFonts, cursorColor: "#010203", ...(c.pin ? { cols: rec.c, rows: rec.r } : {}) } as any);
      const full = c.mode === "full"; ctx.label(full ? "full" : "incremental", rec.resizes.length > 0 && "resizes", c.pin && "pinned size");
      same(st.contexts, st.closed, "browser contexts left open");
      const maxC = Math.max(rec.c, ...rec.resizes.map((z) => z.c)), maxR = Math.max(rec.r, ...rec.resizes.map((z) => z.r));
      same([r.width, r.height], [Math.ceil(2 * pad + maxC * cw), Math.ceil(2 * pad + maxR * lh)], `${show(rec)}: canvas`);
      const total = frames.reduce((a, f) => a + f.ms, 0); same(r.totalDurationMs, total, `${show(rec)}: play length`);
      const root = parseXml(r.svg); const ids = idReport(root); ensure(ids.duplicates.length === 0 && ids.dangling.length === 0, () => `ids ${show(ids)}`); ensure(externalOrActive(root).length === 0, "external references");
      same(root.attrs.get("viewBox"), `0 0 ${r.width} ${r.height}`, "viewBox");
      const pl = new Player(root); const byColor = new Map<string, { n: XNode; x: number; y: number }[]>();
      for (const n of walk(root)) { const f = n.attrs.get("fill")?.replace(/\s/g, ""); if (!f || n.name === "clipPath") continue; const m = n.name === "rect" ? ["", n.attrs.get("x") ?? "0", n.attrs.get("y") ?? "0"] : /M\s*(-?[\d.]+)[ ,](-?[\d.]+)/.exec(n.attrs.get("d") ?? ""); if (m) { const l = byColor.get(f) ?? []; l.push({ n, x: Number(m[1]), y: Number(m[2]) }); byColor.set(f, l); } }
      const rowKeys = frames.map((f) => f.grid.map((row) => rowOf(row)).map((k) => k.length ? JSON.stringify(k) : ""));
      ctx.hit(frames.length >= 3 && rowKeys.some((ks, i) => i > 0 && ks.some((k, y) => k !== "" && rowKeys[i - 1].some((p, y2) => p === k && y2 !== y))));
      const starts: number[] = []; let acc = 0; for (const f of frames) { starts.push(acc); acc += f.ms; }
      const input = inputFrames(frames); const eps = total * 3e-6 + 0.6;
      const caret = byColor.get("#010203") ?? [];
      if (!full) ensure(caret.length === (c.cursor === "none" ? 0 : 1), () => `${caret.length} carets for cursor ${c.cursor}`);
      const durs = pl.durations(); if (!full && total > 0) ensure(durs.every((d) => Math.abs(d - total) < 0.6 || Math.abs(d - 1060) < 1e-6), () => `animation lengths ${show(durs)} in a ${total} ms recording`);
      const period = full && durs.length ? Math.max(...durs) : total; // the frame-by-frame document rounds its length to 10 ms
      if (full && durs.length) near(period, total, 5.01, "loop length");
      const edge = eps + (full ? total * 1e-4 + Math.abs(period - total) : 0);
      // During a glide every line of the screen stays on, somewhere between its old row and its new one.
      if (!full) for (let i = 0; i + 1 < frames.length; i++) {
        const a = Math.max(starts[i], starts[i + 1] - SLIDE) + eps, b = starts[i + 1] - eps; if (b <= a) continue;
        for (const u of c.us) {
          const t = a + (b - a) * u / 1000; const seen = new Map<string, number[]>();
          for (const [f, l] of byColor) { const key = keyOf.get(f); if (f === "#010203" || key == null) continue; for (const q of l) if (pl.effectiveOpacity(q.n, t) > 0) { const [, Y] = apply(pl.ctm(q.n, t), q.x, q.y); seen.set(key, [...(seen.get(key) ?? []), (Y - pad) / lh]); } }
          const rowsOf = (k: string, j: number): number[] => rowKeys[j].flatMap((q, y) => q === k ? [y] : []);
          for (const k of new Set([...seen.keys(), ...rowKeys[i].filter(Boolean)])) {
            const here = rowsOf(k, i), all = [...here, ...rowsOf(k, i + 1)]; const got = seen.get(k) ?? [];
            ensure(got.length === here.length, () => `${show(rec)}: at ${t.toFixed(1)} ms (glide out of frame ${i}) ${k} shows ${got.length} times, the screen has it ${here.length} times`);
            for (const y of got) ensure(y > Math.min(...all) - 0.03 && y < Math.max(...all) + 0.03, () => `${show(rec)}: at ${t.toFixed(1)} ms (glide out of frame ${i}) ${k} is at row ${y}, outside rows ${show(all)}`);
          }
        }
      }
      for (let i = 0; i < frames.length; i++) {
        if (frames.length > 1 && total === 0) break;
        const a = starts[i] + edge, b = starts[i] + frames[i].ms - edge - (full || i === frames.length - 1 ? 0 : SLIDE);
        if (b <= a) continue; if (full && frames.length > 1 && frames[i].ms < 20) continue;
        for (const u of [0, 1000, ...c.us]) for (const loop of [0, 2]) {
          const t = a + (b - a) * u / 1000 + loop * period;
          const shown = new Map<number, string[]>();
          for (const [f, l] of byColor) for (const q of l) {
            if (f === "#010203") continue; const key = keyOf.get(f); if (key == null) continue;
            const o = pl.effectiveOpacity(q.n, t); if (o === 0) continue; ensure(o === 1, () => `${show(rec)}: at ${t} ms a line shows at opacity ${o}`);
            const [X, Y] = apply(pl.ctm(q.n, t), q.x, q.y); const row = (Y - pad) / lh;
            near(X, pad, 0.02, "line x"); near(row, Math.round(row), 0.03, () => `${show(rec)}: at ${t.toFixed(1)} ms (frame ${i}, settled) a line lies between two rows`);
            shown.set(Math.round(row), [...(shown.get(Math.round(row)) ?? []), key]);
          }
          for (let y = 0; y < maxR; y++) {
            const want = rowKeys[i][y] ? [rowKeys[i][y]] : []; const got = shown.get(y) ?? [];
            ensure(got.length === want.length && got[0] === want[0], () => `${show(rec)}: at ${t.toFixed(1)} ms of ${total} (frame ${i}) row ${y} shows ${show(got)}, the terminal showed ${show(want)}`);
          }
          if (!full && caret.length) {
            const q = caret[0]; const on = frames[i].cursor.visible && input[i]; const blinkOff = (t % 1060) >= 530;
            if (Math.abs(t % 530) < 1 || Math.abs(t % 530) > 529) continue;
            const o = pl.effectiveOpacity(q.n, t); ensure(o === (on && !blinkOff ? 1 : 0), () => `${show(rec)}: at ${t.toFixed(1)} ms (frame ${i}) the caret shows at opacity ${o}; typing line ${input[i]}, program shows cursor ${frames[i].cursor.visible}, blink ${blinkOff ? "off" : "on"}`);
            if (!on) continue; ctx.label("caret shown");
            const W = Number(q.n.attrs.get("width")), H = Number(q.n.attrs.get("height")); const [X, Y] = apply(pl.ctm(q.n, t), q.x, q.y);
            const cx = pad + frames[i].cursor.x * cw, cy = pad + frames[i].cursor.y * lh; const slack = 1.1; // the measured canvas is rounded up to a pixel
            near(X, cx, slack, () => `${show(rec)}: at ${t.toFixed(1)} ms caret x (cell ${frames[i].cursor.x})`);
            if (c.cursor === "underline") near(Y + H, cy + lh, 0.05, "underline caret bottom"); else near(Y, cy, 0.05, () => `${show(rec)}: caret y (row ${frames[i].cursor.y})`);
            ensure(W > 0 && H > 0 && W <= cw + 1.1 && H <= lh + 0.05 && (c.cursor !== "bar" || W < cw / 2) && (c.cursor !== "underline" || H < lh / 2), () => `caret ${W}x${H} for shape ${c.cursor}`);
          }
        }
      }
    } },
] });
