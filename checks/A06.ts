// A06: text tracks (caret and selection). Oracle: the addressed text laid out by this file's own
// generator (so every character's painted cell is known), the event script evaluated by a small
// reference machine, and the document played at random instants.
import { fc, runCheck, ensure, near, same, show } from "../lib/harness.ts";
import { parseXml, walk, els, classes, idReport, type XNode } from "../lib/xml.ts";
import { Player, matOf, parseTransform, mul, I, apply, type Mat } from "../lib/css.ts";
import { el } from "../lib/tree.ts";
import { generateAnimatedSvg } from "/repo/src/index.ts";
import { resolveTextTrack } from "/repo/src/animation/caret-track.ts";
import { addressableLength } from "/repo/src/animation/text-address.ts";
import { clearGlyphDefs, clearEmbeddedFonts } from "/repo/src/render/index.ts";
import { renderTextAsPath } from "/repo/src/render/text-to-path.ts";
import { withRenderTextMode, getGlyphDefs } from "/repo/src/render/font-resolution.ts";

const opt = <T>(a: fc.Arbitrary<T>, freq = 2): fc.Arbitrary<T | undefined> => fc.option(a, { nil: undefined, freq });
const clean = <T extends object>(o: T): T => { for (const k of Object.keys(o)) if ((o as any)[k] === undefined) delete (o as any)[k]; return o; };

/** One character as laid out: its painted cell and the run it belongs to. */
interface Cell { ch: string; run: number; lo: number; hi: number; rtl: boolean }
interface Run { x: number; y: number; asc: number; desc: number; fs: number; weight: string; style: string; end: number; col?: number; blank?: boolean }
interface Page { root: any; cells: Cell[]; runs: Run[]; vertical: boolean; kind: string }

const WORDS = ["a", "Wide", "fit", "x.y", "日本", "é", "😀", "q😀z", "Ünï", "const x", "AV To", "🎉🎉", "=>", "i"];
const HEB = ["שלום", "א", "בית", "abc", "Q", "x y", "מה זה", "דג ab כל"];
interface Piece { text: string; owner: number; fs: number; shift: number; adv: number; weight: string; style: string }
const piece = (words: string[]): fc.Arbitrary<Piece> => fc.record({ text: fc.constantFrom(...words), owner: fc.constantFrom(0, 0, 1, 2, 3), fs: fc.constantFrom(12, 16, 20), shift: fc.constantFrom(0, 0, 0, -2, 2), adv: fc.integer({ min: 3, max: 14 }), weight: fc.constantFrom("400", "700"), style: fc.constantFrom("normal", "italic") });
const pageArb = fc.record({
  kind: fc.constantFrom("mixed", "mixed", "own", "bidi", "bidi", "vertical", "input", "long", "long"), x0: fc.integer({ min: 5, max: 60 }).map((v) => v + 0.25), y0: fc.integer({ min: 5, max: 60 }).map((v) => v + 0.5),
  lines: fc.array(fc.array(piece(WORDS), { minLength: 1, maxLength: 4, size: "max" }), { minLength: 1, maxLength: 4, size: "max" }),
  heb: fc.array(fc.array(fc.constantFrom(...HEB), { minLength: 1, maxLength: 3 }), { minLength: 1, maxLength: 3 }), rtl: fc.boolean(), rl: fc.boolean(), segAscent: fc.boolean(), shuffle: fc.boolean(), wrap: fc.boolean(), byMatch: fc.boolean() });

/** Unit advances, deterministic and uneven. */
const advance = (p: { adv: number }, k: number): number => p.adv + (k * 7 % 5) * 0.75;
function build(p: any, id: string): Page {
  const cells: Cell[] = [], runs: Run[] = []; const owners: any[] = [0, 1, 2, 3].map(() => [] as any[]); const vertical = p.kind === "vertical";
  const asc = 15, desc = 5; // the target's captured font box at 16 px
  if (p.kind === "input") {
    const q = p.lines[0][0]; const text = p.lines[0].map((z: Piece) => z.text).join(""); let x = p.x0; const xs: number[] = []; const run = runs.push({ x, y: p.y0, asc, desc, fs: 16, weight: "400", style: "normal", end: 0 }) - 1; let k = 0;
    for (const ch of text) { const w = advance(q, k++); for (let u = 0; u < ch.length; u++) xs.push(x); cells.push({ ch, run, lo: x, hi: x + w, rtl: false }); x += w; }
    runs[run].end = x;
    return { root: el({ tag: "input", x: p.x0 - 4, y: p.y0 - 3, width: 300, height: 26, animId: id, text, inputXOffsets: xs, textLeft: p.x0, textTop: p.y0, textWidth: x - p.x0, textHeight: 20, fontAscent: asc, fontDescent: desc }), cells, runs, vertical, kind: p.kind };
  }
  if (p.kind === "bidi") {
    // one run per line; levels by the rules for letters and spaces alone
    const lines: string[] = p.heb.map((l: string[]) => l.join(" ")); const all = lines.join(""); const cls = [...all].map((c) => /[א-ת]/.test(c) ? "R" : c === " " ? "N" : "L"); const level: number[] = []; const base = p.rtl ? 1 : 0;
    cls.forEach((c, i) => { let t = c; if (c === "N") { let a = i, b = i; while (a >= 0 && cls[a] === "N") a--; while (b < cls.length && cls[b] === "N") b++; const e = p.rtl ? "R" : "L"; const l = cls[a] ?? e, r = cls[b] ?? e; t = l === r ? l : e; } level.push(t === "R" ? 1 : p.rtl ? 2 : 0); });
    let at = 0, y = p.y0; const segs: any[] = [];
    for (const line of lines) {
      const lv = level.slice(at, at + line.length); at += line.length; let order = [...line].map((_, i) => i); for (let L = 2; L >= 1; L--) { let i = 0; while (i < order.length) { if (lv[order[i]] < L) { i++; continue; } let j = i; while (j < order.length && lv[order[j]] >= L) j++; order = [...order.slice(0, i), ...order.slice(i, j).reverse(), ...order.slice(j)]; i = j; } }
      const left: number[] = [], right: number[] = []; let x = p.x0; for (const i of order) { left[i] = x; x += advance({ adv: 7 }, i); right[i] = x; }
      const run = runs.push({ x: p.x0, y, asc, desc, fs: 16, weight: "400", style: "normal", end: x }) - 1; [...line].forEach((ch, i) => cells.push({ ch, run, lo: left[i], hi: right[i], rtl: lv[i] % 2 === 1 }));
      segs.push({ text: line, x: p.x0, y, width: x - p.x0, height: 20, xOffsets: left }); y += 26;
    }
    return { root: el({ x: p.x0, y: p.y0, width: 400, height: 200, animId: id, text: "", textSegments: segs, fontAscent: asc, fontDescent: desc, styles: { direction: p.rtl ? "rtl" : "ltr" } }), cells, runs, vertical, kind: p.kind };
  }
  let flow = 0; const own = p.kind === "own" || p.kind === "long"; let lines: Piece[][] = p.lines; if (p.kind === "long") lines = [0, 1, 2].map((i) => [{ ...lines[0][0], owner: 0, shift: 0, adv: 4, text: "Pack my box with five dozen jugs of liquor now ".slice(i, 46) }]);
  for (const line of lines) {
    let along = vertical ? p.y0 : p.x0;
    for (const q of line) {
      const owner = own ? 0 : q.owner; const a = vertical ? asc : Math.round(q.fs * 0.9), segFs = owner === 0 ? (q.fs === 16 ? undefined : q.fs) : undefined; const fs = q.fs;
      const start = along; const offs: number[] = []; const adv: number[] = []; let k = 0; const run = runs.length; const W = 18;
      const cross = vertical ? (p.rl ? 400 - flow : p.x0 + flow) : p.y0 + flow + 15 - a + q.shift;
      for (const ch of q.text) { const w = advance(q, k++) + (vertical ? 6 : 0); for (let u = 0; u < ch.length; u++) { offs.push(along); adv.push(w); } cells.push({ ch, run, lo: along, hi: along + w, rtl: false }); along += w; }
      runs.push(vertical ? { x: cross, y: start, asc: a, desc, fs, weight: q.weight, style: q.style, end: along, col: W } : { x: start, y: cross, asc: a, desc, fs, weight: q.weight, style: q.style, end: along });
      owners[owner].push({ q, seg: clean(vertical ? { text: q.text, x: cross, y: start, width: W, height: along - start, verticalWritingMode: p.rl ? "vertical-rl" : "vertical-lr", yOffsets: offs, verticalAdvances: adv, fontSize: segFs ?? fs, fontWeight: q.weight, fontStyle: q.style, fontAscent: a } : { text: q.text, x: start, y: cross, width: along - start, height: 20, xOffsets: offs, fontSize: fs, fontWeight: q.weight, fontStyle: q.style, fontAscent: a }) });
    }
    flow += 30;
  }
  const st = vertical ? { writingMode: p.rl ? "vertical-rl" : "vertical-lr" } : {};
  const kid = (k: number, extra: any[] = []): any => el({ tag: "span", x: p.x0, y: p.y0, text: "", textSegments: owners[k].map((o: any) => o.seg), fontAscent: asc, fontDescent: desc, styles: st, children: extra });
  // 1 and 2 are children, 3 sits inside 2
  let kids = [kid(1), kid(2, [kid(3)])]; if (p.shuffle) kids = kids.reverse(); if (p.wrap) kids = [el({ x: p.x0, y: p.y0, styles: st, children: kids })];
  return { root: el({ x: p.x0, y: p.y0, width: 400, height: 200, animId: id, text: "", textSegments: owners[0].map((o: any) => o.seg), fontAscent: asc, fontDescent: desc, styles: st, children: own ? [] : kids }), cells, runs, vertical, kind: p.kind };
}

const frac = fc.integer({ min: 0, max: 1000 });
const gap = fc.oneof({ weight: 1, arbitrary: fc.constant(0) }, { weight: 4, arbitrary: fc.integer({ min: 20, max: 900 }) });
const ev = fc.record({ gap, other: fc.constantFrom(false, false, false, true), e: fc.oneof(
  { weight: 4, arbitrary: fc.record({ type: fc.constantFrom("park", "move"), at: fc.oneof({ weight: 6, arbitrary: frac }, { weight: 1, arbitrary: fc.constantFrom(1001, -1) }) }) as fc.Arbitrary<any> },
  { weight: 1, arbitrary: fc.constant({ type: "hide" }) as fc.Arbitrary<any> },
  { weight: 3, arbitrary: fc.record({ type: fc.constant("select"), a: fc.oneof({ weight: 2, arbitrary: frac }, { weight: 1, arbitrary: fc.constantFrom(0, 0, 40) }), b: fc.oneof({ weight: 3, arbitrary: frac }, { weight: 1, arbitrary: fc.constant(1000) }), sweepMs: opt(fc.oneof(fc.constant(0), fc.integer({ min: 10, max: 2500 })), 4), color: opt(fc.constantFrom("#f00", "rgba(0,255,0,0.5)")) }).map(clean) as fc.Arbitrary<any> },
  { weight: 2, arbitrary: fc.constant({ type: "clearSelection" }) as fc.Arbitrary<any> }) });
const trackArb = fc.record({ shape: opt(fc.constantFrom("bar", "block", "underscore"), 4), color: opt(fc.constantFrom("#e00", "#123456")), barWidthPx: opt(fc.integer({ min: 1, max: 5 })), blinkMs: opt(fc.integer({ min: 300, max: 1500 })), selectionColor: opt(fc.constant("#0f08")), invert: opt(fc.boolean(), 3), invertTextColor: opt(fc.constant("#fe0")), evs: fc.array(ev, { minLength: 1, maxLength: 10, size: "max" }) });

interface Box { x: number; y: number; w: number; h: number; loose?: boolean }
interface Spot { page: Page; n: number; box: Box; cell?: Cell; run: Run }
function spot(page: Page, n: number, tr: any): Spot | null {
  if (n < 0 || n > page.cells.length || page.cells.length === 0) return null;
  const cell = page.cells[n]; const last = page.cells[page.cells.length - 1]; const r = page.runs[(cell ?? last).run]; const shape = tr.shape ?? "bar", bar = tr.barWidthPx ?? 2, thin = Math.max(1, Math.round(r.fs / 12));
  if (page.vertical) {
    const y = cell ? cell.lo : r.end, ext = Math.max(1, cell ? cell.hi - cell.lo : r.fs);
    return { page, n, cell, run: r, box: shape === "bar" ? { x: r.x, y, w: r.col!, h: bar } : shape === "block" ? { x: r.x, y, w: r.col!, h: ext } : { x: r.x, y, w: thin, h: ext } };
  }
  const rtl = (cell ?? last).rtl; const x = cell ? (rtl ? cell.hi : cell.lo) : rtl ? last.lo : last.hi; const ext = cell ? Math.max(1, cell.hi - cell.lo) : NaN; const base = r.y + r.asc; const h = Math.round(r.asc + r.desc);
  const w = shape === "bar" ? bar : ext; const left = rtl ? x - w : x; const box: Box = shape === "underscore" ? { x: left, y: base, w, h: thin } : { x: left, y: r.y, w, h };
  if (Number.isNaN(w)) { box.loose = true; box.x = x; }
  return { page, n, cell, run: r, box };
}
/** The cells of a range as the strips they paint, in reading order: a strip per run and direction. */
function strips(page: Page, from: number, to: number): Cell[][] {
  const out: Cell[][] = []; let prev: Cell | null = null;
  for (const c of page.cells.slice(from, to)) { if (prev && prev.run === c.run && prev.rtl === c.rtl) out[out.length - 1].push(c); else out.push([c]); prev = c; }
  return out;
}
/** Equality with a message built only when it fails. */
const eq = (got: unknown, want: unknown, what: () => string): void => { if (!Object.is(got, want)) same(got, want, what()); };
const glyphShape = (n: XNode): string => `${n.name}{${[...n.attrs].map(([k, v]) => `${k}=${v}`).sort().join(";")}}[${els(n).map(glyphShape).join("")}]`;
const hush = console.warn; console.warn = (...a: any[]) => { if (!String(a[0]).startsWith("caret-track:")) hush(...a); };

runCheck({ id: "A06", parts: [
  { name: "track", rule: "captured text of every kind (own runs, runs of children and grandchildren mixed on a line, wrapped lines, astral characters, right-to-left words in either paragraph direction, columns, input values, long passages), one or two tracks of up to 10 events (park, move, hide, select, clear; unresolvable and late ones included) in every caret shape; played at random instants, around every event and in later laps; non-trivial = a caret or a partly swept or whole selection is seen",
    arb: fc.record({ a: pageArb, b: pageArb, tracks: fc.array(trackArb, { minLength: 1, maxLength: 2 }), total: fc.integer({ min: 800, max: 9000 }), qs: fc.array(fc.integer({ min: 0, max: 1000 }), { minLength: 5, maxLength: 8 }), lap: fc.constantFrom(0, 0, 1, 7), shuffle: fc.boolean() }),
    runs: { quick: 1200, thorough: 30000 },
    prop: (c, ctx) => {
      clearEmbeddedFonts(); clearGlyphDefs();
      const A = build(c.a, "ta"), B = build({ ...c.b, x0: c.b.x0 + 300 }, "tb"); const roots = [el({ x: 0, y: 0, width: 800, height: 600, children: [el({ x: 0, y: 0, text: "", textSegments: [{ text: "decoy", x: 1, y: A.runs[0].y, width: 30, height: 20, xOffsets: [1, 5, 9, 14, 20] }] }), A.root, B.root] })];
      const total = c.total; const addr = (pg: Page): any => (pg === A ? c.a : c.b).byMatch ? { match: (e: any) => e.animId === (pg === A ? "ta" : "tb") } : { animId: pg === A ? "ta" : "tb" };
      for (const pg of [A, B]) same(addressableLength(roots, addr(pg)), pg.cells.length, `characters in the ${pg.kind} text ${show(pg.cells.map((q) => q.ch).join(""))}`);
      const idx = (pg: Page, f: number): number => f < 0 ? -1 : f > 1000 ? pg.cells.length + 1 : Math.round(f / 1000 * pg.cells.length);
      const scripts = c.tracks.map((tr) => { let t = 0; return tr.evs.map(({ gap, other, e }) => { t += gap; const pg = other ? B : A; const tgt = other ? { target: addr(B) } : {}; const o: any = e.type === "park" || e.type === "move" ? { type: e.type, t, charOffset: idx(pg, e.at), ...tgt } : e.type === "select" ? clean({ type: "select", t, charStart: idx(pg, Math.min(e.a, e.b)), charEnd: idx(pg, Math.max(e.a, e.b)), sweepMs: e.sweepMs, color: e.color, ...tgt }) : { type: e.type, t }; return { o, pg }; }); });
      const specs = c.tracks.map(({ evs, ...st }, i) => { const l = scripts[i].map((s) => s.o); const ties = new Set(l.map((e) => e.t)).size !== l.length; return clean({ ...st, target: addr(A), events: c.shuffle && !ties ? [...l].reverse() : l }); });
      const svg = generateAnimatedSvg({ width: 800, height: 600, frames: [{ svgContent: "<path d='M0 0'/>", duration: total, transition: { type: "cut", duration: 0 } }], textTracks: specs.map((s) => resolveTextTrack(roots, s as any)) } as any);
      const root = parseXml(svg), pl = new Player(root); const ids = idReport(root); ensure(!ids.duplicates.length && !ids.dangling.length, "ids");
      const lapD = Number((total / 1000).toFixed(2)) * 1000; const D = pl.durations().filter((d) => Math.abs(d - total) < 6).reduce((b, d) => Math.abs(d - lapD) < Math.abs(b - lapD) ? d : b, total); const k = D / total; const T = (u: number): number => u * k + c.lap * D;
      const order = [...walk(root)]; const defs = new Map<string, XNode>(); for (const e of order) if (e.attrs.get("id")) defs.set(e.attrs.get("id")!, e);
      const at = (n: XNode, u: number): Mat => { const ch: XNode[] = []; for (let e: XNode | null = n; e && e !== root; e = e.parent) ch.unshift(e); return ch.reduce((m, e) => { const v = pl.value(e, "transform", T(u)); return v && v !== "none" ? mul(m, matOf(parseTransform(v))) : m; }, I); };
      const bounds = (n: XNode, u: number): Box => { const g = (p: string): number => parseFloat(pl.value(n, p, T(u)) ?? n.attrs.get(p) ?? "0"); const m = at(n, u); const p = apply(m, g("x"), g("y")), q = apply(m, g("x") + g("width"), g("y") + g("height")); return { x: Math.min(p[0], q[0]), y: Math.min(p[1], q[1]), w: Math.abs(p[0] - q[0]), h: Math.abs(p[1] - q[1]) }; };
      const groups = order.filter((e) => classes(e).includes("text-track")); let gi = 0, seen = false; const eps = total * 2e-6 + 0.6;
      c.tracks.forEach((tr, ti) => {
        const evs = [...scripts[ti]].sort((p, q) => p.o.t - q.o.t); const blink = tr.blinkMs ?? 1060; const invert = tr.invert === true && tr.shape === "block";
        const carets: { t: number; s: Spot | null }[] = []; const sels: any[] = [];
        for (const { o, pg } of evs) {
          if (o.type === "park" || o.type === "move") { const s = spot(pg, o.charOffset, tr); if (s) carets.push({ t: o.t, s }); }
          else if (o.type === "hide") carets.push({ t: o.t, s: null });
          else if (o.type === "select") { if (o.charEnd > o.charStart && o.charStart >= 0 && o.charStart < pg.cells.length) sels.push({ t: o.t, sweep: o.sweepMs ?? 0, color: o.color ?? tr.selectionColor ?? "#3b82f6aa", strips: strips(pg, o.charStart, o.charEnd), pg, clear: Infinity }); }
          else for (let i = sels.length - 1; i >= 0; i--) if (sels[i].clear === Infinity) { sels[i].clear = o.t; break; }
        }
        carets.sort((p, q) => p.t - q.t || (p.s ? 1 : 0) - (q.s ? 1 : 0));
        const waypoints = carets.filter((q) => q.s); if (waypoints.length === 0 && sels.length === 0) return;
        const g = groups[gi++]; ensure(g, () => `track ${ti} is missing of ${show(specs[ti])}`); same(g.attrs.get("pointer-events"), "none", "pointer-events"); ensure(order.indexOf(g) > Math.max(...order.map((e, i) => classes(e).includes("f") ? i : -1)), "above the frames");
        const inside = [...walk(g)]; const rects = inside.filter((e) => classes(e).includes("tt-sel")), layers = inside.filter((e) => classes(e).includes("tt-caret"));
        ensure(!rects.length || !layers.length || order.indexOf(rects[rects.length - 1]) < order.indexOf(layers[0]), "the caret paints over its selection");
        ctx.label(invert ? "invert" : tr.shape ?? "bar", A.kind, sels.length > 0 && "selection", sels.some((s) => s.clear < s.t + s.sweep) && "cleared mid-sweep", sels.some((s) => s.strips.flat().length > 120 && s.sweep > 0) && "linear", c.lap > 0 && "lap");
        const what = (u: number): string => `at ${u.toFixed(1)} of ${total} ms (lap ${c.lap}), text ${show(A.cells.map((q) => q.ch).join(""))} / ${show(B.cells.map((q) => q.ch).join(""))}, track ${show({ ...specs[ti], target: undefined, events: (specs[ti] as any).events.map((e: any) => clean({ ...e, target: e.target ? "b" : undefined })) })}`;
        const edges = evs.flatMap(({ o }) => [o.t, ...(o.sweepMs ? [o.t + o.sweepMs] : [])]); const mids = sels.flatMap((s) => s.sweep ? [0.13, 0.5, 0.87].map((f) => s.t + s.sweep * f) : []);
        const us = [...c.qs.map((q) => q / 1000 * (total - 2)), ...edges.flatMap((u) => [u - 3 - eps, u + 3 + eps]), ...mids].filter((u) => u >= 1 && u < total - 1);
        for (const u of us) {
          if (edges.some((e) => Math.abs(e - u) <= eps)) continue;
          // caret
          const ph = (T(u) % blink) / blink; const now = carets.filter((q) => q.t <= u).pop()?.s ?? null; const near0 = [0, 0.5, 1].some((q) => Math.abs(ph - q) * blink < eps);
          const lit = layers.filter((l) => pl.effectiveOpacity(l, T(u)) > 0.01);
          if (!near0) {
            eq(lit.length, now && ph < 0.5 ? 1 : 0, () => `carets seen — ${what(u)}`);
            if (lit.length) {
              seen = true; const r = lit[0]; const b = bounds(r, u), w = now!.box; const tol = (v: number): number => 0.02 + Math.abs(v) * 0.002 + (invert ? 0 : 0.25);
              const strong = Number(r.attrs.get("fill-opacity") ?? 1); eq(r.attrs.get("fill"), tr.color ?? "#111111", () => `caret colour — ${what(u)}`);
              if (w.loose) { ensure(b.w > 0.5 && b.w < 40, () => `width of the cell after the text: ${b.w} — ${what(u)}`); const rtl = now!.page.cells[now!.page.cells.length - 1].rtl; near(rtl ? b.x + b.w : b.x, w.x, 0.3, () => `caret x after the text — ${what(u)}`); }
              else { near(b.x, w.x, 0.02, () => `caret x — ${what(u)}`); near(b.w, w.w, tol(w.w), () => `caret width — ${what(u)}`); }
              near(b.y, w.y, 0.02, () => `caret y — ${what(u)}`); near(b.h, w.h, tol(w.h), () => `caret height — ${what(u)}`);
              if (!invert) near(strong, tr.shape === "block" ? 0.5 : 1, 1e-9, () => `caret strength — ${what(u)}`);
              else {
                // the covered character repainted in the inverse ink, or else the page's own glyph shows through
                const extra = els(r.parent!).filter((e) => e !== r); const cell = now!.cell;
                if (now!.page.vertical) { near(strong, 0.5, 1e-9, () => `a column's cell stays translucent — ${what(u)}`); eq(extra.length, 0, () => `no repaint over a column — ${what(u)}`); }
                else if (!cell) { near(strong, 1, 1e-9, () => `an empty cell is solid — ${what(u)}`); eq(extra.length, 0, () => `nothing to repaint after the text — ${what(u)}`); }
                else {
                  const rn = now!.run; const want = withRenderTextMode("paths", () => renderTextAsPath(cell.ch, now!.box.x, rn.y, { fontSize: rn.fs, fontFamily: "sans-serif", fontWeight: rn.weight, fontStyle: rn.style, fill: tr.invertTextColor ?? "#ffffff", ascentOverride: rn.asc }));
                  if (want === "") { near(strong, 0.5, 1e-9, () => `no outline, so translucent — ${what(u)}`); same(extra.length, 0, "nothing repainted"); }
                  else { ctx.label("repainted"); near(strong, 1, 1e-9, () => `a repainted cell is solid — ${what(u)}`); const mine = new Map<string, string>(); for (const e of walk(parseXml(`<svg>${getGlyphDefs()}</svg>`))) if (e.attrs.get("id")) mine.set(e.attrs.get("id")!, e.attrs.get("d") ?? "?"); const outline = (e: XNode, d: (id: string) => string | undefined): string => glyphShape(e).replace(/href=#([\w-]+)/g, (_w, id) => `d=${d(id)}`);
                    eq(extra.map((e) => outline(e, (id) => defs.get(id)?.attrs.get("d"))).join(""), els(parseXml(`<svg>${want}</svg>`)).map((e) => outline(e, (id) => mine.get(id))).join(""), () => `the covered character ${show(cell.ch)} repainted — ${what(u)}`); }
                }
              }
            }
          }
          // selections: strips of all events in order
          let ri = 0; eq(rects.length, sels.reduce((n, s) => n + s.strips.length, 0), () => `selection strips — ${what(u)}`);
          for (const s of sels) {
            const n = s.strips.flat().length; const per = s.sweep / n; const on = u >= s.t && u < s.clear; const linear = n > 120 && s.sweep > 0; const prog = s.sweep > 0 ? (u - s.t) / per : n; let before = 0;
            // near a step the count may be either
            const soft = s.sweep > 0 && on && u < s.t + s.sweep && !linear && Math.abs(prog - Math.round(prog)) * per < eps;
            for (const st of s.strips) {
              const r = rects[ri++]; const b = bounds(r, u); eq(r.attrs.get("fill"), s.color, () => `selection colour — ${what(u)}`); const rn = s.pg.runs[st[0].run]; const done = Math.max(0, Math.min(st.length, (on ? prog : 0) - before)); before += st.length;
              if (soft) continue;
              const whole = { lo: Math.min(...st.map((q: Cell) => q.lo)), hi: Math.max(...st.map((q: Cell) => q.hi)) }; const full = whole.hi - whole.lo;
              const ext = linear ? full * done / st.length : (() => { const m = Math.floor(done + 1e-9); return m === 0 ? 0 : Math.max(...st.slice(0, m).map((q: Cell) => q.hi)) - Math.min(...st.slice(0, m).map((q: Cell) => q.lo)); })();
              const slack = linear ? 0.05 + full * (eps / Math.max(1, per * st.length)) : 0.03; const nearClear = linear && Math.abs(u - s.clear) < 3; if (nearClear) continue;
              const got = s.pg.vertical ? b.h : b.w; near(got, ext, slack, () => `selected extent of ${show(st.map((q: Cell) => q.ch).join(""))} — ${what(u)}`);
              if (got < 0.05) continue; seen = true; ensure(pl.effectiveOpacity(r, T(u)) > 0.99, "selection opacity");
              if (s.pg.vertical) { near(b.y, whole.lo, 0.02, () => `selection top — ${what(u)}`); near(b.x, rn.x, 0.02, () => `selection x — ${what(u)}`); near(b.w, rn.col!, 0.02, () => `column width — ${what(u)}`); }
              else { near(b.y, rn.y, 0.02, () => `selection y — ${what(u)}`); near(b.h, Math.round(rn.asc + rn.desc), 0.02, () => `selection height — ${what(u)}`); near(st[0].rtl ? b.x + b.w : b.x, st[0].rtl ? whole.hi : whole.lo, 0.03, () => `selection starts — ${what(u)}`); }
            }
          }
        }
      });
      same(groups.length, gi, "tracks painted"); ctx.hit(seen);
    } },
], assumptions: ["The cell after the last character has the font's own space advance, so its width is only bounded.", "A clear removes the latest selection still standing (docs/101).", "Within one millisecond or so of an event or sweep step either side's picture is accepted."] });
