// A05: cursor overlay. Oracle: the event script's own description (where the pointer is,
// whether it shows, which glyph is forced or found under it, where and when clicks ring)
// evaluated by a small reference machine, against the document played at random instants.
import { fc, runCheck, ensure, near, same, show } from "../lib/harness.ts";
import { parseXml, walk, els, classes, idReport, type XNode } from "../lib/xml.ts";
import { Player, matOf, parseTransform } from "../lib/css.ts";
import { generateAnimatedSvg } from "/repo/src/index.ts";
import { cursorGlyphSvg } from "/repo/src/animation/cursor-glyphs.ts";
import { clearGlyphDefs, clearEmbeddedFonts } from "/repo/src/render/index.ts";

const opt = <T>(a: fc.Arbitrary<T>, freq = 2): fc.Arbitrary<T | undefined> => fc.option(a, { nil: undefined, freq });
const clean = <T extends object>(o: T): T => { for (const k of Object.keys(o)) if ((o as any)[k] === undefined) delete (o as any)[k]; return o; };
const KW = ["default", "pointer", "text", "grab", "none", "ew-resize", "not-allowed", "zoom-in", "wait"];
const pt = fc.record({ x: fc.integer({ min: -20, max: 620 }), y: fc.integer({ min: -20, max: 420 }) });
const gap = fc.oneof({ weight: 1, arbitrary: fc.constant(0) }, { weight: 2, arbitrary: fc.integer({ min: 1, max: 300 }) }, { weight: 2, arbitrary: fc.integer({ min: 100, max: 1500 }) });
const style = fc.record({ pulseDurationMs: opt(fc.integer({ min: 60, max: 1500 })), pulseRadius: opt(fc.integer({ min: 6, max: 80 })), pulseStroke: opt(fc.constantFrom("#f00", "rgba(0,255,0,0.5)")), cursorScale: opt(fc.constantFrom(0.5, 1.5, 3)), cursorFill: opt(fc.constant("#fe0")), cursorStroke: opt(fc.constant("#123")) }).map(clean);
const ev = fc.record({ gap, e: fc.oneof(
  { weight: 3, arbitrary: fc.record({ type: fc.constant("move"), duration: opt(fc.oneof(fc.constant(0), fc.integer({ min: 1, max: 1800 })), 4), target: fc.oneof(pt.map((to) => ({ to })), fc.record({ dx: fc.integer({ min: -200, max: 200 }), dy: fc.integer({ min: -150, max: 150 }) }).map((by) => ({ by })), fc.record({ selector: fc.constantFrom("#a", ".b > c", "missing"), offset: opt(fc.record({ dx: fc.integer({ min: -9, max: 9 }), dy: fc.integer({ min: -9, max: 9 }) })) }).map(clean)), cursor: opt(fc.constantFrom(...KW), 4) }).map(({ target, ...m }) => clean({ ...m, ...target })) as fc.Arbitrary<any> },
  { weight: 2, arbitrary: fc.record({ type: fc.constant("show"), x: fc.integer({ min: 0, max: 600 }), y: fc.integer({ min: 0, max: 400 }), cursor: opt(fc.constantFrom(...KW), 3) }).map(clean) as fc.Arbitrary<any> },
  { weight: 2, arbitrary: fc.record({ type: fc.constant("click"), button: opt(fc.constantFrom("primary", "secondary", "middle")), style: opt(style, 3) }).map(clean) as fc.Arbitrary<any> },
  { weight: 1, arbitrary: fc.constant({ type: "hide" }) as fc.Arbitrary<any> }) });
/** Where a selector's box is in a frame (nothing for one that is not there). */
const boxOf = (sel: string, frame: number): { x: number; y: number; w: number; h: number } | null => sel === "missing" || (sel === "#a" && frame === 2) ? null : { x: 40 + frame * 90, y: sel.length * 11, w: 50, h: 24 };
/** The cursor the page has at a point of a frame: a coarse grid of regions, different per frame. */
const under = (x: number, y: number, frame: number): string => KW[(((Math.floor(x / 90) * 2 + Math.floor(y / 70) * 3 + frame * 4) % KW.length) + KW.length) % KW.length];

interface State { x: number; y: number; on: boolean; kw: string | undefined }
/** Reference machine: the pointer's history as a list of laws of motion, each valid from its instant on. */
function machine(events: any[], total: number, frameAt: (t: number) => number) {
  const motion: { t: number; at: (u: number) => [number, number] }[] = [{ t: -Infinity, at: () => [0, 0] }]; const looks: { t: number; on: boolean; kw?: string }[] = [{ t: -Infinity, on: false }]; const clicks: any[] = []; const jumps: number[] = [];
  const last = <T extends { t: number }>(l: T[], u: number): T => { let r = l[0]; for (const q of l) if (q.t <= u) r = q; return r; };
  const where = (u: number): [number, number] => last(motion, u).at(u);
  for (const e of [...events].sort((a, b) => a.t - b.t)) {
    if (e.t >= total) continue; const [x, y] = where(e.t);
    if (e.type === "show") { motion.push({ t: e.t, at: () => [e.x, e.y] }); looks.push({ t: e.t, on: true, kw: e.cursor }); jumps.push(e.t); }
    else if (e.type === "hide") { looks.push({ t: e.t, on: false }); jumps.push(e.t); }
    else if (e.type === "click") clicks.push({ t: e.t, x, y, button: e.button ?? "primary", style: e.style ?? {} });
    else {
      let to: [number, number]; if (e.to) to = [e.to.x, e.to.y]; else if (e.by) to = [x + e.by.dx, y + e.by.dy]; else { const b = boxOf(e.selector, frameAt(e.t)); if (!b) continue; to = [b.x + b.w / 2 + (e.offset?.dx ?? 0), b.y + b.h / 2 + (e.offset?.dy ?? 0)]; }
      const d = e.duration ?? 0; motion.push({ t: e.t, at: (u) => { const f = d > 0 ? Math.min(1, (u - e.t) / d) : 1; return [x + (to[0] - x) * f, y + (to[1] - y) * f]; } }); looks.push({ t: e.t, on: true, kw: e.cursor }); jumps.push(e.t); if (d > 0) jumps.push(e.t + d);
    }
  }
  const state = (u: number): State => { const [x, y] = where(u); const l = last(looks, u); return { x, y, on: l.on, kw: l.on ? l.kw ?? under(x, y, frameAt(u)) : undefined }; };
  return { state, clicks, jumps };
}
const shape = (n: XNode): string => `${n.name}{${[...n.attrs].map(([k, v]) => `${k}=${v}`).sort().join(";")}}[${els(n).map(shape).join("")}]`;
const hide = console.warn; console.warn = (...a: any[]) => { if (!String(a[0]).startsWith("cursor-overlay:")) hide(...a); };

runCheck({ id: "A05", parts: [
  { name: "pointer", rule: "1-4 frames and scripts of up to 14 show / move (instant and sliding, absolute, relative, by selector) / click / hide events, overlapping slides and events past the end included, with and without the page's own cursors, styles and per-click styles; played at random instants, around every event and in later laps; non-trivial = the pointer is seen at some instant and the script has at least three effective events",
    arb: fc.record({ fs: fc.array(fc.record({ d: fc.integer({ min: 300, max: 4000 }), tr: fc.constantFrom(0, 0, 250) }), { minLength: 1, maxLength: 4, size: "max" }), evs: fc.array(ev, { minLength: 1, maxLength: 14, size: "max" }), shuffle: fc.boolean(), auto: fc.boolean(), style: opt(style), qs: fc.array(fc.integer({ min: 0, max: 1000 }), { minLength: 6, maxLength: 10 }), lap: fc.constantFrom(0, 0, 1, 300) }),
    runs: { quick: 1500, thorough: 60000 },
    prop: (c, ctx) => {
      clearEmbeddedFonts(); clearGlyphDefs();
      let t = 0; const events = c.evs.map(({ gap, e }) => { t += gap; return { ...e, t }; });
      const given = c.shuffle ? [...events].filter((_, i) => i % 2).concat(events.filter((_, i) => i % 2 === 0)) : events;
      // equal instants keep the order they are listed in
      const tie = new Set(events.map((e) => e.t)).size !== events.length; const list = c.shuffle && tie ? events : given;
      const adv = c.fs.map((f) => f.d + f.tr), start = adv.map((_, i) => adv.slice(0, i).reduce((a, b) => a + b, 0)), total = adv.reduce((a, b) => a + b, 0);
      const frameAt = (u: number): number => { let k = 0; start.forEach((s, i) => { if (u >= s) k = i; }); return k; };
      const M = machine(list, total, frameAt); const effective = list.filter((e) => e.t < total && !(e.selector && !boxOf(e.selector, frameAt(e.t)))).length;
      const before = show(list);
      const svg = generateAnimatedSvg({ width: 600, height: 400, frames: c.fs.map((f) => ({ svgContent: "<path d='M0 0'/>", duration: f.d, transition: f.tr ? { type: "crossfade", duration: f.tr } : { type: "cut", duration: 0 } })), cursorOverlay: clean({ events: list, style: c.style }), resolveSelector: boxOf, ...(c.auto ? { resolveCursorAt: under } : {}) } as any);
      same(show(list), before, "the script itself is left alone");
      const root = parseXml(svg), pl = new Player(root); const ids = idReport(root); ensure(!ids.duplicates.length && !ids.dangling.length, "ids");
      const lapD = Number((total / 1000).toFixed(2)) * 1000; const D = pl.durations().filter((d) => Math.abs(d - total) < 6).reduce((b, d) => Math.abs(d - lapD) < Math.abs(b - lapD) ? d : b, total); const k = D / total;
      const T = (u: number): number => u * k + c.lap * D;
      const byClass = (re: RegExp): XNode[] => { const o: XNode[] = []; for (const e of walk(root)) if (classes(e).some((z) => re.test(z))) o.push(e); return o; };
      const overlay = byClass(/^cursor-overlay$/); const arrow = byClass(/^cursor-arrow$/)[0], pointer = byClass(/^cursor-pointer$/)[0]; const rings = byClass(/^cursor-click-\d+$/);
      ctx.label(c.auto ? "auto" : "arrow", c.lap > 0 && "lap", M.clicks.length > 0 && "clicks", events.some((e) => e.t >= total) && "past the end", list.some((e, i) => list.some((f, j) => i !== j && e.type === "move" && f.t > e.t && f.t < e.t + (e.duration ?? 0))) && "interrupted");
      const what = (u: number): string => `at ${u.toFixed(1)} of ${total} ms (lap ${c.lap}) of ${show(list)}`;
      ensure(overlay.length === 1, () => `${overlay.length} cursor overlays — ${what(0)}`);
      // painted over every frame, and it never takes the page's pointer events
      const order = [...walk(root)]; ensure(order.indexOf(overlay[0]) > Math.max(...order.map((e, i) => classes(e).includes("f") ? i : -1)), "above the frames"); same(overlay[0].attrs.get("pointer-events"), "none", "pointer-events");
      const size = 22 * (c.style?.cursorScale || 1); const stroke = c.style?.cursorStroke ?? "rgb(0, 0, 0)", fill = c.style?.cursorFill ?? "rgb(255, 255, 255)"; const glyphs = new Map(KW.map((w) => { const m = cursorGlyphSvg(w, 0, 0, size, stroke, fill); return [w, m === "" ? "" : shape(parseXml(m))] as const; }));
      const eps = total * 1e-6 + 1.5;
      // instants: anywhere, and either side of every event
      const edges = M.jumps.filter((u) => u < total).flatMap((u) => [u - 3 - eps, u + 3 + eps]); const turnsAt: number[] = []; if (c.auto) { const key = (v: number): string => { const q = M.state(v); return q.on ? q.kw! : ""; }; const step = Math.max(3, total / 700); for (let v = step; v < total - 60 && turnsAt.length < 14; v += step) if (key(v) !== key(v - step)) { let lo = v - step, hi = v; for (let n = 0; n < 12; n++) { const m = (lo + hi) / 2; if (key(m) === key(v - step)) lo = m; else hi = m; } turnsAt.push(lo - 5 - eps, hi + 5 + eps); } }
      const us = [...turnsAt.filter((u) => u >= 0 && u < total), ...c.qs.map((q) => q / 1000 * (total - 2)), ...edges.filter((u) => u >= 0 && u < total)];
      let seen = false;
      for (const u of us) {
        const s = M.state(u), a = M.state(Math.max(0, u - eps)), b = M.state(u + eps); if (a.on !== b.on || M.jumps.some((j) => Math.abs(j - u) <= eps)) continue; // within rounding of an event
        const g = c.auto ? pointer : arrow; ensure(g, () => `a pointer group — ${what(u)}`);
        if (c.auto) {
          const layers = els(g); const shown = layers.filter((l) => pl.effectiveOpacity(l, T(u)) > 0.5);
          // crossings are found by sampling every 40 ms at most and then pinned down, so a single one is exact
          const kwAt = (v: number): string => { const q = M.state(Math.min(total - 1e-6, Math.max(0, v))); return q.on ? q.kw! : ""; };
          let turns = 0, still = true, prev = kwAt(u - 43); for (let d = -42; d <= 43; d++) { const k = kwAt(u + d); if (k !== prev) { turns++; if (Math.abs(d) <= 3 + eps) still = false; } prev = k; }
          const steady = still && turns <= 1 && u < total - 44;
          ensure(shown.length <= 1, () => `${shown.length} glyphs at once — ${what(u)}`);
          if (steady) { if (!s.on) ensure(shown.length === 0, () => `a hidden pointer is painted — ${what(u)}`); else { ensure(shown.length === 1, () => `no glyph (${s.kw}) — ${what(u)}`); const f = els(shown[0])[0]; same(f ? shape(f) : "", glyphs.get(s.kw!)!, `glyph ${s.kw} — ${what(u)}`); } }
        } else { near(pl.effectiveOpacity(g, T(u)), s.on ? 1 : 0, 1e-6, () => `visibility — ${what(u)}`); const p = els(g)[0]; same(p.attrs.get("fill")?.replace(/\s/g, ""), fill.replace(/\s/g, ""), "arrow fill"); same(p.attrs.get("stroke")?.replace(/\s/g, ""), stroke.replace(/\s/g, ""), "arrow stroke"); near(matOf(parseTransform(p.attrs.get("transform") ?? "scale(1)"))[0], c.style?.cursorScale ?? 1, 1e-6, "arrow scale"); }
        if (!s.on) continue; seen = true;
        const m = matOf(parseTransform(pl.value(g, "transform", T(u)) ?? "translate(0px,0px)")); const slack = 0.012 + Math.hypot(b.x - a.x, b.y - a.y);
        near(m[4], s.x, slack, () => `pointer x — ${what(u)}`); near(m[5], s.y, slack, () => `pointer y — ${what(u)}`);
      }
      // rings
      same(rings.length, M.clicks.length, `click rings — ${what(0)}`);
      M.clicks.forEach((q, i) => {
        const st = { pulseDurationMs: 500, pulseRadius: 32, ...(c.style ?? {}), ...q.style }; const g = rings[i]; const circles = els(g).filter((e) => e.name === "circle"), half = els(g).filter((e) => e.name === "path");
        same(circles.length, 2, "two rings"); same(half.length, q.button === "secondary" ? 1 : 0, `half disc of a ${q.button} click — ${what(q.t)}`);
        for (const e of circles) { near(Number(e.attrs.get("cx")), q.x, 0.011, () => `click x — ${what(q.t)}`); near(Number(e.attrs.get("cy")), q.y, 0.011, () => `click y — ${what(q.t)}`); }
        ensure(!st.pulseStroke || circles.some((e) => e.attrs.get("stroke") === st.pulseStroke), "ring colour");
        const end = Math.min(total, q.t + st.pulseDurationMs); const whole = q.t + st.pulseDurationMs <= total;
        for (const u of [...c.qs.map((z) => z / 1000 * (total - 2)), q.t - 3 - eps, end + 3 + eps]) { if (u < 0 || u >= total - 1) continue; if (u < q.t - eps || u > end + eps) for (const e of [...circles, ...half]) ensure(pl.effectiveOpacity(e, T(u)) < 1e-6, () => `ring of the click at ${q.t} shows — ${what(u)}`); }
        if (whole) for (const f of [0.15, 0.3, 0.6, 0.9]) { const u = q.t + st.pulseDurationMs * f; if (u >= total - 2) continue; const sl = 3 * eps / st.pulseDurationMs;
          circles.forEach((e, z) => { const want = f <= 0.15 ? 1 : (1 - f) / 0.85; const op = pl.effectiveOpacity(e, T(u)); ensure(op > want * 0.85 - sl - 0.01 && op <= want + sl, () => `ring strength ${op} (about ${want.toFixed(2)}) of the click at ${q.t} — ${what(u)}`);
            const r = Number(e.attrs.get("r")) * matOf(parseTransform(pl.value(e, "transform", T(u)) ?? "scale(1)"))[0]; const r1 = st.pulseRadius - (z === 0 ? 0 : 1); near(r, 4 + (r1 - 4) * f, 0.05 + Math.abs(r1 - 4) * sl, () => `ring radius of the click at ${q.t} — ${what(u)}`); });
          if (half[0] && f > 0.15 && f < 0.9) { ensure(pl.effectiveOpacity(half[0], T(u)) > 0.1, () => `half disc of ${what(u)}`); } }
      });
      ctx.hit(seen && effective >= 3);
    } },
], assumptions: ["A glyph found by hit-testing may miss a pair of crossings closer than one 40 ms sampling step; forced glyphs and visibility without a resolver are exact.", "A slide interrupted by hide finishes unseen; where the pointer is while hidden matters only to a later relative move."] });
