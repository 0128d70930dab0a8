// F02: storyboards. Scenes (svg files, recorded sessions, captures, templates) are sequenced by
// the real pipeline; each scene's hold, frozen, must look like that scene alone, played from its
// own start to its own end and then held, placed on the canvas as `fit` says, under its overlays.
import { registerHooks } from "node:module";
import { mkdirSync, mkdtempSync, writeFileSync, rmSync } from "node:fs";
import { join } from "node:path";
import { fc, runCheck, ensure, fail, same, show, SCRATCH } from "../lib/harness.ts";
import { el } from "../lib/tree.ts";
import { bake } from "../lib/bake.ts";
import { raster, diff } from "../lib/png.ts";
import { parseXml, idReport } from "../lib/xml.ts";
registerHooks({ resolve(spec, ctx, next) {
  if (/capture\/index\.(js|ts)$/.test(spec) && /\/src\/(cli|terminal|templates)\//.test(ctx.parentURL ?? "")) return { url: new URL("../lib/stub-animate.ts", import.meta.url).href, shortCircuit: true };
  if (/render\/element-tree-to-svg\.(js|ts)$/.test(spec) && /\/src\/terminal\//.test(ctx.parentURL ?? "")) return { url: new URL("../lib/stub-render-capture.ts", import.meta.url).href, shortCircuit: true };
  return next(spec, ctx);
} });
const { composeStoryboardConfig, validateStoryboardConfig } = await import("/repo/src/cli/storyboard.ts");
const { generateAnimatedSvg } = await import("/repo/src/animation/animator.ts");
const { castToAnimatedSvg } = await import("/repo/src/terminal/index.ts");
const { elementTreeToSvg } = await import("/repo/src/render/element-tree-to-svg.ts");
const { clearEmbeddedFonts, clearGlyphDefs } = await import("/repo/src/render/index.ts");
const hush = console.warn; console.warn = (...a: any[]) => { if (!/ICU companion|domotion/.test(String(a[0]))) hush(...a); };
const opt = <T>(a: fc.Arbitrary<T>, freq = 2): fc.Arbitrary<T | undefined> => fc.option(a, { nil: undefined, freq });
const DIR = mkdtempSync(join(SCRATCH, "f02-"));
const COL = ["#c0392b", "#2980b9", "#27ae60", "#8e44ad", "#f39c12", "#2c3e50", "#16a085"];

const NM = ["a", "b", "f", "f-0", "fv-0", "spin", "clip", "viewport-clip", "sb0_a", "x_y"];
const kidA = fc.record({ x: fc.integer({ min: 0, max: 60 }), y: fc.integer({ min: 0, max: 40 }), w: fc.integer({ min: 6, max: 40 }), c: fc.nat({ max: 6 }), cls: fc.nat({ max: 9 }), fill: fc.constantFrom("attr", "attr", "class", "grad"), clip: fc.constantFrom(false, false, false, true), track: opt(fc.record({ p: fc.constantFrom("transform", "opacity", "fill"), a: fc.nat({ max: 20 }), b: fc.nat({ max: 20 }), mid: opt(fc.tuple(fc.constantFrom(20, 50, 80), fc.nat({ max: 20 }))), ease: fc.constantFrom("linear", "linear", "step-end") })) });
const docA = fc.record({ w: fc.constantFrom(60, 100, 150), h: fc.constantFrom(40, 80, 110), root: fc.nat({ max: 6 }), period: fc.constantFrom(400, 1000, 2500), kids: fc.array(kidA, { minLength: 1, maxLength: 5, size: "max" }), scene: fc.boolean(), ids: fc.nat({ max: 9 }), bg: fc.boolean() });
/** A drawing, animated or not, in one of the spellings a root element comes in. */
function handDoc(d: any): { svg: string; w: number; h: number; period?: number } {
  const css: string[] = []; const g = NM[d.ids], cp = `c-${NM[(d.ids + 3) % 10]}`; let moving = false; const dur = `${d.period / 1000}s`;
  const ox = d.root === 2 ? 5 : 0, oy = d.root === 2 ? -7 : 0, k = d.root === 3 ? 2 : 1;   // the viewBox's corner and scale
  const body = d.kids.map((n: any, i: number) => {
    const cls: string[] = []; let fill = ` fill="${COL[n.c]}"`;
    if (n.track) { moving = true; const kf = `${NM[n.cls]}k${i}`, v = (z: number): string => n.track.p === "opacity" ? `opacity:${z / 20}` : n.track.p === "fill" ? `fill:rgb(${z * 12},90,${240 - z * 12})` : `transform:translate(${z}px,${20 - z}px)`; css.push(`@keyframes ${kf}{0%{${v(n.track.a)}}${n.track.mid ? `${n.track.mid[0]}%{${v(n.track.mid[1])}}` : ""}100%{${v(n.track.b)}}}`, `.anim-${NM[n.cls]}${i}{animation:${kf} ${dur} ${n.track.ease} infinite}`); cls.push(`anim-${NM[n.cls]}${i}`); if (n.track.p === "fill") fill = ""; }
    else if (n.fill === "class") { css.push(`.${NM[n.cls]}${i}{fill:${COL[n.c]}}`); cls.push(`${NM[n.cls]}${i}`); fill = ""; }
    else if (n.fill === "grad") fill = ` fill="url(#${g})"`;
    return `<rect${cls.length ? ` class="${cls.join(" ")}"` : ""} x="${ox + n.x}" y="${oy + n.y}" width="${n.w * k}" height="${n.w * k / 2}"${fill}${n.clip && !n.track ? ` clip-path="url(#${cp})"` : ""}/>`;
  }).join("");
  const attrs = [`width="${d.w}" height="${d.h}" viewBox="0 0 ${d.w} ${d.h}"`, `viewBox="0 0 ${d.w} ${d.h}"`, `viewBox="5 -7 ${d.w} ${d.h}" width="${d.w}" height="${d.h}"`, `width="${d.w}px" height="${d.h}px" viewBox="0 0 ${2 * d.w} ${2 * d.h}"`, `width="${d.w}" height="${d.h}"`, `id="${g}-r" viewBox="0 0 ${d.w} ${d.h}" width="100%" height="100%"`, `width='${d.w}' height='${d.h}' viewBox='0,0,${d.w},${d.h}' data-note="a > b"`][d.root];
  const pro = d.root === 4 ? `<?xml version="1.0"?>\n<!-- drawn by hand -->\n` : d.root === 6 ? `<?xml version="1.0" encoding="UTF-8"?>\n<!DOCTYPE svg PUBLIC "-//W3C//DTD SVG 1.1//EN" "http://www.w3.org/Graphics/SVG/1.1/DTD/svg11.dtd">\n` : "";
  return { w: d.w, h: d.h, ...(moving ? { period: d.period } : {}), svg: `${pro}<svg xmlns="http://www.w3.org/2000/svg" ${attrs}><style>${d.scene && moving ? `:root{--scene-dur:${dur}}` : ""}${css.join("")}</style><defs><linearGradient id="${g}"><stop offset="0" stop-color="${COL[d.ids % 7]}"/><stop offset="1" stop-color="#ffffff"/></linearGradient><clipPath id="${cp}"><rect x="${ox + 8}" y="${oy + 6}" width="30" height="18"/></clipPath></defs>${d.bg ? `<rect x="${ox}" y="${oy}" width="${d.w * k}" height="${d.h * k}" fill="#eeeeee"/>` : ""}${body}</svg>` };
}
const filmA = fc.record({ frames: fc.array(fc.record({ d: fc.constantFrom(300, 700), tr: fc.constantFrom("cut", "crossfade", "push-left", "wipe"), x: fc.nat({ max: 60 }), c: fc.nat({ max: 6 }) }), { minLength: 1, maxLength: 3 }), text: fc.constantFrom("", "hello", "spin .f", "Grüße") });
function film(f: any): { svg: string; w: number; h: number; period: number } {
  clearEmbeddedFonts(); clearGlyphDefs();
  const frames = f.frames.map((q: any, i: number) => ({ svgContent: `<rect x="${q.x}" y="${10 + 8 * i}" width="34" height="26" fill="${COL[q.c]}"/>`, duration: q.d, transition: q.tr === "cut" ? { type: "cut", duration: 0 } : { type: q.tr, duration: 200 }, ...(i === 0 && f.text ? { overlays: [{ kind: "typing", x: 8, y: 50, text: f.text, fontSize: 12, fontFamily: "Liberation Mono", color: "#102030", delay: 0, speed: 20 }] } : {}) }));
  return { svg: generateAnimatedSvg({ width: 120, height: 70, frames } as any), w: 120, h: 70, period: f.frames.reduce((a: number, q: any) => a + q.d + (q.tr === "cut" ? 0 : 200), 0) };
}
const castA = fc.record({ cols: fc.constantFrom(12, 20), rows: fc.constantFrom(3, 5), ev: fc.array(fc.tuple(fc.constantFrom(0.2, 0.7, 1.3), fc.constantFrom("ls\r\n", "\x1b[31mred\x1b[0m", "ok\r\n", "\x1b[2J\x1b[H", "$ ", "wörld")), { minLength: 1, maxLength: 5 }), theme: opt(fc.constantFrom("dark", "github-light")), mode: opt(fc.constantFrom("full", "incremental")) });
const castText = (c: any): string => { let t = 0; return [JSON.stringify({ version: 2, width: c.cols, height: c.rows }), ...c.ev.map(([d, s]: [number, string]) => JSON.stringify([t += d, "o", s]))].join("\n") + "\n"; };
const capA = fc.record({ page: fc.nat({ max: 3 }), url: fc.boolean(), selector: opt(fc.constantFrom("#side", "main")), wait: opt(fc.constantFrom(0, 500)), waitFor: opt(fc.constant("#ready")), mobile: opt(fc.boolean()), scheme: opt(fc.constantFrom("light", "dark")) });
const TRS = ["crossfade", "cut", "push-left", "push-right", "push-up", "push-down", "scroll", "wipe", "iris", "zoom-in", "zoom-out", "shine"];
const sceneA = fc.record({
  src: fc.oneof({ weight: 5, arbitrary: docA.map((hand) => ({ hand })) as fc.Arbitrary<any> }, { weight: 3, arbitrary: filmA.map((gen) => ({ gen })) }, { weight: 2, arbitrary: castA.map((cast) => ({ cast })) }, { weight: 2, arbitrary: capA.map((cap) => ({ cap })) }),
  dur: opt(fc.constantFrom(300, 800, 1500, 4000), 3), fit: opt(fc.constantFrom("center", "contain", "cover")), tr: opt(fc.record({ type: fc.constantFrom(...TRS), duration: fc.constantFrom(100, 250, 600) }), 4), explicit: fc.constantFrom(false, false, true), again: fc.constantFrom(false, false, false, true),
  overlay: opt(fc.record({ x: fc.integer({ min: -5, max: 100 }), y: fc.integer({ min: 0, max: 70 }), w: fc.constantFrom(20, 30), h: fc.constantFrom(10, 24), delay: opt(fc.constantFrom(0, 100, 400)), c: fc.nat({ max: 6 }), anchor: fc.constantFrom(false, false, true) }), 3),
});
const boardA = fc.record({ W: fc.constantFrom(120, 160), H: fc.constantFrom(80, 100), bg: fc.constantFrom(undefined, "transparent", "#203040", "#ffffff"), scenes: fc.array(sceneA, { minLength: 1, maxLength: 5, size: "max" }), title: opt(fc.constantFrom("Tour", "a < b & \"c\"", "")), desc: opt(fc.constantFrom("long & <b>", "x")), cursor: opt(fc.record({ frame: fc.nat({ max: 4 }), at: fc.constantFrom(0, 50, 250), x: fc.integer({ min: 5, max: 80 }), y: fc.integer({ min: 5, max: 50 }) }), 3), ks: fc.array(fc.double({ min: 0.03, max: 0.97, noNaN: true }), { minLength: 2, maxLength: 2 }), lap: fc.constantFrom(0, 0, 1) });

/** The page a capture scene sees: what it shows depends on where it was told to go and how. */
function capTree(c: any, url: string, ctx: any, selector: string, W: number, H: number): any[] {
  const dark = ctx.colorScheme === "dark", sel = ["body", "#side", "main"].indexOf(selector);
  return [el({ tag: "body", x: 0, y: 0, width: W, height: H, styles: { backgroundColor: dark ? "rgb(20, 20, 30)" : "rgb(250, 250, 250)" }, children: [el({ x: 5 + 12 * sel, y: 8, width: 40, height: 20, styles: { backgroundColor: ["rgb(200, 0, 0)", "rgb(0, 140, 0)", "rgb(0, 0, 200)", "rgb(200, 160, 0)"][c.page] } }), el({ x: 20, y: 40, width: ctx.isMobile ? 12 : 50, height: 14, styles: { backgroundColor: "rgb(90, 90, 90)" } })] })];
}
const fontsReady = { fonts: { ready: Promise.resolve() }, querySelector: () => ({ getBoundingClientRect: () => ({ width: 0, height: 0, x: 0, y: 0 }) }) };
function fakeBrowser(log: string[], pages: Map<string, any>, box: { w: number; h: number }): any {
  let open = 0;
  return { open: () => open, newContext: async (o: any = {}) => {
    open++; let url = "", html = "";
    const page: any = { setDefaultTimeout() {}, setDefaultNavigationTimeout() {}, on() {}, off() {}, goto: async (u: string) => { url = u; log.push(`goto ${u}`); }, setContent: async (h: string) => { html = h; }, waitForTimeout: async (ms: number) => { log.push(`wait ${ms}`); }, waitForSelector: async (s: string) => { log.push(`for ${s}`); }, close: async () => {},
      evaluate: async (fn: any, arg: any) => { const g = globalThis as any; const saved = g.document; g.document = html ? { fonts: fontsReady.fonts, querySelector: (s: string) => s === ".term" ? { getBoundingClientRect: () => ({ width: box.w, height: box.h, x: 0, y: 0, left: 0, top: 0, right: box.w, bottom: box.h }) } : null, querySelectorAll: () => [] } : fontsReady; try { return await fn(arg); } finally { g.document = saved; } },
      __capture: (_m: string, sel: string, vp: any) => { if (html) { const rows = [...html.matchAll(/<div[^>]*class="[^"]*(?:row|line)[^"]*"[^>]*>([\s\S]*?)<\/div>/g)]; let h = 0; for (const ch of html) h = (h * 31 + ch.charCodeAt(0)) >>> 0; return [el({ tag: "body", x: 0, y: 0, width: vp.width, height: vp.height, children: [el({ x: 4, y: 4, width: 20 + rows.length * 6 + h % 30, height: 16, styles: { backgroundColor: `rgb(${h % 200}, ${(h >> 8) % 200}, ${(h >> 16) % 200})` } })] })]; } const c = pages.get(url); if (!c) fail(`captured ${url}`); log.push(`capture ${sel} ${vp.x},${vp.y} ${vp.width}x${vp.height}`); return capTree(c, url, o, sel, vp.width, vp.height); } };
    log.push(`context ${o.viewport?.width}x${o.viewport?.height}`);
    return { newPage: async () => page, close: async () => { open--; } };
  } };
}
await runCheck({ id: "F02", assumptions: ["sharp's rasteriser (librsvg) as the picture oracle", "the browser behind captures and recordings is a stand-in"], parts: [
  { name: "board", rule: "storyboards of 1-5 scenes (drawings in many root spellings sharing names, films, recordings, captures, template scenes), with every transition, fit, durations shorter and longer than the scene plays, overlays and a cursor, sampled in every hold and on later laps; non-trivial = at least two scenes that look different",
    arb: boardA, runs: { quick: 170, thorough: 5000 },
    prop: async (c, ctx) => {
      const dir = mkdtempSync(join(DIR, "b-")); const pages = new Map<string, any>(), log: string[] = [], wantLog: string[] = []; const box = { w: 110, h: 60 };
      try {
        mkdirSync(join(dir, "sub")); const scenes: any[] = [], model: any[] = [];
        for (const [i, s0] of c.scenes.entries()) {
          const s = s0.again && i > 0 ? { ...s0, src: c.scenes[i - 1].src } : s0;
          const sc: any = { ...(s.dur != null ? { duration: s.dur } : {}), ...(s.fit ? { fit: s.fit } : {}), ...(s.tr ? { transition: s.tr } : {}) }; let m: any;
          if (s.src.hand || s.src.gen) {
            const d = s.src.hand ? handDoc(s.src.hand) : film(s.src.gen); const name = i % 2 ? `sub/s${i}.svg` : `s${i}.svg`; writeFileSync(join(dir, name), d.svg); sc.svg = name; m = d;
            if (s.explicit && d.period) sc.period = d.period;
          } else if (s.src.cast) {
            const name = `c${i}.cast`; writeFileSync(join(dir, name), castText(s.src.cast)); sc.cast = name; const term = { ...(s.src.cast.theme ? { theme: s.src.cast.theme } : {}), ...(s.src.cast.mode ? { mode: s.src.cast.mode } : {}) }; if (Object.keys(term).length) sc.term = term;
            const r = await castToAnimatedSvg(castText(s.src.cast), fakeBrowser([], pages, box), term as any); m = { svg: unblink(r.svg), w: r.width, h: r.height, period: r.totalDurationMs, cast: true };
          } else if (s.src.cap) {
            const q = s.src.cap; let url = `https://site.test/${i}`; sc.capture = {}; if (q.url) sc.capture.url = url; else { const n = `p ${i}#.html`; writeFileSync(join(dir, n), "<p>"); sc.capture.file = n; url = `file://${dir}/p%20${i}%23.html`; }
            if (q.selector) sc.capture.selector = q.selector; if (q.wait != null) sc.capture.wait = q.wait; if (q.waitFor) sc.capture.waitFor = q.waitFor; if (q.mobile != null) sc.capture.mobile = q.mobile; if (q.scheme) sc.capture.colorScheme = q.scheme; if (sc.duration == null) sc.duration = 700;
            pages.set(url, q); clearEmbeddedFonts(); clearGlyphDefs(); m = { svg: elementTreeToSvg(capTree(q, url, { colorScheme: q.scheme, isMobile: q.mobile === true }, q.selector ?? "body", c.W, c.H) as any, c.W, c.H), w: c.W, h: c.H };
            wantLog.push(`context ${c.W}x${c.H}`, `goto ${url}`, ...(q.waitFor ? [`for ${q.waitFor}`] : []), ...((q.wait ?? 200) > 0 ? [`wait ${q.wait ?? 200}`] : []), `capture ${q.selector ?? "body"} 0,0 ${c.W}x${c.H}`);
          }
          if (s.overlay) { const o = s.overlay; writeFileSync(join(dir, `o${i}.svg`), `<svg xmlns="http://www.w3.org/2000/svg" viewBox="0 0 20 10"><rect id="a" class="f" width="20" height="10" fill="${COL[o.c]}"/><circle cx="10" cy="5" r="3" fill="#fff"/></svg>`); sc.overlays = [{ kind: "svg", src: `o${i}.svg`, x: o.x, y: o.y, width: o.w, height: o.h, ...(o.delay != null ? { delay: o.delay } : {}), ...(o.anchor ? { anchor: { selector: "#nowhere" } } : {}) }]; }
          m.dur = sc.duration ?? m.period; m.bad = m.dur == null || m.dur <= 0; m.fit = sc.fit ?? "center"; m.o = s.overlay; m.tr = s.tr ? (s.tr.type === "cut" ? 0 : s.tr.duration) : 300; scenes.push(sc); model.push(m);
        }
        const raw: any = { width: c.W, height: c.H, scenes, ...(c.bg ? { background: c.bg } : {}), ...(c.title != null ? { title: c.title } : {}), ...(c.desc ? { desc: c.desc } : {}), ...(c.cursor ? { cursor: { events: [{ frame: Math.min(c.cursor.frame, scenes.length - 1), at: c.cursor.at, type: "move", to: { x: c.cursor.x, y: c.cursor.y } }] } } : {}) };
        const cfg = validateStoryboardConfig(JSON.parse(JSON.stringify(raw))); const browser = fakeBrowser(log, pages, box);
        if (c.title) clearEmbeddedFonts();
        let svg = ""; try { svg = await composeStoryboardConfig(browser, cfg, dir, () => {}); } catch (e) { const bad = model.findIndex((m) => m.bad); ensure(bad >= 0 && String(e).includes(`scenes[${bad}].duration`), () => `refused: ${e instanceof Error ? e.stack : e}`); same(browser.open(), 0, "browser contexts left open"); ctx.label("static scene without a duration"); return; }
        ensure(model.every((m) => !m.bad), "a scene without any duration was accepted"); same(browser.open(), 0, "browser contexts left open");
        same(log.filter((l) => !/^context (?!\d+x\d+$)/.test(l)).join("|").includes(wantLog[0] ?? ""), true, "browser"); { const caps = log.join("\n"); let at = 0; for (const w of wantLog) { const n = caps.indexOf(w, at); ensure(n >= 0, () => `the browser was not asked to "${w}" in turn: ${caps}`); at = n + w.length; } same(log.filter((l) => /^(goto|capture|for )/.test(l)).length, wantLog.filter((l) => /^(goto|capture|for )/.test(l)).length, "requests to the browser"); }
        const root = parseXml(svg); const ids = idReport(root); ensure(!ids.duplicates.length && !ids.dangling.length, () => `ids ${show(ids)}`); same([root.attrs.get("width"), root.attrs.get("height"), root.attrs.get("viewBox")], [String(c.W), String(c.H), `0 0 ${c.W} ${c.H}`], "canvas");
        const kid = (n: string): any => root.children.find((k: any) => k.kind === "el" && k.name === n); const txt = (n: any): string => n?.children?.map((k: any) => k.text ?? k.value ?? "").join("");
        if (c.title) { same(root.attrs.get("role"), "img", "role"); ensure(kid("title"), "no title"); }
        const total = model.reduce((a, m) => a + m.dur + m.tr, 0); const dm = /--scene-dur:\s*([\d.]+)s/.exec(svg.slice(svg.indexOf(".f { opacity") - 60)); if (dm) ensure(Math.abs(Number(dm[1]) * 1000 - total) <= 6, `scene length ${dm[1]} s, expected ${total} ms`);
        let t0 = 0, seen: any = null, differ = 0; const still = unblink(svg); const cursorless = still.replace(/<g[^>]*class="[^"]*cursor[^"]*"/g, '$& display="none"');
        if (c.cursor) {
          // the pointer appears where and when its scene's script says, whatever came before
          const when = model.slice(0, Math.min(c.cursor.frame, model.length - 1)).reduce((a, m) => a + m.dur + m.tr, 0) + c.cursor.at;
          for (const T of [when - 25, when + 25, (when + total) / 2]) {
            if (T < 0 || T > total - 10 || when > total - 60 || Math.abs(T - when) < 20) continue; const at = T + c.lap * total;
            const d = diff(await raster(bake(still, at)), await raster(bake(cursorless, at)), 24); const shown = T > when; const [ax, ay] = (d.at ?? "").match(/\d+/g)?.map(Number) ?? [0, 0];
            ensure(shown === d.n > 8, () => `the pointer is ${shown ? "not " : ""}shown at ${T} ms, its event is at ${when} ms (scene ${c.cursor!.frame} of ${model.length})`);
            if (shown && T > when + 700) ensure(Math.abs(ax - c.cursor.x) <= 30 && Math.abs(ay - c.cursor.y) <= 24, () => `the pointer is at ${d.at}, not at ${c.cursor!.x},${c.cursor!.y}`);
          }
          ctx.label("a cursor");
        }
        for (const [i, m] of model.entries()) {
          const start = t0; t0 += m.dur + m.tr;
          for (const k of c.ks) {
            const u = 2 + (m.dur - 4) * k; if (u <= 0) continue; const o = m.o; if (o?.delay && Math.abs(u - o.delay) < 15) continue; const end = m.period != null ? m.period * (1 - 3e-6) : 0; const own = m.period != null ? Math.min(u, end) : 0;
            // instants at which the scene itself jumps are not judged
            const near = (z: number): Promise<any> => { const b = bake(m.svg, z); return raster(place(b, m, c, o && u >= (o.delay ?? 0) ? o : null)); };
            const want = await near(own); if (m.period != null) { const e1 = await near(Math.max(0, Math.min(end, own - 3))), e2 = await near(Math.min(end, own + 3)); if (diff(e1, e2, 60).n > 60) continue; }
            const got = await raster(bake(c.cursor ? cursorless : still, start + u + c.lap * total)); const d = diff(got, want, m.period != null ? 40 : 24);
            ensure(d.n <= (m.period != null ? 24 : 4), () => `scene ${i} of ${model.length}, ${u.toFixed(0)} of ${m.dur} ms (plays ${m.period}): ${d.n} pixels differ (up to ${d.max}) at ${d.at}\n${show(scenes[i])}`);
            if (seen && diff(seen, want, 20).n > 20) differ++; seen = want;
          }
        }
        ctx.hit(differ > 0 && model.length > 1); ctx.label(...new Set(c.scenes.map((s: any) => Object.keys(s.src)[0])), c.scenes.some((s: any) => s.again) && "a scene twice", model.some((m) => m.period && m.dur > m.period) && "held after its end", model.some((m) => m.period && m.dur < m.period) && "cut short");
      } finally { rmSync(dir, { recursive: true, force: true }); }
    } },
] });
/** A terminal caret blinks on its own clock, which placing the recording leaves alone. */
function unblink(svg: string): string { return svg.replace(/animation:[\w-]*tcurb [^;}]*/g, ""); }
/** The scene's still, on the canvas. */
function place(still: string, m: any, c: any, o: any): string {
  const body = still.slice(still.indexOf("<svg")); const root = parseXml(body); const vb = root.attrs.get("viewBox") ?? `0 0 ${m.w} ${m.h}`; const inner = body.slice(/<svg\b(?:[^<>"']|"[^"]*"|'[^']*')*>/.exec(body)![0].length, body.lastIndexOf("</svg>"));
  const k = m.fit === "contain" ? Math.min(c.W / m.w, c.H / m.h) : m.fit === "cover" ? Math.max(c.W / m.w, c.H / m.h) : 1; const w = m.w * k, h = m.h * k;
  return `<svg xmlns="http://www.w3.org/2000/svg" xmlns:xlink="http://www.w3.org/1999/xlink" width="${c.W}" height="${c.H}" viewBox="0 0 ${c.W} ${c.H}">${c.bg && c.bg !== "transparent" ? `<rect width="${c.W}" height="${c.H}" fill="${c.bg}"/>` : ""}<svg x="${(c.W - w) / 2}" y="${(c.H - h) / 2}" width="${w}" height="${h}" viewBox="${vb}">${inner}</svg>${o ? `<svg x="${o.x}" y="${o.y}" width="${o.w}" height="${o.h}" viewBox="0 0 20 10"><rect width="20" height="10" fill="${COL[o.c]}"/><circle cx="10" cy="5" r="3" fill="#fff"/></svg>` : ""}</svg>`;
}
