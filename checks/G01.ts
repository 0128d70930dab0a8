// G01: the scrubber exports what it shows: trimming a film to a window plays exactly that
// window, cropping shows exactly that rectangle; its servers answer every history of requests.
import { createRequire } from "node:module";
import { existsSync, mkdtempSync, readdirSync, readFileSync, rmSync, unlinkSync, writeFileSync } from "node:fs";
import { join } from "node:path";
import http from "node:http";
import { fc, runCheck, ensure, same, near, show, SCRATCH } from "../lib/harness.ts";
import { raster, diff, sharp, type Raster } from "../lib/png.ts";
import { bake } from "../lib/bake.ts";
import { parseXml, walk } from "../lib/xml.ts";
import { trimAnimatedSvg } from "/repo/src/scrubber/trim.ts";
import { clampCrop, cropSvgViewBox, fitRectToAspect, constrainResizeToAspect } from "/repo/src/scrubber/crop.ts";
import { startScrubberServer } from "/repo/src/scrubber/server.ts";
import { startReviewServer } from "/repo/src/review/server.ts";
import { generateAnimatedSvg } from "/repo/src/animation/animator.ts";
const { Window } = createRequire("/repo/package.json")("happy-dom");
const DIR = mkdtempSync(join(SCRATCH, "g01-")); process.on("exit", () => rmSync(DIR, { recursive: true, force: true }));

const COL = ["#c00000", "#00a000", "#0000d0", "#c0a000", "#a000c0", "#00a0a0"];
// ── a film of frames, as the animator composes it ──
const frameA = fc.record({ d: fc.integer({ min: 3, max: 9 }).map((n) => n * 100), tr: fc.constantFrom({ type: "crossfade", duration: 300 }, { type: "push-left", duration: 300 }, { type: "scroll", duration: 200 }, { type: "cut", duration: 0 }, { type: "cut", duration: 0 }, undefined), x: fc.integer({ min: 0, max: 50 }) });
const typed = fc.option(fc.record({ at: fc.integer({ min: 0, max: 200 }), text: fc.constantFrom("abc", "hello", "x y z"), speed: fc.constantFrom(30, 60) }), { freq: 2, nil: undefined });
// ── a hand-written animated drawing: one track per element ──
const trackA = fc.record({
  prop: fc.constantFrom("opacity", "translate", "visibility", "fill", "both"), stops: fc.array(fc.record({ at: fc.integer({ min: 1, max: 99 }), v: fc.nat({ max: 5 }) }), { minLength: 0, maxLength: 4, size: "max" }),
  ends: fc.tuple(fc.nat({ max: 5 }), fc.nat({ max: 5 })), hold: fc.boolean(), kind: fc.constantFrom("loop", "loop", "loop", "scheduled", "blink"), dur: fc.integer({ min: 1, max: 8 }), delay: fc.integer({ min: 0, max: 15 }), twin: fc.boolean(), holdStop: fc.nat({ max: 6 }), where: fc.constantFrom("class", "class", "style"), how: fc.constantFrom("plain", "var", "ms"), word: fc.constantFrom("from", "0%"),
});
type Track = typeof trackA extends fc.Arbitrary<infer T> ? T : never;
const valueOf = (p: string, v: number): [string, string][] => p === "opacity" ? [["opacity", String([0.2, 0.4, 0.6, 0.8, 1, 0.3][v])]] : p === "translate" ? [["transform", `translate(${v * 9}px, ${v % 2 ? -4.5 : 3}px)`]] : p === "visibility" ? [["visibility", v % 2 ? "hidden" : "visible"]] : p === "fill" ? [["fill", COL[v]]] : [["opacity", String([0.3, 0.5, 0.7, 0.9, 1, 0.4][v])], ["transform", `translate(${v * 7}px, 2px)`]];
function drawing(tracks: Track[], period: number): string {
  let css = `:root { --scene-dur: ${period / 1000}s; }\n`; let body = "";
  tracks.forEach((k, i) => {
    const prop = k.prop; const discrete = prop === "visibility";
    const pts = new Map<number, number>([[0, k.ends[0]], ...k.stops.map((s) => [s.at, s.v] as [number, number]), [100, k.ends[1]]]);
    const list = [...pts].sort((a, b) => a[0] - b[0]);
    const stepStop = k.hold || discrete || prop === "both" ? -1 : k.holdStop; // one stop of a flowing track may hold until the next
    const kf = list.map(([at, v], n) => { let d = valueOf(prop, v); if (prop === "both" && n > 0 && n < list.length - 1 && n % 2) d = d.slice(0, 1); return `${at === 0 ? k.word : at === 100 ? "to" : `${at}%`} { ${d.map(([p, x]) => `${p}: ${x};`).join(" ")}${n === stepStop ? " animation-timing-function: step-end;" : ""} }`; }).join(" ");
    css += `@keyframes k${i} { ${kf} }\n`;
    const dur = k.kind === "loop" ? period : k.kind === "blink" ? 300 + k.dur * 70 : k.dur * 100;
    const time = k.kind === "loop" && k.how === "var" ? "var(--scene-dur)" : k.how === "ms" ? `${dur}ms` : `${dur / 1000}s`;
    const ease = k.hold || discrete ? "step-end" : "linear";
    let decl = k.kind === "scheduled" ? `k${i} ${time} ${ease}${k.delay ? ` ${k.delay * 100}ms` : ""} both` : `k${i} ${time} ${ease} infinite`;
    if (k.twin && k.kind === "scheduled") { css += `@keyframes t${i} { 0% { stroke-width: 0px } to { stroke-width: 8px } }\n`; decl += `, t${i} 400ms linear ${(k.delay + 3) * 100}ms both`; }
    if (k.where === "class") css += `.e${i} { animation: ${decl}; }\n`;
    body += `<rect class="e${i}" x="${10 + (i % 3) * 40}" y="${8 + Math.floor(i / 3) * 26}" width="20" height="14" stroke="#000000"${k.twin ? "" : ` stroke-width="1"`} fill="${COL[i % 6]}"${k.where === "style" ? ` style="animation: ${decl}"` : ""}/>`;
  });
  return `<?xml version="1.0"?>\n<svg xmlns="http://www.w3.org/2000/svg" viewBox="0 0 140 70" width="140" height="70"><style>\n${css}</style><rect width="140" height="70" fill="#ffffff"/>${body}</svg>`;
}
const clipRaster = (r: Raster, x: number, y: number, w: number, h: number): Raster => { const px = Buffer.alloc(w * h * 4); for (let j = 0; j < h; j++) r.px.copy(px, j * w * 4, ((y + j) * r.w + x) * 4, ((y + j) * r.w + x + w) * 4); return { w, h, px }; };
const off = (a: Raster, b: Raster, tol = 40): { n: number; at?: string; max: number } => { same([a.w, a.h], [b.w, b.h], "picture size"); return diff(a, b, tol); };

// ── servers ──
const opA = fc.oneof(
  { weight: 4, arbitrary: fc.record({ k: fc.constant("frame" as const), svg: fc.nat({ max: 2 }), t: fc.integer({ min: 0, max: 5000 }), crop: fc.option(fc.record({ x: fc.integer({ min: 0, max: 120 }), y: fc.integer({ min: 0, max: 80 }), w: fc.integer({ min: 1, max: 200 }), h: fc.integer({ min: 1, max: 200 }) }), { freq: 2, nil: undefined }) }) },
  { weight: 2, arbitrary: fc.record({ k: fc.constant("timing" as const), svg: fc.nat({ max: 2 }) }) },
  { weight: 3, arbitrary: fc.record({ k: fc.constant("trim" as const), svg: fc.nat({ max: 2 }), a: fc.integer({ min: 0, max: 900 }), b: fc.integer({ min: 0, max: 900 }), crop: fc.option(fc.record({ x: fc.integer({ min: 0, max: 120 }), y: fc.integer({ min: 0, max: 80 }), w: fc.integer({ min: 1, max: 200 }), h: fc.integer({ min: 1, max: 200 }) }), { freq: 2, nil: undefined }) }) },
  { weight: 3, arbitrary: fc.record({ k: fc.constant("bad" as const), which: fc.nat({ max: 11 }), route: fc.constantFrom("/timing", "/trim", "/export-frame", "/export-range-video", "/ticket") }) },
  { weight: 3, arbitrary: fc.record({ k: fc.constant("ticket" as const), name: fc.constantFrom("film.svg", "../../etc/passwd", "a b/c.svg", "..", "", "x".repeat(150), "日本.svg", "-", ".svg"), attach: fc.boolean(), svg: fc.nat({ max: 2 }), note: fc.constantFrom("", "it flickers\n\n```x```", "</script>"), legacy: fc.boolean(), regions: fc.array(fc.tuple(fc.integer({ min: -5, max: 99 }), fc.integer({ min: 1, max: 50 })), { maxLength: 2 }) }) },
  { weight: 2, arbitrary: fc.record({ k: fc.constant("fault" as const), what: fc.constantFrom("page", "browser", "launch", "context", "other") }) },
  { weight: 1, arbitrary: fc.record({ k: fc.constantFrom("shell" as const, "client" as const, "missing" as const), p: fc.constantFrom("/../../etc/passwd", "/x", "/trim", "/%2e%2e/package.json") }) },
);
const SVGS = [0, 1, 2].map((i) => `<svg xmlns="http://www.w3.org/2000/svg" viewBox="${i === 2 ? "20 10" : "0 0"} ${120 + i * 10} 80" width="${120 + i * 10}" height="80"><style>@keyframes m { from { transform: translate(0px, 0px) } to { transform: translate(30px, 0px) } } .m { animation: m 1s linear infinite }</style><!-- drawing ${i} --><rect x="30" y="20" width="40" height="30" fill="${COL[i]}" class="m"/><circle cx="90" cy="60" r="12" fill="${COL[i + 3]}"/></svg>`);
async function call(url: string, path: string, method: string, body?: string): Promise<{ status: number; type: string; body: Buffer }> {
  const u = new URL(url);
  return new Promise((res, rej) => { const r = http.request({ host: u.hostname, port: u.port, path, method, agent: false, headers: body != null ? { "content-type": "application/json" } : {} }, (m) => { const ch: Buffer[] = []; m.on("data", (c) => ch.push(c)); m.on("end", () => res({ status: m.statusCode!, type: String(m.headers["content-type"]), body: Buffer.concat(ch) })); m.on("error", rej); }); r.on("error", rej); r.setTimeout(20000, () => r.destroy(new Error(`no answer to ${method} ${path}`))); r.end(body); });
}

await runCheck({ id: "G01", parts: [
  { name: "film", rule: "composed films of 2-5 frames with pushes, fades, scrolls, cuts and typing, trimmed to windows whose ends lie in holds; non-trivial = the window shows at least two frames",
    arb: fc.record({ frames: fc.array(frameA, { minLength: 2, maxLength: 5, size: "max" }), typed, a: fc.nat({ max: 4 }), b: fc.nat({ max: 4 }), fa: fc.double({ min: 0.15, max: 0.45, noNaN: true }), fb: fc.double({ min: 0.55, max: 0.85, noNaN: true }), ks: fc.array(fc.tuple(fc.nat({ max: 4 }), fc.double({ min: 0.05, max: 0.95, noNaN: true })), { minLength: 3, maxLength: 3 }), swap: fc.boolean() }), runs: { quick: 60, thorough: 1500 },
    prop: async (c, ctx) => {
      const frames = c.frames.map((f, i) => ({ svgContent: `<rect x="${f.x}" y="${5 + i * 4}" width="${30 + i * 5}" height="40" fill="${COL[i]}"/>`, duration: f.d, ...(f.tr ? { transition: f.tr } : {}), ...(i === 0 && c.typed ? { overlays: [{ kind: "typing", x: 10, y: 50, text: c.typed.text, fontSize: 12, fontFamily: "Liberation Mono", color: "#000000", delay: c.typed.at, speed: c.typed.speed }] } : {}) }));
      const svg = generateAnimatedSvg({ width: 120, height: 64, frames } as any);
      const period = Math.round(Number(/--scene-dur: ([\d.]+)s/.exec(svg)![1]) * 1000);
      let t = 0; const holds = c.frames.map((f) => { const s = t; t += f.d + (f.tr ? f.tr.duration : 300); return { s, d: f.d }; });
      const [i, j] = [c.a % holds.length, c.b % holds.length].sort((a, b) => a - b);
      const t0 = Math.round(holds[i].s + holds[i].d * c.fa), t1 = Math.round(holds[j].s + holds[j].d * c.fb); const win = t1 - t0;
      const r = c.swap ? trimAnimatedSvg(svg, t1, t0, period) : trimAnimatedSvg(svg, t0, t1, period);
      for (const n of walk(parseXml(r.svg))) void n;
      const at = [...c.ks.map(([h, f]) => { const n = i + h % (j - i + 1); const lo = n === i ? t0 + 4 : holds[n].s + 30, hi = n === j ? t1 - 4 : holds[n].s + holds[n].d - 30; return lo + (hi - lo) * f - t0; }), 2, win - 2];
      for (const k of at) for (const lap of [0, 1]) {
        const want = await raster(bake(svg, t0 + k)), got = await raster(bake(r.svg, k + lap * win));
        const d = off(got, want); ensure(d.n <= 6, () => `window ${t0}-${t1} of ${period}: ${Math.round(k)} ms in${lap ? ", second lap" : ""}, ${d.n} pixels differ (up to ${d.max}) at ${d.at}`);
      }
      ctx.hit(j > i); ctx.label(!!c.typed && i === 0 && "typing", j > i && "several frames");
    } },
  { name: "tracks", rule: "drawings of 1-6 elements with looping, scheduled or blinking tracks (flowing, held, partly declared, with custom-property durations, in style sheets or attributes), trimmed to any window; non-trivial = something moves inside the window",
    arb: fc.record({ tracks: fc.array(trackA, { minLength: 1, maxLength: 6, size: "max" }), p: fc.integer({ min: 8, max: 40 }), w: fc.tuple(fc.integer({ min: 0, max: 100 }), fc.integer({ min: 0, max: 100 })), ks: fc.array(fc.double({ min: 0.02, max: 0.98, noNaN: true }), { minLength: 3, maxLength: 3 }) }), runs: { quick: 130, thorough: 3000 },
    prop: async (c, ctx) => {
      const period = c.p * 100; const svg = drawing(c.tracks, period); const [a, b] = [...c.w].sort((x, y) => x - y); const t0 = Math.round(period * a / 100), t1 = Math.round(period * Math.max(b, a + 5) / 100); if (t1 > period) return;
      const win = t1 - t0; const r = trimAnimatedSvg(svg, t0, t1, period);
      if (t0 === 0 && t1 === period) { ensure(r.svg === svg, "the whole period was changed"); return; }
      same(new Set([...walk(parseXml(r.svg))].filter((n) => n.name === "rect" && n.attrs.has("class")).map((n) => n.attrs.get("class"))).size, c.tracks.length, "elements left");
      // an instant is judged if no held or jumping track changes right there
      const jumps = c.tracks.flatMap((k) => { const dur = k.kind === "loop" ? period : k.kind === "blink" ? 300 + k.dur * 70 : k.dur * 100; const st = [0, ...k.stops.map((s) => s.at), 100].map((x) => x / 100 * dur); const z = k.kind === "scheduled" ? k.delay * 100 : 0; return Array.from({ length: Math.ceil((t1 + win) / dur) + 2 }, (_, n) => st.map((x) => z + n * dur + x)).flat(); });
      const loops = c.tracks.every((k) => k.kind === "loop"); let moved = 0, last: Raster | null = null;
      for (const f of c.ks) for (const lap of loops ? [0, 1] : [0]) {
        const k = f * win; if (jumps.some((j) => Math.abs(j - t0 - k) < 2)) continue;
        const want = await raster(bake(svg, t0 + k)), got = await raster(bake(r.svg, k + lap * win)); if (last && diff(last, want, 10).n) moved++; last = want;
        const d = off(got, want, 64); ensure(d.n === 0, () => `window ${t0}-${t1} of ${period}: ${Math.round(k)} ms in${lap ? ", second lap" : ""}, ${d.n} pixels differ (up to ${d.max}) at ${d.at}\n${r.svg}`);
      }
      ctx.hit(moved > 0); ctx.label(loops && "loops", c.tracks.some((k) => k.kind === "scheduled") && "scheduled", c.tracks.some((k) => k.where === "style") && "inline", c.tracks.some((k) => k.how === "var" && k.kind === "loop") && "custom property");
    } },
  { name: "crop", rule: "drawings with root attributes of several spellings, cropped to random rectangles; non-trivial = the rectangle cuts the drawing",
    arb: fc.record({ root: fc.constantFrom(`viewBox="0 0 140 70" width="140" height="70"`, `width='140px' height='70' viewBox='0 0 140 70'`, `viewBox="0,0,140,70"`, `viewBox="0 0 140 70" style="background: #ffffff; overflow: visible"`, `viewBox="0 0 140 70" width="100%" height="100%" stroke-width="3" style='overflow:visible'`, `data-note="a" viewBox="0 0 140 70" width="280" height="140"`), x: fc.integer({ min: -20, max: 150 }), y: fc.integer({ min: -20, max: 80 }), w: fc.integer({ min: 0, max: 170 }), h: fc.integer({ min: 0, max: 90 }), kids: fc.array(fc.tuple(fc.nat({ max: 130 }), fc.nat({ max: 60 }), fc.integer({ min: 5, max: 60 }), fc.nat({ max: 5 })), { minLength: 1, maxLength: 6, size: "max" }) }), runs: { quick: 120, thorough: 3000 },
    prop: async (c, ctx) => {
      const body = c.kids.map(([x, y, s, f]) => `<rect x="${x}" y="${y}" width="${s}" height="${s / 2}" fill="${COL[f]}"/>`).join("") + `<svg x="4" y="4" width="20" height="20" viewBox="0 0 10 10"><rect width="5" height="5" fill="#222222"/></svg>`;
      const svg = `<?xml version="1.0"?>\n<svg xmlns="http://www.w3.org/2000/svg" ${c.root}>${body}</svg>`; const plain = `<svg xmlns="http://www.w3.org/2000/svg" viewBox="0 0 140 70" width="140" height="70"${/stroke-width/.test(c.root) ? ' stroke-width="3"' : ""}>${/background/.test(c.root) ? `` : ""}${body}</svg>`;
      const k = clampCrop({ x: c.x, y: c.y, w: c.w, h: c.h }, 140, 70); const x0 = Math.max(0, c.x), y0 = Math.max(0, c.y), x1 = Math.min(140, c.x + c.w), y1 = Math.min(70, c.y + c.h);
      if (x1 <= x0 || y1 <= y0) { same(k, null, "crop outside the frame"); return; }
      same(k, { x: x0, y: y0, w: x1 - x0, h: y1 - y0 }, "clamped rectangle");
      const out = cropSvgViewBox(svg, k!); const root = parseXml(out); same([root.attrs.get("width"), root.attrs.get("height"), root.attrs.get("viewBox")], [String(k!.w), String(k!.h), `${k!.x} ${k!.y} ${k!.w} ${k!.h}`], "root of the crop");
      ensure(/overflow:\s*hidden/.test(root.attrs.get("style") ?? "") && !/visible/.test(root.attrs.get("style") ?? ""), `root style ${root.attrs.get("style")}`); if (/background/.test(c.root)) ensure(/background/.test(root.attrs.get("style")!), "root style lost"); if (/data-note/.test(c.root)) same(root.attrs.get("data-note"), "a", "attribute");
      const want = clipRaster(await raster(plain), k!.x, k!.y, k!.w, k!.h), got = await raster(out.replace(/ style="[^"]*"/, "")); const d = off(got, want); ensure(d.n === 0, () => `${d.n} pixels of the crop differ at ${d.at}: ${out}`);
      ctx.hit(k!.w < 140 || k!.h < 70);
    } },
  { name: "aspect", rule: "crop boxes resized by every handle, or refitted, under a locked aspect ratio; non-trivial = the frame or the minimum size constrains the box",
    arb: fc.record({ fw: fc.integer({ min: 40, max: 2000 }), fh: fc.integer({ min: 40, max: 2000 }), r: fc.tuple(fc.double({ min: 0, max: 1, noNaN: true }), fc.double({ min: 0, max: 1, noNaN: true }), fc.double({ min: 0, max: 1, noNaN: true }), fc.double({ min: 0, max: 1, noNaN: true })), ar: fc.constantFrom(1, 16 / 9, 4 / 3, 0.5, 0.1, 8, 9 / 16), handle: fc.constantFrom("nw", "ne", "sw", "se", "n", "s", "e", "w") }), runs: { quick: 3000, thorough: 100000 },
    prop: (c, ctx) => {
      const xs = [c.r[0], c.r[1]].sort((a, b) => a - b), ys = [c.r[2], c.r[3]].sort((a, b) => a - b); const MIN = 8;
      const box = { x: xs[0] * (c.fw - MIN), y: ys[0] * (c.fh - MIN), w: 0, h: 0 }; box.w = MIN + (xs[1] - xs[0]) * (c.fw - MIN); box.h = MIN + (ys[1] - ys[0]) * (c.fh - MIN);
      const inside = (b: any, what: string): void => ensure(b.x >= -1e-6 && b.y >= -1e-6 && b.x + b.w <= c.fw + 1e-6 && b.y + b.h <= c.fh + 1e-6, `${what} leaves the frame: ${show(b)}`);
      const fit = fitRectToAspect(box, c.ar, c.fw, c.fh); inside(fit, "refit"); near(fit.w / fit.h, c.ar, 1e-6 * c.ar, "ratio of the refit box"); ensure(fit.w <= box.w + 1e-6 && fit.h <= box.h + 1e-6, "refit box grew"); ensure(Math.abs(fit.w - box.w) < 1e-6 || Math.abs(fit.h - box.h) < 1e-6, "refit box is smaller than it need be"); near(fit.x + fit.w / 2, box.x + box.w / 2, 1e-6, "refit centre"); near(fit.y + fit.h / 2, box.y + box.h / 2, 1e-6, "refit centre");
      const out = constrainResizeToAspect(box, c.handle, c.ar, c.fw, c.fh, MIN); near(out.w / out.h, c.ar, 1e-6 * c.ar, "ratio"); ensure(out.w >= MIN - 1e-6 && out.h >= MIN - 1e-6, `smaller than the minimum: ${show(out)}`);
      const need = { w: Math.max(MIN, MIN * c.ar), h: Math.max(MIN, MIN / c.ar) }; const room = need.w <= c.fw && need.h <= c.fh; if (room) inside(out, "resize");
      const R = box.x + box.w, B = box.y + box.h; const anchored = { x: c.handle.includes("w") ? R - out.w : c.handle.includes("e") ? box.x : (box.x + R) / 2 - out.w / 2, y: c.handle.includes("n") ? B - out.h : c.handle.includes("s") ? box.y : (box.y + B) / 2 - out.h / 2 };
      const fits = anchored.x >= 0 && anchored.y >= 0 && anchored.x + out.w <= c.fw && anchored.y + out.h <= c.fh; if (fits) { near(out.x, anchored.x, 1e-6, "anchored edge"); near(out.y, anchored.y, 1e-6, "anchored edge"); }
      const want = c.handle === "n" || c.handle === "s" ? { w: box.h * c.ar, h: box.h } : { w: box.w, h: box.w / c.ar }; const cramped = Math.abs(out.w - want.w) > 1e-6; ctx.hit(cramped);
      const mw = c.handle.includes("w") ? R : c.handle.includes("e") ? c.fw - box.x : 2 * Math.min((box.x + R) / 2, c.fw - (box.x + R) / 2), mh = c.handle.includes("n") ? B : c.handle.includes("s") ? c.fh - box.y : 2 * Math.min((box.y + B) / 2, c.fh - (box.y + B) / 2);
      if (want.w <= mw && want.h <= mh && want.w >= MIN && want.h >= MIN) near(out.w, want.w, 1e-6, "dragged edge"); else if (mw / Math.max(1e-9, mh) >= 0) { const big = Math.min(want.w, mw, mh * c.ar); if (big >= need.w) near(out.w, big, 1e-6, "largest box that fits"); }
    } },
  { name: "scrubber", rule: "histories of 3-14 requests (exports, timings, trims, tickets, malformed bodies, unknown paths), singly and at once, with pages, browsers and launches failing in between; non-trivial = at least two pictures were exported",
    arb: fc.record({ ops: fc.array(opA, { minLength: 3, maxLength: 14, size: "max" }), burst: fc.constantFrom(1, 1, 3), review: fc.constantFrom(true, true, false), initial: fc.constantFrom(null, 0, "</script><script>alert(1)</script>", "<!--<script>") }), runs: { quick: 60, thorough: 1500 },
    prop: async (c, ctx) => {
      const dir = mkdtempSync(join(DIR, "t-")); const log: string[] = [];
      let launches = 0, busy = 0, fault: string | null = null; let live: any = null;
      const mkPage = (br: any): any => { let vp = { width: 1280, height: 720 }, html = "", t: number | null = null; const p: any = {}; let dead = false;
        const use = async <T>(f: () => T | Promise<T>): Promise<T> => { ensure(busy === 0, "two requests use the page at once"); busy++; try { await new Promise((r) => setTimeout(r, 1)); if (fault === "page") { fault = null; dead = true; throw new Error("page.screenshot: Target crashed"); } if (fault === "browser") { fault = null; br.dead = true; throw new Error("page.setContent: Target page, context or browser has been closed"); } if (fault === "other") { fault = null; throw new Error("something else"); } if (dead || br.dead) throw new Error("Target page, context or browser has been closed"); return await f(); } finally { busy--; } };
        p.setViewportSize = (v: any) => use(() => { vp = v; }); p.setContent = (h: string) => use(() => { html = h; t = null; });
        p.evaluate = (f: any, arg: any) => use(() => { if (typeof arg === "number") { t = arg; return undefined; } if (arg && typeof arg === "object" && "t" in arg) { t = arg.t; return undefined; } if (/getAnimations/.test(String(f)) && arg === undefined) return [{ duration: 1000, iterations: Infinity, endTime: Infinity }]; return undefined; });
        p.screenshot = (o: any) => use(() => Buffer.from(JSON.stringify({ vp, which: /drawing (\d)/.exec(html)?.[1] ?? null, t, clip: o?.clip ?? null }))); p.waitForTimeout = async () => {}; p.on = () => p; return p; };
      const launchBrowser = async (): Promise<any> => { if (fault === "launch") { fault = null; throw new Error("cannot launch"); } launches++; const br: any = { dead: false, closed: 0 }; br.newContext = async () => { if (br.dead) throw new Error("browser.newContext: Target page, context or browser has been closed"); if (fault === "context") { fault = null; throw new Error("out of handles"); } return { newPage: async () => mkPage(br), close: async () => {} }; }; br.close = async () => { br.closed++; }; live = br; return br; };
      const initial = c.initial === null ? undefined : typeof c.initial === "number" ? SVGS[c.initial] : `<svg xmlns="x">${c.initial}</svg>`;
      const srv = await startScrubberServer({ port: 0, ...(initial ? { initialSvg: initial, initialName: "a</script>b.svg" } : {}), review: c.review, ticketDir: dir, launchBrowser, log: (m: string) => log.push(m) });
      const before = readdirSync(DIR).length; let pictures = 0;
      try {
        const one = async (o: any): Promise<void> => {
          if (o.k === "fault") return;
          if (o.k === "shell") { const r = await call(srv.url, "/", "GET"); same([r.status, /^text\/html/.test(r.type)], [200, true], "shell"); const win = new Window({ settings: { disableJavaScriptEvaluation: true, disableJavaScriptFileLoading: true, handleDisabledFileLoadingAsSuccess: true } }); win.document.write(r.body.toString()); const scripts = [...win.document.querySelectorAll("script")].map((s: any) => s.textContent); await win.happyDOM.close(); same(scripts.length, 2, "scripts of the shell"); const w: any = {}; new Function("window", scripts[0])(w); same(w.__SCRUBBER_BOOTSTRAP__.svg, initial ?? null, "the drawing handed to the page"); same(w.__SCRUBBER_BOOTSTRAP__.name, initial ? "a</script>b.svg" : null, "its name"); return; }
          if (o.k === "client") { const r = await call(srv.url, "/client.js", "GET"); same(r.status, 200, "client"); return; }
          if (o.k === "missing") { const r = await call(srv.url, o.p, "GET"); same(r.status, 404, `GET ${o.p}`); return; }
          if (o.k === "bad") {
            const good: any = { svg: SVGS[0], startMs: 0, endMs: 100, periodMs: 1000, timeMs: 0, width: 10, height: 10, title: "t", frameTimeMs: 0, rangeStartMs: 0, rangeEndMs: 1 };
            const field = o.route === "/timing" ? "svg" : o.route === "/trim" ? "startMs" : o.route === "/export-frame" ? "timeMs" : o.route === "/export-range-video" ? "endMs" : "frameTimeMs";
            const body = [`{`, `[]`, `null`, JSON.stringify({ ...good, [field]: undefined }), JSON.stringify({ ...good, [field]: "x" === field ? 1 : null }), JSON.stringify({ ...good, [field]: field === "svg" ? "" : -1 }), JSON.stringify({ ...good, [field]: [] }), ``, JSON.stringify({ ...good, [field]: field === "svg" ? 5 : "5" }), JSON.stringify({ ...good, [field]: {} }), `"x"`, JSON.stringify({ ...good, [field]: true })][o.which];
            const r = await call(srv.url, o.route, "POST", body); same(r.status, o.route === "/ticket" && !c.review ? 404 : 400, `${o.route} with ${body.slice(0, 60)}`); ensure(JSON.parse(r.body.toString()).error, "no message"); return;
          }
          if (o.k === "trim") {
            const r = await call(srv.url, "/trim", "POST", JSON.stringify({ svg: SVGS[o.svg], startMs: o.a, endMs: o.b, periodMs: 1000, ...(o.crop ? { crop: o.crop } : {}) })); same(r.status, 200, "trim"); const out = JSON.parse(r.body.toString()).svg;
            const [t0, t1] = [Math.min(o.a, o.b), Math.max(o.a, o.b)]; if (t1 - t0 < 20) return; const k = (t1 - t0) / 2; const whole = await raster(bake(SVGS[o.svg], t0 + k)); const W = 120 + 10 * o.svg; const x = Math.min(o.crop?.x ?? 0, W), y = Math.min(o.crop?.y ?? 0, 80), w = Math.min(o.crop?.w ?? W, W - x), h = Math.min(o.crop?.h ?? 80, 80 - y);
            const want = w > 0 && h > 0 ? clipRaster(whole, x, y, w, h) : whole; const got = await raster(bake(out, k)); const d = off(got, want); ensure(d.n <= 8, () => `trimmed and cropped drawing ${o.svg}: ${d.n} pixels differ at ${d.at}; crop ${show(o.crop)}: ${out.slice(0, 160)}`); return;
          }
          if (o.k === "timing") { const r = await call(srv.url, "/timing", "POST", JSON.stringify({ svg: SVGS[o.svg] })); if (r.status === 500 && faulted) { faulted = false; return; } same(r.status, 200, `timing (${r.body})`); same(JSON.parse(r.body.toString()), { durationMs: 1000, width: 120 + 10 * o.svg, height: 80 }, "timing"); return; }
          if (o.k === "frame") {
            const W = 120 + 10 * o.svg; const r = await call(srv.url, "/export-frame", "POST", JSON.stringify({ svg: SVGS[o.svg], timeMs: o.t, width: W, height: 80, ...(o.crop ? { crop: o.crop } : {}) })); if (r.status === 500 && faulted) { faulted = false; return; }
            same(r.status, 200, `export (${r.body})`); same(r.type, "image/png", "type"); const g = JSON.parse(r.body.toString()); const k = o.crop ? clampCrop(o.crop, W, 80) : null;
            same(g, { vp: { width: W, height: 80 }, which: String(o.svg), t: g.t, clip: k ? { x: k.x, y: k.y, width: k.w, height: k.h } : null }, "picture exported"); if (g.t != null) same(g.t, o.t, "instant exported"); pictures++; return;
          }
          if (o.k === "ticket") {
            const had = new Set(readdirSync(dir)); const regions = o.regions.map(([x, w]: number[]) => ({ x, y: 1, w, h: 2 })); const lone = o.legacy && regions.length === 1;
            const r = await call(srv.url, "/ticket", "POST", JSON.stringify({ title: " broken ", note: o.note, svgName: o.name, svgPath: null, frameTimeMs: 120, rangeStartMs: 0, rangeEndMs: 900, ...(lone ? { region: regions[0] } : { regions }), attachFrame: o.attach, svg: SVGS[o.svg] }));
            if (!c.review) { same(r.status, 404, "ticket without review mode"); same(readdirSync(dir).length, 0, "files written without review mode"); return; }
            same(r.status, 200, `ticket (${r.body})`); const g = JSON.parse(r.body.toString()); const now = readdirSync(dir).filter((f) => !had.has(f)); const made = now.find((f) => f === g.filename); ensure(made || had.has(g.filename), `ticket ${g.filename} is not in the ticket folder: ${now}`); same(g.path, join(dir, g.filename), "path reported");
            const t = JSON.parse(readFileSync(join(dir, g.filename), "utf8")); same([t.title, t.note, t.svgName, t.frameTimeMs, t.range, t.regions, t.region], ["broken", o.note, o.name, 120, { startMs: 0, endMs: 900 }, regions, regions[0] ?? null], "ticket contents");
            if (o.attach) { if (g.framePng == null) { ensure(faulted, "no picture attached"); faulted = false; } else { ensure(existsSync(g.framePng) && g.framePng.startsWith(dir + "/") && !g.framePng.slice(dir.length + 1).includes("/"), `picture at ${g.framePng}`); same(t.framePng, g.framePng, "picture recorded"); const p = JSON.parse(readFileSync(g.framePng, "utf8")); same([p.which, p.clip, p.vp], [String(o.svg), null, { width: 120 + 10 * o.svg, height: 80 }], "picture attached"); } } else same(g.framePng, null, "picture");
          }
        };
        let faulted = false;
        for (let n = 0; n < c.ops.length;) {
          const o = c.ops[n]; if (o.k === "fault") { fault = o.what; faulted = true; if (o.what === "launch" || o.what === "context") { if (live) { live.dead = false; } } n++; continue; }
          const group = faulted ? [o] : c.ops.slice(n, n + c.burst).filter((x) => x.k !== "fault" && x.k !== "ticket"); if (!group.length || o.k === "ticket") { await one(o); n++; if (!fault) faulted = false; continue; }
          const span = faulted ? 1 : c.ops.slice(n, n + c.burst).findIndex((x) => x.k === "fault" || x.k === "ticket"); const upto = faulted ? 1 : span < 0 ? Math.min(c.burst, c.ops.length - n) : Math.max(1, span);
          await Promise.all(c.ops.slice(n, n + upto).map(one)); n += upto; if (!fault) faulted = false;
        }
        fault = null; faulted = false;
        for (let tries = 0; ; tries++) { try { await one({ k: "frame", svg: 1, t: 77 }); break; } catch (e) { if (tries || !/closed/.test(String(e))) throw e; } } // whatever happened, the next export works
        same(readdirSync(DIR).length, before, "files next to the ticket folder");
      } finally { await srv.close(); rmSync(dir, { recursive: true, force: true }); }
      if (live) ensure(live.closed === 1 || live.dead, "the browser was left running"); ctx.hit(pictures >= 2); ctx.label(launches > 1 && "relaunched", c.burst > 1 && "bursts");
    } },
  { name: "review", rule: "review sessions with awkward labels, whose files vanish while it runs; non-trivial = a file was deleted mid-session",
    arb: fc.record({ label: fc.oneof(fc.constantFrom("a.svg", "</script><script>x</script>", "<b>&\"'", "<!--<script>", "日本\u2028x"), fc.string({ maxLength: 20, unit: "grapheme" })), gone: fc.array(fc.nat({ max: 3 }), { maxLength: 4 }), gets: fc.array(fc.constantFrom("/", "/index.html", "/client.js", "/expected.png", "/actual.png", "/actual.svg", "/diff.png", "/nothing", "/../expected.png", "/constructor", "/expected.png?x=1"), { minLength: 2, maxLength: 8 }), missing: fc.constantFrom(-1, -1, -1, 2) }), runs: { quick: 60, thorough: 1500 },
    prop: async (c, ctx) => {
      const dir = mkdtempSync(join(DIR, "r-")); const files = ["expected.png", "actual.png", "actual.svg", "diff.png"].map((n, i) => { const p = join(dir, n); if (i !== c.missing) writeFileSync(p, `bytes of ${n}\u0000\u00ff`, "latin1"); return p; });
      const inputs = { expectedPng: files[0], actualPng: files[1], actualSvg: files[2], diffPng: files[3], label: c.label, port: 0 };
      if (c.missing >= 0) { let err = ""; try { const s = await startReviewServer(inputs); await s.close(); } catch (e) { err = String(e); } ensure(err.includes(files[c.missing]), `missing file: ${err}`); return; }
      const srv = await startReviewServer(inputs);
      try {
        for (const [n, p] of c.gets.entries()) {
          if (c.gone[n] != null && existsSync(files[c.gone[n]])) unlinkSync(files[c.gone[n]]);
          const r = await call(srv.url, p, "GET"); const base = p.split("?")[0];
          const i = ["/expected.png", "/actual.png", "/actual.svg", "/diff.png"].indexOf(base);
          if (i >= 0) { same([r.status, r.type, r.body.toString("latin1")], [200, i === 2 ? "image/svg+xml" : "image/png", `bytes of ${base.slice(1)}\u0000\u00ff`], `GET ${p}`); continue; }
          if (base === "/client.js") { same(r.status, 200, "client"); continue; }
          if (base !== "/" && base !== "/index.html") { same(r.status, 404, `GET ${p}`); continue; }
          const win = new Window({ settings: { disableJavaScriptEvaluation: true, disableJavaScriptFileLoading: true, handleDisabledFileLoadingAsSuccess: true } }); win.document.write(r.body.toString()); const scripts = [...win.document.querySelectorAll("script")].map((s: any) => s.textContent); const h1 = win.document.querySelector("h1").textContent; await win.happyDOM.close();
          same(scripts.length, 2, "scripts of the page"); same(h1, c.label, "heading"); const w: any = {}; new Function("window", scripts[0])(w); same(w.__SVG_REVIEW__.label, c.label, "label handed to the page");
        }
      } finally { await srv.close(); rmSync(dir, { recursive: true, force: true }); }
      ctx.hit(c.gone.length > 0);
    } },
] });
