// F03: templates. Each built-in template is rendered with a stand-in for the animate pipeline, so
// what it hands over (a page, its reveal animations, a length) can be judged against its parameters.
import { createRequire } from "node:module";
import { mkdtempSync, readFileSync, rmSync } from "node:fs";
import { join } from "node:path";
import { fc, runCheck, ensure, fail, near, same, show, SCRATCH } from "../lib/harness.ts";
import { bake } from "../lib/bake.ts";
import { raster } from "../lib/png.ts";
import { parseXml, walk, textContent, classes } from "../lib/xml.ts";
import { parseEasing } from "../lib/css.ts";
const { Window } = createRequire("/repo/package.json")("happy-dom");
const T = await import("/repo/src/templates/index.ts");
const { brandRootCss } = await import("/repo/src/templates/brand.ts"); const { safeAreaGuideSvg, formatScaleFactor } = await import("/repo/src/templates/formats.ts");
const { validateAnimateConfig } = await import("/repo/src/cli/animate.ts");
const opt = <A>(a: fc.Arbitrary<A>, freq = 3): fc.Arbitrary<A | undefined> => fc.option(a, { nil: undefined, freq });
const clean = (o: any): any => Object.fromEntries(Object.entries(o).filter(([, v]) => v !== undefined));
const DIR = mkdtempSync(join(SCRATCH, "f03-"));

/** What a template hands to the pipeline. */
async function render(name: string, raw: any, brand?: any, safeInset?: any): Promise<any> {
  const t = T.getBuiltinTemplate(name)!; let cfg: any, html = "", shots: any[] = [];
  const params = T.validateTemplateParams(t, T.applyBrandDefaults(t, raw, brand));
  const out = await t.render(params as any, { browser: null, workDir: DIR, log() {}, ...(safeInset ? { safeInset } : {}),
    async runAnimateConfig(c: any, dir?: string) { cfg = c; html = readFileSync(join(dir ?? DIR, c.frames[0].input), "utf8"); return "<svg/>"; },
    async captureToSvg(p: any) { shots.push(p); const first = /before|one/.test(p.input); return { svg: `<svg xmlns="http://www.w3.org/2000/svg" width="${p.width}" height="${p.height}" viewBox="0 0 ${p.width} ${p.height}"><rect width="${p.width}" height="${p.height}" fill="${first ? "#ff0000" : "#0000ff"}"/></svg>`, width: p.width, height: p.height }; } } as any);
  return { out, cfg, html, shots, params };
}
async function page<R>(html: string, f: (doc: any) => R): Promise<R> {
  const win = new Window({ settings: { disableJavaScriptEvaluation: true, disableJavaScriptFileLoading: true, handleDisabledFileLoadingAsSuccess: true, disableCSSFileLoading: true } });
  try { win.document.write(html); return f(win.document); } finally { await win.happyDOM.close(); }
}
const texts = (n: any, out: string[] = []): string[] => { for (const c of n.childNodes) if (c.nodeType === 3) { if (c.textContent.trim() !== "") out.push(c.textContent); } else if (c.nodeType === 1 && c.tagName !== "STYLE") texts(c, out); return out; };
const lone = (s: string): boolean => /[\uD800-\uDBFF](?![\uDC00-\uDFFF])|(?<![\uD800-\uDBFF])[\uDC00-\uDFFF]/.test(s);

const textA = fc.oneof({ weight: 3, arbitrary: fc.constantFrom("Hello", "R&D <b>now</b>", "a < b > c", "\"quoted\" 'text'", "&amp; &lt;", "</div><script>x</script>", "日本語", "𝒜lpha", "🚀 launch", "👩‍🚀", "e\u0301clair", "<!-- no -->", "$& $1 $'", "مرحبا", "one two  three", "100%", "{x}", "</style>") }, { weight: 1, arbitrary: fc.string({ minLength: 1, maxLength: 14, unit: "grapheme" }).map((s) => s.replace(/[\u0000-\u001f\u007f-\u009f\ufffe\uffff]/g, "x")).filter((s) => s.trim() !== "" && !/[\u2028\u2029\u00a0\ufeff]/.test(s)) });
const colA = fc.nat({ max: 0xffffff }).map((n) => `#${n.toString(16).padStart(6, "0")}`);
const msA = (lo: number, hi: number): fc.Arbitrary<number> => fc.integer({ min: lo, max: hi });
const sizeA = { width: opt(fc.constantFrom(640, 1080, 1280)), height: opt(fc.constantFrom(400, 720, 1920)) };
const has = (v: any): boolean => v != null && v !== "";

interface Spec { params: fc.Arbitrary<any>; texts: (p: any) => (string | RegExp)[]; exits?: (sel: string) => boolean; colors: string[]; used?: (p: any, k: string) => boolean; brand: Record<string, string>; dur: (p: any) => [number, number] }
const initialOf = (s: string): RegExp => { const g = [...new Intl.Segmenter("en", { granularity: "grapheme" }).segment(s.trim())][0]?.segment ?? ""; const up = (z: string): string => z.toUpperCase().replace(/[.*+?^${}()|[\]\\]/g, "\\$&"); return new RegExp(`^(?:${up(g)}|${up([...g][0] ?? "")})$`, "u"); };
const BG = "background", FONT = "fontFamily";
const SPECS: Record<string, Spec> = {
  "lower-third": { params: fc.record({ title: textA, subtitle: opt(textA), accent: opt(colA), theme: opt(fc.constantFrom("dark", "light")), position: opt(fc.constantFrom("bottom-left", "bottom-center", "bottom-right", "top-left", "top-right")), background: opt(colA), holdMs: opt(msA(700, 5000)), logo: opt(fc.constantFrom("https://x.test/a?b=1&c=\"2\"", "/tmp/l.png")), logoPosition: opt(fc.constantFrom("panel", "top-left", "top-right")), ...sizeA }),
    texts: (p) => [p.title, p.subtitle].filter(has), colors: ["accent", "background"], brand: { accent: "palette.accent", [BG]: "bg", [FONT]: "font", logo: "logo" }, dur: (p) => [p.holdMs ?? 3000, p.holdMs ?? 3000] },
  "title-card": { params: fc.record({ title: textA, subtitle: opt(textA), eyebrow: opt(textA), align: opt(fc.constantFrom("center", "left")), theme: opt(fc.constantFrom("dark", "light")), background: opt(colA), textColor: opt(colA), accent: opt(colA), reveal: opt(fc.constantFrom("fade-up", "pop")), holdMs: opt(msA(1, 6000)), logo: opt(fc.constantFrom("https://x.test/a?b=1&c=\"2\"", "/tmp/l.png")), logoPosition: opt(fc.constantFrom("above", "below")), ...sizeA }),
    texts: (p) => [p.eyebrow, p.title, p.subtitle].filter(has), colors: ["background", "textColor", "accent"], brand: { [BG]: "bg", textColor: "palette.text", accent: "palette.accent", [FONT]: "font", logo: "logo" }, dur: (p) => [p.holdMs ?? 3500, Infinity] },
  quote: { params: fc.record({ quote: textA, author: opt(textA), role: opt(textA), avatarInitial: opt(fc.constantFrom("Q", "🚀")), avatarColor: opt(colA), accent: opt(colA), theme: opt(fc.constantFrom("dark", "light")), background: opt(colA), textColor: opt(colA), holdMs: opt(msA(1, 6000)), ...sizeA }),
    texts: (p) => ["“", p.quote, ...(has(p.avatarInitial) && (has(p.author) || has(p.role)) ? [p.avatarInitial] : has(p.author) ? [initialOf(p.author)] : []), p.author, p.role].filter(has), colors: ["accent", "background", "textColor", "avatarColor"], used: (p, k) => k !== "avatarColor" || has(p.author) || has(p.role), brand: { accent: "palette.primary", [BG]: "bg", textColor: "palette.text", [FONT]: "font" }, dur: (p) => [p.holdMs ?? 3800, Infinity] },
  caption: { params: fc.record({ text: textA, position: opt(fc.constantFrom("bottom-center", "center", "top-center")), motion: opt(fc.constantFrom("fade", "slide")), maxWidthPct: opt(fc.constantFrom(10, 55, 100)), bgOpacity: opt(fc.constantFrom(0, 0.4)), textColor: opt(colA), inMs: opt(msA(1, 1500)), outMs: opt(msA(1, 1500)), holdMs: opt(msA(1, 6000)), ...sizeA }),
    texts: (p) => [p.text], exits: (s) => s === ".cap-out", colors: ["textColor"], brand: { [FONT]: "font" }, dur: (p) => [p.holdMs ?? 2600, Infinity] },
  cta: { params: fc.record({ cta: textA, headline: opt(textA), ctaColor: opt(colA), logo: opt(fc.constantFrom("https://x.test/a?b=1&c=\"2\"", "/tmp/l.png")), handles: opt(fc.array(textA, { minLength: 0, maxLength: 3, size: "max" })), url: opt(textA), pulse: opt(fc.boolean()), theme: opt(fc.constantFrom("dark", "light")), background: opt(colA), textColor: opt(colA), holdMs: opt(msA(1, 6000)), ...sizeA }),
    texts: (p) => [p.headline, p.cta, ...(p.handles ?? []).flatMap((h: string, i: number) => i ? ["·", h] : [h]), p.url].filter(has), colors: ["ctaColor", "background", "textColor"], brand: { ctaColor: "palette.primary", [BG]: "bg", textColor: "palette.text", [FONT]: "font", logo: "logo" }, dur: (p) => [p.holdMs ?? 4000, Infinity] },
  chat: { params: fc.record({ messages: fc.array(fc.record({ from: fc.constantFrom("me", "them"), text: textA }), { minLength: 1, maxLength: 6, size: "max" }), title: opt(textA), accent: opt(colA), themBubble: opt(colA), themText: opt(colA), background: opt(colA), typing: opt(fc.boolean()), typingMs: opt(msA(1, 1500)), popMs: opt(msA(1, 800)), staggerMs: opt(msA(0, 900)), holdMs: opt(msA(200, 3000)), ...sizeA }),
    texts: (p) => [...(has(p.title) ? [initialOf(p.title), p.title] : []), ...p.messages.map((m: any) => m.text)], exits: (s) => /typing-inner/.test(s), colors: ["accent", "themBubble", "themText", "background"], brand: { accent: "palette.primary", [BG]: "bg", [FONT]: "font" }, dur: (p) => { let t = 0, last = 0; for (const m of p.messages) { if (p.typing !== false && m.from === "them") t += p.typingMs ?? 900; last = t; t += p.staggerMs ?? 650; } const d = last + (p.popMs ?? 360) + (p.holdMs ?? 2000); return [d, d]; } },
  subscribe: { params: fc.record({ name: opt(textA), subtitle: opt(textA), action: opt(textA), accent: opt(colA), avatarColor: opt(colA), avatarText: opt(fc.constantFrom("Z", "🚀")), theme: opt(fc.constantFrom("dark", "light")), background: opt(colA), showBell: opt(fc.boolean()), clickAfterMs: opt(fc.oneof(fc.constant(0), msA(1, 2500))), subscribedLabel: opt(textA), popMs: opt(msA(1, 1500)), holdMs: opt(msA(100, 3000)), ...sizeA }),
    texts: (p) => [has(p.avatarText) ? p.avatarText : initialOf(p.name ?? "Domotion"), p.name ?? "Domotion", p.subtitle ?? "1.2M subscribers", p.action ?? "Subscribe", ...((p.clickAfterMs ?? 1700) > 0 ? [`✓ ${p.subscribedLabel ?? "Subscribed"}`] : [])], exits: (s) => /sub-state-cta|sub-bell-off/.test(s), colors: ["accent", "avatarColor", "background"], brand: { accent: "palette.primary", avatarColor: "palette.primary", [BG]: "bg", [FONT]: "font" }, dur: (p) => [(p.clickAfterMs ?? 1700) > 0 ? (p.clickAfterMs ?? 1700) + (p.holdMs ?? 2600) : (p.popMs ?? 520) + (p.holdMs ?? 2600), Infinity] },
};
const bought = (brand: any, path: string): any => path === "bg" ? brand.background ?? brand.palette?.background : path === "font" ? brand.font?.family : path === "logo" ? brand.logo : brand.palette?.[path.slice(8)];
const brandA = fc.record({ palette: opt(fc.record({ primary: opt(colA), accent: opt(colA), background: opt(colA), text: opt(colA), muted: opt(fc.constant("#0a1b2d")) }).map(clean)), font: opt(fc.record({ family: opt(fc.constantFrom("Inter, sans-serif", "'IBM Plex Sans', serif")) }).map(clean)), radius: opt(fc.constant(8)), logo: opt(fc.constant("/tmp/brand.png")), background: opt(colA) }).map(clean);
const formatA = fc.oneof(fc.constantFrom("reel", "Story", "square", "portrait", " landscape "), fc.tuple(fc.integer({ min: 300, max: 2000 }), fc.integer({ min: 300, max: 2000 }), fc.constantFrom("x", "X", "×")).map(([a, b, x]) => `${a}${x}${b}`));
const SIZES: Record<string, [number, number]> = { reel: [1080, 1920], story: [1080, 1920], square: [1080, 1080], portrait: [1080, 1350], landscape: [1920, 1080] };

/** Rules every generated scene keeps. */
async function sane(r: any, exits: (s: string) => boolean, what: string): Promise<void> {
  validateAnimateConfig(r.cfg); const f = r.cfg.frames[0];
  same([r.cfg.width, r.cfg.height, r.cfg.frames.length, f.duration], [r.out.width, r.out.height, 1, r.out.durationMs], `${what}: the scene's size and length`);
  await page(r.html, (doc) => { for (const a of f.animations ?? []) { const n = doc.querySelectorAll(a.selector).length; ensure(n === 1, () => `${what}: the animation of ${a.selector} finds ${n} elements`); } });
  for (const a of f.animations ?? []) { if (a.repeat === "infinite") continue;
    ensure((a.delay ?? 0) + a.duration <= f.duration + 1e-6, () => `${what}: ${a.selector} ${a.property} ends at ${(a.delay ?? 0) + a.duration} ms, the scene at ${f.duration} ms`);
    const fade = [a, ...(a.fuse ?? [])].find((q: any) => q.property === "opacity"); if (fade) same(fade.to, exits(a.selector) ? "0" : "1", `${what}: the opacity ${a.selector} is left with`);
    if (!exits(a.selector)) for (const q of [a, ...(a.fuse ?? [])]) ensure(q.property === "opacity" || /^(0|1)(px|em)?$|^(inset\([-\d.% ]*\))$|^scale[XY]?\(1\)( rotate\(0deg\))?$|^translate[XY]?\(0(px|em)?(, 0(px|em)?)?\)( scale\(1\))?$/.test(q.to.trim()), () => `${what}: ${a.selector} does not come to rest where the page has it: ${q.property} ${q.to}`); }
}

// inline-styled headlines
const wordA = fc.record({ parts: fc.array(fc.record({ t: fc.constantFrom("Big", "día", "🚀", "👩‍🚀", "e\u0301", "a&b", "x<3", "𝒜", "ok!", "fi"), b: fc.boolean(), i: fc.boolean(), u: fc.boolean(), s: fc.boolean(), c: opt(colA, 2) }), { minLength: 1, maxLength: 2, size: "max" }) });
const kineticA = fc.record({ lines: fc.array(fc.array(wordA, { minLength: 0, maxLength: 3, size: "max" }), { minLength: 1, maxLength: 3, size: "max" }).filter((l) => l.some((w) => w.length > 0)), sep: fc.constantFrom("\n", "\\n"), by: fc.constantFrom("word", "char"), variant: fc.constantFrom("rise", "slide", "fade", "clip", "pop"), loop: fc.constantFrom("loop", "boomerang"), staggerMs: msA(1, 300), revealMs: msA(1, 900), holdMs: msA(1, 2000) });
const graphemes = (s: string): string[] => [...new Intl.Segmenter("en", { granularity: "grapheme" }).segment(s)].map((g) => g.segment);

// numbers
const numA = fc.oneof(fc.integer({ min: -20, max: 120 }), fc.integer({ min: -1e6, max: 1e7 }), fc.constantFrom(0, 9, 10, 99, 100, 999, 1000, 128500));
const counterA = fc.record({ kind: fc.constantFrom("count", "timer", "stat"), from: numA, to: numA, decimals: fc.nat({ max: 3 }), grouping: fc.boolean(), prefix: opt(fc.constantFrom("$", "<", "🚀")), suffix: opt(fc.constantFrom("%", "K+", "&c")), fontSize: fc.constantFrom(64, 180, 77), durationMs: msA(1, 3000), staggerMs: fc.constantFrom(0, 60, 170), holdMs: msA(1, 5000), delta: opt(fc.constantFrom("8.1%", "-3", "▼ 2", "+4", "↑9", "<b>")), label: opt(textA), still: fc.boolean(), inset: fc.boolean() });
const clock = (s: string): number => s.split(":").reduce((a, b) => a * 60 + Number(b), 0);

// charts
const chartA = fc.record({ type: fc.constantFrom("column", "bar", "line", "pie", "donut"), series: fc.array(fc.array(fc.oneof(fc.integer({ min: 0, max: 100 }), fc.constantFrom(0, 0.5, 1, 3.25, 999, 12000)), { minLength: 1, maxLength: 6, size: "max" }), { minLength: 1, maxLength: 3, size: "max" }), layout: fc.constantFrom("grouped", "stacked"), labels: opt(fc.array(fc.constantFrom("Q1", "R&D", "<x>", "日本", "last"), { minLength: 1, maxLength: 4, size: "max" })), names: opt(fc.array(fc.constantFrom("North", "A<B", "S"), { minLength: 1, maxLength: 3, size: "max" })), title: opt(textA), head: fc.constantFrom(undefined, 1, 1.5, 3), yTicks: fc.constantFrom(0, 1, 4, 5, 10), showValues: fc.boolean(), growMs: msA(50, 1500), staggerMs: msA(0, 300), holdMs: msA(700, 2500), csv: fc.boolean(), inset: fc.boolean(), colors: fc.boolean() });
const px = (el: any, k: string): number => { const m = new RegExp(`(?:^|;)${k}:(-?[\\d.]+)(?:px)?(?:;|$)`).exec(el.getAttribute("style") ?? ""); return m ? Number(m[1]) : NaN; };
const fmtNum = (v: number): string => String(Math.round(v * 100) / 100);
const PAL = ["#e6194b", "#3cb44b", "#4363d8", "#f58231", "#911eb4", "#46f0f0"];

const compareA = fc.record({ mode: fc.constantFrom("wipe", "slide"), direction: fc.constantFrom("right", "left", "down", "up"), before: opt(textA.filter((z) => z.length < 10)), after: opt(textA.filter((z) => z.length < 10)), durationMs: msA(200, 3000), holdMs: fc.oneof(msA(1, 6000), fc.constant(3205)), W: fc.constantFrom(200, 320), H: fc.constantFrom(120, 240), ks: fc.array(fc.double({ min: 0.02, max: 0.97, noNaN: true }), { minLength: 2, maxLength: 3, size: "max" }), lap: fc.constantFrom(0, 1, 40) });
const loopA = fc.record({ variant: fc.constantFrom("aurora", "orbs", "stars", "gradient-pan", "grid", "wave"), colors: fc.uniqueArray(colA, { minLength: 1, maxLength: 4, size: "max" }), count: fc.integer({ min: 1, max: 24 }), width: fc.integer({ min: 200, max: 1300 }), height: fc.integer({ min: 150, max: 900 }), durationMs: msA(500, 12000), seed: fc.integer({ min: -5, max: 1000 }), csv: fc.boolean() });

await runCheck({ id: "F03", assumptions: ["The pipeline a template drives is a stand-in that records the page, the animations and the length it is handed; what the pipeline makes of them is judged by F01, A01-A04."], parts: [
  { name: "cards", rule: "a random text template with hostile text, brand and format; non-trivial when text needs escaping, a brand sets something or a format is chosen", runs: { quick: 500, thorough: 6000 },
    arb: fc.constantFrom(...Object.keys(SPECS)).chain((name) => fc.record({ name: fc.constant(name), raw: SPECS[name].params.map(clean), brand: opt(brandA, 2), format: opt(formatA, 2) })),
    prop: async (c: any, ctx) => {
      const S = SPECS[c.name]; const raw = { ...c.raw }; let inset: any;
      if (c.format) { const f = T.resolveFormat(c.format); const key = c.format.trim().toLowerCase(); const want = SIZES[key] ?? key.split(/[x×]/).map(Number); same([f.width, f.height], want, `the size of ${c.format}`); for (const k of ["top", "right", "bottom", "left"]) { const side = k === "top" || k === "bottom" ? f.height : f.width; const lo = /^(reel|story)$/.test(key) ? ({ top: 0.12, bottom: 0.18 } as any)[k] ?? 0.06 : 0.06; near(f.safeInset[k], side * lo, 0.51, `${c.format}: the ${k} inset`); } inset = f.safeInset; T.applyFormatSize(raw, f); same([raw.width, raw.height], [c.raw.width ?? f.width, c.raw.height ?? f.height], "explicit sizes over the format's"); }
      const r = await render(c.name, raw, c.brand, inset); const def: any = T.validateTemplateParams(T.getBuiltinTemplate(c.name)!, raw);
      const want = S.texts(c.raw);
      ensure(!lone(r.html), () => `${c.name}: half a character in the page\n${show(c.raw)}`);
      await page(r.html, (doc) => {
        const got = texts(doc.body); const squash = (s: string): string => s.replace(/\s+/g, " ").trim();
        ensure(got.length === want.length && got.every((g, i) => typeof want[i] === "string" ? g.trim() === (want[i] as string).trim() : (want[i] as RegExp).test(squash(g))), () => `${c.name}: the page reads ${show(got)}, asked for ${show(want.map(String))}`);
        for (const e of doc.body.querySelectorAll("*")) ensure(/^(DIV|SPAN|IMG|BUTTON|SVG|PATH)$/i.test(e.tagName), () => `${c.name}: text became a <${e.tagName}>`);
        const logo = raw.logo ?? (S.brand.logo ? c.brand?.logo : undefined); same([...doc.querySelectorAll("img")].map((i: any) => i.getAttribute("src")), logo ? [logo] : [], `${c.name}: the logo`);
      });
      const css = r.html;
      for (const k of S.colors) { const v = raw[k]; if (v != null && (S.used?.(c.raw, k) ?? true)) ensure(css.includes(v), () => `${c.name}: ${k} ${v} is not used`); }
      for (const [k, path] of Object.entries(S.brand)) { const v = c.brand && bought(c.brand, path); if (v == null || k === "logo") continue; const used = S.used?.(c.raw, k) ?? true; if (k in c.raw) { if (typeof v === "string" && !Object.entries(S.brand).some(([k2, p2]) => k2 !== k && !(k2 in c.raw) && bought(c.brand, p2) === v) && !Object.values(c.raw).includes(v)) ensure(!css.includes(v), () => `${c.name}: the brand's ${path} ${v} got past the explicit ${k}`); } else if (used && !(c.name === "subscribe" && k === "name")) ensure(css.includes(v), () => `${c.name}: the brand's ${path} ${v} is not used for ${k}`); else ensure(true, ""); }
      if (c.brand?.palette?.muted) { const all = Object.values(c.raw).concat(Object.values(S.brand).map((q) => bought(c.brand, q))); if (!all.includes(c.brand.palette.muted)) ensure(!css.includes(c.brand.palette.muted), () => `${c.name}: an unmapped brand token was used`); }
      const dims = [raw.width ?? def.width, raw.height ?? def.height]; same([r.out.width, r.out.height], dims, `${c.name}: output size`);
      ensure(css.includes(`html, body { width: ${dims[0]}px; height: ${dims[1]}px`), () => `${c.name}: the page is not ${dims}`);
      if (inset) { const m = /padding: (-?[\d.]+)px (-?[\d.]+)px (-?[\d.]+)px (-?[\d.]+)px/.exec(css); ensure(m != null && [inset.top, inset.right, inset.bottom, inset.left].every((v: number, i: number) => Number(m[i + 1]) >= v), () => `${c.name}: content may enter the unsafe margin: ${m?.[0]} for ${show(inset)}`); }
      if (c.brand) { const b = c.brand; const want = [["primary", b.palette?.primary], ["accent", b.palette?.accent], ["background", b.background ?? b.palette?.background], ["text", b.palette?.text], ["muted", b.palette?.muted], ["font-family", b.font?.family], ["radius", b.radius && `${b.radius}px`]].filter(([, v]) => v).map(([k, v]) => `--brand-${k}:${v}`); same(brandRootCss(b).replace(/^:root\s*\{|\}$/g, "").split(";").map((z: string) => z.trim()).filter(Boolean).map((z: string) => z.replace(/:\s*/, ":")).sort(), want.sort(), "the brand's variables for authored pages"); }
      if (inset) {
        const [w, h] = T.resolveFormat(c.format) ? [T.resolveFormat(c.format).width, T.resolveFormat(c.format).height] : dims; const g = parseXml(safeAreaGuideSvg(w, h, inset)); const rect = [...walk(g)].find((e) => e.name === "rect")!; same(["x", "y", "width", "height"].map((k) => Number(rect.attrs.get(k))), [inset.left, inset.top, w - inset.left - inset.right, h - inset.top - inset.bottom], "the safe-area guide"); const paths = [...walk(g)].filter((e) => e.name === "path"); same(paths.length, 4, "the guide's corners");
        for (const p of paths) { const m = /^M(-?[\d.]+) (-?[\d.]+) H(-?[\d.]+) V(-?[\d.]+)$/.exec(p.attrs.get("d")!)!; for (const x of [m[1], m[3]]) ensure(Number(x) >= inset.left && Number(x) <= w - inset.right, "a guide's corner points inwards"); for (const y of [m[2], m[4]]) ensure(Number(y) >= inset.top && Number(y) <= h - inset.bottom, "a guide's corner points inwards"); }
        const f1 = formatScaleFactor(w, h, inset), k = { top: inset.top * 1.2, right: inset.right * 1.2, bottom: inset.bottom * 1.2, left: inset.left * 1.2 }, f2 = formatScaleFactor(w * 1.2, h * 1.2, k); ensure(f2 >= f1 && (f1 <= 0.75 || f2 >= 1.85 || Math.abs(f2 / f1 - 1.2) < 1e-9), () => `type scales ${f1} at ${w}x${h}, ${f2} a fifth larger`); if (w <= 900 && h <= 500) ensure(f1 < 1, "small formats have smaller type"); if (w >= 1280 && h >= 900) ensure(f1 >= 1, "large formats have larger type");
      }
      const [lo, hi] = S.dur(c.raw); ensure(r.out.durationMs >= lo && r.out.durationMs <= hi, () => `${c.name}: lasts ${r.out.durationMs} ms, asked for ${lo}`);
      await sane(r, S.exits ?? (() => false), `${c.name} ${show(c.raw)}`);
      if (!c.brand && !c.format) { const again = await render(c.name, raw); same(again.html, r.html, "rendering twice"); }
      ctx.hit(want.some((w) => typeof w === "string" && /[<&"\u0100-\uffff]/.test(w)) || Object.keys(c.brand ?? {}).length > 0 || c.format); ctx.label(c.name, c.brand && "a brand", c.format && "a format", raw.logo && "a logo");
    } },
  { name: "kinetic", rule: "styled headlines of several lines by word or character; non-trivial with more than one unit and some styling or an astral character", arb: kineticA, runs: { quick: 500, thorough: 5000 },
    prop: async (c: any, ctx) => {
      const esc = (s: string): string => s;
      const src = c.lines.map((l: any) => l.map((w: any) => w.parts.map((q: any) => { let s = esc(q.t); if (q.c) s = `<font color="${q.c}">${s}</font>`; if (q.s) s = `<s>${s}</s>`; if (q.u) s = `<u>${s}</u>`; if (q.i) s = `<em>${s}</em>`; if (q.b) s = `<b>${s}</b>`; return s; }).join("")).join(" ")).join(c.sep);
      if (src.length > 400) return;
      const r = await render("kinetic-text", { text: src, by: c.by, variant: c.variant, loop: c.loop, staggerMs: c.staggerMs, revealMs: c.revealMs, holdMs: c.holdMs });
      ensure(!lone(r.html), () => `half a character in the page of ${show(src)}`);
      const want: any[] = []; const wantLines: string[] = []; for (const l of c.lines) { wantLines.push(l.map((w: any) => w.parts.map((q: any) => q.t).join("")).join(" ")); for (const w of l) { if (c.by === "word") want.push(w.parts); else for (const q of w.parts) for (const g of graphemes(q.t)) want.push([{ ...q, t: g }]); } }
      await page(r.html, (doc) => {
        same([...doc.querySelectorAll(".kt-line")].map((l: any) => l.textContent.replace(/\u00a0/g, "")), wantLines, "the lines");
        const units = [...doc.querySelectorAll(".kt-w")]; same(units.map((u: any) => u.textContent), want.map((u) => u.map((q: any) => q.t).join("")), `the units of ${show(src)}`);
        units.forEach((u: any, i: number) => { ensure(u.classList.contains(`kt-w-${i}`), "units are numbered in reading order"); let at = 0; const chars: any[] = []; const visit = (n: any, st: string): void => { for (const k of n.childNodes) if (k.nodeType === 3) for (const ch of k.textContent) chars.push([ch, st]); else visit(k, st + (k.getAttribute("style") ? `${k.getAttribute("style")};` : "")); }; visit(u, ""); for (const q of want[i]) for (const ch of q.t) { const [g, st] = chars[at++]; same(g, ch, "a character"); const is = [/font-weight:900/.test(st), /font-style:italic/.test(st), /underline/.test(st), /line-through/.test(st), /color:([^;]*)/.exec(st)?.[1]]; same(is, [q.b, q.i, q.u, q.s, q.c], `the look of ${show(g)} in ${show(src)}`); } });
      });
      const an = r.cfg.frames[0].animations; same(an.map((a: any) => [a.selector, a.delay, a.duration]), want.map((_, i) => [`.kt-w-${i}`, i * c.staggerMs, c.revealMs]), "the reveal of the units");
      const end = (want.length - 1) * c.staggerMs + c.revealMs; ensure(r.out.durationMs >= end + (c.loop === "loop" ? c.holdMs : 0), () => `lasts ${r.out.durationMs} ms`);
      for (const a of an) { same([a.repeat === "infinite", a.alternate === true], c.loop === "boomerang" ? [true, true] : [false, false], "looping"); ensure([a, ...(a.fuse ?? [])].some((q: any) => q.property === "opacity" && q.from === "0" && q.to === "1"), "units fade in"); }
      await sane(r, () => false, "kinetic-text");
      ctx.hit(want.length > 1 && (want.flat().some((q) => q.b || q.c || q.u) || /[\ud800-\udfff]/.test(src))); ctx.label(c.by, c.variant, c.loop, /[\ud800-\udfff]/.test(src) && "astral", c.lines.length > 1 && "several lines");
    } },
  { name: "numbers", rule: "counters, timers and stats between two random values; non-trivial when a digit rolls", arb: counterA, runs: { quick: 300, thorough: 6000 },
    prop: async (c: any, ctx) => {
      const k = c.kind === "timer" ? 1 : 10 ** c.decimals; const from = c.kind === "timer" ? Math.abs(c.from) : c.from / k, to = c.kind === "timer" ? Math.abs(c.to) : c.to / k;
      const raw = c.kind === "stat" ? { value: to, decimals: c.decimals, grouping: c.grouping, prefix: c.prefix, suffix: c.suffix, fontSize: c.fontSize, durationMs: c.durationMs, holdMs: c.holdMs, delta: c.delta, label: c.label, animateValue: !c.still } : { from, to, mode: c.kind, decimals: c.decimals, grouping: c.grouping, prefix: c.prefix, suffix: c.suffix, fontSize: c.fontSize, durationMs: c.durationMs, staggerMs: c.staggerMs, holdMs: c.holdMs };
      const inset = c.inset ? T.resolveFormat("reel").safeInset : undefined; const sized = c.inset ? { ...raw, width: 1080, height: 1920 } : raw;
      const r = await render(c.kind === "stat" ? "stat" : "counter", clean(sized), undefined, inset); const start = c.kind === "stat" ? (c.still ? to : 0) : from; const an = r.cfg.frames[0].animations;
      await page(r.html, (doc) => {
        const cell = Number(/\.od-d \{[^}]*height: ([\d.]+)px/.exec(r.html)![1]); ensure(r.html.includes(`.od-cell { display: inline-block; height: ${cell}px`), "a window is one digit high"); if (!c.inset) same(cell, c.fontSize, "the size of a digit");
        const row = doc.querySelector(".od-row"); let begin = "", end = "", rolls = 0; let order = 0;
        for (const col of row.children) { if (col.classList.contains("od-static")) { begin += col.textContent; end += col.textContent; continue; }
          const ds = [...col.querySelectorAll(".od-d")].map((d: any) => d.textContent); ensure(ds.every((d: string) => /^\d$/.test(d)), "a reel holds digits"); end += ds[0];
          const strip = col.querySelector(".od-strip"); if (!strip) { same(ds.length, 1, "a still digit"); begin += ds[0]; continue; }
          const sel = [...strip.classList].find((q: string) => q !== "od-strip"); const a = an.filter((q: any) => q.selector === `.${sel}`); same(a.length, 1, "one roll per reel"); rolls++; near(Number.parseFloat(a[0].from) / -cell, ds.length - 1, 1e-6, "the roll starts at the reel's end"); same([a[0].property, a[0].to, a[0].duration], ["translateY", "0px", c.durationMs], "the roll"); same(a[0].delay, order++ * (c.kind === "stat" ? 60 : c.staggerMs), "reels start left to right");
          begin += ds[ds.length - 1]; const step = (Number(ds[0]) - Number(ds[1]) + 10) % 10; ensure(step === 1 || step === 9, "a reel turns one digit at a time"); for (let i = 1; i < ds.length; i++) same((Number(ds[i - 1]) - Number(ds[i]) + 10) % 10, step, "a reel turns one way"); if (start >= 0 && to >= 0) same(step === 1, to >= start, "reels turn up when counting up"); ensure(ds.length <= 51, "a reel's length"); }
        const what = `${c.kind} ${start} to ${to}: reads ${begin} then ${end}`; const shape = (s: string): boolean => c.kind === "timer" ? /^(0*\d+|\d+:[0-5]\d):[0-5]\d$/.test(s) : new RegExp(`^-?${c.grouping ? "\\d{1,3}(,\\d{3})*" : "\\d+"}${c.decimals ? `\\.\\d{${c.decimals}}` : ""}$`).test(s);
        ensure(shape(end), `malformed number: ${what}`); const num = (s: string): number => c.kind === "timer" ? clock(s) : Number(s.replace(/,/g, ""));
        near(num(end), to, 1e-7 * Math.max(1, Math.abs(to)), `the value at the end: ${what}`); near(Math.abs(num(begin)), Math.abs(start), 1e-7 * Math.max(1, Math.abs(start)), `the value at the start: ${what}`);
        const reels = [...row.children].filter((e: any) => !e.classList.contains("od-static")); const turns = reels.map((e: any) => Math.floor((e.querySelectorAll(".od-d").length - 1) / 10)); turns.forEach((n: number, i: number) => ensure(i === 0 || n >= turns[i - 1], () => `a higher digit spins more than a lower one: ${show(turns)}, ${what}`)); const ticks = Math.abs(Math.round((to - start) * k)); if (start >= 0 && to >= 0) { if (ticks >= 10) ensure(turns[turns.length - 1] >= 1, () => `the last digit passes ${ticks} values without a full turn: ${what}`); else same(turns[turns.length - 1], 0, `a full turn for ${ticks} steps: ${what}`); }
        if (inset) ensure(reels.length * 0.6 * cell <= 1080 - inset.left - inset.right + 1, () => `${reels.length} digits of ${cell} px do not fit the safe area: ${what}`);
        if (start !== to) ensure(rolls > 0, `nothing rolls: ${what}`);
        const all = texts(doc.body).join(""); ensure(all.startsWith(c.prefix ?? "") && all.includes(c.suffix ?? ""), "the affixes");
        if (c.kind === "stat") { if (has(c.label)) same(doc.querySelector(".st-label").textContent, c.label, "the label"); const chip = doc.querySelector(".st-delta"); same(chip != null, has(c.delta), "the trend chip"); if (chip) { same(chip.querySelector(".st-arrow").textContent, /^[-▼↓]/.test(c.delta) ? "▼" : "▲", "the trend"); same(chip.textContent.replace(/^[▲▼] /, ""), c.delta.replace(/^[-+▲▼↑↓]\s*/, ""), "the trend's text"); } }
        ctx.hit(rolls > 0);
      });
      await sane(r, () => false, `${c.kind} ${show(raw)}`); ctx.label(c.kind, Math.sign(start) * Math.sign(to) < 0 && "across zero");
    } },
  { name: "charts", rule: "charts of random series; non-trivial with at least two data", arb: chartA, runs: { quick: 350, thorough: 5000 },
    prop: async (c: any, ctx) => {
      const pie = c.type === "pie" || c.type === "donut", multi = c.series.length > 1 && !pie, stacked = multi && c.layout === "stacked" && c.type !== "line"; const nC = Math.max(...c.series.map((s: any) => s.length)); const val = (s: number, i: number): number => c.series[s][i] ?? 0;
      const peak = stacked ? Math.max(...Array.from({ length: nC }, (_, i) => c.series.reduce((a: number, _s: any, s: number) => a + val(s, i), 0))) : Math.max(...c.series.flat()); const inset = c.inset ? T.resolveFormat("1000x900").safeInset : undefined;
      const raw = clean({ type: c.type, data: c.csv ? c.series.map((s: any) => s.join(",")).join(";") : c.series.length === 1 ? c.series[0] : c.series, layout: c.layout, labels: c.labels, seriesNames: c.names, title: c.title, ...(c.head && peak > 0 && !pie ? { max: peak * c.head } : {}), yTicks: c.yTicks, showValues: c.showValues, growMs: c.growMs, staggerMs: c.staggerMs, holdMs: c.holdMs, ...(c.colors ? { colors: PAL } : {}), width: 1000, height: inset ? 900 : 600 });
      const r = await render("chart", raw, undefined, inset); const what = show(raw); const label = (i: number): string => c.labels ? c.labels[i % c.labels.length] : "";
      let svg = "";
      await page(r.html, (doc) => {
        const q = (s: string): any[] => [...doc.querySelectorAll(s)]; same(q(".ch-title").map((e: any) => e.textContent), has(c.title) ? [c.title] : [], "the title");
        if (pie) { const sl = r.cfg.frames[0].animations.filter((a: any) => /slice/.test(a.selector)); same(sl.length, c.series[0].length, "every slice comes in"); sl.forEach((a: any, i: number) => ensure(i === 0 || (a.delay ?? 0) >= (sl[i - 1].delay ?? 0) + 20, "slices come in one after another")); svg = doc.querySelector("svg").outerHTML; const tot = c.series[0].reduce((a: number, b: number) => a + b, 0); same(q(".ch-leg").map((e: any) => e.textContent), c.series[0].map((v: number, i: number) => `${label(i) || `Slice ${i + 1}`} · ${Math.round(v / (tot || 1) * 1000) / 10}%`), "the legend"); return; }
        same(q(".ch-cat").map((e: any) => e.textContent), Array.from({ length: nC }, (_, i) => label(i)).filter(Boolean), "the category labels");
        same(q(".ch-leg").map((e: any) => e.textContent), multi ? c.series.map((_: any, s: number) => c.names?.[s] ?? `Series ${s + 1}`) : [], "the legend");
        const horizontal = c.type === "bar"; const grid = q(".ch-grid"), ticks = q(".ch-tick").map((e: any) => Number(e.textContent)); same(grid.length, c.yTicks > 0 ? c.yTicks + 1 : 0, "the ticks");
        same(q(".ch-val").map((e: any) => e.textContent), c.showValues && !multi ? c.series[0].concat(Array(0)).map(fmtNum) : [], "the printed values");
        if (!grid.length) return; const at = (g: any): number => px(g, horizontal ? "left" : "top"); const p0 = at(grid[0]), p1 = at(grid[grid.length - 1]); const top = ticks[ticks.length - 1]; const scale = (p1 - p0) / top; const slack = 1.01 + Math.abs(scale) * 0.0051 * (peak / top + 1);
        grid.forEach((g: any, i: number) => near(at(g), p0 + (p1 - p0) * i / c.yTicks, 1, "ticks are evenly spaced")); ensure(top >= peak - 0.006, () => `the axis ends at ${top}, the data at ${peak}`); same(ticks[0], 0, "the axis starts at nought"); if (raw.max) near(top, raw.max, 0.0051, "the axis' end");
        const plotBottom = p0; const seen: string[] = [];
        if (c.type === "line") { const lines = q("polyline"); same(lines.length, c.series.length, "the lines"); lines.forEach((l: any, s: number) => { const pts = l.getAttribute("points").split(" ").map((z: string) => z.split(",").map(Number)); same(pts.length, nC, "a point per datum"); pts.forEach(([x, y]: number[], i: number) => { near(y, p0 + val(s, i) * scale, slack, () => `series ${s} point ${i}\n${what}`); if (i) ensure(x > pts[i - 1][0], "points run left to right"); }); same(q(`.ch-reveal-${s} circle`).map((d: any) => [Number(d.getAttribute("cx")), Number(d.getAttribute("cy"))]), pts, "a dot per point"); }); return; }
        if (stacked) { const st = q(".ch-stack"); same(st.length, nC, "the stacks"); st.forEach((b: any, i: number) => { let acc = 0, real = 0; const sg = [...b.querySelectorAll(".ch-seg")]; same(sg.length, c.series.length, "the segments"); sg.forEach((g: any, s: number) => { near(px(g, horizontal ? "left" : "bottom"), acc, 1e-6, "segments sit on one another"); const size = px(g, horizontal ? "width" : "height"); near(size, Math.abs(val(s, i) * scale), slack, () => `stack ${i} segment ${s}\n${what}`); acc += size; real += val(s, i); }); const size = px(b, horizontal ? "width" : "height"); near(size, acc, 1e-6, "a stack holds its segments"); if (horizontal) near(px(b, "left"), p0, 1e-6, "stacks start at the axis"); else near(px(b, "top") + size, p0, 1.01, "stacks stand on the axis"); }); return; }
        const bars = q(".ch-bar"); same(bars.length, nC * c.series.length, "the bars"); let last = -1e9; const H = (inset ? 900 - inset.top - inset.bottom : 600);
        bars.forEach((b: any, n: number) => { const i = Math.floor(n / c.series.length), s = n % c.series.length; const size = px(b, horizontal ? "width" : "height"); near(size, Math.abs(val(s, i) * scale), slack, () => `bar ${n}\n${what}`); if (horizontal) near(px(b, "left"), p0, 1e-6, "bars start at the axis"); else near(H - px(b, "bottom"), plotBottom, 1.01, "columns stand on the axis"); const cross = px(b, horizontal ? "top" : "left"), thick = px(b, horizontal ? "height" : "width"); ensure(cross >= last - 1.01 && thick > 0, () => `bars overlap: ${cross} after ${last}`); last = cross + thick; seen.push(/background:([^;]*)/.exec(b.getAttribute("style"))![1]); });
        if (multi) same(seen, seen.map((_, n) => seen[n % c.series.length]), "a colour per series"); else if (c.colors) same(seen, seen.map((_, n) => PAL[n % PAL.length]), "the colours given");
        const grow = r.cfg.frames[0].animations.filter((a: any) => /^\.ch-bar/.test(a.selector)); same(grow.map((a: any) => [a.delay, a.duration, a.transformOrigin]), bars.map((_: any, n: number) => [Math.floor(n / c.series.length) * c.staggerMs, c.growMs, horizontal ? "left" : "bottom"]), "bars grow from the axis, category by category");
      });
      await sane(r, () => false, `chart ${what}`);
      if (pie) {
        const vals = c.series[0], tot = vals.reduce((a: number, b: number) => a + b, 0); const x = parseXml(svg); const slices = [...walk(x)].filter((e) => e.name === "path"); same(slices.length, vals.length, "the slices");
        if (tot > 0) { const W = Number(x.attrs.get("width")), H = Number(x.attrs.get("height")); const img = await raster(`<svg xmlns="http://www.w3.org/2000/svg" width="${W}" height="${H}" shape-rendering="crispEdges">${slices.map((s, i) => `<path d="${s.attrs.get("d")}" fill="${PAL[i % 6]}"/>`).join("")}</svg>`); const n = vals.map(() => 0); let sum = 0; const key = PAL.map((h) => Number.parseInt(h.slice(1), 16)); let minX = 1e9, maxX = -1; for (let i = 0; i < img.w * img.h; i++) { if (img.px[i * 4 + 3] < 200) continue; const v = img.px[i * 4] << 16 | img.px[i * 4 + 1] << 8 | img.px[i * 4 + 2]; const at = key.indexOf(v); if (at < 0 || at >= n.length) continue; n[at]++; sum++; minX = Math.min(minX, i % img.w); maxX = Math.max(maxX, i % img.w); }
          const R = (maxX - minX + 1) / 2; const disc = Math.PI * R * R * (c.type === "donut" ? 1 - 0.58 * 0.58 : 1); if (vals.some((v: number) => v >= tot / 2 - 1e-9)) ensure(sum > 0, `nothing is painted\n${what}`); vals.forEach((v: number, i: number) => { ensure(Math.abs(n[i] / Math.max(1, sum) - v / tot) < 0.012 + 4 / R, () => `slice ${i} takes ${(n[i] / Math.max(1, sum) * 100).toFixed(1)}% of the ring, its share is ${(v / tot * 100).toFixed(1)}%\n${what}`); }); if (vals.filter((v: number) => v > 0).length > 3) near(sum / disc, 1, 0.05, "the ring is complete"); ensure(R <= Math.min(W, H) / 2, "the ring fits"); }
      }
      ctx.hit(c.series.flat().length > 1); ctx.label(c.type, stacked && "stacked", multi && "several series", c.inset && "a format", pie && c.series[0].filter((v: number) => v > 0).length === 1 && "one slice");
    } },
  { name: "compare", rule: "before/after wipes in all directions, frozen during and after the reveal; non-trivial when the edge is inside the picture", arb: compareA, runs: { quick: 90, thorough: 900 },
    prop: async (c: any, ctx) => {
      const r = await render("compare", clean({ before: "/tmp/one.html", after: "/tmp/two.html", mode: c.mode, direction: c.direction, beforeLabel: c.before, afterLabel: c.after, durationMs: c.durationMs, holdMs: c.holdMs, width: c.W, height: c.H, accent: "#00ff00" }));
      const hold = r.out.durationMs; ensure(hold >= Math.max(c.holdMs, c.durationMs), "the reveal ends before the loop does"); const x = parseXml(r.out.svg); const named = [...walk(x)].filter((e) => e.name === "text"); same(named.map(textContent), [c.before, c.after].filter(has), "the labels");
      const ease = parseEasing("cubic-bezier(0.65,0,0.35,1)")!; const vertical = c.direction === "down" || c.direction === "up", back = c.direction === "left" || c.direction === "up"; const L = vertical ? c.H : c.W;
      // the pill covers the bottom left corner: read along the far edge
      for (const k of c.ks) { const t = k * hold; const p = ease(Math.min(1, t / c.durationMs)); const edge = back ? L * (1 - p) : L * p; const img = await raster(bake(r.out.svg, t + c.lap * hold)); let cut = 0, green: number[] = []; for (let i = 0; i < L; i++) { const at = (vertical ? i * c.W + c.W - 2 : 1 * c.W + i) * 4; const [R, G, B] = [img.px[at], img.px[at + 1], img.px[at + 2]]; if (G > 128) green.push(i); else if (B > R) cut++; }
        const line = c.mode === "slide"; ensure((green.length > 0) === (line && edge > -3 && edge < L + 3) || !line || green.length <= 3, () => `a divider ${green.length} wide`); if (line && edge > 4 && edge < L - 4) near((green[0] + green[green.length - 1] + 1) / 2, edge, 1.6, () => `the divider at ${t.toFixed(0)} of ${hold} ms`);
        const want = (back ? L - edge : edge) - (line ? Math.max(0, Math.min(3, back ? L - edge : edge)) : 0); near(cut, want, 2, () => `the reveal at ${t.toFixed(0)} of ${hold} ms`); ctx.hit(edge > 4 && edge < L - 4);
        if (has(c.before) && has(c.after)) { const seen: Record<string, number> = {}; bake(r.out.svg, t + c.lap * hold, { onNode(n, v) { if (n.name === "text") seen[classes(n).join(" ")] = Number(v.get("opacity") ?? "1"); } }); const [b, a] = [seen["cmp-lbl-b"], seen["cmp-lbl-a"]]; if (t < c.durationMs * 0.4) same([b, a], [1, 0], `the labels at ${t.toFixed(0)} of ${c.durationMs} ms`); if (t > c.durationMs * 0.6) same([b, a], [0, 1], `the labels at ${t.toFixed(0)} of ${c.durationMs} ms`); } }
      ctx.label(c.mode, c.direction, has(c.before) && has(c.after) && "both labels");
    } },
  { name: "loops", rule: "looping backgrounds; non-trivial when the loop pans", arb: loopA, runs: { quick: 80, thorough: 1500 },
    prop: async (c: any, ctx) => {
      const raw = { ...c, colors: c.csv ? c.colors.join(", ") : c.colors }; delete raw.csv; const r = await render("background-loop", raw); const again = await render("background-loop", raw); same(again.html + JSON.stringify(again.cfg), r.html + JSON.stringify(r.cfg), "the same seed, the same picture");
      await sane(r, () => false, "background-loop"); const an = r.cfg.frames[0].animations; for (const a of an) same(a.repeat, "infinite", "it loops");
      const wrap = (s: string): [number, number] => { const m = /translate\((-?[\d.]+)px, (-?[\d.]+)px\)/.exec(s)!; return [Number(m[1]), Number(m[2])]; };
      for (const col of c.colors) if (c.variant === "grid" || c.variant === "gradient-pan" || c.count >= c.colors.length || c.variant === "stars") ensure(r.html.includes(col), () => `${col} is not used`);
      await page(r.html, (doc) => {
        if (/aurora|orbs/.test(c.variant)) same(doc.querySelectorAll(".bg-blob").length, c.count, "the blobs"); if (c.variant === "wave") same(doc.querySelectorAll(".wv-layer").length, c.count, "the waves");
        if (/aurora|orbs|stars/.test(c.variant)) { for (const a of an) ensure(a.alternate === true && (a.delay ?? 0) <= 0 && -(a.delay ?? 0) <= a.duration, () => `${a.selector} waits or snaps: ${show(a)}`); return; }
        for (const a of an) ensure(!a.alternate && a.easing === "linear", "a pan never backs out or slows");
        if (c.variant === "wave") doc.querySelectorAll(".wv-layer").forEach((l: any, i: number) => { const pts = l.querySelector("path").getAttribute("d").match(/-?[\d.]+ -?[\d.]+/g).map((z: string) => z.split(" ").map(Number)).slice(0, -2); const a = an.find((q: any) => q.selector === `.wv-layer-${i}`); const [dx, dy] = wrap(a.to); same(dy, 0, "waves pan sideways"); const y = (x: number): number => { let k = 1; while (k < pts.length - 1 && pts[k][0] < x) k++; const [p, q] = [pts[k - 1], pts[k]]; return p[1] + (q[1] - p[1]) * (x - p[0]) / (q[0] - p[0] || 1); }; const ys = pts.map((p: number[]) => p[1]); const amp = (Math.max(...ys) - Math.min(...ys)) / 2; for (let x = 0; x <= c.width; x += c.width / 37) near(y(x - dx), y(x), 0.6 + amp * 0.02, () => `wave ${i} jumps at the loop's seam at x=${x.toFixed(0)}`); ctx.hit(); });
        if (c.variant === "grid") { const [dx, dy] = wrap(an[0].to); const lay = /\.gd-layer \{[^}]*left: (-?\d+)px; top: (-?\d+)px/.exec(r.html)!; const dots = new Map<string, string>(); for (const d of doc.querySelectorAll("circle")) dots.set(`${Number(d.getAttribute("cx")) + Number(lay[1])},${Number(d.getAttribute("cy")) + Number(lay[2])}`, d.getAttribute("fill")); let n = 0; for (const [k, f] of dots) { const [x, y] = k.split(",").map(Number); if (x < 0 || y < 0 || x > c.width || y > c.height) continue; n++; same(dots.get(`${x - dx},${y - dy}`), f, `the dot that takes the place of ${k}`); } ensure(n > 3, "dots"); ctx.hit(); }
        if (c.variant === "gradient-pan") { const [dx] = wrap(an[0].to); const m = /repeating-linear-gradient\((\d+)deg,([^;]*)\)/.exec(r.html)!; const period = Number(/ ([\d.]+)px$/.exec(m[2].trim())![1]); near(Math.abs(dx) * Math.sin(Number(m[1]) * Math.PI / 180), period, 0.6, "the pan is one period"); ensure(Number(/\.gp \{[^}]*width: ([\d.]+)px/.exec(r.html)![1]) >= c.width + Math.abs(dx), "the canvas stays covered"); const st = m[2].trim().split(/,\s*/); same(st[0].split(" ")[0], st[st.length - 1].split(" ")[0], "the gradient joins itself"); ctx.hit(); }
      });
      ctx.label(c.variant);
    } },
] });
rmSync(DIR, { recursive: true, force: true });
