// F01: carrying out an animate config. A stand-in browser (a DOM with a layout and a list
// of what was asked of it) runs the declarative pipeline; the check's own model of a page
// as two columns of rows says what every frame must show, and the emitted animation is
// played by an independent evaluator and compared pixel for pixel at every frame's hold.
import { registerHooks, createRequire } from "node:module";
import { mkdtempSync, writeFileSync, rmSync } from "node:fs";
import { join } from "node:path";
import { fc, runCheck, ensure, fail, near, same, show, SCRATCH } from "../lib/harness.ts";
import { el } from "../lib/tree.ts";
import { bake } from "../lib/bake.ts";
import { raster, diff } from "../lib/png.ts";
import { parseXml, idReport } from "../lib/xml.ts";
registerHooks({ resolve(spec, ctx, next) {
  if (/capture\/index\.(js|ts)$/.test(spec) && ctx.parentURL?.includes("/src/cli/")) return { url: new URL("../lib/stub-animate.ts", import.meta.url).href, shortCircuit: true };
  return next(spec, ctx);
} });
const { composeAnimateFrames, composeAnimateConfig, validateAnimateConfig, interpolateConfigVars, configTextTrackSpec } = await import("/repo/src/cli/animate.ts");
const { elementTreeToSvgInner } = await import("/repo/src/render/element-tree-to-svg.ts");
const { clearEmbeddedFonts, clearGlyphDefs, getEmbeddedFontFaceCss } = await import("/repo/src/render/index.ts");
const { Window } = createRequire("/repo/package.json")("happy-dom");
const hush = console.warn; console.warn = (...a: any[]) => { if (!/ICU companion|domotion/.test(String(a[0]))) hush(...a); };

const W = 216, H = 124, COLX = [8, 112], RW = 92, RH = 22, GAP = 4, TOP = 6;
const DIR = mkdtempSync(join(SCRATCH, "f01-"));
process.on("exit", () => rmSync(DIR, { recursive: true, force: true }));
const OVC = ["rgb(0, 160, 90)", "rgb(200, 0, 160)"];
OVC.forEach((c, i) => writeFileSync(join(DIR, `o${i}.svg`), `<?xml version="1.0"?><svg xmlns="http://www.w3.org/2000/svg" width="40" height="30" viewBox="0 0 40 30"><defs><linearGradient id="g"><stop stop-color="${c}"/></linearGradient></defs><style>.k { fill: url(#g) }</style><rect id="a" class="k" width="40" height="30"/></svg>`));

// ── what a row looks like (shared by the page's painter and the model's) ──
interface Look { id: string; x: number; y: number; w: number; h: number; text: string; a: boolean; b: boolean; attr: string | null; bg: string | null; forced: string; ev: number; checked: boolean; anim?: string }
const paintRow = (l: Look): any => el({ x: l.x, y: l.y, width: l.w, height: l.h, ...(l.anim ? { animId: l.anim } : {}), styles: {
  backgroundColor: l.bg ?? (l.a ? (l.b ? "rgb(250, 170, 250)" : "rgb(255, 200, 120)") : l.b ? "rgb(160, 210, 255)" : "rgb(238, 238, 238)"),
  ...(l.forced ? Object.fromEntries(["Top", "Right", "Bottom", "Left"].flatMap((s) => [[`border${s}Width`, "2px"], [`border${s}Style`, "solid"], [`border${s}Color`, l.forced.includes("hover") ? "rgb(220, 0, 0)" : "rgb(0, 0, 220)"]])) : {}),
}, children: [
  ...(l.text.trim() === "" ? [] : [el({ tag: "span", x: l.x + 6, y: l.y + 3, width: 8 * [...l.text].length, height: 16, text: l.text, textLeft: l.x + 6, textTop: l.y + 3, textWidth: 8 * [...l.text].length, textHeight: 16, fontAscent: 12, fontDescent: 4, textSegments: [{ text: l.text, x: l.x + 6, y: l.y + 3, width: 8 * [...l.text].length, height: 16, xOffsets: Array.from({ length: l.text.length }, (_, i) => l.x + 6 + 8 * [...l.text.slice(0, i)].length) }], styles: { display: "inline", fontSize: "12px", lineHeight: "16px", fontFamily: "Liberation Mono", color: l.attr == null ? "rgb(0, 0, 0)" : l.attr === "u" ? "rgb(180, 0, 0)" : "rgb(0, 100, 0)" } })]),
  ...(l.ev ? [el({ x: l.x + l.w - 4 - 4 * Math.min(l.ev, 4), y: l.y + l.h - 6, width: 4 * Math.min(l.ev, 4), height: 4, styles: { backgroundColor: "rgb(90, 0, 160)" } })] : []),
  ...(l.checked ? [el({ x: l.x + l.w - 12, y: l.y + 2, width: 8, height: 8, styles: { backgroundColor: "rgb(0, 0, 0)" } })] : []),
] });
const ROOTBG = "rgb(252, 252, 244)";
const rootEl = (children: any[]): any[] => [el({ tag: "body", x: 0, y: 0, width: W, height: H, styles: { backgroundColor: ROOTBG, rootBgComputed: ROOTBG }, children })];
const column = (i: number, rows: any[], sy: number, anim?: string): any => el({ x: COLX[i], y: TOP - sy, width: RW, height: 112, children: rows, ...(anim ? { animId: anim } : {}) });

// ── the model ──
interface Row { id: string; nodes: string[]; cls: Set<string>; attr: string | null; bg: string | null; value: string; input: boolean; checked: boolean; ev: number; forced: string }
interface Page { cols: Row[][]; sx: number; sy: number }
const freshRow = (id: string, o: Partial<Row> = {}): Row => ({ id, nodes: [], cls: new Set(), attr: null, bg: null, value: "", input: false, checked: false, ev: 0, forced: "", ...o });
const copyPage = (p: Page): Page => ({ ...p, cols: p.cols.map((c) => c.map((r) => ({ ...r, nodes: [...r.nodes], cls: new Set(r.cls) }))) });
const SEL: Record<string, (r: Row, p: Page) => boolean> = {
  "#c0 > *": (r, p) => p.cols[0].includes(r), "#c1 > *": (r, p) => p.cols[1].includes(r), ".a": (r) => r.cls.has("a"), ".b": (r) => r.cls.has("b"), "[data-x]": (r) => r.attr != null, "input": (r) => r.input, ".new": (r) => r.cls.has("new"),
};
const match = (p: Page, sel: string): Row[] => p.cols.flat().filter((r) => sel.startsWith("#r") ? r.id === sel.slice(1) : SEL[sel](r, p));
const boxOf = (p: Page, r: Row): { x: number; y: number; w: number; h: number } => { const c = p.cols.findIndex((k) => k.includes(r)); return { x: COLX[c] - p.sx, y: TOP + p.cols[c].indexOf(r) * (RH + GAP) - p.sy, w: RW, h: RH }; };
const lookOf = (p: Page, r: Row): Look => ({ id: r.id, ...boxOf(p, r), text: r.nodes.join("") + r.value, a: r.cls.has("a"), b: r.cls.has("b"), attr: r.attr, bg: r.bg, forced: r.forced, ev: r.ev, checked: r.checked });
const treeOf = (p: Page, sel: string | null): any[] => sel == null ? rootEl(p.cols.map((c, i) => column(i, c.map((r) => paintRow(lookOf(p, r))), p.sy))) : [paintRow(lookOf(p, match(p, sel)[0]))];

// ── generated steps, made concrete against the model ──
type Op = { k: string; s: number; v: string; n: number; esc: number };
const VARS: Record<string, string> = { who: "Zed", x: "q{r", "long name": "${who}" };
/** A config string and what it stands for. */
const lit = (o: Op, on: boolean): [string, string] => !on ? [o.v, o.v] : o.esc === 0 ? ["${who}" + o.v, VARS.who + o.v] : o.esc === 1 ? [o.v + "$${who}", o.v + "${who}"] : o.esc === 2 ? [`${o.v}$${"{x}"}${"${long name}"}`, `${o.v}${VARS.x}${VARS["long name"]}`] : [o.v, o.v];
const within = (p: Page, cols: number[] | null): Row[] => cols == null ? p.cols.flat() : cols.flatMap((c) => p.cols[c]);
/** A selector with at least one match, all of them inside the columns the step may touch. */
function pick(p: Page, n: number, cols: number[] | null, want: (r: Row) => boolean = () => true): string | null {
  const ok = within(p, cols); const cands = [...p.cols.flat().filter((r) => r.id).map((r) => `#${r.id}`), ...Object.keys(SEL), ".a", ".b"].filter((s) => { const m = match(p, s); return m.length > 0 && m.every((r) => ok.includes(r) && want(r)); });
  return cands.length ? cands[n % cands.length] : null;
}
/** Applies the step to the model; returns the config action, and what the browser itself is asked to do. */
function act(p: Page, o: Op, cols: number[] | null, vars: boolean, log: string[]): any | null {
  const [src, val] = lit(o, vars);
  const text = (r: Row): boolean => !r.input, inp = (r: Row): boolean => r.input;
  const on = (want: (r: Row) => boolean, f: (r: Row, p: Page) => void): { sel: string } | null => { const sel = pick(p, o.s, cols, want); if (!sel) return null; for (const r of match(p, sel)) f(r, p); return { sel }; };
  const cl = o.n % 2 ? "a" : "b";
  let m: { sel: string } | null;
  switch (o.k) {
    case "setText": m = on(text, (r) => { r.nodes = val ? [val] : []; }); return m && { type: "setText", selector: m.sel, value: src };
    case "setHtml": m = on(text, (r) => { r.nodes = [val, "k"].filter(Boolean); }); return m && { type: "setHtml", selector: m.sel, value: `${src}<i>k</i>` };
    case "addClass": m = on(() => true, (r) => { r.cls.add(cl); }); return m && { type: "addClass", selector: m.sel, class: cl };
    case "removeClass": m = on(() => true, (r) => { r.cls.delete(cl); }); return m && { type: "removeClass", selector: m.sel, class: cl };
    case "toggleClass": m = on(() => true, (r) => { if (!r.cls.delete(cl)) r.cls.add(cl); }); return m && { type: "toggleClass", selector: m.sel, class: cl };
    case "setAttribute": m = on(() => true, (r) => { r.attr = o.n % 2 ? "u" : "w"; }); return m && { type: "setAttribute", selector: m.sel, name: "data-x", value: o.n % 2 ? "u" : "w" };
    case "removeAttribute": m = on(() => true, (r) => { r.attr = null; }); return m && { type: "removeAttribute", selector: m.sel, name: "data-x" };
    case "setStyle": m = on(() => true, (r) => { r.bg = o.n % 2 ? "rgb(255, 255, 0)" : "rgb(0, 220, 220)"; }); return m && { type: "setStyle", selector: m.sel, props: { "background-color": o.n % 2 ? "rgb(255, 255, 0)" : "rgb(0, 220, 220)", ...(o.n > 2 ? { "--y": "1" } : {}) } };
    case "remove": { const all = p.cols.flat(); const sel = pick(p, o.s, cols, (r) => all.length > 1 && all.indexOf(r) > 0); if (!sel || match(p, sel).length === all.length) return null; for (const r of match(p, sel)) for (const c of p.cols) if (c.includes(r)) c.splice(c.indexOf(r), 1); return { type: "remove", selector: sel }; }
    case "insertRow": { const sel = pick(p, o.s, cols); if (!sel || p.cols.flat().length + match(p, sel).length > 7) return null; for (const r of match(p, sel)) { const c = p.cols.find((k) => k.includes(r))!; c.splice(c.indexOf(r) + (o.n % 2), 0, freshRow("", { nodes: val ? [val] : [], cls: new Set(["new"]) })); } return { type: "insert", selector: sel, position: o.n % 2 ? "afterend" : "beforebegin", html: `<p class="new">${src}</p>` }; }
    case "insertIn": m = on(text, (r) => { if (o.n % 2) r.nodes.push("+"); else r.nodes.unshift("+"); }); return m && { type: "insert", selector: m.sel, position: o.n % 2 ? "beforeend" : "afterbegin", html: "<u>+</u>" };
    case "replaceText": { const flags = [undefined, "g", "i", "gi"][o.n % 4]; m = on(text, (r) => { r.nodes = r.nodes.map((t) => { let done = false; return [...t].map((ch) => { const hit = "eo".includes(flags?.includes("i") ? ch.toLowerCase() : ch) && (!done || !!flags?.includes("g")); if (hit) done = true; return hit ? `<${ch}>` : ch; }).join(""); }); }); return m && { type: "replaceText", selector: m.sel, pattern: "[eo]", replacement: "<$&>", ...(flags ? { flags } : {}) }; }
    case "setValue": m = on(inp, (r) => { r.value = val; }); return m && { type: "setValue", selector: m.sel, value: src };
    case "clear": m = on(inp, (r) => { r.value = ""; }); return m && { type: "clear", selector: m.sel };
    case "check": m = on(inp, (r) => { r.checked = o.n % 2 > 0; }); return m && { type: "check", selector: m.sel, checked: o.n % 2 > 0 };
    case "dispatch": { const b = [undefined, true, false][o.n % 3]; m = on(() => true, (r) => { if (b !== false) r.ev++; }); return m && { type: "dispatch", selector: m.sel, event: "ping", ...(b === undefined ? {} : { bubbles: b }) }; }
    case "evaluate": { const sel = pick(p, o.s, cols, (r) => text(r) && !!r.id); if (!sel) return null; match(p, sel)[0].nodes = ["E"]; return { type: "evaluate", script: `document.querySelector("${sel}").textContent = "E"` }; }
    case "click": case "hover": case "focus": { const sel = pick(p, o.s, cols); if (!sel) return null; log.push(`${o.k} ${sel}`); if (o.k === "click") match(p, sel)[0].ev++; return { type: o.k, selector: sel }; }
    case "fill": { const sel = pick(p, o.s, cols, inp); if (!sel) return null; match(p, sel)[0].value = val; log.push(`fill ${sel} ${val}`); return { type: "fill", selector: sel, value: src }; }
    case "selectOption": { const sel = pick(p, o.s, cols); if (!sel) return null; log.push(`selectOption ${sel} ${val}`); return { type: "selectOption", selector: sel, value: src }; }
    case "press": log.push(`press ${val}`); return { type: "press", key: src };
    case "wait": log.push(`wait ${30 + o.n}`); return { type: "wait", ms: 30 + o.n };
    case "scroll": if (cols) return null; p.sx = 0; p.sy = o.n % 3 ? o.n * 5 : 0; return o.n % 3 ? { type: "scroll", x: 0, y: o.n * 5 } : { type: "scroll" };
    default: throw new Error(o.k);
  }
}

// ── the stand-in browser ──
const DOCS = [0, 1].map((d) => { const f = join(DIR, `d${d}.html`); writeFileSync(f, "x"); return f; });
const html = (p: Page): string => p.cols.map((c, i) => `<div id="c${i}">${c.map((r) => { const at = `${r.id ? ` id="${r.id}"` : ""} class="${[...r.cls].join(" ")}"${r.attr != null ? ` data-x="${r.attr}"` : ""}${r.bg ? ` style="background-color: ${r.bg}"` : ""}`; return r.input ? `<input${at} value="${r.value}">` : `<p${at}>${r.nodes.join("")}</p>`; }).join("")}</div>`).join("");
function browser(docs: Page[], log: string[]): any {
  let ctxs = 0;
  return { closed: 0, async newContext(o: any) {
    same(o.viewport, { width: W, height: H }, "the page's viewport"); ctxs++;
    const win = new Window(); const g = globalThis as any; const b = this;
    let forced = new Map<any, { space: number; cls: string }>(), space = 0, handlers: Record<string, any[]> = {}, ids = new Map<number, any>(), nextId = 1, rootOf = new Map<number, number>(), stale = new Map<string, number>(), attached = true;
    const fin = (): any => { g.window = win; g.document = win.document; g.HTMLElement = win.HTMLElement; g.HTMLInputElement = win.HTMLInputElement; g.getComputedStyle = win.getComputedStyle.bind(win); g.Event = win.Event; g.Node = win.Node; };
    fin();
    const geo = (e: any): { x: number; y: number; w: number; h: number } => { const p = e.parentElement; const c = p?.id === "c0" ? 0 : p?.id === "c1" ? 1 : -1; if (c >= 0) return { x: COLX[c] - (win as any).__sx, y: TOP + [...p.children].indexOf(e) * (RH + GAP) - (win as any).__sy, w: RW, h: RH }; if (e.id === "c0" || e.id === "c1") return { x: COLX[Number(e.id[1])], y: TOP - (win as any).__sy, w: RW, h: 112 }; return { x: 0, y: 0, w: W, h: H }; };
    win.HTMLElement.prototype.getBoundingClientRect = function (this: any) { const r = geo(this); return { x: r.x, y: r.y, left: r.x, top: r.y, width: r.w, height: r.h, right: r.x + r.w, bottom: r.y + r.h } as any; };
    Object.defineProperty(win.document, "fonts", { value: { ready: Promise.resolve() }, configurable: true });
    (win as any).__sx = 0; (win as any).__sy = 0; (win as any).scrollTo = (x: any, y: any) => { (win as any).__sx = x; (win as any).__sy = y; };
    const q = (s: string): any => { const e = win.document.querySelector(s); if (!e) throw new Error(`no element for ${s}`); return e; };
    const rowLook = (e: any): any => paintRow({ id: e.id, ...geo(e), text: (e.tagName === "INPUT" ? e.value : e.textContent) ?? "", a: e.classList.contains("a"), b: e.classList.contains("b"), attr: e.getAttribute("data-x"), bg: e.style.getPropertyValue("background-color") || null, forced: forced.get(e)?.cls ?? "", ev: e.__ev ?? 0, checked: e.checked === true, anim: e.dataset.domotionAnim });
    const page: any = {
      setDefaultTimeout() {}, setDefaultNavigationTimeout() {}, on(n: string, f: any) { (handlers[n] ??= []).push(f); }, off() {}, mainFrame: () => page, context: () => ctx,
      async goto(url: string) { const d = DOCS.findIndex((f) => url === `file://${f}`); if (d < 0) throw new Error(`unknown page ${url}`); fin(); log.push(`goto ${d}`); win.document.body.innerHTML = html(docs[d]); forced = new Map(); space = 0; ids.clear(); (win as any).__sx = 0; (win as any).__sy = 0; for (const c of ["c0", "c1"]) win.document.getElementById(c)!.addEventListener("ping", (ev: any) => { ev.target.__ev = (ev.target.__ev ?? 0) + 1; }); for (const f of handlers.framenavigated ?? []) f(page); },
      async evaluate(f: any, arg: any) { fin(); if (typeof f === "string") return new Function("document", f)(win.document); return f(arg); },
      async waitForFunction(f: any, arg: any) { fin(); if (!f(arg)) throw new Error("Timeout"); log.push("condition"); },
      async waitForSelector(s: string) { q(s); log.push(`waitFor ${s}`); }, async waitForTimeout(ms: number) { log.push(`wait ${ms}`); },
      async click(s: string) { const e = q(s); log.push(`click ${s}`); e.__ev = (e.__ev ?? 0) + 1; }, async fill(s: string, v: string) { q(s).value = v; log.push(`fill ${s} ${v}`); }, async hover(s: string) { q(s); log.push(`hover ${s}`); }, async focus(s: string) { q(s); log.push(`focus ${s}`); }, async selectOption(s: string, v: string) { q(s); log.push(`selectOption ${s} ${v}`); },
      keyboard: { async press(k: string) { log.push(`press ${k}`); } },
      async __capture(kind: string, sel: string, vp: any) {
        fin(); same(vp, { x: 0, y: 0, width: W, height: H }, "the captured viewport"); ensure(kind === "embedded", "a frame was captured without embedding its images"); log.push(`capture ${sel}`);
        if (sel !== "body") return [rowLook(q(sel))];
        return rootEl(["c0", "c1"].map((id, i) => { const c: any = win.document.getElementById(id); return column(i, [...c.children].map(rowLook), (win as any).__sy, c.dataset.domotionAnim); }));
      },
    };
    const ctx: any = { async newPage() { return page; }, async close() { b.closed++; await win.happyDOM?.close?.(); }, async addInitScript() {}, async newCDPSession() {
      return { async send(m: string, a: any) {
        if (m === "DOM.enable" || m === "CSS.enable") return {};
        if (m === "DOM.getDocument") { space++; const id = nextId++; ids.set(id, win.document); rootOf.set(id, space); return { root: { nodeId: id } }; }
        if (m === "DOM.querySelectorAll") { const sp = rootOf.get(a.nodeId); if (!ids.has(a.nodeId)) throw new Error("Could not find node with given id"); return { nodeIds: [...win.document.querySelectorAll(a.selector)].map((e: any) => { let id = (e.__ids ??= {})[sp!]; if (!id || !ids.has(id)) { id = e.__ids[sp!] = nextId++; } ids.set(id, e); rootOf.set(id, sp!); return id; }) }; }
        if (m === "CSS.forcePseudoState") { const e = ids.get(a.nodeId); if (!e) throw new Error("no node"); const sp = rootOf.get(a.nodeId)!; if (a.forcedPseudoClasses.length) forced.set(e, { space: sp, cls: a.forcedPseudoClasses.join() }); else if (forced.get(e)?.space === sp) forced.delete(e); return {}; }
        throw new Error(`CDP ${m}`);
      }, async detach() { forced = new Map(); } };
    } };
    return ctx;
  }, contexts: () => ctxs };
}
void near;

// ── generated configs ──
const KINDS = ["setText", "setHtml", "addClass", "removeClass", "toggleClass", "setAttribute", "removeAttribute", "setStyle", "remove", "insertRow", "insertIn", "replaceText", "setValue", "clear", "check", "dispatch", "evaluate", "setText", "toggleClass"];
const NATIVE = ["click", "hover", "focus", "fill", "selectOption", "press", "wait", "scroll"];
const word = fc.string({ unit: fc.constantFrom("a", "e", "o", "x", "T", "7", "O"), maxLength: 5 });
const op: fc.Arbitrary<Op> = fc.record({ k: fc.oneof({ weight: 5, arbitrary: fc.constantFrom(...KINDS) }, { weight: 1, arbitrary: fc.constantFrom(...NATIVE) }), s: fc.nat(9), v: word, n: fc.nat(5), esc: fc.nat(6) });
const rowArb = fc.record({ t: word, c: fc.nat(3), attr: fc.constantFrom(null, null, "u"), input: fc.constantFrom(false, false, true) });
const docArb = fc.tuple(fc.array(rowArb, { minLength: 1, maxLength: 2, size: "max" }), fc.array(rowArb, { minLength: 1, maxLength: 2, size: "max" }));
const ov = fc.record({ f: fc.nat(1), x: fc.integer({ min: 0, max: 180 }), y: fc.integer({ min: 0, max: 100 }), w: fc.integer({ min: 8, max: 60 }), h: fc.integer({ min: 8, max: 40 }), anchor: fc.option(fc.record({ s: fc.nat(9), at: fc.option(fc.constantFrom("top-left", "top", "top-right", "left", "center", "right", "bottom-left", "bottom", "bottom-right"), { freq: 3 }), dx: fc.integer({ min: -9, max: 9 }), dy: fc.integer({ min: -9, max: 9 }) }), { freq: 3 }), delay: fc.constantFrom(undefined, undefined, 150, 400), endAt: fc.constantFrom(undefined, undefined, 300, 5000) });
const frameArb = fc.record({
  kind: fc.oneof({ weight: 6, arbitrary: fc.constant("plain") }, { weight: 2, arbitrary: fc.constant("states") }, { weight: 1, arbitrary: fc.constant("hover") }), load: fc.constantFrom(false, false, false, false, true), doc: fc.nat(1), explicit: fc.boolean(), dur: fc.constantFrom(300, 500, 800, 1230),
  tr: fc.oneof({ weight: 5, arbitrary: fc.constant({ type: "cut", duration: 0 }) }, { weight: 3, arbitrary: fc.constantFrom<any>(undefined, { type: "crossfade", duration: 200 }, { type: "push-left", duration: 350 }, { type: "cut", duration: 500 }, { type: "scroll", duration: 250 }, { type: "magic-move", duration: 400 }) }),
  ops: fc.array(op, { maxLength: 3 }), states: fc.array(fc.record({ ops: fc.array(op, { maxLength: 2 }), dur: fc.constantFrom(100, 250, 640), col: fc.nat(5), ovs: fc.array(ov, { maxLength: 1 }) }), { minLength: 1, maxLength: 4, size: "max" }), regions: fc.nat(2), caret: fc.constant(false),
  ready: fc.nat(11), force: fc.option(fc.record({ s: fc.nat(9), n: fc.nat(3) }), { freq: 3 }), sel: fc.option(fc.nat(9), { freq: 9 }), ovs: fc.array(ov, { maxLength: 2 }), scrollTo: fc.option(fc.constantFrom<[number, number]>([0, 0], [0, 11], [0, 30]), { freq: 8 }), compress: fc.constantFrom(undefined, undefined, undefined, undefined, undefined, false), plainish: fc.boolean(), s: fc.nat(9), hover: fc.record({ ms: fc.constantFrom(undefined, 450), cf: fc.constantFrom(undefined, 250), st: fc.constantFrom(undefined, ["focus"]) }),
});
const filmArb = fc.record({ docs: fc.tuple(docArb, docArb), frames: fc.array(frameArb, { minLength: 1, maxLength: 5, size: "max" }), vars: fc.boolean(), auto: fc.constantFrom(undefined, undefined, true, false), simple: fc.constantFrom(false, false, true), whole: fc.boolean() });
type Film = typeof filmArb extends fc.Arbitrary<infer T> ? T : never;
const mkDoc = (d: any, tag: string): Page => { let n = 0; return { sx: 0, sy: 0, cols: d.map((c: any[]) => c.map((r) => freshRow(`r${tag}${n++}`, { nodes: r.input ? [] : r.t ? [r.t] : [], value: r.input ? r.t : "", input: r.input, attr: r.attr, cls: new Set([...(r.c & 1 ? ["a"] : []), ...(r.c & 2 ? ["b"] : [])]) }))) }; };

interface Ov { x: number; y: number; w: number; h: number; c: string; from: number; to: number }
interface Shot { start: number; hold: number; page: Page; sel: string | null; ovs: Ov[]; what: string }
interface Script { cfg: any; shots: Shot[]; log: string[]; total: number; ordered: boolean; features: Set<string> }
/** Writes the config and, from the same choices, what it must show when. */
function script(c: Film): Script {
  const docs = c.docs.map((d, i) => mkDoc(d, String(i)));
  const cfg: any = { width: W, height: H, frames: [], ...(c.vars ? { vars: VARS } : {}), ...(c.auto === undefined ? {} : { autoCompress: c.auto }) };
  const shots: Shot[] = [], log: string[] = [], features = new Set<string>(); let page = copyPage(docs[0]); let at = 0, ordered = true;
  const overlays = (list: any[], p: Page, start: number, hold: number): { src: any[]; out: Ov[] } => {
    const src: any[] = [], out: Ov[] = [];
    for (const o of list) {
      let x = o.x, y = o.y; const e: any = { kind: "svg", src: `o${o.f}.svg`, width: o.w, height: o.h };
      const sel = o.anchor ? pick(p, o.anchor.s, null) : null;
      if (sel) { const b = boxOf(p, match(p, sel)[0]); const k = o.anchor.at ?? "top-left"; x = b.x + (/left/.test(k) ? 0 : /right/.test(k) ? b.w : b.w / 2) + o.anchor.dx; y = b.y + (/top/.test(k) ? 0 : /bottom/.test(k) ? b.h : b.h / 2) + o.anchor.dy; e.anchor = { selector: sel, dx: o.anchor.dx, dy: o.anchor.dy, ...(o.anchor.at ? { at: o.anchor.at } : {}) }; features.add("anchored overlay"); }
      else { e.x = x; e.y = y; }
      if (o.delay != null) e.delay = o.delay; if (o.endAt != null) e.endAt = o.endAt;
      if ((o.delay ?? 0) >= Math.min(o.endAt ?? hold, hold)) continue; // an empty window is its own question
      const k = Math.min(o.w / 40, o.h / 30); // the drawing's viewBox is kept: it fits the overlay's box, centred
      src.push(e); out.push({ x: x + (o.w - 40 * k) / 2, y: y + (o.h - 30 * k) / 2, w: 40 * k, h: 30 * k, c: OVC[o.f], from: start + (o.delay ?? 0), to: start + Math.min(o.endAt ?? hold, hold) }); features.add("overlay");
    }
    return { src, out };
  };
  c.frames.forEach((f, i) => {
    const fc0: any = { duration: f.dur }; const load = i === 0 || f.load;
    const plain = c.simple || (f.plainish && f.kind === "plain");
    if (load) { const d = i === 0 ? 0 : f.doc; fc0.input = `d${d}.html`; page = copyPage(docs[d]); log.push(`goto ${d}`); }
    else if (f.explicit) fc0.continue = true;
    if (c.simple) { fc0.transition = { type: "cut", duration: 0 }; } else if (f.tr) fc0.transition = f.tr;
    if (f.compress === false && !c.simple) fc0.compress = false;
    const tr = fc0.transition == null ? 300 : fc0.transition.type === "cut" ? 0 : fc0.transition.duration;
    // readiness, judged before the frame's own actions
    const any0 = page.cols.flat().find((r) => r.id && !r.input);
    if (!plain || load) switch (f.ready) {
      case 0: fc0.wait = 35; log.push("wait 35"); break;
      case 1: fc0.waitFor = "#c1"; log.push("waitFor #c1"); break;
      case 2: if (any0) { fc0.waitForText = { selector: `#${any0.id}`, equals: c.vars ? any0.nodes.join("").trim().replaceAll("${", () => "$${") : any0.nodes.join("").trim() }; log.push("condition"); } break;
      case 3: if (any0) { fc0.waitForText = { selector: `#${any0.id}`, contains: any0.nodes.join("").slice(0, 1) }; log.push("condition"); } break;
      case 4: fc0.waitForGone = "#nothing"; log.push("condition"); break;
      case 5: fc0.waitForCount = { selector: "#c0 > *", equals: page.cols[0].length }; log.push("condition"); break;
      case 6: fc0.waitForCount = { selector: "#c1 > *", atLeast: page.cols[1].length, atMost: page.cols[1].length }; log.push("condition"); fc0.wait = 0; break;
      case 7: fc0.wait = 0; break;
    }
    if (f.scrollTo && (!plain || load)) { fc0.scrollTo = f.scrollTo; [page.sx, page.sy] = f.scrollTo; features.add("scrolled"); }
    const actions = f.ops.map((o) => { if (plain && ["click", "hover", "fill", "scroll"].includes(o.k)) return null; return act(page, o, null, c.vars, log); }).filter(Boolean);
    if (actions.length) fc0.actions = actions;
    const sel = f.sel != null && !plain && f.kind !== "states" ? pick(page, f.sel, null) : null; if (sel) { fc0.selector = sel; features.add("one element captured"); }
    if (f.kind === "states" && !c.simple) {
      features.add("states"); const named: Record<string, string> = f.regions ? { L: "#c0", R: "#c1" } : {}; if (f.regions) fc0.regions = named; const timed = f.regions === 2;
      fc0.states = []; let t = at; const fo: any[] = [];
      if (timed) { ordered = false; features.add("regions on their own schedules"); } else log.push("capture body");
      f.states.forEach((s, j) => {
        const st: any = { duration: s.dur }; const cols = timed ? (s.col % 3 === 0 ? [0] : s.col % 3 === 1 ? [1] : [0, 1]) : null;
        if (j > 0) { const acts = s.ops.map((o) => NATIVE.includes(o.k) ? null : act(page, o, cols, c.vars, log)).filter(Boolean); if (acts.length) st.actions = acts; if (timed && (cols!.length === 1 || s.col < 3)) st.advances = cols!.map((k) => "LR"[k]); if (!timed) log.push("capture body"); }
        const ovs = overlays(s.ovs, page, t, s.dur); if (ovs.src.length) { st.overlays = ovs.src; features.add("overlay of one state"); fo.push(...ovs.out); }
        fc0.states.push(st); shots.push({ start: t, hold: s.dur, page: copyPage(page), sel: null, ovs: ovs.out, what: `frame ${i}, state ${j}` }); t += s.dur;
      });
      // once a region declares a schedule, a run with one state never advances: keep what validation wants
      fc0.duration = t - at;
      at = t + tr; cfg.frames.push(fc0); return;
    }
    const hr = f.kind === "hover" && !c.simple ? pick(page, f.s, null) : null;
    if (f.force && !hr && !plain) { const s = pick(page, f.force.s, null); if (s) { const states = f.force.n === 0 ? ["focus"] : ["hover"]; if (f.force.n === 3) { fc0.forceState = [{ selector: s, reset: true }]; for (const r of match(page, s)) r.forced = ""; } else { fc0.forceState = [{ selector: s, states }]; for (const r of match(page, s)) r.forced = states.join(); } features.add("forced state"); } }
    log.push(`capture ${sel ?? "body"}`);
    // anchored overlays see the page as the frame leaves it
    const ovs = overlays(f.ovs, page, at, f.dur); if (ovs.src.length) fc0.overlays = ovs.src;
    if (hr) {
      features.add("hover reveal"); fc0.hoverReveal = { selector: hr, cursor: false, ...(f.hover.ms ? { hoverMs: f.hover.ms } : {}), ...(f.hover.cf ? { crossfadeMs: f.hover.cf } : {}), ...(f.hover.st ? { states: f.hover.st } : {}) };
      shots.push({ start: at, hold: f.dur, page: copyPage(page), sel, ovs: ovs.out, what: `frame ${i}, at rest` });
      for (const r of match(page, hr)) r.forced = (f.hover.st ?? ["hover"]).join();
      const t2 = at + f.dur + (f.hover.cf ?? 400), h2 = f.hover.ms ?? f.dur; log.push(`capture ${sel ?? "body"}`);
      shots.push({ start: t2, hold: h2, page: copyPage(page), sel, ovs: [], what: `frame ${i}, revealed` }); at = t2 + h2 + tr;
    } else { shots.push({ start: at, hold: f.dur, page: copyPage(page), sel, ovs: ovs.out, what: `frame ${i}` }); at += f.dur + tr; }
    cfg.frames.push(fc0);
  });
  return { cfg, shots, log, total: at, ordered, features };
}
function still(s: Shot, t: number, paper: boolean): string {
  clearEmbeddedFonts(); clearGlyphDefs(); const inner = elementTreeToSvgInner(treeOf(s.page, s.sel), W, H, "s-", true, 2, false);
  const bg = paper ? `<rect width="${W}" height="${H}" fill="${ROOTBG}"/>` : "";
  return `<svg xmlns="http://www.w3.org/2000/svg" width="${W}" height="${H}" viewBox="0 0 ${W} ${H}"><style>${getEmbeddedFontFaceCss()}</style>${bg}${inner}${s.ovs.filter((o) => t >= o.from && t < o.to).map((o) => `<rect x="${o.x}" y="${o.y}" width="${o.w}" height="${o.h}" fill="${o.c}"/>`).join("")}</svg>`;
}
const clear = (t: number, s: Shot): number => { let r = t; for (const o of s.ovs) for (const e of [o.from, o.to]) if (Math.abs(r - e) < 6) r = e + 9; return r; };

runCheck({ id: "F01", parts: [
  { name: "film", rule: "configs of 1-5 frames (loads and continuations, 25 kinds of action, readiness conditions, scrolling, forced and revealed states, single-element frames, compressed runs written out, collapsed automatically or with regions on their own schedules, overlays placed by coordinates or on elements, variables), played and compared at both ends of every hold; non-trivial = at least two holds that look different",
    arb: filmArb, runs: { quick: 110, thorough: 4000 },
    prop: async (c, ctx) => {
      const s = script(c); const log: string[] = []; const b = browser(c.docs.map((d, i) => mkDoc(d, String(i))), log);
      const cfg = validateAnimateConfig(s.cfg);
      const svg = await composeAnimateConfig(b, cfg, DIR);
      same([b.contexts(), b.closed], [1, 1], "browser contexts opened and closed");
      const said = (l: string[]): string[] => l.filter((x) => x !== "wait 200");
      if (s.ordered) same(said(log), said(s.log), "what the browser was asked to do, in order");
      const ids = idReport(parseXml(svg)); ensure(!ids.duplicates.length && !ids.dangling.length, () => `ids ${show(ids)}`);
      const jobs = s.shots.flatMap((sh) => [0, 1].map((k) => { const m = Math.max(0.03 * sh.hold, 3 + s.total * 0.0015); const t = clear(sh.start + (k === 0 ? m : sh.hold - m), sh); return { sh, t, want: still(sh, t, s.shots[0].sel == null) }; })).filter((j) => j.t < j.sh.start + j.sh.hold);
      const pics = await Promise.all(jobs.map(async (j) => [await raster(bake(j.want, 0)), await raster(bake(svg, j.t + (c.whole ? s.total : 0)))]));
      let changed = 0;
      pics.forEach(([want, got], i) => { const j = jobs[i]; if (i && diff(pics[i - 1][0], want, 8).n) changed++; const d = diff(got, want, 48); ensure(d.n <= 3 && (d.n === 0 || d.max <= 96), () => `${j.sh.what} at ${Math.round(j.t)} ms of ${s.total}: ${d.n} pixels differ (by up to ${d.max}), the first at ${d.at}; config ${JSON.stringify(s.cfg)}`); });
      ctx.hit(changed > 0); ctx.label(...s.features, cfg.frames.length >= 2 && s.cfg.autoCompress !== false && svg.includes("cr") && "a run was compressed");
    } },
], assumptions: ["happy-dom as the page's DOM, with a layout and browser commands of the check's own", "sharp's rasteriser (librsvg) as the picture oracle", "Chromium's capture of a page is replaced by painting the DOM's state as boxes and text"] });
