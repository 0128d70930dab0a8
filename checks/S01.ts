// S01: the scroll-pattern language. Oracle: an AST printer, an independent
// token-level recogniser written from docs/37's EBNF, and error-contract checks.
import { fc, runCheck, ensure, fail, same, show } from "../lib/harness.ts";
import { parseScrollPattern, ScrollPatternError } from "/repo/src/index.ts";

// ── tokens ──
type Tok = { t: "p" | "id" | "len" | "dur" | "spd" | "num" | "str"; s: string };
const P = (s: string): Tok => ({ t: "p", s }), ID = (s: string): Tok => ({ t: "id", s });
const classify = (s: string): Tok =>
  /^[(),:/@[\]+\-.]$/.test(s) ? P(s) : /^"/.test(s) ? { t: "str", s } : /^\d/.test(s)
    ? { t: /pxps$/.test(s) ? "spd" : /(px|%)$/.test(s) ? "len" : /(ms|s)$/.test(s) ? "dur" : "num", s } : ID(s);

// ── AST generation ──
const numStr = fc.oneof(
  { weight: 3, arbitrary: fc.integer({ min: 0, max: 5000 }).map(String) },
  { weight: 2, arbitrary: fc.tuple(fc.integer({ min: 0, max: 999 }), fc.integer({ min: 0, max: 999 })).map(([a, b]) => `${a}.${String(b).padStart(3, "0")}`) },
  fc.constantFrom("0", "1", "007", "0.5", "99999999", "3.10"),
);
const lenA = fc.record({ n: numStr, unit: fc.constantFrom("px", "%") });
const durA = fc.record({ n: numStr, unit: fc.constantFrom("s", "ms") });
const sel = fc.oneof(fc.constantFrom(".cta", "#a > .b", ".a, .b", "[data-x='1']", "é .ü", "a:not(.b)", ") until bottom", "x until 3 times", ""), fc.string({ unit: "grapheme", maxLength: 12 }).map((s) => s.replace(/"/g, "'")));
const anchorA = fc.oneof(
  { weight: 3, arbitrary: fc.constantFrom("top", "bottom", "left", "right", "start", "end").map((name) => ({ kind: "named", name })) },
  fc.record({ kind: fc.constant("selector"), cssSelector: sel }),
);
const absA = fc.record({ anchor: anchorA, axis: fc.constantFrom(undefined, undefined, "x", "y"), offs: fc.array(fc.record({ op: fc.constantFrom("+", "-"), l: lenA }), { maxLength: 3 }) });
const easingA = fc.oneof(
  fc.constantFrom("linear", "ease", "ease-in", "ease-out", "ease-in-out", "step-start", "step-end").map((name) => ({ kind: "named", name })),
  fc.array(fc.record({ sign: fc.constantFrom("", "-", "+"), n: numStr }), { minLength: 4, maxLength: 4 }).map((v) => ({ kind: "cubic-bezier", v })),
  fc.record({ kind: fc.constant("steps"), count: fc.integer({ min: 2, max: 40 }), position: fc.constantFrom(undefined, "jump-start", "jump-end", "jump-none", "jump-both", "start", "end") }),
  fc.record({ kind: fc.constant("steps"), count: fc.constant(1), position: fc.constantFrom(undefined, "jump-start", "end") }),
);
const actionA = fc.oneof(
  { weight: 4, arbitrary: fc.record({
    k: fc.constant("scroll"), dir: fc.constantFrom(undefined, undefined, "up", "down", "left", "right"),
    target: fc.oneof(fc.record({ k: fc.constant("d"), neg: fc.boolean(), l: lenA }), fc.record({ k: fc.constant("a"), a: absA })),
    suf: fc.oneof(fc.constant(undefined), durA.map((d) => ({ dur: d })), fc.tuple(fc.integer({ min: 1, max: 4000 }), fc.boolean()).map(([n, h]) => ({ spd: h ? `${n}.5` : String(n) }))),
    easing: fc.option(easingA, { nil: undefined, freq: 3 }),
  }) },
  { weight: 1, arbitrary: fc.record({ k: fc.constant("pause"), prefix: fc.boolean(), d: durA }) },
);
const untilA = fc.oneof(absA.map((a) => ({ k: "pos", a })), fc.integer({ min: 1, max: 999 }).map((count) => ({ k: "count", count })));
const { pattern } = fc.letrec((tie) => ({
  pattern: fc.array(tie("seg"), { minLength: 1, maxLength: 4, depthIdentifier: "s" }),
  seg: fc.oneof({ depthIdentifier: "s", maxDepth: 3 },
    fc.record({ k: fc.constant("flat"), actions: fc.array(actionA, { minLength: 1, maxLength: 4 }), until: fc.option(untilA, { nil: undefined }) }),
    fc.record({ k: fc.constant("br"), p: tie("pattern"), until: fc.option(untilA, { nil: undefined }) })),
}));
/** Two adjacent flat segments are only distinguishable when the first carries `until`. */
function normal(segs: any[]): any[] {
  const out: any[] = [];
  for (const s of segs) {
    const prev = out[out.length - 1];
    if (s.k === "flat" && prev?.k === "flat" && prev.until == null) { prev.actions = [...prev.actions, ...s.actions]; prev.until = s.until; }
    else out.push(s.k === "flat" ? { ...s } : { ...s, p: normal(s.p) });
  }
  return out;
}
// ── print + expected AST ──
const pLen = (l: any): Tok => ({ t: "len", s: l.n + l.unit }), pDur = (d: any): Tok => ({ t: "dur", s: d.n + d.unit });
const eLen = (l: any) => ({ value: Number(l.n), unit: l.unit }), eDur = (d: any) => Number(d.n) * (d.unit === "s" ? 1000 : 1);
function pAbs(a: any): Tok[] {
  const o: Tok[] = a.anchor.kind === "named" ? [ID(a.anchor.name)] : [ID("selector"), P("("), { t: "str", s: `"${a.anchor.cssSelector}"` }, P(")")];
  if (a.axis) o.push(P("."), ID(a.axis));
  for (const f of a.offs) o.push(P(f.op), pLen(f.l));
  return o;
}
const eAbs = (a: any) => ({ anchor: a.anchor, axisSuffix: a.axis, offsets: a.offs.map((f: any) => ({ op: f.op, length: eLen(f.l) })) });
function pEase(e: any): Tok[] {
  if (e.kind === "named") return [P("["), ID(e.name), P("]")];
  if (e.kind === "steps") return [P("["), ID("steps"), P("("), { t: "num", s: String(e.count) }, ...(e.position ? [P(","), ID(e.position)] : []), P(")"), P("]")];
  return [P("["), ID("cubic-bezier"), P("("), ...e.v.flatMap((x: any, i: number) => [...(i ? [P(",")] : []), ...(x.sign ? [P(x.sign)] : []), { t: "num", s: x.n } as Tok]), P(")"), P("]")];
}
const eEase = (e: any) => e == null ? undefined : e.kind === "cubic-bezier" ? { kind: "cubic-bezier", values: e.v.map((x: any) => (x.sign === "-" ? -1 : 1) * Number(x.n)) } : e.kind === "steps" ? { kind: "steps", count: e.count, position: e.position } : e;
function pAct(a: any): Tok[] {
  if (a.k === "pause") return [...(a.prefix ? [ID("pause"), P(":")] : []), pDur(a.d)];
  const o: Tok[] = a.dir ? [ID(a.dir), P(":")] : [];
  if (a.target.k === "d") { if (a.target.neg) o.push(P("-")); o.push(pLen(a.target.l)); } else o.push(...pAbs(a.target.a));
  if (a.suf?.dur) o.push(P("/"), pDur(a.suf.dur)); if (a.suf?.spd) o.push(P("@"), { t: "spd", s: a.suf.spd + "pxps" });
  if (a.easing) o.push(...pEase(a.easing));
  return o;
}
const eAct = (a: any) => a.k === "pause" ? { kind: "pause", durationMs: eDur(a.d) } : {
  kind: "scroll", direction: a.dir, target: a.target.k === "d" ? { kind: "delta", signedLength: { sign: a.target.neg ? -1 : 1, ...eLen(a.target.l) } } : { kind: "absolute", ...eAbs(a.target.a) },
  durationMs: a.suf?.dur ? eDur(a.suf.dur) : undefined, speedPxPerSec: a.suf?.spd ? Number(a.suf.spd) : undefined, easing: eEase(a.easing),
};
const pUntil = (u: any): Tok[] => u == null ? [] : [ID("until"), ...(u.k === "count" ? [{ t: "num", s: String(u.count) } as Tok, ID("times")] : pAbs(u.a))];
const eUntil = (u: any) => u == null ? undefined : u.k === "count" ? { kind: "count", count: u.count } : { kind: "position", target: { kind: "absolute", ...eAbs(u.a) } };
const sepBy = (xs: Tok[][]): Tok[] => xs.flatMap((x, i) => i ? [P(","), ...x] : x);
const pPat = (segs: any[]): Tok[] => sepBy(segs.map((s) => s.k === "flat" ? [...sepBy(s.actions.map(pAct)), ...pUntil(s.until)] : [P("("), ...pPat(s.p), P(")"), ...pUntil(s.until)]));
const ePat = (segs: any[]): any => ({ segments: segs.map((s) => s.k === "flat" ? { kind: "flat", actions: s.actions.map(eAct), until: eUntil(s.until) } : { kind: "bracketed", pattern: ePat(s.p), until: eUntil(s.until) }) });
function render(toks: Tok[], ws: string[]): { src: string; starts: number[] } {
  let src = ws[0 % Math.max(1, ws.length)] ?? ""; const starts: number[] = [];
  toks.forEach((t, i) => {
    const prev = toks[i - 1]; let gap = ws.length ? ws[(i + 1) % ws.length] : "";
    const must = prev != null && /[\w.%]$/.test(prev.s) && prev.s !== "." && (/^\w/.test(t.s) || (prev.t === "id" && t.s === "-")) || (prev?.t === "num" && (t.s === "%" || t.s === ".")) || (prev != null && /[\d]$/.test(prev.s) && t.s === ".");
    if (must && gap === "") gap = " ";
    if (i > 0) src += gap;
    starts.push(src.length); src += t.s;
  });
  return { src, starts };
}
const clean = (v: any): any => Array.isArray(v) ? v.map(clean) : v && typeof v === "object" ? Object.fromEntries(Object.entries(v).filter(([, x]) => x !== undefined).map(([k, x]) => [k, clean(x)])) : Object.is(v, -0) ? 0 : v;
/** AST → token list, for re-printing what the parser returned. */
const num = (n: number): string => { const s = String(n); return /e/.test(s) ? n.toFixed(12).replace(/0+$/, "").replace(/\.$/, "") : s; };
function unparse(p: any): any[] {
  const len = (l: any) => ({ n: num(l.value), unit: l.unit });
  const abs = (t: any) => ({ anchor: t.anchor, axis: t.axisSuffix, offs: t.offsets.map((o: any) => ({ op: o.op, l: len(o.length) })) });
  const ms = (d: number) => ({ n: num(d), unit: "ms" });
  const until = (u: any) => u == null ? undefined : u.kind === "count" ? { k: "count", count: u.count } : { k: "pos", a: abs(u.target) };
  return p.segments.map((s: any) => s.kind === "bracketed" ? { k: "br", p: unparse(s.pattern), until: until(s.until) } : { k: "flat", until: until(s.until), actions: s.actions.map((a: any) => a.kind === "pause" ? { k: "pause", prefix: true, d: ms(a.durationMs) } : {
    k: "scroll", dir: a.direction, target: a.target.kind === "delta" ? { k: "d", neg: a.target.signedLength.sign < 0, l: len(a.target.signedLength) } : { k: "a", a: abs(a.target) },
    suf: a.durationMs != null ? { dur: ms(a.durationMs) } : a.speedPxPerSec != null ? { spd: num(a.speedPxPerSec) } : undefined,
    easing: a.easing?.kind === "cubic-bezier" ? { kind: "cubic-bezier", v: a.easing.values.map((v: number) => ({ sign: v < 0 ? "-" : "", n: num(Math.abs(v)) })) } : a.easing,
  }) });
}

// ── independent recogniser over tokens (docs/37 EBNF) ──
class No extends Error { constructor(public at: number, public semantic = false) { super("no"); } }
/** A form outside the documented grammar that the parser is free to take or leave. */
class Lenient extends Error {}
function recognise(T: Tok[]): any {
  let i = 0;
  const is = (s: string, k = 0): boolean => T[i + k]?.s === s && T[i + k].t !== "str";
  const eat = (s: string): void => { if (!is(s)) throw new No(i); i++; };
  const kind = (t: Tok["t"]): string => { if (T[i]?.t !== t) throw new No(i); return T[i++].s; };
  const v = (s: string): number => Number(/^\d+(\.\d+)?/.exec(s)![0]);
  const length = (): any => { const s = kind("len"); return { value: v(s), unit: s.endsWith("%") ? "%" : "px" }; };
  const dur = (): number => { const s = kind("dur"); return v(s) * (s.endsWith("ms") ? 1 : 1000); };
  const abs = (): any => {
    let anchor: any;
    if (T[i]?.t !== "id") throw new No(i);
    if (is("selector")) { i++; eat("("); const s = kind("str"); eat(")"); anchor = { kind: "selector", cssSelector: s.slice(1, -1) }; }
    else if (["top", "bottom", "left", "right", "start", "end"].includes(T[i].s)) anchor = { kind: "named", name: T[i++].s };
    else throw new No(i);
    let axisSuffix: any; if (is(".")) { i++; if (!is("x") && !is("y")) throw new No(i); axisSuffix = T[i++].s; }
    const offsets: any[] = []; while (is("+") || is("-")) { const op = T[i++].s; offsets.push({ op, length: length() }); }
    return { kind: "absolute", anchor, axisSuffix, offsets };
  };
  const snum = (): number => { let s = 1; if ([0, 1].some((k) => T[i + k]?.t === "len" && T[i + k].s.endsWith("px"))) throw new Lenient(); if (is("-")) { s = -1; i++; } else if (is("+")) i++; return s * v(kind("num")); };
  const easing = (): any => {
    eat("["); let e: any; const at = i;
    if (is("cubic-bezier")) { i++; eat("("); const a = [snum()]; for (let k = 0; k < 3; k++) { eat(","); a.push(snum()); } eat(")"); e = { kind: "cubic-bezier", values: a }; }
    else if (is("steps")) {
      i++; eat("("); const count = snum(); if (!Number.isInteger(count) || count < 1) throw new No(at, true);
      let position: any; if (is(",")) { i++; if (T[i]?.t !== "id") throw new No(i); if (!["jump-start", "jump-end", "jump-none", "jump-both", "start", "end"].includes(T[i].s)) throw new No(i); position = T[i++].s; if (position === "jump-none" && count < 2) throw new No(at, true); }
      eat(")"); e = { kind: "steps", count, position };
    } else if (T[i]?.t === "id" && ["linear", "ease", "ease-in", "ease-out", "ease-in-out", "step-start", "step-end"].includes(T[i].s)) e = { kind: "named", name: T[i++].s };
    else throw new No(i);
    eat("]"); return e;
  };
  const action = (): any => {
    if (is("pause") && is(":", 1)) { i += 2; return { kind: "pause", durationMs: dur() }; }
    if (T[i]?.t === "dur") return { kind: "pause", durationMs: dur() };
    let direction: any; if (T[i]?.t === "id" && ["up", "down", "left", "right"].includes(T[i].s) && is(":", 1)) { direction = T[i].s; i += 2; }
    let target: any;
    if (T[i]?.t === "len") target = { kind: "delta", signedLength: { sign: 1, ...length() } };
    else if (is("-")) { i++; target = { kind: "delta", signedLength: { sign: -1, ...length() } }; }
    else target = abs();
    let durationMs: any, speedPxPerSec: any, e: any;
    if (is("/")) { i++; durationMs = dur(); if (is("@")) throw new No(i, true); }
    else if (is("@")) { i++; const s = kind("spd"); speedPxPerSec = v(s); if (!(speedPxPerSec > 0)) throw new No(i, true); }
    if (is("[")) e = easing();
    return { kind: "scroll", direction, target, durationMs, speedPxPerSec, easing: e };
  };
  const until = (): any => {
    if (!is("until")) return undefined; i++;
    if (T[i]?.t === "num") { const n = v(T[i++].s); eat("times"); if (!Number.isInteger(n) || n < 1) throw new No(i, true); return { kind: "count", count: n }; }
    return { kind: "position", target: abs() };
  };
  const seg = (): any => {
    if (is("(")) { i++; const p = pat(); eat(")"); return { kind: "bracketed", pattern: p, until: until() }; }
    const actions = [action()]; while (is(",") && !is("(", 1)) { i++; actions.push(action()); }
    return { kind: "flat", actions, until: until() };
  };
  const pat = (): any => { const s = [seg()]; while (is(",")) { i++; s.push(seg()); } return { segments: s }; };
  if (T.length === 0) throw new No(0);
  const p = pat(); if (i < T.length) throw new No(i); return p;
}

const wsA = fc.array(fc.constantFrom("", "", " ", "  ", "\t", "\n", " \r\n "), { minLength: 1, maxLength: 7 });
function tryParse(src: string): { ast?: any; err?: ScrollPatternError } {
  try { return { ast: parseScrollPattern(src) }; } catch (e) {
    if (!(e instanceof ScrollPatternError)) fail(`${show(src)}: threw ${(e as Error)?.name}: ${(e as Error)?.message} instead of a pattern error`);
    ensure(Number.isInteger(e.position) && e.position >= 0 && e.position <= src.length, () => `${show(src)}: error position ${e.position} outside the source`);
    ensure(e.source === src, () => `${show(src)}: the error reports another source ${show(e.source)}`);
    return { err: e };
  }
}
const VOCAB = ["(", ")", ",", ":", "/", "@", "[", "]", "+", "-", ".", "until", "times", "pause", "up", "down", "left", "right", "top", "bottom", "start", "end", "selector", "x", "y", "z", "ease", "ease-in", "linear", "steps", "cubic-bezier", "jump-none", "jump-start", "bogus", "10px", "5%", "2s", "150ms", "800pxps", "0pxps", "3", "0", "1", "2.5", '"a"', '".x, .y"'];

const W = (...w: string[]) => fc.constantFrom(...w);
const limits: fc.Arbitrary<string[]> = fc.oneof(
  fc.tuple(W("0", "1", "2", "2.5", "7"), W("", "jump-none", "jump-both", "jump-start", "jump-end", "start", "end", "middle"), W("", "-", "+")).map(([n, p, sg]) => ["10px", "[", "steps", "(", ...(sg ? [sg] : []), n, ...(p ? [",", p] : []), ")", "]"]),
  fc.tuple(W("0", "1", "2.5", "12"), W("times", "time", ""), W("(", "")).map(([n, t, b]) => [...(b ? ["("] : []), "10px", ...(b ? [")"] : []), "until", n, ...(t ? [t] : [])]),
  fc.tuple(W("0pxps", "800pxps", "0.5pxps", "10px", "2s"), W("", "[", "/2s")).map(([n, t]) => ["5%", "@", n, ...(t === "[" ? ["[", "ease", "]"] : t ? ["/", "2s"] : [])]),
  fc.tuple(W("2s", "150ms", "800pxps", "3"), W("", "@", "/")).map(([n, t]) => ["top", "/", n, ...(t ? [t, t === "@" ? "800pxps" : "2s"] : [])]),
  fc.tuple(W("up", "down", "left", "right", "top", "pause"), W("10px", "-", "top", "2s", "bottom")).map(([d, t]) => [d, ":", t, ...(t === "-" ? ["10px"] : [])]),
  fc.array(fc.tuple(W("", "-", "+"), W("0", "0.5", "1", "2", "9px")), { minLength: 3, maxLength: 5 }).map((a) => ["10px", "[", "cubic-bezier", "(", ...a.flatMap(([x, n], i) => [...(i ? [","] : []), ...(x ? [x] : []), n]), ")", "]"]),
);
await runCheck({ id: "S01", parts: [
  { name: "round-trip", rule: "random pattern ASTs (nested groups, every target/suffix/easing/until form) printed with random whitespace; non-trivial = has a nested group, an until clause or an easing",
    arb: fc.record({ p: pattern.map((p: any) => normal(p)), ws: wsA }), runs: { quick: 4000, thorough: 200000 },
    prop: ({ p, ws }, ctx) => {
      const toks = pPat(p); const { src } = render(toks, ws);
      ctx.hit(toks.some((t) => t.s === "(" || t.s === "until" || t.s === "["));
      ctx.label(toks.some((t) => t.s === "until") && "until", toks.some((t) => t.s === "[") && "easing", src.includes("(") && "paren", toks.some((t) => t.t === "spd") && "speed");
      const r = tryParse(src); if (r.err) fail(`${show(src)} is a valid pattern but was rejected: ${r.err.message}`);
      same(clean(r.ast), clean(ePat(p)), `AST of ${show(src)}`);
    } },
  { name: "accept-reject", rule: "token lists from a valid pattern with 1-3 random token edits, or random token soup; non-trivial = the independent recogniser rejects it or an edit kept it valid",
    arb: fc.record({ p: pattern.map((p: any) => normal(p).slice(0, 1).map((s: any) => s.k === "flat" ? { ...s, actions: s.actions.slice(0, 2) } : s)), soup: fc.oneof({ weight: 5, arbitrary: fc.constant(undefined) }, { weight: 2, arbitrary: fc.array(fc.constantFrom(...VOCAB), { minLength: 1, maxLength: 9 }) }, { weight: 3, arbitrary: limits }), ws: wsA,
      edits: fc.array(fc.record({ k: fc.constantFrom("del", "dup", "swap", "rep", "ins", "same", "same", "same"), at: fc.nat(200), w: fc.constantFrom(...VOCAB) }), { minLength: 1, maxLength: 3 }) }),
    runs: { quick: 6000, thorough: 300000 },
    prop: ({ p, soup, edits, ws }, ctx) => {
      let T = soup ? soup.map(classify) : pPat(p).slice(0, 80);
      if (!soup) for (const e of edits) { const k = T.length ? e.at % T.length : 0; T = [...T]; if (e.k === "del") T.splice(k, 1); else if (e.k === "dup") T.splice(k, 0, T[k]); else if (e.k === "swap" && k + 1 < T.length) [T[k], T[k + 1]] = [T[k + 1], T[k]]; else if (e.k === "same") { const c = VOCAB.map(classify).filter((x) => x.t === T[k]?.t && (x.t !== "p" || /[+-]/.test(x.s) === /[+-]/.test(T[k].s))); if (c.length) T[k] = c[e.at % c.length]; } else if (e.k === "rep") T[k] = classify(e.w); else T.splice(k, 0, classify(e.w)); }
      T = T.filter(Boolean);
      // a bare unit-less number next to a dot or unit would lex as one token
      const { src, starts } = render(T, ws);
      let want: any, no: No | undefined; try { want = recognise(T); } catch (e) { if (e instanceof Lenient) { tryParse(src); return; } if (!(e instanceof No)) throw e; no = e; }
      const got = tryParse(src); ctx.hit(); ctx.label(no ? "reject" : "accept", soup ? "soup" : "edited", no?.semantic && "semantic");
      if (no) {
        if (got.ast) fail(`${show(src)} is outside the grammar but parsed as ${show(got.ast)}`);
        if (!no.semantic) {
          const lo = no.at > 0 ? starts[no.at - 1] ?? 0 : 0, hi = no.at < T.length ? starts[no.at] + T[no.at].s.length : src.length;
          ensure(got.err!.position >= Math.min(lo, src.length) && got.err!.position <= hi, () => `${show(src)}: error position ${got.err!.position} is not at the offending token (expected ${lo}..${hi}): ${got.err!.message}`);
        }
      } else { if (got.err) fail(`${show(src)} is in the grammar but was rejected: ${got.err.message}`); same(clean(got.ast), clean(want), `AST of ${show(src)}`); }
    } },
  { name: "any-string", rule: "arbitrary unicode strings and mutated valid sources; non-trivial = at least 3 characters", 
    arb: fc.oneof(fc.string({ unit: "binary", maxLength: 40 }), fc.array(fc.constantFrom(...VOCAB, " ", "1.", ".5", "\"", "é", "\u0000", "1..2", "9px9", "1e5", "until bottom"), { maxLength: 14 }).map((a) => a.join("")), fc.tuple(pattern, fc.nat(60), fc.string({ maxLength: 2 })).map(([p, k, s]) => { const { src } = render(pPat(normal(p)), [" "]); const at = Math.min(k, src.length); return src.slice(0, at) + s + src.slice(at + 1); })),
    runs: { quick: 6000, thorough: 300000 },
    prop: (src, ctx) => {
      ctx.hit(src.length >= 3); const r = tryParse(src); ctx.label(r.ast ? "accepted" : "rejected");
      if (r.ast) {
        const again = render(pPat(unparse(r.ast)), [" "]).src; const r2 = tryParse(again);
        if (r2.err) fail(`${show(src)} parsed, but its printed form ${show(again)} is rejected: ${r2.err.message}`);
        same(clean(r2.ast), clean(r.ast), `re-parse of ${show(again)} (printed from ${show(src)})`);
      }
    } },
] });
