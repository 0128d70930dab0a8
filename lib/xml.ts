// A small strict XML 1.0 (+ namespaces) parser, independent of the code under
// test. Throws XmlError on anything that is not well-formed.
export class XmlError extends Error {}
export interface XNode { kind: "el"; name: string; attrs: Map<string, string>; children: XChild[]; parent: XNode | null; pos: number; end: number; openEnd: number }
export interface XText { kind: "text"; text: string; cdata?: boolean; parent: XNode | null }
export type XChild = XNode | XText;

const NAME_START = /[:A-Z_a-z\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u02FF\u0370-\u037D\u037F-\u1FFF\u200C-\u200D\u2070-\u218F\u2C00-\u2FEF\u3001-\uD7FF\uF900-\uFDCF\uFDF0-\uFFFD]/;
const NAME_RE = /[:A-Z_a-z\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u02FF\u0370-\u037D\u037F-\u1FFF\u200C-\u200D\u2070-\u218F\u2C00-\u2FEF\u3001-\uD7FF\uF900-\uFDCF\uFDF0-\uFFFD][-.:0-9A-Z_a-z\u00B7\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u037D\u037F-\u1FFF\u200C-\u200D\u203F-\u2040\u2070-\u218F\u2C00-\u2FEF\u3001-\uD7FF\uF900-\uFDCF\uFDF0-\uFFFD]*/y;
const ENT: Record<string, string> = { amp: "&", lt: "<", gt: ">", quot: '"', apos: "'" };

/** First character of `s` that XML 1.0 does not allow, or -1. */
export function badXmlChar(s: string): number {
  for (let i = 0; i < s.length; i++) {
    const c = s.charCodeAt(i);
    if (c < 0x20 && c !== 9 && c !== 10 && c !== 13) return i;
    if (c === 0xfffe || c === 0xffff) return i;
    if (c >= 0xd800 && c <= 0xdbff) {
      const d = s.charCodeAt(i + 1);
      if (!(d >= 0xdc00 && d <= 0xdfff)) return i;
      i++;
    } else if (c >= 0xdc00 && c <= 0xdfff) return i;
  }
  return -1;
}

export function parseXml(src: string): XNode {
  let i = 0;
  const err = (m: string): never => { throw new XmlError(`${m} at ${i}: …${JSON.stringify(src.slice(Math.max(0, i - 60), i + 60))}`); };
  const bad = badXmlChar(src);
  if (bad >= 0) { i = bad; err(`character U+${src.charCodeAt(bad).toString(16)} not allowed in XML`); }
  const ws = (): boolean => { const s = i; while (i < src.length && (src[i] === " " || src[i] === "\t" || src[i] === "\n" || src[i] === "\r")) i++; return i > s; };
  const name = (): string => { NAME_RE.lastIndex = i; const m = NAME_RE.exec(src); if (!m) return err("expected a name"); i += m[0].length; return m[0]; };
  const decode = (s: string, at: number): string => s.replace(/&([^;&<]{0,12});?/g, (w, e: string, off: number) => {
    if (!w.endsWith(";")) { i = at + off; err("unterminated entity reference"); }
    if (e[0] === "#") {
      const cp = e[1] === "x" ? (/^#x[0-9a-fA-F]+$/.test(e) ? parseInt(e.slice(2), 16) : NaN) : (/^#[0-9]+$/.test(e) ? parseInt(e.slice(1), 10) : NaN);
      if (!(cp === 9 || cp === 10 || cp === 13 || (cp >= 0x20 && cp <= 0xd7ff) || (cp >= 0xe000 && cp <= 0xfffd) || (cp >= 0x10000 && cp <= 0x10ffff))) { i = at + off; err(`bad character reference &${e};`); }
      return String.fromCodePoint(cp);
    }
    if (!(e in ENT)) { i = at + off; err(`undefined entity &${e};`); }
    return ENT[e];
  });
  const comment = (): void => { const e = src.indexOf("--", i + 4); if (e < 0 || src[e + 2] !== ">") err("malformed comment"); i = e + 3; };
  const pi = (first: boolean): void => {
    const e = src.indexOf("?>", i); if (e < 0) err("unterminated processing instruction");
    const m = /^<\?([^\s?]+)/.exec(src.slice(i, e)); if (!m) err("malformed processing instruction");
    if (m && m[1].toLowerCase() === "xml" && !first) err("XML declaration not at the start");
    i = e + 2;
  };
  let root: XNode | null = null;
  if (src.startsWith("<?xml")) pi(true);
  const misc = (): void => { for (;;) { ws(); if (src.startsWith("<!--", i)) comment(); else if (src.startsWith("<?", i)) pi(false); else if (src.startsWith("<!DOCTYPE", i)) { const e = src.indexOf(">", i); if (e < 0) err("bad doctype"); i = e + 1; } else return; } };
  misc();
  const stack: XNode[] = [];
  const ns: Set<string>[] = [new Set(["xml", "xmlns"])];
  const open = (): void => {
    const pos = i; i++;
    const n = name();
    const attrs = new Map<string, string>();
    for (;;) {
      const had = ws();
      if (src[i] === ">" || src.startsWith("/>", i)) break;
      if (i >= src.length) err("unterminated start tag");
      if (!had) err("missing white space between attributes");
      const an = name(); ws();
      if (src[i] !== "=") err(`attribute ${an} without a value`);
      i++; ws();
      const q = src[i]; if (q !== '"' && q !== "'") err(`attribute ${an} value not quoted`);
      const e = src.indexOf(q, i + 1); if (e < 0) err("unterminated attribute value");
      const raw = src.slice(i + 1, e);
      if (raw.includes("<")) err(`'<' in the value of attribute ${an}`);
      if (attrs.has(an)) err(`duplicate attribute ${an}`);
      attrs.set(an, decode(raw, i + 1)); i = e + 1;
    }
    const scope = new Set(ns[ns.length - 1]);
    for (const k of attrs.keys()) if (k.startsWith("xmlns:")) scope.add(k.slice(6));
    for (const k of [n, ...attrs.keys()]) { const c = k.indexOf(":"); if (c > 0 && !scope.has(k.slice(0, c))) err(`undeclared namespace prefix in ${k}`); }
    const parent = stack[stack.length - 1] ?? null;
    const node: XNode = { kind: "el", name: n, attrs, children: [], parent, pos, end: 0, openEnd: 0 };
    if (parent) parent.children.push(node); else if (root) err("more than one root element"); else root = node;
    if (src[i] === "/") { i += 2; node.end = node.openEnd = i; } else { i++; node.openEnd = i; stack.push(node); ns.push(scope); }
  };
  if (src[i] !== "<") err("expected the root element");
  open();
  while (stack.length) {
    if (i >= src.length) err(`unclosed <${stack[stack.length - 1].name}>`);
    const cur = stack[stack.length - 1];
    if (src.startsWith("<!--", i)) comment();
    else if (src.startsWith("<![CDATA[", i)) { const e = src.indexOf("]]>", i); if (e < 0) err("unterminated CDATA"); cur.children.push({ kind: "text", text: src.slice(i + 9, e), cdata: true, parent: cur }); i = e + 3; }
    else if (src.startsWith("<?", i)) pi(false);
    else if (src.startsWith("</", i)) { i += 2; const n = name(); ws(); if (src[i] !== ">") err("malformed end tag"); i++; if (n !== cur.name) err(`</${n}> closes <${cur.name}>`); cur.end = i; stack.pop(); ns.pop(); }
    else if (src[i] === "<") open();
    else {
      let e = src.indexOf("<", i); if (e < 0) e = src.length;
      const raw = src.slice(i, e); const cd = raw.indexOf("]]>"); if (cd >= 0) { i += cd; err("']]>' in character data"); }
      cur.children.push({ kind: "text", text: decode(raw, i), parent: cur }); i = e;
    }
  }
  misc();
  if (i < src.length) err("content after the root element");
  return root!;
}

export function* walk(n: XNode): Generator<XNode> { yield n; for (const c of n.children) if (c.kind === "el") yield* walk(c); }
export const els = (n: XNode): XNode[] => n.children.filter((c): c is XNode => c.kind === "el");
export function textContent(n: XNode): string { let s = ""; for (const c of n.children) s += c.kind === "text" ? c.text : textContent(c); return s; }
export function find(n: XNode, pred: (e: XNode) => boolean): XNode | undefined { for (const e of walk(n)) if (pred(e)) return e; return undefined; }
export const classes = (n: XNode): string[] => (n.attrs.get("class") ?? "").split(/\s+/).filter(Boolean);

const escT = (s: string): string => s.replace(/&/g, "&amp;").replace(/</g, "&lt;").replace(/>/g, "&gt;");
const escA = (s: string): string => escT(s).replace(/"/g, "&quot;").replace(/\n/g, "&#10;").replace(/\t/g, "&#9;");
export function serialize(n: XChild): string {
  if (n.kind === "text") return escT(n.text);
  let s = `<${n.name}`;
  for (const [k, v] of n.attrs) s += ` ${k}="${escA(v)}"`;
  return n.children.length ? `${s}>${n.children.map(serialize).join("")}</${n.name}>` : `${s}/>`;
}

/** ids that appear more than once; fragment references that resolve to nothing. */
export function idReport(root: XNode): { duplicates: string[]; dangling: string[]; ids: Set<string>; refs: string[] } {
  const ids = new Set<string>(), dup: string[] = [], refs: string[] = [];
  const URL_RE = /url\(\s*(?:"#([^"]+)"|'#([^']+)'|#([^)\s]+))\s*\)/g;
  for (const e of walk(root)) {
    for (const [k, v] of e.attrs) {
      if (k === "id") { if (ids.has(v)) dup.push(v); ids.add(v); }
      else if ((k === "href" || k === "xlink:href") && v.startsWith("#")) refs.push(v.slice(1));
      else if (k === "begin" || k === "end") { /* SMIL not used */ }
      else for (const m of v.matchAll(URL_RE)) refs.push(m[1] ?? m[2] ?? m[3]);
    }
    if (e.name === "style") for (const m of textContent(e).matchAll(URL_RE)) refs.push(m[1] ?? m[2] ?? m[3]);
  }
  return { duplicates: dup, dangling: refs.filter((r) => !ids.has(r)), ids, refs };
}

/** Anything in the document that would load or run something from outside it. */
export function externalOrActive(root: XNode): string[] {
  const out: string[] = [];
  const okUrl = (u: string): boolean => { const t = u.trim(); return t === "" || t.startsWith("#") || /^data:/i.test(t); };
  const css = (s: string, where: string): void => {
    const stripped = s.replace(/\/\*[\s\S]*?\*\//g, "");
    for (const m of stripped.matchAll(/url\(\s*("(?:[^"\\]|\\.)*"|'(?:[^'\\]|\\.)*'|[^)]*)\s*\)/gi)) { const u = m[1].replace(/^["']|["']$/g, ""); if (!okUrl(u)) out.push(`${where}: url(${u.slice(0, 80)})`); }
    if (/@import\b/i.test(stripped)) out.push(`${where}: @import`);
  };
  for (const e of walk(root)) {
    const local = e.name.replace(/^.*:/, "").toLowerCase();
    if (local === "script" || local === "iframe" || local === "object" || local === "embed") out.push(`<${e.name}>`);
    for (const [k, v] of e.attrs) {
      const lk = k.toLowerCase();
      if (/^on[a-z]/.test(lk)) out.push(`${k}= on <${e.name}>`);
      else if (lk === "href" || lk === "xlink:href" || lk === "src") { if (local !== "a" && !okUrl(v)) out.push(`${k}="${v.slice(0, 80)}" on <${e.name}>`); if (/^\s*javascript:/i.test(v)) out.push(`javascript: ${k} on <${e.name}>`); }
      else if (lk === "style" || /url\(/i.test(v)) css(v, `${k} on <${e.name}>`);
    }
    if (local === "style") css(textContent(e), "<style>");
  }
  return out;
}
