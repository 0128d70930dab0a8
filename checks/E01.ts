// E01: tree comparison classifies every element exactly once and truthfully; pruning
// removes exactly what was asked. Oracle: a reference matcher over element identity.
import { fc, runCheck, ensure, same, near } from "../lib/harness.ts";
import { el } from "../lib/tree.ts";
import { isDeepStrictEqual } from "node:util";
import { diffTrees, entriesOfKind, dominantTranslate, BBOX_TOLERANCE } from "/repo/src/tree-ops/tree-diff.ts";
import { mapTreePruning } from "/repo/src/tree-ops/prune-tree.ts";
import { forEachElement } from "/repo/src/tree-ops/for-each-element.ts";

const TAGS = ["div", "p", "li"], TEXTS = ["", "", "a", "b", "a:[]", "]|p:b", "a:[]|p:b", "x\"y\\", "@k:"], IDS = [undefined, undefined, undefined, "k", "", "k:a"];
interface N { tag: number; text: number; id: number; x: number; y: number; parent: number }
const nA = fc.record({ tag: fc.nat({ max: 2 }), text: fc.nat({ max: 8 }), id: fc.nat({ max: 5 }), x: fc.constantFrom(0, 0, 0.4, 0.5, 0.6, 10, 300), y: fc.integer({ min: 0, max: 500 }), parent: fc.oneof({ weight: 3, arbitrary: fc.nat({ max: 30 }) }, { weight: 2, arbitrary: fc.constantFrom(-1, -1, -2) }) });
const forest = (ns: N[]): any[] => { const roots: any[] = [], made: any[] = []; ns.forEach((n, i) => { const p = n.parent === -1 ? -1 : n.parent === -2 ? Math.min(i, 1) - 1 : n.parent % (i + 1) - 1; const e = el({ tag: TAGS[n.tag], text: TEXTS[n.text], ...(IDS[n.id] != null ? { animId: IDS[n.id] } : {}), x: n.x, y: n.y }); made.push(e); (p < 0 ? roots : made[p].children).push(e); }); return roots; };
const clone = (f: any[]): any[] => structuredClone(f);
const flat = (f: any[], pre: number[] = []): { e: any; path: number[] }[] => f.flatMap((e, i) => [{ e, path: [...pre, i] }, ...flat(e.children, [...pre, i])]);
// content identity: tag, explicit id, text and children, compared structurally
const content = (e: any): any => [e.tag, e.animId || "", e.text ?? "", e.children.map(content)];
const freeze = (o: any): any => { if (o && typeof o === "object" && !Object.isFrozen(o)) { Object.freeze(o); Object.values(o).forEach(freeze); } return o; };
// an edit script applied to a copy of a tree
const editA = fc.record({ op: fc.constantFrom("shift", "shift", "shiftAll", "drop", "dup", "text", "insert", "id", "swap"), at: fc.nat({ max: 60 }), dx: fc.constantFrom(0, 0.3, 0.5, 0.51, -0.5, 7, -40.25), dy: fc.constantFrom(0, 0.2, -0.6, 12, 33.5, -100), v: fc.nat({ max: 8 }) });
function edit(f: any[], eds: any[]): any[] {
  let g = clone(f);
  for (const d of eds) {
    const l = flat(g); if (l.length === 0) { g.push(el({ x: 1, y: 1 })); continue; } const { e, path } = l[d.at % l.length]; const sib = path.length === 1 ? g : l.find((o) => isDeepStrictEqual(o.path, path.slice(0, -1)))!.e.children; const i = path[path.length - 1];
    switch (d.op) {
      case "shift": { const mv = (n: any): void => { n.x += d.dx; n.y += d.dy; n.children.forEach(mv); }; mv(e); break; }
      case "shiftAll": for (const o of l) { o.e.x += d.dx; o.e.y += d.dy; } break;
      case "drop": sib.splice(i, 1); break; case "dup": sib.splice(i, 0, clone([e])[0]); break; case "text": e.text = TEXTS[d.v]; break;
      case "insert": sib.splice(i, 0, el({ tag: TAGS[d.v % 3], text: TEXTS[d.v], x: 5, y: 5 })); break; case "id": e.animId = IDS[d.v % 6]; break; case "swap": if (i > 0) { const t = sib[i]; sib[i] = sib[i - 1]; sib[i - 1] = t; } break;
    }
  }
  return g;
}
await runCheck({ id: "E01", parts: [
  { name: "diff", rule: "random forests (repeated content, hostile text) and an edited copy (shifts, inserts, removals, duplicates, text and id changes, swaps); non-trivial = at least three kinds of entry",
    arb: fc.record({ ns: fc.oneof({ weight: 3, arbitrary: fc.array(nA, { minLength: 0, maxLength: 14, size: "max" }) }, { weight: 1, arbitrary: fc.array(nA, { minLength: 14, maxLength: 40, size: "max" }) }), eds: fc.array(editA, { maxLength: 5 }), single: fc.boolean() }), runs: { quick: 6000, thorough: 400000 },
    examples: [{ ns: [{ tag: 0, text: 0, id: 0, x: 0, y: 0, parent: 0 }, { tag: 1, text: 6, id: 0, x: 0, y: 0, parent: 1 }], eds: [{ op: "text", at: 1, dx: 0, dy: 0, v: 2 }, { op: "dup", at: 1, dx: 0, dy: 0, v: 0 }, { op: "text", at: 2, dx: 0, dy: 0, v: 3 }], single: false }],
    prop: (c, ctx) => {
      const a = freeze(forest(c.ns as N[])), b = freeze(edit(a, c.eds)); const la = flat(a), lb = flat(b);
      const d = diffTrees(c.single && a.length === 1 ? a[0] : a, c.single && b.length === 1 ? b[0] : b); const E = d.entries;
      // every element is in exactly one entry, with its own path and object
      for (const [list, kp, ke] of [[la, "prevPath", "prev"], [lb, "nextPath", "next"]] as const) { const seen = new Map<any, number>(); for (const en of E) if (en[ke] != null) { seen.set(en[ke], (seen.get(en[ke]) ?? 0) + 1); const o = list.find((x) => x.e === en[ke]); ensure(o, "entry names an element outside the tree"); same(en[kp], o.path, `path of ${ke}`); } for (const o of list) ensure(seen.get(o.e) === 1, `element ${o.path} of ${ke} is in ${seen.get(o.e) ?? 0} entries`); }
      // reference: pair equal content in document order
      const used = new Set<number>(), pair = new Map<number, number>();
      lb.forEach((nb, j) => { const i = la.findIndex((na, i) => !used.has(i) && isDeepStrictEqual(content(na.e), content(nb.e))); if (i >= 0) { used.add(i); pair.set(j, i); } });
      const usedB = new Set(pair.keys()); const mod = new Map<number, number>();
      lb.forEach((nb, j) => { if (usedB.has(j)) return; const i = la.findIndex((na) => isDeepStrictEqual(na.path, nb.path)); if (i < 0 || used.has(i)) return; const p = la[i].e, n = nb.e; if (p.tag === n.tag && ((p.text ?? "") === (n.text ?? "") || (p.animId && p.animId === n.animId))) { used.add(i); mod.set(j, i); } });
      lb.forEach((nb, j) => { const en = E.find((x) => x.next === nb.e)!; if (pair.has(j)) { const na = la[pair.get(j)!]; ensure(en.prev === na.e, `${nb.path} matched to ${en.prevPath}, expected ${na.path}`); const dx = nb.e.x - na.e.x, dy = nb.e.y - na.e.y; const st = Math.abs(dx) <= BBOX_TOLERANCE && Math.abs(dy) <= BBOX_TOLERANCE; same(en.kind, st ? "static" : "translated", `kind at ${nb.path}`); if (!st) { near(en.dx!, dx, 1e-9, "dx"); near(en.dy!, dy, 1e-9, "dy"); } } else if (mod.has(j)) { same(en.kind, "modified", `kind at ${nb.path}`); ensure(en.prev === la[mod.get(j)!].e, "modified pair"); } else same(en.kind, "added", `kind at ${nb.path}`); });
      la.forEach((na, i) => { if (!used.has(i)) same(E.find((x) => x.prev === na.e)!.kind, "removed", `kind at ${na.path}`); });
      for (const k of ["static", "translated", "modified", "added", "removed"] as const) same(entriesOfKind(d, k).length, E.filter((e) => e.kind === k).length, k);
      same(entriesOfKind(d, "added", "removed"), E.filter((e) => e.kind === "added" || e.kind === "removed"), "entriesOfKind");
      const mv = E.filter((e) => e.kind === "translated"), dom = dominantTranslate(d);
      if (mv.length === 0) same(dom, null, "dominant"); else { const near1 = (e: any): boolean => Math.round(e.dx) === Math.round(dom!.dx) && Math.round(e.dy) === Math.round(dom!.dy); const n = mv.filter(near1).length; near(dom!.fraction, n / mv.length, 1e-9, "fraction"); for (const e of mv) ensure(mv.filter((o) => Math.round(o.dx!) === Math.round(e.dx!) && Math.round(o.dy!) === Math.round(e.dy!)).length <= n, "not the most common move"); }
      ctx.hit(new Set(E.map((e) => e.kind)).size >= 3); ctx.label(...new Set(E.map((e) => e.kind)));
      // a tree compared with itself has nothing but static entries
      ensure(diffTrees(a, a).entries.every((e) => e.kind === "static" && e.prev === e.next), "self comparison");
    } },
  { name: "prune", rule: "random forests with random sets of elements to drop; non-trivial = something below the roots was dropped and something was kept",
    arb: fc.record({ ns: fc.array(nA, { minLength: 0, maxLength: 16, size: "max" }), mask: fc.array(fc.constantFrom(false, false, false, true), { minLength: 16, maxLength: 16 }), none: fc.constantFrom(false, false, false, true) }), runs: { quick: 4000, thorough: 200000 },
    prop: (c, ctx) => {
      const f = freeze(forest(c.ns as N[])); const l = flat(f); const drop = new Set(l.filter((_, i) => !c.none && c.mask[i]).map((o) => o.e)); const dropped: any[] = [], asked: any[] = [];
      const out = mapTreePruning(f, (n, p) => { asked.push([n, p.join()]); return drop.has(n); }, (n, p) => dropped.push([n, p.join()]));
      const under = (p: number[]): boolean => l.some((o) => drop.has(o.e) && o.path.length < p.length && o.path.every((v, i) => v === p[i]));
      same(dropped.length, l.filter((o) => drop.has(o.e) && !under(o.path)).length, "dropped count"); const exp = l.filter((o) => drop.has(o.e) && !under(o.path)); dropped.forEach(([n, p], i) => { ensure(n === exp[i].e && p === exp[i].path.join(), "dropped elements are reported in document order with their paths"); });
      for (const [n, p] of asked) ensure(l.some((o) => o.e === n && o.path.join() === p), "asked about a path that is not the element's");
      const chk = (src: any[], got: any[]): void => { const keep = src.filter((n) => !drop.has(n)); same(got.length, keep.length, "children kept"); const touched = (n: any): boolean => n.children.some((k: any) => drop.has(k) || touched(k)); if (keep.length === src.length && !src.some(touched)) ensure(got === src, "an untouched list was copied"); keep.forEach((n, i) => { if (!touched(n)) ensure(got[i] === n, "an untouched element was copied"); else { const { children: _a, ...x } = n, { children: _b, ...y } = got[i]; same(y, x, "fields"); chk(n.children, got[i].children); } }); };
      chk(f, out); ctx.hit(dropped.some(([, p]) => p.includes(",")) && out.length > 0);
      const order: any[] = []; forEachElement(f, (e) => order.push(e)); ensure(order.length === l.length && order.every((e, i) => e === l[i].e), "walk order");
    } },
] });
