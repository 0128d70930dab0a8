// A01: the frame timeline of an animated SVG. Oracle: the timeline the
// configuration describes (holds, hand-offs, closing hold), compared with what is
// visible at probe points when the document is played by an independent CSS
// animation evaluator.
import { fc, runCheck, ensure, near, same, show } from "../lib/harness.ts";
import { parseXml, walk, textContent, idReport, externalOrActive, els, type XNode } from "../lib/xml.ts";
import { Player, apply, parseEasing } from "../lib/css.ts";
import { Probe } from "../lib/probe.ts";
import { generateAnimatedSvg } from "/repo/src/index.ts";

const easingA = fc.constantFrom(undefined, undefined, "linear", "ease-in", "ease-out", "ease-in-out", "cubic-bezier(0.2, 0.8, 0.3, 1)", "cubic-bezier(0.7, 0, 0.84, 0)");
const frac = fc.constantFrom(0, 0.25, 0.5, 0.4, 0.75, 1);
const origin = fc.record({ x: frac, y: frac });
const clipA = fc.oneof(
  fc.record({ shape: fc.constant("linear"), angle: fc.constantFrom(0, 35, 90, 180, -60, 270, 123) }),
  fc.record({ shape: fc.constant("radial"), origin, radius: fc.constantFrom(1, 1.5, 2) }),
  fc.record({ shape: fc.constant("clock"), origin: fc.record({ x: fc.constantFrom(0.3, 0.5, 0.6), y: fc.constantFrom(0.4, 0.5, 0.7) }), startAngle: fc.constantFrom(0, 90, -45, 200), direction: fc.constantFrom("clockwise", "counterclockwise") }));
const signed = fc.constantFrom(-0.5, -0.2, 0.2, 0.3, 1, -1);
const opt = <T>(a: fc.Arbitrary<T>): fc.Arbitrary<T | undefined> => fc.option(a, { nil: undefined, freq: 2 });
const dropU = (o: any): any => Object.fromEntries(Object.entries(o).filter(([, v]) => v !== undefined));
const customA = fc.record({
  zOrder: fc.constant("incoming-on-top"),
  incoming: fc.record({ opacity: opt(frac), translate: opt(fc.record({ x: signed, y: fc.constantFrom(0, 0.4, -0.6) })), scale: opt(fc.record({ from: fc.constantFrom(0.3, 0.85, 1.4), origin })), clip: opt(clipA) }).map(dropU).filter((o) => Object.keys(o).length > 0),
  outgoing: fc.record({ opacity: opt(frac), translate: opt(fc.record({ x: signed, y: fc.constantFrom(0, 0.4, -0.6) })), scale: opt(fc.record({ to: fc.constantFrom(0.5, 1.15, 2), origin })) }).map(dropU).filter((o) => Object.keys(o).length > 0),
  reducedMotion: fc.constantFrom("crossfade", "cut"), loop: fc.constantFrom("hold-last", "hold-last", "crossfade-to-first"),
}).map((r: any) => { const c = r.incoming.clip; if (r.incoming.scale && c?.origin) r.incoming.scale.origin = c.origin; return r; });
const dur = fc.oneof(fc.integer({ min: 100, max: 1500 }), fc.constantFrom(0, 300, 500));
const transA: fc.Arbitrary<any> = fc.oneof(
  { weight: 1, arbitrary: fc.constant(undefined) },
  { weight: 3, arbitrary: fc.record({ type: fc.constantFrom("crossfade", "cut", "magic-move", "crossfade", "cut"), duration: dur }) },
  { weight: 4, arbitrary: fc.record({ type: fc.constantFrom("push-left", "push-right", "push-up", "push-down", "scroll"), duration: dur }) },
  { weight: 2, arbitrary: fc.record({ type: fc.constant("wipe"), duration: dur, easing: easingA, wipeAngle: fc.constantFrom(undefined, 0, 35, 90, -120, 180, 300) }).map(dropU) },
  { weight: 2, arbitrary: fc.record({ type: fc.constantFrom("iris", "wipe-radial"), duration: dur, easing: easingA }).map(dropU) },
  { weight: 2, arbitrary: fc.record({ type: fc.constant("wipe-clock"), duration: dur, easing: easingA, wipeStartAngle: fc.constantFrom(undefined, 90, -30), wipeCounterclockwise: fc.constantFrom(undefined, true, false) }).map(dropU) },
  { weight: 2, arbitrary: fc.record({ type: fc.constantFrom("zoom-in", "zoom-out"), duration: dur, easing: easingA }).map(dropU) },
  { weight: 1, arbitrary: fc.record({ type: fc.constant("shine"), duration: dur }) },
  { weight: 2, arbitrary: fc.record({ type: fc.constant("push"), duration: dur, push: fc.oneof(fc.record({ direction: fc.constantFrom("left", "right", "up", "down"), distance: fc.constantFrom(1, 0.5, 2) }), fc.record({ angle: fc.constantFrom(0, 35, -90, 200), distance: fc.constantFrom(1, 0.8) })) }) },
  { weight: 3, arbitrary: fc.record({ type: fc.constant("reveal"), duration: dur, easing: easingA, reveal: clipA }).map(dropU) },
  { weight: 2, arbitrary: fc.record({ type: fc.constant("zoom"), duration: dur, easing: easingA, zoom: fc.record({ fromScale: fc.constantFrom(0.2, 1.25, 0.9), origin }) }).map(dropU) },
  { weight: 3, arbitrary: fc.record({ type: fc.constant("custom"), duration: dur, easing: easingA, custom: customA }).map(dropU) },
);
const caseA = fc.record({
  W: fc.integer({ min: 40, max: 1600 }), H: fc.integer({ min: 40, max: 1200 }),
  frames: fc.array(fc.record({ d: fc.integer({ min: 150, max: 4000 }), tr: transA }), { minLength: 1, maxLength: 7 }),
  loopFade: fc.constantFrom(undefined, undefined, true), background: fc.constantFrom(undefined, "#123456", "transparent"),
  us: fc.array(fc.double({ min: 0.06, max: 0.94, noNaN: true }), { minLength: 2, maxLength: 3 }),
  pts: fc.array(fc.tuple(fc.double({ min: 0.01, max: 0.99, noNaN: true }), fc.double({ min: 0.01, max: 0.99, noNaN: true })), { minLength: 2, maxLength: 3 }),
  loops: fc.constantFrom(0, 0, 1, 5), sharedIds: fc.constantFrom("all", "none", "alternate"),
});

// ── what a transition means, from the documentation ──
interface Ref { dur: number; fadeIn?: number | null; fadeOut?: number | null; move?: { in?: [number, number]; out?: [number, number]; rigid: boolean }; scaleIn?: { from: number; o: [number, number] }; scaleOut?: { to: number; o: [number, number] }; clip?: any; ease?: (u: number) => number; cubic: boolean; sum?: boolean; label: string }
const dirs: Record<string, [number, number]> = { left: [-1, 0], right: [1, 0], up: [0, -1], down: [0, 1] };
function ref(tr: any): Ref | null {
  if (tr === undefined) return { dur: 300, fadeIn: 0, fadeOut: 0, sum: true, cubic: false, label: "crossfade" };
  const d = tr.duration; if (tr.type === "cut" || d === 0) return null;
  const ease = tr.easing ? parseEasing(tr.easing)! : (u: number) => u; const base = { dur: d, ease, cubic: !!tr.easing && tr.easing !== "linear" };
  const mid: [number, number] = [0.5, 0.5];
  switch (tr.type) {
    case "crossfade": case "magic-move": case "shine": return { ...base, fadeIn: 0, fadeOut: 0, sum: true, label: "crossfade" };
    case "scroll": return { ...base, move: { in: dirs.up, out: dirs.up, rigid: true }, label: "push" };
    case "push-left": case "push-right": case "push-up": case "push-down": { const v = dirs[tr.type.slice(5)]; return { ...base, move: { in: v, out: v, rigid: true }, label: "push" }; }
    case "push": { const p = tr.push; const v: [number, number] = "angle" in p ? [Math.cos(p.angle * Math.PI / 180) * p.distance, Math.sin(p.angle * Math.PI / 180) * p.distance] : [dirs[p.direction][0] * p.distance, dirs[p.direction][1] * p.distance]; return { ...base, move: { in: v, out: v, rigid: true }, label: "push" }; }
    case "wipe": return { ...base, clip: { shape: "linear", angle: tr.wipeAngle ?? 0 }, label: "reveal" };
    case "iris": case "wipe-radial": return { ...base, clip: { shape: "radial", origin: { x: 0.5, y: 0.5 }, radius: 1 }, label: "reveal" };
    case "wipe-clock": return { ...base, clip: { shape: "clock", origin: { x: 0.5, y: 0.5 }, startAngle: tr.wipeStartAngle ?? 0, direction: tr.wipeCounterclockwise ? "counterclockwise" : "clockwise" }, label: "reveal" };
    case "reveal": return { ...base, clip: tr.reveal, label: "reveal" };
    case "zoom-in": case "zoom-out": return { ...base, fadeIn: 0, fadeOut: 0, sum: true, scaleIn: { from: tr.type === "zoom-in" ? 0.9 : 1.1, o: mid }, label: "zoom" };
    case "zoom": return { ...base, fadeIn: 0, fadeOut: 0, sum: true, scaleIn: { from: tr.zoom.fromScale, o: [tr.zoom.origin.x, tr.zoom.origin.y] }, label: "zoom" };
    case "custom": {
      const { incoming: a, outgoing: b } = tr.custom;
      return { ...base, fadeIn: a.opacity ?? null, fadeOut: b.opacity ?? null, clip: a.clip, scaleIn: a.scale && { from: a.scale.from, o: [a.scale.origin.x, a.scale.origin.y] }, scaleOut: b.scale && { to: b.scale.to, o: [b.scale.origin.x, b.scale.origin.y] }, move: a.translate || b.translate ? { in: a.translate && [-a.translate.x, -a.translate.y], out: b.translate && [b.translate.x, b.translate.y], rigid: false } : undefined, label: "custom" } as Ref;
    }
  }
  throw new Error(tr.type);
}
/** Is (x,y) uncovered by the reveal at progress f? null = too close to its edge to say. */
function revealed(c: any, f0: number, x: number, y: number, W: number, H: number, band: number): boolean | null {
  const f = Math.max(0, Math.min(1, f0));
  if (c.shape === "linear") {
    const r = c.angle * Math.PI / 180, dx = Math.cos(r), dy = Math.sin(r); const ps = [[0, 0], [W, 0], [W, H], [0, H]].map(([a, b]) => a * dx + b * dy);
    const lo = Math.min(...ps), hi = Math.max(...ps); const g = (x * dx + y * dy - lo) / (hi - lo); return Math.abs(g - f) < band ? null : g < f;
  }
  if (c.shape === "radial") {
    const ox = c.origin.x * W, oy = c.origin.y * H; const R = Math.max(...[[0, 0], [W, 0], [W, H], [0, H]].map(([a, b]) => Math.hypot(a - ox, b - oy))) * c.radius;
    const g = Math.hypot(x - ox, y - oy) / R; return Math.abs(g - f0) < band ? null : g < f0;
  }
  const ox = c.origin.x * W, oy = c.origin.y * H; let a = Math.atan2(x - ox, oy - y) * 180 / Math.PI - c.startAngle; if (c.direction === "counterclockwise") a = -a;
  const g = ((a % 360) + 360) % 360 / 360; return Math.abs(g - f) < band || g < band || g > 1 - band || Math.hypot(x - ox, y - oy) < 3 ? null : g < f;
}

await runCheck({ id: "A01", parts: [
  { name: "timeline", rule: "random frame sequences x every transition family (legacy, parameterised, custom recipes, mixed chains), probed inside every hold, inside every hand-off, and after the last frame; non-trivial = at least two frames with a hand-off that takes time",
    arb: caseA, runs: { quick: 500, thorough: 25000 },
    prop: (c, ctx) => {
      const { W, H } = c; const n = c.frames.length;
      const adv = c.frames.map((f) => f.d + (ref(f.tr)?.dur ?? 0)); const starts = adv.map((_, i) => adv.slice(0, i).reduce((a, b) => a + b, 0)); const total = adv.reduce((a, b) => a + b, 0);
      ctx.hit(n >= 2 && c.frames.slice(0, -1).some((f) => ref(f.tr) != null));
      for (const f of c.frames.slice(0, -1)) ctx.label(ref(f.tr)?.label ?? "cut");
      const key = (i: number): string => c.sharedIds === "all" ? "k" : c.sharedIds === "alternate" ? `k${i % 2}` : `k${i}`;
      const content = (i: number): string => `<defs><linearGradient id="${key(i)}-g"><stop offset="0" stop-color="#${(i + 1).toString(16).padStart(6, "0")}"/></linearGradient><clipPath id="${key(i)}"><rect width="${W}" height="${H}"/></clipPath></defs><rect data-frame="${i}" x="0" y="0" width="${W}" height="${H}" fill="url(#${key(i)}-g)"/><path id="${key(i)}-p" d="M0 0h1"/><use data-use="${i}" href="#${key(i)}-p"/>`;
      const cfg = { width: W, height: H, loopFade: c.loopFade, background: c.background, frames: c.frames.map((f, i) => ({ svgContent: content(i), duration: f.d, ...(f.tr ? { transition: f.tr } : {}) })) } as any;
      const svg = generateAnimatedSvg(cfg);
      same(generateAnimatedSvg(cfg), svg, "generating the same animation twice");
      const root = parseXml(svg); const rep = idReport(root);
      ensure(rep.duplicates.length === 0, () => `duplicate ids ${show(rep.duplicates)}`); ensure(rep.dangling.length === 0, () => `unresolved references ${show(rep.dangling)}`); ensure(externalOrActive(root).length === 0, "external or active content");
      const pl = new Player(root); const box = { x: 0, y: 0, w: W, h: H }; const pr = new Probe(pl, root, () => box);
      const nodes = c.frames.map((_, i) => [...walk(root)].filter((e) => e.attrs.get("data-frame") === String(i)));
      nodes.forEach((m, i) => { ensure(m.length === 1, () => `frame ${i} is painted ${m.length} times`);
        const g = pr.ids.get(/url\(#(.*)\)/.exec(m[0].attrs.get("fill")!)![1])!; same(els(g)[0].attrs.get("stop-color"), `#${(i + 1).toString(16).padStart(6, "0")}`, `frame ${i}'s own gradient`);
        const u = [...walk(root)].find((e) => e.attrs.get("data-use") === String(i))!; const target = pr.ids.get(u.attrs.get("href")!.slice(1))!; ensure(target && target.parent === m[0].parent, () => `frame ${i} reuses another frame's path`);
      });
      const D = pl.durations(); D.forEach((d) => near(d, total, 6, () => `animation duration with frames ${show(adv)}`)); if (D.length === 0) return;
      const k = D[0] / total; // durations are printed in hundredths of a second
      const tol = total * 0.0013 + 1; // keyframe offsets are rounded to 0.01 %, slides are padded by 0.1 %
      const at = (ms: number): number => (ms + c.loops * total) * k;
      const probes: [number, number][] = [[0.02, 0.02], [0.98, 0.03], [0.03, 0.98], [0.97, 0.97], [0.5, 0.5], ...c.pts].map(([a, b]) => [a * W, b * H] as [number, number]);
      const alphas = (t: number, x: number, y: number): (number | null)[] => nodes.map(([nd]) => pr.alpha(nd, box, x, y, t));
      const cfgS = (): string => show(c.frames.map((f) => [f.d, f.tr]));
      // holds: exactly one frame, at rest, everywhere
      for (let i = 0; i < n; i++) {
        const a = starts[i] + tol, b = starts[i] + c.frames[i].d - tol; if (a >= b) continue;
        for (const q of [0, 0.5, 1]) {
          const ms = a + (b - a) * q, t = at(ms);
          for (const [x, y] of probes) { const al = alphas(t, x, y); al.forEach((v, j) => { if (v == null) return; if (j === i) near(v, 1, 0.02, () => `${cfgS()}: ${ms.toFixed(0)} ms is inside frame ${i}'s hold but it shows with opacity ${v} at (${x}, ${y})`); else near(v, 0, 0.02, () => `${cfgS()}: frame ${j} shows (opacity ${v}) during frame ${i}'s hold, at ${ms.toFixed(0)} of ${total} ms`); }); }
          const [X, Y] = apply(pl.ctm(nodes[i][0], t), W, H); near(X, W, W * 0.01, () => `${cfgS()}: frame ${i} is not at rest during its hold`); near(Y, H, H * 0.01, () => `${cfgS()}: frame ${i} is not at rest during its hold`);
        }
      }
      // hand-offs
      for (let i = 0; i + 1 < n; i++) {
        let r = ref(c.frames[i].tr); if (!r) continue;
        // docs/88 keeps the original slide→fade mix: the outgoing frame slides away while the incoming one fades in place
        const nt = c.frames[i + 1].tr, isLegacyFade = nt === undefined || (["crossfade", "magic-move", "zoom-in", "zoom-out", "shine"].includes(nt.type) && nt.duration > 0);
        if (r.label === "push" && c.frames[i].tr.type !== "push" && isLegacyFade) { ctx.label("push, then a fade"); r = { ...r, fadeIn: 0, move: { out: r.move!.out, rigid: false }, label: "push, then a fade" }; }
        const s = starts[i] + c.frames[i].d; const w = r.dur; if (w < tol * 6) { ctx.label("hand-off too short to probe"); continue; }
        const [out] = nodes[i], [inn] = nodes[i + 1];
        const order = [...walk(root)]; ensure(order.indexOf(out) < order.indexOf(inn), "the incoming frame must paint above the outgoing one");
        const what = (u: number): string => `${cfgS()}: hand-off ${i}→${i + 1} (${c.frames[i].tr?.type ?? "default"}) at ${(u * 100).toFixed(0)}%`;
        for (const u of c.us) {
          const ms = s + u * w, t = at(ms); const du = tol / w;
          if (ms < s + tol || ms > s + w - tol) continue;
          const oOut = pl.effectiveOpacity(out, t), oIn = pl.effectiveOpacity(inn, t);
          nodes.forEach(([nd], j) => { if (j !== i && j !== i + 1) near(pl.effectiveOpacity(nd, t), 0, 0.02, () => `${what(u)}: frame ${j} is visible`); });
          if (r.fadeIn == null) near(oIn, 1, 0.02, () => `${what(u)}: incoming opacity`); else { ensure(oIn >= r.fadeIn - 0.02 && oIn <= 1, () => `${what(u)}: incoming opacity ${oIn} outside [${r.fadeIn}, 1]`); if (r.fadeIn < 0.9) ensure(oIn < 1 - 0.0005 && oIn > r.fadeIn + 0.0005 || u < 3 * du || u > 1 - 3 * du || u > 0.85, () => `${what(u)}: incoming opacity is not fading (${oIn})`); }
          if (r.fadeOut == null) near(oOut, 1, 0.02, () => `${what(u)}: outgoing opacity`); else { ensure(oOut >= r.fadeOut - 0.02 && oOut <= 1, () => `${what(u)}: outgoing opacity ${oOut} outside [${r.fadeOut}, 1]`); if (r.fadeOut < 0.9) ensure(oOut < 1 - 0.0005 && oOut > r.fadeOut + 0.0005 || u < 3 * du || u > 1 - 3 * du || u > 0.85, () => `${what(u)}: outgoing opacity is not fading (${oOut})`); }
          if (r.sum) near(oOut + oIn, 1, 0.05 + 3 * du, () => `${what(u)}: outgoing + incoming opacity`);
          // geometry
          const mo = pl.ctm(out, t), mi = pl.ctm(inn, t);
          const exp = (m: typeof mo, sc: { f: number; o: [number, number] } | undefined, v: [number, number] | undefined, name: string): number | null => {
            // fit translate progress on the moving axis; scale must match sc
            const f = sc?.f ?? 1; const tx0 = sc ? sc.o[0] * W * (1 - f) : 0, ty0 = sc ? sc.o[1] * H * (1 - f) : 0;
            near(m[0], f, 0.02 + (sc ? 4 * du : 0), () => `${what(u)}: ${name} scale`);
            if (v == null) { near(m[4], W * (sc ? sc.o[0] * (1 - m[0]) : 0), 0.6, () => `${what(u)}: ${name} x offset`); near(m[5], H * (sc ? sc.o[1] * (1 - m[3]) : 0), 0.6, () => `${what(u)}: ${name} y offset`); return null; }
            const bx = sc ? sc.o[0] * W * (1 - m[0]) : 0, by = sc ? sc.o[1] * H * (1 - m[3]) : 0; void tx0; void ty0;
            const vx = v[0] * W, vy = v[1] * H; const q = Math.abs(vx) > Math.abs(vy) ? (m[4] - bx) / vx : (m[5] - by) / vy;
            near(m[4] - bx, q * vx, 0.6, () => `${what(u)}: ${name} strays from its path`); near(m[5] - by, q * vy, 0.6, () => `${what(u)}: ${name} strays from its path`);
            return q;
          };
          // scale of the incoming settles along the authored easing; the outgoing's course between its ends is free
          const f = r.ease ? r.ease(u) : u;
          const si = r.scaleIn ? { f: r.scaleIn.from + (1 - r.scaleIn.from) * f, o: r.scaleIn.o } : undefined;
          const qi = exp(mi, si, r.move?.in, "incoming");
          let so: any; if (r.scaleOut) { const g = (mo[0] - 1) / (r.scaleOut.to - 1); ensure(g > 0 && g < 1, () => `${what(u)}: outgoing scale ${mo[0]}`); so = { f: mo[0], o: r.scaleOut.o }; }
          const qo = exp(mo, so, r.move?.out, "outgoing");
          if (qo != null) ensure(qo > -0.02 && qo < 1.02 && (qo > 0.0005 || u < 3 * du), () => `${what(u)}: outgoing has moved ${qo} of its way`);
          if (qi != null) ensure(qi > -1.02 && qi < 0.02 && (qi < -0.0005 || u > 1 - 3 * du), () => `${what(u)}: incoming is ${qi} of its way from rest`);
          if (qo != null && qi != null && r.move!.rigid) near(qo - qi, 1, 0.03 + 3 * du, () => `${what(u)}: the two frames must move as one`);
          if (r.clip) {
            const e = (v: number): number => r!.ease!(Math.max(0, Math.min(1, v))); const dl = 2 * du + (r.cubic ? 0.03 : 0);
            const band = 0.03 + Math.max(Math.abs(e(u + dl) - f), Math.abs(e(u - dl) - f));
            for (const [x, y] of probes) {
              // undo the incoming layer's own movement: the reveal rides on it
              const ix = (x - mi[4]) / mi[0], iy = (y - mi[5]) / mi[3]; if (ix < 1 || iy < 1 || ix > W - 1 || iy > H - 1) continue;
              const want = revealed(r.clip, f, ix, iy, W, H, band + 2 / Math.min(W, H)); if (want == null || (want && r.move && r.scaleIn)) continue;
              const got = pr.clipDepth(inn, x, y, t); ensure((got > 0) === want, () => `${what(u)}: (${x.toFixed(1)}, ${y.toFixed(1)}) of ${W}×${H} should ${want ? "" : "not "}be uncovered yet`);
            }
          } else if (!r.label.startsWith("push") && !(r.move && r.scaleIn)) for (const [x, y] of probes) { const ix = (x - mi[4]) / mi[0], iy = (y - mi[5]) / mi[3]; if (ix < 1 || iy < 1 || ix > W - 1 || iy > H - 1) continue; ensure(pr.clipDepth(inn, x, y, t) > 0, () => `${what(u)}: incoming is clipped at (${x}, ${y})`); }
          // a rigid push never uncovers the background
          if (r.label === "push" && r.move!.rigid && Math.max(Math.abs(r.move!.in![0]), Math.abs(r.move!.in![1])) <= 1 && (r.move!.in![0] === 0 || r.move!.in![1] === 0)) for (const [x, y] of probes) { const slack = du * 4 * Math.max(W, H) + 2; const cov = [out, inn].some((nd) => { const m = pl.ctm(nd, t); return x >= m[4] - slack && x <= m[4] + W + slack && y >= m[5] - slack && y <= m[5] + H + slack; }); ensure(cov, () => `${what(u)}: nothing is shown at (${x}, ${y})`); }
        }
      }
      // after the last hold
      const last = n - 1; const rl = ref(c.frames[last].tr); const s = starts[last] + c.frames[last].d;
      const loops = c.loopFade === true || c.frames[last].tr?.custom?.loop === "crossfade-to-first";
      if (rl && !loops) for (const u of c.us) { const t = at(s + rl.dur * u); if (s + rl.dur * u > total - 1) continue; for (const [x, y] of probes) { const al = alphas(t, x, y); al.forEach((v, j) => { if (v != null) near(v, j === last ? 1 : 0, 0.02, () => `${cfgS()}: the last frame must hold to the end of the loop; frame ${j} shows ${v} at ${(s + rl.dur * u).toFixed(0)} of ${total} ms`); }); } }
      if (rl && loops && c.loopFade === true && rl.label === "crossfade" && rl.dur > tol * 6) { const [a, b] = [pl.effectiveOpacity(nodes[last][0], at(s + rl.dur * 0.2)), pl.effectiveOpacity(nodes[last][0], at(s + rl.dur * 0.8))]; ensure(a > b && b < 0.5 && a > 0.5, () => `${cfgS()}: with a looping fade the last frame must dissolve (${a} → ${b})`); ctx.label("loop fade"); }
      // canvas
      const bg = [...walk(root)].find((e) => e.name === "rect" && e.attrs.get("fill") === "#123456"); ensure((bg != null) === (c.background === "#123456"), "canvas background");
      if (bg) { same([Number(bg.attrs.get("width")), Number(bg.attrs.get("height"))], [W, H], "canvas background size"); for (const ms of [0, total / 2, total - 1]) ensure(pl.effectiveOpacity(bg, at(ms)) === 1, "canvas background visibility"); }
    } },
] });
