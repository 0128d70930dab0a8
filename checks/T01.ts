// T01: reading asciinema recordings and recording live sessions. Oracle: round trip.
import { fc, runCheck, ensure, same, show } from "../lib/harness.ts";
import { EventEmitter } from "node:events";
const { parseCast } = await import("/repo/src/terminal/cast.ts");
const { recordPtySession } = await import("/repo/src/terminal/pty.ts");

const data = fc.oneof(fc.string({ maxLength: 12 }), fc.string({ unit: "binary", maxLength: 6 }), fc.constantFrom("\x1b[31mred\x1b[0m\r\n", "80x24", "é\u2028\ud83c\udf89"));
const line = fc.oneof(
  { weight: 6, arbitrary: fc.tuple(fc.constant("o"), data) }, { weight: 2, arbitrary: fc.tuple(fc.constant("r"), fc.tuple(fc.nat(300), fc.nat(99)).map(([a, b]) => `${a}x${b}`)) },
  { weight: 1, arbitrary: fc.tuple(fc.constant("r"), fc.constantFrom("80", "x24", "80x", "80x24x2", "-3x4", "axb", "80,24", " 80 x 24 ")) },
  { weight: 2, arbitrary: fc.tuple(fc.constantFrom("i", "m", "x", ""), data) });
const junk = fc.constantFrom("{}", "[]", "[1]", '[1,"o"]', '["1","o","a"]', '[1,2,"a"]', '[1,"o",3]', "null", "3", '"o"', "[null,null,null]");
const num = fc.oneof(fc.double({ min: 0, max: 1e4, noNaN: true }), fc.integer({ min: 0, max: 500 }).map((x) => x / 100));
const caseA = fc.record({
  W: fc.integer({ min: 1, max: 500 }), H: fc.integer({ min: 1, max: 200 }), title: fc.option(fc.string(), { nil: undefined, freq: 2 }), extra: fc.boolean(), lead: fc.nat(2), crlf: fc.boolean(),
  evs: fc.array(fc.record({ dt: num, kd: line, junkBefore: fc.option(junk, { nil: undefined, freq: 5 }), extra: fc.boolean(), blank: fc.constantFrom(0, 0, 0, 1, 2), sp: fc.boolean() }), { maxLength: 12 }), cut: fc.option(fc.double({ min: 0.05, max: 0.95, noNaN: true }), { nil: undefined, freq: 3 }), nl: fc.boolean(),
});
const must = (f: () => unknown): string => { try { f(); return ""; } catch (e) { return e instanceof Error ? e.message || e.name : String(e); } };

await runCheck({ id: "T01", parts: [
  { name: "read", rule: "recordings of random output/resize/input/marker events with blank lines, foreign lines and a line cut off at the end; non-trivial = at least two kept events and one ignored or truncated line",
    arb: caseA, runs: { quick: 6000, thorough: 300000 },
    prop: (c, ctx) => {
      let t = 0; const want: any[] = [], rs: any[] = []; let ignored = 0; const nl = c.crlf ? "\r\n" : "\n";
      let s = nl.repeat(c.lead) + JSON.stringify({ ...(c.extra ? { env: { SHELL: "x" } } : {}), version: 2, width: c.W, height: c.H, ...(c.title != null ? { title: c.title } : {}), ...(c.extra ? { timestamp: 1 } : {}) }) + nl; let end = 0;
      for (const e of c.evs) {
        t += e.dt; if (e.junkBefore) { s += e.junkBefore + nl; ignored++; }
        s += JSON.stringify([t, e.kd[0], e.kd[1], ...(e.extra ? [1] : [])], null, e.sp ? undefined : undefined).replace(/^\[/, e.sp ? "[ " : "[") + nl + nl.repeat(e.blank);
        if (e.kd[0] === "o") { want.push({ time: t, data: e.kd[1] }); end = Math.max(end, t); }
        else if (e.kd[0] === "r") { const m = /^\s*(\d+)\s*x\s*(\d+)\s*$/.exec(e.kd[1]); if (m) { rs.push({ time: t, cols: Number(m[1]), rows: Number(m[2]) }); end = Math.max(end, t); } else ignored++; } else ignored++;
      }
      if (c.cut != null) { const l = JSON.stringify([t + 1, "o", "cut off in the middle"]); s += l.slice(0, Math.max(1, Math.floor(l.length * c.cut))); ignored++; } else if (!c.nl && c.evs.length) s = s.replace(/\s+$/, "");
      const r = parseCast(s); ctx.hit(want.length + rs.length >= 2 && ignored > 0); ctx.label(c.cut != null && "truncated", rs.length > 0 && "resizes", c.crlf && "CRLF");
      same(r.events, want, `${show(s)}: output events`); same(r.resizes, rs, `${show(s)}: resizes`);
      same([r.header.version, r.header.width, r.header.height, r.header.title], [2, c.W, c.H, c.title], "header"); same(r.duration, end, "duration");
    } },
  { name: "reject", rule: "arbitrary strings and damaged headers: a value or an error that says it is about the cast; non-trivial = the first line is JSON",
    arb: fc.oneof(fc.string(), fc.string({ unit: "binary" }), fc.tuple(fc.oneof(fc.jsonValue(), fc.record({ version: fc.constantFrom(1, 2, 3, "2", null, undefined), width: fc.constantFrom(80, "80", null, undefined), height: fc.constantFrom(24, "24", undefined) })), fc.array(fc.oneof(fc.jsonValue().map((v) => JSON.stringify(v)), fc.string()), { maxLength: 4 })).map(([h, l]) => [JSON.stringify(h), ...l].join("\n"))), runs: { quick: 4000, thorough: 200000 },
    prop: (s: string, ctx) => {
      const first = s.split("\n").find((l) => l.trim() !== ""); let h: any; let json = true; try { h = JSON.parse(first ?? ""); } catch { json = false; } ctx.hit(json);
      const ok = json && h != null && h.version === 2 && typeof h.width === "number" && typeof h.height === "number";
      const m = must(() => parseCast(s)); ctx.label(ok ? "accepted" : "rejected");
      ensure(ok ? m === "" : m.startsWith("cast:"), () => `${show(s)}: expected ${ok ? "acceptance" : "a cast error"}, got ${show(m)}`);
    } },
  { name: "live", rule: "a fake pseudo-terminal emits random chunks at random times while input arrives; the recording must replay the same chunks; non-trivial = at least two chunks and one keystroke",
    arb: fc.record({ cols: fc.integer({ min: 1, max: 300 }), rows: fc.integer({ min: 1, max: 100 }), steps: fc.array(fc.record({ dt: fc.integer({ min: 0, max: 4000 }), out: fc.boolean(), d: fc.oneof(fc.string({ minLength: 1, unit: "grapheme" }), fc.string({ minLength: 1, unit: "grapheme" }), fc.constantFrom("\x1b[2J", "\r\n", "\u0003", '"}\\n[')) }), { maxLength: 10 }), code: fc.integer({ min: 0, max: 255 }), cmd: fc.array(fc.string({ minLength: 1 }), { minLength: 1, maxLength: 3 }), tty: fc.boolean(), wasRaw: fc.boolean() }), runs: { quick: 1500, thorough: 40000 },
    prop: async (c, ctx) => {
      const outs = c.steps.filter((s) => s.out), ins = c.steps.filter((s) => !s.out); ctx.hit(outs.length >= 2 && ins.length >= 1);
      let now = 1.7e12 + 5; const real = Date.now; Date.now = () => now;
      try {
        let onData: any, onExit: any; const written: string[] = []; const echoed: string[] = []; let spawned: any;
        const pty = { spawn: (file: string, args: string[], o: any) => { spawned = { file, args, o }; return { onData: (f: any) => { onData = f; }, onExit: (f: any) => { onExit = f; }, write: (d: string) => { written.push(d); }, resize() {}, kill() {} }; } };
        const input: any = new EventEmitter(); input.isTTY = c.tty; input.isRaw = c.wasRaw; const raws: boolean[] = []; input.setRawMode = (b: boolean) => { raws.push(b); }; input.resume = () => {}; input.pause = () => {};
        const p = recordPtySession(c.cmd, { cols: c.cols, rows: c.rows, echo: { write: (d: string) => { echoed.push(d); return true; } } as any, input }, pty as any);
        const want: any[] = []; let t = 0;
        for (const s of c.steps) { now += s.dt; t += s.dt; if (s.out) { onData(s.d); want.push({ time: t / 1000, data: s.d }); } else input.emit("data", Buffer.from(s.d, "utf8")); }
        onExit({ exitCode: c.code });
        const r = await p;
        same([spawned.file, ...spawned.args], c.cmd, "command line"); same([spawned.o.cols, spawned.o.rows], [c.cols, c.rows], "pty size");
        same([r.exitCode, r.cols, r.rows], [c.code, c.cols, c.rows], "result"); same(echoed, outs.map((s) => s.d), "live echo"); same(written, ins.map((s) => s.d), "keystrokes");
        const k = parseCast(r.cast); same([k.header.width, k.header.height], [c.cols, c.rows], "recorded size");
        same(k.events.map((e: any) => e.data), want.map((e) => e.data), "recorded output"); k.events.forEach((e: any, i: number) => ensure(Math.abs(e.time - want[i].time) < 0.0015, () => `event ${i} recorded at ${e.time}, happened at ${want[i].time}`));
        if (c.tty) same(raws.at(-1), c.wasRaw, "terminal mode restored"); same(input.listenerCount("data"), 0, "input listeners left behind");
      } finally { Date.now = real; }
    } },
] });
