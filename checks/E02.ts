// E02: embedded images: every remote image a page uses is inlined (or reported once), within
// the time and attempt limits; resized copies keep the picture and enough resolution.
import { fc, runCheck, ensure, same, near } from "../lib/harness.ts";
import { el } from "../lib/tree.ts";
import { parseXml, walk } from "../lib/xml.ts";
import { png, dataUri, raster, sharp } from "../lib/png.ts";
import { embedRemoteImages, resizeEmbeddedImages, elementTreeToSvgInner, wrapSvg } from "/repo/src/index.ts";
import { _dataUriCache, _resizedDataUriCache, clearEmbeddedImageCaches, embedResizedDataUri } from "/repo/src/capture/embed.ts";

const EXT = [["", ""], [".png", "image/png"], [".jpg?w=3", "image/jpeg"], [".svg", "image/svg+xml"], ["/a%20b.webp#x", "image/webp"], [".PNG", "image/png"], [".svg?v=1.2", "image/svg+xml"], [".jpeg?from=http://y.example/z.png", "image/jpeg"], [".avif?a=b#c.gif", "image/avif"], [".gif?", "image/gif"]];
const U = (i: number, ext: number): string => `https://img${i % 3}.example/${i}${EXT[ext % EXT.length][0]}`;
const outcome = fc.oneof({ weight: 4, arbitrary: fc.record({ k: fc.constant("ok" as const), type: fc.constantFrom("image/png", "image/svg+xml; charset=utf-8", "text/html", "", "IMAGE/PNG"), fails: fc.nat({ max: 2 }), how: fc.constantFrom("500", "net", "503", "hang", "body") }) }, { weight: 2, arbitrary: fc.record({ k: fc.constantFrom("404" as const, "403" as const), type: fc.constant(""), fails: fc.constant(0), how: fc.constant("500") }) }, { weight: 2, arbitrary: fc.record({ k: fc.constantFrom("500" as const, "net" as const, "hang" as const, "body" as const), type: fc.constant(""), fails: fc.constant(0), how: fc.constant("500") }) });
const useA = fc.record({ url: fc.nat({ max: 5 }), where: fc.constantFrom("img", "pseudo", "backgroundImage", "maskImage", "borderImageSource", "listStyleImage", "local", "multi"), q: fc.constantFrom('"', "'", ""), depth: fc.nat({ max: 3 }) });
const BYTES = [0, 1, 2, 3, 4, 5].map((i) => Buffer.from(`payload-${i}-\u00ff`, "latin1"));
const css = (u: string, q: string): string => `url(${q}${u}${q})`;

const px = (seed: number, w: number, h: number): Buffer => png(w, h, (x, y) => [Math.round(255 * x / w), Math.round(255 * y / h), (seed * 60) % 256, 255]);
const SRC = [[40, 40], [200, 20], [20, 200], [96, 64], [8, 8], [150, 150]].map(([w, h], i) => ({ w, h, buf: px(i, w, h) }));
const means = async (uri: string): Promise<number[]> => { const { data } = await sharp(Buffer.from(uri.split(",")[1], "base64")).resize(4, 4, { fit: "fill", kernel: "cubic" }).removeAlpha().raw().toBuffer({ resolveWithObject: true }); return [...data]; };

await runCheck({ id: "E02", parts: [
  { name: "remote", rule: "trees using remote images as img, pseudo, background, mask, border and list images; a stand-in network answering, failing, hanging before or in the middle of the body, for a while or for ever; non-trivial = something was inlined and something failed",
    arb: fc.record({ uses: fc.array(useA, { minLength: 1, maxLength: 8, size: "max" }), ext: fc.array(fc.nat({ max: EXT.length - 1 }), { minLength: 6, maxLength: 6 }), out: fc.array(outcome, { minLength: 6, maxLength: 6 }), retries: fc.constantFrom(undefined, 0, 1, 2), again: fc.boolean() }), runs: { quick: 250, thorough: 6000 },
    prop: async (c, ctx) => {
      clearEmbeddedImageCaches(); const url = (i: number): string => U(i, c.ext[i]); const used = new Map<string, number>(), roots: any[] = []; let cur: any = null;
      for (const u of c.uses) {
        const s = url(u.url), s2 = url((u.url + 1) % 6); const o: any = { x: 1, y: 1, styles: {} }; if (u.where !== "local") used.set(s, u.url);
        if (u.where === "img") Object.assign(o, { tag: "img", imageSrc: s }); else if (u.where === "pseudo") o.pseudoImages = [{ url: s, x: 0, y: 0, width: 5, height: 5 }]; else if (u.where === "multi") { o.styles.backgroundImage = `linear-gradient(red, blue), ${css(s, u.q)}, ${css(s2, '"')}`; used.set(s2, (u.url + 1) % 6); } else if (u.where === "local") o.styles.backgroundImage = 'url("data:image/png;base64,AAAA")'; else o.styles[u.where] = css(s, u.q);
        const e = el(o); if (u.depth === 0 || !cur) { roots.push(e); } else cur.children.push(e); cur = e;
      }
      const tries = new Map<string, number>(); const budget = c.retries ?? 1; const T = 25; const saved = globalThis.fetch; const inflight = new Set<string>();
      (globalThis as any).fetch = async (u: any, init: any) => {
        const s = String(u); const i = [0, 1, 2, 3, 4, 5].find((k) => url(k) === s); ensure(i != null, `fetched ${s}, which the tree does not use`); ensure(!inflight.has(s), `${s} fetched twice at once`); inflight.add(s);
        try {
          const n = tries.get(s) ?? 0; tries.set(s, n + 1); const o = c.out[i!]; const how = o.k === "ok" ? (n < o.fails ? o.how : "ok") : o.k;
          const sig: AbortSignal | undefined = init?.signal; const hang = (): Promise<never> => new Promise((_, rej) => { const ab = (): void => { clearTimeout(tm); rej(Object.assign(new Error("aborted"), { name: "AbortError" })); }; const tm = setTimeout(() => { never = s; rej(new Error("NEVER-ABORTED")); }, 1200); if (sig?.aborted) ab(); sig?.addEventListener("abort", ab); });
          if (how === "net") throw new TypeError("fetch failed"); if (how === "hang") return await hang();
          const headers = new Headers(o.type ? { "content-type": o.type } : {});
          if (how === "body") return { ok: true, status: 200, headers, arrayBuffer: hang, body: null, bytes: hang, blob: hang } as any;
          if (how !== "ok") return { ok: false, status: Number(how), headers, arrayBuffer: async () => new ArrayBuffer(0) } as any;
          return { ok: true, status: 200, headers, arrayBuffer: async () => { const b = BYTES[i!]; return b.buffer.slice(b.byteOffset, b.byteOffset + b.length); } } as any;
        } finally { inflight.delete(s); }
      };
      const warnings: any[] = []; let never = "";
      try { await embedRemoteImages(roots, { warnings, timeoutMs: T, retryBackoffMs: 1, ...(c.retries != null ? { retries: c.retries } : {}) }); if (c.again) { const before = new Map(tries); await embedRemoteImages(roots, { warnings: [], timeoutMs: T, retryBackoffMs: 1, retries: 0 }); for (const [s, n] of before) if (_dataUriCache.has(s) && !warnings.some((w) => w.detail.includes(s + " "))) same(tries.get(s), n, `${s} fetched again although it is inlined`); for (const [s, n] of before) tries.set(s, n); } } finally { globalThis.fetch = saved; }
      ensure(never === "", `${never}: still waiting for a stalled answer long after the limit of ${T} ms`);
      let okN = 0, bad = 0;
      for (const [s, i] of used) {
        const o = c.out[i]; const good = o.k === "ok" && o.fails <= budget; const attempts = good ? o.fails + 1 : o.k === "404" || o.k === "403" ? 1 : budget + 1; const mine = warnings.filter((w) => w.detail.includes(`${s} `));
        same(tries.get(s), attempts, `attempts for ${s} (${o.k})`);
        if (good) { okN++; const d = _dataUriCache.get(s); ensure(d, `${s} was not inlined`); const m = /^data:([^;,]+);base64,(.*)$/.exec(d!); ensure(m, `not a data URI: ${d}`); ensure(Buffer.from(m![2], "base64").equals(BYTES[i]), "other bytes inlined"); if (o.type.startsWith("image/")) same(m![1], o.type.split(";")[0], "media type"); else if (EXT[c.ext[i]][1]) same(m![1], EXT[c.ext[i]][1], `media type from the name of ${s}`); same(mine.length, 0, `warnings about ${s}`); ensure(embedResizedDataUri(s, 10, 10) === d, "the renderer does not get the inlined image"); }
        else { bad++; ensure(!_dataUriCache.has(s) || c.again, `${s} failed, but is inlined`); same(mine.length, 1, `warnings about ${s}`); same(mine[0].feature, "remote-image", "warning"); if (o.k === "404" || o.k === "403" || o.k === "500") ensure(mine[0].detail.includes(o.k), `warning does not name the status: ${mine[0].detail}`); ensure(mine[0].selector !== "", "selector"); }
      }
      same(tries.size, used.size, "urls fetched"); same(warnings.length, bad, "warnings"); ctx.hit(okN > 0 && bad > 0); ctx.label(okN > 0 && "inlined", bad > 0 && "failed");
    } },
  { name: "resize", rule: "cached images of several shapes used at random sizes and pixel densities; non-trivial = an image was replaced by a smaller copy",
    arb: fc.record({ uses: fc.array(fc.record({ src: fc.nat({ max: 5 }), w: fc.integer({ min: 1, max: 120 }), h: fc.integer({ min: 1, max: 120 }), fit: fc.constantFrom("fill", "fill", "contain", "cover", "none"), bg: fc.constantFrom(false, false, true), frac: fc.boolean() }), { minLength: 1, maxLength: 5, size: "max" }), f: fc.constantFrom(undefined, 1, 2, 3, 0.5, 1.5), bad: fc.constantFrom(false, false, false, true) }), runs: { quick: 120, thorough: 4000 },
    prop: async (c, ctx) => {
      clearEmbeddedImageCaches(); const url = (i: number): string => `https://x.example/s${i}`; SRC.forEach((s, i) => _dataUriCache.set(url(i), dataUri(s.buf))); if (c.bad) _dataUriCache.set(url(0), "data:image/png;base64,AAAA");
      const orig = new Map(_dataUriCache); const f = Math.max(1, c.f ?? 2);
      const tree = c.uses.map((u, i) => { const w = u.w + (u.frac ? 0.4 : 0); return u.bg ? el({ x: 0, y: i * 130, width: w, height: u.h, styles: { backgroundImage: css(url(u.src), '"'), backgroundSize: "100% 100%" }, backgroundImageIntrinsic: undefined }) : el({ tag: "img", x: 0, y: i * 130, width: w, height: u.h, imageSrc: url(u.src), imageIntrinsic: { w: SRC[u.src].w, h: SRC[u.src].h }, styles: { objectFit: u.fit } }); });
      await resizeEmbeddedImages(tree, c.f == null ? {} : { hiDPIFactor: c.f });
      for (const [k, v] of orig) ensure(_dataUriCache.get(k) === v, "the source image was replaced");
      let smaller = 0;
      for (const u of c.uses) {
        if (u.src === 0 && c.bad) { ensure(embedResizedDataUri(url(0), u.w + (u.frac ? 0.4 : 0), u.h, c.f ?? 2) === orig.get(url(0)), "an undecodable image was not left alone"); continue; }
        const w = u.w + (u.frac ? 0.4 : 0), got = embedResizedDataUri(url(u.src), w, u.h, c.f ?? 2), s = SRC[u.src], src = orig.get(url(u.src))!;
        ensure(got.length <= src.length, "the resized copy is larger than the source");
        const m = await sharp(Buffer.from(got.split(",")[1], "base64")).metadata(); const tw = Math.ceil(w * f), th = Math.ceil(u.h * f);
        if (got !== src) { smaller++; ensure(m.width <= s.w && m.height <= s.h, "enlarged"); near(m.width / m.height, s.w / s.h, Math.max(s.w / s.h, 1) * (1 / Math.min(m.width, m.height) + 0.02), "aspect ratio"); }
        ensure(m.width >= Math.min(s.w, tw) && m.height >= Math.min(s.h, th), `${s.w}x${s.h} image painted at ${w}x${u.h} (${f} pixels per unit) was stored as ${m.width}x${m.height}`);
        if (s.w <= tw && s.h <= th) ensure(got === src, "an image already small enough was re-encoded");
        if (got !== src && Math.min(m.width, m.height) >= 6) { const a = await means(src), b = await means(got); a.forEach((v, i) => near(b[i], v, 26, `colour of cell ${i >> 2}`)); }
      }
      const snap = JSON.stringify([..._resizedDataUriCache].map(([k, v]) => [k, [...v]])); await resizeEmbeddedImages(tree, c.f == null ? {} : { hiDPIFactor: c.f }); ensure(JSON.stringify([..._resizedDataUriCache].map(([k, v]) => [k, [...v]])) === snap, "a second pass changed the copies");
      ctx.hit(smaller > 0); ctx.label(smaller > 0 && "resized", c.bad && "undecodable");
      // the rendered document paints the same with and without resized copies, and is self-contained
      const H = tree.length * 130, on = wrapSvg(elementTreeToSvgInner(tree as any, 140, H, "", true, f, false), 140, H); _resizedDataUriCache.clear(); const off = wrapSvg(elementTreeToSvgInner(tree as any, 140, H, "", true, f, false), 140, H);
      for (const e of walk(parseXml(on))) if (e.name === "image") ensure(e.attrs.get("href")!.startsWith("data:"), "image not inlined");
      if (!c.bad) { const A = await raster(on), B = await raster(off); let sum = 0; for (let i = 0; i < A.px.length; i++) sum += Math.abs(A.px[i] - B.px[i]); ensure(sum / A.px.length < 3, `mean difference ${sum / A.px.length} with resized images`); }
      clearEmbeddedImageCaches();
    } },
], assumptions: ["a stand-in network (fetch) with a real clock and 25 ms limits", "sharp as image reader"] });
