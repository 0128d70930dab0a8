// Small noise PNGs as data URIs, and a rasteriser (librsvg through sharp).
import { createRequire } from "node:module";
const sharp: any = createRequire("/repo/package.json")("sharp");
import { deflateSync, crc32 } from "node:zlib";
export function png(w: number, h: number, at: (x: number, y: number) => [number, number, number, number]): Buffer {
  const raw = Buffer.alloc((w * 4 + 1) * h);
  for (let y = 0; y < h; y++) for (let x = 0; x < w; x++) { const p = at(x, y), o = y * (w * 4 + 1) + 1 + x * 4; raw[o] = p[0]; raw[o + 1] = p[1]; raw[o + 2] = p[2]; raw[o + 3] = p[3]; }
  const chunk = (t: string, d: Buffer): Buffer => { const b = Buffer.alloc(12 + d.length); b.writeUInt32BE(d.length, 0); b.write(t, 4, "latin1"); d.copy(b, 8); b.writeUInt32BE(crc32(b.subarray(4, 8 + d.length)) >>> 0, 8 + d.length); return b; };
  const ihdr = Buffer.alloc(13); ihdr.writeUInt32BE(w, 0); ihdr.writeUInt32BE(h, 4); ihdr[8] = 8; ihdr[9] = 6;
  return Buffer.concat([Buffer.from([137, 80, 78, 71, 13, 10, 26, 10]), chunk("IHDR", ihdr), chunk("IDAT", deflateSync(raw)), chunk("IEND", Buffer.alloc(0))]);
}
export const noise = (seed: number, w: number, h: number): Buffer => { let s = (seed * 2654435761) >>> 0; const r = (): number => { s = (Math.imul(s, 1664525) + 1013904223) >>> 0; return s >>> 24; }; return png(w, h, () => [r(), r(), r(), 255]); };
export const dataUri = (b: Buffer): string => `data:image/png;base64,${b.toString("base64")}`;
export interface Raster { w: number; h: number; px: Buffer }
sharp.cache(false); sharp.concurrency(1);
export async function raster(svg: string | Buffer): Promise<Raster> {
  const { data, info } = await sharp(Buffer.from(svg as any), { unlimited: true } as any).ensureAlpha().raw().toBuffer({ resolveWithObject: true });
  return { w: info.width, h: info.height, px: data };
}
/** Number of pixels that differ by more than `tol` in a channel (premultiplied by alpha), and the first one. */
export function diff(a: Raster, b: Raster, tol: number): { n: number; at?: string; max: number } {
  if (a.w !== b.w || a.h !== b.h) return { n: a.w * a.h, at: `${a.w}x${a.h} vs ${b.w}x${b.h}`, max: 255 };
  let n = 0, at: string | undefined, max = 0;
  for (let i = 0; i < a.px.length; i += 4) {
    const fa = a.px[i + 3] / 255, fb = b.px[i + 3] / 255; let d = Math.abs(a.px[i + 3] - b.px[i + 3]);
    for (let k = 0; k < 3; k++) d = Math.max(d, Math.abs(a.px[i + k] * fa - b.px[i + k] * fb));
    if (d > max) max = d;
    if (d > tol) { n++; if (!at) { const p = i / 4; at = `(${p % a.w},${Math.floor(p / a.w)}): ${[...a.px.subarray(i, i + 4)]} vs ${[...b.px.subarray(i, i + 4)]}`; } }
  }
  return { n, at, max };
}
export { sharp };
