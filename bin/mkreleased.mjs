// Records the Wasm of /repo's current tree as spec/released.wasm.br: the code the 'released' histories begin under.
// Run by hand, on a tree whose state format is the one to stay compatible with; no check runs it.
import fs from 'node:fs'; import zlib from 'node:zlib';
import { build } from '../engine/build.mjs';
const b = fs.readFileSync(build(['vprel']).vprel);
const leb = (p) => { let v = 0, s = 0, n = 0; for (;;) { const x = b[p + n++]; v |= (x & 127) << s; if (x < 128) return [v >>> 0, n]; s += 7; } };
const keep = [b.subarray(0, 8)];
for (let p = 8; p < b.length;) { const id = b[p], [len, n] = leb(p + 1), end = p + 1 + n + len; if (id !== 0) keep.push(b.subarray(p, end)); p = end; }
const out = Buffer.concat(keep);
fs.writeFileSync(new URL('../spec/released.wasm.br', import.meta.url), zlib.brotliCompressSync(out, { params: { [zlib.constants.BROTLI_PARAM_QUALITY]: 11, [zlib.constants.BROTLI_PARAM_LGWIN]: 24, [zlib.constants.BROTLI_PARAM_SIZE_HINT]: out.length } }));
console.log(out.length);
