// Independent implementation of the ICRC-3 value hash, of LEB128, of CBOR decoding
// (the subset used by IC hash trees) and of IC hash-tree reconstruction.
import crypto from 'node:crypto';
import { hex, unhex } from './candid.mjs';
const te = new TextEncoder();
export const sha = (...parts) => { const h = crypto.createHash('sha256'); for (const p of parts) h.update(p); return h.digest(); };

export function leb(n) { n = BigInt(n); const o = []; do { let b = Number(n & 127n); n >>= 7n; if (n) b |= 128; o.push(b); } while (n); return Uint8Array.from(o); }
export function sleb(n) { n = BigInt(n); const o = []; for (;;) { const b = Number(n & 127n); n >>= 7n; if ((n === 0n && !(b & 64)) || (n === -1n && (b & 64))) { o.push(b); return Uint8Array.from(o); } o.push(b | 128); } }
export function unleb(u8) { let r = 0n, s = 0n; for (let i = 0; i < u8.length; i++) { r |= BigInt(u8[i] & 127) << s; s += 7n; if (u8[i] < 128) return { v: r, n: i + 1 }; } throw new Error('leb'); }

// v: the candid Value variant as decoded ({Map:[{0,1}..]}, {Nat}, {Int}, {Blob:hex}, {Text}, {Array}, {Nat64})
export function valueHash(v) {
  const tag = Object.keys(v)[0], x = v[tag];
  switch (tag) {
    case 'Nat': case 'Nat64': return sha(leb(x));
    case 'Int': return sha(sleb(x));
    case 'Blob': return sha(unhex(x));
    case 'Text': return sha(te.encode(x));
    case 'Array': return sha(...x.map(valueHash));
    case 'Map': {
      const ps = x.map((e) => Buffer.concat([sha(te.encode(e['0'])), valueHash(e['1'])]));
      ps.sort(Buffer.compare);
      return sha(...ps);
    }
    default: throw new Error('value ' + tag);
  }
}
// Map value -> plain object {key: value}; throws on duplicate keys
export function mapOf(v) {
  if (!v || !v.Map) throw new Error('not a Map');
  const o = {};
  for (const e of v.Map) { if (Object.hasOwn(o, e['0'])) throw new Error('duplicate key ' + e['0']); o[e['0']] = e['1']; }
  return o;
}

export function cborDecode(u8) {
  let p = 0;
  const num = (ai) => { if (ai < 24) return ai; if (ai === 24) return u8[p++]; if (ai === 25) { p += 2; return u8[p - 2] * 256 + u8[p - 1]; } if (ai === 26) { let r = 0; for (let i = 0; i < 4; i++) r = r * 256 + u8[p++]; return r; } if (ai === 27) { let r = 0; for (let i = 0; i < 8; i++) r = r * 256 + u8[p++]; return r; } throw new Error('cbor len'); };
  const item = () => {
    if (p >= u8.length) throw new Error('cbor eof');
    const ib = u8[p++], mt = ib >> 5, ai = ib & 31;
    if (mt === 0) return num(ai);
    if (mt === 1) return -1 - num(ai);
    if (mt === 2 || mt === 3) { const n = num(ai); const b = u8.subarray(p, p + n); if (b.length !== n) throw new Error('cbor eof'); p += n; return mt === 2 ? b : Buffer.from(b).toString(); }
    if (mt === 4) { const n = num(ai); const a = []; for (let i = 0; i < n; i++) a.push(item()); return a; }
    if (mt === 5) { const n = num(ai); const m = []; for (let i = 0; i < n; i++) { const k = item(); m.push([k, item()]); } return { map: m }; }
    if (mt === 6) { num(ai); return item(); }
    throw new Error('cbor type ' + mt);
  };
  const v = item();
  if (p !== u8.length) throw new Error('cbor trailing');
  return v;
}
const sep = (s) => { const b = te.encode(s); return Buffer.concat([Uint8Array.of(b.length), b]); };
// IC hash tree: [0] empty, [1,l,r] fork, [2,label,t] labeled, [3,leaf], [4,hash] pruned
export function treeRoot(t) {
  switch (t[0]) {
    case 0: return sha(sep('ic-hashtree-empty'));
    case 1: return sha(sep('ic-hashtree-fork'), treeRoot(t[1]), treeRoot(t[2]));
    case 2: return sha(sep('ic-hashtree-labeled'), t[1], treeRoot(t[2]));
    case 3: return sha(sep('ic-hashtree-leaf'), t[1]);
    case 4: if (t[1].length !== 32) throw new Error('pruned hash'); return Buffer.from(t[1]);
    default: throw new Error('tree node');
  }
}
export function treeLookup(t, label) {
  if (t[0] === 1) return treeLookup(t[1], label) ?? treeLookup(t[2], label);
  if (t[0] === 2 && Buffer.from(t[1]).toString() === label) { if (t[2][0] !== 3) throw new Error('not a leaf'); return t[2][1]; }
  return null;
}
// minicbor array(1) [bytes] memo of a withdrawal: 0x81 + byte string
export function withdrawMemo(principalHex) {
  const b = unhex(principalHex);
  const head = b.length < 24 ? [0x40 + b.length] : [0x58, b.length];
  return hex(Buffer.concat([Uint8Array.of(0x81, ...head), b]));
}
