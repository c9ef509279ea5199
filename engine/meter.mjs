// Work metering: rewrites a Wasm module so that a global counts every function entered and every
// loop iteration begun. Deterministic, unlike time; read as exports.__work.value.
const td = new TextDecoder();
export function meter(bytes) {
  bytes = new Uint8Array(bytes);
  let p = 8;
  const u = () => { let r = 0, s = 0, b; do { b = bytes[p++]; r += (b & 0x7f) * 2 ** s; s += 7; } while (b & 0x80); return r; };
  const skip = () => { while (bytes[p++] & 0x80); };
  const leb = (n) => { const o = []; do { const b = n % 128; n = Math.floor(n / 128); o.push(n ? b | 0x80 : b); } while (n); return o; };
  const name = () => { const n = u(); p += n; };
  const limits = () => { const f = bytes[p++]; skip(); if (f & 1) skip(); };
  const secs = [];
  while (p < bytes.length) { const id = bytes[p++], n = u(); secs.push({ id, at: p, end: p + n }); p += n; }
  const sec = (id) => secs.find((s) => s.id === id);
  let globals = 0;
  if (sec(2)) { p = sec(2).at; for (let k = u(); k > 0; k--) { name(); name(); switch (bytes[p++]) { case 0: skip(); break; case 1: p++; limits(); break; case 2: limits(); break; case 3: p += 2; globals++; break; case 4: p++; skip(); break; default: throw new Error('import kind'); } } }
  if (!sec(6) || !sec(7) || !sec(10)) throw new Error('sections missing');
  p = sec(6).at; const ng = u(), gBody = bytes.subarray(p, sec(6).end); const g = globals + ng;
  const tick = Uint8Array.from([0x23, ...leb(g), 0x42, 1, 0x7c, 0x24, ...leb(g)]);
  // ---- code ----
  p = sec(10).at; const nf = u(), funcs = []; const blockType = () => { const b = bytes[p]; if (b === 0x40 || (b >= 0x6f && b <= 0x7f)) p++; else skip(); };
  for (let k = 0; k < nf; k++) {
    const size = u(), end = p + size, parts = []; let from = p, len = 0;
    const put = (x) => { parts.push(x); len += x.length; };
    for (let l = u(); l > 0; l--) { skip(); p++; }
    put(bytes.subarray(from, p)); put(tick); from = p;
    while (p < end) {
      const op = bytes[p++];
      if (op === 0x03) { blockType(); put(bytes.subarray(from, p)); put(tick); from = p; } else if (op === 0x02 || op === 0x04) blockType();
      else if (op === 0x0c || op === 0x0d || op === 0x10 || op === 0x12 || (op >= 0x20 && op <= 0x26) || op === 0xd2) skip();
      else if (op === 0x0e) { for (let i = u(); i >= 0; i--) skip(); } else if (op === 0x11 || op === 0x13) { skip(); skip(); }
      else if (op === 0x1c) { for (let i = u(); i > 0; i--) p++; } else if (op >= 0x28 && op <= 0x3e) { skip(); skip(); }
      else if (op === 0x3f || op === 0x40 || op === 0xd0) p++; else if (op === 0x41 || op === 0x42) skip(); else if (op === 0x43) p += 4; else if (op === 0x44) p += 8;
      else if (op === 0xfc) { const s = u(); if (s === 8 || s === 10 || s === 12 || s === 14) { skip(); skip(); } else if (s > 8 && s < 18) skip(); else if (s >= 18) throw new Error('opcode fc ' + s); }
      else if (op > 0xc4 && op !== 0xd1) throw new Error('opcode ' + op.toString(16)); else if (op >= 0x06 && op <= 0x0a) throw new Error('opcode ' + op.toString(16));
    }
    if (p !== end) throw new Error('function ' + k + ' overran');
    put(bytes.subarray(from, end));
    funcs.push([leb(len), parts, len]);
  }
  const out = [bytes.subarray(0, 8)];
  const emit = (id, chunks) => { let n = 0; for (const c of chunks) n += c.length; out.push(Uint8Array.from([id, ...leb(n)]), ...chunks); };
  for (const s of secs) {
    if (s.id === 6) emit(6, [Uint8Array.from(leb(ng + 1)), gBody, Uint8Array.from([0x7e, 1, 0x42, 0, 0x0b])]);
    else if (s.id === 7) { p = s.at; const n = u(); emit(7, [Uint8Array.from(leb(n + 1)), bytes.subarray(p, s.end), Uint8Array.from([6, ...new TextEncoder().encode('__work'), 3, ...leb(g)])]); }
    else if (s.id === 10) emit(10, [Uint8Array.from(leb(nf)), ...funcs.flatMap(([l, parts]) => [Uint8Array.from(l), ...parts])]);
    else emit(s.id, [bytes.subarray(s.at, s.end)]);
  }
  return Buffer.concat(out);
}
void td;
