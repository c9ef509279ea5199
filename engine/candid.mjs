// A small Candid codec driven by .did text (the published interface, pinned in spec/).
// Values: nat/int/nat64/int64 -> BigInt; nat8/16/32 -> Number; text -> string;
// principal and vec nat8 -> lower-case hex string; opt -> null | value;
// record -> object; variant -> {Tag: payload | null}; func -> {principal, method}.

const enc = new TextEncoder(), dec = new TextDecoder('utf-8', { fatal: true });
export const hex = (u8) => Buffer.from(u8.buffer, u8.byteOffset, u8.byteLength).toString('hex');
export const unhex = (s) => new Uint8Array(Buffer.from(s, 'hex'));

export function idlHash(s) {
  let h = 0;
  for (const b of enc.encode(s)) h = (Math.imul(h, 223) + b) >>> 0;
  return h;
}

// ---------- .did parser ----------
export function parseDid(text) {
  const src = text.replace(/\/\*[\s\S]*?\*\//g, ' ').replace(/\/\/[^\n]*/g, ' ');
  const toks = src.match(/"[^"]*"|->|[A-Za-z_][A-Za-z0-9_]*|\d+|[{}();:=,.]/g) || [];
  let p = 0;
  const peek = () => toks[p], next = () => toks[p++];
  const expect = (t) => { const n = next(); if (n !== t) throw new Error(`did: expected ${t}, got ${n}`); };
  const prims = new Set(['nat', 'nat8', 'nat16', 'nat32', 'nat64', 'int', 'int8', 'int16', 'int32', 'int64',
    'text', 'bool', 'null', 'reserved', 'empty', 'principal']);
  const env = {};
  function fields(isVariant) {
    expect('{');
    const out = [];
    let auto = 0;
    while (peek() !== '}') {
      let t = peek();
      if (t.startsWith('"') || toks[p + 1] === ':' ) {
        let name = next();
        if (name.startsWith('"')) name = name.slice(1, -1);
        if (peek() === ':') { next(); const ty = type(); addField(out, name, ty); }
        else addField(out, name, { k: 'null' });
      } else if (isVariant) {
        addField(out, next(), { k: 'null' });
      } else {
        addField(out, String(auto), type());
      }
      auto++;
      if (peek() === ';') next();
    }
    expect('}');
    out.sort((a, b) => a.id - b.id);
    return out;
  }
  function addField(out, name, ty) {
    const id = /^\d+$/.test(name) ? Number(name) : idlHash(name);
    out.push({ name, id, t: ty });
  }
  function type() {
    const t = next();
    if (t === 'opt') return { k: 'opt', t: type() };
    if (t === 'vec') return { k: 'vec', t: type() };
    if (t === 'blob') return { k: 'vec', t: { k: 'nat8' } };
    if (t === 'record') return { k: 'record', f: fields(false) };
    if (t === 'variant') return { k: 'variant', f: fields(true) };
    if (t === 'func') return func();
    if (prims.has(t)) return { k: t };
    return { k: 'var', name: t };
  }
  function tuple() {
    expect('(');
    const out = [];
    while (peek() !== ')') {
      if (toks[p + 1] === ':') { next(); next(); }
      out.push(type());
      if (peek() === ',') next();
    }
    expect(')');
    return out;
  }
  function func() {
    const args = tuple();
    expect('->');
    const rets = tuple();
    const modes = [];
    while (['query', 'oneway', 'composite_query'].includes(peek())) modes.push(next());
    return { k: 'func', args, rets, modes };
  }
  let service = {}, init = [];
  while (p < toks.length) {
    const t = next();
    if (t === 'type') { const name = next(); expect('='); env[name] = type(); if (peek() === ';') next(); }
    else if (t === 'service') {
      if (peek() === ':') next();
      if (peek() === '(') { init = tuple(); expect('->'); }
      expect('{');
      while (peek() !== '}') {
        let name = next();
        if (name.startsWith('"')) name = name.slice(1, -1);
        expect(':');
        service[name] = func();
        if (peek() === ';') next();
      }
      expect('}');
      if (peek() === ';') next();
    } else if (t !== ';') throw new Error('did: unexpected ' + t);
  }
  return { env, service, init };
}

const PRIM = { null: -1, bool: -2, nat: -3, int: -4, nat8: -5, nat16: -6, nat32: -7, nat64: -8, int8: -9, int16: -10,
  int32: -11, int64: -12, float32: -13, float64: -14, text: -15, reserved: -16, empty: -17, principal: -24 };
const PRIMBY = Object.fromEntries(Object.entries(PRIM).map(([k, v]) => [v, k]));

// ---------- writer ----------
export class W {
  constructor() { this.b = new Uint8Array(256); this.n = 0; }
  need(k) { if (this.n + k > this.b.length) { const nb = new Uint8Array(Math.max(this.b.length * 2, this.n + k)); nb.set(this.b.subarray(0, this.n)); this.b = nb; } }
  u8(x) { this.need(1); this.b[this.n++] = x; }
  bytes(u) { this.need(u.length); this.b.set(u, this.n); this.n += u.length; }
  leb(x) { // Number or BigInt, non-negative
    if (typeof x === 'number') { while (x >= 128) { this.u8((x & 127) | 128); x = Math.floor(x / 128); } this.u8(x); return; }
    while (x >= 128n) { this.u8(Number(x & 127n) | 128); x >>= 7n; } this.u8(Number(x));
  }
  sleb(x) {
    x = BigInt(x);
    for (;;) {
      const b = Number(x & 127n); x >>= 7n;
      if ((x === 0n && !(b & 64)) || (x === -1n && (b & 64))) { this.u8(b); return; }
      this.u8(b | 128);
    }
  }
  le(x, n) { x = BigInt(x); for (let i = 0; i < n; i++) { this.u8(Number(x & 255n)); x >>= 8n; } }
  done() { return this.b.slice(0, this.n); }
}

export class Did {
  constructor(text) { Object.assign(this, parseDid(text)); this.cache = new Map(); }
  res(t) { while (t.k === 'var') { const n = this.env[t.name]; if (!n) throw new Error('did: unknown type ' + t.name); t = n; } return t; }

  header(types) {
    const table = [], idx = new Map();
    const ref = (t0) => {
      const t = this.res(t0);
      if (t.k in PRIM) return PRIM[t.k];
      if (idx.has(t)) return idx.get(t);
      const i = table.length; idx.set(t, i); table.push(null);
      const w = new W();
      if (t.k === 'opt') { w.sleb(-18); w.sleb(ref(t.t)); }
      else if (t.k === 'vec') { w.sleb(-19); w.sleb(ref(t.t)); }
      else if (t.k === 'record' || t.k === 'variant') {
        w.sleb(t.k === 'record' ? -20 : -21); w.leb(t.f.length);
        for (const f of t.f) { w.leb(f.id); w.sleb(ref(f.t)); }
      } else if (t.k === 'func') {
        const a = t.args.map(ref), r = t.rets.map(ref);
        w.sleb(-22); w.leb(a.length); a.forEach((x) => w.sleb(x)); w.leb(r.length); r.forEach((x) => w.sleb(x));
        w.leb(t.modes.length); t.modes.forEach((m) => w.u8(m === 'query' ? 1 : m === 'oneway' ? 2 : 3));
      } else throw new Error('enc type ' + t.k);
      table[i] = w.done();
      return i;
    };
    const refs = types.map(ref);
    const w = new W();
    w.bytes(enc.encode('DIDL')); w.leb(table.length); table.forEach((x) => w.bytes(x));
    w.leb(refs.length); refs.forEach((x) => w.sleb(x));
    return w.done();
  }

  encode(types, values) {
    const w = new W();
    let h = this.cache.get(types);
    if (!h) { h = this.header(types); this.cache.set(types, h); }
    w.bytes(h);
    types.forEach((t, i) => this.val(w, t, values[i]));
    return w.done();
  }
  val(w, t0, v) {
    const t = this.res(t0);
    switch (t.k) {
      case 'null': case 'reserved': return;
      case 'bool': w.u8(v ? 1 : 0); return;
      case 'nat': if (v < 0n) throw new Error('negative nat ' + v); w.leb(BigInt(v)); return;
      case 'int': w.sleb(v); return;
      case 'nat8': w.u8(Number(v)); return;
      case 'nat16': w.le(v, 2); return;
      case 'nat32': w.le(v, 4); return;
      case 'nat64': if (v < 0n || v > 0xffffffffffffffffn) throw new Error('nat64 out of range: ' + v); w.le(BigInt(v), 8); return;
      case 'int64': w.le(BigInt.asUintN(64, BigInt(v)), 8); return;
      case 'text': { const b = enc.encode(v); w.leb(b.length); w.bytes(b); return; }
      case 'principal': { const b = unhex(v); w.u8(1); w.leb(b.length); w.bytes(b); return; }
      case 'opt': if (v === null || v === undefined) w.u8(0); else { w.u8(1); this.val(w, t.t, v); } return;
      case 'vec':
        if (typeof v === 'string') { const b = unhex(v); w.leb(b.length); w.bytes(b); return; }
        w.leb(v.length); for (const x of v) this.val(w, t.t, x); return;
      case 'record':
        for (const f of t.f) { const x = Array.isArray(v) ? v[Number(f.name)] : v[f.name]; this.val(w, f.t, x); } return;
      case 'variant': {
        const tag = Object.keys(v)[0];
        const i = t.f.findIndex((f) => f.name === tag);
        if (i < 0) throw new Error('no variant tag ' + tag);
        w.leb(i); this.val(w, t.f[i].t, v[tag]); return;
      }
      default: throw new Error('enc ' + t.k);
    }
  }

  decode(types, bytes) {
    const r = new R(bytes);
    if (r.text(4) !== 'DIDL') throw new CandidError('bad magic');
    const n = r.lebn();
    if (n > 10000) throw new CandidError('type table too large');
    const table = [];
    for (let i = 0; i < n; i++) {
      const op = r.slebn();
      if (op === -18 || op === -19) table.push({ k: op === -18 ? 'opt' : 'vec', t: r.slebn() });
      else if (op === -20 || op === -21) {
        const m = r.lebn(), f = []; let last = -1;
        for (let j = 0; j < m; j++) { const id = r.lebn(); if (id <= last) throw new CandidError('field order'); last = id; f.push({ id, t: r.slebn() }); }
        table.push({ k: op === -20 ? 'record' : 'variant', f });
      } else if (op === -22) {
        const a = [], b = [], m = [];
        for (let c = r.lebn(); c > 0; c--) a.push(r.slebn());
        for (let c = r.lebn(); c > 0; c--) b.push(r.slebn());
        for (let c = r.lebn(); c > 0; c--) m.push(r.u8());
        table.push({ k: 'func', args: a, rets: b, modes: m });
      } else throw new CandidError('type op ' + op);
    }
    const argc = r.lebn(), at = [];
    for (let i = 0; i < argc; i++) at.push(r.slebn());
    const T = (x) => { if (x < 0) { const k = PRIMBY[x]; if (!k) throw new CandidError('prim ' + x); return { k }; } const t = table[x]; if (!t) throw new CandidError('tref ' + x); return t; };
    const ctx = { did: this, T, r, plans: new Map() };
    const out = [];
    for (let i = 0; i < argc; i++) {
      if (i < types.length) out.push(this.dec(ctx, T(at[i]), types[i]));
      else this.skip(ctx, T(at[i]));
    }
    for (let i = argc; i < types.length; i++) {
      const t = this.res(types[i]);
      if (t.k === 'opt' || t.k === 'null' || t.k === 'reserved') out.push(null); else throw new CandidError('missing value ' + i);
    }
    if (r.p !== bytes.length) throw new CandidError('trailing bytes');
    return out;
  }
  // decode a wire value of wire type `wt` at expected type `t0` (wt must be a subtype, strictly:
  // the "opt anything" fallback of the Candid spec is not taken, a mismatch is an error)
  dec(ctx, wt, t0) {
    const t = this.res(t0), r = ctx.r;
    switch (t.k) {
      case 'reserved': this.skip(ctx, wt); return null;
      case 'opt':
        if (wt.k === 'null' || wt.k === 'reserved') return null;
        if (wt.k === 'opt') { const f = r.u8(); if (f === 0) return null; if (f !== 1) throw new CandidError('opt tag'); return this.dec(ctx, ctx.T(wt.t), t.t); }
        return this.dec(ctx, wt, t.t);
      case 'vec': {
        if (wt.k !== 'vec') throw new CandidError(`expected vec, wire ${wt.k}`);
        const n = r.lebn(), et = this.res(t.t), ew = ctx.T(wt.t);
        if (et.k === 'nat8') { if (ew.k !== 'nat8') throw new CandidError('expected blob'); return hex(r.take(n)); }
        if (n > r.left() && !['null', 'reserved'].includes(ew.k) && !(ew.k === 'record' && !ew.f.length)) throw new CandidError('vec too long');
        const out = new Array(n); for (let i = 0; i < n; i++) out[i] = this.dec(ctx, ew, et); return out;
      }
      case 'record': {
        if (wt.k !== 'record') throw new CandidError(`expected record, wire ${wt.k}`);
        const out = {}; let j = 0; const F = t.f;
        for (const wf of wt.f) {
          while (j < F.length && F[j].id < wf.id) { this.absent(out, F[j]); j++; }
          if (j < F.length && F[j].id === wf.id) { out[F[j].name] = this.dec(ctx, ctx.T(wf.t), F[j].t); j++; }
          else this.skip(ctx, ctx.T(wf.t));
        }
        while (j < F.length) this.absent(out, F[j++]);
        return out;
      }
      case 'variant': {
        if (wt.k !== 'variant') throw new CandidError(`expected variant, wire ${wt.k}`);
        const i = r.lebn(); const wf = wt.f[i]; if (!wf) throw new CandidError('variant index');
        const f = t.f.find((x) => x.id === wf.id);
        if (!f) throw new CandidError('variant tag ' + wf.id + ' is not in the interface');
        return { [f.name]: this.dec(ctx, ctx.T(wf.t), f.t) };
      }
      case 'func': {
        if (wt.k !== 'func') throw new CandidError('expected func'); if (r.u8() !== 1) throw new CandidError('opaque func'); if (r.u8() !== 1) throw new CandidError('opaque');
        const p = hex(r.take(r.lebn())); return { principal: p, method: r.text(r.lebn()) };
      }
      case 'int': if (wt.k === 'nat') return r.leb(); if (wt.k !== 'int') throw new CandidError(`expected int, wire ${wt.k}`); return r.sleb();
      default:
        if (wt.k !== t.k) throw new CandidError(`expected ${t.k}, wire ${wt.k}`);
        return this.prim(r, t.k);
    }
  }
  absent(out, f) {
    const t = this.res(f.t);
    if (t.k === 'opt' || t.k === 'null' || t.k === 'reserved') out[f.name] = null;
    else throw new CandidError('missing field ' + f.name);
  }
  prim(r, k) {
    switch (k) {
      case 'null': case 'reserved': return null;
      case 'bool': { const b = r.u8(); if (b > 1) throw new CandidError('bool'); return b === 1; }
      case 'nat': return r.leb();
      case 'int': return r.sleb();
      case 'nat8': return r.u8();
      case 'nat16': return Number(r.le(2));
      case 'nat32': return Number(r.le(4));
      case 'nat64': return r.le(8);
      case 'int64': return BigInt.asIntN(64, r.le(8));
      case 'text': return r.text(r.lebn());
      case 'principal': { if (r.u8() !== 1) throw new CandidError('opaque principal'); const n = r.lebn(); if (n > 29) throw new CandidError('principal length'); return hex(r.take(n)); }
      default: throw new CandidError('prim ' + k);
    }
  }
  skip(ctx, wt) {
    const r = ctx.r;
    switch (wt.k) {
      case 'opt': if (r.u8()) this.skip(ctx, ctx.T(wt.t)); return;
      case 'vec': { const n = r.lebn(); const e = ctx.T(wt.t); for (let i = 0; i < n; i++) this.skip(ctx, e); return; }
      case 'record': for (const f of wt.f) this.skip(ctx, ctx.T(f.t)); return;
      case 'variant': { const f = wt.f[r.lebn()]; this.skip(ctx, ctx.T(f.t)); return; }
      case 'func': r.u8(); r.u8(); r.take(r.lebn()); r.take(r.lebn()); return;
      default: this.prim(r, wt.k);
    }
  }
}

export class CandidError extends Error {}
export class R {
  constructor(b) { this.b = b; this.p = 0; }
  left() { return this.b.length - this.p; }
  u8() { if (this.p >= this.b.length) throw new CandidError('eof'); return this.b[this.p++]; }
  take(n) { if (this.p + n > this.b.length) throw new CandidError('eof'); const s = this.b.subarray(this.p, this.p + n); this.p += n; return s; }
  text(n) { const b = this.take(n); try { return dec.decode(b); } catch { throw new CandidError('utf8'); } }
  lebn() { let r = 0, m = 1; for (;;) { const b = this.u8(); r += (b & 127) * m; if (b < 128) return r; m *= 128; if (m > 2 ** 50) throw new CandidError('leb too long'); } }
  leb() {
    let lo = 0, m = 1, n = 0;
    for (;;) { // fast path below 2^49
      const b = this.u8(); lo += (b & 127) * m; n++;
      if (b < 128) return BigInt(lo);
      m *= 128; if (n === 7) break;
    }
    let r = BigInt(lo), s = 49n;
    for (;;) { const b = this.u8(); r |= BigInt(b & 127) << s; if (b < 128) return r; s += 7n; }
  }
  sleb() { let r = 0n, s = 0n; for (;;) { const b = this.u8(); r |= BigInt(b & 127) << s; s += 7n; if (b < 128) { if (b & 64) r -= 1n << s; return r; } } }
  slebn() { return Number(this.sleb()); }
  le(n) { let r = 0n; const b = this.take(n); for (let i = n - 1; i >= 0; i--) r = (r << 8n) | BigInt(b[i]); return r; }
}

// The same arguments in another well-formed encoding: absent optional fields left out,
// present ones sent without the option, unknown fields added (bits 1, 2, 4).
export function encodeVariant(did, types, values, bits) {
  const go = (t0, v) => {
    const t = did.res(t0);
    if (t.k === 'opt') { if (v === null || v === undefined) return { t, v }; const x = go(t.t, v); return (bits & 2) ? x : { t: { k: 'opt', t: x.t }, v: x.v }; }
    if (t.k === 'record') {
      const f = [], out = {};
      for (const e of t.f) {
        const x = Array.isArray(v) ? v[Number(e.name)] : v[e.name], et = did.res(e.t);
        if (et.k === 'opt' && (x === null || x === undefined) && (bits & 1)) continue;
        const y = go(e.t, x); f.push({ ...e, t: y.t }); out[e.name] = y.v;
      }
      if (bits & 4) { for (const [id, et, ev] of [[3, { k: 'text' }, 'unknown'], [0xfffffff0, { k: 'opt', t: { k: 'nat' } }, 7n]]) if (!f.some((e) => e.id === id)) { f.push({ id, name: '?' + id, t: et }); out['?' + id] = ev; } f.sort((a, b) => a.id - b.id); }
      return { t: { k: 'record', f }, v: out };
    }
    return { t, v };
  };
  const xs = types.map((t, i) => go(t, values[i]));
  if (bits & 4) xs.push({ t: { k: 'nat' }, v: 5n });
  const w = new W();
  w.bytes(did.header(xs.map((x) => x.t))); xs.forEach((x) => did.val(w, x.t, x.v));
  return w.done();
}
