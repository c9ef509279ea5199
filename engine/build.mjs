// Build the canister Wasm from /repo's current working tree.
import { spawnSync } from 'node:child_process';
import fs from 'node:fs';
import zlib from 'node:zlib';
const ROOT = new URL('..', import.meta.url).pathname;
// The state format of the code this verification was written against: its Wasm, so that a history can
// begin under it and go on, after an upgrade, under the code that is in /repo now.
export const released = () => zlib.brotliDecompressSync(fs.readFileSync(ROOT + 'spec/released.wasm.br'));
export function build(flavors, pkgs = ['cycles-ledger']) {
  const B = process.env.VERIF_BUILD ?? ROOT + 'build';
  fs.mkdirSync(B, { recursive: true });
  const sh = (cmd, args, o) => { const r = spawnSync(cmd, args, { encoding: 'utf8', maxBuffer: 1 << 28, ...o }); if (r.status !== 0) throw new Error(`${cmd} ${args.join(' ')}\n${(r.stderr ?? '').split('\n').filter((l) => /error|-->|\|/.test(l)).slice(0, 40).join('\n') || r.stderr}`); };
  sh('python3', [ROOT + 'bin/overlay.py', B + '/ws']);
  const out = {};
  for (const f of flavors) {
    sh('cargo', ['build', '--offline', '--target', 'wasm32-unknown-unknown', '--profile', f, ...pkgs.flatMap((p) => ['-p', p]), '--target-dir', B + '/target'], { cwd: B + '/ws', env: { ...process.env, RUSTUP_TOOLCHAIN: '1.91.1', RUSTFLAGS: '-C link-arg=--export-table -C link-arg=--export=__stack_pointer', CARGO_NET_OFFLINE: 'true', CARGO_TARGET_DIR: '', CARGO_INCREMENTAL: process.env.VERIF_FAST ? '1' : '0' } });
    for (const p of pkgs) out[p === 'cycles-ledger' ? f : p + ':' + f] = `${B}/target/wasm32-unknown-unknown/${f}/${p}.wasm`;
  }
  return out;
}
