#!/usr/bin/env python3
"""usage: overlay.py DST

Writes DST: a copy of the /repo workspace in which the one dependency that
cannot be fetched here (ic-canisters-http-types) is the stand-in of /verif/stubs and the
dev-dependencies are gone (no test is built from here). The manifests and the lock file
are derived from /repo's on every run."""
import os, re, shutil, sys

REPO = os.environ.get("VP_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STUB = HERE + "/stubs/ic-canisters-http-types"
MISSING = "ic-canisters-http-types"
dst = sys.argv[1]
members = sorted(
    d for d in os.listdir(REPO)
    if d not in ("target", ".git") and os.path.isfile(f"{REPO}/{d}/Cargo.toml")
)

def read(p):
    with open(p, encoding="utf-8") as f:
        return f.read()

def write(p, text):
    if not os.path.isfile(p) or read(p) != text:
        with open(p, "w", encoding="utf-8") as f:
            f.write(text)

def copy(src, d, skip):
    """Mirror src into d by content: a file is rewritten (and so rebuilt) exactly when its
    content differs, whatever its time stamp says."""
    if os.path.islink(d) or os.path.isfile(d):
        os.unlink(d)
    os.makedirs(d, exist_ok=True)
    want = {n for n in os.listdir(src) if n not in skip}
    for n in os.listdir(d):
        if n in want or n in skip:
            continue
        p = os.path.join(d, n)
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p)
        else:
            os.unlink(p)
    for n in want:
        p, t = os.path.join(d, n), os.path.join(src, n)
        if os.path.isdir(t):
            copy(t, p, {"target", ".git"})
            continue
        if not os.path.isfile(t):
            continue
        with open(t, "rb") as f:
            new = f.read()
        if os.path.islink(p):
            os.unlink(p)
        if os.path.isdir(p):
            shutil.rmtree(p)
        if os.path.isfile(p):
            with open(p, "rb") as f:
                if f.read() == new:
                    continue
        with open(p, "wb") as f:
            f.write(new)

copy(REPO, dst, {"Cargo.toml", "Cargo.lock", "target", ".git", ".cargo", *members})
profiles = '''
[profile.vprel]
inherits = "release"
lto = "thin"
opt-level = 2
panic = "abort"
debug = 0
strip = "none"
codegen-units = 8

[profile.vpchk]
inherits = "release"
lto = "off"
opt-level = 1
panic = "abort"
debug = 0
strip = "none"
codegen-units = 8
overflow-checks = true
debug-assertions = true
'''
if os.environ.get("VERIF_FAST"):  # bin/mutants.py: quick builds
    profiles = profiles.replace('"thin"', '"off"').replace("opt-level = 2", "opt-level = 1").replace("codegen-units = 8", "codegen-units = 16")
write(dst + "/Cargo.toml", read(REPO + "/Cargo.toml") + profiles)
for m in members:
    copy(f"{REPO}/{m}", f"{dst}/{m}", {"Cargo.toml", "target"})
    text = read(f"{REPO}/{m}/Cargo.toml")
    text = re.sub(rf"(?m)^{MISSING}\s*=.*\n", f'{MISSING} = {{ path = "{STUB}" }}\n', text)
    write(f"{dst}/{m}/Cargo.toml", text)

# The lock file: same versions; the git package becomes a path package.
blocks = read(REPO + "/Cargo.lock").split("\n\n")
out = []
for b in blocks:
    if f'name = "{MISSING}"' in b:
        b = f'[[package]]\nname = "{MISSING}"\nversion = "0.9.0"\ndependencies = [\n "candid",\n "serde",\n "serde_bytes",\n]'
    out.append(b)
write(dst + "/Cargo.lock", "\n\n".join(out))
