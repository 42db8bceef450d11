"""Development aid: writes /verif/seeded/<id>/ from an edit of a source file and a demonstration program."""
import json, os, subprocess, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Builds demo.rs against the repository in the current directory and runs it.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
export RUSTUP_TOOLCHAIN=1.70.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR
w="$(mktemp -d /tmp/h2demo.XXXXXXXX)" || exit 3
trap 'rm -rf "$w"' EXIT
mkdir "$w/src" && cp "$here/demo.rs" "$w/src/main.rs" && cp "$repo/Cargo.lock" "$w/Cargo.lock" || exit 3
cat >"$w/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
halo2_proofs = { path = "$repo/halo2_proofs", default-features = false, features = [%(pf)s] }
%(gd)s
pasta_curves = "0.5"
ff = "0.13"
group = "0.13"
rand = "0.8"
rand_core = "0.6"
[patch.crates-io]
%(patch)s
[profile.dev]
opt-level = 2
debug = 0
EOF
cd "$w" || exit 3
cargo build --offline >"$w/log" 2>&1 || { cat "$w/log"; exit 3; }
timeout %(timeout)d "$w/target/debug/demo"
'''
def seed(id, prop, edits, needs, breaks, demo, gadgets=False, poseidon=False, features=('batch','multicore'), timeout=200):
    """edits: {relative path: [(old, new), ...]}"""
    d = os.path.join(V, 'seeded', id); os.makedirs(d, exist_ok=True)
    out = ''
    for f, es in edits.items():
        src = open('/repo/' + f).read(); new = src
        for old, nw in es:
            assert new.count(old) == 1, (id, f, new.count(old), old)
            new = new.replace(old, nw)
        t = tempfile.mkdtemp()
        a, b = os.path.join(t, 'a', f), os.path.join(t, 'b', f)
        for p, s in ((a, src), (b, new)):
            os.makedirs(os.path.dirname(p)); open(p, 'w').write(s)
        r = subprocess.run(['git', 'diff', '--no-index', '--no-prefix', 'a/' + f, 'b/' + f], cwd=t, capture_output=True, text=True).stdout
        out += r
        shutil.rmtree(t)
    open(os.path.join(d, 'patch.diff'), 'w').write(out)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    open(os.path.join(d, 'demo.rs'), 'w').write(demo)
    gd = patch = ''
    if gadgets: gd += 'halo2_gadgets = { path = "$repo/halo2_gadgets", features = ["test-dependencies", "unstable-sha256-gadget"] }\n'
    if gadgets or poseidon:
        gd += 'halo2_poseidon = { path = "$repo/halo2_poseidon" }\n'
    patch = ''
    s = DEMO % {'pf': ', '.join('"%s"' % x for x in features), 'gd': gd, 'patch': patch, 'timeout': timeout}
    open(os.path.join(d, 'demo.sh'), 'w').write(s.replace('[patch.crates-io]\n\n', ''))
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
