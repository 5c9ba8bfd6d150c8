#!/usr/bin/env python3
"""mkseed.py ID PROPERTY NEEDS WHAT < edits: makes seeded/ID from a python edit script.

stdin: JSON {"edits": [[file, old, new], ...], "demo": "rust main.rs text", "deps": {"fall_tree": "fall/tree", ...}}
"""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(__file__))

DEMO = r'''#!/bin/bash
# Run with cwd = the repository, after the build. Builds a small program against it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
. /opt/vp/env.sh
cd "$repo"
dir=$(mktemp -d) || exit 2
trap 'rm -rf "$dir"' EXIT
mkdir "$dir/src"
cp "$here/demo.rs" "$dir/src/main.rs"
cp "$repo/Cargo.lock" "$dir/"
cat > "$dir/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
@DEPS@
EOF
export CARGO_TARGET_DIR=$dir/target CARGO_INCREMENTAL=0
cd "$dir"
cargo build --offline -q 2>build.log || { tail -20 build.log; exit 3; }
timeout 60 ./target/debug/demo
'''

def make(id, prop, needs, what, edits, demo, deps, seeded="/verif/seeded"):
    d = os.path.join(seeded, id)
    os.makedirs(d, exist_ok=True)
    diff = b""
    orig = {}
    for f, old, new in edits:
        p = "/repo/" + f
        s = orig.get(f) or [open(p).read()] * 2
        assert s[1].count(old) == 1, "%s: %d matches of %r" % (f, s[1].count(old), old)
        orig[f] = [s[0], s[1].replace(old, new)]
    import tempfile
    with tempfile.TemporaryDirectory() as t:
        for side, k in (("a", 0), ("b", 1)):
            for f, s in orig.items():
                q = os.path.join(t, side, f)
                os.makedirs(os.path.dirname(q), exist_ok=True)
                open(q, "w").write(s[k])
        diff = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a", "b"], cwd=t, stdout=subprocess.PIPE).stdout.decode()
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.rs", "w").write(demo)
    open(d + "/demo.sh", "w").write(DEMO.replace("@DEPS@", "\n".join('%s = { path = "$repo/%s" }' % kv for kv in deps.items())))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
