"""helper: write /verif/seeded/<id>/ from (file, old, new) replacements and a demo program"""
import os, subprocess, json, sys, difflib
DEMO = '''#!/bin/bash
# exit 0: the property holds on this input; nonzero: it does not
. /opt/vp/env.sh 2>/dev/null
HERE=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap '/bin/rm -rf "$T"' EXIT
mkdir "$T/src"; cp "$HERE/demo.rs" "$T/src/main.rs"; cp /repo/Cargo.lock "$T/"
cat > "$T/Cargo.toml" <<'EOF'
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
xml_dom = { path = "/repo", default-features = false }
[workspace]
EOF
cd "$T" && CARGO_TARGET_DIR="$T/target" CARGO_INCREMENTAL=0 timeout 280 cargo run --offline -q
'''
PRE = '''#![allow(unused)]
use xml_dom::level2::convert::*;
use xml_dom::level2::ext::convert::*;
use xml_dom::level2::ext::dom_impl::*;
use xml_dom::level2::ext::options::*;
use xml_dom::level2::ext::*;
use xml_dom::level2::*;
'''
def seed(id, prop, edits, demo, needs, what, pre=PRE):
    d = '/verif/seeded/' + id
    os.makedirs(d, exist_ok=True)
    out = []
    byf = {}
    for f, a, b in edits: byf.setdefault(f, []).append((a, b))
    for f, es in byf.items():
        s = open('/repo/' + f).read(); t = s
        for a, b in es:
            if t.count(a) != 1: raise SystemExit('%s: %d matches in %s for %r' % (id, t.count(a), f, a))
            t = t.replace(a, b)
        out += ['diff --git a/%s b/%s\n' % (f, f)] + list(difflib.unified_diff(s.splitlines(1), t.splitlines(1), 'a/' + f, 'b/' + f))
    open(d + '/patch.diff', 'w').write(''.join(out))
    open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.rs', 'w').write(pre + demo)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': what}, open(d + '/meta.json', 'w'), indent=1)
    return id
