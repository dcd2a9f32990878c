"""newseed.py ID PROPERTY NEEDS BREAKS FILE OLD NEW MAIN_RS (all strings; FILE/OLD/NEW may be a JSON list of triples in FILE)"""
import sys, os, json, subprocess
def seed(id, prop, needs, breaks, edits, main):
    d = f"/verif/seeded/{id}"; os.makedirs(d, exist_ok=True)
    assert not subprocess.check_output(["git", "-C", "/repo", "status", "--porcelain"])
    try:
        for f, old, new in edits:
            p = "/repo/" + f; s = open(p).read(); assert s.count(old) == 1, (f, s.count(old)); open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", "/repo", "diff"])
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    open(d + "/patch.diff", "wb").write(diff)
    open(d + "/main.rs", "w").write(main)
    open(d + "/meta.json", "w").write(json.dumps(dict(property=prop, needs=needs, what_it_breaks=breaks), indent=1) + "\n")
    open(d + "/demo.sh", "w").write('''#!/bin/bash
# builds main.rs against the crate in the current directory; exit 0 iff the property holds on its input
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 1
trap 'rm -rf "$T"' EXIT
mkdir "$T/src" && cp "$D/main.rs" "$T/src/main.rs"
[ -f "$R/Cargo.lock" ] && cp "$R/Cargo.lock" "$T/Cargo.lock"
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[dependencies]\\nsymb_anafis = { path = "%s" }\\n[workspace]\\n' "$R" > "$T/Cargo.toml"
cd "$T" && cargo run -q --offline --target-dir "$T/target"
''')
