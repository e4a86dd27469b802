#!/usr/bin/env python3
"""mkseed.py SPEC.py : builds seeded/<id>/ from a spec (ID, PROP, NEEDS, BREAKS, EDITS, and RUN, REJECT or SH)
and confirms in a scratch copy that the demonstration separates the two trees and the stable tests pass.

EDITS: list of (file, old, new[, count]).  RUN: text of a main.rs that exits 0 iff right.
REJECT: (good, bad) texts of two programs of which the first compiles and the second must not.
SH: (script, {file: text}) for anything else."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = r'''#!/bin/bash
# run with cwd = the repository
R="$PWD"; H="$(cd "$(dirname "$0")" && pwd)"; D="$(mktemp -d)"; trap 'rm -rf "$D"' EXIT
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH" CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$D/target" RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER=
crate() { # name, main.rs
  mkdir -p "$D/$1/src"; cp "$R/Cargo.lock" "$D/$1/"; cp "$2" "$D/$1/src/main.rs"
  printf '[package]\nname = "%s"\nversion = "0.0.0"\nedition = "2024"\n[dependencies]\nwhippyunits = { path = "%s"FEATS }\nwhippyunits-core = { path = "%s/whippyunits-core" }\nEXTRA[profile.dev]\ndebug = 0\n[workspace]\n' "$1" "$R" "$R" > "$D/$1/Cargo.toml"
}
'''
ns = {}
exec(open(sys.argv[1], encoding="utf-8").read(), ns)
ID = ns["ID"]
out = os.path.join(V, "seeded", ID)
shutil.rmtree(out, ignore_errors=True)
os.makedirs(out)
sc = tempfile.mkdtemp(prefix="seed", dir="/tmp")
try:
    wt = os.path.join(sc, "wt")
    subprocess.run(["git", "-C", "/repo", "worktree", "prune"], check=True)
    subprocess.run(["git", "clone", "-q", os.environ.get("VREPO", "/repo"), wt], check=True)
    for e in ns["EDITS"]:
        p = os.path.join(wt, e[0])
        s = open(p, encoding="utf-8").read()
        n = e[3] if len(e) > 3 else 1
        assert s.count(e[1]) == n, (e[0], e[1], s.count(e[1]))
        open(p, "w", encoding="utf-8").write(s.replace(e[1], e[2]))
    d = subprocess.run(["git", "-C", wt, "diff"], stdout=subprocess.PIPE, check=True).stdout
    open(os.path.join(out, "patch.diff"), "wb").write(d)
    subprocess.run(["git", "-C", wt, "checkout", "-q", "--", "."], check=True)
    head = HEAD.replace("FEATS", ns.get("FEATS", "")).replace("EXTRA", ns.get("EXTRA", ""))
    if "RUN" in ns:
        open(os.path.join(out, "main.rs"), "w").write(ns["RUN"])
        sh = head + ns.get("PRE", "") + 'crate demo "$H/main.rs"; cd "$D/demo" && cargo run -q --offline\n'
    elif "REJECT" in ns:
        open(os.path.join(out, "good.rs"), "w").write(ns["REJECT"][0])
        open(os.path.join(out, "bad.rs"), "w").write(ns["REJECT"][1])
        sh = head + ('crate good "$H/good.rs"; crate bad "$H/bad.rs"\n(cd "$D/good" && cargo check -q --offline) || { echo "the control program does not compile"; exit 2; }\n'
                     '(cd "$D/bad" && cargo check -q --offline) && { echo "accepted a program that must be refused"; exit 1; }\nexit 0\n')
    else:
        for f, t in ns["SH"][1].items():
            open(os.path.join(out, f), "w").write(t)
        sh = head + ns["SH"][0]
    open(os.path.join(out, "demo.sh"), "w").write(sh)
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    json.dump(dict(property=ns["PROP"], needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]), open(os.path.join(out, "meta.json"), "w"), indent=1)
    demo = lambda: subprocess.run(["bash", os.path.join(out, "demo.sh")], cwd=wt, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    a = demo()
    subprocess.run(["git", "-C", wt, "apply", os.path.join(out, "patch.diff")], check=True)
    b = demo()
    print(ID, "unchanged:", a.returncode, "patched:", b.returncode)
    if a.returncode or not b.returncode:
        print(a.stdout.decode()[-2500:]); print("-----"); print(b.stdout.decode()[-2500:])
        sys.exit(1)
    print(b.stdout.decode()[-300:])
finally:
    shutil.rmtree(sc, ignore_errors=True)
if "--tests" in sys.argv:
    # the stable tests, in /repo itself (put back straight afterwards)
    try:
        subprocess.run(["git", "-C", "/repo", "apply", os.path.join(out, "patch.diff")], check=True)
        subprocess.run(["bash", "/tmp/regress.sh"])
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
