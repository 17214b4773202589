#!/usr/bin/env python3
"""Development tool (no check uses it): makes seeded/<id>/ from bugs.py, confirms it, and runs checks against it.

  plant.py make ID...       write patch.diff, demo.sh, kit.tgz, meta.json
  plant.py confirm ID...    build + stable tests with the patch, demo with and without (all in /tmp/plant)
  plant.py try ID P...      run quick checks P... (or all) against the patched copy
"""
import json, os, re, shutil, subprocess, sys
from bugs import BUGS
V = "/verif"
W = os.environ.get("PLANT", "/tmp/plant")

DEMO = r'''#!/bin/bash
# Runs one history of the real canister code (compiled from the current directory) in a simulated world and looks at the facts at its end.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
s=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$s"' EXIT
tar xzf "$here/kit.tgz" -C "$s" || exit 2
. "$s/tools/env.sh"
export VERIF_REPO=$repo
( python3 "$s/tools/mkws.py" && cd "$s/mc" && cargo build --offline --bin %(bin)s ) >"$s/build.log" 2>&1 || { tail -30 "$s/build.log"; exit 2; }
mc=$CARGO_TARGET_DIR/debug/%(bin)s
bad=0
history() { "$mc" demo "$@" >"$s/facts" 2>&1 || { tail -5 "$s/facts"; bad=1; }; }
happens() { n=$(grep -cE -- "$2" "$s/facts"); [ "$n" = "$1" ] || { echo "expected $1 times, seen $n times: $2"; bad=1; }; }
distinct() { n=$(grep -E -- "$2" "$s/facts" | sort -u | wc -l); [ "$n" = "$1" ] || { echo "expected $1 different, seen $n: $2"; bad=1; }; }
%(body)s
exit $bad
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, **k)


def copy(dst):
    sh(f"rm -rf {dst} && mkdir -p {dst} && git -C /repo archive HEAD | tar x -C {dst} && cd {dst} && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x")


def edit(root, b):
    for f, old, new in b["edits"]:
        p = f"{root}/{f}"
        t = open(p).read()
        n = t.count(old)
        if n != 1:
            sys.exit(f"{f}: {n} matches of\n{old}")
        open(p, "w").write(t.replace(old, new))


def kit():
    os.makedirs(W, exist_ok=True)
    k = f"{W}/kit.tgz"
    if not os.path.exists(k) or "--kit" in sys.argv:
        sh(f"cd {V} && tar --sort=name --owner=0 --mtime='2026-01-01' --exclude=target -cf - tools/env.sh tools/mkws.py shims mc/Cargo.toml mc/Cargo.lock mc/src | gzip -n9 > {k}", check=True)
    return k


def make(i):
    b = BUGS[i]
    d = f"{W}/mk"
    copy(d)
    edit(d, b)
    out = f"{V}/seeded/{i}"
    os.makedirs(out, exist_ok=True)
    diff = subprocess.run(["git", "-C", d, "diff"], capture_output=True, text=True).stdout
    open(f"{out}/patch.diff", "w").write(diff)
    if b.get("demo"):
        open(f"{out}/demo.sh", "w").write(DEMO % dict(bin=b.get("bin", "mc"), body=b["demo"].strip()))
        os.chmod(f"{out}/demo.sh", 0o755)
        shutil.copy(kit(), f"{out}/kit.tgz")
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{out}/meta.json", "w"), indent=1)


def confirm(i):
    """demo with and without, in copies (cwd = the copy)"""
    r = {}
    for name, patched in (("clean", False), ("patched", True)):
        d = f"{W}/{i}-{name}"
        copy(d)
        if patched:
            edit(d, BUGS[i])
        p = sh(f"cd {d} && bash {V}/seeded/{i}/demo.sh", capture_output=True, text=True)
        r[name] = (p.returncode, (p.stdout + p.stderr)[-600:])
        sh(f"rm -rf {d}")
    good = r["clean"][0] == 0 and r["patched"][0] == 1
    print(i, "DEMO", "ok" if good else "BAD", r["clean"], r["patched"])


def workers():
    """a copy of /verif whose checks read $VERIF_REPO"""
    d = f"{W}/v"
    sh(f"mkdir -p {d} && cd {V} && for x in mc shims tools golden check.sh known-findings.txt; do rm -rf {d}/$x; cp -a $x {d}/; done")
    if not os.path.exists(f"{d}/build"):
        sh(f"cp -a {V}/build {d}/build")
    return d


def attempt(i, props):
    v = workers()
    d = f"{W}/try"
    copy(d)
    edit(d, BUGS[i])
    all_ = [p["id"] for p in map(json.loads, open(f"{V}/properties.jsonl")) if p["id"] != "H01"]
    caught = []
    for p in props or all_:
        r = sh(f"cd {v} && VERIF_REPO={d} bash check.sh {p} quick", capture_output=True, text=True)
        if r.returncode == 1:
            caught.append(p)
        elif r.returncode != 0:
            caught.append(f"{p}!{r.returncode}")
            if r.returncode == 2:
                print(r.stdout[-1500:])
                break
    want = BUGS[i]["property"]
    print(i, "want", want, "CAUGHT" if want in caught else "MISSED", "by", caught, flush=True)


cmd, *a = [x for x in sys.argv[1:] if not x.startswith("--")]
if cmd == "make":
    for i in a or BUGS:
        make(i)
elif cmd == "confirm":
    for i in a or BUGS:
        confirm(i)
elif cmd == "try":
    attempt(a[0], a[1:])
elif cmd == "tryall":
    for i in a or BUGS:
        attempt(i, [BUGS[i]["property"]])
elif cmd == "facts":
    # facts of one history, clean against patched
    v = workers()
    d = f"{W}/try"
    copy(d)
    edit(d, BUGS[a[0]])
    r = sh(f"cd {v} && VERIF_REPO={d} bash tools/build.sh", capture_output=True, text=True)
    if r.returncode:
        sys.exit(r.stdout[-3000:] + r.stderr[-3000:])
    import shlex
    q = " ".join(map(shlex.quote, a[1:]))
    sh(f"{V}/build/target/debug/mc demo {q} > {W}/f.clean 2>&1; {v}/build/target/debug/mc demo {q} > {W}/f.patched 2>&1; diff {W}/f.clean {W}/f.patched | cut -c1-400")
elif cmd == "auto":
    # finds a failing history with the property's own check, and shows the facts that differ
    import shlex
    v = workers()
    i = a[0]
    P = (a[1:] or [BUGS[i]["property"]])[0]
    d = f"{W}/try"
    copy(d)
    edit(d, BUGS[i])
    r = sh(f"cd {v} && VERIF_REPO={d} bash check.sh {P} quick", capture_output=True, text=True)
    if r.returncode != 1:
        sys.exit(f"{i}: not caught by {P} ({r.returncode})")
    j = json.load(open(f"{v}/build/replay/{P}.json"))
    args = [j["scenario"]] + j["demo"]
    q = " ".join(map(shlex.quote, args))
    print(i, P, j["violation"][:300])
    print("history", q)
    sh(f"{V}/build/target/debug/mc demo {q} > {W}/f.clean 2>&1; {v}/build/target/debug/mc demo {q} > {W}/f.patched 2>&1; diff {W}/f.clean {W}/f.patched | cut -c1-300 | grep -v 'minter info' | head -${{LINES:-14}}")
