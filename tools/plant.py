#!/usr/bin/env python3
"""Confirms planted bugs in a scratch copy of /repo and keeps them in seeded/.

usage: plant.py SPECS.py [ID...]

SPECS.py defines BUGS: a list of dict(id, property, edits=[(file, old, new)],
demo=RUST SOURCE, needs, breaks). A demo exits 0 if the property holds.
"""
import json, os, shutil, subprocess, sys, runpy

WORK = "/tmp/plantwork"
SEEDED = "/verif/seeded"
DEMO = """#!/bin/bash
# Builds demo.rs against the built library, and runs it in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
out=$(mktemp -d) || exit 2
trap 'rm -rf "$out"' EXIT
rustc --edition 2021 -A warnings -L dependency=target/debug/deps --extern scribe=target/debug/libscribe.rlib "$here/demo.rs" -o "$out/demo" || exit 2
mkdir "$out/scratch"
cd "$out/scratch" && timeout 60 "$out/demo"
"""


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


ENV = ". /opt/vp/env.sh; cd %s; " % WORK


def reset():
    sh("git checkout -q -- . && git clean -qfd", WORK)


def build():
    return sh(ENV + "cargo build --workspace --offline 2>&1 | grep -E '^error' -A9; test ${PIPESTATUS[0]} = 0", WORK, executable="/bin/bash")


def tests():
    p = sh(ENV + "rm -f my_doc; cargo test --workspace --no-fail-fast --offline -- --test-threads 8; rm -f my_doc", WORK)
    out = sh(ENV + "rm -f my_doc; cargo test --workspace --no-fail-fast --offline -- --test-threads 8 2>&1 | grep -E '^test .* FAILED|^error|panicked|could not compile'; rm -f my_doc", WORK, executable="/bin/bash").stdout if "FAILED" in p.stdout or "error" in p.stdout else ""
    return out


def main():
    specs = runpy.run_path(sys.argv[1])["BUGS"]
    only = sys.argv[2:]
    if os.path.exists(WORK):
        shutil.rmtree(WORK)
    sh("cp -a /repo " + WORK, "/")
    reset()
    for b in specs:
        if only and b["id"] not in only:
            continue
        reset()
        d = os.path.join(SEEDED, b["id"])
        os.makedirs(d, exist_ok=True)
        open(d + "/demo.rs", "w").write(b["demo"].lstrip("\n"))
        open(d + "/demo.sh", "w").write(DEMO)
        os.chmod(d + "/demo.sh", 0o755)
        bad = None
        build()
        p = sh(d + "/demo.sh", WORK)
        if p.returncode != 0:
            bad = "demo fails on the unchanged tree: " + p.stdout[-1500:]
        if not bad:
            for f, old, new in b["edits"]:
                path = os.path.join(WORK, f)
                s = open(path).read()
                if s.count(old) != 1:
                    bad = "%d matches in %s for %r" % (s.count(old), f, old)
                    break
                open(path, "w").write(s.replace(old, new))
        if not bad:
            diff = sh("git diff", WORK).stdout
            open(d + "/patch.diff", "w").write(diff)
            p = build()
            if p.returncode != 0:
                bad = "does not build: " + p.stdout[-1500:]
        if not bad:
            p = sh(d + "/demo.sh", WORK)
            if p.returncode == 0 or p.returncode == 2:
                bad = "demo passes with the patch (%d)" % p.returncode + p.stdout[-800:]
        if not bad:
            t = tests()
            if t:
                bad = "tests: " + t[:800]
        if bad:
            print(b["id"], "REJECTED:", bad, flush=True)
            shutil.rmtree(d)
            continue
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
        print(b["id"], "kept", flush=True)
    shutil.rmtree(WORK)


main()
