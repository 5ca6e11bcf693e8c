#!/usr/bin/env python3
"""Creates and confirms the planted bugs in /verif/seeded.

seed.py make FILE...   reads specs (python files that append dicts to SPECS) and writes seeded/<id>/
seed.py verify ID...   confirms in a scratch copy: applies, builds, stable tests pass,
                       demo.sh exits 0 without and nonzero with the patch
seed.py catch ID...    applies the patch in /repo, runs the quick check of its property
                       (or every check, with ALL=1), and undoes it straight afterwards
"""
import json, os, pathlib, shutil, subprocess, sys

V = pathlib.Path("/verif")
S = V / "seeded"
W = pathlib.Path("/tmp/seedwork")

DEMO = r'''#!/bin/bash
# Exit 0: the property holds in this run; nonzero: it does not. Run with cwd = repository root.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
w=$(mktemp -d /tmp/rstar-demo.XXXXXX) || exit 3
trap 'find "$w" -delete' EXIT
mkdir "$w/src" && cp "$here/main.rs" "$w/src/main.rs" || exit 3
cp "$repo/Cargo.lock" "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
rstar = { path = "$repo/rstar"@FEATURES@ }
@DEPS@
[profile.dev]
debug = "line-tables-only"
opt-level = 1
EOF
export CARGO_TARGET_DIR="$w/target"
cargo build --offline -q --manifest-path "$w/Cargo.toml" || exit 3
timeout 120 "$w/target/debug/demo"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def scratch():
    if not (W / "repo").exists():
        W.mkdir(parents=True, exist_ok=True)
        subprocess.check_call(["cp", "-a", "/repo", str(W / "repo")])
        t = open("/opt/vp/test.sh").read().replace("/repo", str(W / "repo"))
        (W / "test.sh").write_text(t)
    sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", cwd=W / "repo")
    return W / "repo"


def make(files):
    out = []
    for f in files:
        env = {"SPECS": []}
        exec(open(f).read(), env)
        for s in env["SPECS"]:
            if os.environ.get("ONLY") and s["id"] not in os.environ["ONLY"].split(","):
                continue
            r = scratch()
            for path, old, new in s["edits"]:
                p = r / "rstar/src" / path
                t = p.read_text()
                assert t.count(old) == 1, (s["id"], path, t.count(old), old)
                p.write_text(t.replace(old, new))
            d = S / s["id"]
            d.mkdir(parents=True, exist_ok=True)
            (d / "patch.diff").write_text(sh("git diff", cwd=r).stdout)
            feats = s.get("features")
            (d / "demo.sh").write_text(
                DEMO.replace("@FEATURES@", ", features = " + json.dumps(feats) if feats else "")
                .replace("@DEPS@", s.get("deps", "")))
            (d / "demo.sh").chmod(0o755)
            (d / "main.rs").write_text(s["demo"].lstrip("\n"))
            (d / "meta.json").write_text(json.dumps(
                {"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, indent=1) + "\n")
            out.append(s["id"])
    return out


def verify(ids):
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    ok = True
    for i in ids:
        r = scratch()
        d = S / i
        probs = []
        g = sh(f"bash {d}/demo.sh", cwd=r)
        if g.returncode != 0:
            probs.append("demo fails unpatched: " + g.stdout[-1500:])
        a = sh(f"git apply {d}/patch.diff", cwd=r)
        if a.returncode:
            probs.append("apply: " + a.stdout)
        t = sh(f"timeout 600 bash {W}/test.sh {W}/out.json", cwd=r)
        try:
            res = json.load(open(W / "out.json"))
            miss = sorted(stable - set(res["passed"]))
        except Exception as e:
            miss = [repr(e), t.stdout[-1500:]]
        if miss:
            probs.append("tests: " + "; ".join(miss))
        b = sh(f"bash {d}/demo.sh", cwd=r)
        if b.returncode in (0, 3):
            probs.append(f"demo exit {b.returncode} with the patch: " + b.stdout[-800:])
        print(("OK   " if not probs else "BAD  ") + i, b.stdout.strip().splitlines()[-1:] if not probs else probs, flush=True)
        ok &= not probs
        scratch()
    return ok


def catch(ids):
    for i in ids:
        d = S / i
        meta = json.load(open(d / "meta.json"))
        props = [meta["property"]]
        if os.environ.get("ALL"):
            props = [c["property"] for c in json.load(open(V / "MANIFEST.json"))["checks"]]
        assert sh("git -C /repo status --porcelain").stdout == ""
        assert sh(f"git -C /repo apply {d}/patch.diff").returncode == 0
        try:
            res = []
            for p in props:
                c = sh(f"timeout 900 ./check.sh {p} quick", cwd=V)
                v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
                res.append(f"{p}:{'CAUGHT' if c.returncode == 1 and v else 'rc=%d MISSED' % c.returncode}")
                if os.environ.get("SHOW"):
                    print(c.stdout[-1500:])
            if os.environ.get("ALL"):
                print(i, meta["property"], "caught by", [x.split(":")[0] for x in res if "CAUGHT" in x],
                      "odd", [x for x in res if "rc=" in x and "rc=0" not in x], flush=True)
            else:
                print(i, " ".join(res), flush=True)
        finally:
            sh("git -C /repo checkout -- .")


if __name__ == "__main__":
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == "make":
        ids = make(args)
        sys.exit(not verify(ids))
    elif cmd == "verify":
        sys.exit(not verify(args or sorted(p.name for p in S.iterdir() if p.is_dir())))
    elif cmd == "catch":
        catch(args or sorted(p.name for p in S.iterdir() if p.is_dir()))
