#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from the table below and confirms each planted bug in a scratch copy of /repo:
it compiles, the stable tests pass with it, its demo passes without it and fails with it.
usage: seed.py [id ...]"""
import json, os, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
from seeds import BUGS
REPO = "/repo"

DEMO = '''#!/bin/bash
# run with cwd = the parsegen checkout; everything happens in a scratch directory
exec python3 - "$(cd "$(dirname "$0")" && pwd)" <<'PY'
import os, shutil, subprocess, sys, tempfile
here, repo = sys.argv[1], os.getcwd()
KIND = %(kind)r
env = dict(os.environ, CARGO_NET_OFFLINE="true", RUST_BACKTRACE="0")
env.pop("CARGO_TARGET_DIR", None)
with tempfile.TemporaryDirectory() as d:
    os.mkdir(d + "/src")
    shutil.copy(here + "/main.rs", d + "/src/main.rs")
    open(d + "/Cargo.toml", "w").write(
        '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[dependencies]\\nparsegen = { path = "%%s" }\\n[workspace]\\n' %% repo)
    if os.path.exists(repo + "/Cargo.lock"):
        shutil.copy(repo + "/Cargo.lock", d + "/Cargo.lock")
    def cargo(args, timeout=100):
        try:
            p = subprocess.run(["cargo"] + args + ["--offline"], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, errors="replace", timeout=timeout)
            return p.returncode, p.stdout
        except subprocess.TimeoutExpired as e:
            subprocess.run(["pkill", "-KILL", "-f", d])
            return "timeout", ""
    def expanded(cfg=[]):
        open(d + "/src/main.rs", "a").write("\\n")
        p = subprocess.run(["cargo"] + cfg + ["rustc", "--offline", "--", "-Zunpretty=expanded"], cwd=d, env=dict(env, RUSTC_BOOTSTRAP="1"),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120)
        if p.returncode != 0:
            print(p.stderr[-2000:]); sys.exit(1)
        return " ".join(p.stdout.split())
    if KIND == "permute":
        # a hash function that starts from another value (it permutes every table) yields the same code
        outs = [expanded()]
        for k in range(1, 4):
            shutil.copytree(here + "/fxhash", d + "/fx%%d" %% k)
            f = d + "/fx%%d/lib.rs" %% k
            t = open(f).read()
            assert "AtomicUsize::new(0)" in t
            open(f, "w").write(t.replace("AtomicUsize::new(0)", "AtomicUsize::new(%%d)" %% (0x9e3779b97f4a7c15 * k %% 2**64)))
            t = open(d + "/Cargo.toml").read().split("[patch")[0]
            open(d + "/Cargo.toml", "w").write(t + '[patch.crates-io]\\nfxhash = { path = "fx%%d" }\\n' %% k)
            outs.append(expanded())
        print(len(set(outs)), "different expansions"); sys.exit(0 if len(set(outs)) == 1 else 1)
    if KIND == "twice":
        # the same grammar in two modules of one crate yields the same code
        t = expanded()
        a, b = t.split("mod a {")[1].split("mod b {")
        b = b.split("mod c {")[0]
        a, b = "".join(a.split()), "".join(b.split())
        print(a == b); sys.exit(0 if a == b else 1)
    rc, out = cargo(["build"])
    if KIND == "reject":
        # expansion must fail with a diagnostic of the macro
        ok = rc not in (0, "timeout") and "proc macro panicked" in out
        print(out[-1500:]); sys.exit(0 if ok else 1)
    if KIND == "finish":
        print(rc); sys.exit(1 if rc == "timeout" else 0)
    if KIND == "run_or_reject" and rc not in (0, "timeout") and "proc macro panicked" in out:
        sys.exit(0)
    if rc != 0:
        print(out[-3000:]); sys.exit(1)
    if KIND == "same":
        # expanding again yields the same code
        outs = {expanded() for _ in range(6)}
        print(len(outs), "different expansions"); sys.exit(0 if len(outs) == 1 else 1)
    try:
        p = subprocess.run([d + "/target/debug/demo"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=20)
        print(p.stdout[-2000:]); sys.exit(0 if p.returncode == 0 else 1)
    except subprocess.TimeoutExpired:
        print("timeout"); sys.exit(1)
PY
'''


def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def tests_ok(d):
    stable = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) or None
    env = dict(os.environ, CARGO_NET_OFFLINE="true")
    out = ""
    for k in ["--lib"], ["--test", "*"], ["--doc"]:
        try:
            p = run(["timeout", "100", "cargo", "test", "--workspace", *k, "--no-fail-fast", "--offline", "--", "--test-threads", "8"], d, env=env, timeout=320)
        except subprocess.TimeoutExpired:
            return False, "timeout"
        out += p.stdout
        if p.returncode != 0:
            return False, p.stdout[-1500:]
    return True, ""


def main():
    want = sys.argv[1:]
    d = tempfile.mkdtemp(prefix="seed_")
    r = os.path.join(d, "repo")
    subprocess.check_call(["cp", "-a", REPO, r])
    res = {}
    try:
        for b in BUGS:
            if want and b["id"] not in want or not b["main"] or not b["needs"] or b["needs"] == "x":
                continue
            run(["git", "checkout", "--", "."], r)
            out = os.path.join(VERIF, "seeded", b["id"])
            tmp = os.path.join(d, "demo")
            shutil.rmtree(tmp, ignore_errors=True)
            os.makedirs(tmp)
            open(tmp + "/demo.sh", "w").write(DEMO % {"kind": b.get("kind", "run")})
            os.chmod(tmp + "/demo.sh", 0o755)
            open(tmp + "/main.rs", "w").write(b["main"])
            if b.get("kind") == "permute":
                shutil.copytree(VERIF + "/engine/fxhash", tmp + "/fxhash")
            p0 = run(["bash", tmp + "/demo.sh"], r, timeout=400)
            for f, old, new in b["edits"]:
                p = os.path.join(r, f)
                s = open(p).read()
                if s.count(old) != 1:
                    print(b["id"], "ANCHOR", f, s.count(old), repr(old[:60])); break
                open(p, "w").write(s.replace(old, new))
            else:
                diff = run(["git", "diff"], r).stdout
                ok, why = tests_ok(r)
                p1 = run(["bash", tmp + "/demo.sh"], r, timeout=400)
                good = p0.returncode == 0 and ok and p1.returncode != 0
                print(b["id"], "OK" if good else "BAD", "demo-clean", p0.returncode, "tests", ok, "demo-bug", p1.returncode, flush=True)
                if not good:
                    print((why or (p0.stdout[-1500:] if p0.returncode else p1.stdout[-1500:]))[-500:])
                    continue
                open(tmp + "/patch.diff", "w").write(diff)
                json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(tmp + "/meta.json", "w"), indent=1)
                shutil.rmtree(out, ignore_errors=True)
                shutil.copytree(tmp, out)
    finally:
        shutil.rmtree(d, ignore_errors=True)


main()
