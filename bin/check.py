#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]

Decides one property of osa1/parsegen from /repo's current source:
 L1  weave extracts the functions under contract from /repo/src, Verus discharges every obligation;
 L2  replay: the real code is run on concrete grammars and inputs against an independent oracle, to
     give a failing input for a failed obligation, and as the bounded stand-in for functions outside
     the verifier's reach.
Exit 0: held; exit 1: VIOLATION line. Nothing else.
"""
import fcntl, json, os, re, subprocess, sys, threading, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PARSEGEN_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, os.path.join(VERIF, "engine"))
sys.path.insert(0, os.path.join(VERIF, "engine", "e2e"))
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTFLAGS="-Awarnings", RUST_BACKTRACE="0")
TABLE_PROPS = {"C01", "C02", "C05", "C07", "C09", "C15", "C04", "C10", "C11", "C12", "C13", "C14", "C16"}
E2E_PROPS = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C09", "C15"}
PATTERN_PROPS = {"C03", "C07", "C08"}
COMPILE_PROPS = {"C02", "C03", "C07", "C08", "C09", "C12"}
FEATURES = ["ast", "lowered", "first", "automaton", "table"]
CHUNKS = 7
T0 = time.time()


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, "." + name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)


def sh(cmd, cwd=None, timeout=600, env=None, limit=None):
    """run to completion; returns (rc, stdout, stderr); rc None on timeout"""
    pre = None
    if limit:
        import resource

        def pre():
            resource.setrlimit(resource.RLIMIT_AS, (limit, limit))
    p = subprocess.Popen(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                         errors="replace", start_new_session=True, preexec_fn=pre)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        import signal
        os.killpg(p.pid, signal.SIGKILL)
        o, e = p.communicate()
        return None, o, e


def watch(cmd, idle, total, limit=None, cwd=None, env=None):
    """run a driver that prints BEGIN lines; returns (rc or 'hang', lines)"""
    import resource, select, signal

    def pre():
        if limit:
            resource.setrlimit(resource.RLIMIT_AS, (limit, limit))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    p = subprocess.Popen(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                         start_new_session=True, preexec_fn=pre)
    fd = p.stdout.fileno()
    buf = b""
    start = last = time.time()
    rc = None
    while True:
        r, _, _ = select.select([fd], [], [], 1.0)
        if r:
            d = os.read(fd, 1 << 16)
            if not d:
                break
            buf += d
            last = time.time()
        if time.time() - last > idle or time.time() - start > total:
            rc = "hang" if time.time() - last > idle else "timeout"
            os.killpg(p.pid, signal.SIGKILL)
            break
    p.wait()
    return (rc if rc else p.returncode), buf.decode(errors="replace").splitlines()


# ---------------------------------------------------------------------------------- L1: the proof
def norm_fn(name):
    # c::first::FirstTable::add_first -> first::FirstTable::add_first
    n = re.sub(r"<[^<>]*>", "", name)
    return n.split("::", 1)[1] if "::" in n else n


def run_l1(out, with_=()):
    t = time.time()
    work = os.path.join(BUILD, "l1")
    os.makedirs(work, exist_ok=True)
    res = dict(ok=False, fns={}, failed=set(), woven=[], errors=[], dropped=[], messages={}, reason="", demoted=set(),
               smt_ms=0, cmd="", attempts=0, lemmas_failed=set())
    out.update(res=res)
    weave = os.path.join(VERIF, "weave/target/release/weave")
    with Lock("l1"):
        trust = set()
        for attempt in range(5):
            res["attempts"] = attempt + 1
            cmd = [weave, os.path.join(REPO, "src"), os.path.join(VERIF, "contracts"), os.path.join(VERIF, "verus/prelude.rs"),
                   os.path.join(work, "c.rs"), os.path.join(work, "c.json"), "--baseline", os.path.join(VERIF, "contracts/baseline.txt")]
            if with_:
                cmd += ["--with", ",".join(with_)]
            if trust:
                cmd += ["--trust", ",".join(sorted(trust))]
            rc, o, e = sh(cmd, timeout=120)
            if rc != 0:
                res["reason"] = "extraction failed: " + (e or "")[-1500:]
                break
            d = json.load(open(os.path.join(work, "c.json")))
            res["woven"], res["errors"], res["dropped"] = d["functions"], d["errors"], d["dropped"]
            vcmd = ["verus", "c.rs", "--output-json", "--time-expanded", "--multiple-errors", "3", "--triggers-mode", "silent",
                    "--num-threads", "8"]
            res["cmd"] = "weave /repo/src contracts verus/prelude.rs c.rs%s; " % (" --with " + ",".join(with_) if with_ else "") + " ".join(vcmd)
            rc, o, e = sh(vcmd, cwd=work, timeout=700)
            if rc is None:
                res["reason"] = "verifier ran out of time"
                break
            try:
                j = json.loads(o[o.index("{"):])
            except Exception:
                j = {}
            vr = j.get("verification-results", {})
            lines = open(os.path.join(work, "c.rs")).read().splitlines()
            msgs = split_errors(e)
            fns = {}
            for m in j.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
                for f in m.get("function-breakdown", []):
                    n = norm_fn(f["function"])
                    fns[n] = fns.get(n, True) and f["success"]
                    res["smt_ms"] += f.get("time", 0)
            if vr.get("encountered-vir-error") or (rc != 0 and not vr.get("errors")) or not fns:
                # outside the verifier's language: demote the functions the messages point at
                bad = set()
                unmapped = []
                for text, lns in msgs:
                    fs = {f["module"] + "::" + f["name"] for f in d["functions"] for l in lns if f["line"][0] <= l <= f["line"][1]}
                    if fs:
                        bad |= fs
                    else:
                        unmapped.append(text)
                res["reason"] = "outside the verifier's language: " + "; ".join(x[0].splitlines()[0] for x in msgs[:5])
                for text, lns in msgs[:20]:
                    for b in bad:
                        res["messages"].setdefault(b, []).append(text[:2000])
                if not bad - trust:
                    res["front"] = (e or "")[-3000:]
                    break
                trust |= bad
                res["demoted"] = set(trust)
                continue
            res["ok"] = True
            res["reason"] = ""
            res["fns"] = fns
            names = {f["module"] + "::" + f["name"] for f in d["functions"]}
            for n, s in fns.items():
                if not s:
                    (res["failed"] if n in names else res["lemmas_failed"]).add(n)
            for text, lns in msgs:
                for f in d["functions"]:
                    if any(f["line"][0] <= l <= f["line"][1] for l in lns):
                        res["messages"].setdefault(f["module"] + "::" + f["name"], []).append(text[:3000])
            # a proof may fail for want of solver effort or luck: once more, each function in a solver of its own
            again = sorted(n for n, s in fns.items() if not s)
            if again:
                mods = sorted({n.split("::")[0] for n in again})
                vcmd = ["verus", "c.rs", "--output-json", "--time-expanded", "--triggers-mode", "silent", "--num-threads", "8",
                        "--rlimit", "40", "-V", "spinoff-all"]
                for m in mods:
                    vcmd += ["--verify-module", m]
                rc, o, e = sh(vcmd, cwd=work, timeout=240)
                try:
                    j = json.loads(o[o.index("{"):]) if rc is not None else {}
                except Exception:
                    j = {}
                fns2 = {}
                for m in j.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
                    for f in m.get("function-breakdown", []):
                        n = norm_fn(f["function"])
                        fns2[n] = fns2.get(n, True) and f["success"]
                        res["smt_ms"] += f.get("time", 0)
                res["second_try"] = {n: bool(fns2.get(n)) for n in again}
                for n in again:
                    if fns2.get(n):
                        fns[n] = True
                        res["failed"].discard(n)
                        res["lemmas_failed"].discard(n)
                        res["messages"].pop(n, None)
            break
    res["wall"] = time.time() - t


def split_errors(err):
    out = []
    cur = None
    for l in err.splitlines():
        if re.match(r"error(\[|:)", l):
            cur = [l]
            out.append(cur)
        elif re.match(r"(warning|note)(\[|:)", l):
            cur = None
        elif cur is not None:
            cur.append(l)
    r = []
    for c in out:
        t = "\n".join(c)
        lns = [int(x) for x in re.findall(r"-->\s+\S*c\.rs:(\d+):", t)]
        r.append((t, lns))
    return r


# ---------------------------------------------------------------------------------- L2: replay
def cargo_err(stderr):
    return stderr[-4000:]


def build_tablecheck(notes):
    """returns (path, features) or (None, [])"""
    import mkgen
    with Lock("gen"):
        gen = os.path.join(BUILD, "gen")
        mkgen.mkgen(REPO, gen)
        d = os.path.join(VERIF, "engine/tablecheck")
        env = dict(ENV, CARGO_TARGET_DIR=os.path.join(BUILD, "target"))

        def b(fs):
            c = ["cargo", "build", "--offline", "--quiet"]
            if fs:
                c += ["--features", ",".join(fs)]
            return sh(c, cwd=d, env=env, timeout=400)
        binp = os.path.join(BUILD, "target/debug/tablecheck")
        rc, _, e = b(FEATURES)
        if rc == 0:
            return binp, FEATURES
        good = [f for f in FEATURES if b([f])[0] == 0]
        rc, _, e2 = b(good)
        if rc == 0:
            notes.append("probes left out, they no longer fit the code: " + ",".join(sorted(set(FEATURES) - set(good))))
            return binp, good
        notes.append("the generator could not be built as a library: " + cargo_err(e2)[-800:])
        mkgen.stub(gen)
        if b([])[0] == 0:
            return binp, None
        return None, []


def parse_lines(lines):
    finds, hashes, stats, begin, done = [], {}, [], [], False
    for l in lines:
        if l.startswith("FIND "):
            try:
                finds.append(json.loads(l[5:]))
            except Exception:
                finds.append(dict(property="?", grammar="", what=l))
        elif l.startswith("HASH "):
            _, n, h = l.split(" ")
            hashes[n] = h
        elif l.startswith("STATS "):
            stats.append(l[6:])
        elif l.startswith("BEGIN "):
            begin.append(l[6:])
        elif l == "DONE":
            done = True
    return finds, hashes, stats, begin, done


def run_table(binp, seed, n, huge, budget, finds, cov, notes, permute=False):
    """runs tablecheck, restarting after a hang or a crash; these are C14 findings"""
    frm = 0
    hashes = {}
    t = time.time()
    for _ in range(6):
        left = budget - (time.time() - t)
        if left < 5:
            notes.append("tablecheck stopped at its time budget")
            break
        rc, lines = watch([binp, "--seed", str(seed), "--n", str(n), "--from", str(frm), "--huge", "1" if huge else "0",
                           "--permute", "1" if permute else "0"],
                          45, left, limit=12 << 30)
        fs, hs, st, bg, done = parse_lines(lines)
        finds += fs
        hashes.update(hs)
        cov["grammars"] = cov.get("grammars", 0) + len(bg)
        cov.setdefault("table_stats", []).extend(st)
        cov.setdefault("samples", []).extend(bg[:2])
        if done or rc == "timeout":
            if not done:
                notes.append("tablecheck stopped at its time budget")
            break
        if not bg:
            notes.append("tablecheck did not start (%s)" % rc)
            break
        what = "expansion does not finish within 45 s" if rc == "hang" else "expansion crashes the compiler process (status %s: stack or memory exhausted)" % rc
        finds.append(dict(property="C14", grammar=bg[-1], what=what))
        frm = int(bg[-1].split(" ")[0]) + 1
    return hashes


def stats_sum(cov, lines):
    for s in lines:
        for k, v in re.findall(r"\"?(\w+)\"?: (\d+)", s):
            cov[k] = cov.get(k, 0) + int(v)


def build_e2e(binp, seed, n, finds, notes, stubbed):
    """emits and builds the end-to-end parsers; returns the target dir or None"""
    import mke2e
    dst = os.path.join(BUILD, "e2e")
    mke2e.mke2e(VERIF, REPO, dst, CHUNKS)
    skip = set()
    env = dict(ENV, CARGO_TARGET_DIR=os.path.join(BUILD, "target_e2e"))
    for _ in range(8):
        for _ in range(6):
            cmd = [binp, "--emit-e2e", os.path.join(dst, "src"), "--n", str(n), "--seed", str(seed), "--chunks", str(CHUNKS)]
            if skip:
                cmd += ["--skip", ",".join(map(str, sorted(skip)))]
            rc, lines = watch(cmd, 45, 300, limit=12 << 30)
            if rc == 0:
                break
            bg = [l for l in lines if l.startswith("BEGIN ")]
            if not bg:
                notes.append("end-to-end sources could not be made (%s)" % rc)
                return None
            i = int(bg[-1].split(" ")[1])
            finds.append(dict(property="C14", grammar="list index %d" % i, what="expansion hangs or crashes (%s)" % rc))
            skip.add(i)
        else:
            notes.append("end-to-end sources could not be made: expansion keeps hanging")
            return None
        rc, o, e = sh(["cargo", "build", "--offline", "--message-format=json", "--keep-going"], cwd=dst, env=env, timeout=500)
        if rc == 0:
            return os.path.join(BUILD, "target_e2e/debug")
        bad = {}
        repo_fails = False
        pattern_err = long_err = None
        for l in o.splitlines():
            if not l.startswith("{"):
                continue
            m = json.loads(l)
            if m.get("reason") != "compiler-message" or m["message"].get("level") != "error":
                continue
            tn = m["target"]["name"]
            msg = m["message"].get("rendered") or m["message"]["message"]
            if tn in ("parsegen", "rt", "oracle"):
                repo_fails = True
                notes.append("build of %s fails: %s" % (tn, msg[:500]))
                continue
            lns = []

            def spans(x):
                for s in x.get("spans", []):
                    y = s
                    while y:
                        if re.search(r"(chunk\d+|patterns|long)\.rs$", y["file_name"]):
                            lns.append((os.path.basename(y["file_name"]), y["line_start"]))
                        y = (y.get("expansion") or {}).get("span")
                for c in x.get("children", []):
                    spans(c)
            spans(m["message"])
            for f, ln in lns:
                if f == "long.rs":
                    long_err = msg
                    continue
                if f == "patterns.rs":
                    pattern_err = msg
                    continue
                src = open(os.path.join(dst, "src", f)).read().splitlines()
                for k in range(min(ln, len(src)) - 1, -1, -1):
                    x = re.search(r"// MODULE (\d+)", src[k])
                    if x:
                        bad.setdefault(int(x.group(1)), (msg, "\n".join(src[k:k + 40])))
                        break
        if repo_fails:
            return None
        if pattern_err:
            for p in sorted(PATTERN_PROPS):
                finds.append(dict(property=p, grammar="engine/e2e/patterns.rs", what="generated code does not compile: " + pattern_err[:1500]))
            open(os.path.join(dst, "src/patterns.rs"), "w").write('fn main() { println!("DONE") }')
        if long_err:
            for p in sorted(COMPILE_PROPS - {"C08"}):
                finds.append(dict(property=p, grammar="engine/e2e/long.rs", what="generated code does not compile: " + long_err[:1500]))
            open(os.path.join(dst, "src/long.rs"), "w").write('fn main() { println!("DONE") }')
        new = set(bad) - skip
        if not stubbed:
            for i in sorted(new)[:3]:
                for p in sorted(COMPILE_PROPS - {"C08"}):
                    finds.append(dict(property=p, grammar=bad[i][1][:3000], what="the generated parser does not compile: " + bad[i][0][:1500]))
        if not new and not pattern_err and not long_err:
            notes.append("end-to-end parsers do not build: " + (e or "")[-800:])
            return None
        skip |= new
    notes.append("end-to-end parsers do not build")
    return None


def run_bins(tgt, bins, seed, inputs, budget, finds, cov, notes):
    lock = threading.Lock()

    def one(b):
        frm = 0
        for _ in range(5):
            rc, lines = watch([os.path.join(tgt, b), "--from", str(frm), "--inputs", str(inputs), "--seed", str(seed)],
                              60, budget, limit=12 << 30)
            fs, _, st, bg, done = parse_lines(lines)
            with lock:
                finds.extend(fs)
                stats_sum(cov, st)
                cov["modules"] = cov.get("modules", 0) + len(bg)
                cov.setdefault("samples", []).extend(bg[:1])
            if done:
                return
            if rc == "timeout" or not bg:
                notes.append("%s stopped (%s)" % (b, rc))
                return
            what = ("a parse does not return (no result within 60 s)" if rc == "hang"
                    else "a parse brings the process down (status %s: stack or memory exhausted)" % rc)
            with lock:
                for p in (["C15"] if rc == "hang" else ["C15", "C07"]):
                    finds.append(dict(property=p, grammar=bg[-1], what=what))
            m = re.match(r"(\d+)", bg[-1])
            if not m:
                return
            frm = int(m.group(1)) + 1
    ts = [threading.Thread(target=one, args=(b,)) for b in bins]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


def run_l2(pid, tier, seed, out):
    finds, notes, cov = [], [], {}
    out.update(finds=finds, notes=notes, cov=cov)
    quick = tier == "quick"
    binp, feats = build_tablecheck(notes)
    if not binp:
        notes.append("replay engine unavailable")
        return
    stubbed = feats is None
    seeds = [seed] if quick else [seed + 1000 * k for k in range(4)]
    if pid in TABLE_PROPS and not stubbed:
        log("replay: generator stages against the oracle")
        for s in seeds:
            h1 = run_table(binp, s, 1000 if quick else 2500, pid == "C12" or (not quick and s == seed), 150 if quick else 300, finds, cov, notes, pid == "C16")
            if pid == "C16":
                # another process: another environment, directory, thread per expansion, and order of expansions
                other = {"PATH": "/nonexistent", "HOME": "/", "LANG": "tr_TR.UTF-8", "COLUMNS": "20", "RUST_BACKTRACE": "full", "DEBUG": "1",
                         "CARGO_PKG_NAME": "other", "CARGO_MANIFEST_DIR": "/", "OUT_DIR": "/tmp", "PROFILE": "release", "OPT_LEVEL": "3"}
                rc, lines = watch([binp, "--seed", str(s), "--n", str(1000 if quick else 2500), "--hash", "1"], 60, 150 if quick else 300,
                                  limit=12 << 30, cwd="/", env=other)
                h2 = parse_lines(lines)[1]
                cov["cross_process"] = cov.get("cross_process", 0) + len(set(h1) & set(h2))
                for k in h1:
                    if k in h2 and h1[k] != h2[k]:
                        finds.append(dict(property="C16", grammar=k, what="two processes expand the same grammar to different code (the second with another environment, directory, thread and order of expansions)"))
    if pid in E2E_PROPS or pid in PATTERN_PROPS:
        log("replay: generated parsers against the oracle")
        with Lock("e2e"):
            for s in seeds:
                tgt = build_e2e(binp, s, 120 if quick else 400, finds, notes, stubbed)
                if not tgt:
                    break
                bins = (["chunk%d" % i for i in range(CHUNKS)] + ["long"] if pid in E2E_PROPS else []) + (["patterns"] if pid in PATTERN_PROPS else [])
                run_bins(tgt, bins, s, 60 if quick else 500, 120 if quick else 160, finds, cov, notes)


# ---------------------------------------------------------------------------------- verdict
def known_findings():
    p = os.path.join(VERIF, "known-findings.txt")
    ks = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) match=/(.*)/ (.*)", l.strip())
            if m:
                ks.append((m.group(1), re.compile(m.group(2)), m.group(3)))
    return ks


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
        os.environ["VERIF_TIER"] = tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    props = json.load(open(os.path.join(VERIF, "contracts/properties.json")))
    pm = props["properties"][pid]
    l1, l2 = {}, {}
    errs = []

    def guard(f, *a):
        try:
            f(*a)
        except Exception:
            errs.append(traceback.format_exc())
    ts = []
    if pm.get("primary"):
        ts.append(threading.Thread(target=guard, args=(run_l1, l1, pm.get("with", ()))))
    ts.append(threading.Thread(target=guard, args=(run_l2, pid, tier, seed, l2)))
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        for e in errs:
            print(e)
    r = l1.get("res") or dict(ok=False, fns={}, failed=set(), woven=[], errors=[], dropped=[], messages={}, reason="not run", demoted=set(), smt_ms=0, cmd="", lemmas_failed=set())
    finds, notes, cov = l2.get("finds", []), l2.get("notes", []), l2.get("cov", {})
    if errs:
        notes.append("internal error: " + errs[0][-600:])

    # ---- L1 evaluation
    info = {f["module"] + "::" + f["name"]: f for f in r["woven"]}
    primary, deps = pm.get("primary", []), pm.get("deps", [])
    lemmas = pm.get("lemmas", [])

    def expand(ns):
        o = []
        for n in ns:
            if n.endswith("*"):
                o += sorted(x for x in set(info) | set(r["fns"]) if x.startswith(n[:-1]) and x not in o)
            elif n not in o:
                o.append(n)
        return o
    primary = expand(primary)
    # functions the property's theorem uses through their contracts: a changed one whose obligations
    # no longer hold leaves the property unproved, which is reported like a failure of a primary one
    links = [l for l in expand(pm.get("links", [])) if l not in primary]
    deps = links + [d for d in expand(deps) if d not in primary and d not in links]
    lemmas = [l for l in expand(lemmas) if l not in primary and l not in deps]
    status = {}
    helpers = {f["module"] for f in r["woven"] if f["kind"] == "newhelper"}
    unproved, alarms = [], []
    for n in primary + deps + lemmas:
        if not r["ok"]:
            status[n] = "not checked: " + r["reason"][:300]
            unproved.append(n)
        elif n in r["demoted"]:
            status[n] = "outside the verifier's language in this tree"
            unproved.append(n)
        elif n in r["failed"] or n in r["lemmas_failed"]:
            status[n] = "obligation failed"
            unproved.append(n)
            f = info.get(n)
            if (n in primary or n in links) and f and f["changed"] and not f["lost"] and not f["notes"] and f["module"] not in helpers and not r["errors"]:
                alarms.append(n)
        elif info.get(n, {}).get("kind") == "trusted":
            status[n] = "trusted"
        elif r["fns"].get(n):
            status[n] = "proved"
        elif n in info:
            status[n] = "proved" if info[n]["kind"] == "contracted" else info[n]["kind"]
            # functions without any proof obligation do not appear in the verifier's breakdown
        else:
            status[n] = "missing"
            unproved.append(n)

    for e in r["errors"]:
        # a function or type under contract is gone, or a type has lost a derived trait whose meaning is assumed
        status["extraction: " + e] = "not checked: the contracts no longer fit this tree"
        unproved.append("extraction: " + e)

    # ---- L2 evaluation
    ks = known_findings()
    mine = [f for f in finds if f["property"] == pid]
    fresh, known = [], {}
    for f in mine:
        for kp, rx, text in ks:
            if kp == pid and rx.search(f["grammar"] + " | " + f["what"]):
                known.setdefault(text, f)
                break
        else:
            fresh.append(f)
    viol = None
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    rp = os.path.join(rdir, "%s.json" % pid)
    failed_obl = [dict(function=n, status=status[n], verifier_output="\n".join(r["messages"].get(n, []))[:6000]) for n in unproved]
    if fresh:
        json.dump(dict(property=pid, kind="failing input on the real code", findings=fresh[:10], tier=tier, seed=seed,
                       failed_obligations=failed_obl[:10], rerun="VERIF_SEED=%d bin/check.py %s --tier %s" % (seed, pid, tier)), open(rp, "w"), indent=1)
        viol = "VIOLATION property=%s replay=%s" % (pid, rp)
    elif alarms:
        json.dump(dict(property=pid, kind="failed proof obligation, no failing input found",
                       failed_obligations=[x for x in failed_obl if x["function"] in alarms], also_unproved=[n for n in unproved if n not in alarms],
                       checker=r["cmd"], replayed=dict((k, v) for k, v in cov.items() if isinstance(v, int))), open(rp, "w"), indent=1)
        viol = "VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rp)
    elif os.path.exists(rp):
        os.remove(rp)

    # ---- report
    log("proof: %d obligations groups, %d proved, %d trusted, %d not proved; smt %.1f s; replay: %s" % (
        len(status), sum(s == "proved" for s in status.values()), sum(s == "trusted" for s in status.values()), len(unproved), r["smt_ms"] / 1000.0,
        json.dumps({k: v for k, v in cov.items() if isinstance(v, int)})))
    for n in unproved:
        print("UNPROVED %s: %s" % (n, status[n]))
        for m in r["messages"].get(n, [])[:2]:
            print("    " + "\n    ".join(m.splitlines()[:12]))
    if r["errors"]:
        print("EXTRACTION:", "; ".join(r["errors"][:10]))
    if unproved and not viol:
        print("NOTE the obligations above are not discharged on this tree; the bounded replay stands in for them (no failing input found)")
    for n in notes:
        print("NOTE", n)
    others = sorted({f["property"] for f in finds if f["property"] not in (pid, "TABLE")})
    if others:
        print("NOTE the replay also saw findings for", ",".join(others))
    for text in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, text))
    for f in fresh[:3]:
        print("FAILING INPUT:", f["grammar"][:600].replace("\\n", "\n"), "\n   ", f["what"][:600])

    # ---- evidence
    obl = [n for n in status if status[n] != "trusted" and status[n] not in ("demoted",)]
    trusted = [n for n in status if status[n] == "trusted"]
    int_cov = {k: v for k, v in cov.items() if isinstance(v, int)}
    bounded = dict(label="bounded, never counted as proved", role=pm.get("bounded", "gives a failing input for a failed obligation"),
                   counts=int_cov, samples=[s[:300] for s in cov.get("samples", [])[:5]], notes=notes[:10])
    level = pm.get("level", "proof")
    coverage = dict(
        obligations=len(obl), discharged=sum(status[n] == "proved" for n in obl),
        checker_cmd=r["cmd"] or "-",
        trusted_base=props["trusted_base"] + pm.get("trusted_base", []) + ["trusted contract: " + n for n in trusted],
        functions_under_contract=[n for n in status if n in info and status[n] == "proved"],
        lemmas=[n for n in status if n not in info and status[n] == "proved"],
        not_discharged={n: status[n] for n in unproved},
        back_end="Verus 0.2026.09.13 (Z3)", solver_ms=r["smt_ms"], theorem=pm.get("theorem", ""),
        bounded=bounded,
    )
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=coverage,
              assumptions=props["assumptions"] + pm.get("assumptions", []), wall_s=round(time.time() - T0, 1), violations=1 if viol else 0)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    if viol:
        print(viol)
        return 1
    print("OK property=%s" % pid)
    return 0


if __name__ == "__main__":
    sys.exit(main())
