#!/usr/bin/env python3
"""run.py PROPERTY [--keep]: decide one property by symbolic execution.

Builds the engine and the property's harness from /repo's current tree, runs
every entry `h_<property>_*` of the harness in the engine (sharded over the
cores), replays sampled paths and every counterexample natively, and writes
evidence/<PROPERTY>.json.  Exit 0 held, 1 violated (VIOLATION line), 2 error or
no answer.
"""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
B = os.path.join(V, "build")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
T0 = time.time()
NCPU = os.cpu_count() or 4
STOP = []  # when set: the time after which runs still going are ended
LIMIT = 840 if TIER == "quick" else 6 * 3600
CHECKS = json.load(open(os.path.join(V, "tools", "checks.json")))


def env(crate):
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="1.72", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(B, crate), CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", RUSTFLAGS="", CARGO_INCREMENTAL="0")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    return e


def die(msg):
    print("ERROR", msg[:4000], flush=True)
    sys.exit(2)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def stamp(files):
    h = hashlib.sha256()
    for f in sorted(files):
        h.update(f.encode())
        h.update(open(f, "rb").read())
    return h.hexdigest()


def build_engine():
    src = [os.path.join(V, "engine", f) for f in os.listdir(os.path.join(V, "engine"))] + [os.path.join(V, "tools", "native.c")]
    s, mark = stamp(src), os.path.join(B, "engine.stamp")
    if os.path.exists(mark) and open(mark).read() == s and os.path.exists(os.path.join(B, "axsym")) and os.path.exists(os.path.join(B, "native")):
        return
    r = sh(["bash", os.path.join(V, "engine", "build.sh"), os.path.join(B, "axsym")])
    if r.returncode:
        raise RuntimeError("engine build failed: " + r.stdout[-2000:])
    r = sh(["gcc", "-O1", "-w", "-rdynamic", os.path.join(V, "tools", "native.c"), "-o", os.path.join(B, "native"), "-ldl"])
    if r.returncode:
        raise RuntimeError("native runner build failed: " + r.stdout[-2000:])
    open(mark, "w").write(s)


def forget_repo_units(target):
    """The tree under /repo may have changed without newer time stamps, so the
    crates that live there (and the harness) are always rebuilt."""
    fp = os.path.join(target, "release", ".fingerprint")
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if re.match(r"(axon-|common-|core-|abi-generator|symrt-|[a-z]-[0-9a-f]{16}$)", d) and not d.startswith("core-foundation"):
                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)


def build_harness(crate, feats):
    hd = os.path.join(V, "harness", crate)
    tgt = os.path.join(B, crate)
    forget_repo_units(tgt)
    lock = os.path.join(hd, "Cargo.lock")
    keep = open(lock, "rb").read() if os.path.exists(lock) else None
    r = sh(["cargo", "rustc", "--offline", "--release", "--features", ",".join(feats), "--", "--emit=llvm-bc,link"], cwd=hd, env=env(crate))
    if keep is not None and open(lock, "rb").read() != keep:
        open(lock, "wb").write(keep)
    if r.returncode:
        raise RuntimeError("harness build failed:\n" + r.stdout[-3500:])
    name = re.search(r'name\s*=\s*"([^"]+)"', open(os.path.join(hd, "Cargo.toml")).read()).group(1).replace("-", "_")
    so = os.path.join(tgt, "release", f"lib{name}.so")
    bc = os.path.join(tgt, "release", "deps", f"{name}.bc")
    if not (os.path.exists(so) and os.path.exists(bc)):
        raise RuntimeError("harness build left no library or bitcode")
    return so, bc


def entries_of(srcs):
    """entry -> options, from `//@ k=v ...` comments above the functions."""
    out, ids, covers, bounds, outside = {}, set(), set(), [], []
    for f in srcs:
        t = open(f).read()
        for m in re.finditer(r'(?://@([^\n]*)\n)?#\[no_mangle\]\s*pub extern "C" fn (h_\w+)', t):
            o = dict(kv.split("=", 1) for kv in (m.group(1) or "").split())
            out[m.group(2)] = o
        ids |= set(re.findall(r'"(c\d\d\.[A-Za-z0-9_.\-]+)"', t))
        bounds += [b.strip() for b in re.findall(r"//! bound:(.*)", t)]
        outside += [b.strip() for b in re.findall(r"//! outside:(.*)", t)]
    return out, ids, bounds, outside


def run_engine(bc, entry, shard, n, opts, outdir):
    out = os.path.join(outdir, f"{entry}.{shard}.json")
    tl = max(30, LIMIT - (time.time() - T0))
    tl = min(tl, float(opts.get("time", tl)))
    cmd = [os.path.join(B, "axsym"), bc, entry, "--out", out, "--shard", f"{shard}/{n}", "--time", str(int(tl)), "--seed", str(SEED), "--samples", opts.get("samples", "6"), "--repo", REPO + "/"]
    if "steps" in opts:
        cmd += ["--steps", opts["steps"]]
    if "symmem" in opts:
        cmd += ["--symmem"]
    if "query_ms" in opts:
        cmd += ["--query-ms", opts["query_ms"]]
    if opts.get("after"):
        cmd += ["--after-violation", opts["after"]]
    with open(out + ".log", "w+") as log:
        r = subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT)
        t1 = time.time()
        while r.poll() is None:
            time.sleep(0.05)
            if time.time() - t1 > tl + 60:
                r.kill()
                return dict(entry=entry, error="engine did not stop in time")
            if STOP and time.time() > STOP[0]:  # a violation was confirmed elsewhere: the verdict is settled
                r.kill()
                r.wait()
                return dict(entry=entry, stopped=True)
        r.stdout = open(out + ".log", errors="replace").read()
    if not os.path.exists(out):
        return dict(entry=entry, error=f"engine exit {r.returncode}: {r.stdout[-600:]}")
    try:
        return json.load(open(out))
    except Exception as e:  # noqa
        return dict(entry=entry, error=f"bad engine output: {e}")


def native(so, entry, inputs, path):
    with open(path, "w") as f:
        for k, v in inputs:
            f.write(f"{k}={v}\n")
    try:
        r = sh([os.path.join(B, "native"), so, entry, path], timeout=90)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return -99, "native replay timed out"


def confirmed_natively(so, entry, v, path):
    rc, out = native(so, entry, v["inputs"].items(), path)
    if v["kind"] == "assert":
        ok = rc == 10 and f"ASSERT {v['id']}\n" in out
    elif v["kind"] == "panic":
        ok = rc == 11
    else:
        ok = rc < 0 and rc != -99
    return ok, rc, out


def main():
    if sys.argv[1] == "--setup":
        os.makedirs(B, exist_ok=True)
        build_engine()
        print("engine built")
        return
    pid = sys.argv[1]
    cfg = CHECKS[pid]
    crate, low = cfg["crate"], pid.lower()
    os.makedirs(B, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    outdir = os.path.join(B, "out", pid)
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    rdir = os.path.join(B, "replay")
    os.makedirs(rdir, exist_ok=True)
    with cf.ThreadPoolExecutor(2) as ex:
        fe, fh = ex.submit(build_engine), ex.submit(build_harness, crate, [low])
        try:
            fe.result()
            so, bc = fh.result()
        except RuntimeError as e:
            die(str(e))
    tb = time.time() - T0
    srcs = [os.path.join(V, "harness", crate, "src", low + ".rs")]
    ents, ids, bounds, outside = entries_of(srcs)
    if TIER == "quick":
        ents = {e: o for e, o in ents.items() if o.get("tier", "quick") == "quick"}
        ids = {i for i in ids if not i.endswith(".thorough")}
    if not ents:
        die("no entries for " + pid)
    jobs = []
    for e, o in ents.items():
        n = int(o.get("shards", "1"))
        jobs += [(e, i, n, o) for i in range(n)]
    jobs.sort(key=lambda j: -float(j[3].get("cost", j[2])))
    known = [k for k in json.load(open(os.path.join(V, "known_findings.json")))["findings"] if k.get("property") == pid and k.get("status") == "open"]
    res = []

    def job(j):
        if STOP and time.time() > STOP[0]:
            return dict(entry=j[0], stopped=True)
        r = run_engine(bc, j[0], j[1], j[2], dict(j[3]) if known else dict(j[3], after="60"), outdir)
        if not known and not STOP and any(confirmed_natively(so, j[0], v, os.path.join(outdir, f"v.{j[0]}.{j[1]}.txt"))[0] for v in r.get("violations", [])[:3]):
            STOP.append(time.time() + 30)
        return r
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for r in ex.map(job, jobs):
            res.append(r)
    stopped = [r for r in res if r.get("stopped")]
    res = [r for r in res if not r.get("stopped")]
    errors = [f"{r['entry']}: {r['error']}" for r in res if "error" in r]
    res = [r for r in res if "error" not in r]
    for r in res:
        errors += [f"{r['entry']}[{r['shard']}]: {i}" for i in r["inconclusive"]]
    hits, confirmed, unconfirmed, seen = {}, [], [], set()
    for r in res:
        for v in r["violations"]:
            vid = v["id"] if v["kind"] == "assert" else f"{v['kind']}@{v['where']}"
            key = (v["kind"], vid, r["entry"])
            k = next((k for k in known if v["kind"] == "assert" and k["assert"] == v["id"]), None)
            if key in seen:
                continue
            path = os.path.join(rdir, f"{pid}-{re.sub(r'[^A-Za-z0-9]+', '_', r['entry'] + '-' + vid)[:100]}.txt")
            ok, rc, out = confirmed_natively(so, r["entry"], v, path)
            if not ok:
                unconfirmed.append(f"{r['entry']}: {v['kind']} {v['id']} at {v['where']} (native exit {rc}: {out[-200:].strip()}) inputs {json.dumps(v['inputs'])[:400]}")
                continue
            seen.add(key)
            with open(path, "a") as f:
                f.write(f"# replay: {os.path.join(B, 'native')} {so} {r['entry']} {path}\n# {v['kind']} {v['id']} {v['where']}\n# " + out.strip().replace("\n", "\n# ") + "\n")
            if k:
                hits[k["assert"]] = k
            else:
                confirmed.append((v, path, r["entry"]))
    # an unconfirmed violation matters only when the same assertion was not confirmed elsewhere
    done = {v["id"] for v, _, _ in confirmed} | set(hits)
    unconfirmed = [u for u in unconfirmed if not any(f" {d} at" in u for d in done)]
    # translator validation: sampled paths run natively must agree with the engine
    validated, mismatches, shown = 0, [], []
    todo = [(r["entry"], s) for r in res for s in r["samples"]]

    def val(j):
        e, s = j[1]
        rc, out = native(so, e, s["inputs"], os.path.join(outdir, f"s{j[0]}.txt"))
        obs = [l[4:] for l in out.splitlines() if l.startswith("OBS ")]
        want = [f"{a}={b}" for a, b in s["observed"]]
        if s["approx"]:
            return rc in (0, 12) or (rc == 10 and all(l[7:] in hits for l in out.splitlines() if l.startswith("ASSERT "))), False, (e, s, rc, obs, want)
        okk = rc == 0 or (rc == 10 and all(l[7:] in done for l in out.splitlines() if l.startswith("ASSERT ")))
        return okk and obs == want, True, (e, s, rc, obs, want)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for ok, exact, (e, s, rc, obs, want) in ex.map(val, enumerate(todo)):
            if ok and exact:
                validated += 1
                if len(shown) < 4:
                    shown.append(dict(entry=e, inputs=dict(s["inputs"]), observed=dict(s["observed"])))
            elif not ok:
                mismatches.append(f"{e}: native exit {rc}, inputs {json.dumps(s['inputs'])[:300]} native {str(obs)[:200]} engine {str(want)[:200]}")
    reached = set()
    for r in res:
        reached |= {k[7:] if k.startswith("assert:") else k for k, n in r["covers"].items() if n}
    missing = sorted(ids - reached)
    fns, lines = set(), {}
    for r in res:
        fns |= set(r["functions"])
        for f, ls in r["lines"].items():
            lines.setdefault(f, set()).update(ls)
    tot = lambda k: sum(r[k] for r in res)
    if not shown:
        shown = [dict(entry=e, inputs=dict(s["inputs"])) for e, s in todo[:3]] or [dict(note="no sample")]
    ev = dict(property=pid, tier=TIER, seed=SEED, level="model_checking", wall_s=round(time.time() - T0, 2), violations=len(confirmed),
              coverage=dict(states=tot("paths"), transitions=tot("forks"), traces_validated_against_impl=validated, samples=shown,
                            rule="states = completed symbolic paths of the harness entries, transitions = solver-decided forks between them; each path stands for every input satisfying its path condition",
                            entries=[dict(entry=r["entry"], shard=r["shard"], paths=r["paths"], seconds=round(r["seconds"], 2)) for r in res],
                            functions_encoded=sorted(fns), repo_lines_encoded={f: len(l) for f, l in sorted(lines.items())},
                            bounds=bounds, queries=tot("queries"), byte_set_queries=tot("byte_queries"), query_cache_hits=tot("query_cache_hits"), unsat=tot("unsat"), sat=tot("sat"),
                            z3_queries=tot("z3_queries"), z3_confirmed_unsat=tot("z3_confirmed_unsat"), assertions_reached=tot("asserts_reached"), assertion_queries=tot("assert_queries"),
                            solver_seconds=round(tot("solver_seconds") + tot("z3_seconds"), 3), engine_seconds=round(tot("seconds"), 2), build_seconds=round(tb, 1), instructions=tot("instructions"),
                            known_findings=sorted(hits), runs_ended_after_a_confirmed_violation=len(stopped), errors=errors + unconfirmed + mismatches + [f"not reached: {m}" for m in missing]),
              assumptions=outside + ["trusted: the axsym engine (path sampling against the native build is its validation), Z3, rustc 1.72 -O1 lowering to LLVM IR, the stand-ins under /verif/shims (keccak as an injective uninterpreted function on symbolic input, elliptic-curve recovery and BLS verification as deterministic functions of their arguments)"])
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    for k in hits.values():
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    print(f"{pid}: {len(jobs)} runs, {tot('paths')} paths, {tot('queries')} queries, {validated} traces validated, build {tb:.0f}s, total {time.time()-T0:.0f}s", flush=True)
    if confirmed:
        for v, path, e in confirmed:
            print(f"  {e}: {v['kind']} {v['id']} {v['where']} inputs {json.dumps(v['inputs'])[:500]}")
            print(f"VIOLATION property={pid} replay={path}", flush=True)
        sys.exit(1)
    bad = errors + [f"unconfirmed counterexample: {u}" for u in unconfirmed] + [f"engine and native run disagree: {m}" for m in mismatches] + [f"assertion or cover never reached: {m}" for m in missing]
    if bad:
        for b in bad[:20]:
            print("ERROR", b[:700])
        sys.exit(2)
    sys.exit(0)


main()
