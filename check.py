#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--only SUBSTR] [--keep]

Decides one property: builds /repo's deku together with the harnesses of the
property into whole-program LLVM IR, executes every harness symbolically (all
paths, z3 decides each assertion), replays counterexamples and sampled paths
against the natively compiled code, and writes evidence/<property>.json.

exit 0  held for every input within the bounds
exit 1  violation found and reproduced natively (VIOLATION line)
exit 2  no answer (build failure, time-out, engine limitation, divergence)
"""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from props import PROPS, ASSUME, known_findings  # noqa

T0 = time.time()
JOBS = os.cpu_count() or 8
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", HOME="/root",
           PATH="/usr/local/bin:/root/.cargo/bin:" + os.environ.get("PATH", ""))
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET", "CARGO_INCREMENTAL"):
    ENV.pop(k, None)


def die(msg, code=2):
    print("ERROR: " + msg)
    sys.exit(code)


def fnv(s):
    h = 0x811C9DC5
    for b in s.encode():
        h = ((h ^ b) * 0x01000193) & 0xFFFFFFFF
    return h


def build_engine():
    t = os.path.join(V, "engine", "target")
    r = subprocess.run(["cargo", "build", "--release", "--offline", "--quiet"], cwd=os.path.join(V, "engine"),
                       env=ENV, capture_output=True, text=True)
    if r.returncode:
        die("engine build failed\n" + r.stderr[-3000:])
    return os.path.join(t, "release", "symx")


def build_harnesses(prop, cfg, tier, work, more):
    """the property's own harnesses, and those of other properties that it reuses"""
    out = {cfg: build_harness(prop, cfg, tier, work)}
    for m in more:
        m = m.split(":")[0]
        ll, a = out[cfg]
        if len(out) == 1:
            keep = [os.path.join(work, f"own-{cfg}" + e) for e in (".ll", ".a")]
            shutil.copy(ll, keep[0])
            shutil.copy(a, keep[1])
            out[cfg] = tuple(keep)
        ll, a = build_harness(m, cfg, tier, work)
        keep = [os.path.join(work, f"{m}-{cfg}" + e) for e in (".ll", ".a")]
        shutil.move(ll, keep[0])
        shutil.move(a, keep[1])
        out[cfg + "+" + m] = tuple(keep)
    return out


class Refused(Exception):
    pass


def refused(prop, cfg, cmd, work, r):
    """deku itself compiles, but not a type declared in a documented way: no value of it can keep the property"""
    def ours(r):
        return ("could not compile `vharness`" in r.stderr and "could not compile `deku" not in r.stderr
                and re.search(r"^error(\[E\d+\])?:.*\n(.*\n)?\s*--> (/verif/harness/)?src/", r.stderr, re.M))
    if not ours(r):
        return
    r = subprocess.run(cmd, cwd=os.path.join(V, "harness"), env=ENV, capture_output=True, text=True)
    if r.returncode == 0 or not ours(r):
        return
    rd = os.path.join(V, "work", "replays")
    os.makedirs(rd, exist_ok=True)
    q = os.path.join(rd, f"{prop}-{cfg}-build.json")
    with open(q, "w") as f:
        json.dump({"property": prop, "config": cfg, "kind": "build",
                   "what": "a type declared in a documented way is no longer accepted, though deku itself compiles",
                   "rerun": "cd /verif/harness && RUSTUP_TOOLCHAIN=stable " + " ".join(cmd), "output": r.stderr[-8000:]}, f, indent=1)
    first = next((l for l in r.stderr.splitlines() if l.startswith("error")), "")
    raise Refused(cfg, q, first)


def build_harness(prop, cfg, tier, work):
    feats = ["cfg_" + cfg, prop.lower()] + (["thorough"] if tier == "thorough" else [])
    tgt = os.path.join(work, "target-" + cfg)
    for f in glob.glob(os.path.join(tgt, "release", "deps", "*vharness*")):
        os.remove(f)
    cmd = ["cargo", "rustc", "--offline", "--release", "--quiet", "--lib", "--target-dir", tgt,
           "--no-default-features", "--features", ",".join(feats), "--",
           "--emit=llvm-ir,link", "-Cno-vectorize-loops", "-Cno-vectorize-slp", "-Awarnings"]
    r = subprocess.run(cmd, cwd=os.path.join(V, "harness"), env=ENV, capture_output=True, text=True)
    if r.returncode:
        refused(prop, cfg, cmd, work, r)
        die(f"harness build failed ({cfg})\n" + r.stderr[-4000:])
    ll = glob.glob(os.path.join(tgt, "release", "deps", "vharness*.ll"))
    a = glob.glob(os.path.join(tgt, "release", "deps", "libvharness*.a")) or \
        glob.glob(os.path.join(tgt, "release", "libvharness.a"))
    if len(ll) != 1 or not a:
        die(f"harness build output missing: {ll} {a}")
    return ll[0], a[0]


def link_native(cfg, names, a, work):
    c = os.path.join(work, f"harnesses-{cfg}.c")
    with open(c, "w") as f:
        for n in names:
            f.write(f"void {n}(void);\n")
        f.write("struct h { const char *name; void (*f)(void); };\nconst struct h harnesses[] = {\n")
        for n in names:
            f.write(f'  {{"{n}", {n}}},\n')
        f.write("  {0, 0}};\n")
    exe = os.path.join(work, f"native-{cfg}")
    wrap = ",".join("--wrap=" + x for x in ("malloc", "calloc", "realloc", "free", "posix_memalign"))
    r = subprocess.run(["gcc", "-O1", "-g", "-o", exe, os.path.join(V, "harness", "rt.c"), c, a, "-Wl," + wrap,
                        "-lpthread", "-ldl", "-lm"], capture_output=True, text=True)
    if r.returncode:
        die("native link failed\n" + r.stderr[-3000:])
    return exe


def native(exe, h, inp, alloc, timeout=20, valgrind=False):
    cmd = ([] if not valgrind else ["valgrind", "-q", "--error-exitcode=45", "--leak-check=no"]) + [exe, h, inp, str(alloc)]
    try:
        r = subprocess.run(cmd, capture_output=True, timeout=timeout * (10 if valgrind else 1))
    except subprocess.TimeoutExpired:
        return "timeout", ""
    return r.returncode, (r.stdout + r.stderr).decode("utf8", "replace")


def main():
    a = sys.argv[1:]
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    only = a[a.index("--only") + 1] if "--only" in a else ""
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = PROPS[prop]
    work = os.path.join(V, "work", prop + "-" + tier)
    os.makedirs(work, exist_ok=True)
    for f in set(glob.glob(os.path.join(work, "cex-*")) + glob.glob(os.path.join(work, "*.json"))):
        os.remove(f)
    budget = 760 if tier == "quick" else 7200
    cfgs = P["cfgs"] if tier == "quick" else P.get("cfgs_thorough", P["cfgs"])
    with cf.ThreadPoolExecutor(8) as ex:
        fe = ex.submit(build_engine)
        more = P.get("more", {}) if tier == "quick" else P.get("more_thorough", P.get("more", {}))
        fh = [ex.submit(build_harnesses, prop, c, tier, work, more.get(c, [])) for c in cfgs]
        symx = fe.result()
        arts = {}
        for f in fh:
            try:
                arts.update(f.result())
            except Refused as e:
                cfg, q, first = e.args
                print(f"  {cfg}: build: {first}")
                print(f"VIOLATION property={prop} replay={q}")
                ev = {"property": prop, "tier": tier, "seed": seed, "level": "other", "coverage": {
                    "explanation": "a type of the harnesses, declared in a documented way, is refused by the compiler although "
                                   "deku itself is built: nothing could be executed", "replay": q, "output": first},
                      "wall_s": round(time.time() - T0, 2), "violations": 1}
                os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
                with open(os.path.join(V, "evidence", prop + ".json"), "w") as o:
                    json.dump(ev, o, indent=1)
                sys.stdout.flush()
                os._exit(1)
    t_build = time.time() - T0
    jobs, exes = [], {}
    for c in arts:
        ll, lib = arts[c]
        names = subprocess.run([symx, "--list", ll], capture_output=True, text=True).stdout.split()
        if not names:
            die("no harnesses in " + ll)
        exes[c] = link_native(c, names, lib, work)
        # "Cnn:h_x" takes only the other property's harnesses with that prefix
        pre = next((m.split(":")[1] for m in more.get(c.split("+")[0], []) if c.endswith("+" + m.split(":")[0]) and ":" in m), "")
        for n in names:
            if only in n and n.startswith(pre):
                jobs.append((c, n, ll))
    # source text of the check / reachability ids
    texts, need = {}, {}
    for f in glob.glob(os.path.join(V, "harness", "src", "*.rs")):
        s = open(f).read()
        for m in re.finditer(r'(ck|reach|fail)!\s*\(', s):
            # the literal that closes this macro call
            depth, i, lit = 1, m.end(), None
            while depth and i < len(s):
                if s[i] == '"':
                    j = i + 1
                    while s[j] != '"':
                        j += 2 if s[j] == '\\' else 1
                    lit = s[i + 1:j]
                    i = j
                elif s[i] in "([{":
                    depth += 1
                elif s[i] in ")]}":
                    depth -= 1
                i += 1
            if lit is None:
                continue
            texts[fnv(lit)] = lit
            if os.path.basename(f) == prop.lower() + ".rs":
                need.setdefault(m.group(1), set()).add(lit)
    alloc = P.get("alloc", 1 << 24)

    known = known_findings(prop)
    # once a violation that is not listed is found the verdict is known: finish soon
    stop = [budget]

    def run(job):
        c, n, ll = job
        left = stop[0] - (time.time() - T0)
        out = os.path.join(work, f"r-{c}-{n}.json")
        if left < 5:
            return job, None
        cmd = [symx, "--ll", ll, "--harness", n, "--out", out, "--seconds", str(int(left)), "--alloc", str(alloc),
               "--steps", str(P.get("steps", 20000000)), "--samples", str(P.get("samples", 24)), "--seed", str(seed),
               "--solver-ms", "60000", "--max-viol", "24"]
        if not known:
            cmd += ["--after", "20"]
        if tier == "thorough":
            cmd += ["--dump", os.path.join(work, "smt-" + c + "-" + n), "--dump-every", "97"]
            os.makedirs(os.path.join(work, "smt-" + c + "-" + n), exist_ok=True)
        t = time.time()
        with open(out + ".err", "w+") as ef:
            r = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=ef)
            while r.poll() is None:
                try:
                    r.wait(1)
                except subprocess.TimeoutExpired:
                    if time.time() - T0 > stop[0] + 30:
                        r.kill()
                        r.wait()
                        return job, None
            ef.seek(0)
            err = ef.read()
        os.remove(out + ".err")
        if r.returncode or not os.path.exists(out):
            return job, {"status": "error", "error": err[-500:]}
        j = json.load(open(out))
        j["wall"] = time.time() - t
        if j["violations"] and not known:
            stop[0] = min(stop[0], time.time() - T0 + 60)
        return job, j

    # longest first, as measured earlier (a hint only)
    hint_f = os.path.join(V, "harness", "cost.json")
    hint = json.load(open(hint_f)) if os.path.exists(hint_f) else {}
    jobs.sort(key=lambda j: -hint.get(j[1], 5))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(run, jobs))
    t_run = time.time() - T0

    errors, viols, known_hit, val, samples = [], [], set(), 0, []
    tot = {k: 0 for k in ("paths", "forks", "instructions", "checks", "checks_by_simplifier", "queries", "sat", "unsat",
                          "unknown", "solver_s", "assumed_away", "input_bytes")}
    maxq, reached, cids, funcs, lines, stubs = 0.0, set(), set(), set(), {}, {}
    slow = []
    for (c, n, ll), j in res:
        if j is None:
            errors.append(f"{c}/{n}: not started, out of time")
            continue
        if "paths" not in j:
            errors.append(f"{c}/{n}: {j['error']}")
            continue
        for k in tot:
            tot[k] += j[k]
        maxq = max(maxq, j["max_query_s"])
        reached |= set(j["reached"])
        cids |= set(j["check_ids"])
        funcs |= set(j["functions"])
        for f, l in j["lines"].items():
            lines.setdefault(f, set()).update(l)
        for k, v in j["stubs"].items():
            stubs[k] = stubs.get(k, 0) + v
        slow.append((round(j["wall"], 1), j["paths"], c + "/" + n))
        if j["status"] == "error":
            errors.append(f"{c}/{n}: {j['error']}")
        elif j["incomplete"]:
            errors.append(f"{c}/{n}: incomplete: {j['incomplete']}")
        for i, v in enumerate(j["violations"]):
            viols.append((c, n, v))
        # conformance: predicted observations against the native run
        for i, s in enumerate(j["samples"]):
            p = os.path.join(work, f"s-{c}-{n}")
            with open(p, "wb") as f:
                f.write(bytes.fromhex(s["inputs"]))
            rc, out = native(exes[c], n, p, alloc)
            os.remove(p)
            got = [(int(x.split()[1]), x.split()[2]) for x in out.splitlines() if x.startswith("OBS ")]
            want = [(t, v) for t, v in s["obs"]]
            if rc != 0 or got != want:
                if j["violations"]:
                    continue
                errors.append(f"{c}/{n}: engine and native run diverge on {s['inputs'][:80]}: rc={rc} want={want[:6]} got={got[:6]}")
                break
            val += 1
            if len(samples) < 12 and i == 0:
                samples.append({"config": c, "harness": n, "inputs": s["inputs"], "observed": [v for _, v in s["obs"]][:16]})
    bad, unrep = [], []
    for k, (c, n, v) in enumerate(viols):
        what = v["what"]
        m = re.match(r"check (\d+)$", what)
        name = texts.get(int(m.group(1)), what) if m else what
        v["name"] = name
        kf = next((f for f in known if f["harness"] == n and f["check"] == name), None)
        if kf:
            known_hit.add(kf["id"])
            continue
        p = os.path.join(work, f"cex-{c}-{n}-{k}.bin")
        with open(p, "wb") as f:
            f.write(bytes.fromhex(v["inputs"]))
        rc, out = native(exes[c], n, p, alloc)
        ok = False
        if v["kind"] == "nonterm" or v["kind"] == "recursion":
            ok = rc == "timeout" or rc in (42, 44) or (isinstance(rc, int) and rc < 0)
        elif rc in (42, 44) or (isinstance(rc, int) and rc < 0) or rc == "timeout":
            ok = True
        if not ok and v["kind"] in ("memory", "ub"):
            rc, out = native(exes[c], n, p, alloc, valgrind=True)
            ok = rc == 45 or (isinstance(rc, int) and rc < 0)
        meta = {"property": prop, "config": c, "harness": n, "kind": v["kind"], "what": name, "layout": v["layout"],
                "inputs": v["inputs"], "stack": v["stack"], "native_rc": rc, "native_output": out[-2000:],
                "rerun": f"{exes[c]} {n} {p} {alloc}"}
        with open(p[:-4] + ".json", "w") as f:
            json.dump(meta, f, indent=1)
        (bad if ok else unrep).append((c, n, v, p))
    for f in known:
        if f["id"] in known_hit:
            print(f"KNOWN-FINDING: property={prop} {f['what']}")
        elif not only and not errors:
            print(f"note: listed finding {f['id']} did not show up on this tree")
    rd = os.path.join(V, "work", "replays")
    seen = set()
    for c, n, v, p in bad:
        key = (n, v["name"])
        if key in seen:
            continue
        seen.add(key)
        os.makedirs(rd, exist_ok=True)
        q = os.path.join(rd, f"{prop}-{c}-{n}-{fnv(v['name']):08x}.json")
        shutil.copy(p[:-4] + ".json", q)
        print(f"  {c}/{n}: {v['kind']}: {v['name']}  inputs[{v['layout']}]={v['inputs'][:160]}")
        print(f"VIOLATION property={prop} replay={q}")
    for c, n, v, p in unrep:
        errors.append(f"{c}/{n}: counterexample not reproduced natively: {v['kind']}: {v['name']} {p}")
    if not bad and not errors and not only:
        for k in ("ck", "reach"):
            have = cids if k == "ck" else reached
            miss = [t for t in need.get(k, ()) if fnv(t) not in have]
            if miss:
                errors.append(f"vacuity: {k} never executed: {miss[:5]}")
    cross = cross_check(work, tier) if tier == "thorough" else None
    if cross and cross.get("disagreements"):
        errors.append("solver disagreement: " + str(cross["disagreements"][:3]))
    deku_funcs = sorted(f for f in funcs if "deku" in f or "vharness" in f or "bitvec" in f)
    rel = {f: sorted(l) for f, l in lines.items() if "/repo/" in f or f.startswith("src/") or "deku" in f}
    slow.sort(reverse=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {
              "states": tot["paths"], "transitions": tot["instructions"], "traces_validated_against_impl": val,
              "samples": samples,
              "harnesses": [f"{c}/{n}" for c, n, _ in jobs], "configurations": sorted(arts),
              "assertions_evaluated": tot["checks"], "assertions_closed_by_simplifier": tot["checks_by_simplifier"],
              "queries": tot["queries"], "sat": tot["sat"], "unsat": tot["unsat"], "unknown": tot["unknown"],
              "solver_s": round(tot["solver_s"], 2), "max_query_s": maxq, "forks": tot["forks"],
              "paths_assumed_away": tot["assumed_away"], "symbolic_input_bytes": tot["input_bytes"],
              "functions_encoded": len(funcs), "functions_encoded_deku": deku_funcs[:400],
              "source_lines_encoded": {f: len(l) for f, l in sorted(rel.items())},
              "line_sets": {f: ranges(l) for f, l in rel.items()},
              "stubs": stubs, "slowest": slow[:8], "bounds": P["bounds"],
              "known_findings": sorted(known_hit), "build_s": round(t_build, 1), "run_s": round(t_run - t_build, 1),
              "solver_cross_check": cross, "errors": errors},
          "assumptions": ASSUME + P.get("assume", []),
          "wall_s": round(time.time() - T0, 2), "violations": len(seen)}
    if not only:
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print(f"{prop} {tier}: {len(jobs)} harnesses, {tot['paths']} paths, {tot['checks']} assertions, {tot['queries']} queries "
          f"({tot['solver_s']:.1f}s, max {maxq:.2f}s), {val} native replays, build {t_build:.0f}s, total {time.time()-T0:.0f}s")
    if "-v" in a:
        for s in slow:
            print("   ", s)
    for e in errors:
        print("ERROR: " + e)
    if bad:
        sys.exit(1)
    sys.exit(2 if errors else 0)


def ranges(l):
    o, s, p = [], None, None
    for x in sorted(l):
        if p is not None and x == p + 1:
            p = x
            continue
        if s is not None:
            o.append(f"{s}-{p}" if p != s else str(s))
        s = p = x
    if s is not None:
        o.append(f"{s}-{p}" if p != s else str(s))
    return ",".join(o)


def cross_check(work, tier):
    """second opinion on a sample of the dumped queries: cvc5 and a newer z3"""
    files = sorted(glob.glob(os.path.join(work, "smt-*", "*.smt2")))[:240]
    agree, undecided, dis = 0, 0, []

    def one(f):
        exp = re.search(r"; *expected:? *(sat|unsat)", open(f).read())
        got = []
        for cmd in (["cvc5", "--tlimit=10000", f], ["z3-new", "-T:10", f]):
            r = subprocess.run(cmd, capture_output=True, text=True)
            o = r.stdout.strip().splitlines()
            got.append("error" if "(error" in r.stdout else o[0] if o and o[0] in ("sat", "unsat") else "unknown")
        return f, exp.group(1) if exp else None, got
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for f, exp, got in ex.map(one, files):
            for g in got:
                if g in ("sat", "unsat") and exp:
                    if g == exp:
                        agree += 1
                    else:
                        dis.append((f, exp, got))
                else:
                    undecided += 1
    for d in glob.glob(os.path.join(work, "smt-*")):
        shutil.rmtree(d)
    return {"queries": len(files), "agreements": agree, "undecided": undecided, "disagreements": dis}


main()
