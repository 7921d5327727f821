#!/usr/bin/env python3
"""Run the solver-based checks of one property against /repo.

usage: check.py <PROPERTY> [--tier quick|thorough] [--solver z3] [--repo DIR]

Exit 0: held on everything explored.  Exit 1: violation, reproduced natively
(line VIOLATION property=<id> replay=<path>).  Exit 2: no answer.
"""
import argparse, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
HDIR = os.path.join(HERE, "harness", "oauth2")


def env():
    e = dict(os.environ)
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], stdout=subprocess.PIPE).stdout
    for kv in out.decode("utf-8", "replace").split("\0"):
        if "=" in kv:
            k, v = kv.split("=", 1)
            e[k] = v
    e.setdefault("GOFLAGS", "-mod=mod")
    e["GOPROXY"] = "off"
    return e


ENV = env()


def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:16]


def engine():
    src = glob.glob(os.path.join(HERE, "engine", "*.go")) + [os.path.join(HERE, "engine", "go.mod")]
    tag = tree_hash(src)
    bindir = os.path.join(HERE, "bin")
    exe = os.path.join(bindir, "vfengine-" + tag)
    if not os.path.exists(exe):
        os.makedirs(bindir, exist_ok=True)
        for old in glob.glob(os.path.join(bindir, "vfengine-*")):
            os.unlink(old)
        tmp = exe + ".tmp%d" % os.getpid()
        r = subprocess.run(["go", "build", "-o", tmp, "."], cwd=os.path.join(HERE, "engine"), env=ENV,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            print(r.stdout.decode())
            sys.exit(2)
        os.rename(tmp, exe)
    return exe


def left_out(prop):
    """Harness files that only other properties need (marked "// only: Pxx")."""
    out = []
    for f in sorted(glob.glob(os.path.join(HDIR, "*.go"))):
        m = re.search(r"^// only: (\w+)$", open(f).read(), re.M)
        if prop and m and m.group(1) != prop:
            out.append(os.path.basename(f))
    return out


def harness_meta(prop=""):
    """Harness name -> {'reach': [...], 'bounds': str, 'doc': str} from doc comments."""
    meta = {}
    for f in sorted(glob.glob(os.path.join(HDIR, "*.go"))):
        if os.path.basename(f) in left_out(prop):
            continue
        txt = open(f).read()
        for m in re.finditer(r"((?://[^\n]*\n)*)func (vfH_\w+)\(\)", txt):
            doc = [l[2:].strip() for l in m.group(1).splitlines()]
            d = {"reach": [], "bounds": "", "doc": "", "file": os.path.basename(f), "race": False}
            rest = []
            for l in doc:
                if l.startswith("reach:"):
                    d["reach"] += l[6:].split()
                elif l.startswith("bounds:"):
                    d["bounds"] += (" " if d["bounds"] else "") + l[7:].strip()
                elif l.startswith("race:"):
                    d["race"] = True
                elif l.startswith("assume:"):
                    d.setdefault("assume", []).append(l[7:].strip())
                else:
                    rest.append(l)
            d["doc"] = " ".join(rest)
            body = txt[m.end():].split("\nfunc ", 1)[0]
            if "vfWorld()" in body:
                d["bounds"] += "; in each of 10 worlds (2 clients, 2 users, 6-10 stored credentials; 9 of them vary what must not matter: users, lineage, siblings, spent and expired neighbours, lifespans, public client, shared redirect URI; some lengths are smaller in those)"
            meta[m.group(2)] = d
    return meta


class Replayer:
    def __init__(self, repo, work, meta, prop=""):
        self.repo, self.work, self.meta, self.bins = repo, work, meta, {}
        self.skip = left_out(prop)

    def build(self, race, yields=False):
        """yields: locks let other goroutines go first now and then."""
        kind = (race, yields)
        if kind in self.bins:
            return self.bins[kind]
        reg = os.path.join(self.work, "registry_test.go")
        with open(reg, "w") as f:
            f.write("package oauth2\n\nvar vfRegistry = map[string]func(){\n")
            for n in sorted(self.meta):
                f.write('\t"%s": %s,\n' % (n, n))
            f.write("}\n")
        rep = {os.path.join(self.repo, "vf_registry_verif_test.go"): reg}
        for g in glob.glob(os.path.join(HDIR, "*.go")):
            if os.path.basename(g) in self.skip:
                continue
            b = os.path.basename(g)[:-3]
            if b.endswith("_test"):
                b = b[:-5]
            rep[os.path.join(self.repo, "vf_%s_verif_test.go" % b)] = g
        # the package's own tests are not needed
        for g in glob.glob(os.path.join(self.repo, "*_test.go")):
            rep[g] = ""
        if yields:
            mod = re.search(r"^module\s+(\S+)", open(os.path.join(self.repo, "go.mod")).read(), re.M).group(1)
            rep[os.path.join(self.repo, "vfsync", "vfsync.go")] = os.path.join(HERE, "harness", "vfsync", "vfsync.go")
            for g in glob.glob(os.path.join(self.repo, "*.go")):
                txt = open(g).read()
                if not g.endswith("_test.go") and re.search(r'^(import\s+|\s+)"sync"$', txt, re.M):
                    f = os.path.join(self.work, "y_" + os.path.basename(g))
                    open(f, "w").write(re.sub(r'^(import\s+|\s+)"sync"$', r'\1sync "%s/vfsync"' % mod, txt, flags=re.M))
                    rep[g] = f
        ov = os.path.join(self.work, "overlay.json")
        json.dump({"Replace": rep}, open(ov, "w"))
        out = os.path.join(self.work, "replay" + ("-race" if race else "") + ("-yields" if yields else ""))
        cmd = ["go", "test", "-c", "-vet=off", "-overlay", ov, "-o", out]
        if race:
            cmd.append("-race")
        r = subprocess.run(cmd + ["."], cwd=self.repo, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0 or not os.path.exists(out):
            print("REPLAY-BUILD-FAILED\n" + r.stdout.decode())
            self.bins[kind] = None
            return None
        self.bins[kind] = out
        return out

    def run(self, items, race=False, timeout=60, yields=False):
        """Returns (results by index, stdout, status) ; status 'ok','timeout' or exit code."""
        exe = self.build(race, yields)
        if exe is None:
            return {}, "", "build"
        fd, inp = tempfile.mkstemp(dir=self.work, suffix=".json")
        os.close(fd)
        res = inp + ".out"
        json.dump(items, open(inp, "w"))
        e = dict(ENV, VF_REPLAY=inp, VF_RESULT=res)
        if race:
            e["GORACE"] = "halt_on_error=1"
        if yields and not race:
            e["GOMAXPROCS"] = "1"
        try:
            r = subprocess.run([exe, "-test.run", "^TestVfReplay$", "-test.timeout", "0"], cwd=self.work, env=e,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
            out, st = r.stdout.decode("utf-8", "replace"), ("ok" if r.returncode == 0 else r.returncode)
        except subprocess.TimeoutExpired as ex:
            out, st = (ex.stdout or b"").decode("utf-8", "replace"), "timeout"
        rs = {}
        if os.path.exists(res):
            for l in open(res):
                try:
                    d = json.loads(l)
                    rs[d["index"]] = d
                except ValueError:
                    pass
        return rs, out, st


def reproduce(rp, v, tier):
    """Replay one violation natively. Returns (reproduced, detail)."""
    want = v["assert"]
    race = want == "data-race"
    conc = race or any(k.startswith("preempt") for k in v["inputs"]) or rp.meta.get(v["harness"], {}).get("race")
    it = {"harness": v["harness"], "tier": tier, "inputs": v["inputs"], "want": want,
          "repeat": 3000 if conc else (400 if v.get("map_order") else 20)}
    if want in ("no-deadlock", "unlock-of-unlocked"):
        it["repeat"] = 2000 if conc else 1
    # plain build; for concurrent ones first the build whose locks yield, last
    # the race detector's, which perturbs schedules as well
    modes = [(race, False)]
    if conc:
        modes = [(True, False), (True, True)] if race else [(False, True), (False, False), (True, True)]
    for rc, ys in modes:
        if rp.build(rc, ys) is None and ys:
            continue
        it["repeat"] = min(it["repeat"], 1500) if rc and not race else it["repeat"]
        rs, out, st = rp.run([it], race=rc, timeout=60 if conc else 40, yields=ys)
        r = rs.get(0)
        if rc and "DATA RACE" in out:
            return True, "race detector: " + out[out.index("DATA RACE"):][:1500]
        if r and want in (r.get("failed") or []):
            return True, "assertion %s failed after %d native run(s)" % (want, r["runs"])
        if want == "no-panic" and r and r.get("panic"):
            return True, "panic: " + r["panic"]
        if want == "no-panic" and st not in ("ok", "timeout", "build"):
            return True, "process crashed: " + out[-1500:]
        if want == "no-deadlock" and (st == "timeout" or "deadlock" in out):
            return True, "blocked forever"
        if want == "unlock-of-unlocked" and "unlock of unlocked" in out + str(r):
            return True, "unlock of unlocked mutex"
    return False, "status=%s result=%s out=%s" % (st, json.dumps(r)[:800], out[-400:])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--replay", default="", help="run a stored counterexample natively")
    ap.add_argument("--setup", action="store_true", help="build the engine and warm the build cache")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--solver", default="z3")
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--only", default="")
    ap.add_argument("--budget", type=int, default=0)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    t0 = time.time()
    meta = harness_meta(a.prop or "")
    if a.replay:
        v = json.load(open(a.replay))
        work = tempfile.mkdtemp(prefix="vf-replay-")
        try:
            ok, detail = reproduce(Replayer(a.repo, work, meta), {"assert": v["want"], "inputs": v["inputs"], "harness": v["harness"]}, v.get("tier", "quick"))
        finally:
            shutil.rmtree(work, ignore_errors=True)
        print("reproduced:" if ok else "not reproduced:", detail)
        return 1 if ok else 0
    if a.setup:
        engine()
        work = tempfile.mkdtemp(prefix="vf-setup-")
        try:
            rp = Replayer(a.repo, work, meta)
            ok = rp.build(False) and rp.build(True)
        finally:
            shutil.rmtree(work, ignore_errors=True)
        print("setup: engine and replay binaries build" if ok else "setup: replay build failed")
        return 0 if ok else 2
    pre = "vfH_%s_" % a.prop
    names = sorted(n for n in meta if n.startswith(pre) and (not a.only or a.only in n))
    if not names:
        print("ERROR: no harness for", a.prop)
        return 2
    exe = engine()
    work = tempfile.mkdtemp(prefix="vf-%s-" % a.prop)
    try:
        return run(a, tier, seed, t0, meta, names, exe, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(a, tier, seed, t0, meta, names, exe, work):
    rep = os.path.join(work, "report.json")
    total = a.budget or (560 if tier == "quick" else 3000)
    cmd = [exe, "-repo", a.repo, "-harness", HDIR, "-run", ",".join(names), "-tier", tier, "-out", rep,
           "-solver", a.solver, "-total", str(total), "-skip", ",".join(left_out(a.prop))]
    if a.v:
        cmd.append("-v")
    r = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=None if a.v else subprocess.PIPE)
    if r.returncode != 0 or not os.path.exists(rep):
        print("ERROR: engine failed:", (r.stderr or b"").decode()[-3000:])
        return 2
    reports = json.load(open(rep))
    rp = Replayer(a.repo, work, meta, a.prop)
    known = json.load(open(os.path.join(HERE, "known_findings.json")))
    known = {(k["property"], k["assert"]): k for k in known.get("findings", [])}
    outdir = os.path.join(HERE, "replay")
    violations, unrepro, problems, reduced, found_known = [], [], [], [], {}
    for h in reports:
        for e in h.get("errors") or []:
            problems.append("%s: engine error: %s" % (h["harness"], e))
        for k, n in (h.get("unsupported") or {}).items():
            reduced.append("%s: %d path(s) not encodable: %s" % (h["harness"], n, k))
        for k, n in (h.get("reduced_bound") or {}).items():
            reduced.append("%s: %s (%d)" % (h["harness"], k, n))
        for v in h.get("violations") or []:
            key = (a.prop, v["assert"])
            if v["assert"] in [x["assert"] for x in violations] and key not in known:
                continue  # one reproduced counterexample per assertion is enough
            if key in known and key in found_known:
                continue
            ok, detail = reproduce(rp, v, tier)
            v["native"] = detail
            if not ok:
                unrepro.append(v)
                continue
            if key in known:
                found_known[key] = v
                print("KNOWN-FINDING: property=%s %s" % (a.prop, known[key]["what"]))
                continue
            violations.append(v)
            os.makedirs(outdir, exist_ok=True)
            path = os.path.join(outdir, "%s-%s-%d.json" % (a.prop, re.sub(r"\W", "_", v["assert"]), len(violations)))
            json.dump({"harness": v["harness"], "tier": tier, "inputs": v["inputs"], "want": v["assert"],
                       "where": v.get("where"), "trace": v.get("trace"), "native": detail,
                       "how": "python3 check.py --replay FILE runs it natively again"},
                      open(path, "w"), indent=1)
            print("counterexample: harness=%s assert=%s inputs=%s" % (v["harness"], v["assert"], json.dumps(v["inputs"])))
            for t in v.get("trace") or []:
                print("   ", t)
            print("    native:", detail[:600])
            print("VIOLATION property=%s replay=%s" % (a.prop, path))
    # an unreproduced counterexample does not count when another one of the
    # same assertion was reproduced
    done = {v["assert"] for v in violations} | {k[1] for k in found_known}
    unrepro = [v for v in unrepro if v["assert"] not in done]
    # native validation of passing paths
    validated, samples, mismatch, skipped = 0, [], [], 0
    items, refs = [], []
    for h in reports:
        bad = {v["assert"] for v in h.get("violations") or []}
        for s in h.get("samples") or []:
            items.append({"harness": h["harness"], "tier": tier, "inputs": s["inputs"], "repeat": 1})
            refs.append((h, s, bad))
    rs = {}
    if items:
        rs, out, st = rp.run(items, timeout=120)
        if len(rs) < len(items):
            # isolate: run the remaining ones one by one
            for i in range(len(items)):
                if i not in rs and len(mismatch) < 5:
                    one, out1, st1 = rp.run([items[i]], timeout=20)
                    if 0 in one:
                        rs[i] = one[0]
                    else:
                        mismatch.append("%s: native run did not finish (%s) %s" % (items[i]["harness"], st1, out1[-300:]))
    for i, (h, s, bad) in enumerate(refs):
        r = rs.get(i)
        if r is None:
            continue
        if r["failed"]:
            if set(r["failed"]) <= bad:
                skipped += 1
                continue
            key = (a.prop, r["failed"][0])
            if key in known:
                continue
            # natively failing assertion on a path the engine considered fine
            path = os.path.join(outdir, "%s-native-%d.json" % (a.prop, i))
            os.makedirs(outdir, exist_ok=True)
            json.dump({"harness": h["harness"], "tier": tier, "inputs": s["inputs"], "want": r["failed"][0], "native": r}, open(path, "w"), indent=1)
            violations.append({"assert": r["failed"][0], "harness": h["harness"], "inputs": s["inputs"]})
            print("VIOLATION property=%s replay=%s" % (a.prop, path))
            continue
        if meta[h["harness"]]["race"]:
            # the native scheduler picks its own interleaving: only the
            # assertions have to agree
            if r["panic"] or r["abort"]:
                mismatch.append("%s inputs=%s native=%s" % (h["harness"], json.dumps(s["inputs"]), json.dumps(r)))
                continue
            validated += 1
            if len(samples) < 6:
                samples.append({"harness": h["harness"], "inputs": s["inputs"], "reached": s["reached"]})
            continue
        pan = bool(r["panic"]) != bool(s.get("panic"))
        if pan or r["abort"] or sorted(r["reached"] or []) != sorted(s["reached"] or []) or (r["notes"] or []) != (s.get("notes") or []):
            if bad or found_known:
                skipped += 1
                continue
            mismatch.append("%s inputs=%s engine=%s/%s native=%s" % (h["harness"], json.dumps(s["inputs"]), s["reached"], s.get("notes"), json.dumps(r)))
            continue
        validated += 1
        if len(samples) < 6:
            samples.append({"harness": h["harness"], "inputs": s["inputs"], "reached": s["reached"]})
    # vacuity
    vacuous = []
    for h in reports:
        want = meta[h["harness"]]["reach"]
        miss = [l for l in want if l not in (h.get("reached") or {})]
        if miss:
            vacuous.append("%s: not reached: %s" % (h["harness"], ",".join(miss)))
        if not want:
            problems.append("%s: harness declares no reachability witness" % h["harness"])
    funcs = sorted({f for h in reports for f in h.get("functions") or []})
    sut = [f for f in funcs if f.startswith("(*github.com/256dpi") or f.startswith("(github.com/256dpi") or f.startswith("github.com/256dpi")]
    sut = [f for f in sut if "vfH_" not in f and ".vf" not in f]
    lvl = "model_checking"
    cov = {
        "states": sum(h["paths"] for h in reports),
        "transitions": sum(h["ssa_instructions"] for h in reports),
        "traces_validated_against_impl": validated,
        "samples": samples or [{"none": "no passing path sampled"}],
        "units": "states = completed symbolic paths (each a set of inputs); transitions = SSA instructions executed symbolically",
        "harnesses": [{
            "name": h["harness"], "what": meta[h["harness"]]["doc"], "bounds": meta[h["harness"]]["bounds"],
            "paths": h["paths"], "infeasible_paths": h["infeasible_paths"], "decisions": h["decisions"],
            "merged_branches": h["merged_branches"], "assertion_instances": h["assertions_checked"],
            "assertions_constant_true": h["assertions_constant_true"],
            "assertion_queries": h["assertion_queries"], "assertions_unknown": h["assertions_unknown"],
            "assert_ids": h["assert_ids"],
            "solver_queries": h["solver_queries"], "solver_sat": h["solver_sat"], "solver_unsat": h["solver_unsat"],
            "solver_unknown": h["solver_unknown"], "branches_by_byte_domains": h.get("dom_sat", 0) + h.get("dom_unsat", 0), "solver_seconds": round(h["solver_seconds"], 3),
            "wall_seconds": round(h["wall_seconds"], 3), "reached": h["reached"], "complete": h["complete"],
        } for h in reports],
        "queries_discharged": sum(h["solver_queries"] for h in reports),
        "branches_decided_by_byte_domains": sum(h.get("dom_sat", 0) + h.get("dom_unsat", 0) for h in reports),
        "solver_seconds": round(sum(h["solver_seconds"] for h in reports), 3),
        "solver": a.solver,
        "functions_encoded_repo": sut,
        "functions_encoded_stdlib": len(funcs) - len(sut),
        "functions_encoded_stdlib_names": [f for f in funcs if f not in sut],
        "reduced_bounds": reduced,
        "exhaustive_within_bounds": all(h["complete"] for h in reports),
        "known_findings": [known[k]["what"] for k in found_known],
        "native_validation_mismatches": mismatch[:5],
    }
    assume = [
        "HMAC-SHA256/SHA hashes are ideal (collision-free) when applied to symbolic data; real when concrete",
        "the Go standard library functions listed under intrinsics in DESIGN.md behave as modelled; the rest is encoded from source",
        "inputs outside the stated bounds are not covered",
    ]
    for n in names:
        assume += [x for x in meta[n].get("assume", []) if x not in assume]
    ev = {"property": a.prop, "tier": tier, "seed": seed, "level": lvl, "coverage": cov, "assumptions": assume,
          "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if not a.only and a.repo == "/repo":
        json.dump(ev, open(os.path.join(HERE, "evidence", a.prop + ".json"), "w"), indent=1)
    print("%s %s: %d harness(es), %d paths, %d assertion instances, %d queries, solver %.1fs, %d native traces, wall %.1fs" % (
        a.prop, tier, len(reports), cov["states"], sum(h["assertions_checked"] for h in reports), cov["queries_discharged"],
        cov["solver_seconds"], validated, time.time() - t0))
    for l in reduced[:12]:
        print("REDUCED-BOUND", l)
    if violations:
        return 1
    rc = 0
    for v in unrepro:
        print("NO-ANSWER: counterexample not reproduced natively: harness=%s assert=%s inputs=%s where=%s: %s" % (v["harness"], v["assert"], json.dumps(v["inputs"]), v.get("where"), v["native"][:700]))
        rc = 2
    for l in problems + vacuous:
        print("NO-ANSWER:", l)
        rc = 2
    for m in mismatch[:5]:
        print("NO-ANSWER: native run disagrees with the encoding:", m[:1500])
        rc = 2
    return rc


if __name__ == "__main__":
    sys.exit(main())
