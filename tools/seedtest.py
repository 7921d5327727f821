#!/usr/bin/env python3
"""Validate planted bugs and run the checks against them, in scratch copies.

usage: seedtest.py [--checks] [--jobs N] [ID...]
"""
import argparse, concurrent.futures as cf, json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LOCK = __import__("threading").Lock()
SEED = os.path.join(HERE, "seeded")


def sh(cmd, cwd, t=900):
    try:
        r = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
        return r.returncode, r.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def one(sid, a):
    d = os.path.join(SEED, sid)
    meta = json.load(open(os.path.join(d, "meta.json")))
    tmp = tempfile.mkdtemp(prefix="seed-%s-" % sid)
    res = {"id": sid, "property": meta["property"], "ok": False}
    try:
        repo = os.path.join(tmp, "repo")
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        demo = os.path.join(tmp, "demo")
        shutil.copytree(d, demo)
        e = ". /opt/vp/env.sh; "
        if not a.nodemo:
            rc, out = sh(e + "bash %s/demo.sh" % demo, repo)
            if rc != 0:
                res["why"] = "demo fails on the unchanged tree: " + out[-1500:]
                return res
        rc, out = sh("git apply %s" % os.path.join(d, "patch.diff"), repo)
        if rc != 0:
            res["why"] = "patch does not apply: " + out[-500:]
            return res
        if not a.nodemo:
            with LOCK:  # the tests listen on a fixed port
                rc, out = sh(e + "go build ./... && go test -count=1 ./...", repo)
            if rc != 0:
                res["why"] = "build/tests fail with the patch: " + out[-1500:]
                return res
            rc, out = sh(e + "bash %s/demo.sh" % demo, repo)
            if rc == 0:
                res["why"] = "demo passes with the patch"
                return res
        res["ok"] = True
        if a.checks:
            rc, out = sh("python3 %s/check.py %s --repo %s" % (HERE, a.prop or meta["property"], repo), HERE)
            res["rc"] = rc
            res["caught"] = rc == 1 and ("VIOLATION property=" + (a.prop or meta["property"])) in out
            res["asserts"] = sorted({l.split("assert=")[1].split()[0] for l in out.splitlines() if l.startswith("counterexample:")})
            res["out"] = out[-2500:]
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("ids", nargs="*")
    ap.add_argument("--checks", action="store_true")
    ap.add_argument("--nodemo", action="store_true")
    ap.add_argument("--record", action="store_true", help="write caught_by into meta.json")
    ap.add_argument("--prop", default="")
    ap.add_argument("--jobs", type=int, default=2)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    ids = a.ids or sorted(os.listdir(SEED))
    bad = 0
    with cf.ThreadPoolExecutor(a.jobs) as ex:
        for r in ex.map(lambda i: one(i, a), ids):
            st = "INVALID " + r.get("why", "") if not r["ok"] else ("valid" if "rc" not in r else ("CAUGHT " + ",".join(r["asserts"]) if r["caught"] else "MISSED rc=%d" % r["rc"]))
            print("%-28s %s %s" % (r["id"], r["property"], st), flush=True)
            if r["ok"] and "rc" in r and (not r["caught"] or a.v):
                print(r["out"])
            if a.record and "rc" in r:
                f = os.path.join(SEED, r["id"], "meta.json")
                m = json.load(open(f))
                m["caught_by"] = ("%s: %s" % (r["property"], ", ".join(r["asserts"]))) if r["caught"] else "missed"
                json.dump(m, open(f, "w"), indent=1)
            bad += not r["ok"] or ("rc" in r and not r["caught"])
    return 1 if bad else 0


sys.exit(main())
