#!/usr/bin/env python3
"""Decide one property: python3 tools/check.py C03 [quick|thorough]

1. vcgen reads /repo's current source, generates the obligations of every contract tagged with the
   property and has SMT solvers discharge them.
2. the bounded harness runs the executable form of the same postconditions on /repo's current code
   (go test -overlay), to find a concrete failing input and to stand in, labelled bounded, for
   functions outside the verifier's reach.
Exit 0 (held) or 1 with a VIOLATION line.
"""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
sys.path.insert(0, os.path.join(V, "tools"))
import registry  # noqa: E402


def go_env():
    e = dict(os.environ)
    e.update(
        HOME="/root",
        PATH="/opt/veriftools/go1.27.3/bin:" + e.get("PATH", "/usr/bin:/bin"),
        GOTOOLCHAIN="local", GOSUMDB="off", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off",
        GOMODCACHE="/root/go/pkg/mod",
    )
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    return e


def sh(cmd, timeout, cwd=None, env=None):
    p = subprocess.Popen(cmd, cwd=cwd, env=env or go_env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         text=True, errors="replace", start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        o, e = p.communicate()
        return 124, o, e


def build_vcgen(scratch):
    out = os.path.join(V, "bin", "vcgen")
    srcs = [os.path.join(V, "vcgen", f) for f in sorted(os.listdir(os.path.join(V, "vcgen")))]
    h = hashlib.sha256(b"".join(open(f, "rb").read() for f in srcs if os.path.isfile(f))).hexdigest()
    stamp = out + ".stamp"
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == h:
        return out
    out2 = os.path.join(scratch, "vcgen")
    rc, o, e = sh(["go", "build", "-o", out2, "."], 600, cwd=os.path.join(V, "vcgen"))
    if rc != 0:
        raise SystemExit("cannot build vcgen:\n" + o + e)
    try:
        os.makedirs(os.path.dirname(out), exist_ok=True)
        shutil.copy(out2, out + ".new")
        os.replace(out + ".new", out)
        open(stamp, "w").write(h)
    except OSError:
        return out2
    return out


def run_vcgen(vcgen, prop, scratch, extra, timeout, fn=None):
    js = os.path.join(scratch, "vc%d.json" % int(time.time() * 1e6))
    cmd = [vcgen, "-repo", REPO, "-specs", os.path.join(V, "contracts"), "-json", js] + extra
    if fn is not None:
        cmd += ["-fn", fn]
    elif prop:
        cmd += ["-prop", prop]
    rc, o, e = sh(cmd, timeout, cwd=V)
    if not os.path.exists(js):
        return None, (o + e)[-4000:]
    return json.load(open(js)), (o + e)[-4000:]


def failed(r):
    return bool(r.get("error")) or any(vc["status"] != "proved" for vc in (r.get("vcs") or []))


def prove(prop, tier, scratch, again):
    """Returns (results, log). Functions whose obligations did not all discharge get a second run
    on their own with longer solver limits, so that load on the machine does not decide."""
    vcgen = build_vcgen(scratch)
    extra = ["-infer", "700"] if tier == "quick" else ["-quick", "8000", "-slow", "60", "-infer", "4000", "-feas", "1000"]
    if not again and tier == "quick":
        # a failing input is already there: the obligations are only named, not fought for
        extra = ["-quick", "1000", "-slow", "3", "-infer", "700", "-maxfail", "3"]
    res, log = run_vcgen(vcgen, prop, scratch, extra, 450 if again or tier != "quick" else 150)
    if res is None:
        return None, log
    bad = [r for r in res if failed(r)]
    if again and bad and len(bad) <= 12:
        pat = "^(" + "|".join(re.escape(r["name"]).replace("\\ ", " ") for r in bad) + ")$"
        pat = pat.replace("lemma:", "(?:lemma:)?")
        pat2 = "|".join(re.escape(r["name"].split("lemma:")[-1] if "lemma:" in r["name"] else r["name"]) + "$" for r in bad)
        res2, _ = run_vcgen(vcgen, None, scratch, ["-quick", "6000", "-slow", "30", "-infer", "4500", "-feas", "800", "-jobs", "3"], 250, fn=pat2)
        if res2 is not None:
            by = {r["name"]: r for r in res2}
            res = [by.get(r["name"], r) if failed(r) and r["name"] in by and not failed(by[r["name"]]) else r for r in res]
    return res, log


def run_harness(prop, tier, seed, scratch, budget):
    """Returns list of (kind, record)."""
    recs = []
    for unit in registry.HARNESS.get(prop, []):
        pkgdir, files, pkgname = unit["dir"], unit["files"], unit["package"]
        overlay = {"Replace": {}}
        util = open(os.path.join(V, "harness", "verifutil.go.txt")).read().replace("package PKG", "package " + pkgname)
        up = os.path.join(scratch, "verifutil_%s_test.go" % pkgname)
        open(up, "w").write(util)
        dst = os.path.join(REPO, pkgdir)
        overlay["Replace"][os.path.join(dst, "zz_verifutil_test.go")] = up
        for f in files:
            overlay["Replace"][os.path.join(dst, "zz_" + os.path.basename(f))] = os.path.join(V, "harness", f)
        oj = os.path.join(scratch, "overlay_%s.json" % pkgname)
        json.dump(overlay, open(oj, "w"))
        binp = os.path.join(scratch, "h_%s.test" % pkgname)
        rc, o, e = sh(["go", "test", "-c", "-vet=off", "-overlay", oj, "-o", binp, "./" + pkgdir], 400, cwd=REPO)
        if rc != 0 or not os.path.exists(binp):
            recs.append({"kind": "build-failure", "check": "harness for " + pkgdir, "got": (o + e)[-3000:]})
            continue
        outp = os.path.join(scratch, "out_%s.jsonl" % pkgname)
        env = go_env()
        env.update(VERIF_OUT=outp, VERIF_SEED=str(seed), VERIF_TIER=tier, VERIF_BUDGET=str(budget), VERIF_PROP=prop,
                   VERIF_SCRATCH=os.path.join(scratch, "work"))
        os.makedirs(env["VERIF_SCRATCH"], exist_ok=True)
        run = unit.get("run", "^TestVerif%s" % prop)
        rc, o, e = sh([binp, "-test.run", run, "-test.timeout", "%ds" % (budget * 4 + 120)], budget * 4 + 150,
                      cwd=os.path.join(scratch, "work"), env=env)
        got_any = False
        if os.path.exists(outp):
            for line in open(outp, errors="replace"):
                try:
                    recs.append(json.loads(line))
                    got_any = True
                except ValueError:
                    pass
        if rc != 0 and not any(r["kind"] == "fail" for r in recs):
            recs.append({"kind": "fail", "check": "harness process", "input": "process ended with status %d" % rc,
                         "expected": "the harness completes", "got": (o + e)[-4000:]})
        if not got_any:
            recs.append({"kind": "fail", "check": "harness process", "input": "no output", "expected": "records", "got": (o + e)[-4000:]})
    return recs


def known_findings():
    p = os.path.join(V, "known-findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def is_known(k, rec, prop):
    return k["property"] == prop and k.get("check") == rec.get("check") and k.get("input") == rec.get("input")


def write_replay(prop, name, body):
    d = os.path.join(V, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s.json" % (prop, name))
    json.dump(body, open(p, "w"), indent=1)
    return p


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    meta = registry.PROPS[prop]
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        code = decide(prop, tier, seed, meta, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)


def decide(prop, tier, seed, meta, scratch, t0):
    vres, vlog = [], ""
    proof = meta.get("proof", True)
    budget = meta.get("budget", 8) if tier == "quick" else meta.get("thorough_budget", 90)
    known = known_findings()["findings"]
    recs = run_harness(prop, tier, seed, scratch, budget)
    concrete = any(r["kind"] == "fail" and not any(is_known(k, r, prop) for k in known) for r in recs)
    if proof:
        # a failing input settles the verdict; otherwise failed obligations get a second attempt
        vres, vlog = prove(prop, tier, scratch, not concrete)

    bad = []
    if vres is None:
        bad = [{"name": "vcgen", "error": vlog, "vcs": []}]
        vres = []
    elif proof:
        bad = [r for r in vres if failed(r)]
        nob = sum(len(r["vcs"] or []) for r in vres)
        if nob == 0:
            bad = [{"name": "vcgen", "error": "no obligation was generated for " + prop, "vcs": []}]
    fails = [r for r in recs if r["kind"] == "fail"]
    builds = [r for r in recs if r["kind"] == "build-failure"]
    if bad and not fails and tier == "quick" and registry.HARNESS.get(prop):
        # an obligation failed: look harder for a concrete input before saying there is none
        more = run_harness(prop, "thorough", seed + 1, scratch, min(meta.get("thorough_budget", 90), 40))
        fails = [r for r in more if r["kind"] == "fail"]
    reported_known, new = [], []
    for r in fails:
        k = next((k for k in known if is_known(k, r, prop)), None)
        if k:
            reported_known.append(k)
        else:
            new.append(r)
    for k in {json.dumps(k, sort_keys=True): k for k in reported_known}.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))

    stats = [r for r in recs if r["kind"] == "stat"]
    nob = sum(len(r["vcs"] or []) for r in vres)
    ndis = sum(1 for r in vres for vc in (r["vcs"] or []) if vc["status"] == "proved")
    by = {}
    for r in vres:
        for vc in r["vcs"] or []:
            if vc["status"] == "proved":
                by[vc["by"]] = by.get(vc["by"], 0) + 1
    solver_ms = {}
    for r in vres:
        for k, m in (r.get("solver_ms") or {}).items():
            solver_ms[k] = solver_ms.get(k, 0) + m
    assumed = sorted({a for r in vres for a in (r.get("assumed") or [])})
    inl = sorted({a for r in vres for a in (r.get("inlined") or [])})
    level = meta["level"]
    cov = {}
    evals = sum(s.get("evals", 0) for s in stats)
    distinct = sum(s.get("distinct", 0) for s in stats)
    bounded = {
        "label": "bounded: executable postconditions run on generated inputs; never counted as proved",
        "checks": [{k: s.get(k) for k in ("check", "evals", "distinct", "rule", "samples", "exhaustive")} for s in stats],
    }
    if proof:
        cov.update(
            obligations=nob, discharged=ndis,
            checker_cmd="bin/vcgen -repo /repo -specs contracts -prop %s" % prop,
            trusted_base=registry.TRUSTED + assumed,
            functions_under_contract=[
                {"function": r["name"], "at": r.get("pos", ""), "obligations": len(r["vcs"] or []),
                 "discharged": sum(1 for vc in (r["vcs"] or []) if vc["status"] == "proved"),
                 "paths": r.get("paths"), "returns": r.get("returns"), "wall_ms": r.get("ms"),
                 "loop_invariants_kept": r.get("invariants") or [], "callee_contracts_used": r.get("callees") or []}
                for r in vres],
            discharged_by=by, solver_ms=solver_ms, inlined_functions=inl,
            not_proved=registry.PROPS[prop].get("not_proved", ""),
            bounded_standins=bounded,
        )
    if level == "exploration":
        samples = [x for s in stats for x in (s.get("samples") or [])][:20]
        cov.update(evaluations=evals, distinct_nontrivial=distinct,
                   rule="; ".join(sorted({s.get("rule", "") for s in stats})), samples=samples)
    if level == "other":
        cov.update(explanation=meta.get("note", ""))
    rc = 0
    lines = []
    if new:
        rc = 1
        shown = {}
        for r in new:
            shown.setdefault(r.get("check", ""), r)
        for i, (c, r) in enumerate(sorted(shown.items())[:5]):
            body = {"property": prop, "failing": r, "failed_obligations": [vc for b in bad for vc in (b["vcs"] or []) if vc["status"] != "proved"][:10],
                    "rerun": "cd /verif && VERIF_SEED=%d python3 tools/check.py %s %s" % (seed, prop, tier)}
            p = write_replay(prop, "input%d" % i, body)
            lines.append("VIOLATION property=%s replay=%s" % (prop, p))
            print("  check %s\n  input    %s\n  expected %s\n  got      %s" % (c, str(r.get("input"))[:600], str(r.get("expected"))[:600], str(r.get("got"))[:600]))
    elif bad or builds:
        rc = 1
        obs = []
        for b in bad:
            for vc in b["vcs"] or []:
                if vc["status"] != "proved":
                    obs.append({"obligation": vc["name"], "clause": vc["clause"], "status": vc["status"], "verifier_output": vc.get("detail", ""),
                                "model": (vc.get("model") or "")[:4000], "path": vc.get("path", "")})
            if not b["vcs"]:
                obs.append({"obligation": b["name"], "clause": b.get("error", ""), "status": "error"})
        for b in builds:
            obs.append({"obligation": b["check"], "clause": "the executable postconditions build against the current source", "status": "error", "verifier_output": b["got"]})
        p = write_replay(prop, "obligation", {"property": prop, "failed_obligations": obs, "verifier_log": vlog[-3000:],
                                             "rerun": "cd /verif && bin/vcgen -prop %s -v" % prop})
        for o in obs[:8]:
            print("  failed obligation %s: %s (%s)" % (o["obligation"], o["clause"][:300], o["status"]))
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, p))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": registry.ASSUMPTIONS + meta.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(new) + (1 if (not new and (bad or builds)) else 0)}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s: %d/%d obligations discharged in %d functions; %d bounded evaluations (%d distinct); %.1f s" % (
        prop, tier, ndis, nob, len(vres), evals, distinct, time.time() - t0))
    for l in lines:
        print(l)
    return rc


if __name__ == "__main__":
    main()
