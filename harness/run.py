#!/usr/bin/env python3
"""Runs one check: TLC on the design models, driver(s) on /repo's code, TLC on the traces; writes the evidence.

usage: run.py <property> [--tier quick|thorough] [--keep]
Exit 0: held on everything explored.  Exit 1: violation (VIOLATION line).  Exit 2: the machinery failed.
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
PY = "/opt/venv/bin/python"
sys.path.insert(0, HERE)
from registry import CHECKS     # noqa: E402

CORES = 8


EVALERR = re.compile(r"The error occurred when TLC was evaluating|TLC encountered an unexpected exception|Attempted to|was overridden|The exception was")


class Machinery(Exception):
    pass


def build_java():
    src = sorted(glob.glob(os.path.join(VERIF, "java", "*.java")))
    h = hashlib.sha1()
    for s in src:
        h.update(open(s, "rb").read())
    out = os.path.join(VERIF, ".build", h.hexdigest()[:16])
    if not os.path.exists(os.path.join(out, "ok")):
        tmp = out + ".%d" % os.getpid()
        os.makedirs(tmp, exist_ok=True)
        r = subprocess.run(["javac", "-nowarn", "-cp", JARS, "-d", tmp] + src, capture_output=True, text=True)
        if r.returncode:
            raise Machinery("javac: " + r.stderr)
        open(os.path.join(tmp, "ok"), "w").close()
        try:
            os.rename(tmp, out)
        except OSError:
            out = out if os.path.exists(os.path.join(out, "ok")) else tmp
    return out


def tlc(jb, scratch, module, cfg=None, env=None, workers=1, extra=(), heap="2g", timeout=800, tag=""):
    """Run TLC; returns (rc, output, states, distinct)."""
    md = tempfile.mkdtemp(prefix="md", dir=scratch)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
           "-XX:TieredStopAtLevel=4", "-Djava.io.tmpdir=" + md,
           "-cp", jb + ":" + JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE", "-nowarning",
           "-config", cfg or (module + ".cfg")] + list(extra) + [module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=SPEC, capture_output=True, text=True, env=e, timeout=timeout)
        rc, out = r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired as x:
        rc, out = 99, "TLC timed out: " + str(x.stdout)[-2000:]
    shutil.rmtree(md, ignore_errors=True)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", ",")) or \
        re.findall(r"(\d[\d,]*) states generated.*?(\d[\d,]*) distinct", out)
    st = tuple(int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
    return rc, out, st[0], st[1]


def brief(out):
    lines = [l for l in out.splitlines() if not l.startswith(("Loading ", "Parsing file", "Semantic proc", "Linting"))]
    return "\n".join(lines[-60:])


def run_driver(scratch, drv, prop, shard, nshards, seed, tier, gen, out):
    rundir = os.path.join(scratch, "run%d" % shard, "work")
    os.makedirs(rundir, exist_ok=True)
    os.makedirs(os.path.join(scratch, "run%d" % shard, "log"), exist_ok=True)
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MPLBACKEND="Agg",
             PYTHONHASHSEED="0", HOME=rundir, TMPDIR=rundir, VERIF_REPO=REPO, MPLCONFIGDIR=rundir,
             PYTHONPYCACHEPREFIX=os.path.join(scratch, "pyc"))
    try:
        r = subprocess.run([PY, "-W", "ignore", os.path.join(HERE, drv + ".py"), prop, str(shard), str(nshards),
                            str(seed), tier, gen or "-", out], cwd=rundir, env=e, capture_output=True, text=True,
                           timeout=700 if tier == "quick" else 6000)
    except subprocess.TimeoutExpired:
        return "timeout", ""
    return r.returncode, r.stdout[-4000:] + r.stderr[-6000:]


def main():
    argv = [a for a in sys.argv[1:] if not a.startswith("--")]
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
        argv = [a for a in argv if a != tier]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    chk = CHECKS[prop]
    t0 = time.time()
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="verif_%s_" % prop, dir=os.environ.get("TMPDIR", "/tmp"))
    try:
        rc = check(prop, tier, seed, chk, scratch, evdir, t0)
    except Machinery as x:
        print("MACHINERY ERROR property=%s: %s" % (prop, x))
        rc = 2
    finally:
        if "--keep" in sys.argv:
            print("kept", scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def check(prop, tier, seed, chk, scratch, evdir, t0):
    jb = build_java()
    viol = []            # dicts: clause, detail, replay data
    states = trans = 0
    design_report = []
    pool = cf.ThreadPoolExecutor(CORES)

    # 1. design models and generators
    jobs = []
    for d in chk.get("design", []):
        if d.get("tier", "quick") == "thorough" and tier != "thorough":
            continue
        jobs.append((d, pool.submit(tlc, jb, scratch, d["module"], d.get("cfg_" + tier, d.get("cfg")), d.get("env"),
                                    d.get("workers", 2), d.get("extra", ()), d.get("heap", "3g"),
                                    d.get("timeout", 800 if tier == "quick" else 6000))))
    gen = None
    genjobs = []
    if chk.get("gen"):
        gen = os.path.join(scratch, "gen")
        os.makedirs(gen)
        for g in chk["gen"]:
            env = {"GEN_OUT": os.path.join(gen, g["name"] + ".json"), "GEN_SEED": str(seed), "GEN_TIER": tier}
            env.update(g.get("env", {}))
            env.update(g.get("env_" + tier, {}))
            genjobs.append((g, pool.submit(tlc, jb, scratch, g["module"], g.get("cfg"), env, 1,
                                           [a.replace("@SEED", str(seed)) for a in g.get("extra_" + tier, g.get("extra", ()))], "2g", 600)))
    generated = 0
    for g, f in genjobs:
        rc, out, a, b = f.result()
        fn = os.path.join(gen, g["name"] + ".json")
        if g.get("lines"):       # behaviours printed one JSON value per line
            beh = []
            for l in out.splitlines():
                if l.startswith('"@@') and l.endswith('"'):
                    beh.append(json.loads(json.loads(l)[2:]))
                elif l.startswith("@@"):
                    beh.append(json.loads(l[2:]))
            json.dump(beh, open(fn, "w"))
            if not beh:
                raise Machinery("generator %s produced nothing: %s" % (g["module"], brief(out)))
            generated += len(beh)
        else:
            if rc != 0 or not os.path.exists(fn):
                raise Machinery("generator %s failed (%s): %s" % (g["module"], rc, brief(out)))
            generated += len(json.load(open(fn)))

    # 2. drivers
    nsh = chk.get("shards_" + tier, chk.get("shards", 4))
    djobs = []
    for drv in chk["driver"] if isinstance(chk["driver"], list) else [chk["driver"]]:
        for s in range(nsh):
            out = os.path.join(scratch, "trace_%s_%d.json" % (drv, s))
            djobs.append((drv, s, out, pool.submit(run_driver, scratch, drv, prop, s, nsh, seed, tier, gen, out)))
    traces = []
    for drv, s, out, f in djobs:
        rc, txt = f.result()
        if rc == "timeout":
            viol.append({"clause": "NoAnswer", "detail": "the code under test did not return within the driver's time limit"})
        elif rc != 0 or not os.path.exists(out):
            # the same calls complete on code that works: either the code under test raised where it must not,
            # or what it returned is not of the form it has to have (None, too few elements, no attribute ...)
            if "Traceback" in txt and not re.search(r"MemoryError|No space left|ENOSPC", txt):
                viol.append({"clause": "Raised" if REPO.rstrip("/") + "/" in txt else "Unusable", "detail": txt[-1500:]})
            else:
                raise Machinery("driver %s failed (%s): %s" % (drv, rc, txt))
        else:
            traces.append(out)

    # 3. trace validation
    tjobs = []
    for out in traces:
        doc = json.load(open(out))
        for tm, part in sorted(doc["parts"].items()):
            runs = part["runs"]
            per = max(1, part.get("chunk", 10**9))
            for c in range(0, max(1, len(runs)), per):
                sub = runs[c:c + per]
                if not sub:
                    continue
                fn = "%s.%s.%d" % (out, tm, c)
                json.dump({"runs": sub, "prop": prop}, open(fn, "w"))
                tjobs.append((tm, fn, sub, doc, pool.submit(tlc, jb, scratch, tm, part.get("cfg"),
                              {"TRACE": fn, "VERDICT": fn + ".verdict"}, 1, (), "3g", 840 if tier == "quick" else 6000)))
    nruns = nevents = judged = skipped = 0
    samples, tally = [], {}
    seen_digest = set()
    for tm, fn, sub, doc, f in tjobs:
        rc, out, a, b = f.result()
        states += b
        trans += a
        vf = fn + ".verdict"
        if os.path.exists(vf):
            v = json.load(open(vf))
        elif EVALERR.search(out) and "OutOfMemory" not in out:
            # the specification has no value for this history (a singular matrix where it has to be regular, a missing
            # element ...): it does not accept it.  What had been judged before is in the error trace.
            st_ = re.findall(r"/\\ rI = (\d+)", out)
            li_ = re.findall(r"/\\ lI = (\d+)", out)
            fl_ = out[out.rfind("/\\ fails ="):]
            v = {"fails": [{"run": int(a_), "clause": c_, "ev": int(b_)} for a_, c_, b_ in sorted(set(re.findall(r'\[run \|-> (\d+), clause \|-> "([^"]+)", ev \|-> (\d+)\]', fl_)))]}
            v["fails"].append({"run": int(st_[-1]) if st_ else 1, "ev": int(li_[-1]) if li_ else 1, "clause": prop + ".hasNoMeaning"})
        else:
            raise Machinery("trace check %s gave no verdict (rc %s): %s" % (tm, rc, brief(out)))
        nruns += len(sub)
        for r in sub:
            nevents += len(r["ev"])
            seen_digest.add(hashlib.sha1(json.dumps(r, sort_keys=True).encode()).hexdigest())
        judged += v.get("judged", 0)
        skipped += v.get("skipped", 0)
        for x in v["fails"]:
            run, ev, cl = x["run"], x["ev"], x["clause"]
            if not cl.startswith(prop + "."):
                tally["other:" + cl] = tally.get("other:" + cl, 0) + 1
                continue
            viol.append({"clause": cl, "module": tm, "run": sub[run - 1].get("name"), "event_no": ev,
                         "event": sub[run - 1]["ev"][ev - 1] if 0 < ev <= len(sub[run - 1]["ev"]) else None,
                         "trace": {"runs": [sub[run - 1]], "prop": prop}})
        if len(samples) < 3 and sub:
            s = json.dumps(sub[0])
            samples.append({"trace_module": tm, "run": sub[0].get("name"), "events": len(sub[0]["ev"]),
                            "first_event": (json.dumps(sub[0]["ev"][0])[:1500] if sub[0]["ev"] else None)})
    for d, f in jobs:
        rc, out, a, b = f.result()
        ok = rc == 0
        states += b
        trans += a
        design_report.append({"module": d["module"], "cfg": d.get("cfg_" + tier, d.get("cfg", d["module"] + ".cfg")), "states_generated": a, "distinct": b, "ok": ok})
        if not ok:
            raise Machinery("design model %s failed: %s" % (d["module"], brief(out)))

    # 4. known findings
    known = []
    kf = os.path.join(VERIF, "known-findings.json")
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf)).get("known", []) if k["property"] == prop]
    left = []
    for v in viol:
        hit = [k for k in known if k["clause"] == v["clause"] and k.get("run") == v.get("run")]
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, hit[0]["what"]))
        else:
            left.append(v)
    cov = {"traces_validated_against_impl": nruns, "states": states, "transitions": trans,
           "evaluations": nevents, "distinct_nontrivial": len(seen_digest),
           "rule": chk.get("rule", "one run = one recorded history of calls on the real code; distinct = different recorded content"),
           "judgements": judged, "judgements_skipped_ill_conditioned": skipped,
           "behaviours_generated_by_tlc": generated, "design_models": design_report, "samples": samples or ["none"],
           "clauses_of_other_properties_seen_failing": tally}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": chk.get("level", "model_checking"), "coverage": cov,
          "assumptions": chk.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(left)}
    json.dump(ev, open(os.path.join(evdir, prop + ".json"), "w"), indent=1)
    if left:
        rdir = os.path.join(evdir, "replay")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s.json" % prop)
        clauses = {}
        for v in left:
            clauses[v["clause"]] = clauses.get(v["clause"], 0) + 1
        json.dump({"property": prop, "clauses": clauses, "first": left[0], "others": [{k: v[k] for k in v if k != "trace"} for v in left[1:10]],
                   "how": "TRACE=<file with the 'trace' object> VERDICT=<out> tlc -config <module>.cfg <module>.tla in /verif/spec; "
                          "the history is replayed on the code by harness/run.py %s with VERIF_SEED=%d" % (prop, seed)}, open(path, "w"), indent=1)
        for c, n in sorted(clauses.items()):
            print("  clause %s failed %d time(s)" % (c, n))
        print("  first: " + json.dumps({k: left[0].get(k) for k in ("clause", "run", "event_no", "detail")})[:1500])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if judged == 0:
        raise Machinery("nothing was judged")
    print("OK property=%s tier=%s runs=%d events=%d judgements=%d skipped=%d states=%d wall=%.1fs" %
          (prop, tier, nruns, nevents, judged, skipped, states, time.time() - t0))
    return 0


if __name__ == "__main__":
    main()
