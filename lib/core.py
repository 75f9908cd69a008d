"""The check flow: workload -> recorded events from the real code -> oracle ->
verdict, evidence, replay file."""
import collections
import hashlib
import importlib
import json
import multiprocessing
import os
import random
import sys
import time

import runner

VERIF = runner.VERIF
EVID = os.path.join(VERIF, "evidence")


class Spec:
    """one property's monitor"""
    id = None
    family = None
    shards = 7
    step = 60             # seconds without an event before a case counts as unanswered
    deadline = 420        # seconds for the whole workload
    min_ok = 50           # fewer judged events than this: inconclusive
    prepare = None
    env = None
    jvm = None
    level = "exploration"
    rule = ""
    assumptions = []

    def cases(self, rng, tier):
        raise NotImplementedError

    def judge(self, case, ev):
        """-> (status, detail, counters); status: ok | viol | excl"""
        raise NotImplementedError

    def probe(self, case):
        """a case that only exercises the dependency (z3), for unanswered cases"""
        return None

    def extra(self, rng, tier, out):
        """further monitored runs; out(case, ev) records a judged event"""

    def known(self, case, ev, detail):
        """key of the known finding (mechanism) that explains this violation, or None"""
        return None


def _short(ev):
    s = json.dumps(ev.get("ret", ev.get("exc"))) if ev else "none"
    return s if len(s) < 600 else s[:600] + "..."


def _judge(args):
    mod, cls, case, ev = args
    spec = getattr(importlib.import_module(mod), cls)()
    try:
        return spec.judge(case, ev)
    except (TypeError, ValueError, KeyError, IndexError, AttributeError, ZeroDivisionError, AssertionError) as e:
        # every legal result can be judged: this one does not have the form of a result
        return ("viol", "the recorded result cannot be read: %s: %s" % (type(e).__name__, str(e)[:200]), {})
    except Exception as e:                       # the oracle, not the code under test
        import traceback
        return ("oracle", traceback.format_exc()[-1500:], {})


def known_findings():
    """mechanism keys recorded in /verif/known_findings.json"""
    path = os.path.join(VERIF, "known_findings.json")
    with open(path) as f:
        return json.load(f)


def main(spec, argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = os.environ.get("VERIF_SEED", "1")
    t0 = time.time()
    h = int(hashlib.sha256(("%s/%s" % (seed, spec.id)).encode()).hexdigest()[:12], 16)
    rng = random.Random(h)
    os.makedirs(EVID, exist_ok=True)
    ev_path = os.path.join(EVID, spec.id + ".json")
    if "--replay" in argv:
        with open(argv[argv.index("--replay") + 1]) as f:
            rep = json.load(f)
        cases = rep["cases"]
        tier = "replay"
    else:
        cases = spec.cases(rng, tier)
    ids = [c["id"] for c in cases]
    assert len(set(ids)) == len(ids), "duplicate case ids"
    deadline = spec.deadline if tier != "thorough" else 6 * 3600
    res = runner.run(spec.family, cases, shards=spec.shards, step=spec.step,
                     deadline=deadline, prepare=spec.prepare, extra_env=spec.env, jvm=spec.jvm)
    t_run = time.time() - t0
    viols = []           # (case, detail)
    stats = collections.Counter()
    reach = collections.Counter()
    if res.import_exc:
        if runner.REPO + "/" in res.import_exc.split("File")[-1]:
            viols.append(({"id": "import"}, "the module cannot be loaded: " + res.import_exc[-600:]))
        else:
            print("cannot load the driver:\n" + res.import_exc, file=sys.stderr)
            return 2
    byid = {c["id"]: c for c in cases}

    # cases that gave no answer, or ended the process
    lost = [byid[i] for i in res.hangs if i in byid]
    lost += [byid[i] for i, _ in res.crashes if i in byid]
    for c in lost[:6]:
        if time.time() - t0 > 520 and tier == "quick":
            stats["unanswered:not rechecked"] += 1
            continue
        verdict = recheck(spec, c)
        stats["unanswered:" + verdict] += 1
        if verdict == "hang":
            viols.append((c, "no answer: neither a result nor an error (reproduced alone)"))
            break

    jobs = []
    mod, cls = type(spec).__module__, type(spec).__name__
    for c in cases:
        ev = res.events.get(c["id"])
        if ev is not None:
            jobs.append((mod, cls, c, ev))
    nproc = 8 if len(jobs) > 40 else 1
    if nproc > 1:
        with multiprocessing.Pool(nproc) as pool:
            verdicts = pool.map(_judge, jobs, chunksize=8)
    else:
        verdicts = [_judge(j) for j in jobs]
    oracle_fail = []
    nontrivial = set()
    samples = []

    def note(c, ev, st, detail, cnt):
        stats[st if st != "excl" else "excluded:" + detail] += 1
        cnt = dict(cnt or {})
        if cnt.pop("_nt", False) and st in ("ok", "viol"):
            key = json.dumps({k: v for k, v in c.items() if k not in ("id", "shard")}, sort_keys=True)
            k = hashlib.sha256(key.encode()).hexdigest()
            if k not in nontrivial:
                nontrivial.add(k)
                if len(samples) < 4 and len(key) < 3000:
                    samples.append({"case": c, "recorded": _short(ev)})
        for k, v in cnt.items():
            reach[k] += v
        if st == "viol":
            viols.append((c, detail))
        elif st == "oracle":
            oracle_fail.append((c, detail))

    for (_, _, c, ev), (st, detail, cnt) in zip(jobs, verdicts):
        note(c, ev, st, detail, cnt)
    if tier != "replay":
        spec.extra(rng, tier, note)

    # known findings
    kf = [f for f in known_findings().get("findings", []) if f["property"] == spec.id]
    hits = {}
    fresh = []
    for c, d in viols:
        key = spec.known(c, res.events.get(c["id"]), d)
        if key is not None and any(f["key"] == key for f in kf):
            hits[key] = hits.get(key, 0) + 1
        else:
            fresh.append((c, d))
    for f in kf:
        print("KNOWN-FINDING: property=%s %s" % (spec.id, f["what"]))

    replay = None
    if fresh:
        rdir = os.path.join(EVID, "replay")
        os.makedirs(rdir, exist_ok=True)
        replay = os.path.join(rdir, "%s.json" % spec.id)
        with open(replay, "w") as f:
            json.dump({"property": spec.id, "seed": seed, "tier": tier,
                       "cases": history(res, fresh),
                       "details": [d for _, d in fresh[:20]],
                       "how": "python3 check.py %s --replay <this file>" % spec.id}, f, indent=1)
    ok = stats["ok"]
    verdict = "held"
    rc = 0
    if fresh:
        verdict, rc = "violated", 1
    elif oracle_fail:
        verdict, rc = "inconclusive", 2
        print("oracle failed: %s\n%s" % (oracle_fail[0][0], oracle_fail[0][1]), file=sys.stderr)
    elif ok < spec.min_ok and tier != "replay":
        verdict, rc = "inconclusive", 2
        print("only %d events judged (%s)" % (ok, dict(stats)), file=sys.stderr)
    if tier != "replay":
        evidence = {
            "property": spec.id,
            "tier": tier,
            "seed": int(seed) if seed.isdigit() else 0,
            "level": spec.level,
            "coverage": {
                "evaluations": ok + stats["viol"],
                "distinct_nontrivial": len(nontrivial),
                "rule": spec.rule,
                "samples": samples[:4],
                "verdict": verdict,
                "judged": dict(stats),
                "observed": dict(reach),
                "workload_cases": len(cases),
                "not_run_before_deadline": len(res.unrun),
                "processes": res.procs,
                "known_finding_hits": hits,
            },
            "assumptions": spec.assumptions,
            "wall_s": round(time.time() - t0, 1),
            "violations": len(fresh),
        }
        tmp = ev_path + ".tmp"
        with open(tmp, "w") as f:
            json.dump(evidence, f, indent=1, sort_keys=True)
        os.replace(tmp, ev_path)
    print("%s %s: %d events judged ok, %s, %.0f s (run %.0f s)" % (
        spec.id, verdict, ok, {k: v for k, v in stats.items() if k != "ok"}, time.time() - t0, t_run))
    for c, d in fresh[:5]:
        print("  violation: %s :: %s" % (str(d)[:400], json.dumps(c)[:500]))
    if rc == 1:
        print("VIOLATION property=%s replay=%s" % (spec.id, replay))
    return rc


def history(res, fresh):
    """the first violating case with everything its process had run before it, then
    the other violating cases"""
    first = fresh[0][0]["id"]
    out = []
    for g in res.groups:
        ids = [c["id"] for c in g]
        if first in ids:
            out = g[:ids.index(first) + 1]
    seen = set(c["id"] for c in out)
    return out + [c for c, _ in fresh[:20] if "op" in c and c["id"] not in seen]


def recheck(spec, case):
    """a case that gave no answer: is it the code, the dependency, or the machine?"""
    probe = spec.probe(case)
    if probe is not None:
        r = runner.run(spec.family, [probe], shards=1, step=40, deadline=90)
        if probe["id"] not in r.events:
            return "dependency"
    r = runner.run(spec.family, [case], shards=1, step=max(120, spec.step), deadline=200)
    if case["id"] in r.events:
        return "slow"
    return "hang"

