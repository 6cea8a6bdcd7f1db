#!/usr/bin/env python3
"""Decides one property: python3 tools/check.py C01 [--tier quick|thorough] [--replay FILE]"""
import argparse, hashlib, json, os, random, re, shutil, sys, tempfile, time
from concurrent import futures

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import infra, jobs, plans

V = infra.VERIF


class Result:
    def __init__(self):
        self.states = self.transitions = self.traces = 0
        self.samples, self.notes, self.violation = [], {}, None
        self.seen, self.counts = {}, dict(known=0, open=0)
        self.exhaustive = []


def known_findings(prop):
    res = []
    for l in open(os.path.join(V, "known_findings.txt")):
        m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
        if m and m.group(1) == prop:
            res.append((m.group(2), m.group(3)))
    return res


def explore(k, spec, work):
    """one exploration of the specification by TLC"""
    cfg = os.path.join(work, "mc-%d.cfg" % k)
    text = "SPECIFICATION %s\n" % spec.get("spec", "MSpec") + spec["constants"]
    text += "CHECK_DEADLOCK %s\n" % ("TRUE" if spec.get("deadlock", True) else "FALSE")
    if spec["inv"]:
        text += "INVARIANTS\n" + "".join("  %s\n" % i for i in spec["inv"])
    if spec.get("live"):
        text += "PROPERTIES\n" + "".join("  %s\n" % i for i in spec["live"])
    open(cfg, "w").write(text)
    # a deviation is found early, and liveness is not checked faster by more workers
    return infra.tlc(spec["mod"], cfg, env=dict(SIZE=spec.get("size", ""), QUIRK=spec.get("quirk", "none")), work=work,
                     workers=2 if spec.get("quirk") or spec.get("live") else 6, heap="4g")


def model_check(prop, plan, work, res):
    """The specification itself: invariants on the exhaustive exploration, deviations found."""
    with futures.ThreadPoolExecutor(4) as pool:
        runs = list(pool.map(lambda a: explore(a[0], a[1], work), enumerate(plan)))
    for spec, r in zip(plan, runs):
        if spec.get("quirk"):
            if not r["violated"]:
                raise infra.ToolError("deviation %s of %s is not noticed by %s" % (spec["quirk"], spec["mod"], spec["inv"]))
            res.notes.setdefault("deviations_noticed", []).append("%s: %s" % (spec["quirk"], r["violated"]))
            continue
        if r["violated"]:
            raise infra.ToolError("the specification %s (%s) violates %s:\n%s" % (spec["mod"], spec.get("size", ""), r["violated"], r["out"][-3000:]))
        res.states += r["states"]
        res.transitions += r["generated"]
        res.exhaustive.append("%s %s: %d states" % (spec["mod"], spec.get("size", ""), r["states"]))
        if spec.get("export"):
            spec["histories"] = plans.histories(r["out"])


def linalg(rng, work, n=60):
    """the Java class that evaluates LinAlg agrees with the definitions"""
    f = os.path.join(work, "linalg.ndjson")
    with open(f, "w") as w:
        for _ in range(n):
            k = rng.choice([1, 2, 3, 4])
            val = lambda: infra.num(repr(rng.choice([rng.uniform(-3, 3), rng.uniform(-3, 3), float(rng.randrange(-2, 3)), rng.uniform(-1, 1) * 1e9])))
            mat = lambda: [[val() for _ in range(k)] for _ in range(k)]
            w.write(json.dumps(dict(a=val(), u=mat()[0], v=mat()[0], m=mat(), k=mat())) + "\n")
    cfg = os.path.join(work, "linalg.cfg")
    open(cfg, "w").write("SPECIFICATION Spec\nINVARIANT Agree\nCHECK_DEADLOCK FALSE\n")
    r = infra.tlc("LinAlgCheck", cfg, env=dict(TRACES=f), work=work)
    if r["violated"]:
        raise infra.ToolError("LinAlg.java is not LinAlg.tla:\n" + r["out"][-2000:])


def validate(prop, mod, pairs, work, res, skip=()):
    """Traces of the real code against a specification; returns the job that violates, or None."""
    while True:
        f = os.path.join(work, "%s-%d.ndjson" % (mod, time.monotonic_ns()))
        with open(f, "w") as w:
            for _, line in pairs:
                w.write(line + "\n")
        cfg = os.path.join(work, mod + ".cfg")
        text = open(os.path.join(infra.SPEC, mod + ".cfg")).read()
        open(cfg, "w").write(text.replace('Prop = "ALL"', 'Prop = "%s"' % prop))
        r = infra.tlc(mod, cfg, env=dict(TRACES=f), work=work)
        os.remove(f)
        ends = infra.printed(r["out"], "VERDICT")
        if r["violated"]:
            m = re.findall(r"^/\\ tid = (\d+)", r["out"], re.M)
            k = int(m[-1]) - 1
            bad = re.findall(r"^/\\ bad = ((?:.|\n)*?)(?=^/\\ |\Z|^\s*$)", r["out"], re.M)
            return pairs[k][0], (bad[-1].strip() if bad else "")
        if len(ends) != len(pairs):
            raise infra.ToolError("%s: %d verdicts for %d traces\n%s" % (mod, len(ends), len(pairs), r["out"][-2000:]))
        res.states += r["states"]
        res.transitions += r["generated"]
        res.traces += len(pairs)
        for v in ends:
            for x in v[3]:
                res.seen[x] = res.seen.get(x, 0) + 1
            for x in v[4]:
                res.counts[x] = res.counts.get(x, 0) + v[4][x]
        return None


def report(prop, job, bad, tier, seed):
    d = os.path.join(V, "replays")
    os.makedirs(d, exist_ok=True)
    body = json.dumps(dict(property=prop, mod=job["mod"], job=job, bad=bad), indent=1)
    path = os.path.join(d, "%s-%s.json" % (prop, hashlib.sha1(body.encode()).hexdigest()[:10]))
    open(path, "w").write(body)
    print("contradicted: " + " ".join(bad.split()))
    print("VIOLATION property=%s replay=%s" % (prop, path))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    o = ap.parse_args()
    prop, tier = o.property, o.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    budget = 560 if tier == "thorough" else 240
    infra.build_java()
    pool = futures.ThreadPoolExecutor(1)
    built = pool.submit(infra.build_harness, prop in plans.UTIL)
    res = Result()
    work = tempfile.mkdtemp(prefix="nrf-%s-" % prop)
    try:
        if o.replay:
            d = json.load(open(o.replay))
            batches = [[d["job"]]]
            plan = dict(mc=[])
        else:
            plan = plans.plan(prop, tier, random.Random("%s-%d-%s" % (prop, seed, tier)))
            linalg(random.Random(seed), work)
            model_check(prop, plan["mc"], work, res)
            batches = plan["jobs"]()
        built.result()
        n = 0
        for batch in batches:
            n += 1
            traces = jobs.run_jobs(batch, work, "b%d" % n)
            for mod in sorted(traces):
                hit = validate(prop, mod, traces[mod], work, res)
                if hit:
                    res.violation = hit
                    break
                if len(res.samples) < 4:
                    j, line = traces[mod][0]
                    res.samples.append(dict(module=mod, job=j["id"], trace=line[:600]))
            if res.violation or time.time() - t0 > budget:
                break
        for key, text in known_findings(prop):
            print("KNOWN-FINDING: property=%s %s" % (prop, text))
        if not o.replay:
            need = []
            ev = dict(property=prop, tier=tier if tier in ("quick", "thorough") else "quick", seed=seed, level="model_checking",
                      coverage=dict(states=res.states, transitions=res.transitions, traces_validated_against_impl=res.traces,
                                    samples=res.samples, exhaustive_explorations=res.exhaustive,
                                    low_level_driven=infra.LOW, situations=dict(sorted(res.seen.items())), comparisons=res.counts, **res.notes),
                      assumptions=plans.ASSUMPTIONS, wall_s=round(time.time() - t0, 1), violations=1 if res.violation else 0)
            os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
            json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
        if res.violation:
            report(prop, res.violation[0], res.violation[1], tier, seed)
            return 1
        if not infra.LOW:
            print("note: the store and the formulas are left out, the harness does not compile with them")
            if not o.replay and res.traces == 0:
                raise infra.ToolError("nothing left to check")
        print("%s: held on %d traces, %d states (%.0f s)" % (prop, res.traces, res.states, time.time() - t0))
        return 0
    except infra.ToolError as e:
        print("ERROR of the check: %s" % e)
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
