"""Jobs: scenarios for the real code, and the traces made of what it did, by specification module.

job = dict(mod=..., id=..., scen=[scenarios], ...)
"""
import concurrent.futures, copy, json, os, random
import infra

BUILDERS = {}


def builder(mod):
    def d(f):
        BUILDERS[mod] = f
        return f
    return d


@builder("NewtonTrace")
def build_solve(job, recs):
    return infra.prep(recs[0])


def strip(ev, keep=False):
    """events without the log, but for the configuration it states if asked for"""
    res = [{k: v for k, v in e.items() if k != "log"} for e in ev if e["e"] != "text"]
    if keep:
        res += [dict(e="text", params=[json.dumps(x, sort_keys=True) for x in e["entries"] if x["t"] == "params"]) for e in ev if e["e"] == "text"]
    return res


def segments(ev):
    segs = []
    for e in ev:
        if e["e"] == "begin":
            segs.append([])
        if segs:
            segs[-1].append(e)
        else:
            segs.append([e])
    return segs


@builder("PairTrace")
def build_pair(job, recs):
    a, b = (strip(infra.prep(r)["ev"], job.get("keep")) for r in recs)
    if job.get("solve") is not None:
        sa = segments(a)
        a = sa[job["solve"]] if job["solve"] < len(sa) else [dict(e="missing")]
    c = recs[0]["cfg"]
    return dict(id=job["id"], prop=job["prop"], mode=job["mode"], tol=infra.num(c["tol"]), stop=c["stop"], a=a, b=b)


NOCONF = dict(n=0, maxiter=0, tol="0", method="none", damping=False, iters=[], stop=[], upd=[])


def last(rec, e):
    """the last event of a kind, a "hang" one if the call did not return"""
    ev = [x for x in rec["ev"] if x["e"] in (e, "hang")]
    return ev[-1] if ev else dict(e="hang")


def canon(v):
    """numbers as the specification reads them"""
    if isinstance(v, dict):
        return {k: canon(x) for k, x in v.items() if k not in ("model", "log")}
    if isinstance(v, list):
        return [canon(x) for x in v]
    if isinstance(v, str):
        try:
            float(v)
        except ValueError:
            return v
        return infra.num(v)
    return v


def tree(nd):
    """a node as TLC's JSON has it; an empty record reads as an empty sequence"""
    return dict(tag=nd["tag"], at=nd["at"] or {}, kids=[tree(k) for k in nd["kids"]])


@builder("XmlTrace")
def build_xml(job, recs):
    e = last(recs[0], "read")
    got = "hang" if e["e"] == "hang" else e["got"]
    d = dict(root=job["doc"]["root"], kids=[tree(k) for k in job["doc"]["kids"]])
    return dict(id=job["id"], mode=recs[0]["mode"], doc=d, got=got, conf=canon(e.get("conf") or NOCONF))


@builder("ParamsTrace")
def build_params(job, recs):
    e = last(recs[0], "built")
    return dict(id=job["id"], call=canon(recs[0]["call"]), got=e.get("got", "hang"), back=canon(e.get("back") or {"n": 0}))


@builder("StoreTrace")
def build_store(job, recs):
    ev = []
    for e in recs[0]["ev"]:
        if e["e"] == "op":
            e = canon(e)
            e["ev"] = [x for x in e["ev"] if x["e"] in ("eval", "jac")]
        ev.append(e if e["e"] == "op" else dict(op="hang", got="hang"))
    return dict(id=job["id"], ev=ev)


@builder("CallTrace")
def build_call(job, recs):
    e = last(recs[0], "value")
    ev = [canon(x) for x in recs[0]["ev"] if x["e"] in ("eval", "jac")]
    return dict(id=job["id"], call=canon(recs[0]["call"]), got=e.get("got", "hang"), v=canon(e.get("v", [])), mem=canon(e.get("mem", [])), ev=ev)


@builder("OneDimTrace")
def build_one(job, recs):
    e = last(recs[0], "ret")
    ev = [canon(x) for x in recs[0]["ev"] if x["e"] in ("f", "d")]
    return dict(id=job["id"], call=canon(recs[0]["call"]), ev=ev, got=e.get("got", "hang"), ret=canon(e.get("x", "NaN")))


@builder("ProblemTrace")
def build_problem(job, recs):
    e = last(recs[0], "values")
    return dict(id=job["id"], name=recs[0]["name"], at=recs[0]["at"], got=e.get("got", "hang"), x=canon(e.get("x", [])), f=canon(e.get("f", [])), j=canon(e.get("j", [])))


# what the crate util is driven through
UTIL = ("OneDimTrace", "ProblemTrace")


def run_chunk(arg):
    """in a worker process: harness and traces of some jobs"""
    jobs, work, name = arg
    scen = [s for j in jobs for s in j["scen"]]
    recs = infra.run_harness(scen, work, name, binary=infra.UTIL if jobs and jobs[0]["mod"] in UTIL else None)
    res, k = [], 0
    for j in jobs:
        r = recs[k:k + len(j["scen"])]
        k += len(j["scen"])
        if len(r) < len(j["scen"]):
            break               # left out after processes that did not return
        res.append((j["key"], json.dumps(BUILDERS[j["mod"]](j, r))))
    for f in os.listdir(work):
        if f.startswith(name + "-") and f.endswith(".log"):
            os.remove(os.path.join(work, f))
    return res


def run_jobs(jobs, work, tag):
    """traces by module: {mod: [(job, json line)]}"""
    if not infra.LOW:
        jobs = [j for j in jobs if not any(s["kind"] in ("store", "call") for s in j["scen"])]
    for k, j in enumerate(jobs):
        j["key"] = k
    n = min(8, max(1, len(jobs) // 40))
    # neighbouring scenarios may cost the same: deal them out
    chunks = [(jobs[c::n], work, "%s%d" % (tag, c)) for c in range(n)]
    out = {}
    with concurrent.futures.ProcessPoolExecutor(n) as ex:
        done = [x for part in ex.map(run_chunk, chunks) for x in part]
    by = {j["key"]: j for j in jobs}
    for key, line in sorted(done):
        out.setdefault(by[key]["mod"], []).append((by[key], line))
    return out
