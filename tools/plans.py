"""What each check explores: model checking runs, and jobs for the real code, per property."""
import copy, json, random, re
import gens, scen

ASSUMPTIONS = [
    "doubles of the specification are computed by Java (same IEEE-754 operations as Rust, round to nearest)",
    "rounding bounds of spec/Formulas.tla and Newton.tla (first order) cover another order of the same operations",
    "the model of the harness answers as recorded; nalgebra and the standard library are trusted to compute",
]

MC_CONSTANTS = """CONSTANTS
  Quirks <- MyQuirks
  Configs <- MyConfigs
  Replies <- MyReplies
  Asked <- MyAsked
  MaxSolves <- MySolves
"""


def mc(size, inv, quirk=None, export=False, live=None):
    d = dict(mod="MCConf", constants=MC_CONSTANTS, size=size, inv=list(inv) + (["Export"] if export else []), export=export, live=live)
    if quirk:
        d["quirk"] = quirk
    return d


UTIL = ("C26", "C27")    # about the crate util


def small(mod, size, inv, quirk=None, export=False):
    d = dict(mod=mod, constants="CONSTANT Quirks <- MyQuirks\n" if mod in ("MCNewton1D", "MCProblems") else "", deadlock=False, size=size, inv=list(inv) + (["Export"] if export else []), export=export)
    if quirk:
        d["quirk"] = quirk
    return d


# sizes (quick, thorough), invariants, (deviation, size)
MC = {
    "C01": (["tiny"], ["methods", "norms"], ["C01"], [("ignore_flag", "tiny"), ("damp_flag", "tiny")]),
    "C02": (["tiny", "again"], ["methods", "two"], ["C02"], []),
    "C03": (["tiny"], ["methods", "deep"], ["C03"], [("one_more", "tiny")]),
    "C04": (["tiny", "two"], ["methods", "methods2"], ["C04"], [("one_more", "tiny")]),
    "C05": (["tiny", "limits"], ["methods", "norms"], ["C05"], [("no_limit", "limits")]),
    "C06": (["tiny", "deep"], ["methods", "deep"], ["C06", "C06b"], [("always_due", "tiny"), ("never_due", "deep")]),
    "C07": (["deep", "limits"], ["methods", "norms", "deep"], ["C07", "SecantHolds"], [("old_change", "tiny")]),
    "C08": (["limits", "two"], ["norms", "methods2"], ["C08"], [("no_limit", "two")]),
    "C09": (["tiny", "deep"], ["methods", "deep"], ["C09"], [("quarter", "tiny")]),
    "C10": (["tiny"], ["methods", "norms"], ["C10"], [("ignore_flag", "tiny"), ("damp_flag", "tiny")]),
    "C11": (["tiny", "again"], ["methods"], ["C11"], [("swallow", "tiny")]),
    "C12": (["tiny", "again"], ["methods"], ["C12"], [("all_singular", "tiny"), ("one_more", "tiny")]),
    "C13": (["two"], ["methods2"], ["C13"], [("column_one", "two")]),
    "C14": (["limits"], ["norms"], ["C05", "C07"], []),
    "C15": (["two", "limits"], ["norms", "methods2"], ["C01", "C03", "C09"], []),
    "C16": (["again"], ["again"], ["C16", "C03", "C06"], [("remember", "again")]),
    "C17": (["tiny"], ["methods"], ["C01", "C10", "C11"], [("ignore_flag", "tiny"), ("swallow", "tiny")]),
    "C25": (["limits"], ["norms"], ["C01", "C03", "C09"], [("one_more", "limits")]),
    "C28": (["tiny"], ["methods"], ["C28"], [("terse", "tiny"), ("no_phase", "tiny")]),
}


# the other specifications: module, sizes (quick, thorough), invariants, deviations (in the first quick size)
SMALL = {
    "C20": ("MCXml", ["one"], ["one", "two"], ["C20", "C21", "Going"], ["no_override", "damp_default"]),
    "C21": ("MCXml", ["one"], ["one", "two"], ["C20", "C21", "Going"], ["any_bool", "unchecked", "default_unchecked", "any_id", "count_once"]),
    "C22": ("MCParams", ["all"], ["all"], ["C22"], ["zero", "nan", "equal", "shapes", "sizes"]),
    "C26": ("MCNewton1D", ["two"], ["three", "four"], ["C26"], ["one_more", "at_least", "signed", "chord", "from_zero", "previous"]),
    "C27": ("MCProblems", ["grid"], ["fine"], ["C27"], ["once", "row", "sign"]),
    "C24": ("MCStore", ["four"], ["four", "five"], ["C24"], ["keep_old", "stale_inverse", "stale_matrix"]),
}


def histories(text):
    res = []
    for l in text.split("\n"):
        if l.startswith('"HIST '):
            res.append(json.loads(json.loads(l)[5:]))
    # TLC finds them in any order
    return sorted(res, key=lambda h: json.dumps(h, sort_keys=True))


def replay_job(h, k, rng, prop):
    """an exported history or call as a job for the real code"""
    if "doc" in h:
        return gens.xml_job(rng, "h%d" % k, h["mode"], fill(h["doc"]))
    if "call" in h:
        return gens.params_job("h%d" % k, h["call"])
    if "one" in h:
        return gens.one_job("h%d" % k, h["one"], dict(f=[e["v"] for e in h["hist"] if e["e"] == "f"], d=[e["v"] for e in h["hist"] if e["e"] == "d"]))
    if "problem" in h:
        return gens.problem_job("h%d" % k, h["problem"], "x", h["x"])
    if "ops" in h:
        return gens.store_job("h%d" % k, h["ops"], k % 2 == 0)
    j = replay_solve(h, k)
    if prop == "C17":
        s = j["scen"][0]
        t = dict(copy.deepcopy(s), log=True, log_dirty=rng.random() < 0.5)
        return dict(mod="PairTrace", id=s["id"], prop="C17", mode="same", scen=[s, t])
    if prop == "C25":
        s = j["scen"][0]
        t = copy.deepcopy(s)
        t["xml"] = gens.xml_text(rng, gens.xml_conf(rng, s["cfg"], "fd"))
        return dict(mod="PairTrace", id=s["id"], prop="C25", mode="same", scen=[s, t])
    if rng.random() < 0.25:
        j["scen"][0].update(log=True, log_dirty=rng.random() < 0.3)
    return j


def fill(doc):
    """ToJson writes an empty record as []"""
    nd = lambda x: dict(tag=x["tag"], at=x["at"] or {}, kids=[nd(y) for y in x["kids"]])
    return dict(root=doc["root"], kids=[nd(x) for x in doc["kids"]])


def replay_solve(h, k):
    """a history of the specification as a script for the real code"""
    c = dict(h["cfg"])
    evals = [dict(l=e["l"], r=e["r"], out=e["out"]) for e in h["hist"] if e["k"] != "ask"]
    jacs = [dict(dl=e["dl"], dr=e["dr"], out=e["out"]) for e in h["hist"] if e["k"] == "ask"]
    prov = c.pop("provided")
    s = dict(id="h%d" % k, kind="solve", cfg=c, dim="dyn" if k % 2 else "static",
             solves=[dict(model=dict(provided=prov, script=dict(evals=evals, jacs=jacs)))])
    return dict(mod="NewtonTrace", id=s["id"], scen=[s])


# focus of the random scenarios: list of (weight, scripted?, options)
ANY = (2, False, {})
ODD = (1, True, {})
LONG = dict(n=1, provided=True, tol=-1.0, outs=0, twists=False, kind="wave")
FOCUS = {
    "C01": [(3, False, dict(norms="mix", tol=1e-3)), (2, True, dict(odd=1.0)), (2, False, dict(outs=2, norms="mix")), (1, False, dict(kind="domain"))],
    "C02": [(3, False, dict(provided=False, mem=True)), (2, False, dict(damping=True, kind="strong")), ANY, ODD],
    "C03": [(0.015, False, dict(LONG, maxiter=1500)), (0.05, False, dict(LONG, maxiter=300)), (3, False, dict(norms="mix", kind="mild")), (2, False, dict(maxiter=1)), (1, False, dict(maxiter=2)), (1, False, dict(dist=0.0)), ANY, ODD],
    "C04": [(3, False, dict(damping=True, kind="strong")), (2, False, dict(outs=0)), (2, False, dict(twists=True)), ANY, ODD],
    "C05": [(5, False, dict(method="NR")), (2, True, dict(method="NR", odd=0.1)), (1, False, dict(method="NR", norms="mix", provided=False))],
    "C06": [(0.05, False, dict(LONG, qn=1, maxiter=150)), (4, False, dict(damping=True, kind="wave", qn=1, maxiter=12)), (3, False, dict(damping=True, kind="strong", qn=1, maxiter=12)), (2, False, dict(method="SN")), (1, True, dict(damping=True, qn=1))],
    "C07": [(5, False, dict(qn=1, kind="mild", outs=0)), (2, False, dict(qn=1, kind="strong", dist=0.3, outs=0)), (1, False, dict(qn=1, damping=True)), (2, True, dict(qn=1, odd=0.0, outs=0)), (2, False, dict(qn=1, norms="mix", kind="mild"))],
    "C08": [(5, False, dict(limits=True)), (2, False, dict(limits=True, norms="mix", kind="strong")), (2, True, dict(limits=True, odd=0.1))],
    "C09": [(3, False, dict(damping=True, kind="strong")), (3, False, dict(damping=True, kind="wave")), (1, False, dict(damping=False, kind="strong")), (2, True, dict(damping=True, odd=0.0)), (1, False, dict(damping=True, kind="strong", norms="mix", limits=True))],
    "C10": [(4, False, dict(outs=2, outkinds=["inacc"])), (2, False, dict(outs=3, outkinds=["inacc"], damping=True, kind="strong")), (2, True, {}), (1, False, dict(outs=2, outkinds=["inacc"], dist=0.0)), (1, False, dict(outs=2, provided=False))],
    "C11": [(4, False, dict(outs=2, outkinds=["unus"])), (2, False, dict(outs=1, outkinds=["unus", "inacc"], provided=False)), (2, False, dict(outs=1, provided=True)), (2, True, {}), (2, False, dict(outs=2, damping=True, kind="wave"))],
    "C12": [(3, True, dict(odd=1.0)), (2, False, dict(kind="degenerate")), (3, False, dict(twists=True)), (2, False, dict(kind="strong", dist=3.0)), (1, True, dict(odd=1.0, damping=True, limits=True)), (1, True, dict(odd=1.0, log=True))],
    "C13": [(4, False, dict(provided=False, mem=True)), (2, False, dict(provided=False, n=3)), (2, False, dict(provided=False, n=2, norms="mix")), (1, True, dict(provided=False)), (2, False, dict(provided=False, mem=True, damping=True, kind="strong"))],
    "C14": [(5, False, dict(provided=True, norms="mix")), (2, False, dict(provided=True, norms="Rel")), (2, False, dict(provided=True, norms="Adapt")), (2, True, dict(provided=True, norms="mix", odd=0.0))],
    "C15": [(4, False, dict(norms="mix")), (2, False, dict(norms="Rel")), (2, False, dict(norms="Adapt", damping=True, kind="strong")), (2, True, dict(norms="mix"))],
    "C16": [(3, False, dict(solves=3)), (2, False, dict(solves=2, kind="strong", damping=True)), (1, False, dict(solves=3, log=True))],
    "C17": [ANY],
    "C18": [(4, False, dict(log=True)), (3, False, dict(log=True, damping=True, kind="strong")), (2, False, dict(log=True, norms="mix", limits=True)), (1, True, dict(log=True)), (2, False, dict(log=True, solves=2))],
    "C19": [(3, False, dict(log=True, crash=True)), (2, False, dict(log=True, crash=True, damping=True, kind="strong")), (1, False, dict(log=True, outs=2)), (1, False, dict(log=True, solves=3)), (1, True, dict(log=True))],
    "C22": [(1, False, dict(limits=True))],
    "C28": [(4, False, dict(outs=2, outkinds=["unus"])), (2, False, dict(outs=1, provided=True)), (2, False, dict(outs=1, outkinds=["unus"], provided=False)), (1, False, dict(outs=3, outkinds=["inacc"], dist=0.01)), (1, False, dict(maxiter=1)), (2, True, {}), (1, False, dict(kind="degenerate")), (1, False, dict(outs=2, damping=True, kind="strong"))],
    "C23": [(1, False, dict(outs=0))],
}


PRE = ["", "", "a value, out of range: ", "line\n", "\u00e9\u4e2d ", "{} %s \\ \" ", "12", "Model evaluation failed: ", " "]


def random_job(rng, k, focus):
    tot = sum(w for w, _, _ in focus)
    if rng.random() < 0.15:
        script, o = rng.random() < 0.3, {}
    else:
        x = rng.random() * tot
        for w, script, o in focus:
            x -= w
            if x <= 0:
                break
    o = dict(o)
    if o.pop("qn", 0):
        o["method"] = rng.choice(scen.METHODS[2:])
    log, crash = o.pop("log", rng.random() < 0.1), o.pop("crash", False)
    s = (scen.scripted if script else scen.scenario)(rng, "r%d" % k, **o)
    for x in s["solves"]:
        if "model" in x and k % 3 == 0:
            x["model"]["pre"] = PRE[(k // 3) % len(PRE)]
    if log:
        s["log"] = True
        s["log_dirty"] = rng.random() < 0.5
        m = len(s["solves"])
        if m > 1 and rng.random() < 0.2:
            s["log_from"] = rng.randrange(m)
        if m > 1 and rng.random() < 0.15:
            s["log_again"] = rng.randrange(s.get("log_from", 0) + 1, m + 1)
    if crash and not script and rng.random() < 0.7:
        m = s["solves"][0]["model"]
        c = s["cfg"]
        per = 1 if m["provided"] else c["n"] + 1
        if m["provided"] and rng.random() < 0.3:
            m.setdefault("jouts", {})[str(rng.randrange(0, 4))] = "panic"
        m.setdefault("outs", {})[str(rng.randrange(0, per * min(c["maxiter"], 6) + 2))] = "panic"
    return dict(mod="NewtonTrace", id=s["id"], scen=[s])


def clear(s):
    """a scenario without memory: what a later solve depends on is in the scenario"""
    for x in s["solves"]:
        if "model" in x:
            x["model"].pop("mem", None)
    return s


def pair_repeat(rng, k):
    s = clear(scen.scenario(rng, "p%d" % k, solves=rng.choice([2, 2, 3, 4])))
    j = rng.randrange(1, len(s["solves"]))
    src = max(i for i in range(j + 1) if "model" in s["solves"][i])
    fresh = dict(copy.deepcopy(s), solves=[copy.deepcopy(s["solves"][src])])
    lone = [s, fresh]
    # the segment of the used solver against the fresh one
    return dict(mod="PairTrace", id="p%d" % k, prop="C16", mode="same", scen=lone, solve=j)


def pair_log(rng, k):
    s = (scen.scripted if rng.random() < 0.3 else scen.scenario)(rng, "p%d" % k)
    if rng.random() < 0.1 and "formula" in s["solves"][0]["model"]:
        s["solves"][0]["model"].setdefault("outs", {})[str(rng.randrange(8))] = "panic"
    t = dict(copy.deepcopy(s), log=True, log_dirty=rng.random() < 0.5)
    return dict(mod="PairTrace", id="p%d" % k, prop="C17", mode="same", scen=[s, t])


def pair_adapter(rng, k):
    prov = rng.random() < 0.5
    s = clear(scen.scenario(rng, "p%d" % k, outs=0, provided=prov, solves=rng.choice([1, 1, 2]), dim="dyn"))
    for x in s["solves"]:
        if "model" in x:
            x["model"]["provided"] = prov
            x["model"]["merge"] = True
            x["model"]["outs"], x["model"]["jouts"] = {}, {}
            x["model"].pop("twists", None), x["model"].pop("jtwists", None)
    t = copy.deepcopy(s)
    t["adapter"] = rng.choice(["fn", "closure"]) + ("jac" if prov else "")
    return dict(mod="PairTrace", id="p%d" % k, prop="C23", mode="same", scen=[s, t])


def pair_static(rng, k):
    s = clear(scen.scenario(rng, "p%d" % k, outs=0, twists=False, usual=True, norms="Abs", solves=1, kind=rng.choice(["mild", "linear"]), dist=rng.choice([0.01, 0.1, 0.3]), n=rng.randrange(1, 7), dim="dyn", dx=0.4, limits=rng.random() < 0.2))
    t = dict(copy.deepcopy(s), dim="static")
    return dict(mod="PairTrace", id="p%d" % k, prop="C23", mode="close", scen=[s, t])


def pair_flags(rng, k):
    """evaluations flagged as inaccurate, or not"""
    focus = rng.choice([dict(), dict(damping=True, kind=rng.choice(["strong", "wave"])), dict(provided=False), dict(norms="mix"), dict(dist=0.0)])
    s = clear((scen.scripted if rng.random() < 0.2 else scen.scenario)(rng, "p%d" % k, **dict(focus, outs=0, solves=1)))
    m = s["solves"][0]["model"]
    t = copy.deepcopy(s)
    if "script" in m:
        for e in m["script"]["evals"] + m["script"]["jacs"]:
            e["out"] = "ok"
        t = copy.deepcopy(s)
        p = rng.choice([0.1, 0.5, 1.0])
        for e in t["solves"][0]["model"]["script"]["evals"]:
            e["out"] = "inacc" if rng.random() < p else "ok"
    else:
        m["outs"], m["jouts"] = {}, {}
        p = rng.choice([0.05, 0.2, 0.6, 1.0])
        t = copy.deepcopy(s)
        t["solves"][0]["model"]["outs"] = {str(j): "inacc" for j in range(250) if rng.random() < p}
    return dict(mod="PairTrace", id="p%d" % k, prop="C10", mode="flags", scen=[s, t])


DEFAULT = dict(msa="inf", msr="inf", lo="-inf", hi="inf", dxa="5e-8", dxr="5e-8", pm="Max")


def pair_built(rng, k):
    """the same configuration, stated otherwise"""
    how = rng.choice(["xml", "xml", "default", "default", "iters", "parts"])
    # some that converge slowly: the tolerance and the budget of the default solver matter
    slow = rng.choice([{}, {}, dict(method="SN", kind="mild", dist=0.3), dict(method="SN", kind="strong"), dict(kind="wave", damping=True), dict(kind="degenerate")])
    o = dict(slow, norms=rng.choice(["Abs", "mix", "mix"]), limits=rng.random() < 0.5)
    if how == "default":
        o.update(tol=1e-6, maxiter=50)
    if rng.random() < 0.3:
        o["n"] = rng.choice([1, 1, 2, 3])
    s = clear((scen.scripted if rng.random() < 0.1 and how != "default" else scen.scenario)(rng, "p%d" % k, **o))
    c = s["cfg"]
    if how == "xml" and (not c["n"] or not c["tol"][0].isdigit()):
        how = "parts"
    if how == "default":
        c.update(tol="1e-6", maxiter=50)
    if how in ("default", "iters") and c["n"] and rng.random() < 0.7:
        c["iters"] = [dict(DEFAULT) for _ in c["iters"]]
    if how != "xml" and rng.random() < 0.4:
        c["stop"], c["upd"] = ["Abs"] * c["n"], ["Abs"] * c["n"]
    t = copy.deepcopy(s)
    if how == "xml":
        t["xml"] = gens.xml_text(rng, gens.xml_conf(rng, c, "jac" if s.get("plain") else "fd"))
    if how == "default":
        t["default"] = True
    if all(i == DEFAULT for i in c["iters"]):
        t["default_iters"] = True
    elif rng.random() < 0.7:
        t["extended"] = True
    if set(c["stop"] + c["upd"]) <= {"Abs"} and rng.random() < 0.8:
        t["default_res"] = True
    else:
        t["single_res"] = True
    if rng.random() < 0.2:
        s["log"] = t["log"] = True
    return dict(mod="PairTrace", id="p%d" % k, prop="C25", mode="same", scen=[s, t], keep=True)


PAIRS = {"C25": [pair_built], "C10": [pair_flags], "C16": [pair_repeat], "C17": [pair_log], "C23": [pair_adapter, pair_static]}


def plan(prop, tier, rng):
    thorough = tier == "thorough"
    runs = []
    if prop in MC:
        quick, deep, inv, quirks = MC[prop]
        for k, size in enumerate(deep if thorough else quick):
            runs.append(mc(size, inv, export=(k == 0)))
        for q, size in quirks:
            runs.append(mc(size, inv, quirk=q))
        if prop == "C12":
            runs.append(mc("again", [], live=["Terminates"]))
    if prop in SMALL:
        mod, quick, deep, inv, quirks = SMALL[prop]
        for size in (deep if thorough else quick):
            runs.append(small(mod, size, inv, export=True))
        for q in quirks:
            runs.append(small(mod, quick[0], inv, quirk=q))
        if prop == "C26":
            runs.append(dict(small(mod, quick[0], []), live=["Ends"]))

    def units(size):
        """single calls of the real code"""
        js = []
        if prop in ("C20", "C21"):
            js += [gens.random_xml(rng, k, 0.2 if prop == "C20" else 0.9) for k in range(size)]
        if prop == "C22":
            js += [gens.random_params(rng, k) for k in range(size)]
        if prop in ("C24", "C07", "C13", "C14", "C11"):
            js += [gens.random_store(rng, k) for k in range(size if prop == "C24" else size // 4)]
        if prop == "C26":
            js += [gens.random_one(rng, k) for k in range(size)]
        if prop == "C27":
            js += gens.points() + [gens.random_problem(rng, k) for k in range(size // 2)]
        if prop in gens.CALLS:
            js += [gens.random_call(rng, k, rng.choice(gens.CALLS[prop])) for k in range(size)]
        return js

    def batches():
        hs = [h for r in runs for h in r.get("histories", [])]
        rng.shuffle(hs)
        hs = hs[:20000 if thorough else 6000 if prop in SMALL else 1500]
        js = [replay_job(h, k, rng, prop) for k, h in enumerate(hs)]
        sizes = [4000] * 12 if thorough else [3200]
        for b, size in enumerate(sizes):
            part = js[b * 4000:(b + 1) * 4000] if thorough else js
            if prop in FOCUS:
                part += [random_job(rng, k, FOCUS[prop]) for k in range(size if prop not in PAIRS else size // 2)]
            part += units(size)
            for f in PAIRS.get(prop, []):
                part += [f(rng, k) for k in range(size if prop not in FOCUS else size // 2 // len(PAIRS[prop]))]
            yield part

    return dict(mc=runs, jobs=batches)
