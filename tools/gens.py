"""Random inputs of the single-call specifications (XmlTrace, ParamsTrace, StoreTrace, CallTrace)."""
import math, random
import scen
from scen import METHODS, NORMS, r, rs

# ----------------------------------------------------------------------------
# XML documents: [root, kids], a node is [tag, at, kids]

FLOATS = ["1", "0.5", "100", "1e-3", "2.5E+2", "+4", "12.", ".75", "inf", "7", "0.125", "1e10", "1e-6", "0.1000000000000000055511151231257827", "3e-310", "5e-324", "1.7e308", "123456789.987654321", "1e400"]
BAD = {
    "float": ["", "x", "1,5", "--1", "1e", "e5", "0x10", "1 2", " 1", "1 ", "one", "1.2.3", "infx", "+", "."],
    "int": ["", "-1", "1.0", "x", " 2", "1e1", "99999999999999999999999", "0x1", "two", "1_0"],
    "norm": ["abs", "ABS", "Absolute", "", "rel", "adapt", "Adaptative", "Max", "Abs ", " Rel"],
    "pert": ["max", "sum", "", "MAX", "Abs", "Sum ", "Min"],
    "bool": ["True", "False", "TRUE", "1", "0", "", "yes", "no", " true"],
    "method": ["", "nr", "Nr", "sn", "BROY", "BROY3", "broy1", "BROY1INV", "BROY1_inv", "GRST", "GRST1_INV ", "NewtonRaphson"],
}
ITER = ["min_value", "max_value", "max_step_abs", "max_step_rel"]
FD = ["dx_abs", "dx_rel", "perturbation_method"]


def kind(a):
    if a in ("problem_size", "max_iter", "id"):
        return "int"
    if a in ("stopping_criteria", "update_method"):
        return "norm"
    return {"perturbation_method": "pert", "damping": "bool", "resolution_method": "method"}.get(a, "float")


def good(rng, a):
    k = kind(a)
    if a == "min_value":
        return rng.choice(["-inf", "-3", "-1e3", "-0.5", "0", "-7.25", "-1.6e308", "-0.30000000000000004", "-0"])
    if a == "max_value":
        return rng.choice(["inf", "3", "1e3", "0.5", "+8", "10", "1.6e308", "5e-324"])
    if k == "float":
        return rng.choice(FLOATS)
    if a == "max_iter" and rng.random() < 0.2:
        return rng.choice(["255", "256", "32768", "65536", "70000", "16777217", "999999999", "4294967297", "9223372036854775807"])
    return rng.choice({"norm": NORMS, "pert": ["Max", "Sum"], "bool": ["true", "false"], "method": METHODS,
                       "int": ["0", "1", "2", "17", "+5", "0060", "1000"]}[k])


def xml_doc(rng, mode):
    n = rng.choice([1, 1, 2, 2, 3, 4, 6, 11])
    names = ITER + (FD if mode == "fd" or rng.random() < 0.2 else [])
    p = rng.choice([0.0, 0.2, 0.5, 1.0])
    solver = dict(problem_size=str(n), max_iter=good(rng, "max_iter"), tolerance=good(rng, "tolerance"), resolution_method=rng.choice(METHODS))
    if rng.random() < 0.7:
        solver["damping"] = good(rng, "damping")
    its = [dict(tag="iterative", at=dict([("id", str(k))] + [(a, good(rng, a)) for a in names if rng.random() < p]), kids=[]) for k in range(n)]
    res = [dict(tag="residual", at=dict([("id", str(k))] + [(a, good(rng, a)) for a in ("stopping_criteria", "update_method") if rng.random() < p]), kids=[]) for k in range(n)]
    return dict(root="nrf", kids=[
        dict(tag="solver", at=solver, kids=[]),
        dict(tag="iteratives", at={a: good(rng, a) for a in names}, kids=its),
        dict(tag="residuals", at={a: good(rng, a) for a in ("stopping_criteria", "update_method")}, kids=res)])


def xml_spoil(rng, d):
    """one change of the document, most often a defect"""
    nodes = list(d["kids"])
    for k in d["kids"]:
        nodes += k["kids"]
    nd = rng.choice(nodes)
    t = rng.random()
    lst = rng.choice([d["kids"]] + [k["kids"] for k in d["kids"] if k["kids"]])
    if t < 0.35 and nd["at"]:
        a = rng.choice(sorted(nd["at"]))
        nd["at"][a] = rng.choice(BAD[kind(a)])
    elif t < 0.55 and nd["at"]:
        del nd["at"][rng.choice(sorted(nd["at"]))]
    elif t < 0.59 and nd["at"]:
        # an attribute of another spelling is not the attribute
        a = rng.choice(sorted(nd["at"]))
        nd["at"][rng.choice([a.upper(), a.capitalize(), a.replace("_", "-"), a + "s", a.rstrip("s") + "_", "x" + a])] = nd["at"].pop(a)
    elif t < 0.62:
        g = nd["tag"]
        nd["tag"] = rng.choice([g.upper(), g.capitalize(), g + "s", g[:-1], g.swapcase()])
    elif t < 0.65:
        nd["tag"] = rng.choice(["nrf", "solver", "iteratives", "iterative", "residuals", "residual", "Residual", "iterativ"])
    elif t < 0.72 and lst:
        if rng.random() < 0.5:
            lst.pop(rng.randrange(len(lst)))
        else:
            # as many more as you like, with the ids that follow
            k = rng.choice(d["kids"])
            for _ in range(rng.choice([1, 1, 2, 3, 7])):
                if k["kids"]:
                    k["kids"].append(dict(tag=k["kids"][0]["tag"], at={"id": str(len(k["kids"]))}, kids=[]))
    elif t < 0.79 and len(lst) > 1:
        i, j = rng.sample(range(len(lst)), 2)
        lst[i], lst[j] = lst[j], lst[i]
    elif t < 0.83 and lst:
        k = rng.randrange(len(lst))
        lst.insert(k, dict(tag=lst[k]["tag"], at=dict(lst[k]["at"]), kids=[]))
    elif t < 0.93:
        bad = rng.choice([("max_step_abs", "0"), ("max_step_rel", "-0.0"), ("max_step_abs", "-inf"), ("dx_abs", "0"), ("dx_rel", "-1"),
                          ("min_value", "50"), ("max_value", "-50"), ("min_value", "inf"), ("max_value", "-inf"), ("min_value", "NaN"), ("dx_abs", "NaN")])
        it = [x for x in nodes if x["tag"] in ("iterative", "iteratives")]
        if it:
            x = rng.choice(it)
            x["at"][bad[0]] = bad[1]
            if bad[0] == "min_value" and bad[1] != "NaN" and rng.random() < 0.5:
                x["at"]["max_value"] = bad[1]        # equal
    elif t < 0.97:
        d["kids"][0]["at"]["problem_size"] = str(rng.randrange(0, 9))
    else:
        d["root"] = rng.choice(["NRF", "root", "solver"])


def xml_text(rng, d):
    esc = lambda s: s.replace("&", "&amp;").replace("<", "&lt;").replace('"', "&quot;").replace("'", "&apos;")
    plain = rng.random() < 0.4
    gap = (lambda: "\n") if plain else (lambda: rng.choice(["", " ", "\n", "\n\t", "  \n  ", "\n<!-- note -->\n"]))
    blank = (lambda: " ") if plain else (lambda: rng.choice([" ", "  ", "\n  "]))

    def node(nd, ns=""):
        at = list(nd["at"].items())
        if not plain:
            rng.shuffle(at)
        q = '"' if plain else rng.choice("\"\"'")
        s = "<" + nd["tag"] + ns + "".join("%s%s=%s%s%s" % (blank(), a, q, esc(v), q) for a, v in at)
        if nd["kids"]:
            return s + ">" + gap() + "".join(node(k) + gap() for k in nd["kids"]) + "</%s>" % nd["tag"]
        return s + ("/>" if plain or rng.random() < 0.7 else "></%s>" % nd["tag"])
    head = rng.choice(["", '<?xml version="1.0" encoding="UTF-8" standalone="no" ?>\n', '<?xml version="1.0"?>\n'])
    return head + node(dict(tag=d["root"], at={}, kids=d["kids"])) + "\n"


XML = dict(msa="max_step_abs", msr="max_step_rel", lo="min_value", hi="max_value", dxa="dx_abs", dxr="dx_rel", pm="perturbation_method")


def xml_conf(rng, cfg, mode):
    """a document that states this configuration"""
    names = [a for a in XML if mode == "fd" or a not in ("dxa", "dxr", "pm")]
    p = rng.choice([0.0, 0.3, 1.0])

    def nodes(tag, attrs, own):
        """what differs from the defaults is stated, the rest sometimes"""
        base = rng.choice(own)
        kids = [dict(tag=tag, at=dict([("id", str(k))] + [(a, o[a]) for a in attrs if o[a] != base[a] or rng.random() < p]), kids=[]) for k, o in enumerate(own)]
        return {a: base[a] for a in attrs}, kids
    ia, ik = nodes("iterative", [XML[a] for a in names], [{XML[a]: it[a] for a in names} for it in cfg["iters"]])
    ra, rk = nodes("residual", ["stopping_criteria", "update_method"], [dict(stopping_criteria=a, update_method=b) for a, b in zip(cfg["stop"], cfg["upd"])])
    solver = dict(problem_size=str(cfg["n"]), max_iter=str(cfg["maxiter"]), tolerance=cfg["tol"], resolution_method=cfg["method"])
    if cfg["damping"] or rng.random() < 0.5:
        solver["damping"] = "true" if cfg["damping"] else "false"
    return dict(root="nrf", kids=[dict(tag="solver", at=solver, kids=[]), dict(tag="iteratives", at=ia, kids=ik), dict(tag="residuals", at=ra, kids=rk)])


def xml_job(rng, ident, mode, doc):
    s = dict(id=ident, kind="xml", mode=mode, text=xml_text(rng, doc))
    return dict(mod="XmlTrace", id=ident, scen=[s], doc=doc)


def random_xml(rng, k, spoil):
    mode = rng.choice(["fd", "jac"])
    d = xml_doc(rng, mode)
    if rng.random() < spoil:
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            xml_spoil(rng, d)
    return xml_job(rng, "d%d" % k, mode, d)


# ----------------------------------------------------------------------------
SPECIAL = [0.0, -0.0, 1.0, -1.0, 5e-324, -5e-324, 1e-300, 1e300, float("inf"), float("-inf"), float("nan"), 2.5, -7.0]


def any_float(rng):
    t = rng.random()
    if t < 0.45:
        return rng.choice(SPECIAL)
    if t < 0.6:
        return math.ldexp(rng.uniform(-1, 1), rng.randrange(-1000, 1000))
    return rng.uniform(-3, 6)


def params_job(ident, call):
    return dict(mod="ParamsTrace", id=ident, scen=[dict(id=ident, kind="params", call=call)])


def random_params(rng, k):
    fn = rng.choice(["iter", "iter", "iterfd", "iterfd", "extend", "config", "values", "jacs", "solver", "params", "defaults"])
    fl = lambda: r(any_float(rng))
    pos = lambda: r(rng.choice([1.0, 0.3, 5e-324, float("inf"), rng.uniform(0, 9) + 1e-9])) if rng.random() < 0.7 else fl()
    c = dict(fn=fn)
    if fn in ("iter", "iterfd", "extend"):
        lo, hi = any_float(rng), any_float(rng)
        if rng.random() < 0.6 and lo == lo and hi == hi:
            lo, hi = min(lo, hi), max(lo, hi)
        c.update(msa=pos(), msr=pos(), lo=r(lo), hi=r(hi))
        if fn != "iter":
            c.update(dxa=pos(), dxr=pos(), pm=rng.choice(["Max", "Sum"]))
    n = rng.randrange(0, 9)
    m = n if rng.random() < 0.6 else rng.randrange(0, 9)
    if fn == "config":
        c.update(stop=[rng.choice(NORMS) for _ in range(n)], upd=[rng.choice(NORMS) for _ in range(m)])
    if fn == "values":
        c.update(l=[fl() for _ in range(n)], r=[fl() for _ in range(m)])
    if fn == "jacs":
        n, m = 1 + n % 5, 1 + m % 5
        a, b = (n, n) if rng.random() < 0.7 else (n, m)
        e, f = (a, b) if rng.random() < 0.6 else (1 + rng.randrange(5), 1 + rng.randrange(5))
        c.update(dl=[[fl() for _ in range(b)] for _ in range(a)], dr=[[fl() for _ in range(f)] for _ in range(e)])
    if fn == "solver":
        n = 1 + n
        v = [n, n, n, n]
        for _ in range(rng.choice([0, 1, 1, 2])):
            v[rng.randrange(4)] = rng.randrange(1, 10)
        c.update(default=rng.random() < 0.5, n=v[0], guess=v[1], iters=v[2], res=v[3])
    if fn == "params":
        c.update(n=rng.randrange(0, 200), tol=r(abs(any_float(rng))) , maxiter=rng.choice([0, 1, 50, 100000]), method=rng.choice(METHODS), damping=rng.random() < 0.5)
    if fn == "defaults":
        c.update(n=rng.randrange(1, 40))
    return params_job("q%d" % k, c)


# ----------------------------------------------------------------------------
def matrix(rng, n, kind=None):
    t = kind or rng.choice(["dominant", "dominant", "random", "random", "scaled", "zero row", "zero column", "zero", "near", "diag"])
    a = [[rng.uniform(-2, 2) for _ in range(n)] for _ in range(n)]
    if t == "dominant":
        for i in range(n):
            a[i][i] += rng.choice([-1, 1]) * 2 * n
    elif t == "scaled":
        d = [10.0 ** rng.randrange(-6, 7) for _ in range(n)]
        a = [[a[i][j] * d[i] for j in range(n)] for i in range(n)]
    elif t == "zero row":
        a[rng.randrange(n)] = [0.0] * n
    elif t == "zero column":
        j = rng.randrange(n)
        for i in range(n):
            a[i][j] = 0.0
    elif t == "zero":
        a = [[0.0] * n for _ in range(n)]
    elif t == "near" and n > 1:
        a[0] = [x * (1 + rng.choice([0, 1e-15, 1e-9])) for x in a[1]]
    elif t == "diag":
        a = [[rng.choice([1.0, -2.0, 0.25, 1e-200, 1e200]) if i == j else 0.0 for j in range(n)] for i in range(n)]
    return [rs(x) for x in a]


def vector(rng, n):
    if rng.random() < 0.06:
        return rs([rng.choice([0.0, 0.0, float("nan"), float("inf"), 1.0]) for _ in range(n)])
    s = 10.0 ** rng.randrange(-6, 2)
    return rs([s * rng.uniform(-1, 1) for _ in range(n)])


def random_store(rng, k):
    n = rng.choice([1, 2, 2, 3, 3, 4, 5, 7])
    ops = []
    for _ in range(rng.randrange(3, 16)):
        t = rng.choice(["exact", "exact", "approx", "inverse", "force", "invalidate", "update", "update", "updateinv", "updateinv", "fd", "given"])
        o = dict(op=t)
        if t in ("exact", "approx", "inverse"):
            o["mat"] = matrix(rng, n)
        elif t in ("update", "updateinv"):
            if not ops or rng.random() < 0.4:
                ops.append(dict(op="exact", mat=matrix(rng, n, "dominant")))
            fam = rng.choice(["BROY1", "BROY2", "GRST1", "GRST2"])
            o.update(method=fam if t == "update" else fam + "_INV", s=vector(rng, n), y=vector(rng, n), f=vector(rng, n))
        elif t in ("fd", "given"):
            fo = scen.Formula(rng, n, rng.choice(["linear", "mild", "strong", "degenerate"]))
            x = [a + rng.uniform(-1, 1) for a in fo.root]
            m = dict(provided=t == "given", formula=fo.json())
            if rng.random() < 0.4:
                m["mem"], m["gain"] = rs([rng.uniform(-1, 1) for _ in range(n)]), "0.01"
            if rng.random() < 0.3:
                m["outs"] = {str(rng.randrange(1, n + 1)): rng.choice(["inacc", "unus"])}
                m["jouts"] = {"0": rng.choice(["inacc", "unus", "ok"])}
            norms = [rng.choice(NORMS) for _ in range(n)] if rng.random() < 0.5 else ["Abs"] * n
            o.update(n=n, model=m, x=rs(x), upd=norms, iters=scen.iter_params(rng, n, False, rng.choice([None, 0.7, 0.9])))
        ops.append(o)
    return store_job("s%d" % k, ops, rng.random() < 0.5)


def store_job(ident, ops, default=False):
    return dict(mod="StoreTrace", id=ident, scen=[dict(id=ident, kind="store", default=default, ops=ops)])


# ----------------------------------------------------------------------------
CALLS = {
    "C07": ["b1j", "b1h", "b2j", "b2h", "gj", "gh", "g2j"],
    "C08": ["limit", "limit1"],
    "C13": ["perturb", "fdjac", "fdjac", "fdjac"],
    "C14": ["dnorm", "dnorm", "djac"],
    "C15": ["norm", "norm", "upd", "stop"],
}


def value(rng):
    t = rng.random()
    if t < 0.12:
        return rng.choice([0.0, -0.0, 1.0, -1.0, 2.0])
    if t < 0.2:
        return rng.choice(SPECIAL)
    if t < 0.6:
        return rng.uniform(-5, 5)
    return rng.choice([-1, 1]) * 10.0 ** (rng.uniform(-12, 12) if t < 0.9 else rng.uniform(-90, 90))


def random_call(rng, k, fn):
    n = rng.choice([1, 2, 3, 4, 6])
    c = dict(fn=fn)
    norms = [rng.choice(NORMS) for _ in range(n)]

    def members():
        l = value(rng)
        t = rng.random()
        if t > 0.97:
            # both below the normal numbers, or about to overflow
            return rng.choice([(rng.uniform(-3, 3) * 1e-308, rng.uniform(-3, 3) * 1e-309), (5e-324, 1e-323), (-5e-324, 0.0), (2.0 ** -1060, -5e-324), (1e-300, 3e-300), (-2e-306, 1e-305), (3e300, -1e306)])
        if t > 0.9:
            # members of the same magnitude
            return l, l * rng.uniform(-3, 3)
        return l, (l if t < 0.07 else -l if t < 0.1 else -l * (1 + rng.choice([-1, 1]) * 10 ** rng.uniform(-12, 0)) if t < 0.18 else 0.0 if t < 0.25 else l * (1 + rng.uniform(-1, 1) * 10 ** rng.uniform(-12, 0)) if t < 0.4 else value(rng))
    if fn in ("norm", "dnorm"):
        l, rr = members()
        c.update(l=r(l), r=r(rr), meth=rng.choice(NORMS))
        if fn == "dnorm":
            a, b = members()
            c.update(dl=r(a), dr=r(b))
    elif fn in ("upd", "stop", "djac"):
        p = [members() for _ in range(n)]
        c.update(l=rs([a for a, _ in p]), r=rs([b for _, b in p]), meths=norms)
        if fn == "djac":
            q = [[members() for _ in range(n)] for _ in range(n)]
            c.update(dl=[rs([a for a, _ in w]) for w in q], dr=[rs([b for _, b in w]) for w in q])
    elif fn in ("limit", "limit1"):
        n = 1 if fn == "limit1" else n
        its = []
        for _ in range(n):
            lo = rng.choice([float("-inf"), rng.uniform(-5, 0), -1e-9])
            hi = rng.choice([float("inf"), rng.uniform(0.001, 5), 1e-9])
            its.append(dict(msa=r(rng.choice([float("inf"), 1e-6, 0.1, 1.0, 10.0, rng.uniform(0.001, 3)])), msr=r(rng.choice([float("inf"), 1e-3, 0.2, 1.0, 1.5, rng.uniform(0.001, 2)])),
                            lo=r(lo), hi=r(hi), dxa="1e-7", dxr="1e-6", pm="Max"))
        x = [rng.choice([0.0, rng.uniform(-6, 6), rng.uniform(-6, 6), 10 ** rng.uniform(-6, 6), -0.0]) for _ in range(n)]
        raw = [rng.choice([0.0, rng.uniform(-3, 3), rng.uniform(-3, 3), -10 ** rng.uniform(-8, 8), 10 ** rng.uniform(-8, 8), float("inf"), float("-inf"), float("nan")]) for _ in range(n)]
        c.update(iters=its, fd=rng.random() < 0.5)
        if fn == "limit":
            c.update(x=rs(x), raw=rs(raw))
        else:
            c.update(x=r(x[0]), raw=r(raw[0]))
    elif fn == "perturb":
        c.update(iters=scen.iter_params(rng, n, False, rng.choice([0.4, 0.7, 0.9, 0.9])), x=rs([rng.choice([0.0, rng.uniform(-9, 9), value(rng)]) for _ in range(n)]), one=rng.random() < 0.5)
    elif fn == "fdjac":
        fo = scen.Formula(rng, n, rng.choice(["linear", "mild", "strong"]))
        m = dict(provided=False, formula=fo.json())
        if rng.random() < 0.5:
            m["mem"], m["gain"] = rs([rng.uniform(-1, 1) for _ in range(rng.choice([1, n, n + 1]))]), "0.01"
        if rng.random() < 0.35:
            m["outs"] = {str(rng.randrange(0, n + 1)): "inacc" for _ in range(2)}
            if rng.random() < 0.5:
                m["outs"][str(rng.randrange(1, n + 1))] = "unus"
        c.update(n=n, model=m, x=rs([a + rng.uniform(-1, 1) for a in fo.root]), upd=norms if rng.random() < 0.6 else ["Abs"] * n,
                 p=rs([rng.choice([1e-6, 1e-3, 0.25, 1.0, -0.5]) * rng.uniform(0.5, 1.5) for _ in range(n)]))
    else:
        c.update(m=matrix(rng, n, rng.choice(["dominant", "random", "random", "scaled"])), s=vector(rng, n), y=vector(rng, n), c=vector(rng, n))
    return dict(mod="CallTrace", id="c%d" % k, scen=[dict(id="c%d" % k, kind="call", call=c)])


# ----------------------------------------------------------------------------
# the crate util

def one_job(ident, call, model):
    return dict(mod="OneDimTrace", id=ident, scen=[dict(id=ident, kind="one", call=call, model=model)])


def random_one(rng, k):
    """one-dimensional problems: formulas, and replies that no function links together"""
    u = rng.uniform
    c = dict(fd=rng.random() < 0.5, maxiter=rng.choice([0, 1, 2, 3, 5, 10, 20, 50, 50, 200]), dx=r(rng.choice([1e-8, 1e-8, 1e-6, 1e-3, 0.25, 1.0, -0.5, -1e-6, 0.0 if rng.random() < 0.1 else 1e-7])),
             tol=r(rng.choice([1e-6, 1e-6, 1e-9, 1e-12, 1e-3, 0.5, 0.0] if rng.random() < 0.95 else [float("nan"), -1.0, float("inf")])))
    if rng.random() < 0.3:
        vals = [0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -3.0, 1e-6, -1e-6, 1e-9]
        odd = [float("nan"), float("inf"), float("-inf"), 1e300, -1e300, 5e-324]
        p = rng.choice([0.0, 0.0, 0.05])
        val = lambda: rng.choice(odd) if rng.random() < p else rng.choice(vals) if rng.random() < 0.3 else u(-9, 9) * 10.0 ** rng.randrange(-8, 3)
        c["guess"] = r(val())
        if c["maxiter"] > 20:
            c["maxiter"] = 20
        m = dict(f=[r(val()) for _ in range(60)], d=[r(val()) for _ in range(40)])
        if rng.random() < 0.2:
            # a value equal to the tolerance
            m["f"][rng.randrange(6)] = rng.choice(["", "-"]) + c["tol"] if c["tol"][0].isdigit() else c["tol"]
    else:
        m = dict(poly=rs([u(-3, 3) for _ in range(rng.choice([2, 2, 3, 3, 4, 5]))]))
        t = rng.random()
        if t < 0.2:
            m["s"] = r(u(-4, 4))
        elif t < 0.35:
            m["e"] = r(u(-2, 2))
        elif t < 0.45:
            m["poly"] = rs([0.0] * rng.choice([2, 3, 4]) + [u(0.1, 3)])   # a multiple root: converges slowly
        c["guess"] = r(rng.choice([0.0, 1.0, -1.0, u(-3, 3), u(-3, 3), u(-100, 100)]))
    return one_job("o%d" % k, c, m)


PROBLEMS = dict(case5=5, case6=5, case7=10, case8=20, case9=2, case10=2, square2=1, high=1)


def problem_job(ident, name, at, x=()):
    return dict(mod="ProblemTrace", id=ident, scen=[dict(id=ident, kind="problem", name=name, at=at, x=list(x))])


def points():
    return [problem_job("%s-%s" % (p, a), p, a) for p in PROBLEMS if p not in ("square2", "high") for a in ("init", "solution")]


def random_problem(rng, k):
    p = rng.choice(sorted(PROBLEMS))
    n = PROBLEMS[p]
    if n > 2 and rng.random() < 0.5:
        n = rng.randrange(2, 21)
    t = rng.random()
    s = 10.0 ** rng.uniform(-6, 6) if t < 0.3 else 1.0
    x = [rng.choice([0.0, 1.0, -1.0, 2.0]) if rng.random() < 0.1 else s * rng.uniform(-4, 4) for _ in range(n)]
    if rng.random() < 0.1:
        x = [x[0]] * n
    return problem_job("b%d" % k, p, "x", rs(x))
