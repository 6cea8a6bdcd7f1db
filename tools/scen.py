"""Scenarios for the harness: random problems, random replies, outcomes, configurations."""
import math

METHODS = ["NR", "SN", "BROY1", "BROY1_INV", "BROY2", "BROY2_INV", "GRST1", "GRST1_INV", "GRST2", "GRST2_INV"]
NORMS = ["Abs", "Rel", "Adapt"]


def r(x):
    return repr(float(x)) if math.isfinite(x) else ("NaN" if x != x else ("inf" if x > 0 else "-inf"))


def rs(v):
    return [r(x) for x in v]


class Formula:
    """The family of models of harness/src/model.rs, with random coefficients and a known root."""

    def __init__(self, rng, n, kind, usual=False):
        self.n = n
        u = rng.uniform
        z = lambda: [0.0] * n
        self.A = [[u(-1, 1) for _ in range(n)] for _ in range(n)]
        self.B = [[0.0] * n for _ in range(n)]
        self.q, self.c, self.s, self.m, self.e, self.g, self.w, self.k, self.b = (z() for _ in range(9))
        for i in range(n):
            self.A[i][i] += rng.choice([-1, 1]) * (n + u(0, 2))
        self.root = [u(-2, 2) for _ in range(n)]
        if kind == "linear":
            pass
        elif kind == "mild":
            for i in range(n):
                self.q[i] = u(-0.4, 0.4)
                self.s[i] = u(-0.5, 0.5)
                self.m[i] = u(-0.3, 0.3) if n > 1 else 0.0
                self.B[i][rng.randrange(n)] = u(-0.5, 0.5)
        elif kind == "strong":
            for i in range(n):
                self.q[i] = u(-2, 2)
                self.c[i] = u(-1, 1)
                self.s[i] = u(-3, 3)
                self.m[i] = u(-1, 1) if n > 1 else 0.0
                self.k[i] = u(-1, 1)
                self.B[i][rng.randrange(n)] = u(-1, 1)
        elif kind == "wave":
            for i in range(n):
                self.s[i] = rng.choice([-1, 1]) * u(3, 8)
        elif kind == "domain":
            self.root = [u(0.3, 2) for _ in range(n)]
            for i in range(n):
                t = rng.choice("gwe")
                if t == "g":
                    self.g[i] = u(-3, 3)
                elif t == "w":
                    self.w[i] = u(-3, 3)
                else:
                    self.e[i] = u(-1, 1)
        elif kind == "square":
            for i in range(n):
                for j in range(n):
                    self.A[i][j] = 0.0
                self.q[i] = 1.0
                self.root[i] = u(0.5, 3)
        elif kind == "degenerate":
            # singular linear part, or a vanishing row or column
            t = rng.randrange(4)
            i = rng.randrange(n)
            if t == 0:
                self.A[i] = [0.0] * n
            elif t == 1:
                for row in self.A:
                    row[i] = 0.0
            elif t == 2 and n > 1:
                self.A[i] = list(self.A[(i + 1) % n])
            else:
                for a in range(n):
                    for b in range(n):
                        self.A[a][b] = 0.0
                    self.q[a] = u(-1, 1)
        if rng.random() < 0.15 and not usual:
            self.unusual(rng)
        lv = self.left(self.root)
        rv = self.right(self.root)
        self.b = [a - c for a, c in zip(lv, rv)]

    def unusual(self, rng):
        """members of other magnitudes, members with a large common part, opposite members"""
        n, t = self.n, rng.randrange(4)
        if t == 0:
            for i in range(n):
                f = 10.0 ** (rng.randrange(-9, 10) if rng.random() < 0.6 else rng.randrange(-60, 20))
                for v in (self.q, self.c, self.s, self.m, self.e, self.g, self.w, self.k):
                    v[i] *= f
                self.A[i] = [a * f for a in self.A[i]]
                self.B[i] = [a * f for a in self.B[i]]
        elif t == 1:
            for j in range(n):
                f = 10.0 ** rng.randrange(-6, 7)
                self.root[j] *= f
                for i in range(n):
                    self.A[i][j] /= f
                    self.B[i][j] /= f
        elif t == 2:
            for i in range(n):
                f = 10.0 ** rng.randrange(1, 7)
                j = rng.randrange(n)
                self.A[i][j] += f
                self.B[i][j] += f
        else:
            for i in range(n):
                self.B[i] = [-a for a in self.A[i]]
                self.k[i] = -self.q[i]

    def left(self, x):
        n = self.n
        o = []
        for i in range(n):
            y, zz = x[i], x[(i + 1) % n]
            v = sum(self.A[i][j] * x[j] for j in range(n))
            v += self.q[i] * y * y + self.c[i] * y ** 3 + self.s[i] * math.sin(y) + self.m[i] * y * zz
            if self.e[i]:
                v += self.e[i] * math.exp(min(y, 700.0))
            if self.g[i]:
                v += self.g[i] * math.log(y) if y > 0 else float("nan")
            if self.w[i]:
                v += self.w[i] * math.sqrt(y) if y > 0 else float("nan")
            o.append(v)
        return o

    def right(self, x):
        return [self.b[i] + sum(self.B[i][j] * x[j] for j in range(self.n)) + self.k[i] * x[i] * x[i] for i in range(self.n)]

    def json(self):
        d = {}
        for k in ("A", "B"):
            d[k] = [rs(row) for row in getattr(self, k)]
        for k in "bqcsmegwk":
            d[k] = rs(getattr(self, k))
        return d


def iter_params(rng, n, limits, dx=None):
    res = []
    for _ in range(n):
        p = dict(msa="inf", msr="inf", lo="-inf", hi="inf", dxa="5e-8", dxr="5e-8", pm="Max")
        if limits and rng.random() < 0.8:
            t = rng.randrange(6)
            if t in (0, 4):
                p["msa"] = r(rng.choice([0.01, 0.05, 0.3, 1.0, 5.0]) * rng.uniform(0.5, 1.5))
            if t in (1, 4, 5):
                p["msr"] = r(rng.choice([0.05, 0.2, 0.5, 1.5]) * rng.uniform(0.5, 1.5))
            if t in (2, 5):
                p["lo"] = r(rng.uniform(-3, 0.9))
            if t in (3, 5):
                p["hi"] = r(rng.uniform(1.0, 3))
        t = rng.random() if dx is None else dx
        if t < 0.3:
            pass
        elif t < 0.6:
            p["dxa"], p["dxr"], p["pm"] = r(rng.uniform(1, 9) * 1e-7), r(rng.uniform(1, 9) * 1e-7), rng.choice(["Max", "Sum"])
        elif t < 0.8:
            p["dxa"], p["dxr"], p["pm"] = r(rng.uniform(1, 9) * 1e-4), r(rng.uniform(1, 9) * 1e-3), rng.choice(["Max", "Sum"])
        else:
            p["dxa"], p["dxr"], p["pm"] = rng.choice(["0.5", "0.25", "1.0"]), rng.choice(["0.125", "0.5"]), rng.choice(["Max", "Sum"])
        res.append(p)
    return res


def twist(rng, model, n, maxiter):
    """some evaluations or jacobians answer something else than the formula"""
    if model["provided"]:
        t = {}
        for _ in range(rng.choice([1, 1, 2])):
            v = rng.choice(["0.0", "0.0", "0.0", "NaN", "inf", "1e300"])
            t[str(rng.choice([0, 1, 1, 2, 2, 3, 4]))] = rng.choice([
                dict(to=v), dict(row=rng.randrange(n), to=v), dict(col=rng.randrange(n), to=v),
                dict(grow=rng.choice(["0.0", "1e-12", "0.1", "-1.0", "10.0", "1e12"]))])
        model["jtwists"] = t
        if rng.random() < 0.5:
            return
    per = 1 if model["provided"] else n + 1
    t = {}
    for _ in range(rng.choice([1, 1, 2, 3])):
        # the first evaluation cannot hold what a former resolution left
        t[str(rng.randrange(1, min(maxiter, 5) * per + 3))] = rng.choice([
            dict(hold=True), dict(hold=True), dict(grow=rng.choice(["0.0", "1e-9", "0.5", "2.0", "-1.0", "100.0", "1e9"])),
            dict(at=rng.randrange(n), to=rng.choice(["0.0", "NaN", "inf", "-inf", "1e300", "1.0"]))])
    model["twists"] = t


KINDS = ["linear", "mild", "mild", "mild", "strong", "strong", "wave", "domain", "square", "degenerate"]


def scenario(rng, ident, **o):
    """o: n, method, kind, damping, limits, norms, outs, mem, debug, solves, dim, provided, script, maxiter"""
    pick = lambda key, f: o[key] if key in o else f()
    n = pick("n", lambda: rng.choice([1, 1, 2, 2, 2, 3, 3, 4] if rng.random() < 0.94 else [5, 6, 7, 8, 10, 12] if rng.random() < 0.85 else [13, 16, 17, 20, 24]))
    method = pick("method", lambda: rng.choice(METHODS))
    damping = pick("damping", lambda: rng.random() < 0.5)
    provided = pick("provided", lambda: rng.random() < 0.5)
    limits = pick("limits", lambda: rng.random() < 0.4)
    nm = pick("norms", lambda: rng.choice(["Abs", "Abs", "mix"]))
    kind = pick("kind", lambda: rng.choice(KINDS))
    stop = [rng.choice(NORMS) if nm == "mix" else nm for _ in range(n)]
    upd = [rng.choice(NORMS) if nm == "mix" else nm for _ in range(n)]
    fo = Formula(rng, n, kind, o.get("usual"))
    dist = pick("dist", lambda: rng.choice([0.0, 0.01, 0.1, 0.3, 0.3, 1.0, 1.0, 3.0]))
    guess = [x + dist * rng.uniform(-1, 1) for x in fo.root]
    if kind == "domain" and rng.random() < 0.7:
        guess = [abs(g) + 0.05 for g in guess]
    if rng.random() < 0.08:
        guess[rng.randrange(n)] = 0.0
    if rng.random() < 0.04 and not o.get("usual"):
        guess[rng.randrange(n)] = rng.choice([-0.0, 1e-12, -1e-7, 1e-300, 1e6, -1e9, 1e18, 1e300, float("inf"), float("nan"), 100.0])
    maxiter = pick("maxiter", lambda: rng.choice([0, 1, 2, 3, 5, 8, 12, 12, 20, 30] if rng.random() < 0.93 else [40, 60, 100]))
    tol = pick("tol", lambda: rng.choice([1e-6, 1e-6, 1e-9, 1e-3, 0.05] if rng.random() < 0.88 else TOLS))
    if n > 4:
        maxiter = min(maxiter, 12 if n < 13 else 5)
    cfg = dict(n=n, method=method, tol=r(tol), maxiter=maxiter, damping=damping,
               iters=iter_params(rng, n, limits, o.get("dx")), stop=stop, upd=upd, guess=rs(guess))
    model = dict(provided=provided, formula=fo.json())
    mem = pick("mem", lambda: rng.random() < 0.3)
    if mem:
        model["mem"] = rs([rng.uniform(-1, 1) for _ in range(rng.choice([1, n, n + 1]))])
        model["gain"] = r(rng.choice([0.0, 1e-4, 0.01]))
    no = pick("outs", lambda: rng.choice([0, 0, 1, 2]))
    if no:
        outs, jouts = {}, {}
        horizon = (maxiter + 1) * (1 + (0 if provided else n))
        for _ in range(no):
            k = min(rng.randrange(horizon + 2), rng.randrange(horizon + 2))
            outs[str(k)] = rng.choice(o.get("outkinds", ["inacc", "inacc", "unus"]))
        if rng.random() < 0.5:
            for k in range(rng.randrange(0, 6), rng.randrange(3, 40)):
                outs.setdefault(str(k), "inacc")
        if provided and rng.random() < 0.3:
            jouts[str(rng.randrange(0, 4))] = rng.choice(["inacc", "unus"])
        if rng.random() < 0.3:
            outs["store"] = "no"
        model["outs"], model["jouts"] = outs, jouts
    if pick("twists", lambda: rng.random() < 0.12):
        twist(rng, model, n, maxiter)
    solves = [dict(model=model)]
    for _ in range(pick("solves", lambda: rng.choice([1, 1, 1, 2])) - 1):
        if rng.random() < 0.5:
            solves.append(dict(same=True))
        else:
            m2 = dict(model)
            m2["formula"] = Formula(rng, n, rng.choice(KINDS)).json()
            if rng.random() < 0.5:
                m2["outs"], m2["jouts"] = {}, {}
            if rng.random() < 0.3:
                m2["provided"] = not provided
            solves.append(dict(model=m2))
    if rng.random() < 0.1:
        for s in solves:
            if "model" in s:
                s["model"]["start"] = rs([rng.choice([0.0, 1.0, float("nan"), rng.uniform(-5, 5)]) for _ in range(n)])
    sc = dict(id=ident, kind="solve", cfg=cfg, solves=solves, dim=pick("dim", lambda: rng.choice(["dyn", "static"])))
    if all(s.get("same") or s["model"]["provided"] for s in solves) and rng.random() < 0.4:
        sc["plain"] = True
    return sc


TOLS = [0.0, 1e-15, 1e-13, 1e-300, 1.0, 1e3, float("inf"), -1.0, float("nan")]


VALUES = [0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -2.0, 3.0, 0.25, 4.0, -3.0, 1.5]
ODD = [float("nan"), float("inf"), float("-inf"), 1e300, -1e300, 2.0 ** -1030, -0.0, -2.0 ** -1060]


def scripted(rng, ident, **o):
    """Replies that no function links together, odd values included."""
    sc = scenario(rng, ident, **dict(o, outs=0, mem=False, solves=1))
    if rng.random() < 0.01 and "n" not in o:
        # no equation at all
        sc["cfg"].update(n=0, iters=[], stop=[], upd=[], guess=[])
        sc["dim"] = "dyn"
    n = sc["cfg"]["n"]
    odd = rng.random() < o.get("odd", 0.4)
    wide = rng.random() < 0.15
    if n and rng.random() < 0.04:
        # sums of two points overflow
        sc["cfg"]["guess"] = rs([rng.choice([-1, 1]) * rng.uniform(0.9, 1.7) * 1e308 if rng.random() < 0.6 else float(v) for v in sc["cfg"]["guess"]])
        if rng.random() < 0.6:
            sc["cfg"]["damping"] = True
    # residuals at the tolerance, to some digits
    tol = float(sc["cfg"]["tol"])
    near = 0 < tol < 1e300 and rng.random() < 0.12
    edge = lambda: rng.choice([-1, 1]) * tol * (1 + rng.choice([0.0, -1.0, 1.0, 1.0, 1.0, 3.0]) * 10.0 ** -rng.randrange(4, 16))
    val = lambda: edge() if near and rng.random() < 0.7 else rng.uniform(-9, 9) * 10.0 ** rng.randrange(-8, 9) if wide and rng.random() < 0.3 else plain()
    plain = lambda: rng.choice(ODD) if odd and rng.random() < 0.15 else (rng.choice(VALUES) if rng.random() < 0.6 else rng.uniform(-4, 4))
    out = lambda: rng.choices(["ok", "inacc", "unus"], [0.85, 0.12, 0.03])[0] if o.get("outs", 1) else "ok"
    evals = []
    stay = rng.choice([0.0, 0.0, 0.1, 0.3])
    for _ in range(120):
        if evals and n and rng.random() < stay:
            # what an earlier evaluation replied, as it was or nearly
            e = dict(evals[-1] if rng.random() < 0.6 else rng.choice(evals), out=out())
            if rng.random() < 0.2:
                e["l"] = rs([float(v) * (1 + rng.choice([1e-15, 1e-9, -1e-6, 1e-3])) for v in e["l"]])
            evals.append(e)
            continue
        l = [val() for _ in range(n)]
        rr = [val() if rng.random() < 0.5 and not near else 0.0 for _ in range(n)]
        if rng.random() < 0.06:
            rr = list(l)
        evals.append(dict(l=rs(l), r=rs(rr), out=out()))
    jacs = []
    for _ in range(60):
        dl = [[val() for _ in range(n)] for _ in range(n)]
        if n and rng.random() < 0.08:
            dl[rng.randrange(n)] = [0.0] * n
        dr = [[val() if rng.random() < 0.3 else 0.0 for _ in range(n)] for _ in range(n)]
        jacs.append(dict(dl=[rs(x) for x in dl], dr=[rs(x) for x in dr], out=rng.choices(["ok", "inacc", "unus"], [0.94, 0.03, 0.03])[0]))
    sc["cfg"]["maxiter"] = min(sc["cfg"]["maxiter"], 20 if sc["solves"][0]["model"]["provided"] else 50 // (n + 1))
    m = sc["solves"][0]["model"]
    m["script"] = dict(evals=evals, jacs=jacs)
    m.pop("formula")
    return sc
