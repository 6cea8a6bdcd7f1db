"""Building, running the harness, preparing traces, running TLC."""
import json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
JAVA = os.path.join(BUILD, "java")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
HARNESS = os.path.join(BUILD, "target", "debug", "nrf_harness")
UTIL = os.path.join(BUILD, "target", "debug", "nrf_harness_util")


LOW = True    # the harness drives the low level of the API (the store, the formulas)


class ToolError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build_java():
    os.makedirs(JAVA, exist_ok=True)
    src = [os.path.join(SPEC, "java", f) for f in sorted(os.listdir(os.path.join(SPEC, "java"))) if f.endswith(".java")]
    stamp = os.path.join(JAVA, "stamp")
    src.append(os.path.join(SPEC, "LinAlg.tla"))
    want = str([(s, os.stat(s).st_mtime_ns, os.stat(s).st_size) for s in src])
    if os.path.exists(stamp) and open(stamp).read() == want:
        return
    r = sh(["javac", "-nowarn", "-d", JAVA, "-cp", TLA] + src[:-1])
    if r.returncode:
        raise ToolError("javac failed:\n" + r.stdout)
    plain = os.path.join(BUILD, "plain")
    os.makedirs(plain, exist_ok=True)
    text = open(os.path.join(SPEC, "LinAlg.tla")).read()
    open(os.path.join(plain, "LinAlgPlain.tla"), "w").write(text.replace("MODULE LinAlg ", "MODULE LinAlgPlain "))
    open(stamp, "w").write(want)


def build_harness(util=False):
    """the harness of the library, or the one of the crate util"""
    env = dict(os.environ)
    env.update(CARGO_TARGET_DIR=os.path.join(BUILD, "target"), CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
               CARGO_INCREMENTAL="0", RUSTC_WRAPPER="", HOME="/root",
               RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
    env.pop("RUSTFLAGS", None)
    global LOW
    r = sh(["cargo", "build", "--offline"], cwd=os.path.join(VERIF, "harness_util" if util else "harness"), env=env)
    if r.returncode and not util:
        # the low level of the API may have changed: the other checks do without it
        LOW = False
        r = sh(["cargo", "build", "--offline", "--no-default-features"], cwd=os.path.join(VERIF, "harness"), env=env)
    if r.returncode:
        raise ToolError("cargo build of the harness failed:\n" + r.stdout[-4000:])


def run_harness(scenarios, work, name, wait=30, timeout=700, binary=None):
    """Runs the scenarios in the real code; returns one record per scenario, with its events.
    A scenario that ends the process or does not return gets a final event "hang"; the
    scenarios left out after that are not returned."""
    rest, res, deaths = [], [], 0
    for k, s in enumerate(scenarios):
        if s.get("log"):
            s = dict(s, log=os.path.join(work, "%s-%d.log" % (name, k)))
        rest.append(s)
    while rest:
        inp = os.path.join(work, name + ".scen")
        out = os.path.join(work, name + ".raw")
        with open(inp, "w") as w:
            for s in rest:
                w.write(json.dumps(s) + "\n")
        if os.path.exists(out):
            os.remove(out)
        r = sh([binary or HARNESS, inp, out, str(wait)], timeout=timeout, cwd=work)
        got = []
        if os.path.exists(out):
            for l in open(out):
                try:
                    got.append(json.loads(l))
                except ValueError:
                    break
        res += got
        rest = rest[len(got):]
        if r.returncode == 0:
            break
        deaths += 1
        if not rest or deaths > 2:
            break
        t = dict(rest.pop(0))
        t["ev"] = [dict(e="begin", mem=[], log=dict(len=0, grows=True)), dict(e="hang", text="the process ended: %d" % r.returncode)]
        res.append(t)
    for t in res:
        for e in t["ev"]:
            if e.get("e") == "broken" and not str(e.get("text")).startswith("harness:") and t.get("kind", "solve") == "solve":
                e["e"] = "refused"
            elif e.get("e") == "broken":
                raise ToolError("harness: scenario %s: %s" % (t.get("id"), e.get("text")))
    return res


# ----------------------------------------------------------------------------
# The debug log, as entries

NUMBER = r"[-+]?(?:[0-9][0-9.eE+-]*|inf|NaN)"


def num(s):
    s = s.strip()
    low = s.lower()
    if low in ("inf", "+inf", "infinity"):
        return "Infinity"
    if low in ("-inf", "-infinity"):
        return "-Infinity"
    if low in ("nan", "-nan"):
        return "NaN"
    return repr(float(s))


def cells(line):
    return [c.strip() for c in line.strip().strip("|").split("|")]


def parse_log(text):
    """Entries of the log; what is not recognized sets junk."""
    lines = text.split("\n")
    n = len(lines)
    entries, junk, header = [], False, 0
    k = 0

    def skip():
        nonlocal k
        while k < n and (lines[k].strip() == "" or set(lines[k].strip()) <= set("=")):
            k += 1

    def rule(s):
        s = s.strip()
        return s.startswith("+-") and set(s) <= set("+-")

    def table():
        """rows of the table at k (header rows excluded), or None"""
        nonlocal k
        if k >= n or not rule(lines[k]):
            return None
        k += 1
        if k >= n or not lines[k].strip().startswith("|"):
            return None
        k += 1
        if k >= n or not rule(lines[k]):
            return None
        k += 1
        rows = []
        while k < n and (lines[k].strip().startswith("|") or rule(lines[k])):
            if not rule(lines[k]):
                rows.append(cells(lines[k]))
            k += 1
        if not rule(lines[k - 1]):
            return None
        return rows

    def points():
        nonlocal k
        skip()
        m = re.match(r"Max error: (.*)$", lines[k]) if k < n else None
        if not m:
            return None
        mx = num(m.group(1))
        k += 1
        skip()
        rows = table()
        if rows is None:
            return None
        x, l, r, e = [], [], [], []
        for i, c in enumerate(rows):
            if len(c) != 4 or c[0] != str(i) or "=" not in c[2]:
                return None
            x.append(num(c[1]))
            a, b = c[2].split("=", 1)
            l.append(num(a))
            r.append(num(b))
            e.append(num(c[3]))
        return dict(x=x, l=l, r=r, E=e, max=mx)

    def matrix():
        """a matrix as nalgebra displays it"""
        nonlocal k
        skip()
        if k >= n or "┌" not in lines[k]:
            raise ValueError("a matrix is missing")
        k += 1
        rows = []
        while k < n and "│" in lines[k]:
            rows.append([num(v) for v in lines[k].replace("│", " ").split()])
            k += 1
        if k >= n or "└" not in lines[k]:
            raise ValueError("a matrix does not end")
        k += 1
        return rows

    try:
        while True:
            skip()
            if k >= n:
                break
            s = lines[k].strip()
            if s == "Runner informations":
                k += 1
                skip()
                if not re.match(r"newton_rootfinder version: \S+$", lines[k].strip()):
                    junk = True
                    break
                k += 1
                header += 1
                if entries:
                    junk = True
            elif s == "Solver parameters":
                k += 1
                skip()
                rows = table()
                c = rows[0]
                p = dict(t="params", n=int(c[0]), maxiter=int(c[1]), tol=num(c[2]), damping=(c[3] == "true"), method=c[4])
                if len(rows) != 1 or c[3] not in ("true", "false"):
                    junk = True
                skip()
                if lines[k].strip() != "Iteratives parameters":
                    junk = True
                    break
                k += 1
                skip()
                rows = table()
                its = []
                for i, c in enumerate(rows):
                    if c[0] != str(i):
                        junk = True
                    d = dict(msa=num(c[1]), msr=num(c[2]), lo=num(c[3]), hi=num(c[4]))
                    if len(c) > 5:
                        d.update(pm=c[5], dxa=num(c[6]), dxr=num(c[7]))
                    its.append(d)
                p["iters"] = its
                skip()
                if lines[k].strip() != "Residuals configuration":
                    junk = True
                    break
                k += 1
                skip()
                rows = table()
                for i, c in enumerate(rows):
                    if c[0] != str(i):
                        junk = True
                p["stop"] = [c[1] for c in rows]
                p["upd"] = [c[2] for c in rows]
                entries.append(p)
            elif s.startswith("Iteration: "):
                it = int(s[len("Iteration: "):])
                k += 1
                p = points()
                p.update(t="iter", k=it)
                entries.append(p)
            elif s == "Damping activated !":
                k += 1
                p = points()
                p.update(t="damp", k=0)
                entries.append(p)
            elif s.startswith("Iteration refused"):
                k += 1
                entries.append(dict(t="refused"))
            elif s == "Jacobian matrix":
                k += 1
                skip()
                e = dict(t="jac", shown="none", m=[], inv=[])
                if lines[k].strip() == "Jacobian up to date with its inverse":
                    k += 1
                    skip()
                    if lines[k].strip() != "Jacobian:":
                        junk = True
                        break
                    k += 1
                    e["m"] = matrix()
                    e["shown"] = "pair"
                    skip()
                else:
                    if not lines[k].startswith("Jacobian not up to date with its inverse"):
                        junk = True
                        break
                    k += 2
                    e["shown"] = "inverse"
                if lines[k].strip() != "Inverse of the jacobian Matrix:":
                    junk = True
                    break
                k += 1
                if lines[k].startswith("Inverse jacobian matrix not yet computed"):
                    k += 1
                    e["shown"] = "none"
                else:
                    e["inv"] = matrix()
                entries.append(e)
            else:
                junk = True
                break
    except (IndexError, TypeError, AttributeError, ValueError):
        junk = True
    return entries, junk, header


def prep(t):
    """A raw record of the harness as a trace for TLC."""
    out = dict(id=t["id"])
    c = dict(t["cfg"])
    c["tol"] = num(c["tol"])
    c["guess"] = [num(v) for v in c["guess"]]
    c["iters"] = [{k: (v if k == "pm" else num(v)) for k, v in p.items()} for p in c["iters"]]
    c["provided"] = False
    c.setdefault("damping", False)
    out["cfg"] = c
    out["debug"] = bool(t.get("log"))
    out["from"] = t.get("log_from", 0)
    out["again"] = t.get("log_again", -1)
    out["plain"] = bool(t.get("plain"))
    # the text of the log at the end of it: several ones if it was emptied in between
    texts = [e["text"] for e in t["ev"] if e["e"] == "text"]
    raw = texts[0].encode() if texts else b""
    cache = {}
    ev, k, prov = [], 0, False
    for e in t["ev"]:
        e = dict(e)
        if e["e"] == "begin":
            s = t["solves"][k]
            if not s.get("same"):
                prov = bool(s["model"].get("provided")) or str(t.get("adapter", "")).endswith("jac")
            e["provided"] = prov
            k += 1
        if "log" in e:
            if out["debug"] and k > out["from"]:
                n = e["log"]["len"]
                if n not in cache:
                    try:
                        ents, junk, header = parse_log(raw[:n].decode())
                    except UnicodeDecodeError:
                        ents, junk, header = [], True, 0
                    cache[n] = dict(points=sum(x["t"] != "jac" for x in ents), jacs=sum(x["t"] == "jac" for x in ents), junk=junk or header != 1)
                e["log"] = dict(cache[n], grows=e["log"]["grows"])
            else:
                del e["log"]
        if e["e"] == "text":
            ents, junk, header = parse_log(texts.pop(0))
            e = dict(e="text", entries=ents, junk=junk, header=header)
            raw, cache = texts[0].encode() if texts else b"", {}
            if not out["debug"]:
                continue
        ev.append(e)
    out["ev"] = ev
    return out


# ----------------------------------------------------------------------------
# TLC

def tlc(module, cfg, env=None, work=None, workers=8, heap="6g", timeout=800, extra=(), simulate=None, invariants=None, jopts=()):
    meta = os.path.join(work, "meta-%s-%d" % (os.path.basename(module), time.monotonic_ns()))
    os.makedirs(meta)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + meta, "-DTLA-Library=" + SPEC + ":" + os.path.join(BUILD, "plain")] + list(jopts) + [
           "-cp", JAVA + ":" + TLA, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-config", cfg] + list(extra) + [os.path.join(SPEC, module + ".tla")]
    t0 = time.time()
    try:
        r = sh(cmd, env=e, cwd=work, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on %s" % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    txt = r.stdout
    res = dict(out=txt, code=r.returncode, wall=time.time() - t0, violated=None, states=0, generated=0)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", txt)
    if m:
        res["generated"], res["states"] = int(m.group(1)), int(m.group(2))
    m = re.search(r"Invariant (\S+) is violated", txt)
    if m:
        res["violated"] = m.group(1)
    m = re.search(r"(?:Action property|Temporal properties|property) (\S+) (?:is|were) violated", txt)
    if m and not res["violated"]:
        res["violated"] = m.group(1)
    if r.returncode != 0 and not res["violated"]:
        raise ToolError("TLC failed on %s (%d):\n%s" % (module, r.returncode, txt[-6000:]))
    return res


def tla_value(s):
    """Parses the TLA+ values TLC prints (records, tuples, sets, strings, numbers, booleans)."""
    pos = 0

    def ws():
        nonlocal pos
        while pos < len(s) and s[pos] in " \n\r\t":
            pos += 1

    def val():
        nonlocal pos
        ws()
        if s.startswith("<<", pos):
            return seq("<<", ">>")
        if s[pos] == "{":
            return seq("{", "}")
        if s[pos] == "[":
            pos += 1
            d = {}
            while True:
                ws()
                if s[pos] == "]":
                    pos += 1
                    return d
                m = re.compile(r"\s*(\w+)\s*\|->").match(s, pos)
                pos = m.end()
                d[m.group(1)] = val()
                ws()
                if s[pos] == ",":
                    pos += 1
        if s[pos] == '"':
            q = pos + 1
            o = ""
            while s[q] != '"':
                if s[q] == "\\":
                    q += 1
                o += s[q]
                q += 1
            pos = q + 1
            return o
        m = re.compile(r"-?\d+|TRUE|FALSE").match(s, pos)
        pos = m.end()
        t = m.group(0)
        return True if t == "TRUE" else False if t == "FALSE" else int(t)

    def seq(a, b):
        nonlocal pos
        pos += len(a)
        r = []
        while True:
            ws()
            if s.startswith(b, pos):
                pos += len(b)
                return r
            r.append(val())
            ws()
            if s[pos] == ",":
                pos += 1

    return val()


def printed(txt, tag):
    """The tuples <<"tag", ...>> printed by TLC (possibly over several lines)."""
    res = []
    for m in re.finditer(r'^<<\s*"%s",' % re.escape(tag), txt, re.M):
        i, depth, instr = m.start(), 0, False
        j = i
        while True:
            c = txt[j]
            if instr:
                if c == "\\":
                    j += 1
                elif c == '"':
                    instr = False
            elif c == '"':
                instr = True
            elif txt.startswith("<<", j):
                depth += 1
                j += 1
            elif txt.startswith(">>", j):
                depth -= 1
                j += 1
                if depth == 0:
                    break
            j += 1
        res.append(tla_value(txt[i:j + 1]))
    return res
