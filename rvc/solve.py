"""Discharge of proof obligations by a portfolio of SMT back ends."""
import os
import re
import subprocess
import threading
import tempfile
import time
import shutil
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction

Z3NEW = shutil.which("z3-new") or "/usr/local/bin/z3-new"
Z3 = "/usr/bin/z3"
CVC5 = shutil.which("cvc5") or "cvc5"


def _cmds(path, to, nl):
    c = [("z3-new", [Z3NEW, "-T:%d" % to, path])]
    c.append(("cvc5", [CVC5, "--tlimit=%d" % (to * 1000), "--quiet", path]))
    if nl:
        c.append(("z3-new-nlsat", [Z3NEW, "-T:%d" % to, path + ".nl"]))
    return c


DEADLINE = [None]      # absolute time after which no back end is started
REFUTED = [False]      # an obligation of this run has been refuted: do not spend long on the others


def _run(cmd, to):
    t = time.time()
    if DEADLINE[0] and t + 1 > DEADLINE[0]:
        return "unknown", 0.0
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=to + 5)
        out = p.stdout
    except subprocess.TimeoutExpired:
        out = "timeout"
    return out, time.time() - t


def verdict(out):
    for ln in out.split("\n"):
        ln = ln.strip()
        if ln in ("sat", "unsat", "unknown", "timeout"):
            return ln
    if "(error" in out and "unsat" not in out:
        return "error"
    return "unknown"


def z3_text(txts, to):
    """one query (in several spellings) to several solvers at once; the first verdict counts"""
    t = max(1, int(to))
    cmds = [([z, "-T:%d" % t, "-in"], x) for x in txts for z in (Z3, Z3NEW)] + [([Z3, "-T:%d" % t, "smt.random_seed=3", "-in"], txts[-1])]
    ps = [(subprocess.Popen(c, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True), x) for c, x in cmds]
    res = []
    lock = threading.Event()
    left = [len(ps)]

    def feed(p, x):
        try:
            v = verdict(p.communicate(x, timeout=to + 5)[0])
        except Exception:
            v = "timeout"
        if v in ("unsat", "sat"):
            res.append(v)
            lock.set()
        left[0] -= 1
        if left[0] <= 0:
            lock.set()
    ts = [threading.Thread(target=feed, args=p, daemon=True) for p in ps]
    for t_ in ts:
        t_.start()
    lock.wait(to + 6)
    for p, _ in ps:
        if p.poll() is None:
            p.kill()
    for t_ in ts:
        t_.join(5)
    return res[0] if res else "timeout"


GAVEUP = [0]


def discharge(ob, tmp, i, fast=3, slow=25, retry=False):
    """ob: dict(name, smt2, inputs). Returns (status, solver, seconds, values)"""
    path = os.path.join(tmp, "o%d.smt2" % i)
    txt = ob["smt2"]
    with open(path, "w") as f:
        f.write(txt)
    ob_fast = fast if retry else ob.get("fast", fast)
    ob_slow = slow if retry else ob.get("slow", slow)
    total = 0.0
    out, t = _run([Z3NEW, "-T:%d" % ob_fast, path], ob_fast)
    total += t
    v = verdict(out)
    if v == "error":
        return "error", "z3-new", total, out[-300:]
    if v in ("unsat", "sat"):
        REFUTED[0] |= v == "sat"
        return v, "z3-new", total, values(ob, path, ob_fast) if v == "sat" else None
    if ob.get("kind") == "cover":
        return v, "z3-new", total, None
    with open(path + ".nl", "w") as f:
        f.write(txt.replace("(check-sat)", "(check-sat-using (then simplify solve-eqs elim-term-ite solve-eqs purify-arith qfnra-nlsat))"))
    cm = [("z3-new-nlsat", [Z3NEW, "-T:%d" % ob_fast, path + ".nl"], ob_fast),
          ("cvc5", [CVC5, "--tlimit=%d" % (ob_fast * 2000), path], ob_fast * 2),
          ("z3-new", [Z3NEW, "-T:%d" % ob_slow, path], ob_slow),
          ("z3-4.8", [Z3, "-T:%d" % ob_slow, path], ob_slow),
          ("cvc5", [CVC5, "--tlimit=%d" % (ob_slow * 1000), path], ob_slow),
          ("z3-new-nlsat", [Z3NEW, "-T:%d" % ob_slow, path + ".nl"], ob_slow)]
    if "(forall" in txt:
        cm = [("z3-4.8", [Z3, "-T:%d" % ob_fast, path], ob_fast)] + [c for c in cm if c[0] != "z3-new-nlsat"]
    for nm, cmd, to in cm:
        if (REFUTED[0] or GAVEUP[0] > 16 and not retry) and to > 10:
            continue        # a violation is certain, or there are too many open obligations to ask all at length
        out, t = _run(cmd, to)
        total += t
        v = verdict(out)
        if v in ("unsat", "sat"):
            REFUTED[0] |= v == "sat"
            return v, nm, total, values(ob, path, ob_slow) if v == "sat" else None
    GAVEUP[0] += 1
    return "unknown", "portfolio", total, None


def values(ob, path, to):
    names = ob.get("inputs") or []
    if not names:
        return None
    txt = "(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 17)\n" + ob["smt2"] + "\n(get-value (%s))\n" % " ".join(names)
    with open(path + ".m", "w") as f:
        f.write(txt)
    out, _ = _run([Z3NEW, "-T:%d" % max(to, 5), path + ".m"], to)
    return parse_values(out)


def parse_values(out):
    toks = re.findall(r"\|[^|]*\||\(|\)|[^\s()]+", out)
    pos = 0

    def parse():
        nonlocal pos
        t = toks[pos]
        pos += 1
        if t == "(":
            r = []
            while pos < len(toks) and toks[pos] != ")":
                r.append(parse())
            pos += 1
            return r
        return t
    res = {}
    while pos < len(toks):
        x = parse()
        if isinstance(x, list):
            for e in x:
                if isinstance(e, list) and len(e) == 2 and isinstance(e[0], str):
                    try:
                        res[e[0].strip("|")] = num(e[1])
                    except Exception:
                        pass
    return res


def num(x):
    if isinstance(x, str):
        if x in ("true", "false"):
            return x == "true"
        return float(Fraction(x.rstrip("?")))
    if x[0] == "-":
        return -num(x[1])
    if x[0] == "/":
        return num(x[1]) / num(x[2])
    raise ValueError(x)


def discharge_all(obs, jobs=None, **kw):
    jobs = jobs or min(8, os.cpu_count() or 4)
    tmp = tempfile.mkdtemp(prefix="rvcs_")
    try:
        with ThreadPoolExecutor(jobs) as ex:
            return list(ex.map(lambda p: discharge(p[1], tmp, p[0], **kw), enumerate(obs)))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
