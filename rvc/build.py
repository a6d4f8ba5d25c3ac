"""Extraction: compile /repo's current sources to LLVM IR (clang -O0, then sroa and
CFG canonicalisation only) and parse the functions that are asked for.

What the extraction drops: debug metadata, exception unwinding edges (a landing
pad ends the path), lifetime markers.  Nothing else: every instruction of every
function that a proof executes comes from this compilation of /repo."""
import os
import re
import subprocess
import tempfile
import shutil
import hashlib
from concurrent.futures import ThreadPoolExecutor
import ir

REPO = os.environ.get("RIVER_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
CLANG = "/usr/bin/clang++-18"
LLVM_LINK = "/usr/bin/llvm-link-18"
OPT = "/usr/bin/opt-18"
FLAGS = ["-std=c++17", "-O0", "-Xclang", "-disable-O0-optnone", "-ffp-contract=off",
         "-fno-discard-value-names", "-fno-threadsafe-statics", "-w"]


class BuildError(Exception):
    pass


def includes():
    r = ["-I" + os.path.join(REPO, "src/include"), "-I" + os.path.join(REPO, "src/src")]
    for d in ("third_parts",):
        p = os.path.join(REPO, d)
        if os.path.isdir(p):
            r.append("-I" + p)
    return r


def sources(which):
    d = os.path.join(REPO, "src/src")
    out = []
    for f in sorted(os.listdir(d)):
        if not f.endswith(".cpp"):
            continue
        if f in ("river.cpp", "decl.cpp", "util.cpp",):        # the Boost.Spirit text parser: out of scope (see DESIGN.md)
            continue
        if which is None or f in which:
            out.append(os.path.join(d, f))
    return out


def run(cmd, cwd=None):
    p = subprocess.run(cmd, capture_output=True, text=True, cwd=cwd)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), (p.stderr or p.stdout)[-4000:]))
    return p.stdout


def layouts(txt):
    """field offsets by name, from clang's record layout dump"""
    out = {}
    cur = None
    for ln in txt.split("\n"):
        if "*** Dumping AST Record Layout" in ln:
            cur = "start"
            continue
        m = re.match(r"\s*(\d+) \| (\s*)(.*)$", ln)
        if not m or cur is None:
            continue
        off, ind, rest = int(m.group(1)), len(m.group(2)), m.group(3).strip()
        if cur == "start":
            name = re.sub(r"^(struct|class|union) ", "", rest)
            name = re.sub(r" \(empty\)$", "", name)
            cur = name
            out.setdefault(cur, {})
            continue
        if ind == 2 and not rest.endswith(("base)", "pointer)")):
            f = rest.replace(" (empty)", "").split(" ")[-1]
            out[cur].setdefault(f, off)
    return {k: v for k, v in out.items() if k.startswith(("vatti::", "river::", "rmath::", "scan_line::"))}


def tree_hash():
    h = hashlib.sha256()
    for sub in ("src/include", "src/src"):
        d = os.path.join(REPO, sub)
        for root, _, files in sorted(os.walk(d)):
            for f in sorted(files):
                p = os.path.join(root, f)
                h.update(p.encode())
                h.update(open(p, "rb").read())
    return h.hexdigest()


def module(which=None, anchors=True):
    """link all of river's translation units into one IR module and parse it"""
    srcs = sources(which)
    tmp = tempfile.mkdtemp(prefix="rvc_")
    try:
        jobs = list(srcs)
        if anchors:
            jobs.append(os.path.join(HERE, "anchors.cpp"))

        def comp(s):
            o = os.path.join(tmp, os.path.basename(s) + ".bc")
            open(o + ".lay", "w").write(run([CLANG] + FLAGS + includes() + ["-Xclang", "-fdump-record-layouts", "-c", "-emit-llvm", s, "-o", o]))
            return o
        with ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(comp, jobs))
        lays = {}
        for o in objs:
            for k, v in layouts(open(o + ".lay").read()).items():
                lays.setdefault(k, v)
        al = os.path.join(tmp, "all.bc")
        run([LLVM_LINK] + objs + ["-o", al])
        out = os.path.join(tmp, "all.ll")
        run([OPT, "-S", "-passes=function(sroa,simplifycfg)", al, "-o", out])
        txt = open(out).read()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    m = ir.Module(txt)
    m.layout = lays
    return m
