"""Mechanical extraction: compile the harness against /repo's headers and normalise the LLVM IR.

What the extraction changes: inlines every callee except those named in `keep`, removes exceptions/RTTI
(-fno-exceptions), promotes locals to SSA, simplifies the CFG.  Nothing is hand-written: the verified text is the
compiler's output for the current working tree.
"""
import os, re, subprocess, tempfile, shutil, hashlib, json, concurrent.futures
from .llvmir import Program, Unsupported, demangle

REPO = os.environ.get("FCV_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
CXX, OPT = "clang++-18", "opt-18"
PASSES = ("function(lower-constant-intrinsics,sroa,early-cse),cgscc(inline),globaldce,"
          "function(sroa,early-cse,simplifycfg,instsimplify,sroa,early-cse,simplifycfg,loop-simplify)")


class BuildError(Exception):
    pass


def one(src, defs, keep, out, tag, flags=()):
    ll0, ll1, ll2 = out + ".0.ll", out + ".1.ll", out + ".ll"
    cmd = [CXX, "-std=c++20", "-I", os.path.join(REPO, "include"), "-I", os.path.join(HERE, "harness"), "-O1", "-Xclang",
           "-disable-llvm-passes", "-fno-exceptions", "-fno-rtti", "-gline-tables-only", "-w", "-fno-strict-aliasing",
           "-S", "-emit-llvm", src, "-o", ll0] + list(flags) + ["-D%s=%s" % kv for kv in defs.items()]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise BuildError("harness does not compile against /repo: " + p.stderr[-3000:])
    txt = open(ll0).read()
    txt = re.sub(r'\b(noinline|optnone)\b', '', txt)
    if keep:
        names = re.findall(r'^define [^@]*@("[^"]+"|[\w.$]+)\(', txt, re.M)
        nn = [n.strip('"') for n in names]
        dm = dict(zip(nn, demangle(nn)))
        kept = {n for n in nn if any(re.search(k, dm[n]) for k in keep)}
        def fix(m):
            n = m.group(2).strip('"')
            if n in kept:
                return m.group(0).rstrip(" {") + " {"
            return m.group(0)
        lines = txt.split("\n")
        for i, l in enumerate(lines):
            if l.startswith("define "):
                m = re.match(r'^define [^@]*@("[^"]+"|[\w.$]+)\(', l)
                if m and m.group(1).strip('"') in kept:
                    # insert attribute after the parameter list's closing parenthesis
                    j = l.rfind(")")
                    # parameter list end: find matching paren from the name
                    k = m.end() - 1
                    d = 0
                    for x in range(k, len(l)):
                        if l[x] == '(':
                            d += 1
                        elif l[x] == ')':
                            d -= 1
                            if d == 0:
                                j = x
                                break
                    l2 = l.replace("define linkonce_odr", "define", 1).replace("define internal", "define", 1)
                    j -= len(l) - len(l2)
                    l2 = re.sub(r' comdat(\([^)]*\))?', '', l2)
                    rest = re.sub(r'^ (local_)?unnamed_addr', '', l2[j + 1:])
                    lines[i] = l2[:j + 1] + " noinline" + rest
        txt = "\n".join(lines)
    open(ll1, "w").write(txt)
    p = subprocess.run([OPT, "-S", "-passes=" + PASSES, "-inline-threshold=1000000", "-inlinehint-threshold=1000000",
                        "-inlinecold-threshold=1000000", ll1, "-o", ll2], capture_output=True, text=True)
    if p.returncode:
        raise BuildError("opt failed: " + p.stderr[-2000:])
    os.unlink(ll0)
    os.unlink(ll1)
    return ll2


def extract(workdir, srcname, caps, capnames, symbols, keep=(), defs=None, flags=()):
    """caps: list of capacity tuples; returns merged Program"""
    src = os.path.join(HERE, "harness", srcname)
    tag = re.sub(r'\W', '_', srcname + str(defs or ""))
    jobs = []
    with concurrent.futures.ThreadPoolExecutor(4) as tp:
        for i, c in enumerate(caps):
            d = dict(defs or {})
            d.update({n: "%dULL" % v for n, v in zip(capnames, c)})
            jobs.append(tp.submit(one, src, d, keep, os.path.join(workdir, "%s.%d" % (tag, i)), tag, flags))
        paths = [j.result() for j in jobs]
    return Program(paths, caps, symbols)
