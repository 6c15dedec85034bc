"""Running TLC: a model is a module of spec/ plus constants, written into a scratch directory."""
import os, re, subprocess, json, tempfile, shutil, time

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TLCError(Exception):
    pass


def tla(v):
    """Python value -> TLA+ expression."""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
    if isinstance(v, dict):
        return "[" + ", ".join("%s |-> %s" % (k, tla(x)) for k, x in v.items()) + "]"
    raise TypeError(v)


class Raw(str):
    pass


def run(module, consts, scratch, name, invariants=(), properties=(), spec="Spec", init=None, nxt=None,
        constraint=None, action_constraint=None, view=None, postcondition=None, deadlock=False,
        defs="", workers=1, heap="6g", timeout=600, simulate=None, simdepth=None, seed=None, emit=None,
        coverage=False, alias=None, continue_=False, dfid=None, files=None):
    """Runs TLC; returns dict with states, distinct, depth, out (path of TLC's output), ok, error text.

    emit: path; printed JSON lines are written there, one per line.
    """
    d = os.path.join(scratch, "tlc_" + name)
    os.makedirs(d, exist_ok=True)
    mc = "M_" + re.sub(r"\W", "_", name)
    lines = ["---- MODULE %s ----" % mc, "EXTENDS %s" % module]
    cfg = []
    if init:
        cfg.append("INIT " + init)
        cfg.append("NEXT " + nxt)
    else:
        cfg.append("SPECIFICATION " + spec)
    for k, v in consts.items():
        dn = "const_" + k
        lines.append("%s == %s" % (dn, v if isinstance(v, Raw) else tla(v)))
        cfg.append("CONSTANT %s <- %s" % (k, dn))
    if defs:
        lines.append(defs)
    lines.append("====")
    for i in invariants:
        cfg.append("INVARIANT " + i)
    for p in properties:
        cfg.append("PROPERTY " + p)
    if constraint:
        cfg.append("CONSTRAINT " + constraint)
    if action_constraint:
        cfg.append("ACTION_CONSTRAINT " + action_constraint)
    if view:
        cfg.append("VIEW " + view)
    if postcondition:
        cfg.append("POSTCONDITION " + postcondition)
    if alias:
        cfg.append("ALIAS " + alias)
    cfg.append("CHECK_DEADLOCK " + ("TRUE" if deadlock else "FALSE"))
    open(os.path.join(d, mc + ".tla"), "w").write("\n".join(lines) + "\n")
    open(os.path.join(d, mc + ".cfg"), "w").write("\n".join(cfg) + "\n")
    for fn, text in (files or {}).items():
        open(os.path.join(d, fn), "w").write(text)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-DTLA-Library=" + SPEC,
           "-Djava.io.tmpdir=" + d, "-cp", JAR, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", os.path.join(d, "states"),
           "-config", mc + ".cfg", "-workers", str(workers), "-fp", "1"]
    if simulate:
        cmd += ["-simulate", "num=%d" % simulate]
    if simdepth:
        cmd += ["-depth", str(simdepth)]
    if seed is not None:
        cmd += ["-seed", str(seed)]
    if coverage:
        cmd += ["-coverage", "1"]
    if continue_:
        cmd += ["-continue"]
    cmd.append(mc + ".tla")
    out = os.path.join(d, "out.txt")
    t0 = time.time()
    with open(out, "w") as f:
        try:
            rc = subprocess.run(cmd, cwd=d, stdout=f, stderr=subprocess.STDOUT, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            raise TLCError("TLC timed out on %s" % name)
    res = {"name": name, "rc": rc, "out": out, "states": 0, "distinct": 0, "depth": 0, "emitted": 0,
           "wall": time.time() - t0, "violated": None, "text": []}
    em = open(emit, "w") if emit else None
    with open(out, errors="replace") as f:
        for line in f:
            if line.startswith('"{') or line.startswith('"['):
                res["emitted"] += 1
                if em:
                    em.write(json.loads(line))
                    em.write("\n")
                continue
            res["text"].append(line.rstrip("\n"))
            m = re.match(r"(\d+) states generated, (\d+) distinct states found", line)
            if m:
                res["states"], res["distinct"] = int(m.group(1)), int(m.group(2))
            m = re.match(r"The number of states generated: (\d+)", line)
            if m:
                res["states"] = int(m.group(1))
            m = re.match(r"The depth of the complete state graph search is (\d+)", line)
            if m:
                res["depth"] = int(m.group(1))
            m = re.match(r"Error: (?:Invariant|Action property|Temporal property|Property) ?(\S*) ?(?:is|was|of|line)", line)
            if m and not res["violated"]:
                res["violated"] = m.group(1) or line
            if line.startswith("Error: Temporal properties were violated") and not res["violated"]:
                res["violated"] = "temporal"
            if line.startswith("Error: Deadlock") and not res["violated"]:
                res["violated"] = "deadlock"
    if em:
        em.close()
    shutil.rmtree(os.path.join(d, "states"), ignore_errors=True)
    res["ok"] = rc == 0
    return res


def must(res):
    """TLC found no error; anything else is an error of the check, never a verdict on the code."""
    if not res["ok"]:
        raise TLCError("TLC failed on %s (rc %d, %s):\n%s" % (res["name"], res["rc"], res["out"], "\n".join(res["text"][-40:])))
    return res
