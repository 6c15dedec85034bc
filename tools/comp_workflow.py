"""Histories of use: Workflow.tla, WorkflowJudge.tla."""
import json
import comp_cli, tlc
from vlib import CheckError

INV = ["InvVersion", "InvDecided"]


def start(ref, x, y, idx=None):
    f = lambda c: "[there |-> %s, c |-> <<%s>>]" % ("FALSE" if c is None else "TRUE", ",".join(map(str, c or [])))
    i = "NoIndex" if idx is None else "[there |-> TRUE, ok |-> TRUE, k |-> %d, c |-> <<%s>>]" % (idx[0], ",".join(map(str, idx[1])))
    return "[ref |-> %s, idx |-> %s, X |-> %s, Y |-> %s]" % (f(ref), i, f(x), f(y))


# an index is built before the history begins, from a reference that is replaced afterwards
STARTS = [
    ([1, 2, 3], [3, 1, 9], None, None),
    ([1, 2, 3, 0], [1, 2, 3], [4, 5], (1, [1, 2, 3])),
    ([1, 9, 3, 4], [1, 2], [1, 2, 3, 4], (2, [1, 2, 3, 4])),
    ([1, 1, 2, 2, 5], [2, 2, 0, 1, 1], [], (2, [1, 1, 2, 2, 5])),
    (None, [5, 6, 7, 0], [7, 6], (1, [5, 6, 7, 0])),
    ([], [1], [2], (1, [])),
    ([7, 8, 1, 2, 3, 4, 5, 6], [1, 2, 3, 4, 5, 6, 7, 8], None, (2, [7, 8, 1, 2, 3, 4])),
]


def judgeable(ck):
    """Histories that break a rule must be rejected."""
    def F(c):
        return dict(there=c is not None, c=c or [])

    def S(ref, x, y, idx, k=1, ok=True):
        return dict(ref=F(ref), X=F(x), Y=F(y), idx=dict(there=True, ok=ok, k=k, c=idx))

    def E(op, ok, after, asked=0, f="", g="", k=0, c=()):
        return dict(o=dict(op=op, f=f, g=g, k=k, c=list(c)), ok=ok, after=after, asked=asked)
    s = S([1, 2, 9], [1, 2], [3], [1, 2, 3])
    logs = [
        (s, [E("patch", True, S([1, 2, 9], [1, 2], [1, 2, 3], [1, 2, 3]), 1, "X", "Y")], True),     # block 3 is nowhere
        (s, [E("patch", False, S([1, 2, 9], [1, 2], [7], [1, 2, 3]), 1, "X", "Y")], False),
        (s, [E("patch", False, S([1, 2, 9], [1], [3], [1, 2, 3]), 1, "X", "X")], True),             # a failure in place
        (s, [E("patch", True, S([1, 2, 9], [1, 2], [1, 2, 3], [1, 2, 3]), 1, "Y", "Y")], False),
        (s, [E("patch", True, S([1, 2, 9], [1, 2], [1, 2, 9], [1, 2, 3]), 1, "Y", "Y")], True),     # the other version
        (s, [E("patch", True, S([1, 2, 9], [], [1, 2, 3], [1, 2, 3]), 1, "Y", "Y")], True),         # the other file
        (s, [E("diff", False, s, 0, "X")], True),
        (s, [E("build", True, s, 0, k=1)], True),                                                   # the old index
        (s, [E("build", True, S([1, 2, 9], [1, 2], [3], [1, 2, 9]), 0, k=1)], False),
        (S([1], [5, 5], None, [5, 5]), [E("patch", False, S([1], [5, 5], None, [5, 5]), 0, "X", "X")], True),
        (S([1], [5, 5], None, [5, 5]), [E("patch", True, S([1], [5, 5], None, [5, 5]), 1, "X", "X")], True),   # a fetch
        (S([1], [5, 5], None, [5, 5]), [E("patch", True, S([1], [5, 5], [5, 5], [5, 5]), 0, "X", "Y")], False),
        (S([5], [5], None, [5], 1, False), [E("patch", True, S([5], [5], None, [5], 1, False), 0, "X", "X")], True),   # a damaged index
        (S([5], [5], [6], [5], 1, False), [E("patch", False, S([5], [5], [], [5], 1, False), 0, "X", "Y")], True),
    ]
    p, em = ck.path("badwf.json"), ck.path("badwf.verdicts")
    with open(p, "w") as f:
        for st, log, _ in logs:
            f.write(json.dumps(dict(start=st, log=log)) + "\n")
    tlc.must(tlc.run("WorkflowJudge", dict(File=p), ck.scratch, "badwf", invariants=["Judge"], workers=1, emit=em))
    got = {v["k"] - 1: bool(v["v"]) for v in map(json.loads, open(em))}
    for i, (st, log, want) in enumerate(logs):
        if got.get(i) != want:
            raise CheckError("WorkflowJudge: history %d %s %s is judged %s" % (i, st, log, got.get(i)))
    ck.notes.setdefault("rejected_spec_mutants", {})["WorkflowJudge: 10 histories that break one rule"] = "rejected"


def raw(starts):
    return tlc.Raw("{%s}" % ", ".join(start(*s) for s in starts))


def seqs(cs):
    return tlc.Raw("{%s}" % ", ".join("<<%s>>" % ",".join(map(str, c)) for c in cs))


def run(ck):
    ck.build()
    q = ck.quick
    env = comp_cli.build(ck)

    def walks(mode, n, depth, shards=8):
        name = "%s, walks of %d" % (mode, depth)
        f, tr = ck.path("wf_%s.json" % mode), ck.path("trace_wf_%s" % mode)
        ck.model("Workflow:" + name, "Workflow", dict(Starts=raw(STARTS), Refs=seqs([[1, 2, 3], [4, 5, 6, 7, 8, 0], [2, 2, 2]]), Units={1, 2, 9}, Depth=depth, MaxLen=12,
                                                      Rich=True, Bug="none"),
                 invariants=INV + ["Emit"], spec="WalkSpec", emit=f, simulate=n, seed=ck.seed + len(mode), simdepth=depth + 2)
        ck.suite("workflow", f, trace=tr, label=name, env=dict(env, VH_MODE=mode), hang_s=60)
        ck.judge("WorkflowJudge", "workflow", tr, f, env=dict(env, VH_MODE=mode))

    def every(name, starts, depth, refs):
        f, tr = ck.path("wf_%s.json" % name), ck.path("trace_wf_%s" % name)
        ck.model("Workflow:all of %d, %s" % (depth, name), "Workflow", dict(Starts=raw(starts), Refs=seqs(refs), Units={1}, Depth=depth, MaxLen=9, Rich=False, Bug="none"),
                 invariants=INV + ["Emit"], properties=["ActUntouched"], emit=f, workers=4)
        ck.suite("workflow", f, trace=tr, label="all of %d, %s" % (depth, name), env={"VH_MODE": "library"}, hang_s=60)
        ck.judge("WorkflowJudge", "workflow", tr, f, env={"VH_MODE": "library"})
    refs = [[1, 2, 3], [1, 9, 3, 0]]
    jobs = [lambda: walks("tool", 90 if q else 1500, 14), lambda: walks("library", 180 if q else 4000, 20)]
    jobs.append(lambda: judgeable(ck))
    jobs += [lambda i=i: every("start %d" % i, STARTS[i:i + 1], 3, refs) for i in ((1, 2) if q else range(len(STARTS)))]
    for b in ("trustSource", "halfWritten"):
        jobs.append(lambda b=b: ck.mutant("Workflow:" + b, "Workflow", dict(Starts=raw(STARTS[1:3]), Refs=seqs(refs), Units={1}, Depth=2, MaxLen=9, Rich=False, Bug=b),
                                          invariants=INV, properties=["ActUntouched"]))
    ck.jobs(jobs)
