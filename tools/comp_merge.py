"""Merging match streams: Merge.tla against comparer.MatchMerger."""
from vlib import write_cases

INV = ["InvMerged", "InvMissing"]


def run(ck):
    ck.build()
    q = ck.quick

    def one(name, n, aligns, streams, depth, join=True, fails=1, **kw):
        f, tr = ck.path("mrg_%s.json" % name), ck.path("trace_mrg_%s" % name)
        ck.model("Merge:" + name, "Merge", dict(N=n, BS=2, Aligns=set(aligns), Streams=set(range(streams)), Depth=depth, AlwaysJoin=join, Fails=fails, Bug="none"),
                 invariants=INV + ["Emit"], emit=f, workers=4, **kw)
        ck.suite("merge", f, trace=tr, label="merge " + name)
        ck.judge("MergeJudge", "merge", tr, f)

    def stress():
        n = 60 if q else 600
        f = write_cases(ck.path("stress.json"), [dict(blocks=ck.rng.choice([5, 40, 300]), streams=ck.rng.choice([2, 4, 8, 16]), reports=ck.rng.choice([20, 200, 800]),
                                                      seed=ck.seed * 1000 + i, rounds=8) for i in range(n)])
        tr = ck.path("trace_stress")
        ck.suite("mergestress", f, trace=tr, hang_s=30)
        ck.judge("MergeJudge", "mergestress", tr, f)
    jobs = [lambda: one("one stream, every order", 5, [0], 1, 6 if q else 7),
            lambda: one("two alignments", 4 if q else 5, [0, 2], 1, 5),
            lambda: one("two streams", 3, [0, 1], 2, 4 if q else 5),
            lambda: one("random", 9, [0, 2, 3], 3, 16, simulate=12 if q else 100, seed=ck.seed, fails=0, simdepth=20),
            lambda: one("random, one alignment", 14, [4], 4, 20, simulate=12 if q else 100, seed=ck.seed + 1, simdepth=25),
            # joining or not: the properties hold either way
            lambda: ck.model("Merge:any joining", "Merge", dict(N=3, BS=2, Aligns={0, 2}, Streams={0}, Depth=4 if q else 5, AlwaysJoin=False, Fails=1, Bug="none"), invariants=INV, workers=3),
            stress]
    for b in ("joinAnyOffset", "duplicates"):
        jobs.append(lambda b=b: ck.mutant("Merge:" + b, "Merge", dict(N=3, BS=2, Aligns={0, 2}, Streams={0}, Depth=3, AlwaysJoin=True, Fails=0, Bug=b), invariants=INV))
    ck.jobs(jobs)
