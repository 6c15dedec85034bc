"""Assembling and whole patches: SeqPatcher.tla, System.tla."""
import json
import comp_scan, tlc
INV = "InvReported InvOkComplete InvNoFault InvRequests".split()


def seq(ck):
    ck.build()

    def one(name, ms, ml, props=()):
        f = ck.path("seq_%s.json" % name)
        ck.model("SeqPatcher:" + name, "SeqPatcher", dict(MaxSpans=ms, MaxLen=ml, Bug="none"), invariants=INV + ["Emit"], properties=props, emit=f, workers=4)
        ck.suite("seqpatch", f, label="assembling, " + name)
    def huge():
        f = ck.path("seq_huge.json")
        ck.model("SeqPatcher:huge", "SeqPatcher", dict(MaxSpans=3, MaxLen=1, Bug="none"), invariants=INV + ["Emit"], emit=f, workers=2)
        ck.suite("seqhuge", f, label="assembling, spans of more than 4 GB", hang_s=300)
    jobs = [huge, lambda: one("up to 4 spans", 4, 2), lambda: one("up to 3 longer spans", 3, 3 if ck.quick else 4), lambda: one("up to 6 single blocks", 6, 1)]
    if not ck.quick:
        jobs.append(lambda: one("up to 5 spans", 5, 2))
    jobs += [lambda: ck.model("SeqPatcher:ends", "SeqPatcher", dict(MaxSpans=3, MaxLen=1, Bug="none"), invariants=INV, properties=["Ends"]),
             lambda: ck.mutant("SeqPatcher:ignoreSeek", "SeqPatcher", dict(MaxSpans=2, MaxLen=1, Bug="ignoreSeek"), invariants=INV),
             lambda: ck.mutant("SeqPatcher:skipHole", "SeqPatcher", dict(MaxSpans=2, MaxLen=1, Bug="skipHole"), invariants=INV),
             lambda: ck.mutant("SeqPatcher:waitForever", "SeqPatcher", dict(MaxSpans=2, MaxLen=1, Bug="waitForever"), invariants=INV, properties=["Ends"])]
    ck.jobs(jobs)


SYS = "InvExact InvReported InvSucceeds InvPrefix InvOnlyMissing InvAllFetched InvPartition".split()


def small(bs, refmax, locmax, ms, al=(0, 1)):
    a = ",".join(map(str, al))
    return tlc.Raw("{[bs |-> %d, ref |-> r, loc |-> l, m |-> m] : r \\in UNION {[1..n -> {%s}] : n \\in 0..%d}, "
                   "l \\in UNION {[1..n -> {%s}] : n \\in 0..%d}, m \\in {%s}}" % (bs, a, refmax, a, locmax, ",".join(map(str, ms))))


def random_cases(rng, n, blocksizes, maxblocks, maxm):
    out = []
    for c in comp_scan.random_cases(rng, n, blocksizes, maxblocks):
        r = rng.random()
        if r < .08:
            c["loc"] = c["ref"]
        elif r < .12:
            c["loc"] = c["loc"][:rng.randint(0, c["bs"])]
        elif r < .3:   # the reference somewhere in a longer file
            c["loc"] = c["loc"] + c["ref"] + c["loc"][::-1]
        c["m"] = rng.randint(1, maxm)
        out.append(c)
    return out


def system(ck):
    ck.build()
    q = ck.quick

    def one(name, cases, **kw):
        f, tr = ck.path("sys_%s.json" % name), ck.path("trace_sys_%s" % name)
        ck.model("System:" + name, "System", dict(Cases=cases, AllOrders=False, Faults=False, Bug="none"), invariants=SYS + ["Emit"], emit=f, workers=3, **kw)
        ck.suite("system", f, trace=tr, label="patch, " + name)
        ck.judge("SystemJudge", "system", tr, f)

    def rnd(name, *a):
        p = ck.path("sys_%s_cases.json" % name)
        json.dump(random_cases(ck.rng, *a), open(p, "w"))
        return tlc.Raw('Range0(JsonDeserialize("%s"))' % p)
    r1 = rnd("mid", 600 if q else 6000, (1, 2, 3, 4, 5, 8), 7, 6)
    r2 = rnd("long", 50 if q else 500, (2, 3, 7, 16), 20, 9)
    jobs = [lambda: comp_scan.huge(ck, "patchhuge"), lambda: comp_scan.big(ck, "patchbig"),
            lambda: one("block 1", small(1, 3, 4, (1, 2, 3))),
            lambda: one("block 2", small(2, 4 if q else 5, 5 if q else 6, (1, 2, 3))),
            lambda: one("block 3", small(3, 4 if q else 6, 5 if q else 7, (1, 2))),
            lambda: one("block 4", small(4, 5, 6 if q else 7, (2,))),
            lambda: one("random", r1), lambda: one("long random", r2),
            # all orders of arrival, failing sources
            lambda: ck.model("System:orders", "System", dict(Cases=small(2, 4, 4, (2, 3)), AllOrders=True, Faults=True, Bug="none"), invariants=SYS,
                             properties=["Ends"] if not q else [], workers=4)]
    for b in ("fullLast", "noOverlap", "referenceSized"):
        cases = {"fullLast": small(2, 3, 7, (3,)), "noOverlap": small(2, 4, 6, (2, 3)), "referenceSized": small(2, 3, 6, (1, 2))}[b]
        jobs.append(lambda b=b, cases=cases: ck.mutant("System:" + b, "System", dict(Cases=cases, AllOrders=False, Faults=False, Bug=b), invariants=SYS))
    jobs.append(lambda: ck.mutant("System:localEndsEarly", "System", dict(Cases=small(2, 3, 3, (2,)), AllOrders=False, Faults=True, Bug="localEndsEarly"), invariants=SYS))
    ck.jobs(jobs)
