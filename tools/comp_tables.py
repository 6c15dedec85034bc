"""Range arithmetic, the index, verification and the stored list: Resolver.tla, Index.tla, Verifier.tla, IndexFile.tla."""
import json
import tlc


def resolver(ck):
    ck.build()
    q = ck.quick
    inv = "InvSplit InvTiling InvAdjacent InvInFile".split()

    def one(name, cases):
        f, tr = ck.path("res_%s.json" % name), ck.path("trace_res_%s" % name)
        ck.model("Resolver:" + name, "Resolver", dict(Cases=cases, Bug="none"), invariants=inv + ["Emit"], emit=f, workers=2)
        ck.suite("resolver", f, trace=tr, label="resolver " + name)
        ck.judge("ResolverJudge", "resolver", tr, f)
    allc = tlc.Raw("{z \\in [bs : 1..%d, fs : 0..%d, want : 0..%d, s : 0..3, e : 0..%d] : z.s <= z.e}" % ((4, 9, 9, 5) if q else (5, 14, 14, 7)))
    rnd = []
    for _ in range(3000 if q else 30000):
        bs = ck.rng.randint(1, 40)
        s = ck.rng.randint(0, 60)
        rnd.append({"bs": bs, "fs": ck.rng.choice([0, ck.rng.randint(1, 90 * bs)]), "want": ck.rng.choice([0, ck.rng.randint(1, 12 * bs), bs * ck.rng.randint(1, 9)]),
                    "s": s, "e": s + ck.rng.randint(0, 25)})
    p = ck.path("res_cases.json")
    json.dump(rnd, open(p, "w"))
    ck.jobs([lambda: one("all small", allc), lambda: one("random", tlc.Raw('Range0(JsonDeserialize("%s"))' % p)),
             lambda: ck.model("Resolver:termination", "Resolver", dict(Cases=tlc.Raw("{z \\in [bs : 1..2, fs : 0..3, want : 0..4, s : 0..1, e : 0..3] : z.s <= z.e}"), Bug="none"),
                              invariants=inv, properties=["Terminates"]),
             lambda: ck.mutant("Resolver:offByOne", "Resolver", dict(Cases=allc, Bug="offByOne"), invariants=inv)])


def index(ck):
    ck.build()
    q = ck.quick
    inv = "InvExact InvSorted InvAllIn InvStats".split()

    def one(name, lists, w, s, **kw):
        f = ck.path("idx_%s.json" % name)
        ck.model("Index:" + name, "Index", dict(Lists=lists, Weaks=set(range(w)), Strongs=set(range(s)), Buckets=2, Bug="none"),
                 invariants=inv + ["Emit"], emit=f, workers=3, **kw)
        ck.suite("index", f, label="index " + name)

    def every(n, w, s):
        return tlc.Raw("UNION {[1..k -> (0..%d) \\X (0..%d)] : k \\in 0..%d}" % (w - 1, s - 1, n))
    rnd = []
    for _ in range(80 if q else 800):
        w, s = ck.rng.randint(1, 4), ck.rng.randint(1, 9)
        rnd.append([[ck.rng.randrange(w), ck.rng.randrange(s)] for _ in range(ck.rng.randint(5, 40))])
    p = ck.path("idx_cases.json")
    json.dump(rnd, open(p, "w"))
    ck.jobs([lambda: one("all lists", every(4, 3, 2), 3, 2),
             lambda: one("all lists, many strong", every(4 if q else 5, 2, 3), 2, 3),
             lambda: one("random", tlc.Raw('Range0(JsonDeserialize("%s"))' % p), 4, 9),
             lambda: ck.mutant("Index:firstOnly", "Index", dict(Lists=every(2, 2, 2), Weaks={0, 1}, Strongs={0, 1}, Buckets=2, Bug="firstOnly"), invariants=inv)])


def verifier(ck):
    ck.build()
    q = ck.quick
    inv = ["InvExact", "InvClean"]

    def one(name, n, d, **kw):
        f = ck.path("ver_%s.json" % name)
        ck.model("Verifier:" + name, "Verifier", dict(N=n, Depth=d, Bug="none"), invariants=inv + ["Emit"], emit=f, workers=3, **kw)
        ck.suite("verifier", f, label="verifier " + name)
    jobs = [lambda: one("1 block, 4 calls", 1, 4), lambda: one("2 blocks, 3 calls", 2, 3), lambda: one("3 blocks, 2 calls", 3, 2)]
    if not q:
        jobs += [lambda: one("3 blocks, 3 calls", 3, 3), lambda: one("4 blocks, 2 calls", 4, 2)]
    jobs += [lambda: ck.model("Verifier:returns", "Verifier", dict(N=2, Depth=2, Bug="none"), invariants=inv, properties=["Returns"]),
             lambda: ck.mutant("Verifier:noReset", "Verifier", dict(N=2, Depth=2, Bug="noReset"), invariants=["InvExact"]),
             lambda: ck.mutant("Verifier:unknownEnds", "Verifier", dict(N=2, Depth=2, Bug="unknownEnds"), invariants=["InvExact"])]
    ck.jobs(jobs)


def indexfile(ck):
    ck.build()
    inv = ["InvLoaded", "InvRejected"]

    def one(name, shapes, **kw):
        f = ck.path("if_%s.json" % name)
        ck.model("IndexFile:" + name, "IndexFile", dict(Shapes=tlc.Raw(shapes), Bug="none"), invariants=inv + ["Emit"], emit=f, workers=2, **kw)
        ck.suite("indexfile", f, label="stored list " + name)
    ck.jobs([lambda: one("small", "[n : 0..4, w : 1..4, s : 1..%d]" % (5 if ck.quick else 8), properties=["Ends"]),
             lambda: one("real sizes", "[n : 0..4, w : {4}, s : {16, 32}]"),
             # past the initial capacity of the list
             lambda: one("many entries", "[n : {%s}, w : {4}, s : {16}]" % ("19, 21, 41" if ck.quick else "19, 20, 21, 40, 41, 80")),
             lambda: ck.mutant("IndexFile:halfEntry", "IndexFile", dict(Shapes=tlc.Raw("[n : 0..2, w : 1..2, s : 1..2]"), Bug="halfEntry"), invariants=inv)])
