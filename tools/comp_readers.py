"""Synthetic readers: Readers.tla."""
import tlc


def run(ck):
    ck.build()
    rng = ck.rng
    u = lambda v, n: ["uni", v, n]
    s = lambda i, n: ["seq", i, n]
    leaves = [u(0, 0), u(1, 1), u(0, 3), u(1, 5), s(0, 0), s(1, 3), s(2, 6)]
    ex = list(leaves)
    for off in (0, 1, 2, 3, 7):
        ex += [["inj", off, u(0, 3), u(1, 2)], ["inj", off, s(3, 4), u(1, 2)], ["inj", off, s(0, 5), s(4, 2)], ["inj", off, u(1, 2), u(0, 0)], ["inj", off, u(0, 0), u(1, 2)]]
        ex += [["inj", 1, ["inj", off, u(0, 3), u(1, 1)], s(5, 2)], ["inj", off, s(0, 4), ["inj", 1, u(1, 2), u(0, 1)]]]
    for n in (0, 1, 3, 4, 6, 9):
        ex += [["lim", n, []], ["lim", n, [u(1, 3)]], ["lim", n, [u(1, 2), u(0, 2)]], ["lim", n, [s(0, 2), u(1, 0), s(0, 3)]],
               ["lim", n, [["inj", 2, s(1, 4), u(1, 1)], u(0, 3)]], ["inj", 2, ["lim", n, [u(0, 2), u(1, 2)]], u(0, 1)]]

    def rnd(d):
        k = rng.choice(["uni", "seq"] if d == 0 else ["uni", "seq", "inj", "lim", "inj", "lim"])
        if k == "uni":
            return u(rng.randint(0, 1), rng.randint(0, 6))
        if k == "seq":
            return s(rng.randint(0, 5), rng.randint(0, 7))
        if k == "inj":
            return ["inj", rng.randint(0, 7), rnd(d - 1), rnd(d - 1)]
        return ["lim", rng.randint(0, 15), [rnd(d - 1) for _ in range(rng.randint(0, 3))]]
    q = ck.quick

    def one(name, exprs, sizes, depth, **kw):
        f = ck.path("rd_%s.json" % name)
        ck.model("Readers:" + name, "Readers", dict(Exprs=tlc.Raw("{%s}" % ", ".join(sorted({tlc.tla(e) for e in exprs}))), Sizes=set(sizes), Depth=depth, Bug="none"),
                 invariants=["InvPrefix", "InvEnd", "Emit"], properties=["Progress"], emit=f, workers=4, **kw)
        ck.suite("readers", f, label="readers, " + name)
    jobs = [lambda: one("small", ex, (0, 1, 2, 5), 4 if q else 6),
            lambda: one("random", [rnd(2) for _ in range(60)] + [rnd(3) for _ in range(60)], (0, 1, 3, 8), 3 if q else 5)]
    for b in ("zeroEnds", "restart"):
        jobs.append(lambda b=b: ck.mutant("Readers:" + b, "Readers", dict(Exprs=tlc.Raw('{<<"uni", 1, 2>>, <<"seq", 1, 3>>}'), Sizes={0, 1, 2}, Depth=4, Bug=b), invariants=["InvPrefix", "InvEnd"]))
    ck.jobs(jobs)
