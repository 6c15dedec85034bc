"""The window buffer and the rolling checksum: Window.tla, Rolling.tla."""
WIN = "Bounded Contiguous EndsWithNewest Refines LengthAgrees EvictionRefines HeadsApart".split()
ROL = ["FromScratch", "Bounded"]


def window(ck):
    ck.build()

    def one(name, bs, depth, **kw):
        f = ck.path("win_%s.json" % name)
        ck.model("Window:" + name, "Window", dict(BS=bs, Depth=depth, Bug="none"), invariants=WIN + ["Emit"], emit=f, **kw)
        ck.suite("window", f, label="window " + name)

    sizes = ((1, 6), (2, 5), (3, 5), (4, 4)) if ck.quick else ((1, 8), (2, 6), (3, 5), (4, 5), (5, 4))
    jobs = [lambda b=b, d=d: one("block %d, all sequences of %d operations" % (b, d), b, d) for b, d in sizes]
    n = 60 if ck.quick else 400
    for b, d in ((2, 60), (3, 60), (5, 60), (8, 50), (13, 40)):
        jobs.append(lambda b=b, d=d: one("block %d, random %d operations" % (b, d), b, d, simulate=n, seed=ck.seed, simdepth=d + 5))
    jobs.append(lambda: ck.mutant("Window:wrap", "Window", dict(BS=2, Depth=5, Bug="wrap"), invariants=WIN))
    ck.jobs(jobs)


def rolling(ck):
    ck.build()

    def one(name, kind, bs, depth, lens, pats, **kw):
        f = ck.path("rol_%s.json" % name)
        ck.model("Rolling:" + name, "Rolling", dict(Kind=kind, BS=bs, Depth=depth, Lens=set(lens), Patterns=set(pats), Bug="none"),
                 invariants=ROL + ["Emit"], emit=f, **kw)
        ck.suite("rolling", f, label="rolling " + name)

    P2 = [(255, 0), (1, 3)]
    P4 = [(255, 0), (254, 0), (1, 3), (200, 77)]
    q = ck.quick
    jobs = [
        lambda: one("base, block 2, all", "base", 2, 3, [0, 1, 2], P2),
        lambda: one("base, block 3, all", "base", 3, 3, [0, 1, 3], P2),
        lambda: one("hash, block 3, all", "hash", 3, 4, [0, 1, 2, 3, 4, 7], P2),
        lambda: one("hash, block 1, all", "hash", 1, 4, [0, 1, 2, 3], P2),
        lambda: one("hash, block 4, all", "hash", 4, 4 if q else 5, [0, 1, 2, 3, 4, 5], P2),
        lambda: one("hash, block 6, random", "hash", 6, 60, [0, 1, 2, 3, 5, 6, 7, 20], P2, simulate=30 if q else 300, seed=ck.seed, simdepth=80),
        lambda: one("base, block 6, random", "base", 6, 60, [0, 1, 2, 3, 5, 6], P2, simulate=15 if q else 200, seed=ck.seed, simdepth=80),
        # sums that overflow 16 bits many times
        lambda: one("hash, block 300, random", "hash", 300, 10, [1, 150, 299, 300, 700], P4[:2] + P4[3:], simulate=6 if q else 60, seed=ck.seed, simdepth=40),
        lambda: one("base, block 300, random", "base", 300, 10, [1, 150, 299, 300], P4[:1] + P4[3:], simulate=6 if q else 60, seed=ck.seed, simdepth=40),
        # sums that overflow 32 bits before they are cut to 16
        lambda: one("hash, block 7000, random", "hash", 7000, 7, [1, 3500, 6999, 7000, 9000], P4[:2] + P4[3:], simulate=2 if q else 20, seed=ck.seed, simdepth=20),
        lambda: one("base, block 7000, random", "base", 7000, 7, [1, 3500, 6999, 7000], P4[:1] + P4[3:], simulate=2 if q else 20, seed=ck.seed, simdepth=20),
        # blocks longer than 16 bits count
        lambda: one("hash, block 70000, random", "hash", 70000, 3 if q else 5, [1, 35000, 69999, 90000], P4[3:], simulate=1 if q else 4, seed=ck.seed, simdepth=10),
        lambda: one("base, block 70000, random", "base", 70000, 3 if q else 5, [1, 35000, 70000], P4[3:], simulate=1 if q else 4, seed=ck.seed, simdepth=10),
        lambda: ck.mutant("Rolling:lengthAfter", "Rolling", dict(Kind="base", BS=2, Depth=3, Lens={0, 1, 2}, Patterns=set(P2), Bug="lengthAfter"), invariants=ROL),
    ]
    ck.jobs(jobs)
