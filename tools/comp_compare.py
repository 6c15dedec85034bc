"""What the compare command states: Compare.tla."""
import comp_cli, comp_scan, tlc

INV = "InvTogether InvOrder InvFound InvItself InvAllFound".split()


def run(ck):
    ck.build()
    q = ck.quick
    env = comp_cli.build(ck)

    def tiny(bs, n, ps, lo=0):
        return tlc.Raw("{[bs |-> %d, ref |-> r, loc |-> l, p |-> p] : r \\in UNION {[1..n -> {0, 1}] : n \\in 0..%d}, "
                       "l \\in UNION {[1..n -> {0, 1}] : n \\in %d..%d}, p \\in {%s}}" % (bs, n, lo, n + 1, ", ".join(map(str, ps))))

    def one(name, cases, whole, **kw):
        f = ck.path("cmp_%s.json" % name)
        ck.model("Compare:" + name, "Compare", dict(Cases=cases, Whole=whole, Bug="none"), invariants=INV + ["Emit"], emit=f, workers=3, **kw)
        ck.suite("compare", f, label="comparisons, " + name, hang_s=75, env=env)

    def rnd(name, n, sizes, maxblocks, sections):
        out = []
        while len(out) < n:
            bs = ck.rng.choice(sizes)
            ref, loc = comp_scan.random_pair(ck.rng, bs, maxblocks, ck.rng.choice([(0, 1), (0, 1, 2), (0, 127, 128, 255), tuple(range(256))]))
            r = ck.rng.random()
            loc = ref if r < .1 else loc[:ck.rng.randint(0, bs)] if r < .15 and not sections else loc + ref if r < .3 else loc
            p = ck.rng.choice((1, 2, 3, 4, 7))
            if sections:
                p = ck.rng.choice((2, 3, 4, 5))
                loc = loc[:len(loc) - len(loc) % p]   # cut alike at every scale
                if len(loc) < p:
                    continue
            out.append({"bs": bs, "ref": ref, "loc": loc, "p": p})
        return comp_scan.jsoncases(ck, "compare_" + name, out)
    small, cut = rnd("small", 250 if q else 2500, (1, 2, 3, 4, 5, 8, 16), 7, False), rnd("cut", 90 if q else 900, (1, 2, 3, 4, 5), 8, True)
    jobs = [lambda: comp_scan.clihuge(ck, env, ["diff", "diffref"]), lambda: one("small", small, 1000000), lambda: one("in sections", cut, 0),
            lambda: one("all tiny", tiny(2, 3 if q else 4, (1,)), 1000000),
            lambda: ck.model("Compare:sections", "Compare", dict(Cases=tiny(2, 5 if q else 6, (1, 2, 3), 2), Whole=0, Bug="none"), invariants=INV, properties=["Ends"], workers=3)]
    for b in ("noOverlap", "highest", "dupes"):
        jobs.append(lambda b=b: ck.mutant("Compare:" + b, "Compare", dict(Cases=tiny(2, 4, (1, 2), 2), Whole=0, Bug=b), invariants=INV))
    ck.jobs(jobs)
