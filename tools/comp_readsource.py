"""Block sources over seekable readers: ReadSource.tla."""
import itertools, json
import tlc

INV = "InvExact InvAt InvFails".split()


def cases(rng, q):
    out = []

    def add(ln, bs, fs, spans, fault=("none", 0), scale=1, moves=(), late=False):
        out.append(dict(len=ln, bs=bs, fs=fs, spans=[list(s) for s in spans], fault=list(fault), scale=scale,
                        moves=list(moves), late=late))
    for ln, bs in ((0, 3), (1, 3), (7, 3), (9, 3), (5, 1), (4, 7), (10, 4)):
        n = -(-ln // bs)
        sp = [(a, b) for a in range(n + 1) for b in range(a, n + 1)]
        for fs in (0, ln):
            mine = [s for s in sp if not fs or s[1] < n]
            for s in mine:
                for p in [("none", 0), ("seek", 1)] + [("read", p) for p in range(0, ln + 1)]:
                    add(ln, bs, fs, [s], p)
            for s in itertools.product(mine[:6], repeat=2):
                for p in (("none", 0), ("seek", 2), ("read", ln - 1)):
                    if p[1] >= 0:
                        add(ln, bs, fs, s, p)
            for s in mine[:6]:      # the reader is moved between the ranges
                for m in range(-1, ln + 2):
                    nxt = [t for t in mine if t[0] == s[1] + 1][:2] + mine[:1]
                    for t in nxt:
                        add(ln, bs, fs, [s, t], moves=[-1, m])
                        add(ln, bs, fs, [s, t], moves=[m])
            blk = [(a, a) for a in range(-(-ln // bs))]
            for r in range(2, 4):   # collected at the end
                for s in itertools.combinations(blk, r):
                    add(ln, bs, fs, s, late=True)
        if ln > 2:   # the data end before the size that is known
            add(ln - 2, bs, ln, [(0, 0), (0, n - 1), (n - 1, n - 1)])
    # one request of 120 million bytes, and blocks of 80 million
    add(5, 2, 5, [(0, 2)], scale=24_000_000)
    add(5, 2, 5, [(0, 1), (2, 2)], scale=24_000_000, late=True)
    add(5, 2, 0, [(0, 0), (1, 2)], ("read", 3), scale=40_000_000)
    for _ in range(150 if q else 3000):
        ln, bs = rng.randint(0, 24), rng.randint(1, 6)
        n = -(-ln // bs)
        spans = []
        fs = rng.choice([0, ln])
        top = n - 1 if fs else n
        for _ in range(rng.randint(1, 6)):
            a = rng.randint(0, max(0, top))
            spans.append((a, rng.randint(a, max(a, top))))
        if fs and not n:
            continue
        add(ln, bs, fs, spans, rng.choice([("none", 0)] * 3 + [("seek", rng.randint(1, 4)), ("read", rng.randint(0, ln))]), rng.choice([1, 1, 1, 100, 40000]),
            [rng.randint(-2, ln + 3) for _ in spans] if rng.random() < .4 else ())
        if ln and rng.random() < .4:
            cut = sorted(rng.sample(range(n + 1), min(n + 1, rng.randint(2, 6))))
            add(ln, bs, fs, [(a, b - 1) for a, b in zip(cut, cut[1:])], scale=rng.choice([1, 1, 100, 40000]), late=True)
    return out


def counts(ck):
    """only what the source says it was sent (C03)"""
    ck.build()
    p, f = ck.path("rs_cases.json"), ck.path("rs.json")
    json.dump(cases(ck.rng, ck.quick), open(p, "w"))
    ck.model("ReadSource", "ReadSource", dict(Cases=tlc.Raw('Range0(JsonDeserialize("%s"))' % p), Bug="none"),
             invariants=INV + ["Emit"], emit=f, workers=4)
    ck.suite("readsource", f, label="sources over readers")


def run(ck):
    ck.build()
    p, f = ck.path("rs_cases.json"), ck.path("rs.json")
    json.dump(cases(ck.rng, ck.quick), open(p, "w"))
    raw = tlc.Raw('Range0(JsonDeserialize("%s"))' % p)

    def main():
        ck.model("ReadSource", "ReadSource", dict(Cases=raw, Bug="none"), invariants=INV + ["Emit"], properties=["Ends"], emit=f, workers=4)
        ck.suite("readsource", f, label="sources over readers")
    jobs = [main]
    for b in ("noSeek", "padded", "errIsEnd", "believes", "oneBuffer"):
        jobs.append(lambda b=b: ck.mutant("ReadSource:" + b, "ReadSource", dict(Cases=raw, Bug=b), invariants=INV))
    ck.jobs(jobs)
