"""Scanning: Scan.tla against comparer.StartFindMatchingBlocks."""
import json, random
import tlc
from vlib import write_cases

INV = "InvGenuine InvComplete InvShortFinal Ascending InWindow".split()


def all_cases(bs, refmax, locmax, al=(0, 1), locmin=None):
    a = ",".join(map(str, al))
    return tlc.Raw("{[bs |-> %d, ref |-> r, loc |-> l] : r \\in UNION {[1..n -> {%s}] : n \\in 0..%d}, "
                   "l \\in UNION {[1..n -> {%s}] : n \\in %d..%d}}" % (bs, a, refmax, a, bs if locmin is None else locmin, locmax))


def random_pair(rng, bs, maxblocks, alphabet):
    """A reference and a local file that shares parts with it, at all alignments."""
    collide = [[0, 2, 0], [1, 0, 1]]

    def piece(n):
        r = rng.random()
        if r < .25 and n >= 3:
            out = []
            while len(out) < n:
                out += rng.choice(collide)
            return out[:n]
        if r < .35:
            return [rng.choice(alphabet)] * n
        return [rng.choice(alphabet) for _ in range(n)]

    blocks = rng.randint(0, maxblocks)
    ref = []
    pool = [piece(bs) for _ in range(max(1, blocks // 2))]
    for _ in range(blocks):
        ref += rng.choice(pool) if rng.random() < .4 else piece(bs)
    if rng.random() < .7 and bs > 1:
        ref += piece(rng.randint(1, bs - 1))
    loc = []
    while len(loc) < bs or (rng.random() < .85 and len(loc) < (maxblocks + 2) * bs):
        r = rng.random()
        if ref and r < .7:
            a = rng.randint(0, len(ref) - 1)
            if rng.random() < .5:
                a -= a % bs
            b = rng.randint(a, min(len(ref), a + 3 * bs))
            if rng.random() < .3:
                b = len(ref)
            loc += ref[a:b]
        else:
            loc += piece(rng.randint(1, bs))
    return ref, loc


def random_cases(rng, n, blocksizes, maxblocks):
    out = []
    for _ in range(n):
        bs = rng.choice(blocksizes)
        al = rng.choice([(0, 1), (0, 1, 2), (0, 127, 128, 255), (7,), tuple(range(256))])
        ref, loc = random_pair(rng, bs, maxblocks, al)
        out.append({"bs": bs, "ref": ref, "loc": loc})
    return out


def from_file(path):
    return tlc.Raw('Range0(JsonDeserialize("%s"))' % path)


def model_cases(ck, name, cases, workers=2, **kw):
    f = ck.path("scan_%s.json" % name)
    ck.model("Scan:" + name, "Scan", dict(Cases=cases, Bug="none"), invariants=INV + ["Emit"], emit=f, workers=workers, **kw)
    return f


def replay(ck, name, f, suite="scan"):
    tr = ck.path("trace_%s_%s" % (suite, name))
    ck.suite(suite, f, trace=tr, label="%s %s" % (suite, name))
    ck.judge("ScanJudge", suite, tr, f)


def jsoncases(ck, name, cases):
    p = ck.path("cases_%s.json" % name)
    json.dump(cases, open(p, "w"))
    return from_file(p)


def run(ck, what):
    ck.build()
    q = ck.quick
    jobs = []

    def go(name, cases, suite="scan", **kw):
        jobs.append(lambda: replay(ck, name, model_cases(ck, name, cases, **kw), suite))

    if what == "complete":
        go("block 1, all", all_cases(1, 4, 5, (0, 1, 2)))
        go("block 2, all", all_cases(2, 5, 7 if q else 8))
        go("block 3, all", all_cases(3, 6 if q else 7, 7 if q else 8))
        go("block 4, all", all_cases(4, 5 if q else 6, 7 if q else 8))
        go("random", jsoncases(ck, "random", random_cases(ck.rng, 700 if q else 6000, (1, 2, 3, 4, 5, 8, 16), 7)))
        go("random, long", jsoncases(ck, "long", random_cases(ck.rng, 60 if q else 600, (2, 3, 7, 16, 33), 25)))
    else:
        go("block 2, all", all_cases(2, 4, 5))
        go("block 3, all", all_cases(3, 4, 6))
        go("block 4 with colliding checksums", all_cases(4, 4, 7))
        go("random", jsoncases(ck, "random", random_cases(ck.rng, 500 if q else 4000, (1, 2, 3, 4, 5, 8, 16), 7)))
        go("block 1, failing reads", all_cases(1, 2, 3), "scanfail")
        go("block 2, failing reads", all_cases(2, 3, 5), "scanfail")
        go("block 3, failing reads", all_cases(3, 3 if q else 4, 6), "scanfail")
        go("random, failing reads", jsoncases(ck, "rf", random_cases(ck.rng, 60 if q else 800, (1, 2, 3, 5, 8), 5)), "scanfail")
    jobs[:0] = [lambda: huge(ck, "scanhuge"), lambda: big(ck, "scanbig")]
    jobs.append(lambda: ck.model("Scan:termination", "Scan", dict(Cases=all_cases(2, 3, 5), Bug="none"), invariants=INV, properties=["Terminates"]))
    for b, bs in (("weakOnly", 4), ("skipTail", 2), ("overlapSkip", 2)):
        jobs.append(lambda b=b, bs=bs: ck.mutant("Scan:" + b, "Scan", dict(Cases=all_cases(bs, 4, 5), Bug=b), invariants=INV))
    ck.jobs(jobs)


def huge(ck, suite):
    """Letters of the model that stand for a megabyte or for 4 GB."""
    cases = [{"bs": 1, "ref": [1, 2, 0], "loc": [0, 3, 1]}] if ck.quick else [
        {"bs": 1, "ref": [1, 2, 0], "loc": [0, 3, 1]}, {"bs": 1, "ref": [1, 1, 2], "loc": [2, 0, 1, 0, 2]}, {"bs": 1, "ref": [0, 1, 0], "loc": [3, 0, 1]}]
    ck.suite(suite, model_cases(ck, suite, jsoncases(ck, suite, cases)), shards=len(cases), label="letters of 4 GB: " + suite, hang_s=300)


def big(ck, suite):
    """Letters of the model that stand for 35 million bytes: huge blocks."""
    cases = [{"bs": 1, "ref": [1, 2, 0], "loc": [0, 3, 1]}] + ([] if ck.quick else [{"bs": 1, "ref": [1, 1, 2], "loc": [2, 0, 1]}])
    ck.suite(suite, model_cases(ck, suite, jsoncases(ck, suite, cases)), shards=len(cases), label="huge blocks: " + suite, hang_s=300)


def clihuge(ck, env, whats):
    """The same with the tool itself."""
    cases = [{"bs": 1, "ref": [1, 2, 0], "loc": [0, 3, 1]}, {"bs": 1, "ref": [1, 0, 2], "loc": [2, 0, 3]}]
    f = model_cases(ck, "clihuge", jsoncases(ck, "clihuge", cases if not ck.quick else cases[:1]))
    g = write_cases(ck.path("clihuge.json"), [dict(json.loads(l), what=w) for l in open(f) for w in whats])
    ck.suite("clihuge", g, label="the tool with files of more than 4 GB", hang_s=330, env=env)


def shared(ck):
    """Scans at the same time: SharedScans.tla."""
    ck.build()
    q = ck.quick
    inv = ["InvAlone", "InvCount"]

    def cases(n, scans, blocksizes, maxblocks):
        out = []
        while len(out) < n:
            bs = ck.rng.choice(blocksizes)
            al = ck.rng.choice([(0, 1), (0, 1, 2), (0, 127, 128, 255)])
            ref, loc = random_pair(ck.rng, bs, maxblocks, al)
            locs = [loc]
            for _ in range(scans - 1):
                r = ck.rng.random()
                locs.append(loc if r < .2 else ref if r < .3 else random_pair(ck.rng, bs, maxblocks, al)[1] if r < .6 else loc[ck.rng.randint(0, bs):] + ref[-bs:])
            out.append({"bs": bs, "ref": ref, "locs": locs})
        return out

    def exhaustive(name, cs):
        ck.model("SharedScans:" + name, "SharedScans", dict(Cases=cs, Bug="none"), invariants=inv, properties=["Ends"], view="NoHist", workers=2)

    def sampled(name, n, walks, scans, blocksizes, maxblocks):
        f = ck.path("shared_%s.json" % name)
        ck.model("SharedScans:" + name, "SharedScans", dict(Cases=jsoncases(ck, "shared " + name, cases(n, scans, blocksizes, maxblocks)), Bug="none"),
                 invariants=inv + ["Emit"], emit=f, simulate=walks, simdepth=2000, seed=ck.seed)
        ck.suite("sharedscans", f, label="scans at the same time, " + name)

    tiny = jsoncases(ck, "shared tiny", [{"bs": b, "ref": r, "locs": [x, y]} for b, r in ((2, [0, 1, 1, 0, 1]), (2, [0, 1, 0, 1]), (1, [0, 1, 0]))
                                         for x in ([0, 1, 1, 0], [1, 0, 1, 1], [0, 0, 1]) for y in ([0, 1, 1, 0], [1, 1, 0, 0, 1], [1])])
    coll = jsoncases(ck, "shared coll", [{"bs": 3, "ref": [0, 2, 0, 1, 0, 1, 0, 2], "locs": [[1, 0, 1, 0, 2, 0], [0, 2, 0, 1, 0, 1]]}])
    jobs = [lambda: exhaustive("tiny, all interleavings", tiny), lambda: exhaustive("collisions, all interleavings", coll),
            lambda: sampled("two", 150 if q else 1000, 500 if q else 6000, 2, (1, 2, 3, 4, 5), 4),
            lambda: sampled("three", 80 if q else 600, 200 if q else 3000, 3, (1, 2, 3, 5), 4)]

    def stress():
        f = write_cases(ck.path("sharedstress.json"), [{"bs": b, "n": n, "scans": k, "seed": ck.seed * 10 + i}
                                                       for i, (b, n, k) in enumerate([(16, 60000, 8), (64, 100000, 6), (7, 30000, 8), (1000, 150000, 4)] * (1 if q else 6))])
        ck.suite("sharedstress", f, shards=1, label="scans at the same time, on all processors", hang_s=120)
    for b in ("memo", "window", "count"):
        jobs.append(lambda b=b: ck.mutant("SharedScans:" + b, "SharedScans", dict(Cases=coll if b != "count" else tiny, Bug=b), invariants=inv, view="NoHist"))
    ck.jobs(jobs)
    stress()
