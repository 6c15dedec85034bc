"""The asynchronous block source: BlockSource.tla against blocksources.BlockSourceBase."""
import json, random
import tlc
from vlib import CheckError, write_cases

INV = ("TypeOK WithinLimit SlotsUsed Conserved NothingLowerInFlight OfferedIsFetched NoStall OrderingSound "
       "NeverCrashes FailureSurfaces FailureEnds EndedIsQuiet").split()
ACT = "LowestFirst NoFetchAfterFailure ErrorOnce NoFetchAfterClose".split()
WALKINV = ("TypeOK WithinLimit SlotsUsed NothingLowerInFlight OfferedIsFetched NoStall OrderingSound "
           "FailureSurfaces FailureEnds ConservedAtEnd").split()
LIVE = "ClosedEnds FailedEnds AllDeliveredEventually".split()


def consts(**k):
    c = dict(Conc=2, SplitN=0, Spans={(0, 0), (1, 1), (2, 2)}, MaxRequests=3, MaxSame=2, MaxFaults=2,
             Outcomes={"ok", "err"}, MaxClose=1, Bug="none")
    c.update(k)
    return c


def graph(ck, name, blocks, **k):
    c = consts(**k)
    g = ck.path("graph_%s.json" % name)
    ck.model("BlockSource:" + name, "MCBlockSource", c, invariants=INV, properties=ACT, action_constraint="Emit", emit=g)
    ck.suite("blocksource", g, cfg={"conc": c["Conc"], "splitn": c["SplitN"], "blocks": blocks}, label="blocksource " + name)


def walks(ck, name, blocks, spans, n, length, moods=("fill", "work", "drain", "any"), **k):
    """Long random behaviours with many ranges."""
    c = consts(Spans=spans, MaxSame=2, MaxRequests=length // 3, MaxFaults=0, Outcomes={"ok"}, MaxClose=0)
    c.update(k)
    c.update(N=length, Moods=set(moods), FaultAfter=length // 3,
             Cfg={"conc": c["Conc"], "splitn": c["SplitN"], "blocks": blocks})
    g = ck.path("walks_%s.json" % name)
    ck.model("BlockSource:" + name, "WalkBlockSource", c, spec="WSpec", invariants=WALKINV, emit=g, simulate=n,
             simdepth=length * 6, seed=ck.seed)
    ck.suite("blocksource", g, label="blocksource " + name)


def spans(rng, blocks, n, step=1, longest=1):
    """n spans; no two that begin with the same block end differently once split."""
    out = {}
    while len(out) < n:
        a = rng.randrange(0, blocks, step)
        b = min(a + step * rng.randint(1, longest), blocks) - 1
        out.setdefault(a, (a, b))
    return set(out.values())


def longwalks(ck):
    q = ck.quick
    n = 120 if q else 1500
    r = random.Random(ck.seed)
    return [
        lambda: walks(ck, "many single blocks", 60, spans(r, 60, 40), n, 150, Conc=2),
        lambda: walks(ck, "many ranges, four slots", 400, spans(r, 400, 50, longest=9), n, 150, Conc=4, MaxSame=1),
        lambda: walks(ck, "many single blocks, forty slots", 90, spans(r, 90, 60), n // 2, 150, Conc=40),
        lambda: walks(ck, "long spans split to blocks", 70, spans(r, 70, 12, longest=30), n // 2, 120, SplitN=1, MaxRequests=6, Conc=3),
        lambda: walks(ck, "long spans split", 400, spans(r, 400, 20, step=4, longest=20), n // 2, 150, SplitN=4, MaxRequests=10, Conc=1),
        lambda: walks(ck, "many ranges with faults", 60, spans(r, 60, 40), n, 120, Conc=5, MaxFaults=4, Outcomes={"ok", "err"}, MaxClose=2),
    ]


def logs(ck, http=False):
    """The real scheduler: logs of sources in use from several goroutines, judged by BlockSourceLog.tla."""
    rng = random.Random(ck.seed + 5)

    def case(long, web):
        blocks = rng.choice([4, 12, 40])
        cut = sorted(rng.sample(range(blocks), rng.randint(1, min(blocks, 16))))
        parts = [(a, b - 1) for a, b in zip(cut, cut[1:] + [blocks])]
        rng.shuffle(parts)
        asks = [[] for _ in range(rng.randint(1, 4))]
        for p in parts:
            rng.choice(asks).append(p)
        mode = rng.choice(["", "", "fail", "fail", "close", "both"] if not web else ["", "", "", "fail"])
        big = [1, 3, 4096, 50000] if rng.randrange(4 if not web else 2) == 0 else [1, 3, 4096]
        return dict(conc=rng.randint(1, 8 if web else 5), splitn=rng.choice([0, 0, 1, 2, 3]), bs=rng.choice(big[:2] if long else big), asks=asks,
                    fail=sorted(rng.sample(range(blocks), rng.randint(1, min(blocks, 5)))) if mode in ("fail", "both") else [],
                    how=rng.choice(["err", "verify", "hash"]), close=[rng.randint(0, 800) for _ in range(rng.randint(1, 3))] if mode in ("close", "both") else [],
                    slow=rng.choice([0, 0, 1, 3]), busy=rng.choice([0, 1, 2, 4] if long else [0, 0, 1, 6]), long=long, http=web, seed=rng.randint(1, 1 << 30))

    def some(name, suite, cases):
        f, tr = write_cases(ck.path("%s.json" % name), cases), ck.path("trace_" + name)
        ck.suite(suite, f, trace=tr, label={"bslog": "real scheduler", "bsafter": "after many requests", "bslogtime": "virtual time", "bsloghttp": "HTTP, real scheduler"}[name])
        ck.judge("BlockSourceLog", suite, tr, f)
    q = ck.quick
    if http:
        return some("bsloghttp", "bslog", [case(False, True) for _ in range(300 if q else 5000)])
    some("bslog", "bslog", [case(False, i % 6 == 5) for i in range(600 if q else 12000)])
    # the state after any number of requests is the one of a new source
    some("bsafter", "bslog", [dict(conc=conc, splitn=0, bs=3, asks=[asks], fail=fail, how=how, close=[], slow=0, busy=0, long=False, http=False, seed=n + 1, before=n)
                              for n in list(range(0, 270 if q else 2100)) + [65534, 65535, 65536]
                              for conc, asks, fail, how in ((1, [(0, 0)], [0], "hash"), (2, [(0, 0), (1, 1)], [0], "err"), (3, [(2, 2), (0, 1), (3, 3), (4, 4)], [], "hash"))])
    some("bslogtime", "bslogtime", [case(True, False) for _ in range(800 if q else 12000)])


def judgeable(ck):
    """Logs that break one rule each must be rejected, for the property it belongs to."""
    def ev(text):
        return [dict(e=w.split(":")[0].rstrip("!"), r=[ord(w[-1]) - 97] * 2 if ":" in w else [], ok=not w.split(":")[0].endswith("!"))
                for w in text.split()]
    begin = "ask:a asked:a ask:b asked:b ask:c asked:c "
    logs = [
        (begin + "start:a start:b end:b end:a want got:a want got:b start:c end:c want got:c all close closed over late!", []),
        (begin + "start:a start:b end:b want got:b end:a want got:a start:c end:c want got:c all close closed over late!", ["C07"]),
        (begin + "start:a start:b start:c end:a end:b end:c want got:a want got:b want got:c all close closed over late!", ["C08"]),
        (begin + "start:a end:a want got:a want got:a", ["C07"]),
        (begin + "start:a end:a want got!:a", ["C07"]),
        (begin + "start:a end:a start:a", ["C07"]),
        (begin + "start:a end:a want got:a start:b end:b want got:b all", ["C07"]),
        (begin + "start:a end!:a want got:a", ["C09"]),
        (begin + "start:a end!:a start:b end!:b want error want error", ["C09"]),
        (begin + "ask:d asked:d start:a end!:a want error start:b end:b start:c end:c start:d", ["C09"]),
        (begin + "start:a close closed start:b end:b start:c", ["C11"]),
        (begin + "start:a end:a close closed start:b end:b start:c end:c", []),
        (begin + "start:a end!:a want over", ["C09"]),
        (begin + "start:a close closed over", ["C11"]),
        (begin + "start:a end:a want got:a close closed over late", ["C11"]),
        ("V " + begin + "start:a end!:a want got:a", ["C09", "C10"]),
        ("V " + begin + "start:a end:a want error", ["C07", "C09", "C10"]),
        ("H " + begin + "start:a end:a want got!:a", ["C07", "C18"]),
        ("H " + begin + "start:a end:a want error", ["C07", "C09", "C18"]),
        ("ask:a asked!:a", ["C07"]),
        (begin + "over", ["C07"]),
    ]
    p, em = write_cases(ck.path("badlogs.json"), [dict(idx=i, conc=2, splitn=0, ver="V" in t.split(), http="H" in t.split(), log=ev(t.replace("V ", "").replace("H ", ""))) for i, (t, _) in enumerate(logs)]), ck.path("badlogs.verdicts")
    tlc.must(tlc.run("BlockSourceLog", dict(File=p), ck.scratch, "badlogs", invariants=["Judge"], workers=2, emit=em))
    got = {v["k"] - 1: v["v"] for v in map(json.loads, open(em))}
    for i, (t, want) in enumerate(logs):
        if sorted(got.get(i, [])) != want:
            raise CheckError("BlockSourceLog judges %r %s instead of %s" % (t, got.get(i), want))
    ck.notes.setdefault("rejected_spec_mutants", {})["BlockSourceLog: %d logs that break one rule" % (len(logs) - 1)] = "verdicts as expected"


def run(ck, focus):
    """focus: which part of the behaviour deserves the deeper graphs."""
    ck.build()
    jobs = [lambda: graph(ck, "three requests, two slots", 3)]
    if focus == "count":
        return ck.jobs(jobs + [lambda: graph(ck, "split with faults", 4, SplitN=2, Spans={(0, 3), (1, 2)}, MaxRequests=2,
                                             MaxSame=1)])
    if focus in ("order", "limit"):
        jobs += [
            lambda: graph(ck, "four requests, two slots, no faults", 4, Spans={(0, 0), (1, 1), (2, 3)}, MaxRequests=4,
                          MaxFaults=0, Outcomes={"ok"}, MaxClose=0),
            lambda: graph(ck, "split requests", 4, SplitN=1, Spans={(0, 1), (1, 3), (2, 2)}, MaxRequests=2, MaxFaults=0,
                          Outcomes={"ok"}, MaxClose=0),
            lambda: graph(ck, "one slot", 3, Conc=1, MaxRequests=4, MaxFaults=0, Outcomes={"ok"}, MaxClose=0),
            lambda: graph(ck, "three slots", 4, Conc=3, Spans={(0, 0), (1, 1), (2, 2), (3, 3)}, MaxRequests=4, MaxSame=1,
                          MaxFaults=0, Outcomes={"ok"}, MaxClose=0),
        ]
    jobs += longwalks(ck) + [lambda: logs(ck), lambda: judgeable(ck)]
    if focus in ("fail", "close"):
        jobs += [
            lambda: graph(ck, "three faults, three slots", 3, Conc=3, MaxRequests=3, MaxSame=2, MaxFaults=3, MaxClose=1),
            lambda: graph(ck, "one slot with faults", 3, Conc=1, MaxClose=2),
        ]
    jobs.append(lambda: ck.model("BlockSource:liveness", "MCBlockSource", consts(), invariants=INV, properties=ACT + LIVE,
                                 spec="FairSpec", workers=4))
    for b, inv in (("fetchAfterExit", ACT), ("staleOffer", ()), ("secondErrorPanics", ()), ("errorTwice", ACT)):
        jobs.append(lambda b=b, inv=inv: ck.mutant("BlockSource:" + b, "MCBlockSource", consts(Bug=b), invariants=INV,
                                                   properties=inv, workers=2))
    if not ck.quick:
        jobs += [
            lambda: graph(ck, "four requests, two slots", 3, MaxRequests=4),
            lambda: graph(ck, "split with faults", 4, SplitN=2, Spans={(0, 3), (1, 2), (3, 3)}, MaxRequests=3, MaxSame=1),
            lambda: graph(ck, "five requests, three slots", 5, Conc=3, Spans={(0, 0), (1, 1), (2, 2), (3, 3), (4, 4)},
                          MaxRequests=5, MaxSame=1, MaxFaults=0, Outcomes={"ok"}, MaxClose=0),
        ]
    ck.jobs(jobs)
