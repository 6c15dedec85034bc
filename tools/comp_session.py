"""Sessions made from paths: Session.tla."""
import json
import comp_cli, tlc

INV = "InvResult InvReported InvUntouched".split()
INPLACE = ["same", "alias", "hardlink", "symlink", "inlink", "bothlink", "dirlink"]
OUTS = INPLACE + ["absent", "dangling", "other", "linkother"]
FILES = [([1, 2, 3], [1, 9, 3]), ([1, 2, 3], [3, 2, 1]), ([1, 2], []), ([], [1, 2]), ([5], [5]), ([1, 1, 2, 2], [2, 2, 7, 1, 1, 8]), ([1, 2, 3, 4, 5, 6], [6, 9]), ([1, 2, 3], [7, 8])]
OLD = [[], [9], [1, 2, 3, 4, 5, 6, 7, 8], [9, 9, 9]]


def cases(q):
    out = []
    for o in OUTS:
        for ref, loc in FILES:
            for old in (OLD if o in ("other", "linkother") else [[]]):
                def add(fault, at=0, steps=("make", "patch", "close")):
                    out.append(dict(out=o, ref=ref, loc=loc, old=old, fault=fault, at=at, steps=list(steps)))
                for steps in (["make", "patch", "close"], ["make", "close"], ["make"], ["make", "patch"]):
                    add("none", 0, steps)
                for f in ("noInput", "noOutDir", "outIsDir"):
                    if (f == "noInput" and o in ("absent", "dangling", "other", "linkother")) or (f != "noInput" and o == "absent"):
                        add(f)
                if o in ("same", "symlink", "absent", "other"):
                    for f in ("inBelow", "outBelow", "longName"):
                        add(f)
                if o in INPLACE:
                    add("noTemp")
                    for f in ("tempGone", "targetDir", "targetFull"):
                        if ref or f != "targetFull":
                            add(f)
                if o == "absent" and ref:
                    add("full")
                for at in range(1, len(ref) + 1):
                    if ref[at - 1] not in loc:
                        add("source", at)
                        add("source", at, ["make", "patch"])
    # files of many megabytes
    for o in ("same", "absent", "symlink", "other") if q else OUTS:
        n = 67 if q else 131
        ref = list(range(1, n + 1))
        for loc in [[99] + ref[:30] + [98] + ref[31:]] + ([] if q else [ref, ref[::-1], ref[40:]]):
            out.append(dict(out=o, ref=ref, loc=loc, old=ref[:5] if o == "other" else [], fault="none", at=0, steps=["make", "patch", "close"], big=True))
    for c in out:
        c.setdefault("big", False)
    return out


def pairs(q):
    out = []
    kinds = ["same", "symlink", "absent", "other"]
    A = ([1, 2, 3, 4], [3, 9, 1])
    B = ([11, 12, 13], [12, 11, 3, 1])
    C = ([5, 6], [6, 5, 7, 8])
    files = [(A, B), (A, C)] if q else [(A, B), (A, C), (B, A), (C, C), (A, A), (([], [1]), B), (([21, 22], []), C)]
    for k1 in kinds:
        for k2 in kinds:
            for x, y in files:
                for bad in ([False, False], [True, False], [False, True]):
                    out.append(dict(kind=[k1, k2], ref=[x[0], y[0]], loc=[x[1], y[1]], share=False, bad=bad))
                    if k1 not in INPLACE and k2 not in INPLACE:
                        out.append(dict(kind=[k1, k2], ref=[x[0], y[0]], loc=[x[1], x[1]], share=True, bad=bad))
    return out


def two(ck):
    p, f = ck.path("ses2_cases.json"), ck.path("ses2.json")
    json.dump(pairs(ck.quick), open(p, "w"))
    raw = tlc.Raw('Range0(JsonDeserialize("%s"))' % p)
    inv = "InvResult InvClean InvUntouched InvShared".split()

    def main():
        ck.model("Sessions", "Sessions", dict(Cases=raw, Bug="none"), invariants=inv + ["Emit"], emit=f, workers=4)
        ck.suite("sessions2", f, label="two sessions", hang_s=30)
        ck.suite("sessionstool", f, label="two processes", hang_s=75, env=comp_cli.build(ck))
    return [main] + [lambda b=b: ck.mutant("Sessions:" + b, "Sessions", dict(Cases=raw, Bug=b), invariants=inv) for b in ("fixedName", "sweep")]


def run(ck):
    ck.build()
    p, f = ck.path("ses_cases.json"), ck.path("ses.json")
    json.dump(cases(ck.quick), open(p, "w"))
    raw = tlc.Raw('Range0(JsonDeserialize("%s"))' % p)

    def main():
        ck.model("Session", "Session", dict(Cases=raw, Bug="none"), invariants=INV + ["Emit"], properties=["Ends"], emit=f, workers=4)
        ck.suite("session", f, label="sessions", hang_s=30)
    jobs = [main] + two(ck)
    for b in ("noTrunc", "copyAlways", "leaveTemp", "sameByName", "copyErrorLost"):
        jobs.append(lambda b=b: ck.mutant("Session:" + b, "Session", dict(Cases=raw, Bug=b), invariants=INV))
    ck.jobs(jobs)
