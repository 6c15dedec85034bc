"""What stays open or running: Release.tla."""
import itertools, json
import tlc

INV = "InvFiles InvRequests InvNoSource".split()
PROP = ["Released", "Ends"]
BAD = ["wrong", "short", "long", "200", "200long", "gzip", "404", "404long", "500", "416", "503long", "broken", "closed"]


def cases(q):
    out = []
    for o in ("same", "link", "absent", "other"):
        inplace = o in ("same", "link")

        def add(ends, make="none", patch=True, place="none"):
            out.append(dict(out=o, make=make, ends=list(ends), patch=patch, place=place))
        for make in ("noInput",) + (("noTemp",) if inplace else ("noOutDir", "outIsDir", "outBelow")):
            if not (make == "noInput" and inplace):
                add([], make)
                add(["ok"], make)
        for n in range(4 if q else 6):
            add(["ok"] * n)
            add(["ok"] * n, patch=False)
            for b in BAD:
                add(["ok"] * n + [b])
                if not q:
                    add(["ok"] * n + [b, "ok", "404"])
            if inplace:
                for p in ("tempGone", "targetDir", "targetFull"):
                    add(["ok"] * n, place=p)
                    add(["ok"] * n + ["404"], place=p)
                    add(["ok"] * n, place=p, patch=False)
    return out


def run(ck):
    ck.build()
    p, f = ck.path("rel_cases.json"), ck.path("rel.json")
    json.dump(cases(ck.quick), open(p, "w"))
    raw = tlc.Raw('Range0(JsonDeserialize("%s"))' % p)

    def main():
        ck.model("Release", "Release", dict(Cases=raw, Bug="none"), invariants=INV + ["Emit"], properties=PROP, emit=f, workers=4)
        ck.suite("release", f, label="what sessions leave", hang_s=60)
    ck.jobs([main] + [lambda b=b: ck.mutant("Release:" + b, "Release", dict(Cases=raw, Bug=b), invariants=INV, properties=PROP)
                      for b in ("leakInput", "leakSource", "keepBody", "placeFirst")])
