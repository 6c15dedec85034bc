"""Generating checksums: ChecksumGen.tla."""
import tlc

INV = "InvComplete InvReported InvOrder".split()


def cases(ns, bss, bprs, kinds=("none", "read", "compress", "write"), ats=None):
    s = lambda x: "{%s}" % ", ".join(map(str, x))
    return tlc.Raw('{z \\in [bs : %s, bpr : %s, n : %s, fault : %s, at : %s] : (z.fault = "none" => z.at = 0) /\\ '
                   '(z.fault \\in {"compress", "write"} => z.at \\in 1..CeilDiv(z.n, z.bs)) /\\ (z.fault = "read" => z.at <= z.n)}'
                   % (s(bss), s(bprs), s(ns), tlc.tla(set(kinds)), s(ats or range(max(ns) + 1))))


def run(ck):
    ck.build()
    q = ck.quick

    def one(name, cs, **kw):
        f = ck.path("gen_%s.json" % name)
        ck.model("ChecksumGen:" + name, "ChecksumGen", dict(Cases=cs, Bug="none"), invariants=INV + ["Emit"], emit=f, workers=3, **kw)
        ck.suite("checksums", f, label="checksums, " + name)
    jobs = [lambda: one("small", cases(range(0, 7 if q else 10), (1, 2, 3), (0, 1, 2, 3)), properties=["Ends"]),
            lambda: one("larger blocks", cases((15, 16, 17, 33) if q else range(12, 40), (16,), (1, 2), ("none", "read"))),
            # past the batches of GenerateChecksums
            lambda: one("many blocks", cases((64, 65) if q else (63, 64, 65, 66, 128, 129, 193), (1,) if q else (1, 2), (64,), ("none", "write"), (0, 1, 65)))]
    for b in ("cleanLate", "swallowRead", "swallowCompress", "swallowWrite", "leave"):
        jobs.append(lambda b=b: ck.mutant("ChecksumGen:" + b, "ChecksumGen", dict(Cases=cases(range(0, 4), (1, 2), (1, 2)), Bug=b), invariants=INV, properties=["Ends"]))
    ck.jobs(jobs)
