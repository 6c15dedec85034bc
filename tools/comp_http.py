"""HTTP fetches: HttpFetch.tla."""
import json
import tlc

INV = "InvAccept InvRefuse InvNotFound InvAsked".split()
STATUS = [200, 201, 202, 203, 204, 205, 206, 207, 226, 300, 301, 302, 304, 307, 400, 401, 403, 404, 405, 406, 410, 412, 416, 429, 451, 500, 501, 502, 503, 504, 505]
CODINGS = ["no", "gzip", "x-gzip", "identity, gzip", "GZIP", "two headers"]
BASE = dict(bs=4, fs=18, first=1, last=2, conn="ok", hops=0, interim=False, huge=False, status=206, gzip="no", framing="length", sent=8, said=8, ended=True)


def ranges(x):
    f = x["first"] * x["bs"]
    return f, min((x["last"] + 1) * x["bs"], x["fs"])


def cases(q):
    out = {}

    def add(**kw):
        x = dict(BASE, **kw)
        if x["status"] in (204, 304) and x["framing"] == "length" and "said" not in kw:
            x["said"] = x["sent"]
        out[json.dumps(x, sort_keys=True)] = x
    spans = [dict(bs=b, fs=fs, first=f, last=l) for b, fs in ([(4, 18), (1, 3)] if q else [(4, 18), (1, 3), (5, 5), (7, 50), (64, 1000)])
             for f in range(0, (fs + b - 1) // b) for l in range(f, (fs + b - 1) // b) if l < 8]
    for s in spans:
        a, z = ranges(s)
        w = z - a
        lens = sorted({0, 1, w - 1, w, w + 1, 2 * w, s["fs"], (s["last"] + 1) * s["bs"] - a})
        for fr in ("length", "chunked", "close"):
            for n in lens:
                add(sent=n, said=n, framing=fr, **s)
        for said in lens:      # announced and sent differ
            for n in lens:
                add(sent=n, said=said, framing="length", **s)
        for n in lens:         # broken off
            add(sent=n, framing="chunked", ended=False, **s)
        for conn in ("refused", "closed", "garbage", "halfHeader", "badurl"):
            add(conn=conn, sent=w, said=w, **s)
        for g in CODINGS:
            add(gzip=g, sent=w, said=w, **s)
    for st in STATUS:
        for fr in ("length", "chunked", "close"):
            for n in (0, 7, 8, 9, 18):
                for g in (CODINGS[:2] if q else CODINGS):
                    add(status=st, framing=fr, sent=n, said=n, gzip=g)
    for hops in (1, 2, 9, 10, 11):
        for st in (206, 200, 404):
            for n in (8, 7):
                add(hops=hops, status=st, sent=n, said=n) if hops < 10 else None
    for st in (206, 200, 404, 500):
        for fr in ("length", "chunked", "close"):
            add(interim=True, status=st, framing=fr)
    # large ranges, in large files
    for bs, fs in [(1000, 10500), (65536, 400000), (1 << 20, (3 << 20) + 5)] + ([] if q else [(700, 5 << 20), (1 << 22, 1 << 24)]):
        n = (fs + bs - 1) // bs
        for first, last in {(0, 0), (0, n - 1), (1, n - 1), (n - 1, n - 1), (1, 2)}:
            s = dict(bs=bs, fs=fs, first=first, last=last)
            a, z = ranges(s)
            w = z - a
            for fr in ("length", "chunked", "close"):
                for k in (w, w - 1, w + 1):
                    add(sent=k, said=k, framing=fr, **s)
            add(sent=w - 1, said=w, **s)
            add(sent=w // 2, said=w, **s)
            add(sent=w, framing="chunked", ended=False, **s)
            add(sent=w, said=w, gzip="gzip", **s)
            for st in (200, 404, 503):
                add(sent=w, said=w, status=st, **s)
    for first, last in ((0, 2), (1, 1)):     # very large ones
        s = dict(bs=1 << 26, fs=150_000_003, first=first, last=last)
        a, z = ranges(s)
        w = z - a
        for kw in (dict(sent=w, said=w), dict(sent=w - 1, said=w - 1), dict(sent=w, framing="chunked"), dict(sent=w, said=w, status=404)):
            add(**kw, **s)
    for n in (2, 3, 4, 5, 9, 2049, 70001):
        for k in (7, 6, 8):
            add(bs=8, fs=8 * n + 7, first=n, last=n, sent=k, said=k, huge=True)
    return list(out.values())


def run(ck):
    ck.build()
    cs = cases(ck.quick)
    p, f = ck.path("http_cases.json"), ck.path("http.json")
    json.dump(cs, open(p, "w"))
    raw = tlc.Raw('Range0(JsonDeserialize("%s"))' % p)
    few = tlc.Raw('{z \\in Range0(JsonDeserialize("%s")) : z.first = 1 /\\ z.bs = 4}' % p)

    def main():
        ck.model("HttpFetch", "HttpFetch", dict(Cases=raw, Bug="none"), invariants=INV + ["Emit"], properties=["Ends"] if not ck.quick else [], emit=f, workers=4)
        ck.suite("http", f, label="HTTP answers", hang_s=25)
    jobs = [main, lambda: ck.model("HttpFetch:ends", "HttpFetch", dict(Cases=few, Bug="none"), invariants=INV, properties=["Ends"])]
    for b in ("anyStatus", "anyCoding", "anyLength", "anyEnd", "wholeBlocks"):
        jobs.append(lambda b=b: ck.mutant("HttpFetch:" + b, "HttpFetch", dict(Cases=raw if b == "wholeBlocks" else few, Bug=b), invariants=INV))
    ck.jobs(jobs)
