"""Every build configuration on the same calls: the results agree with each other."""
from vf import *
import exact, approx, store

AGROUPS = ["inv", "gppt", "norm", "sdiv", "sqrt", "exp", "log", "ctor", "euler", "metric"]


def check(run):
    confs = FULL
    t = run.thorough
    with cf.ThreadPoolExecutor(NCPU) as ex:
        fe = ex.submit(run.build, ["exact.cpp"], confs, ["-DG_ALL"], (), "ex")
        ge = ex.submit(exact.gen, run, "all", 60 if t else 4, run.seed * 313)
        ga = [ex.submit(approx.gen, run, g, 400 if t else 16, run.seed * 313) for g in AGROUPS]
        exb, ec = fe.result(), [c for c in ge.result() if not c["op"].startswith(("glsl_", "c_"))]
        fa = ex.submit(run.build, ["approx.cpp"], confs, ["-DG_" + g.upper() for g in AGROUPS], (), "ap")
        out = run.path("store.ndjson")
        fs = ex.submit(run.build, ["store.cpp"], confs, (), (), "st")
        run.tlc("GenStore", {"Group": "store", "Seed": run.seed * 131, "N": 8 if t else 1}, {"OUT": out}, workers=1)
        apb, ac, stb, sc = fa.result(), [c for f in ga for c in f.result() if c["op"] != "as_euler"], fs.result(), read_ndjson(out)
    events, meta = [], []

    def rec(cases, lines, bins, kind, conv):
        with cf.ThreadPoolExecutor(NCPU) as ex:
            results = dict(zip(bins, ex.map(lambda b: run.drive(b, lines), bins.values())))
        for i, c in enumerate(cases):
            rs, ok = {}, 0
            for conf, res in results.items():
                r = res.get(i, "CRASH not run")
                if isinstance(r, str):
                    ok = 1
                else:
                    rs.setdefault(tuple(conv(c, r)), []).append(conf)
            events.append({"i": len(events), "k": kind(c), "op": c.get("op") or c["k"] + "_" + c["T"], "ok": ok, "rs": [list(r) for r in rs]})
            meta.append((lines[i].strip(), [(list(r), w) for r, w in rs.items()]))

    rec(ec, [exact.case_line(i, c, i % 3 == 1) for i, c in enumerate(ec)], exb,
        lambda c: "near" if c["op"] in exact.INEXACT else "approx" if c["op"] == "gp_point_point" else "exact",
        lambda c, r: exact.convert(c["op"], r, c["rx"]) if len(r) == len(c["rx"]) else [])
    rec(ac, [approx.case_line(i, c) for i, c in enumerate(ac)], apb, lambda c: "approx",
        lambda c, r: [fixed(u, c["rx"][k % len(c["rx"])], approx.Q) for k, u in enumerate(r)])
    rec(sc, [store.line_of(i, c) for i, c in enumerate(sc)], stb, lambda c: "exact",
        lambda c, r: [exact_int(u, 0 if c["k"] in ("eq", "approx") else c["x"]) for u in r])
    run.notes["configurations"] = confs
    run.cases = len(events)
    if os.environ.get("AGREE_DEBUG"):
        w = {}
        for e in events:
            if e["k"] != "exact" and len(e["rs"]) > 1:
                m = max(abs(v) for r in e["rs"] for v in r)
                d = max(max(c) - min(c) for c in zip(*e["rs"]))
                a = w.setdefault(e["op"], [0, 0.0])
                a[0] = max(a[0], d - m // 16384 if m < 2 ** 30 else 0)
                a[1] = max(a[1], d / (m + 1))
        for k, v in sorted(w.items()): print(k, v)
    for k, _ in run.accept("TraceAgree", events):
        line, rs = meta[k]
        run.violation(f"{events[k]['op']} differs between builds: " + "; ".join(f"{w[0]}:{r}" for r, w in rs[:3])[:500],
                      {"line": line, "results": [{"result": r, "configs": w} for r, w in rs]})
    for k in range(0, len(events), max(1, len(events) // 4)):
        run.samples.append(json.dumps({q: events[k][q] for q in ("op", "k", "rs")})[:500])
