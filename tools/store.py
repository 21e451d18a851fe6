"""Comparison, storage and constraining; and equality of computed objects with rebuilt ones."""
from vf import *
import exact


def line_of(i, c):
    x = c["x"]
    sc = lambda vs: [math.ldexp(float(v), x) for v in vs]
    fs = sc(c["a"]) + [-0.0 if c.get("nz") and v == 0 else v for v in sc(c["b"])]
    if c["k"] == "approx":
        fs += sc([c["eps"]])
    if c["k"] in ("store", "load"):
        fs += [float(c["off"])]
    return f"{i} {c['k']}_{c['T']} {' '.join(hexf(f) for f in fs)}\n"


def record(run, cases, bins, lines, events, meta):
    with cf.ThreadPoolExecutor(NCPU) as ex:
        results = dict(zip(bins, ex.map(lambda b: run.drive(b, lines), bins.values())))
    for i, c in enumerate(cases):
        seen = {}
        for conf, res in results.items():
            r = res.get(i, "CRASH not run")
            if isinstance(r, str):
                key = None
            else:
                x = 0 if c["k"] in ("eq", "approx", "rebuilt") else c["x"]
                key = tuple(exact_int(u, x) for u in r)
            seen.setdefault(key, []).append((conf, r))
        for key, who in seen.items():
            e = dict(c)
            e.update(i=len(events), ok=0 if key is not None else 1, r=list(key or []))
            events.append(e)
            meta.append((who, lines[i].strip()))


def check(run, group, nq, nt):
    confs = FULL if run.thorough else QUICK
    events, meta = [], []
    with cf.ThreadPoolExecutor(4) as ex:
        fb = ex.submit(run.build, ["store.cpp"], confs)
        out = run.path("cases.ndjson")
        fg = ex.submit(run.tlc, "GenStore", {"Group": group, "Seed": run.seed * 131, "N": nt if run.thorough else nq},
                       {"OUT": out}, workers=1)
        fs = ex.submit(run.build, ["exact.cpp"], confs, ["-DG_ALL", "-DKD_SELFEQ"], (), "seq") if group == "store" else None
        bins = fb.result()
        fg.result()
        cases = read_ndjson(out)
        record(run, cases, bins, [line_of(i, c) for i, c in enumerate(cases)], events, meta)
        if fs:
            # objects computed by every exact operation equal the objects built from their components
            ec = [c for c in exact.gen(run, "compared", 40 if run.thorough else 4, run.seed * 977)]
            record(run, [{"k": "rebuilt", "T": c["op"], "a": c["a"], "b": [], "eps": 0, "off": 0, "x": 0} for c in ec],
                   fs.result(), [exact.case_line(i, c, False) for i, c in enumerate(ec)], events, meta)
    run.notes["configurations"] = confs
    run.cases = len(cases)
    for k, _ in run.accept("TraceStore", events):
        who, line = meta[k]
        e = events[k]
        run.violation(f"{e['k']} {e['T']} operands {e['a']} {e['b']} eps {e['eps']} off {e['off']} scale 2^{e['x']} got "
                      f"{e['r'] or who[0][1]} (config {','.join(w[0] for w in who)})", {"event": e, "line": line})
    for k in range(0, len(events), max(1, len(events) // 4)):
        run.samples.append(json.dumps({q: events[k][q] for q in ("k", "T", "a", "b", "eps", "off", "r")}))
