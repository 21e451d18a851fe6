"""Exact operations: model cases -> driver -> trace -> TLC verdict."""
from vf import *


def gen(run, group, n, seed):
    out = run.path(f"cases-{group}.ndjson")
    run.tlc("GenExact", {"Group": group, "Seed": seed, "N": n}, {"OUT": out}, workers=1, tag="gen" + group)
    return read_ndjson(out)


INEXACT = {"sw_trans_plane", "c_translate_plane"}
QB = 12


def convert(op, r, rx):
    if op in INEXACT:
        return tuple(fixed(u, e, QB) for u, e in zip(r, rx))
    return tuple(exact_int(u, e) for u, e in zip(r, rx))


def case_line(i, c, nz):
    fs = []
    for v, x in zip(c["a"], c["x"]):
        for a, e in zip(v, x):
            f = math.ldexp(float(a), e)
            if a == 0 and nz:
                f = -0.0
            fs.append(hexf(f))
    return f"{i} {c['op']} {' '.join(fs)}\n"


def validate_exact(run, cases, bins, tag=""):
    """run the cases in every configuration, validate the recorded trace with TLC"""
    lines = [case_line(i, c, i % 3 == 1) for i, c in enumerate(cases)]
    with cf.ThreadPoolExecutor(NCPU) as ex:
        results = dict(zip(bins, ex.map(lambda b: run.drive(b, lines), bins.values())))
    seen = {}
    for conf, res in results.items():
        for i, c in enumerate(cases):
            r = res.get(i, "CRASH not run")
            if isinstance(r, str):
                key = (i, ("crash",))
            else:
                key = (i, convert(c["op"], r, c["rx"]) if len(r) == len(c["rx"]) else ("len",))
            seen.setdefault(key, []).append((conf, r))
    events, meta = [], []
    for (i, r), who in sorted(seen.items(), key=lambda t: (t[0][0], str(t[0][1]))):
        ok = 0 if all(isinstance(v, int) for v in r) and r else 1
        events.append({"i": len(events), "op": cases[i]["op"], "a": cases[i]["a"],
                       "r": list(r) if ok == 0 else [], "ok": ok})
        meta.append((i, who))
    for k, exp in run.accept("TraceExact", events, tag):
        i, who = meta[k]
        c = cases[i]
        run.violation(f"{c['op']} operands {c['a']} exps {c['x']} got {events[k]['r'] or who[0][1]} "
                      f"(config {','.join(w[0] for w in who)}) spec {exp}",
                      {"event": events[k], "case": c, "line": lines[i].strip(), "configs": [w[0] for w in who]})
    run.cases += len(cases)
    for k in range(0, len(events), max(1, len(events) // 4)):
        run.samples.append(json.dumps({"op": events[k]["op"], "a": events[k]["a"], "r": events[k]["r"]}))


def exact_check(run, group, n_quick, n_thorough, sources=("exact.cpp",), defs=(), only=None):
    confs = [c for c in (FULL if run.thorough else QUICK) if not only or c in only]
    with cf.ThreadPoolExecutor(4) as ex:
        fb = ex.submit(run.build, list(sources), confs, ["-DG_" + group.upper(), *defs])
        fg = ex.submit(gen, run, group, n_thorough if run.thorough else n_quick, run.seed * 131)
        bins, cases = fb.result(), fg.result()
    run.notes["configurations"] = confs
    run.notes["cases"] = len(cases)
    validate_exact(run, cases, bins)
