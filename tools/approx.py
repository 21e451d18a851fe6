"""Relational (approximate) operations: model cases -> driver -> trace -> TLC verdict."""
from vf import *

Q = 22


def gen(run, group, n, seed):
    out = run.path(f"acases-{group}.ndjson")
    run.tlc("GenApprox", {"Group": group, "Seed": seed, "N": n}, {"OUT": out}, workers=1, tag="gena" + group)
    return read_ndjson(out)


def operand_floats(c):
    fs = []
    for v, den, pi, x in zip(c["a"], c["den"], c["pi"], c["x"]):
        d = math.sqrt(sum(t * t for t in v)) if den == 0 else float(den)
        for a, e in zip(v, x):
            fs.append(math.ldexp(u2f(f2u(a / d * (math.pi if pi else 1.0))), e))
    return fs


def case_line(i, c):
    return f"{i} {c['op'].removeprefix('tiny_')} {' '.join(hexf(f) for f in operand_floats(c))}\n"


def validate(run, cases, bins, tag=""):
    lines = [case_line(i, c) for i, c in enumerate(cases)]
    with cf.ThreadPoolExecutor(NCPU) as ex:
        results = dict(zip(bins, ex.map(lambda b: run.drive(b, lines), bins.values())))
    seen = {}
    for conf, res in results.items():
        for i, c in enumerate(cases):
            r = res.get(i, "CRASH not run")
            if isinstance(r, str):
                key = (i, ("crash",))
            elif not r or len(r) % len(c["rx"]):
                key = (i, ("len",))
            else:
                key = (i, tuple(fixed(u, c["rx"][k % len(c["rx"])], Q) for k, u in enumerate(r)))
            seen.setdefault(key, []).append((conf, r))
    events, meta = [], []
    for (i, r), who in sorted(seen.items(), key=lambda t: (t[0][0], str(t[0][1]))):
        ok = 0 if all(isinstance(v, int) for v in r) else 1
        c = cases[i]
        events.append({"i": len(events), "op": c["op"], "a": c["a"], "den": c["den"], "pi": c["pi"],
                       "r": list(r) if ok == 0 else [], "ok": ok})
        meta.append((i, who))
    for k, _ in run.accept("TraceApprox", events, tag):
        i, who = meta[k]
        c = cases[i]
        got = who[0][1] if isinstance(who[0][1], str) else [u2f(u) for u in who[0][1]]
        run.violation(f"{c['op']} operands {operand_floats(c)} got {got} (config {','.join(w[0] for w in who)})",
                      {"event": events[k], "case": c, "line": lines[i].strip(), "configs": [w[0] for w in who]})
    run.cases += len(cases)
    for k in range(0, len(events), max(1, len(events) // 4)):
        run.samples.append(json.dumps({k2: events[k][k2] for k2 in ("op", "a", "den", "r")}))


def approx_check(run, group, n_quick, n_thorough, sources=("approx.cpp",), defs=(), cases_of=None, only=None):
    confs = [c for c in (FULL if run.thorough else QUICK) if not only or c in only]
    with cf.ThreadPoolExecutor(4) as ex:
        fb = ex.submit(run.build, list(sources), confs, ["-DG_" + group.upper(), *defs], (), "apx")
        fg = ex.submit(gen, run, cases_of or group, n_thorough if run.thorough else n_quick, run.seed * 131)
        bins, cases = fb.result(), fg.result()
    run.notes["configurations"] = confs
    run.notes["cases_" + (cases_of or group)] = len(cases)
    validate(run, cases, bins, tag=cases_of or group)
