"""Array application: programs from the model, full array after every step, stateful trace validation."""
from vf import *


def line_of(i, c):
    x = c["x"]
    fs = [len(c["mem"]), len(c["steps"]), i % 2]
    for e in c["mem"]:
        fs += [math.ldexp(float(v), x) for v in e]
    for s in c["steps"]:
        fs += [s["src"], s["dst"], s["n"]] + [float(v) for v in s["v"]]
    return f"{i} batch_{c['M']}_{c['T']} {' '.join(hexf(float(f)) for f in fs)}\n"


def steps_model(run):
    """read-before-write is right for every permitted placement; writing early is not"""
    for parts in (1, 2):
        run.tlc("BatchSteps", {"Parts": parts, "M": 4 if run.thorough else 3, "ReadFirst": True},
                extra_cfg="INVARIANT Right", tag=f"bs{parts}")
    early = {"Parts": 2, "M": 2, "ReadFirst": False}
    run.tlc("BatchSteps", early, extra_cfg="INVARIANT RightIfDisjoint", tag="bsearly")
    run.tlc("BatchSteps", early, extra_cfg="INVARIANT Right", tag="bsbad", ok_codes=(12,))


def long_line(i, c):
    fs = [c[k] for k in ("m", "p", "src", "dst", "n")] + list(c["v"]) + [v for e in c["mem"] for v in e]
    return f"{i} long_{c['M']}_{c['T']} {' '.join(hexf(float(f)) for f in fs)}\n"


def stretches(u, d, p):
    if isinstance(u, str):
        return None
    v, k, segs = [exact_int(x, 0) for x in u], 0, []
    while k + 2 <= len(v):
        start, n = v[k], v[k + 1]
        q = min(n, p)
        segs.append({"from": start, "len": n, "first": [v[k + 2 + t * d:k + 2 + (t + 1) * d] for t in range(q)]})
        k += 2 + q * d
    return segs[:40]


def long(run):
    """one application to arrays longer than any counter or block"""
    out = run.path("long.ndjson")
    confs = FULL if run.thorough else QUICK
    with cf.ThreadPoolExecutor(2) as ex:
        fb = ex.submit(run.build, ["batch.cpp"], confs, name="long")
        fg = ex.submit(run.tlc, "GenLong", {"Seed": run.seed * 131, "N": 24 if run.thorough else 4}, {"OUT": out}, workers=1)
        bins = fb.result(); fg.result()
    cases = read_ndjson(out)
    lines = [long_line(i, c) for i, c in enumerate(cases)]
    with cf.ThreadPoolExecutor(NCPU) as ex:
        results = dict(zip(bins, ex.map(lambda b: run.drive(b, lines), bins.values())))
    events, meta = [], []
    for i, c in enumerate(cases):
        seen = {}
        for conf, res in results.items():
            s = stretches(res.get(i, "CRASH not run"), len(c["mem"][0]), c["p"])
            seen.setdefault(json.dumps(s), (s, []))[1].append(conf)
        for s, who in seen.values():
            events.append(dict(c, i=len(events), ok=0 if s is not None else 1, segs=s or []))
            meta.append((who, lines[i].strip()))
    run.notes["long arrays, up to elements"] = max(c["m"] for c in cases)
    for k, _ in run.accept("TraceLong", events):
        e, (who, line) = events[k], meta[k]
        run.violation(f"{e['M']} on {e['T']}[{e['m']}]: src {e['src']} dst {e['dst']} n {e['n']} motion {e['v']} (config {','.join(who)})",
                      {"event": e, "line": line})


def check(run):
    long(run)
    confs = FULL if run.thorough else QUICK
    n, long_ = (120, 12) if run.thorough else (12, 1)
    out = run.path("progs.ndjson")
    with cf.ThreadPoolExecutor(4) as ex:
        fb = ex.submit(run.build, ["batch.cpp"], confs)
        fg = ex.submit(run.tlc, "GenBatch", {"Seed": run.seed * 131, "N": n, "Long": long_}, {"OUT": out}, workers=1)
        fm = ex.submit(steps_model, run)
        bins = fb.result(); fg.result(); fm.result()
    cases = [c for c in read_ndjson(out) if c["steps"]]
    lines = [line_of(i, c) for i, c in enumerate(cases)]
    with cf.ThreadPoolExecutor(NCPU) as ex:
        results = dict(zip(bins, ex.map(lambda b: run.drive(b, lines), bins.values())))
    events, meta = [], []
    for i, c in enumerate(cases):
        d, m, k = len(c["mem"][0]), len(c["mem"]), len(c["steps"])
        seen = {}
        for conf, res in results.items():
            r = res.get(i, "CRASH not run")
            key = None if isinstance(r, str) or len(r) != d * m * k else tuple(exact_int(u, c["x"]) for u in r)
            seen.setdefault(key, []).append((conf, r))
        for key, who in seen.items():
            e = {q: c[q] for q in ("M", "T", "mem", "steps")}
            e.update(i=len(events), ok=0 if key is not None else 1,
                     after=[[list(key[(s * m + q) * d:(s * m + q + 1) * d]) for q in range(m)] for s in range(k)] if key else [[]] * k)
            events.append(e)
            meta.append((who, lines[i].strip()))
    run.notes["configurations"] = confs
    run.notes["applications"] = sum(len(e["steps"]) for e in events)
    run.cases = len(cases)
    for k, step in run.accept("TraceBatch", events, post=""):
        e, (who, line) = events[k], meta[k]
        s = e["steps"][int(step) - 1]
        r = who[0][1]
        run.violation(f"{e['M']} on {e['T']}[{len(e['mem'])}] step {step}: src {s['src']} dst {s['dst']} n {s['n']} motion {s['v']} "
                      f"{r if isinstance(r, str) else ''} (config {','.join(w[0] for w in who)})", {"event": e, "line": line})
    for k in range(0, len(events), max(1, len(events) // 4)):
        run.samples.append(json.dumps({q: events[k][q] for q in ("M", "T", "steps")})[:600])
