"""Histories: programs over registers, the registers after every instruction, stateful trace validation."""
from vf import *

DIM = {"plane": 4, "point": 4, "dir": 3, "line": 6, "ideal": 3, "branch": 3, "rotor": 4, "trans": 3, "motor": 8, "dual": 2, "scalar": 1}


def word(c):
    if c["op"] == "set":
        return f"set {c['T']} {c['d']} " + " ".join(hexf(float(v)) for v in c["v"])
    return f"{c['op']} {c['d']} {c['s']} {c['t']}"


def line_of(i, p):
    return f"{i} P {' '.join(word(c) for c in p['boot'])} go {' '.join(word(c) for c in p['steps'])}\n"


def run_programs(binary, lines):
    """the register changes after every instruction, or a crash"""
    res, todo = {}, list(lines)
    for _ in range(20):
        p = subprocess.run([binary], input="".join(todo), capture_output=True, text=True, errors="replace",
                           env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:handle_segv=0:handle_abort=0"), timeout=300)
        out = p.stdout.splitlines()
        for ln in out:
            w = ln.split()
            if "CRASH" in w[1:2]:
                res[int(w[0])] = " ".join(w[1:])
                continue
            k, dumps = 1, []
            while k < len(w):
                n, k, one = int(w[k]), k + 1, []
                for _ in range(n):
                    t, d = w[k], int(w[k + 1])
                    one.append((t, d, tuple(exact_int(int(x, 16), 0) for x in w[k + 2:k + 2 + DIM[t]])))
                    k += 2 + DIM[t]
                dumps.append(tuple(one))
            res[int(w[0])] = tuple(dumps)
        if p.returncode == 3:
            raise ToolError(p.stderr[-300:])
        if p.returncode == 0 and len(out) == len(todo):
            break
        if len(out) >= len(todo):
            break
        res[int(todo[len(out)].split()[0])] = "CRASH process " + p.stderr[-300:]
        todo = todo[len(out) + 1:]
        if not todo:
            break
    return res


REG = {"M": "motor", "R": "rotor", "T": "trans", "P": "point", "Q": "plane", "L": "line"}


def changed(step):
    """the register a step of a walk writes"""
    return step[-2] if step[-1] == ")" else step[1] if step[0] == "n" else "M" if "M" in step or step in ("R*T", "T*R") else "R" if "R" in step else "T"


def walks(run):
    """long histories of small motions, against products and closed forms in fixed point"""
    confs = FULL if run.thorough else QUICK
    n, length = (320, 240) if run.thorough else (32, 120)
    parts = 8
    with cf.ThreadPoolExecutor(4) as ex:
        fb = ex.submit(run.build, ["walk.cpp"], confs, (), (), "walk")
        outs = [run.path(f"wk{k}.ndjson") for k in range(parts)]
        for f in [ex.submit(run.tlc, "GenWalk", {"Seed": run.seed * 151 + 19 * k, "N": n // parts, "Length": length},
                            {"OUT": outs[k]}, workers=1, heap="1g", tag=f"gw{k}") for k in range(parts)]:
            f.result()
        bins = fb.result()
    cases = [c for o in outs for c in read_ndjson(o)]
    lines = [f"{i} W " + " ".join([hexf(u2f(f2u(v / c["den"]))) for v in c["v"]] + [hexf(float(v)) for v in c["P"] + c["Q"] + c["L"]]
                             + [hexf(u2f(f2u(v / c["from"]["n"]))) for v in c["from"]["M"] + c["from"]["R"] + c["from"]["T"]] + c["steps"]) + "\n"
             for i, c in enumerate(cases)]
    with cf.ThreadPoolExecutor(NCPU) as ex:
        results = dict(zip(bins, ex.map(lambda b: run.drive(b, lines), bins.values())))
    events, meta = [], []
    for i, c in enumerate(cases):
        want = [DIM[REG[changed(st)]] for st in c["steps"]]
        seen = {}
        for conf, res in results.items():
            r = res.get(i, "CRASH not run")
            if not isinstance(r, str):
                r = tuple(fixed(u, 0, 22) for u in r)
                r = r if len(r) == 15 + sum(want) and all(isinstance(v, int) for v in r) else "not finite"
            seen.setdefault(r, []).append(conf)
        for r, who in seen.items():
            bad, at, dump = isinstance(r, str), 15, []
            for d in want:
                dump.append([] if bad else list(r[at:at + d]))
                at += d
            events.append({"i": len(events), "ok": 1 if bad else 0, **{k: c[k] for k in ("kind", "v", "den", "from", "P", "Q", "L", "steps")},
                           "gens": {g: [] if bad else list(r[a:b]) for g, a, b in (("m", 0, 8), ("r", 8, 12), ("t", 12, 15))}, "dump": dump})
            meta.append((i, r if bad else "", who))
    run.notes["walk_steps"] = sum(len(e["steps"]) for e in events)
    run.notes["walks"] = len(cases)
    run.cases += len(cases)
    for k, step in run.accept("TraceWalk", events, post="", consts={"Every": 20}, tag="walk"):
        i, crash, who = meta[k]
        e, s = events[k], int(step) - 1
        got = crash or [v / 2.0 ** 22 for v in e["dump"][s]]
        run.violation(f"walk {i} of kind {e['kind']} with {e['v']}/{e['den']}: step {s + 1} {e['steps'][s]} -> {got} (config {','.join(who)})",
                      {"line": lines[i].strip()[:20000], "configs": who, "history": e["steps"][:s + 1]})


def check(run):
    with cf.ThreadPoolExecutor(2) as ex:
        for f in [ex.submit(programs, run), ex.submit(walks, run)]:
            f.result()


def programs(run):
    confs = FULL if run.thorough else QUICK
    n, length = (200, 200) if run.thorough else (24, 60)
    parts = 8
    with cf.ThreadPoolExecutor(12) as ex:
        fb = ex.submit(run.build, ["machine.cpp"], confs)
        outs = [run.path(f"mp{k}.ndjson") for k in range(parts)]
        fg = [ex.submit(run.tlc, "GenMachine", {"Seed": run.seed * 131 + 17 * k, "N": n // parts, "Length": length},
                        {"OUT": outs[k]}, workers=1, heap="2g", tag=f"gm{k}", timeout=800) for k in range(parts)]
        bins = fb.result()
        [f.result() for f in fg]
    progs = [p for o in outs for p in read_ndjson(o)]
    lines = [line_of(i, p) for i, p in enumerate(progs)]
    with cf.ThreadPoolExecutor(NCPU) as ex:
        results = dict(zip(bins, ex.map(lambda b: run_programs(b, lines), bins.values())))
    events, meta = [], []
    for i, p in enumerate(progs):
        seen = {}
        for conf, res in results.items():
            r = res.get(i, "CRASH not run")
            seen.setdefault(r if isinstance(r, str) or len(r) == len(p["steps"]) else "CRASH short", []).append(conf)
        for r, who in seen.items():
            bad = isinstance(r, str)
            events.append({"i": len(events), "ok": 1 if bad else 0, "boot": p["boot"], "steps": p["steps"],
                           "dump": [[] for _ in p["steps"]] if bad else [[{"T": t, "d": d, "v": list(v)} for t, d, v in one] for one in r]})
            meta.append((i, r if bad else "", who))
    run.notes["configurations"] = confs
    run.notes["instructions"] = sum(len(e["steps"]) for e in events)
    run.cases += len(progs)
    for k, step in run.accept("TraceMachine", events, post="", inv="Composed"):
        i, crash, who = meta[k]
        e, s = events[k], int(step) - 1
        run.violation(f"program {i} instruction {s + 1}: {word(e['steps'][s])} -> {crash or e['dump'][s]} (config {','.join(who)})",
                      {"program": lines[i].strip()[:20000], "configs": who, "history": [word(c) for c in e["steps"][:s + 1]][-40:]})
    for e in events[:4]:
        run.samples.append("; ".join(word(c) for c in e["steps"][:8]))
