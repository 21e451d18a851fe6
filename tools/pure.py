"""Every call repeated, in several orders and from several threads at once: what it
returns is a function of its operands, and they stay as they were."""
import hashlib
from vf import *
import exact, approx, sym

GROUPS = ["INV", "NORM", "SDIV", "SQRT", "EXP", "LOG", "CTOR", "EULER", "METRIC"]
DEFS = ["-DKD_OPERANDS", "-DKD_NOMAIN"] + ["-DG_" + g for g in GROUPS] + \
       ["-I", REPO + "/glsl", "-I", REPO + "/test", "-I", REPO + "/c_src", "-fno-strict-aliasing"]
SRC = ["pure.cpp", "capi.cpp", "glsl.cpp", "capi_calls.c", REPO + "/c_src/klein_c.cpp"]
CONFIGS["g17-tsan"] = ("g++", ["-std=c++17", "-O1", "-g", "-msse4.1", "-DKLEIN_SSE_4_1", "-fsanitize=thread"] + SIMDE)
sym.SYMCONF["sym-g-tsan"] = ["g++", "-std=c++17", "-O1", "-g", "-msse4.2", "-w", "-fsanitize=thread"]
short = lambda s: s if len(s) <= 80 else hashlib.sha256(s.encode()).hexdigest()


def model(run):
    """the model's own property, and that it refutes every kind of impurity"""
    for kind in ("local", "shared", "lazy", "owned"):
        out = run.tlc("Pure", {"Kind": kind, "Threads": 3 if run.thorough else 2, "Values": 3, "Calls": 5 if run.thorough else 4},
                extra_cfg="INVARIANT Agreement", tag="pure-" + kind, workers=2, ok_codes=(0, 12))
        if (out.rc == 0) != (kind == "local"):
            raise ToolError(f"the model's verdict on {kind} storage changed (rc {out.rc})")
    run.notes["kinds_of_impurity_refuted_in_the_model"] = 3


def cases_of(run):
    t = run.thorough
    with cf.ThreadPoolExecutor(2) as ex:
        fe = ex.submit(exact.gen, run, "pure", 40 if t else 6, run.seed * 733)
        fa = ex.submit(approx.gen, run, "any", 40 if t else 6, run.seed * 733)
        rows = [(c["op"], exact.case_line(0, c, k % 3 == 1)) for k, c in enumerate(fe.result())]
        rows += [(c["op"], approx.case_line(0, c)) for c in fa.result()]
    arr = [("arr_" + op, ln.replace(op, "arr_" + op)) for op, ln in rows
           if re.fullmatch("sw_(rotor|motor)_(plane|line|point|dir)", op)]
    rows = sorted(rows + arr, key=lambda r: r[0])     # calls of one operation are made at the same time
    return [op for op, _ in rows], [f"{i} {ln.split(' ', 1)[1]}" for i, (_, ln) in enumerate(rows)]


def observe(binary, lines, args, timeout=800):
    """separate runs of the program for the different orders: {id: [observations]}, and what went wrong (or '')"""
    env = dict(os.environ, TSAN_OPTIONS="halt_on_error=0:report_signal_unsafe=0:exitcode=66", **{k: v for k, v in sym.ENV.items() if k != "x"})
    out, wrong, dead = {}, "", False
    for phases in ("1", "2", "34"):
        o, w, d = once(binary, lines, [*map(str, args), phases], env, timeout)
        for i, seen in o.items():
            out.setdefault(i, []).extend(seen)
        wrong, dead = wrong or w, dead or d
    return out, wrong, dead


def once(binary, lines, args, env, timeout):
    p = subprocess.run([binary, *args], input="".join(lines), capture_output=True, text=True, errors="replace", env=env, timeout=timeout)
    if p.returncode == 3:
        raise ToolError("driver: " + p.stderr[-500:])
    out = {}
    rows = p.stdout.split("\n")
    for r in rows:
        f = r.split(" ", 3)
        if len(f) == 4 and f[0].isdigit() and f[1].isdigit():
            out.setdefault(int(f[0]), []).append((int(f[1]), int(f[2]), f[3]))
    wrong = ""
    if "WARNING: ThreadSanitizer" in p.stderr:
        wrong = "data race: " + " ".join(p.stderr[p.stderr.index("WARNING: ThreadSanitizer"):][:1500].split())
    elif p.returncode or "END" not in rows[-2:]:
        wrong = f"ended early (exit {p.returncode}) " + " ".join(p.stderr[-600:].split()) + " " + " ".join(rows[-2:])[-200:]
    return out, wrong, "FATAL: ThreadSanitizer" in p.stderr


def judge(run, what, ops, lines, bins, split, rounds):
    """record and validate; rounds: (threads, rounds) per configuration"""
    stride = 7 + 2 * (run.seed % 50)
    races = {}
    with cf.ThreadPoolExecutor(2) as ex:
        got = dict(zip(bins, ex.map(lambda c: observe(bins[c], lines, (*rounds(c), stride)), bins)))
    seen, meta, events = {}, [], []
    for c, (out, wrong, dead) in got.items():
        if dead:       # the race detector cannot run here: say so, judge the rest
            run.notes.setdefault("not_run", []).append(c)
            continue
        if wrong:
            events.append({"i": len(events), "op": "all", "ok": 1, "obs": []})
            meta.append((what + " calls from several threads", wrong, [c], ""))
            races[c] = wrong
            if not wrong.startswith("data race"):
                continue
        for i, op in enumerate(ops):
            os_ = []
            for phase, thread, rest in out.get(i, []):
                res, before, after = split(op, rest)
                os_.append((phase, short(res), short(before), short(after)))
            seen.setdefault((i, tuple(sorted(set(os_)))), []).append((c, out.get(i, [])))
    for (i, os_), who in sorted(seen.items(), key=lambda t: t[0][0]):
        k = len(events)
        events.append({"i": k, "op": ops[i], "ok": 0, "obs": [{"case": k, "phase": o[0], "res": o[1], "before": o[2], "after": o[3]} for o in os_]})
        meta.append((ops[i], "; ".join(f"phase {p} thread {t}: {r[:160]}" for p, t, r in who[0][1][:8]), [w[0] for w in who], lines[i].strip()))
    for k, op in run.accept("TracePure", events, tag=what, inv="", consts={"Kind": "local", "Threads": 1, "Values": 1, "Calls": 0}, init="TInit", nxt="TNext"):
        name, text, who, line = meta[k]
        run.violation(f"{what}: {name} is not a function of its operands alone: {text[:700]} (config {','.join(who)})",
                      {"line": line[:4000], "observed": text[:4000], "configs": who})
    run.cases += len(lines)
    run.notes["calls_" + what] = len(lines)
    run.notes["observations_" + what] = sum(len(e["obs"]) for e in events)
    run.samples += [lines[k].strip()[:200] for k in range(0, len(lines), max(1, len(lines) // 2))]


def numeric(run):
    confs = ["g17-sse41-O2", "g11-sse3-O2", "g17-tsan"] + (["g17-sse3-O0", "c17-sse3-O2", "c11-sse41-O3", "g17-native41-O2", "c17-san"] if run.thorough else [])
    api = run.path("glsl_api.o")      # the stand-in for the shading language needs C++14
    p = subprocess.run(["g++", "-std=c++17", "-O2", "-w", "-c", "-o", api, *DEFS[-7:], os.path.join(DRV, "glsl_api.cpp")], capture_output=True, text=True)
    if p.returncode:
        raise ToolError(f"shader build failed: {p.stderr[:1500]}")
    with cf.ThreadPoolExecutor(2) as ex:
        fb = ex.submit(run.build, SRC, confs, DEFS, [api, "-pthread"], "pure")
        ops, lines = cases_of(run)
        bins = fb.result()
    slow = lambda c: "san" in c
    r = 6 if run.thorough else 1
    judge(run, "numeric", ops, lines, bins, lambda op, s: s.split(" "),
          lambda c: (4, 8 * r) if slow(c) else (8, 300 * r))


def symbolic(run):
    confs = ["sym-g-O2-nd", "sym-g-tsan"] + (["sym-g-O0", "sym-c-O2", "sym-c-san"] if run.thorough else [])
    with cf.ThreadPoolExecutor(8) as ex:
        fb = ex.submit(sym.build_sym, run, os.path.join(DRV, "sym.cpp"), confs, "sym")
        n = 800 if run.thorough else 96
        fx = ex.submit(sym.gen, run, "GenLang", {"Mode": "expr", "D": 16}, n, 4)
        fj = ex.submit(sym.gen, run, "GenLang", {"Mode": "junk", "D": 16}, n // 3, 1)
        fm = ex.submit(sym.gen, run, "GenSym", {"Length": 40, "Mode": "mv", "D": 16}, n // 8, 2)
        fp = ex.submit(sym.gen, run, "GenSym", {"Length": 40, "Mode": "poly", "D": 16}, n // 8, 2)
        good, junk, progs, bins = fx.result(), fj.result(), fm.result() + fp.result(), fb.result()
    ops, lines = [], []

    def add(op, sig, rest):
        ops.append(op)
        lines.append(f"{len(lines)} {op} {sig[0]} {sig[1]} {sig[2]} {rest}\n")
    for k, r in enumerate(good):
        add("L", r["sig"], sym.hexb(r["text"]))
    for r in junk:
        add("L", r["sig"], sym.hexb(r["text"]))
    for x, y in zip(good, good[1:] + good[:1]):      # products of what two texts mean, read by all threads
        if x["sig"] == y["sig"] or sum(x["sig"]) <= sum(y["sig"]) and 38 not in x["text"]:   # the meet is 3D only
            add("B", y["sig"], sym.hexb(x["text"]) + " " + sym.hexb(y["text"]))
    for p in progs:
        add("P", p["sig"], " ".join(sym.word(c) for c in p["steps"]))
    for sg in ((3, 0, 1), (2, 1, 1), (1, 3, 0), (4, 1, 0)):
        for a in range(2 ** sum(sg)):
            add("T", sg, a)

    # the same blades and the same texts in algebras of the same dimension, one after the other
    for r in sym.gen(run, "GenBlades", {}, 40 * (8 if run.thorough else 1), parts=1):
        p, q, z = r["sig"]
        for sg in ((p, q, z), (q, p, z), (z, q, p), (p + q + z, 0, 0)):
            if p + q + z < 20:
                add("S", sg, f"{r['a']} {r['b']}")
    for r in good[::3]:
        p, q, z = r["sig"]
        if 38 not in r["text"]:
            for sg in ((p, q, z), (q, p, z), (z, p, q)):
                add("L", sg, sym.hexb(r["text"]))

    def split(op, s):
        if op != "B" or not s.startswith("["):
            return s, "-", "-"
        v = json.loads(s)
        return json.dumps(v[4:-4]), json.dumps(v[:4]), json.dumps(v[-4:])
    r = 5 if run.thorough else 1
    judge(run, "symbolic", ops, lines, bins, split, lambda c: (4, 2 * r) if "san" in c else (8, 12 * r))


def check(run):
    with cf.ThreadPoolExecutor(3) as ex:
        for j in [ex.submit(f, run) for f in (model, numeric, symbolic)]:
            j.result()
