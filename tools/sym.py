"""The symbolic library and shell: tables of blade products, programs over registers,
the expression language, shell sessions; all judged by trace specifications."""
import glob
from vf import *

SYMCONF = {
    "sym-g-O0": ["g++", "-std=c++17", "-O0", "-msse4.2", "-w"],
    "sym-g-O2-nd": ["g++", "-std=c++17", "-O2", "-DNDEBUG", "-msse4.2", "-w"],
    "sym-c-san": ["clang++", "-std=c++17", "-O1", "-g", "-msse4.2", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
    "sym-c-O2": ["clang++", "-std=c++17", "-O2", "-msse4.2", "-w"],
    "sym-g-O3-20": ["g++", "-std=c++20", "-O3", "-msse4.2", "-w"],
}
QS = ["sym-g-O0", "sym-g-O2-nd", "sym-c-san"]
ENV = dict(ASAN_OPTIONS="detect_leaks=0:handle_segv=0:handle_abort=0:handle_sigbus=0:handle_sigfpe=0")


def lib_sources():
    return sorted(f for f in glob.glob(REPO + "/sym/*.cpp") if os.path.basename(f) not in ("main.cpp", "test.cpp"))


def build_sym(run, main, confs, tag):
    """one object per source, in parallel, then link"""
    jobs = [(c, s) for c in confs for s in [main] + lib_sources()]

    def comp(j):
        c, s = j
        o = run.path(f"{tag}-{c}-{os.path.basename(s)}.o")
        p = subprocess.run([*SYMCONF[c], "-I", REPO + "/sym", "-c", "-o", o, s], capture_output=True, text=True)
        if p.returncode:
            raise ToolError(f"sym build failed ({c}): {p.stderr[:1500]}")
        return o
    with cf.ThreadPoolExecutor(NCPU) as ex:
        objs = list(ex.map(comp, jobs))
    out = {}
    for c in confs:
        out[c] = run.path(f"{tag}-{c}")
        mine = [o for (cc, _), o in zip(jobs, objs) if cc == c]
        p = subprocess.run([SYMCONF[c][0], *[f for f in SYMCONF[c] if f.startswith("-fsan")], "-o", out[c], *mine], capture_output=True, text=True)
        if p.returncode:
            raise ToolError(f"sym link failed ({c}): {p.stderr[:1500]}")
    return out


def feed(binary, lines, timeout=400, env=()):
    """{id: JSON text or 'CRASH ..'}; a crash costs only its own line"""
    res, todo = {}, list(lines)
    for _ in range(25):
        p = subprocess.run([binary], input="".join(todo), capture_output=True, text=True, errors="replace",
                           env=dict(os.environ, **ENV, **dict(env)), timeout=timeout)
        if p.returncode == 3:
            raise ToolError("driver: " + p.stderr[-300:])
        done = 0
        for ln in p.stdout.splitlines():
            i, _, rest = ln.partition(" ")
            res[int(i)] = rest
            done += 1
        if done >= len(todo):
            break
        if p.returncode == 0 and done == len(todo):
            break
        if not (p.stdout.splitlines()[-1:] and "CRASH" in p.stdout.splitlines()[-1]):
            res[int(todo[done].split()[0])] = "CRASH process " + p.stderr[-400:].replace("\n", " | ")
            done += 1
        todo = todo[done:]
        if not todo:
            break
    return res


def on_all(run, bins, lines, env=()):
    """{id: {result: [configurations]}}"""
    with cf.ThreadPoolExecutor(NCPU) as ex:
        rs = dict(zip(bins, ex.map(lambda b: feed(b, lines, env=env), bins.values())))
    out = {}
    for ln in lines:
        i = int(ln.split()[0])
        for c in bins:
            out.setdefault(i, {}).setdefault(rs[c].get(i, "CRASH not run"), []).append(c)
    run.cases += len(lines)
    return out


def gen(run, module, consts, n, parts=8, seed=0):
    outs = [run.path(f"{module}-{consts.get('Mode', '')}-{k}-{seed}.ndjson") for k in range(parts)]
    with cf.ThreadPoolExecutor(parts) as ex:
        fs = [ex.submit(run.tlc, module, dict(consts, Seed=run.seed * 131 + 17 * k + 7919 * seed, N=-(-n // parts)), {"OUT": outs[k]},
                        workers=1, heap="2g", tag=f"{module}{k}{seed}", timeout=800) for k in range(parts)]
        [f.result() for f in fs]
    return [p for o in outs for p in read_ndjson(o)]


hexb = lambda bs: "".join("%02x" % b for b in bs) or "-"


# ---------------------------------------------------------------- K28: blade products
def tables(run, confs, bins):
    top = 6 if run.thorough else 4
    lines, meta = [], []
    sigs = [(p, q, n - p - q) for n in range(0, top + 1) for p in range(n + 1) for q in range(n + 1 - p)]
    for s in sigs:
        for a in range(2 ** sum(s)):
            lines.append(f"{len(lines)} T {s[0]} {s[1]} {s[2]} {a}\n")
            meta.append((s, a, 0, 2 ** sum(s)))
    rows = gen(run, "GenBlades", {}, 4000 if run.thorough else 800, parts=4)
    for r in rows:
        lines.append(f"{len(lines)} S {r['sig'][0]} {r['sig'][1]} {r['sig'][2]} {r['a']} {r['b']}\n")
        meta.append((tuple(r["sig"]), r["a"], r["b"], 1))
    events, em = [], []
    for i, seen in on_all(run, bins, lines).items():
        s, a, b0, n = meta[i]
        for r, who in seen.items():
            crash = "CRASH" in r
            v = dict(mul=[], ext=[], dot=[], reg=[], rev=0, dual=0, pss=0, eqs=[]) if crash else json.loads(r)
            events.append(dict(i=len(events), sig=list(s), a=a, b=b0, n=n, ok=0 if crash else 1, **v))
            em.append((i, r, who))
    for k, what in run.accept("TraceBlades", events, post="", timeout=850, consts={"D": 16}):
        i, r, who = em[k]
        s, a, b0, n = meta[i]
        run.violation(f"signature {s} blade {a} at {what}: {r[:200]} (config {','.join(who)})", {"line": lines[i].strip(), "result": r[:4000], "configs": who})
    run.notes["signatures_exhausted"] = len(sigs)
    run.notes["blade_pairs"] = sum(m[3] for m in meta)
    run.samples += [f"signature {m[0]} blade {m[1]} against {m[3]} blades from {m[2]}" for m in meta[-2:]]


def word(c):
    return f"{c['op']} {c['d']} {c['s']} {c['t']} {hexb(c['v'])} {c['c']}"


def programs(run, mode, n, length, bins, den=16):
    progs = gen(run, "GenSym", {"Length": length, "Mode": mode, "D": den}, n, seed=den)
    lines = [f"{i} P {p['sig'][0]} {p['sig'][1]} {p['sig'][2]} " + " ".join(word(c) for c in p["steps"]) + "\n" for i, p in enumerate(progs)]
    events, meta = [], []
    for i, seen in on_all(run, bins, lines, {"SYM_DEN": str(den)}).items():
        for r, who in seen.items():
            crash = "CRASH" in r
            res = [] if crash else json.loads(r)
            ok = not crash and len(res) == len(progs[i]["steps"])
            events.append(dict(i=len(events), sig=progs[i]["sig"], steps=progs[i]["steps"], ok=int(ok), res=res))
            meta.append((i, r, who))
    for k, step in run.accept("TraceSym", events, tag=f"{mode}{den}", post="", inv="Canonical\nINVARIANT Laws", consts={"D": den}):
        i, r, who = meta[k]
        e, s = events[k], int(step) - 1
        c = e["steps"][s]
        run.violation(f"program {i} instruction {s + 1} (coefficients in units of 1/{den}): {word(c)} -> {r[:200] if not e['ok'] else json.dumps(e['res'][s])[:300]} (config {','.join(who)})",
                      {"signature": e["sig"], "history": [word(x) for x in e["steps"][:s + 1]][-60:], "configs": who})
    run.samples += ["; ".join(word(c) for c in e["steps"][:6]) for e in events[:2]]


def products(run):
    confs = list(SYMCONF) if run.thorough else QS
    bins = build_sym(run, os.path.join(DRV, "sym.cpp"), confs, "sym")
    tables(run, confs, bins)
    programs(run, "mv", 800 if run.thorough else 48, 120 if run.thorough else 60, bins)
    programs(run, "mv", 300 if run.thorough else 24, 120 if run.thorough else 60, bins, den=8192)


def ring(run):
    confs = list(SYMCONF) if run.thorough else QS
    bins = build_sym(run, os.path.join(DRV, "sym.cpp"), confs, "sym")
    programs(run, "poly", 1500 if run.thorough else 100, 200 if run.thorough else 80, bins)
    programs(run, "poly", 700 if run.thorough else 64, 200 if run.thorough else 60, bins, den=8192)


# ---------------------------------------------------------------- K30, K31: the expression language
def texts(run, mode, n, confs, huge=(), more=()):
    bins = build_sym(run, os.path.join(DRV, "sym.cpp"), confs, "sym")
    rows = gen(run, "GenLang", {"Mode": mode, "D": 16}, n)
    for kind, k in more:
        rows += gen(run, "GenLang", {"Mode": kind, "D": 16}, k, parts=1)
    lines = [f"{i} L {r['sig'][0]} {r['sig'][1]} {r['sig'][2]} {hexb(r['text'])}\n" for i, r in enumerate(rows)]
    for t in huge:      # too long for the model: only that they are answered or refused
        lines.append(f"{len(lines)} L 3 0 1 {t.encode().hex()}\n")
        rows.append({"sig": [3, 0, 1], "text": [], "huge": 1})
    events, meta = [], []
    for i, seen in on_all(run, bins, lines).items():
        for r, who in seen.items():
            v = dict(r="crash", v=[], s=[]) if "CRASH" in r else json.loads(r)
            if rows[i].get("huge"):
                v.update(v=[], s=[])
            events.append(dict(i=len(events), huge=rows[i].get("huge", 0), sig=rows[i]["sig"], text=rows[i]["text"], **v))
            meta.append((i, r, who))
    show = lambda i: bytes.fromhex(lines[i].split()[5].replace("-", ""))
    for k, ok in run.accept("TraceLang", events, tag=mode, post="", consts={"D": 16}):
        i, r, who = meta[k]
        run.violation(f"text {show(i)[:120]!r} in signature {rows[i]['sig']} ({'well-formed' if ok == 'TRUE' else 'malformed'}): "
                      f"{r[:20] if 'CRASH' in r else events[k]['r'] + ' ' + repr(bytes(events[k]['s'])[:200])} (config {','.join(who)})",
                      {"text_hex": show(i).hex()[:4000], "signature": rows[i]["sig"], "result": r[:4000], "configs": who})
    run.notes["accepted_texts"] = sum(e["r"] == "ok" for e in events)
    run.notes["refused_texts"] = sum(e["r"] == "err" for e in events)
    run.samples += [repr(show(i)) for i in range(0, min(len(lines), 400), 80)]


def language(run):
    confs = list(SYMCONF) if run.thorough else QS
    texts(run, "expr", 20000 if run.thorough else 1000, confs, more=[("prec", 2160 if run.thorough else 432), ("chain", 400 if run.thorough else 32)])


HUGE = ["(" * 950 + "a" + ")" * 950, "(" * 5000 + "a" + ")" * 5000, "(" * 200000, ")" * 100000, "-" * 100000 + "a", "~" * 99999,
        "a" * 100000, "1" * 100000, "1." * 50000, "e" + "0" * 100000, "e" + "012301230123" * 5000, " " * 100000 + "a",
        "+".join(["a"] * 3000), "*".join(["2e1"] * 3000), "a " * 50000, "(a" * 400 + ")" * 400, "e1" * 50000, "(-" * 900 + "a" + ")" * 900]


def robust(run):
    confs = list(SYMCONF) if run.thorough else QS
    texts(run, "junk", 20000 if run.thorough else 900, confs, HUGE, more=[("byte", 7 * 256)])


# ---------------------------------------------------------------- K32: the shell
def shell(run):
    confs = list(SYMCONF) if run.thorough else QS
    bins = build_sym(run, REPO + "/sym/main.cpp", confs, "shell")
    rows = gen(run, "GenLang", {"Mode": "shell", "D": 16}, 3000 if run.thorough else 160)
    jobs, events, meta = [], [], []
    for i, r in enumerate(rows):
        data = b"\n".join(bytes(x) for x in r["lines"])
        if r["lines"] and (r["nl"] or not r["lines"][-1]):
            data += b"\n"
        jobs += [(i, c, data) for c in bins]

    def lines_of(b):
        ls = b.split(b"\n")
        return [list(x) for x in (ls[:-1] if ls[-1] == b"" else ls[:-1] + [b"<unterminated> " + ls[-1]])]

    def one(j):
        i, c, data = j
        e = dict(os.environ, **ENV)
        try:
            a = subprocess.run([bins[c]], input=data, capture_output=True, env=e, timeout=60)
            b = subprocess.run([bins[c]], input=data, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, timeout=60)
        except subprocess.TimeoutExpired:
            return (99, (), (), ())
        freeze = lambda x: tuple(tuple(y) for y in lines_of(x))
        if a.returncode or b.returncode:
            return (a.returncode or b.returncode, freeze(a.stdout), (), freeze(a.stdout))
        return (0, freeze(a.stdout), freeze(a.stderr), freeze(b.stdout))
    with cf.ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(one, jobs))
    run.cases += len(jobs)
    per = {}
    for (i, c, _), r in zip(jobs, res):
        per.setdefault(i, {}).setdefault(r, []).append(c)
    for i, seen in per.items():
        for r, who in seen.items():
            events.append(dict(i=len(events), lines=rows[i]["lines"], rc=r[0] if r[0] >= 0 else 1000 - r[0], out=r[1], err=r[2], mix=r[3]))
            meta.append((i, r, who))
    for k, at in run.accept("TraceShell", events, post="", consts={"D": 16}):
        i, r, who = meta[k]
        n = int(at)
        ln = rows[i]["lines"][n - 1] if n <= len(rows[i]["lines"]) else None
        run.violation(f"script {i} line {n}: {bytes(ln)[:100]!r}" if ln is not None else f"script {i}: end of the session"
                      + f" (exit {r[0]}, config {','.join(who)})",
                      {"script_hex": [bytes(x).hex() for x in rows[i]["lines"]], "exit": r[0], "configs": who,
                       "out": [bytes(x).decode("latin1") for x in r[1]][:60], "err": [bytes(x).decode("latin1") for x in r[2]][:60]})
    run.notes["shell_lines"] = sum(len(r["lines"]) for r in rows)
    run.samples += [" / ".join(repr(bytes(x)) for x in r["lines"][:5]) for r in rows[:4]]
