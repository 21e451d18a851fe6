"""Shared machinery of the checks: running TLC, building and running the drivers,
turning model cases into calls and recorded results into trace events, verdicts."""
import concurrent.futures as cf
import json, math, os, re, shutil, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("KLEIN_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
DRV = os.path.join(VERIF, "drv")
EVID = os.path.join(VERIF, "evidence")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4


class ToolError(Exception):
    pass


# ---------------------------------------------------------------- build configurations
INC = ["-I", f"{REPO}/public", "-w"]
SIMDE = ["-I", "/usr/include/simde", "-DKLEIN_USE_SIMDE"]
CONFIGS = {
    # name: (compiler, flags)
    "g17-sse3-O0": ("g++", ["-std=c++17", "-O0", "-msse3", "-DKLEIN_VALIDATE"] + SIMDE),
    "g17-sse41-O2": ("g++", ["-std=c++17", "-O2", "-msse4.1", "-DKLEIN_SSE_4_1"] + SIMDE),
    "g11-sse3-O2": ("g++", ["-std=c++11", "-O2", "-msse3"] + SIMDE),
    "g11-sse41-O1": ("g++", ["-std=c++11", "-O1", "-msse4.1", "-DKLEIN_SSE_4_1"] + SIMDE),
    "c17-sse3-O2": ("clang++", ["-std=c++17", "-O2", "-msse3"] + SIMDE),
    "c11-sse41-O3": ("clang++", ["-std=c++11", "-O3", "-msse4.1", "-DKLEIN_SSE_4_1"] + SIMDE),
    "g17-native3-O3": ("g++", ["-std=c++17", "-O3", "-msse3"]),
    "g17-native41-O2": ("g++", ["-std=c++17", "-O2", "-msse4.1", "-DKLEIN_SSE_4_1"]),
    "g20-emul-O2": ("g++", ["-std=c++20", "-O2", "-DSIMDE_NO_NATIVE"] + SIMDE),
    "c17-san": ("clang++", ["-std=c++17", "-O1", "-g", "-msse3", "-DKLEIN_VALIDATE",
                            "-fsanitize=address,undefined", "-fno-sanitize-recover=all"] + SIMDE),
}
QUICK = ["g17-sse3-O0", "g17-sse41-O2", "g11-sse3-O2", "g11-sse41-O1"]
FULL = list(CONFIGS)


class Out(str):
    """what TLC printed, and its exit code .rc"""


class Run:
    """One check run: scratch directory, counters, verdict."""

    def __init__(self, pid, tier=None):
        self.pid = pid
        self.tier = tier or TIER
        self.seed = SEED
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix=f"vf-{pid}-")
        self.states = 0
        self.transitions = 0
        self.events = 0
        self.traces = 0
        self.cases = 0
        self.samples = []
        self.notes = {}
        self.violations = []      # dicts
        self.known = []

    def path(self, *p):
        return os.path.join(self.dir, *p)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    # ------------------------------------------------------------ TLC
    def tlc(self, module, consts=None, env=None, extra_cfg="", workers=None, timeout=600,
            init="Init", nxt="Next", mode=(), heap="6g", deadlock=False, tag=None, ok_codes=(0,)):
        """Run TLC on SPEC/module; returns stdout."""
        tag = tag or module
        w = tempfile.mkdtemp(prefix=f"tlc-{tag}-", dir=self.dir)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), w)
        lines = [f"INIT {init}", f"NEXT {nxt}"]
        if consts:
            lines.append("CONSTANTS")
            for k, v in consts.items():
                lines.append(f"  {k} = {tla(v)}")
        lines.append(f"CHECK_DEADLOCK {'TRUE' if deadlock else 'FALSE'}")
        lines.append(extra_cfg)
        open(os.path.join(w, module + ".cfg"), "w").write("\n".join(lines) + "\n")
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        cmd = ["java", f"-Djava.io.tmpdir={w}", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", "-cp", JAR, "tlc2.TLC",
               "-config", module + ".cfg", "-workers", str(workers or NCPU),
               "-metadir", os.path.join(w, "meta"), "-noGenerateSpecTE",
               *mode, module + ".tla"]
        for attempt in (1, 2):
            try:
                p = subprocess.run(cmd, cwd=w, env=e, capture_output=True, text=True, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise ToolError(f"TLC timed out on {module} after {timeout}s")
            out = p.stdout
            if p.returncode in ok_codes:
                break
        else:
            raise ToolError(f"TLC failed on {module} (rc {p.returncode}):\n{out[max(0, min((out+e).find(e) for e in ('Error:', '*** Errors'))):][:3000]}\n{p.stderr[-2000:]}")
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            self.transitions += int(m.group(1))
            self.states += int(m.group(2))
        else:
            m = re.search(r"The number of states generated: (\d+)", out)
            if m:
                self.transitions += int(m.group(1))
                self.states += int(m.group(1))
        shutil.rmtree(os.path.join(w, "meta"), ignore_errors=True)
        res = Out(out)
        res.rc = p.returncode
        return res

    def laws(self, family, module="Laws", consts=None):
        """the specification's own laws, model checked"""
        self.tlc(module, {"Family": family, **(consts or {})}, extra_cfg="INVARIANT Holds", tag="laws-" + family, workers=2)
        self.notes.setdefault("laws", []).append(family)

    def accept(self, module, events, tag="", timeout=850, consts=None, post="Done", inv="", **kw):
        """Validate a recorded trace (list of events with field 'i') against a trace
        specification.  Returns [(i, what the specification says)] of rejected events.
        A recorded value so far off that evaluating the specification on it leaves
        TLC's integers is a rejection too (correct values never do: the generators
        bound them), and the rest of the trace is still judged."""
        bad = []
        events = list(events)
        for attempt in range(6):
            tf = self.path(f"trace-{module}-{tag}-{attempt}.ndjson")
            write_ndjson(tf, events)
            out = self.tlc(module, consts, env={"TRACE": tf}, extra_cfg=(f"POSTCONDITION {post}\n" if post else "") + (f"INVARIANT {inv}" if inv else ""),
                           tag=f"{module}{tag}{attempt}", timeout=timeout, ok_codes=(0, 75), **kw)
            if out.rc == 0:
                bad += rejects(out)
                break
            # (the message names the overflow; the last state of the behaviour the event)
            ls = re.findall(r"^/\\ l = (\d+)", out, re.M)
            if "verflow" not in out or not ls or not post:
                raise ToolError(f"TLC failed on {module}:\n{out[max(0, out.find("Error:")):][:3000]}")
            l = int(ls[-1])
            bad.append((events[l - 1]["i"], "a value out of the model's number range"))
            del events[l - 1]
        self.events += len(events)
        self.traces += len(events)
        return bad

    # ------------------------------------------------------------ building
    def build(self, sources, configs, defines=(), libs=(), name="drv"):
        """Compile sources under every configuration; returns {config: binary}."""
        srcs = [s if os.path.isabs(s) else os.path.join(DRV, s) for s in sources]

        def one(c):
            cc, flags = CONFIGS[c]
            out = self.path(f"{name}-{c}")
            ins = []
            for f in srcs:
                if f.endswith(".c"):      # C sources with the matching C compiler
                    o = self.path(f"{name}-{c}-{os.path.basename(f)}.o")
                    ccc = {"g++": "gcc", "clang++": "clang"}[cc]
                    p = subprocess.run([ccc, "-std=c11", *[x for x in flags if not x.startswith("-std")], *INC,
                                        *defines, "-c", "-o", o, f], capture_output=True, text=True)
                    if p.returncode != 0:
                        raise ToolError(f"C build failed ({c}): {p.stderr[:1500]}")
                    f = o
                ins.append(f)
            cmd = [cc, *flags, *INC, "-I", DRV, *defines, "-o", out, *ins, *libs]
            p = subprocess.run(cmd, capture_output=True, text=True)
            if p.returncode != 0:
                raise ToolError(f"driver build failed ({c}): {' '.join(cmd)}\n{p.stderr[:1500]}")
            return c, out
        with cf.ThreadPoolExecutor(NCPU) as ex:
            return dict(ex.map(one, configs))

    def drive(self, binary, lines, timeout=300):
        """Feed case lines; returns {id: list of uint32 | 'CRASH ..'}; survives crashes."""
        res = {}
        todo = list(lines)
        guard = 0
        while todo:
            guard += 1
            env = dict(os.environ)
            env["ASAN_OPTIONS"] = "abort_on_error=0:detect_leaks=0:handle_segv=0:handle_sigbus=0:handle_abort=0"
            p = subprocess.run([binary], input="".join(todo), capture_output=True, text=True,
                               timeout=timeout, env=env, errors="replace")
            n = 0
            for ln in p.stdout.splitlines():
                f = ln.split()
                if len(f) >= 2 and f[1] == "CRASH":
                    res[int(f[0])] = "CRASH " + " ".join(f[2:])
                else:
                    res[int(f[0])] = [int(x, 16) for x in f[1:]]
                n += 1
            if p.returncode == 0 and n == len(todo):
                break
            if p.returncode == 3:
                raise ToolError("driver: " + p.stderr[-500:])
            bad = todo[n]
            res[int(bad.split()[0])] = "CRASH process " + (p.stderr[-600:].replace("\n", " | "))
            todo = todo[n + 1:]
            if guard > 25:        # enough evidence, the rest counts as not run
                break
        return res

    # ------------------------------------------------------------ verdicts
    def violation(self, what, detail):
        self.violations.append({"what": what, "detail": detail})

    def finish(self, level="model_checking", extra=None):
        known = load_known(self.pid)
        new, kn = [], {}
        for v in self.violations:
            k = next((k for k in known if k["match"] in v["what"]), None)
            if k:
                kn.setdefault(k["match"], k)
            else:
                new.append(v)
        for k in kn.values():
            print(f"KNOWN-FINDING: property={self.pid} {k['desc']}")
        self.evidence(level, extra, len(new))
        rc = 0
        if new:
            d = os.path.join(EVID, "replay")
            os.makedirs(d, exist_ok=True)
            rp = os.path.join(d, f"{self.pid}.json")
            json.dump({"property": self.pid, "seed": self.seed, "tier": self.tier,
                       "rerun": f"VERIF_SEED={self.seed} VERIF_TIER={self.tier} bash /verif/check.sh {self.pid}",
                       "violations": new[:50], "total": len(new)}, open(rp, "w"), indent=1)
            for v in new[:8]:
                print("  rejected:", v["what"])
            if len(new) > 8:
                print(f"  ... and {len(new) - 8} more, see {rp}")
            print(f"VIOLATION property={self.pid} replay={rp}")
            rc = 1
        else:
            print(f"OK property={self.pid} tier={self.tier} seed={self.seed} events={self.events} "
                  f"states={self.states} wall={time.time() - self.t0:.1f}s")
        self.close()
        return rc

    def evidence(self, level, extra, nviol):
        os.makedirs(EVID, exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "samples": self.samples[:6] or ["(none)"]}
        cov.update(self.notes)
        cov["events"] = self.events
        if extra:
            cov.update(extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level,
              "wall_s": round(time.time() - self.t0, 2), "violations": nviol, "coverage": cov}
        json.dump(ev, open(os.path.join(EVID, f"{self.pid}.json"), "w"), indent=1)


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"' + v + '"'
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    if isinstance(v, set):
        return "{" + ", ".join(tla(x) for x in sorted(v)) + "}"
    raise ValueError(v)


def load_known(pid):
    """known-findings.txt: 'finding: property=<id> match=<text> :: <description>'"""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"finding: property=(\w+) match=(.*?) :: (.*)$", ln.strip())
            if m and m.group(1) == pid:
                out.append({"match": m.group(2), "desc": m.group(3)})
    return out


# ---------------------------------------------------------------- floats
def f2u(x):
    return struct.unpack("<I", struct.pack("<f", x))[0]


def u2f(u):
    return struct.unpack("<f", struct.pack("<I", u))[0]


def hexf(x):
    return "%08x" % f2u(x)


def read_ndjson(p):
    with open(p) as f:
        return [json.loads(l) for l in f if l.strip()]


def write_ndjson(p, rows):
    with open(p, "w") as f:
        for r in rows:
            f.write(json.dumps(r) + "\n")


NONFIN = 2000000001   # marker integers that no specification value takes
NOTINT = 2000000002
CRASHV = 2000000003


def exact_int(u, e):
    """float bits u, divided by 2^e, as an exact small integer, or a marker"""
    x = u2f(u)
    if math.isnan(x) or math.isinf(x):
        return NONFIN
    x = math.ldexp(x, -e)
    if x != math.floor(x) or abs(x) > 2 ** 30:
        return NOTINT
    return int(x)


def fixed(u, e, q, lim=2 ** 30):
    """float bits u, divided by 2^e, in fixed point 2^-q, or a marker"""
    x = u2f(u)
    if math.isnan(x) or math.isinf(x):
        return NONFIN
    x = math.ldexp(x, q - e)
    if abs(x) > lim:
        return NOTINT
    return int(round(x))


REJ = re.compile(r'<<"REJECT", (\d+), (.*?)>>\s*$')


def rejects(out):
    """REJECT lines printed by a trace specification -> list of (id, text).
    TLC may wrap long values over several lines."""
    res = []
    cur = None
    for ln in out.splitlines():
        if ln.startswith('<<"REJECT"') or ln.startswith('<< "REJECT"'):
            cur = ln
        elif cur is not None:
            cur += " " + ln.strip()
        if cur is not None and cur.count("<<") == cur.count(">>") and cur.count("[") == cur.count("]"):
            m = re.match(r'<<\s*"REJECT",\s*(\d+),\s*(.*)>>$', cur)
            if m:
                res.append((int(m.group(1)), m.group(2).strip()))
            cur = None
    return res
