#!/usr/bin/env python3
"""check.py <property id>: exit 0 held, 1 violated (VIOLATION line), 2 tool failure."""
import sys, traceback
from vf import *
import exact, approx, store, batch, machine, agree, sym, pure

def main():
    pid = sys.argv[1]
    run = Run(pid)
    try:
        fam = [f for f, (quick, deep) in LAWS.items() if pid in quick + (deep if run.thorough else ())]
        with cf.ThreadPoolExecutor(2) as ex:
            jobs = [ex.submit(run.laws, f) for f in fam]
            jobs += [ex.submit(run.laws, f, "SymLaws", {"MaxDim": 4 if run.thorough else 3, "D": 16})
                     for f, (quick, deep) in SYMLAWS.items() if pid in quick + (deep if run.thorough else ())]
            CHECKS[pid](run)
            for j in jobs:
                j.result()
        return run.finish()
    except ToolError as e:
        print("TOOL-ERROR", e, file=sys.stderr)
        run.close()
        return 2
    except Exception:
        traceback.print_exc()
        run.close()
        return 2

EX = lambda g, q, t, *a: (lambda run: exact.exact_check(run, g, q, t, *a))
AP = lambda g, q, t, *a: (lambda run: approx.approx_check(run, g, q, t, *a))
TN = lambda g, q, t, src=("approx.cpp",), defs=(), only=None: (lambda run: approx.approx_check(run, g, q, t, src, defs, "t" + g, only))
GLSL = (("glsl.cpp", "glsl_api.cpp"), ("-I", REPO + "/glsl", "-I", REPO + "/test", "-fno-strict-aliasing"))
CAPI = (("capi.cpp", "capi_calls.c", REPO + "/c_src/klein_c.cpp"), ("-I", REPO + "/c_src"))
REAL_SSE = [c for c in CONFIGS if "emul" not in c]     # klein.h includes the native header
SHADER = [c for c in CONFIGS if "17-" in c and "native" not in c]
def seq(*fs):
    def f(run):
        for g in fs: g(run)
    return f
# laws of the specification itself (Laws.tla): checked in quick runs, and in deep runs
LAWS = {"products": (("K01", "K03"), ("K02", "K04", "K05", "K12", "K15", "K26", "K27")),
        "motions": (("K09",), ("K07", "K08", "K12", "K13", "K11", "K26", "K27")),
        "incidence": (("K10", "K21"), ("K02", "K03", "K04", "K22")),
        "exp": (("K16",), ("K14", "K17", "K18", "K19", "K20"))}
SYMLAWS = {"algebra": (("K28",), ()), "duality": (("K28",), ("K30",)), "order": (("K29",), ()), "ring": (("K29",), ())}
CHECKS = {
    "K01": seq(EX("gp", 240, 6000), AP("gppt", 100, 1500)),
    "K02": EX("ext", 240, 6000),
    "K03": EX("reg", 320, 8000),
    "K04": EX("dot", 240, 8000),
    "K05": EX("dual", 160, 4000),
    "K06": seq(EX("vec", 48, 1200), AP("sdiv", 40, 1000)),
    "K07": seq(EX("swr", 480, 12000), TN("actr", 100, 2000)),
    "K08": EX("swt", 800, 16000),
    "K09": seq(EX("swm", 1000, 16000), TN("actm", 100, 2000)),
    "K10": EX("refl", 600, 12000),
    "K11": batch.check,
    "K12": machine.check,
    "K13": seq(EX("mat", 240, 6000), TN("actx", 100, 2000)),
    "K14": AP("norm", 200, 4000),
    "K15": AP("inv", 150, 4000),
    "K16": seq(AP("exp", 300, 4000), TN("exp", 120, 2000)),
    "K17": seq(AP("log", 300, 4000), TN("log", 120, 2000)),
    "K18": seq(AP("sqrt", 200, 3000), TN("sqrt", 120, 2000)),
    "K19": seq(EX("conv", 80, 1600), AP("ctor", 200, 3000), TN("ctor", 120, 2000)),
    "K20": seq(AP("euler", 300, 4000), TN("euler", 120, 2000)),
    "K21": EX("proj", 480, 12000),
    "K22": AP("metric", 200, 4000),
    "K23": lambda run: store.check(run, "store", 2, 40),
    "K24": lambda run: store.check(run, "constrain", 20, 800),
    "K25": agree.check,
    "K26": seq(EX("glsl", 480, 12000, *GLSL, SHADER), TN("glsl", 100, 2000, *GLSL, SHADER)),
    "K27": seq(EX("capi", 160, 4000, *CAPI, REAL_SSE), AP("capi", 120, 2000, *CAPI, None, REAL_SSE), TN("capi", 80, 1500, *CAPI, REAL_SSE)),
    "K28": sym.products,
    "K29": sym.ring,
    "K30": sym.language,
    "K31": sym.robust,
    "K32": sym.shell,
    "K33": pure.check,
}
sys.exit(main())
