"""Writes /verif/MANIFEST.json from the list of checks."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
src = open(V + "/tools/check.py").read()
done = set(re.findall(r'^    "(K\d\d)":', src, re.M))
EXACT = ("TLA+ catalogue of operations over a Clifford algebra defined from its axioms; TLC generates operands (every "
         "combination of basis components plus random, sparse, scaled ones) and validates the trace recorded from the real code")
EXN = ("Exact comparison of every component on integer operands scaled by powers of two. The operations are polynomials of "
       "bounded degree, so agreement on the basis combinations fixes all coefficients unless the code branches on values, "
       "which the random operands sample. Trusts TLC, the compilers and the float conversion in tools/exact.py; assumes no overflow or underflow.")
APPROX = ("TLA+ relational specification in fixed point (inverse, root, power-series exponential ...); TLC generates operands "
          "and validates the trace recorded from the real code")
APN = ("Each recorded result must satisfy the defining relation within a stated single-precision tolerance, for generated operands "
       "including degenerate and scaled ones. Sampling, not proof; trusts TLC and the fixed-point module Fix.tla.")
T = {k: (EXACT, EXN) for k in "K01 K02 K03 K04 K05 K06 K07 K08 K09 K10 K13 K19 K21 K26 K27".split()}
T.update({k: (APPROX, APN) for k in "K14 K15 K16 K17 K18 K20 K22".split()})
STORE = ("TLA+ specification of comparison, buffers and constraining; TLC generates operands differing in chosen components by less "
         "than, exactly or more than epsilon and every buffer offset, and validates the recorded observations")
T.update({k: (STORE, "Every component of every comparable type, every offset of a 12-float buffer ending at an unmapped page, plus random operands. "
              "Trusts TLC and the compilers.") for k in ("K23", "K24")})
T["K11"] = ("TLA+ state machine of an entity array with in-place and disjoint applications; TLC generates programs and follows the array recorded "
            "after every step; a register-level model (BatchSteps.tla) shows which read/write orders are safe in place",
            "Array sizes 0 to 240, whole, partial, empty, in place and disjoint, arrays bounded by an unmapped page. Trusts TLC and the compilers.")
T["K12"] = ("TLA+ register machine whose instructions are the whole operation catalogue; TLC generates programs, follows every register "
            "change recorded from the real code, and checks on each history that composed motions act as their factors; a second one (Walk.tla) follows long histories of small motions in fixed point "
            "and compares them with the closed form exp(n log g)",
            "Programs of 60 to 200 instructions on persistent objects, exact comparison of the whole register file after each; walks of 120 to 240 small steps, "
            "each to 1e-5, the closed form to 1e-4. Trusts TLC and the compilers.")
T["K25"] = ("TLA+ agreement relation over the results of the same generated calls in ten builds (two compilers, C++11/17/20, SSE3/SSE4.1, native, "
            "translated and emulated intrinsics, sanitizers), judged by TLC on the recorded trace",
            "Exact agreement for products, comparison and storage, 2^-15 relative for operations through reciprocals and trigonometry. x86 only; "
            "Euler angles read back are judged in K20 instead, since they are not unique at the poles.")
T["K28"] = ("TLA+ Clifford algebra of any signature from generators (bit-level sign counting) and multivectors with polynomial coefficients as sets; "
            "TLC judges recorded multiplication tables and follows recorded register programs, checking antiautomorphism laws on every state",
            "All signatures of up to 4 (thorough 6) dimensions exhaustively, sampled blades up to 30 dimensions, programs of 60 to 120 instructions "
            "over 17 signatures with coefficients exact in single precision. Trusts TLC and the compilers.")
T["K29"] = ("TLA+ polynomial ring whose elements are canonical by construction; TLC generates register programs and follows every register "
            "change, order, hash, comparison and printed form recorded from the real code, checking ring laws on every state",
            "Programs of 80 to 200 instructions, coefficients exact in single precision. Trusts TLC and the compilers.")
T["K30"] = ("TLA+ specification of lexing and meaning by splitting at the loosest operator; TLC renders random syntax trees (checking that text and tree "
            "mean the same) and judges the value the real parser returned for each text",
            "Trees of depth up to 4, several algebras, all operators, whitespace and parentheses at random. Coefficients beyond exact range are compared as accepted only.")
T["K31"] = ("TLA+ specification decides which byte sequences are well-formed; damaged expressions, token soup, noise and extremes are generated by TLC, "
            "and the outcome of the real parser, run with and without assertions and under address and undefined-behaviour sanitizers, is judged by TLC",
            "About a thousand (thorough twenty thousand) texts, plus texts too long for the model that must only be answered or refused. Reads that no sanitizer sees are not observed.")
T["K32"] = ("TLA+ state machine of a shell session with one action per kind of line; sessions generated by TLC are run in the real shell and the recorded "
            "output, error and merged streams are followed by the machine",
            "Sessions of up to 15 lines of all kinds, with and without a final line break. Error texts are not specified, only that there is one line.")
T["K33"] = ("TLA+ model of calls from several threads with working storage, kept results and shared operands (TLC shows that the property holds for storage owned "
            "by the call and refutes it for shared storage, kept results and written operands); the observations of each generated call, made in different orders in separate "
            "runs and from several threads at once on shared operands, are judged by TLC, with a race detector's reports as observations",
            "Every operation of the catalogue, the array forms, the C interface, the shader functions and the symbolic library, with random operands. Schedules are those the "
            "machine happened to make, helped by ThreadSanitizer, which finds unordered accesses whatever the timing. Trusts TLC, the compilers and ThreadSanitizer.")
T.update(json.load(open(V + "/tools/techniques.json")) if os.path.exists(V + "/tools/techniques.json") else {})
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in done:
        t, n = T[i]
        checks.append({"property": i, "quick_cmd": f"bash check.sh {i}",
                       "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {i}",
                       "technique": t, "level": "model_checking", "level_note": n})
    else:
        na.append({"property": i, "reason": NA.get(i, "the specification of this part is not written yet")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
