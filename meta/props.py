#!/usr/bin/env python3
"""Single source of the property list: writes properties.jsonl and MANIFEST.json
for every property that has a harness (harness/cNN.cpp)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, text, why, files, mech, over=("inputs",), observe=None, technique=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, text=text, why=why, files=files, mech=mech,
                  over=list(over), observe=observe, technique=technique, note=note))
POLY = "spffl/polynomials/"
S = "stateful model-based property testing (choice-sequence generator, shrinking) against a reference model, ASAN+UBSAN"
D = "property-based testing with a differential oracle, shrinking, ASAN+UBSAN"

prop("C01", "Integer arithmetic functions are exact over the whole int range",
  "Greatest common divisor (plain and extended), least common multiple, integer powers, square roots, logarithms, totients, primality, the n-th prime and integer factorization return the mathematically exact answer whenever the answer fits an int. Arguments for which there is no answer are refused with an exception rather than answered. No intermediate step overflows when the result itself fits.",
  "all int arguments for which the result is defined and fits",
  "The tests sample a few small integers; overflow, zero and sign boundaries and large primes are never reached.",
  ["spffl/intmath/int_gcd.cpp", "spffl/intmath/int_power.cpp", "spffl/intmath/int_sqrt.cpp", "spffl/intmath/int_totient.cpp", "spffl/intmath/is_prime.cpp", "spffl/factorization/int_factor.cpp"],
  [("Euclid's algorithm and its extended form", "spffl/intmath/int_gcd.cpp"), ("square-and-multiply powering", "spffl/intmath/int_power.cpp"), ("trial division over a prime table", "spffl/intmath/is_prime.cpp")], technique=D)
prop("C02", "Residues modulo m obey modular arithmetic through any history",
  "Through any sequence of arithmetic, assignment, comparison, inversion and powering steps, a residue stays fully reduced, keeps its modulus and equals the residue computed by exact modular arithmetic. Division by a non-unit and arithmetic between different moduli are refused with an exception and leave the operands unchanged. Single bits obey the same laws for modulus two.",
  "all moduli up to INT_MAX, all representatives, all operation sequences",
  "The tests use small moduli and single operations; products beyond 32 bits, composite moduli and aliasing histories are not sampled.",
  ["spffl/intmath/intmod_t.cpp", "spffl/intmath/intmod_t.h", "spffl/bits/bit_t.cpp"],
  [("reduction after each operation", "spffl/intmath/intmod_t.cpp"), ("inverse by Euler's theorem with a gcd guard", "spffl/intmath/intmod_t.cpp"), ("modulus equality check", "spffl/intmath/intmod_t.cpp")], over=("inputs", "histories"), technique=S)
prop("C03", "Rational numbers are exact and always in lowest terms",
  "Through any sequence of operations whose exact results fit, a rational number equals the exact value, has a positive denominator and is in lowest terms. Comparisons agree with the exact order. Division by zero is refused.",
  "all fractions of ints and operation sequences whose exact values fit an int numerator and denominator",
  "The tests use small fractions; values near the limits, mixed integer comparisons and aliasing are not sampled.",
  ["spffl/intmath/intrat_t.cpp", "spffl/intmath/intrat_t.h"],
  [("normalisation by the gcd", "spffl/intmath/intrat_t.cpp"), ("sign kept in the numerator", "spffl/intmath/intrat_t.cpp")], over=("inputs", "histories"), technique=S)
prop("C04", "Polynomials over the two-element field compute exactly",
  "Through any sequence of operations on polynomials over the two-element field of any degree, every value equals the exact coefficient-by-coefficient result, with no stale high coefficients. Division with remainder, gcd and extended gcd, derivative, evaluation, powers, roots, shifts and coefficient access satisfy their defining equations. Operands are never changed by an operation that does not assign to them.",
  "polynomials whose degrees cross several 64-bit word boundaries; operation sequences with aliasing",
  "The tests use degrees well below one machine word and single operations.",
  [POLY + "f2_poly_t.cpp", POLY + "f2_poly_t.h"],
  [("packed 64-bit words, trimmed after each operation", POLY + "f2_poly_t.cpp"), ("shift-and-subtract division", POLY + "f2_poly_t.cpp")], over=("inputs", "histories"), technique=S)
prop("C05", "Polynomials over prime fields compute exactly",
  "Through any sequence of operations on polynomials over a prime field, every value equals the exact result with a non-zero leading coefficient. Division with remainder, gcd and extended gcd, derivative, evaluation, powers, square and p-th roots satisfy their defining equations. Undefined operations are refused and operands stay unchanged.",
  "all prime characteristics up to INT_MAX, degrees up to 60, operation sequences with aliasing",
  "The tests use a handful of small polynomials over small primes.",
  [POLY + "fp_poly_t.cpp", POLY + "fp_poly_t.h"],
  [("schoolbook multiplication and long division", POLY + "fp_poly_t.cpp"), ("degree recomputation after each operation", POLY + "fp_poly_t.cpp")], over=("inputs", "histories"), technique=S)
prop("C06", "Polynomials over extension fields compute exactly",
  "Through any sequence of operations on polynomials with coefficients in an extension field, of characteristic two or odd, every value equals the exact result computed in that field. Division with remainder, gcd, derivative, evaluation and roots satisfy their defining equations. Undefined operations are refused.",
  "extension fields of degree up to 40 over F2 and several odd characteristics; polynomials of degree up to 20; operation sequences",
  "The tests cover a few polynomials over one or two small fields.",
  [POLY + "f2n_poly_t.cpp", POLY + "fpn_poly_t.cpp"],
  [("coefficient arithmetic through the field type", POLY + "f2n_poly_t.cpp"), ("p-th roots by raising coefficients to q/p", POLY + "fpn_poly_t.cpp")], over=("inputs", "histories"), technique=S)
prop("C07", "Polynomials over the rationals compute exactly",
  "Through any sequence of operations whose exact results fit, polynomials with rational coefficients equal the exact result in lowest terms. Division with remainder, gcd, derivative and evaluation satisfy their defining equations. Division by zero is refused.",
  "rational polynomials whose exact intermediate values fit; operation sequences",
  "The tests use a few small integer-coefficient polynomials.",
  [POLY + "q_poly_t.cpp", POLY + "q_poly_t.h"],
  [("long division with rational coefficients", POLY + "q_poly_t.cpp")], over=("inputs", "histories"), technique=S)
prop("C08", "Residues modulo a polynomial over a prime field obey quotient arithmetic",
  "Through any sequence of operations, a polynomial residue stays reduced, keeps its modulus and equals the value computed in the quotient ring; inverses and powers, negative powers included, are exact. Dividing by a zero divisor and mixing moduli are refused. The result holds whether or not the modulus is irreducible or monic.",
  "all moduli of degree up to about 20 over F2 and primes, all representatives, all int exponents, operation sequences",
  "The tests use one or two fixed irreducible moduli.",
  [POLY + "f2_polymod_t.cpp", POLY + "fp_polymod_t.cpp"],
  [("reduction after each operation", POLY + "f2_polymod_t.cpp"), ("inverse by extended Euclid", POLY + "fp_polymod_t.cpp")], over=("inputs", "histories"), technique=S)
prop("C09", "Residues modulo a polynomial over an extension field obey quotient arithmetic",
  "In a tower of extensions, a residue of a polynomial whose coefficients are themselves field residues stays reduced at both levels and equals the exactly computed value through any sequence of operations. Inverses and powers are exact for every exponent. Dividing by a zero divisor and mixing moduli are refused.",
  "towers over F2 and odd primes, reducible and irreducible outer moduli, operation sequences",
  "The tests barely touch towers: one modulus pair and single operations.",
  [POLY + "f2n_polymod_t.cpp", POLY + "fpn_polymod_t.cpp"],
  [("two-level reduction", POLY + "f2n_polymod_t.cpp"), ("inverse by extended Euclid", POLY + "fpn_polymod_t.cpp")], over=("inputs", "histories"), technique=S)
exec(open(os.path.join(V, "meta", "props_more.py")).read()) if os.path.exists(os.path.join(V, "meta", "props_more.py")) else None

NOTE = ("Randomised exploration: no violation among the cases generated for this seed (counts in the evidence file); "
        "assumes the reference model in harness/ is right (it is independent of the library and slow by design) and that g++ with sanitizers compiles the sources as shipped builds do.")
def main():
    have = [p for p in P if os.path.exists(os.path.join(V, "harness", p["id"].lower() + ".cpp"))]
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in have:
            assert len(p["title"]) <= 80, p["title"]
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
            for q in p["files"]:
                assert os.path.exists(os.path.join("/repo", q)), q
            if p["observe"]: a["observe_at"] = p["observe"]
            a["hook_needed"] = None
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
    m = {"version": 1, "setup_cmd": "python3 build.py all",
         "hooks": {"guard": "SPFFL_VERIF", "enable": "no hooks are needed: the checks use the public headers and the command-line program only", "source_commits": []},
         "checks": [{"property": p["id"], "quick_cmd": "bash check.sh %s quick" % p["id"], "thorough_cmd": "bash check.sh %s thorough" % p["id"],
                     "technique": p["technique"] or D, "level": "exploration", "level_note": p["note"] or NOTE} for p in have],
         "not_applicable": [], "notes": "Every check is generated-input search against an explicit oracle; see DESIGN.md. properties.jsonl and this file are written by meta/props.py."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    try:
        import jsonschema
        jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
        s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
        for l in open(os.path.join(V, "properties.jsonl")): jsonschema.validate(json.loads(l), s)
        print("valid:", len(have))
    except ImportError:
        print("not validated")
main()
