#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after editing; both are committed)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIELDS = ["mod_e221_3", "mod_e222_117", "mod_e251_9", "mod_e255_19", "mod_e382_105", "mod_e383_187",
          "mod_e414_17", "mod_e511_187", "mod_e521_1"]
FF = ["src/field/%s.rs" % f for f in FIELDS]
TR = "src/field/prime_field.rs"
ED = "src/curve/edwards.rs"
CURVES = ["src/curve/e_222.rs", "src/curve/curve1174.rs", "src/curve/e_382.rs", "src/curve/curve41417.rs", "src/curve/e_521.rs"]
LIMB = {"name": "digits", "meaning": "lazily reduced signed digits; the carry out of the top digit is stashed in its high bits and folded in by the next operation", "where": "struct Mod_eN_C([i64; L]) in every field file"}
POINT = {"name": "x, y, z, t", "meaning": "extended homogeneous coordinates of a point", "where": ED}

def m(name, where): return {"name": name, "where": where}

P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [], "mechanism": mech,
                          "observe_at": observe or ["packed little-endian bytes of the result"], "hook_needed": hook}})

prop("C01", "Addition, subtraction and negation are exact in every prime field",
     "For every pair of elements a, b of each of the nine prime fields, in whatever internal form they were computed, a+b, a-b and -a denote the residues (a+b) mod p, (a-b) mod p and (-a) mod p. The operands that are not assigned to keep their values.",
     ["inputs", "histories"], "all residues a, b of all nine fields, in every internal representation an API history can leave behind",
     "The tests add a handful of constants; carries across every combination of digits, the stashed carries of both operands and the wrap around the modulus need particular digit patterns and particular earlier operations.",
     FF, [m("digit-wise add/sub with stashed carry", "AddAssign/SubAssign/Neg impls of every field file")], [LIMB])
prop("C02", "Multiplication and squaring are exact in every prime field",
     "For every pair of elements a, b of each field, in whatever internal form, a*b denotes (a*b) mod p and the square of a denotes (a*a) mod p, both for the in-place and for the functional forms. No operand value overflows the intermediate computation.",
     ["inputs", "histories"], "all residues a, b of all nine fields, in every reachable representation",
     "Each product has dozens of partial products and hand-written shifts; a wrong shift or a lost carry shows only for digits of a particular size and sign, which the sampled constants do not have.",
     FF, [m("schoolbook products on half digits, fold by C, carry propagation", "MulAssign and square of every field file")], [LIMB])
prop("C03", "Operations with small integers are exact over the whole integer range",
     "Adding, subtracting and multiplying an element by an 8-, 16- or 32-bit signed integer k denotes (a+k), (a-k) and (a*k) mod p for every k including the negative and the extreme ones. This holds for every element in every internal form, and the result can be used in further operations.",
     ["inputs", "histories"], "all i8, i16, i32 constants times all residues and representations of all nine fields",
     "Tests multiply by small positive constants; overflow of the top digit, sign of k and the carry held by the element matter only for large or negative k and particular elements.",
     FF + [TR], [m("small_add/small_sub/small_mul and the integer operator impls", "every field file")], [LIMB])
prop("C04", "Inversion and division return the field inverse and the quotient",
     "For every nonzero element a of each field, in whatever internal form, the inverse of a multiplied by a is 1; for every element c, c/a multiplied by a is c. The functional and the in-place forms agree.",
     ["inputs"], "all nonzero residues, all representations, all nine fields",
     "The exponentiation chain is hand-unrolled per prime; the tests invert a few constants, for which a wrong squaring count can only be seen if the element does not lie in a small subgroup, and carries differ per element.",
     FF, [m("Fermat inversion chains", "invert/inverted/Div of every field file")], [LIMB])
prop("C05", "The Legendre symbol is 1, -1 or 0 exactly as the element is square",
     "For every element a of each field the Legendre symbol denotes 1 when a is a nonzero square, -1 when a is not a square and 0 when a is zero, whatever internal form a has.",
     ["inputs"], "all residues, all representations, all nine fields",
     "Tests evaluate it on a few known squares; the claim is about every residue.",
     FF, [m("exponentiation by (p-1)/2", "legendre of every field file")], [LIMB])
prop("C06", "Square roots of squares are square roots",
     "For every square a of each field, in whatever internal form, the element returned by the square root, multiplied by itself, is a.",
     ["inputs"], "all squares, all representations, all nine fields (p = 3 and 5 mod 8 use different algorithms)",
     "Half of the branches depend on which quartic class the element is in; tests take roots of a few small squares.",
     FF, [m("sqrt chains (Atkin / Lagrange)", "sqrt of every field file")], [LIMB])
prop("C07", "Packing and unpacking are inverse and canonical",
     "Unpacking the little-endian encoding of any v below the modulus yields the element v and packing it yields the same bytes; packing any element, whatever its history, yields the unique encoding of its residue in [0, p). All packing and unpacking entry points agree, unpacking into an existing element forgets its old content, and packing writes the encoding's bytes and no others.",
     ["inputs", "histories"], "all encodings below p, all elements and representations, all nine fields",
     "The encoders move bytes across digit borders with per-field shifts; tests use a few byte strings, and residues just below, at and above the modulus need the lazy form to be reduced first.",
     FF + ["src/pack.rs"], [m("pack/unpack/packed/pack_normalized/unpacked", "Pack impl of every field file"), m("normalize before pack", "src/normalize.rs")], [LIMB])
prop("C08", "Normalization is canonical and equality is equality of residues",
     "Normalizing any element keeps its residue and leaves the one representation whose digits are canonical, so normalizing twice changes nothing. All equality comparisons hold exactly when the residues are equal, whatever internal forms the two sides have.",
     ["inputs", "histories"], "all elements, all reachable representations (including multiples of p held as non-zero digits), all nine fields",
     "Equality on redundant representations is only wrong for elements whose lazy form lies outside [0, p), which depends on the operations that produced them.",
     FF + ["src/normalize.rs"], [m("normalize/normalize_eq/normalize_self_eq/normalized_eq", "every field file"), m("carry_out / correction by the modulus", "every field file")], [LIMB])
prop("C09", "Every history of field operations agrees with modular arithmetic",
     "After any sequence of field operations, of any length and in any order and without normalizing in between, every element still denotes the residue that modular arithmetic gives. No sequence panics or overflows, and every call returns.",
     ["histories"], "all operation sequences over small register files and argument alphabets, up to the stated depths, and periodic sequences of great length, for all nine fields",
     "Lazy reduction means the magnitude of the digits depends on the whole history; unit tests run one or two operations on fresh values.",
     FF, [m("stashed carry keeps digits bounded", "carry_out and all arithmetic impls")], [LIMB],
     ["packed bytes of all registers after each step", "panics and arithmetic overflow"])
prop("C10", "Bits, masks and bitwise operations act on the canonical value",
     "Reading bit i of an element yields bit i of its residue in [0, p). AND and OR with an all-ones or all-zeros mask keep or clear the whole element in every internal form, and AND/OR of normalized elements are the bitwise operations of their residues. The mask types filled with a bit have every bit equal to it.",
     ["inputs", "histories"], "all bit positions, all residues and representations, all mask operations, all nine fields",
     "Branchless selection must work on unnormalized elements with carries stashed in the top digit; tests read bits of a few constants.",
     FF + [TR], [m("bit/bit_normalized/fill/filled/normalize*_bitand/normalize*_bitor", "every field file")], [LIMB],
     ["bits read, packed bytes of the result"])
prop("C11", "Hexadecimal formatting prints the canonical value",
     "Formatting an element in lower- or upper-case hexadecimal prints all bytes of the canonical encoding, most significant first, two digits per byte, whatever internal form the element has, and does not change it.",
     ["inputs"], "all residues and representations, all nine fields",
     "No test formats an element with small high bytes or in a non-normalized form.",
     FF, [m("LowerHex/UpperHex", "every field file")], [LIMB], ["formatted text"])
prop("C12", "Randomly drawn elements are valid field elements and use all bits",
     "Whatever words the random generator delivers, drawing an element terminates, yields an element of the field that packs to a canonical encoding and computes like any other, and depends on the generator only. No bit of the drawn elements is constant and no two bits are tied together.",
     ["inputs"], "all generator outputs over the stated word alphabets, all nine fields",
     "Tests draw from a real generator and cannot choose the words that make a digit maximal or be rejected.",
     FF, [m("digit-wise sampling", "Rand impl of every field file")], [LIMB], ["packed bytes", "words taken from the generator"])
prop("C13", "Published constants and curve parameters are correct",
     "The exported field constants and the curve parameters (coefficient, base point, group order) have the published SafeCurves values, in normalized form; each base point lies on its curve and has exactly the stated prime order; the coefficient used by the generic curve code is that of the curve.",
     ["configurations"], "all exported constants of the nine fields, all five Edwards and five Montgomery curves",
     "No test computes order times base point; a wrong digit in a constant still compiles and nothing compares it with the published value.",
     FF + CURVES, [m("constants", "top of every field file"), m("EdwardsCurve::d_val", "src/curve/*.rs")], [LIMB],
     ["packed bytes of the constants", "order*B computed by the reference"])
prop("C14", "Point addition is the complete Edwards addition law",
     "For any two points of each of the five curves, including equal, opposite, neutral and small-order points and whatever projective scaling and internal field form their coordinates have, addition yields coordinates of their sum with nonzero Z and the extended coordinate consistent with X, Y and Z. All syntactic forms agree and the right operand is unchanged.",
     ["inputs"], "all pairs of points (complete for small prime fields; stated families on the real curves), all scalings and forms",
     "The tests contain no curve arithmetic at all beyond what the fields do; exceptional pairs and projective scalings are where addition laws break.",
     [ED] + CURVES, [m("unified addition formula", "AddAssign for EdwardsExtended"), m("non-square d makes the law complete", "EdwardsCurve::d_val")], [POINT],
     ["projective coordinates of the result"])
prop("C15", "Doubling and tripling equal repeated addition",
     "For every point P of each curve, in every projective and internal form, doubling P gives P+P and tripling P gives P+P+P, with nonzero Z and a consistent extended coordinate, in the in-place and in the functional form.",
     ["inputs"], "all points (complete for small prime fields; stated families on the real curves), all scalings",
     "Dedicated formulas may be wrong only in the extended coordinate or only when Z is not 1, which needs a second operation after them to be seen.",
     [ED], [m("double/doubled/triple/tripled", ED)], [POINT], ["projective coordinates of the result"])
prop("C16", "Scalar multiplication multiplies by the scalar's value",
     "For every scalar k of the scalar field, in whatever internal form, and every point P, scalar multiplication yields the sum of v copies of P, where v in [0, p) is the canonical value of k; the normalized entry point gives the same result for a normalized scalar. The scalar keeps its value.",
     ["inputs"], "all scalars and points (complete for small prime fields; stated families on the real curves)",
     "The ladder reads bits at run time and selects without branching; every bit position and both bit values at each matter, for points of every order.",
     [ED], [m("branchless Montgomery ladder", "scalar_mult/scalar_mult_normalized"), m("bit/mask operations of the field", TR)], [POINT],
     ["projective coordinates of the result", "packed bytes of the scalar"])
prop("C17", "Points made from coordinates and the neutral element are valid",
     "Initializing a point from affine coordinates of a curve point, in any internal form and over any earlier content, yields exactly that point; the zero point is the neutral element of addition; (-x, y) is the inverse of (x, y). Both carry a consistent extended coordinate.",
     ["inputs"], "all curve points (complete for small prime fields; stated families on the real curves)",
     "An inconsistent extended coordinate is invisible until the point takes part in an addition, which no test does.",
     [ED, "src/curve/point.rs"], [m("zero/init", ED)], [POINT], ["projective coordinates"])
prop("C18", "The sequence of field operations does not depend on scalar or point",
     "Scalar multiplication performs the same sequence of field operations whatever the value of the scalar and whatever the point, including neutral and small-order points; the same holds for adding, doubling and tripling.",
     ["inputs"], "all scalars and points of small prime fields run through the generic curve code",
     "Timing leaks are invisible to functional tests: a data-dependent shortcut returns right results.",
     [ED, TR], [m("branchless selection by masks", "scalar_mult_normalized")], [POINT], ["sequence of trait calls observed by an instrumented field"])
prop("C19", "All ways of writing an operation agree",
     "By-value, by-reference, in-place, named-method and integer-typed forms of every field operation denote the same residue for the same operands and leave the operands they only borrow unchanged.",
     ["inputs", "programs"], "all operator forms of all nine fields over the stated operands and representations",
     "Each field file has some seventy operator impls written out by hand, and the tests use only a few of them, so a wrong one goes unnoticed.",
     FF + [TR], [m("operator impls for i8/i16/i32/Self/&Self", "every field file")], [LIMB])
prop("C20", "Every history of point operations follows the group law",
     "After any sequence of point operations (initialize, add in all forms, double, triple, multiply, copy, reset), of any length and order, every point still denotes the group element that the curve's group law gives, with nonzero Z and consistent extended coordinate. No sequence panics or overflows, and every call returns.",
     ["histories"], "all operation sequences over two point registers up to the stated depth, plus long periodic sequences, on the five curves and complete state graphs for small prime fields",
     "Unreduced coordinates pass from one operation to the next for the whole history; the tests run none.",
     [ED] + CURVES, [m("composition of the point formulas over lazily reduced fields", ED)], [POINT], ["projective coordinates of all registers after each step"])

prop("C21", "Control flow of field and point operations does not depend on operand values",
     "Every field operation (addition, subtraction, negation, multiplication, squaring, the operations with small integers, inversion, division, Legendre symbol, square root, normalization, packing, unpacking, bit access, masks, bitwise and/or) and every point operation (add, double, triple, scalar multiplication) of the optimized build executes one and the same sequence of basic blocks whatever the values and internal forms of its operands: there is no data-dependent branch, shortcut or loop count. Only comparison, hex formatting and random generation are exempt.",
     ["inputs", "histories"], "all operands in all internal forms, all nine fields and five real curves",
     "Tests look at results; a branch on a carry, a zero digit, a sign or a scalar bit gives right results and differs only in the path executed, for particular operands.",
     FF + [ED], [m("branchless digit arithmetic, fixed exponentiation chains, mask selection", "every field file"), m("branchless ladder", "scalar_mult_normalized")],
     [LIMB, POINT], ["sequence of basic blocks, recorded by compiler instrumentation at every block of the optimized code"])

prop("C22", "Operations documented to normalize leave their arguments normalized",
     "After normalize, pack, packed, reading a bit, the normalizing equality comparisons and the normalizing bitwise operations, every argument the operation is documented to normalize holds the canonical form of its unchanged residue, so that the functions that assume a normalized element (pack_normalized, bit_normalized, normalized_*) read the canonical encoding and bits from it; the AND of normalized elements is itself normalized.",
     ["inputs", "histories"], "all residues in all internal forms, all nine fields",
     "Tests normalize explicitly or look only at the result of the call; an argument left unreduced is only misread by a later *_normalized call, and only for lazy forms.",
     FF + [TR, "src/normalize.rs", "src/pack.rs"], [m("normalize before use", "pack/packed/bit/normalize_eq/normalize_self_eq/normalize*_bitand/normalize*_bitor of every field file")],
     [LIMB], ["bytes and bits read by pack_normalized and bit_normalized"])

prop("C23", "Results depend on the operands only, whatever ran before or runs in parallel",
     "Every field and point operation, packing, unpacking, comparison and formatting is a function of its operands: repeated with the same operands it leaves the same elements and points behind and returns the same result, whatever operations on other values came before it, however often it was called, and whatever another thread does at the same time. There is no cache, counter or shared scratch memory through which one computation could influence another.",
     ["histories", "schedules"], "all call sequences of the stated lengths, and all schedules with a bounded number of preemptions of two threads, on the nine fields and the five curves",
     "A unit test makes a few calls in a fresh process on one thread; state kept in statics or thread-locals shows only after particular earlier calls, after many calls, or when two threads interleave inside one operation.",
     FF + [ED], [m("operations work on their operands and the stack only", "every field file, " + ED)], [LIMB, POINT],
     ["elements and points left in all operands and results; accesses to writable static memory, where the scheduler switches threads"])

prop("C24", "Memory access patterns do not depend on operand values",
     "Every field operation and every point operation of the optimized build (as listed for control flow: arithmetic, small integers, inversion, division, Legendre symbol, square root, normalization, packing, unpacking, bits, masks; add, double, triple, scalar multiplication) reads and writes the same sequence of memory addresses, relative to its operands and its stack frame, whatever the values and internal forms of its operands: no table is indexed by, and no pointer chosen from, digits, scalar bits or points. Only comparison, hex formatting and random generation are exempt.",
     ["inputs", "histories"], "all operands in all internal forms, all nine fields and five real curves",
     "A table lookup at a secret index gives right results; only the addresses tell, for particular operands.",
     FF + [ED], [m("fixed digit indices, mask selection instead of lookup", "every field file, scalar_mult_normalized")],
     [LIMB, POINT], ["addresses of all loads and stores and all variable indices, recorded by compiler instrumentation of the optimized code"])

prop("C25", "Every field operation returns, on any operand whatsoever",
     "No field operation panics, overflows (in a build with overflow checks) or runs forever, whatever elements it is given: also zero to invert or to divide by, non-squares to take roots of, encodings of the modulus and above up to all bits set, and whatever such calls left behind, in one register or in both. (Which value comes out outside an operation's domain is not claimed.)",
     ["inputs", "histories"], "all elements and all byte strings of the length of an encoding, all nine fields, all operations after them",
     "Bytes and numbers arrive from outside, and the caller learns only afterwards (from the Legendre symbol, or by squaring the root) that there was no root; the tests use operands inside the domain only.",
     FF + [TR], [m("branchless exponentiation chains, defined for every element", "invert, div, sqrt, legendre of every field file")], [LIMB])

EXTRA = os.path.join(here, "tools", "extra_props.py")
NOTES = {}
exec(open(os.path.join(here, "tools", "levels.py")).read())
if os.path.exists(EXTRA): exec(open(EXTRA).read())

for p in P: assert len(p["title"]) <= 80, p["id"]
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
man = {"version": 1, "setup_cmd": "./check.sh --build",
       "checks": [{"property": p["id"], "quick_cmd": "./check.sh %s quick" % p["id"],
                   "thorough_cmd": "./check.sh %s thorough" % p["id"], "evidence_file": "evidence/%s.json" % p["id"],
                   "technique": TECH[p["id"]], "level": "model_checking", "level_note": NOTE[p["id"]]} for p in P],
       "not_applicable": NA,
       "notes": "No hooks in /repo: the harness in mc/ is a crate with a path dependency on /repo and uses its public API only (point coordinates, which are private, are read and written through the point's memory after a run-time calibration of their order). known-findings.txt lists the repaired defects."}
json.dump(man, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")

# the table of planted bugs in DESIGN.md
import re, glob
rows = []
for d in sorted(glob.glob(here + "/seeded/*/meta.json")):
    j = json.load(open(d))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), j["property"], j["needs"]))
s = open(here + "/DESIGN.md").read()
s = re.sub(r"(?s)(\| bug \| property \| needs \|\n\|---\|---\|---\|\n).*?(?=\n\n)", lambda k: k.group(1) + "\n".join(rows), s)
open(here + "/DESIGN.md", "w").write(s)
