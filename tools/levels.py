FT = "explicit-state model checking: exhaustive enumeration of a bounded operand/representation space run on the real code against a reference model"
HT = "explicit-state search over operation histories of the real code in lock step with a reference model"
CT = "explicit-state model checking: complete state space over small prime fields plus bounded families on the real curves, in lock step with an affine reference model"
FN = ("Exhaustive within the bounds listed in DESIGN.md: operands are an enumerated alphabet of digit patterns and boundary values in every "
      "representation recipe, each executed on the real code and compared with independent bignum arithmetic. Assumes that values outside the "
      "alphabet behave like those in it; trusts rustc, the harness arithmetic (cross-checked against Python integers) and overflow checks.")
HN = ("All histories up to the stated depth over the stated registers and alphabet, breadth first with exact state deduplication, plus long periodic "
      "histories; every transition is an execution of the real code compared with the model. Nothing is said about longer aperiodic histories.")
CN = ("The generic curve code is run on complete toy fields (all points, all scalings, all scalars) and on the real curves over stated families; "
      "assumes that the generic code treats all field types alike (parametricity) and trusts the affine reference law.")
TECH = {("C%02d" % i): FT for i in range(1, 14)}
NOTE = {("C%02d" % i): FN for i in range(1, 14)}
TECH["C09"] = HT; NOTE["C09"] = HN
for i in (14, 15, 16, 17, 18, 20): TECH["C%02d" % i] = CT; NOTE["C%02d" % i] = CN
TECH["C22"] = FT; NOTE["C22"] = FN
TECH["C19"] = FT; NOTE["C19"] = FN
TECH["C18"] = "exhaustive exploration of all toy scalars and points with an operation-trace-recording field; all traces of an operation must be equal"
NOTE["C18"] = ("Complete over all points and scalars of several toy prime fields; observes calls through the PrimeField trait only, so "
               "data-dependent control flow below the trait (C21 looks there) and micro-architectural timing are outside it.")
TECH["C20"] = HT; NOTE["C20"] = HN + " The toy parts explore the complete reachable state graph."
TECH["C13"] = "exhaustive enumeration of all exported constants and curve parameters against independently recorded values and recomputed orders"
NOTE["C13"] = "The space (every exported constant) is finite and enumerated completely; the recorded SafeCurves values and the harness arithmetic are trusted."
TECH["C21"] = "exhaustive enumeration of bounded operand, representation and scalar alphabets on the real code instrumented at every basic block; all block sequences of an operation must be equal"
NOTE["C21"] = ("Exhaustive within the alphabets listed in DESIGN.md, on optimized code as the installed rustc compiles it; sees branches, loop counts and calls inside "
               "the crate, not instruction timing, memory addresses, branches made from selects in code generation, or code inside the standard library.")
NA = []

TECH["C23"] = "explicit enumeration of all call sequences up to a length on the real code, and stateless exploration of all two-thread schedules with bounded preemptions under a controlled scheduler that switches at call borders and at every access to writable static memory"
NOTE["C23"] = ("Exhaustive within the stated alphabets of calls, sequence lengths and preemption bound. The scheduler sees loads and stores of the crate's own compiled code "
               "(sequentially consistent interleavings of them), not those inside the standard library.")
TECH["C24"] = "exhaustive enumeration of bounded operand, representation and scalar alphabets on the real code instrumented at every load, store and variable index; all address sequences of an operation must be equal"
NOTE["C24"] = ("Exhaustive within the alphabets listed in DESIGN.md, on optimized code as the installed rustc compiles it (copies and fills included); "
               "heap and thread-local addresses are not told apart, and accesses inside the standard library are not seen.")
TECH["C25"] = "explicit-state search over operation histories of the real code, from operands outside the documented domains, with panics and calls that do not return as the only errors"
NOTE["C25"] = ("All histories up to the stated depth over two registers and an alphabet of 31 operations from the stated operands, and every operation with a domain on the "
               "boundary values and digit patterns in every representation recipe. Compiled with overflow checks; a call counts as endless after two minutes.")
