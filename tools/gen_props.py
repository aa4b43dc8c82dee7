#!/usr/bin/env python3
# Source of properties.jsonl (kept as code so long statements stay readable).
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,state=state or [],
      mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=hook)))

ALL=["src/arith.rs","src/cmp.rs","src/decimal.rs","src/round.rs","src/serde.rs","src/utils.rs"]

prop("C01","Concurrent callers never influence each other's results",
 "When any number of threads call the library at the same time, sharing operands by shared reference and each writing only result values of its own, every call yields exactly the outcome (value, scale, sign, text, ordering, bytes fed to the hasher, error or panic) that it yields when its caller runs alone. This holds for every interleaving of the callers' internal steps, including a caller that is preempted at an arbitrary point inside a call.",
 ["schedules"],"every interleaving, at the granularity of single memory accesses and branches inside the calls, of 2..4 caller threads, each making any sequence of calls over shared and private values",
 "The suite is single-threaded per value and never runs two calls at once; nothing in it can notice state shared between callers.",
 ALL,[("every operation works only on its operands, its result slot and locals; scratch buffers are stack arrays","src/arith.rs div_abs, rem_abs, mul_abs"),("lookup tables are immutable consts","src/utils.rs DIV9_TABLE, MOD9_TABLE, BIN2CHAR")],
 [dict(name="operands and result slot",meaning="the only memory a call may read or write",where="src/decimal.rs FixedDecimal")],
 ["result value, text, ordering, hash bytes, error of each call"])
prop("C02","A call's outcome depends only on its operands' values",
 "The outcome of a call is a function of the values of its operands alone. It does not depend on which calls were made before (successful, failed, panicked, or abandoned half-way), on what the result value or parse target held before (for parsing: when reset is requested), on whether the operand references alias or where the values live in memory, or on being called from inside a caller-supplied hasher.",
 ["histories","crash_points"],"every history of calls over recycled result values, including failing calls, hashers that panic or re-enter the library, and calls abandoned after any number of internal steps",
 "Unit tests call each function on fresh or lightly reused values; they never recycle a slot after an error, a panic or an abandoned call, and never compare against a pristine process.",
 ALL,[("result slots are cleared before use","src/arith.rs add_abs/sub_abs/mul_abs/div_abs/rem_abs `res.set_zero()`; src/round.rs round_to"),("parse clears the target when reset is set","src/serde.rs from_bytes_str"),("no statics, no thread-locals","whole crate")],
 [dict(name="lsu/intg/frac of the result slot",meaning="may hold arbitrary old contents on entry",where="src/decimal.rs")],
 ["result of each call compared with the same call in a pristine process on fresh values"])
prop("C03","A stalled or dead caller never blocks the others",
 "If one caller thread is suspended for ever, or dies, at any point inside any call, every other caller's calls still complete within a bounded number of their own steps, with the outcome they have when run alone. No call ever waits for another caller.",
 ["fault_sequences","schedules"],"every choice of the stalled callers and of the step, inside the call, at which each stalls; every schedule of the others",
 "No test suspends a thread inside a call; a lock or spin-wait would pass the whole suite.",
 ALL,[("all operations are wait-free pure computations: no locks, atomics, blocking or I/O","whole crate")],
 [],["completion and result of the surviving callers' calls"])
prop("C04","Failed calls are contained and reported as errors",
 "A rejected parse leaves its target equal to zero when reset was requested and exactly as it was otherwise. Arithmetic that cannot produce its result (overflow, division by zero) and out-of-range integer conversions return an error and never panic, whatever values an earlier history of calls produced, and leave their operands untouched. After any failure every value involved can be used again as operand-target or result with normal outcomes.",
 ["fault_sequences","histories"],"every history of calls in which inputs are damaged at any byte, divisors are zero and magnitudes overflow, at any point of the history",
 "The suite only checks that a few bad strings are rejected; it never looks at the target after a failure, never provokes overflow in add, sub, mul, div or rem, and never goes on using the values.",
 ["src/serde.rs","src/arith.rs","src/decimal.rs","src/error.rs"],[("all syntax and size checks precede the first write to the target","src/serde.rs from_bytes_str"),("Overflow / DivisionByZero are returned","src/arith.rs mul_abs, div_abs, rem_abs"),("range checks before conversion","src/decimal.rs as_i64, as_u64")],
 [],["parse target after Err","Result of add_to/sub_to/mul_to/div_to/rem_to/as_i64/as_u64","absence of panics"])
prop("C05","Computing never needs the heap",
 "Parsing, arithmetic through the result-slot forms, rounding, comparison, hashing, integer conversion and formatting into a caller's buffer that already has ample spare capacity all complete with their normal outcome, including normal errors, even when every memory allocation fails. Decimals have one fixed-size inline representation.",
 ["fault_sequences"],"every call sequence with the allocator refusing every request, or every request from some point on",
 "The suite always runs with a working allocator; a heap-allocated scratch buffer passes it.",
 ALL,[("38 bytes inline, 'it has fixed allocation: 9*4+2=38 bytes'","src/decimal.rs FixedDecimal"),("scratch buffers are fixed stack arrays","src/arith.rs div_abs, rem_abs"),("text is pushed directly into the caller's Vec","src/serde.rs append_str_buf, src/utils.rs d3_to_str")],
 [],["outcome of calls while the allocator fails"])
prop("C06","Formatting into a buffer only ever appends",
 "Formatting a decimal into a caller's buffer leaves everything the buffer already held in place in front, and appends the same text whatever the buffer's previous content, length or capacity. If a memory allocation fails part-way, the previous content and the decimal are still intact, at most a prefix of the text has been appended, and after cutting the buffer back a retry appends the full text.",
 ["fault_sequences","histories"],"every sequence of appends of any decimals with any requested number of fractional digits into one buffer, with an allocation failure at any growth step",
 "Tests only format into fresh strings with a working allocator.",
 ["src/serde.rs","src/utils.rs"],[("append_str_buf only pushes onto the end of the Vec","src/serde.rs append_str_buf, append_frac; src/utils.rs d3_to_str")],
 [],["buffer contents after each append and after each failed append"])
prop("C07","Damaged text is rejected or read exactly as it stands",
 "For every byte string, including stored decimal text that was truncated, torn, spliced with older text, duplicated or bit-flipped, parsing terminates without panicking and either returns a syntax error or yields exactly the value, sign and scale those bytes denote. The accepted texts are: optional sign, digits with at most one dot and at least one digit, optional e/E exponent with optional sign of at most three significant digits, not above 65 or below -30; the number written out with the exponent applied (written leading zeros counted, zeros implied right after the dot included) has at most 65 digits. Zero has no sign.",
 ["fault_sequences","inputs"],"every sequence of torn, short, lost, spliced, duplicated and bit-flipped writes to stored decimal text, read back at any time",
 "Nineteen malformed strings are tested; long, spliced and damaged texts are not, and accepted strings are mostly only checked for 'is ok'.",
 ["src/serde.rs","src/decimal.rs","src/utils.rs"],[("single left-to-right syntax scan, then unit filling from both sides of the dot","src/serde.rs from_bytes_str"),("digit and exponent limits","src/serde.rs MAX_DIGITS / MAX_FRAC checks")],
 [],["Ok/Err of from_bytes_str and the resulting text, sign and scale"])
prop("C08","Totals do not depend on the order in which parts are merged",
 "Adding and subtracting a collection of decimals gives the same total for every order and grouping in which partial sums are computed, exchanged as text and merged, including when workers crash inside an addition and restart from text checkpoints. The total and every partial sum are exact; overflow may be reported instead only when the integral digits of an operand or of the sum, together with the larger operand scale, need more than nine 9-digit groups.",
 ["schedules","histories","crash_points","inputs"],"every assignment of items to workers, every delivery order, duplication, loss and retransmission of partial sums, every grouping of merges and every crash point of workers and coordinator",
 "The suite adds about thirty fixed pairs; it never folds more than two values, never reorders, and never mixes widely different magnitudes, scales and signs in one accumulation.",
 ["src/arith.rs","src/serde.rs","src/decimal.rs"],[("unit-wise carry and borrow propagation over aligned units","src/arith.rs add_abs, sub_abs, add_with_carry, sub_with_borrow"),("sign handling","src/arith.rs add_to, sub_to")],
 [],["totals and partial sums as text / ordering"])
prop("C09","Restarting from stored text is transparent",
 "Replacing any in-memory value by the parse of its full formatted text at any point of a history, as a crash and restart with only stored text surviving does, changes neither that value and its scale nor the outcome (value, scale, sign, text, ordering, error) of any later parsing, arithmetic, rounding, comparison, integer conversion or formatting. This covers every value whose text has at most 65 digits and at most 30 fractional digits, and excludes the hash.",
 ["crash_points","histories"],"every history of commands over a set of registers, every set of points at which registers are snapshotted as text, and every crash point, also inside a call",
 "Tests start every operation from freshly parsed values, so results whose in-memory form differs from the parsed form (leading zero groups, widened digit counts) are never compared with their reloaded twins.",
 ALL,[("formatting prints every digit of the value and its scale","src/serde.rs append_str_buf"),("operations derive sizes from digit counts of the operands","src/arith.rs mul_abs, div_abs; src/round.rs"),],
 [dict(name="intg",meaning="digit count, over-estimated by arithmetic results, exact after parsing",where="src/decimal.rs")],
 ["outcome of each command in the crashed and the uncrashed execution"])
prop("C10","One ordered index for every arrival order",
 "An ordered collection keyed by decimals holds the same set of keys in the same, numeric, order, and finds every stored key under every spelling of its value (trailing zeros, leading zeros, exponent form, results of arithmetic, zero of either sign), for every order in which inserts, removals and lookups arrive and however often it is rebuilt from stored text. Comparison is by numeric value: exactly one of less, equal and greater holds for any two decimals, consistently with equality.",
 ["schedules","histories","inputs"],"every arrival order of concurrent clients' inserts, removals, lookups, range reads and rebuilds over any keys",
 "Thirty fixed pairs of parsed values are compared; transitivity, computed values and index behaviour are never exercised.",
 ["src/cmp.rs","src/decimal.rs","src/serde.rs","src/round.rs"],[("unit-wise magnitude comparison aligned at the decimal point, sign first","src/cmp.rs cmp, cmp_abs_lsu"),("Eq delegates to Ord","src/cmp.rs")],
 [],["contents and iteration order of an ordered map, results of lookups"])
prop("C11","Replicas applying the same commands agree",
 "Replicas that apply the same sequence of commands to the same starting values get identical values, scales, signs, texts, orderings, hash input and errors, whichever equivalent call form each uses: in-place or result-slot rounding, operators (a panic standing for the error) or result-slot arithmetic, any of the parsing entry points, formatting to a string or into a buffer, fresh or recycled results. Clock, random source, environment, thread and memory layout of the replica make no difference.",
 ["histories","configurations","fault_sequences"],"every command log, every per-replica choice of call forms, and every per-replica clock (including jumps), random seed, environment and memory layout",
 "The suite compares round with round_to on about a hundred inputs and never compares other forms in a history or under different ambient conditions.",
 ALL,[("round and round_to are separate implementations sharing round_half_up","src/round.rs"),("operators wrap the *_to forms","src/arith.rs impl Add/Sub/Mul/Div/Rem"),("from_str, from_ascii_str, from_bytes_str share one parser; to_string uses append_str_buf","src/serde.rs")],
 [],["outcome of each command on each replica"])

prop("C12","Every arithmetic result in every history is the exact one",
 "At every point of every history, however the operands were obtained (parsed or computed) and whatever the other callers, abandoned calls and recycled results did before, addition, subtraction, multiplication, division and remainder return what exact arithmetic gives. Sum and difference are exact, with the larger scale of two non-zero operands. A product is exact with the sum of the scales, unless it needs more than four fractional groups or nine groups in total (groups of nine digits, integral groups counted from the digits of both operands together); then it is cut off at a whole group, is never larger in magnitude and less than twenty units of the last kept group smaller, and has exactly the digits that were kept. A quotient is the exact quotient truncated at its own scale, which is at least the scales of both operands plus the requested extra digits, limited by 36 digits and by the groups its integral part leaves. A remainder is exactly dividend minus truncated quotient times divisor, with the larger scale, and has the sign of the dividend. A zero divisor is always reported; overflow is reported only for sums whose aligned groups, products whose integral digits together, or quotients whose integral part, do not fit nine groups (81 digits). No result is a zero with a sign unless an operand is one.",
 ["histories","schedules","crash_points","inputs"],"every history of several callers' calls over parsed and computed values, with preemptions, abandoned calls and recycled result values at any point, and every operand pair that occurs in it",
 "About two hundred fixed pairs of freshly parsed values are tested; multi-group divisors whose trial quotient needs correction, cut-off products and operands that are themselves results are not.",
 ["src/arith.rs","src/utils.rs"],[("unit-wise addition and subtraction","src/arith.rs add_abs, sub_abs"),("schoolbook multiplication with unit truncation","src/arith.rs mul_abs"),("Knuth algorithm D and short division","src/arith.rs div_abs, rem_abs")],
 [dict(name="intg, frac, lsu of results",meaning="operands of later calls; may carry leading zero groups",where="src/decimal.rs")],
 ["value, scale, sign and error of each arithmetic call"])
prop("C13","Rounding, conversion, comparison and formatting are exact in every history",
 "At every point of every history (parsed or computed values, any other callers, abandoned calls and recycled results): rounding to n fractional digits (n negative: to 10^-n) gives the nearest multiple, ties away from zero, scale n (0 if n is negative; fewer only if the carry leaves no room), and rounding at or above the value's scale keeps the value and extends the scale as far as nine groups allow; rounding to zero has no sign. Conversion from i64 and u64 is exact; conversion to them reports a range error exactly for values outside the target's range (a zero with a sign may be one) and rounds all others half away from zero. Ordering and equality are numeric. Formatting with n digits prints the full text cut or zero-padded to exactly n fractional digits. Sign, zero test, scale and group counts agree with the value; sign changes, constants and copies do what they say; parsing reads exactly the bytes given.",
 ["histories","schedules","crash_points","inputs"],"every history of several callers' calls over parsed and computed values, with preemptions, abandoned calls and recycled result values at any point, and every value, digit position and machine integer that occurs in it",
 "About two hundred fixed cases on freshly parsed values; carries across group boundaries, computed operands, integer limits with fractions and long paddings are hardly touched.",
 ["src/round.rs","src/decimal.rs","src/cmp.rs","src/serde.rs","src/utils.rs"],[("round, round_to, round_half_up","src/round.rs"),("as_i64, as_u64, From, getters","src/decimal.rs"),("cmp_abs_lsu","src/cmp.rs"),("append_str_buf, append_frac","src/serde.rs")],
 [],["outcome of each rounding, conversion, comparison, formatting and inspection call"])
prop("C14","A hash index finds every key under any arrival order",
 "A hash map keyed by decimals holds exactly one entry per number and finds it under every equal key that has the same number of integral and fractional groups (the source documents that other group counts may hash differently), whatever its spelling, sign of zero or the computation it came from, for every order of inserts, removals and lookups, through growth, shrinking and rebuilding, and after a hasher panicked during an insert.",
 ["histories","fault_sequences","inputs"],"every arrival order of inserts, removals, lookups, rebuilds and panicking hashers over any keys",
 "Two pairs of parsed values are hashed; no map is ever built, and zeros with a sign and computed keys are never hashed.",
 ["src/decimal.rs","src/cmp.rs"],[("Hash feeds sign, group counts and groups","src/decimal.rs"),("Eq delegates to Ord","src/cmp.rs")],
 [],["results of lookups and size of the map"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in P: jsonschema.validate(p,s)
print(len(P))
