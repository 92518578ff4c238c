"""The properties: their text, and which specifications and lints decide each.

properties.jsonl and MANIFEST.json are generated from this table by `python3 -m sa.docs`.
"""
PROPS = {}
BN, POLY, NUM, BIT, GAD, LAZY, CONV = ("src/mp/bignat.rs", "src/mp/poly.rs", "src/util/num.rs", "src/util/bit.rs", "src/util/gadget.rs", "src/util/lazy.rs", "src/util/convert.rs")
MED, DIF, HDR = "src/btc_validation/median.rs", "src/btc_validation/difficulty_update.rs", "src/btc_validation/header_step.rs"

TESTS = "The unit tests run each gadget on a handful of fixed honest values; "


def prop(id, title, statement, text, why, files, mechanism, specs=(), explain="", na=None, over=("inputs",), **kw):
    PROPS[id] = dict(id=id, title=title, statement=statement, text=text, why=why, files=list(files), over=list(over),
                     mechanism=[{"name": a, "where": b} for a, b in mechanism], specs=specs, explain=explain, na=na, **kw)


HOW = ("The functions are interpreted abstractly from the compiler's typed intermediate representation (THIR): every value is a polynomial over "
       "input symbols and wires, loops are summarised in closed form, and the constraint system they emit is extracted as closed-form families. ")

prop("C01", "Range checks and bit decompositions admit exactly the numbers that fit",
     "Constraining a number to a bit length accepts every number below two to that length and no other; decomposing a number yields exactly its "
     "binary digits, least significant first, each a constrained bit. No assignment of the auxiliary wires lets an out-of-range number, a "
     "non-boolean digit or a different digit string through.",
     "every number, every bit length from 1 to the field's capacity, and every assignment of the prover's wires",
     TESTS + "a wrong recomposition coefficient, a missing top bit or a missing booleanity constraint changes only which dishonest assignments satisfy the system.",
     [NUM, BIT], [("range check", NUM + ": fits_in_bits"), ("decomposition", NUM + ": decompose"), ("boolean wires", BIT + ": Bit::alloc, Bit::constrain_value")],
     ["fits_in_bits", "num_decompose", "bit_alloc", "constrain_value"],
     HOW + "Completeness (the honest digits satisfy every constraint) and the value returned are decided for symbolic bit length; soundness is derived "
     "from the extracted constraints by uniqueness propagation and interval arithmetic at the bit lengths listed in the obligations.")

prop("C02", "The equality indicator is one exactly when its operands are equal",
     "The boolean returned for two allocated numbers is one when they are equal and zero otherwise, as a value and as a wire. Every assignment of the "
     "auxiliary wires that satisfies the constraints gives the same boolean.",
     "every pair of field elements and every assignment of the prover's wires",
     TESTS + "that a prover can flip the indicator with an unusual inverse or a free wire shows only in assignments that no test builds.",
     [BN], [("indicator with witnessed inverse", BN + ": BigNat::equals")], ["equals"],
     HOW + "The result is compared with the indicator of a = b; that the result wire is a function of a and b is derived from the extracted constraints by case "
     "split on a = b and uniqueness propagation.")

prop("C03", "Comparison indicators agree with the integer order at every width",
     "For operands of at most the stated number of bits, the strict comparison returns one exactly when the first is smaller, and the non-strict one exactly when it is "
     "not greater, as a value and as a wire. Every assignment of the auxiliary wires that satisfies the constraints gives the same boolean, at every width up to 252 bits.",
     "every pair of operands in range, every width from 1 to 252, and every assignment of the prover's wires",
     TESTS + "the comparisons run at one width on one pair, so the paths for wide shifts, the boundary of equal operands and the freedom of the low-bits wire are not reached.",
     [MED, NUM, BN], [("shifted comparison", MED + ": less_than, leq, enforce_shifted_cmp"), ("low-order bits", "src/lib.rs: BitAccess")],
     ["less_than", "leq"],
     HOW + "The witness computation is compared with the shifted difference for symbolic width; that the result is determined by the operands is derived from the extracted "
     "constraints at the widths listed, with the equality and range gadgets replaced by their contracts, whose specifications are discharged in the same run.")

prop("C04", "Bits and bit vectors keep wires and values in step",
     "Every operation on bits and bit vectors (negation, constants, reversal, truncation, shifts, access, push, pop, insert, append, conversion from and to lists of bits) performs the "
     "same rearrangement on the wires as on the values. A vector has values exactly when all its parts have them. Equating a number to a bit vector holds exactly when the bits are its binary digits.",
     "every vector length, index, shift amount and pattern of known and unknown values",
     "No test touches these operations except through range checks; a shift in one of the two lists, or a boundary index, is invisible to them.",
     [BIT], [("bit vectors", BIT + ": impl Bitvector"), ("bits", BIT + ": impl Bit")],
     ["bv_reversed", "bv_truncate", "bv_get", "bv_shr", "bv_shl", "bv_pop", "bv_push", "bv_insert", "bv_append", "bv_push_unknown", "bv_insert_unknown",
      "bv_append_unknown", "bv_into_bits", "bv_from_bits", "bit_not", "bit_from_sapling", "bit_new_false", "bit_new_true", "bit_new_value", "bit_new", "num_is_equal"],
     HOW + "The resulting sequences of wires and of values are compared, element by element at a symbolic index, with the specified rearrangement.")

prop("C05", "Selection returns exactly the chosen operand",
     "Selecting between two gadgets, swapping two gadgets and choosing a leaf of a tree by a list of bits return the chosen operand, as wires and as values, and nothing else; asserting two "
     "gadgets equal constrains every one of their wires. A tree whose leaf count is not two to the number of selectors, or operands of different shape, are refused.",
     "every selector, every pair of operands, every number of selectors and leaves, and every assignment of the prover's wires",
     "Selection is exercised by no test of its own; an exchanged pair of operands, a limb left out or a wrong order of selector bits shows only when the other branch is chosen.",
     [GAD, BN], [("selection", GAD + ": mux, switch, mux_tree, assert_equal"), ("big natural selection", BN + ": Gadget for BigNat")],
     ["gadget_mux", "gadget_switch", "bignat_mux", "large_mux", "mux_tree_*", "gadget_assert_equal"],
     HOW + "The selected wires are derived from the extracted constraints for each value of the selector; the tree is analysed with the trait operation as an uninterpreted selection.")

prop("C06", "Limbs, limb values and whole value of a big natural always agree",
     "Every constructor and view of a big natural (allocation from limbs or a number, construction from limbs or a polynomial, listing limbs, padding and truncation to a limb count, "
     "concatenation, recomposition from bits, grouping) yields wires whose honest values are the recorded limb values. The limb values weighted by powers of the limb base sum to the "
     "recorded value, and the recorded limb count and word bound are those of the limbs. A number that does not fit its limbs, a list of values of the wrong length, and padding to fewer limbs are "
     "refused; two big naturals compare as equal exactly when their values and parameters agree.",
     "every number of limbs, limb width, limb value and word bound",
     TESTS + "unequal widths, single limbs, zero limbs and over-full limbs are not tried, and most views are not exercised at all.",
     [BN], [("constructors and views", BN + ": alloc_from_limbs, alloc_from_nat, from_limbs, from_poly, as_limbs, with_n_limbs, truncate_limbs, concat, group_limbs, recompose"),
            ("limb encoding", BN + ": limbs_to_nat, nat_to_limbs")],
     ["nat_to_limbs", "params_new", "from_limbs", "from_poly", "to_poly", "as_limbs", "with_n_limbs", "truncate_limbs", "concat", "group_limbs", "recompose", "one",
      "alloc_from_nat", "alloc_from_limbs", "alloc_from_limbs_default", "bn_from_num_*",
      "bn_gadget_alloc", "bn_view_*", "limbs_to_nat",
      "nat_to_limbs_wide", "alloc_from_nat_wide", "alloc_from_limbs_more", "alloc_from_limbs_fewer", "with_n_limbs_fewer", "bn_same_*"],
     HOW + "Limbs, limb values, value and parameters of the result are compared at a symbolic index with their specification; those that do not normalise to "
     "the same polynomial are tested by random interpretation of both (a difference is a violation, agreement is reported as undecided).")

prop("C07", "Carried equality holds exactly for numbers of equal value",
     "Asserting two big naturals equal while carrying accepts limb representations with the same weighted value and no others, with grouping or without; there are enough carry bits for every pair "
     "the word bounds allow, and no carry, nor the field, is wide enough to let a false equality wrap around. Limb-wise equality, asserted or as an indicator, holds exactly when every limb agrees.",
     "every pair of limb representations within the word bounds, every limb count and every assignment of the carry wires",
     "The tests compare small products of equal shape; a carry one bit too narrow rejects only extreme words, and one bit too wide, or a constraint dropped at the last limb, admits only dishonest carries.",
     [BN], [("carried equality", BN + ": equal_when_carried, equal_when_carried_regroup, group_limbs"), ("limb-wise equality", BN + ": equal, is_equal")],
     ["carried_*", "regroup_*", "bn_equal_*", "bn_is_equal_*", "large_equal", "large_is_equal", "group_limbs"],
     HOW + "At the sizes listed, limb values are symbols and the second number is the first with symbolic carries: the witness is shown to satisfy the constraints for all of them. Conversely the "
     "equality of the weighted limbs over the integers is derived from the extracted constraints and range checks by linear elimination and interval arithmetic.")

prop("C08", "Polynomial products, sums and evaluations are exact",
     "The product allocated for two polynomials is constrained to be their convolution, with as many coefficients as it needs; sums and evaluations have the specified coefficients "
     "and values. No other product coefficients satisfy the constraints.",
     "every pair of lengths, every coefficient, and every assignment of the product's wires",
     "One test multiplies two small polynomials of one length; one evaluation point too few leaves a family of wrong products that no honest run shows.",
     [POLY], [("evaluation-point product", POLY + ": alloc_product"), ("sum and evaluation", POLY + ": sum, evaluate_at")],
     ["evaluate_at", "poly_sum", "alloc_product"],
     HOW + "The convolution is derived from the extracted evaluation constraints by inverting the linear system they form, at the lengths listed in the obligations.")

prop("C09", "Products, differences and modular results are the exact integers",
     "Multiplication, subtraction, divisibility, modular multiplication and modular reduction return the exact integer results and accept no others: the difference is non-negative and in range, the product is the "
     "product, quotient and remainder satisfy the division identity over the integers, and the remainder is below the modulus.",
     "every pair of operands within their word bounds, every non-zero modulus, every limb count, and every assignment of the quotient, remainder and product wires",
     "Tests check a few small products; a quotient with too few limbs, a remainder without a range check or above the modulus appears only for extreme operands or a dishonest prover.",
     [BN, POLY], [("products", BN + ": mult, assert_product_mod"), ("difference", BN + ": sub"), ("divisibility and modular operations", BN + ": divides, mult_mod, red_mod")],
     ["sub_*", "mult_*", "divides_*", "assert_product_mod_*", "red_mod_*", "alloc_from_nat", "alloc_product", "evaluate_at"],
     HOW + "At the sizes listed, limb values are symbols: the honest witness is shown to satisfy the constraints, and the division identity over the integers is derived from the extracted constraints and range checks.")

prop("C10", "Addition, shifting, scaling and size bounds of big naturals are exact",
     "The sum, shifted, scaled, lesser and unit big naturals have the specified limbs and value, and their recorded word bound, minimum size and bit count are true bounds of "
     "what their limbs can hold, for operands within their own recorded bounds. No assignment of the auxiliary wires passes the greater of two numbers off as the lesser. "
     "A shift or scaling whose words could exceed the field is refused.",
     "every operand size, limb width, constant and bound",
     TESTS + "bounds only matter at the extremes, which carry handling relies on and no test reaches.",
     [BN], [("arithmetic", BN + ": add, shift, scale, one, min, n_bits")],
     ["add", "shift", "scale", "shift_wide", "scale_wide", "one", "n_bits", "min_*"],
     HOW + "Result limbs, values and recorded bounds are compared with their specification for symbolic sizes; that the lesser of two numbers is the one selected is derived from the extracted constraints at the sizes listed.")

prop("C11", "Operands of different limb widths are never combined",
     "Every operation on two or more big naturals returns an error whenever the limb widths of its operands differ; the width agreement they rely on returns the common width otherwise. Limb-wise equality, which compares wires, "
     "refuses or denies numbers of different widths.",
     "every operation and every pair of limb widths",
     "All tests use one width throughout.",
     [BN], [("width agreement", BN + ": enforce_limb_width_agreement"), ("binary operations", BN + ": add, sub, concat, mult, divides, mult_mod, red_mod, min, equal_when_carried, assert_product_mod, mux")],
     ["width_agreement", "widths_*", "bn_equal_2_2_8_9", "bn_is_equal_2_2_8_9"],
     HOW + "The condition under which the error is returned is extracted and compared with the inequality of the widths; each operation is analysed with one operand of another width, for which it must return an error on every path.")

prop("C12", "The circuit's shape does not depend on the witness",
     "Every gadget emits the same wires and the same constraints when it is given values and when it is not, so that a proving key made without a witness fits every proof.",
     "every gadget, every size and every witness",
     "All tests synthesise with a witness; none synthesises a circuit without one or with a different one and compares.",
     [NUM, BIT, BN, POLY, MED], [("all gadgets", "src/util, src/mp, src/btc_validation")],
     "all",
     HOW + "Each gadget is analysed once with known and once with unknown values, and the two extracted families of wires and constraints are compared on instances of the sizes listed.",
     only=["O5"])

prop("C13", "The median is the middle of the sorted timestamps and nothing else passes",
     "The median computed for a list of timestamps is the element in its middle once sorted. The indicator for a claimed median over an odd number of timestamps is one exactly when the claim is that median, in the presence of "
     "equal timestamps too, and no assignment of the auxiliary wires changes it.",
     "every list of 32-bit timestamps with any multiplicities, every claimed median, and every assignment of the prover's wires",
     "Three tests use a few fixed lists; which multiplicities, orders and neighbouring values are miscounted, and whether a prover can flip the indicator, depends on lists and assignments no test builds.",
     [MED], [("median", MED + ": compute_median_timestamp"), ("median check", MED + ": verify_median_allocated, verify_median_timestamp"), ("comparisons", MED + ": less_than, leq")],
     ["median_*"],
     HOW + "The indicator's witness is compared with the counting characterisation of the median (proved equivalent in DESIGN.md) for symbolic timestamps at 1, 3, 5 and 11 of them; that it is determined by the timestamps is derived from the "
     "extracted constraints, the comparison gadgets being replaced by their contracts, whose specifications are discharged in the same run.")

prop("C14", "The retargeted difficulty is exactly the scaled previous target",
     "The target computed after an epoch is the previous target times the time span divided by two weeks, rounded down, in exact integers; the span is constrained to lie strictly between half a week and eight weeks. Verifying a "
     "given target accepts the exact one and no other. No assignment of quotient, remainder, limb or carry wires yields a different target.",
     "every previous target below 2^224, every time span and every assignment of the prover's wires",
     "Tests run two real retargets and one multiple; a wrong constant, an unconstrained constant wire, a missing bound or a remainder out of range changes the outcome only for other spans or a dishonest prover.",
     [DIF, BN], [("computing the target", DIF + ": calculate_difficulty_update"), ("verifying a target", DIF + ": verify_difficulty_update"), ("modular multiplication", BN + ": mult_mod")],
     ["retarget", "diff_verify", "bn_from_num_*"],
     HOW + "Previous target, span, quotient and remainder are symbols; that the limbs are those of the previous target, the bounds of the span and of the remainder, and the division identity over the integers are derived from the extracted constraints.")

prop("C15", "A header step carries the chain state forward exactly",
     "After a step the ten newer timestamps have moved up unchanged and the header's follows them; the counter is one more, or zero after 2015; the start of the epoch is kept, and replaced by the header's timestamp when the counter was "
     "zero; the total work has grown by the maximum target over the header's target, rounded down. The first state is the one after block 123455. No assignment of the auxiliary wires yields another state.",
     "every header, every state, every counter from 0 to 2015 and every assignment of the prover's wires",
     "The one test of a step runs a single real header in the middle of an epoch; the ends of an epoch, other targets and every dishonest assignment are unreached.",
     [HDR], [("state update", HDR + ": BlockHeader::synthesize, section 6"), ("work", HDR + ": BlockHeader::synthesize, section 4"), ("initial state", HDR + ": initial_z_i_scalars, new_blocks, arity")],
     ["step_carry_*", "epoch_carry_*", "step_arity", "initial_state", "new_blocks"],
     HOW + "The header's 80 bytes and the sixteen state elements are symbols; the outputs are compared with the specified successor state for a counter inside an epoch and for zero, and each output relation is derived from the extracted "
     "constraints for every choice of header bits, with the equality, range, median and retarget gadgets replaced by their contracts, whose specifications are discharged in the same run.")

prop("C16", "A header step accepts exactly the headers that obey the consensus checks",
     "Whatever the prover does, a satisfied step has the header's previous-hash bytes equal to the last hash, a new hash that is the header's double SHA-256 read as a little-endian number and below the target, a target that is the one encoded in the "
     "header, a timestamp later than the median of the last eleven, and a target equal to the previous one, or, in the first block of an epoch, to the previous one scaled by the epoch's time span and rounded to compact form. A header that obeys all of this is accepted.",
     "every header, every state, every target exponent from 21 to 29 and every assignment of the prover's wires",
     "The one test of a step accepts one real header; it refuses none, so that a check whose result is never enforced, a byte order mistaken in one field or a wire left to the prover passes.",
     [HDR, MED, DIF], [("link and hash", HDR + ": BlockHeader::synthesize, sections 1 and 2"), ("timestamp", HDR + ": BlockHeader::synthesize, section 3"), ("target", HDR + ": BlockHeader::synthesize, section 5"),
                       ("packing of header bytes", HDR + ": enforce_packed")],
     ["step_check_*", "epoch_check_*", "step_link"],
     HOW + "SHA-256 is a function symbol. Each check is a consequence to be derived from the extracted constraints, for every choice of the 640 header bits, at the exponents listed; acceptance is decided by evaluating the constraints at the honest witness, which is proved for "
     "most and tested by random interpretation for those that depend on the hash.")

prop("C21", "Well-formedness and minimum-size assertions hold exactly as named",
     "Asserting a big natural well-formed bounds every limb by the limb width; asserting full bits forces the top bit of the top limb to one; asserting a minimum number of bits refuses every smaller number and accepts every "
     "number of that size; decomposing yields exactly the bits of all limbs.",
     "every limb value, limb count and width, and every assignment of the bit wires",
     "No test calls these assertions with a number that must be refused.",
     [BN], [("assertions", BN + ": assert_well_formed, enforce_full_bits, enforce_min_bits"), ("bits", BN + ": decompose")],
     ["bn_well_formed_*", "bn_full_bits_*", "bn_min_bits_*", "bn_decompose_*", "large_well_formed", "large_well_formed_wide", "large_full_bits", "large_decompose", "large_decompose_wide"],
     HOW + "At the sizes listed, the bounds are derived from the extracted constraints; the honest digits are shown to satisfy them for all limb values.")

prop("C22", "Public exposure publishes every wire of a gadget, in order",
     "Making a number, a big natural or another gadget public adds one public input for each of its wires in order, each constrained to equal that wire; the list of numbers of a gadget names the same wires, and an allocated "
     "copy of a number, or a number made from an allocated one, equals it.",
     "every gadget, every number of wires and every assignment of them",
     "No test reads a public input back; an unconstrained or reordered one changes no honest run.",
     [GAD, BN, NUM], [("public inputs", GAD + ": inputize, as_nums"), ("big naturals", BN + ": BigNat::inputize"), ("numbers", NUM + ": as_allocated_num")],
     ["gadget_inputize", "gadget_as_nums", "bn_inputize_*", "large_inputize", "num_as_allocated", "num_from_allocated", "num_alloc", "num_new"],
     HOW + "Each public input's equality with its wire is derived from the extracted constraints.")

prop("C18", "Wires and constraints of a gadget have distinct names",
     "Within one constraint system no two wires, constraints or scopes made by a gadget have the same name, for every size, so that no synthesis aborts on a name clash.",
     "every gadget and every size",
     "The test constraint system panics on a clash, but only for the sizes and combinations that tests synthesise.",
     [NUM, BIT, BN, POLY, MED], [("namespaces", "src/util, src/mp, src/btc_validation")],
     "all",
     HOW + "The namespace paths of the extracted wires and constraints are unfolded at the sizes listed and compared pairwise.",
     only=["O7"])

prop("C19", "Conversions between integers and field elements are exact and checked",
     "Converting a field element to an integer yields its canonical representative; converting an integer to a field element succeeds exactly for non-negative integers below the modulus and yields the element it represents. "
     "Converting a machine word to a field element, and back a field element below two to the sixty-fourth, loses nothing.",
     "every integer, every field element and every machine word",
     "Each conversion is tested on the number four.",
     [CONV], [("integer conversions", CONV + ": f_to_nat, nat_to_f, usize_to_f, f_to_usize")],
     ["f_to_nat", "nat_to_f", "nat_to_f_*", "usize_to_f", "f_to_usize"],
     HOW + "The result is compared with the specified integer or element for a symbolic argument; the refusal of integers that do not fit is decided on negative ones symbolically and on the integers about the modulus and its multiples.",
     observe_at=["the value returned"])

prop("C20", "A lazily computed value is computed once, when it is first asked for",
     "Making a lazy value runs nothing; asking for it runs its function once and yields the result, and asking again, of the cell or of any copy of it, yields the same without running anything. A cell made from a value yields that value.",
     "every function, every value and every history of requests",
     "The lazy cell has no test of its own.",
     [LAZY], [("lazy cell", LAZY + ": LazyCell::new, force, borrow, From, Clone")],
     ["lazy_*"],
     HOW + "The function is an uninterpreted symbol whose calls are counted; creation, first and second requests, copies and cells made from values are analysed in sequence.",
     observe_at=["the value returned and the number of runs of the function"], over=("inputs", "histories"))

prop("C17", "A component that fails makes the whole fail",
     "When any component that a gadget uses cannot be synthesised, because a value is missing or a constraint system refuses, the gadget itself returns an error or aborts: it never returns success with the component's constraints "
     "or witness left out.",
     "every gadget and every call in it that can fail, at each point of a run",
     "No test makes a component fail: constraint systems used in tests never refuse, and every honest value is present. An error that is dropped leaves constraints out and a circuit that checks less.",
     [NUM, BIT, BN, POLY, GAD, MED, DIF, HDR], [("error propagation", "every call of src/util, src/mp and src/btc_validation that returns Result<_, SynthesisError>")],
     ["fits_in_bits", "num_decompose", "num_as_allocated", "num_alloc", "num_is_equal", "bit_alloc", "bit_from_sapling", "constrain_value",
      "alloc_from_limbs", "alloc_from_limbs_default", "alloc_from_nat", "recompose", "width_agreement", "bignat_mux", "bn_gadget_alloc", "alloc_product",
      "bn_decompose_3_w4", "bn_equal_3_3_8", "bn_equal_4_2_8", "bn_equal_2_4_8", "bn_is_equal_3_3_8", "bn_is_equal_3_1_8", "bn_from_num_3_w8", "bn_from_num_2_w64", "bn_full_bits_3_w16",
      "bn_min_bits_3_w4_9", "bn_well_formed_3_w16", "bn_inputize_3_w16", "carried_3_3_w4_900_15", "carried_2_4_w8_255_255", "regroup_7_7_w32_70000000000000000_ffffffff",
      "sub_2_3_w8", "sub_3_2_w8", "min_2_w8_1", "mult_2_2_w8", "mult_1_2_w32", "mult_mod_2_2_2_w8", "mult_mod_2_2_2_w8_min13", "red_mod_3_2_w8", "divides_1_2_w8", "divides_3_6_w64",
      "assert_product_mod_2_2_2_w8", "gadget_assert_equal", "gadget_inputize", "gadget_mux", "gadget_switch", "mux_tree_2", "equals", "less_than", "leq",
      "median_is_3", "median_is_11", "median_of_3", "median_of_11", "retarget", "diff_verify", "step_fail_*"],
     HOW + "At each call that can return a synthesis error the analysis takes it to return one, one call site at a time, and follows the run: the gadget must end in an error or an abort on every path that reaches the site.",
     observe_at=["the result of the gadget"], over=("inputs", "fault_sequences"), only=["O9"], shallow=True)

prop("C23", "Every reachable chain state is within the bounds the checks rely on",
     "In the first state, and in every state a satisfied step leads to from a state within the bounds, whatever the prover does: the hash is below 2^224 and below the target, the target below 2^227, each timestamp and the start of the epoch "
     "below 2^32, the counter below 2016, and the total work grows by less than 2^64 a step. So no comparison, subtraction or packing of a later step sees a value out of the range it is sound for.",
     "every header, every number of steps and every assignment of the prover's wires",
     "The one test of a step runs a single step. A state element that can grow, wrap around or be left to the prover is harmless for one step and breaks the soundness of a check several steps later.",
     [HDR], [("state update", HDR + ": BlockHeader::synthesize, section 6"), ("header fields", HDR + ": BlockHeader::synthesize, sections 1 and 2"), ("initial state", HDR + ": initial_z_i_scalars")],
     ["step_bounds", "initial_state"],
     HOW + "The bounds are an invariant: the first state satisfies it, and the bounds of each element of the next state are derived from the extracted constraints and the bounds of the last.",
     over=("inputs", "histories"))
