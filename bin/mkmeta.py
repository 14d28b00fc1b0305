#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one list (run by hand after editing it)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/"
I = "src/zksql_poly_iop/"
T = "src/tracker/"


def P(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    return dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]},
                _tech=technique, _note=note)


TLC = "TLA+ (TLC) model + replay of its behaviours in the real prover and verifier"
GADGET_NOTE = ("TLC decides soundness/completeness of the gadget's reduction on every input of a small domain and on "
               "random larger ones; every printed behaviour is replayed through the real prover, compile_proof and verifier, "
               "whose verdict, claims and outputs must be the specified ones; so are runs in which the prover commits lies instead of its "
               "advice, all of which the verifier must reject. Bounded: columns of 2-16 rows, small integers and "
               "injective field embeddings of them.")

PROPS = [
 P("C01", "Tracked polynomials are the polynomials their construction says",
   "A polynomial obtained on the prover from committed columns by any sequence of add, subtract, multiply, add-scalar, multiply-scalar and variable-extension steps evaluates, at every point and over the whole hypercube, to the polynomial that sequence denotes, and reports that many variables. Reading evaluations, extending variables, copying a tracker and recording claims never change what any polynomial denotes, and a deep copy of a tracker evolves independently of the original. Extending variables repeats the rows of the polynomial.",
   ["programs", "inputs"], "every program of tracker operations over every set of columns, including reuse of results, zero/one scalars and mixed sizes",
   "The tests build a handful of fixed expressions; the denotation must hold for every expression DAG and every evaluation point.",
   [T+"prover_tracker.rs", T+"prover_wrapper.rs", T+"dmle_utils.rs"],
   [("virtual polynomial products and sums", T+"prover_tracker.rs: add_polys, sub_polys, mul_polys, add_scalar, mul_scalar"), ("variable extension", T+"prover_tracker.rs: increase_nv_front, increase_nv_back"), ("evaluation", T+"prover_tracker.rs: evaluate, evaluations")],
   "TLA+ denotational model (TLC) + replay of random operation programs", "Random operation programs generated by TLC with the denotation of every tracked object at boolean and non-boolean integer points; the real tracker must agree on each."),
 P("C02", "Prover and verifier trackers agree on every expression",
   "When the verifier mirrors the prover's operations on transferred commitments, each verifier-side object evaluates, at any point at which the committed columns are known, to the value of the corresponding prover-side polynomial, refers to the same identifier, and both sides derive the same transcript challenges. Sum and zero claims recorded by the two sides therefore speak about the same polynomials.",
   ["programs", "inputs", "histories"], "every program of tracker operations, challenges and transfers mirrored by the verifier",
   "Tests mirror a few short programs at random points, and never compare intermediate identifiers or extensions on long histories.",
   [T+"verifier_tracker.rs", T+"verifier_wrapper.rs", T+"prover_tracker.rs"],
   [("virtual commitments as closures", T+"verifier_tracker.rs"), ("lockstep ids", T+"verifier_tracker.rs: gen_id / transfer_prover_comm"), ("transcript", T+"verifier_wrapper.rs: get_and_append_challenge")],
   "TLA+ denotational model (TLC) + lockstep replay on both trackers", "Same programs as C01, mirrored on the verifier; identifiers, challenges and evaluations compared step by step."),
 P("C04", "Honest proofs of true claims are accepted",
   "For every set of committed columns of any mix of sizes, every combination of tracked expressions and true sum and zero claims on them, in any number and order, compiling a proof succeeds and a verifier that mirrors the construction accepts it. This holds with no claims of one kind, with repeated claims, and with constraint degrees above those of the committed columns.",
   ["programs", "inputs", "configurations"], "every program of operations, claims and gadget calls over columns of mixed sizes",
   "The existing tests use one size and one or two claims per proof; completeness must hold for every mixture.",
   [T+"prover_tracker.rs", T+"verifier_tracker.rs", T+"zero_check_utils.rs"],
   [("size equalisation", T+"prover_tracker.rs: equalize_mat_poly_nv / compile_proof"), ("claim batching", T+"prover_tracker.rs: batch_z_check_to_s_check, batch_s_check_claims"), ("verification", T+"verifier_tracker.rs: verify_claims")],
   "TLA+ program model (TLC) + end-to-end replay", "Random programs with true claims, and plans of several gadgets on shared and derived tables, generated by TLC; real prover/verifier must accept; mock and real KZG commitments."),
 P("C05", "False sum or zero claims are never accepted from a compiled proof",
   "If any zero claim is false at some row, or any sum claim the verifier records differs from the true sum of its polynomial, the run ends in rejection, however many true claims surround it and in whatever order and sizes they appear. A claim is never dropped, merged or cancelled against another one.",
   ["programs", "inputs", "histories"], "every program of operations and claims in which at least one claim is false, including claims whose errors cancel",
   "Tests reject single, grossly false claims; cancellation between claims, rare rows and mixed sizes are not reached.",
   [T+"prover_tracker.rs", T+"verifier_tracker.rs"],
   [("zero claims to sum claims with an eq factor", T+"prover_tracker.rs: batch_z_check_to_s_check"), ("random linear combination", T+"verifier_tracker.rs: batch_s_check_claims")],
   "TLA+ program model (TLC) + end-to-end replay", "TLC checks that the batched claim holds iff all claims do under Schwartz-Zippel sampling; programs with one or more false claims, including cancelling pairs, and plans of several gadgets of which one or more statements are false, are replayed."),
 P("C06", "A proof is bound to its commitments, claims and messages",
   "Changing any part of an accepted proof (a commitment, a claimed sum, any sumcheck round value, the number of variables or degree, the opening proof, or whether there is one) or verifying it against other claims or another history makes verification fail with an error. No such change makes the verifier panic or accept.",
   ["inputs", "fault_sequences"], "every single-component change of every proof, and the adversary's adaptive choices of later messages",
   "Tests verify only honestly generated, untouched proofs.",
   [T+"verifier_tracker.rs", S+"subroutines/poly_iop/sum_check/verifier.rs", S+"subroutines/pcs/multilinear_kzg/batching.rs"],
   [("verification of a compiled proof", T+"verifier_tracker.rs: verify_claims"), ("sumcheck verification", S+"subroutines/poly_iop/sum_check/verifier.rs"), ("batch opening", S+"subroutines/pcs/multilinear_kzg/batching.rs: batch_verify")],
   "TLA+ protocol model with an active adversary (TLC) + replay of its attacks", "TLC checks the ideal protocol against every tampering and adaptive move, shows that each safeguard is needed, and emits every attack of up to three changes with its verdict; each is replayed on real proofs (transparent and KZG commitments), together with cancelling-sums and fabricated-rounds provers. The missing final sumcheck check is a known finding."),
 P("C07", "Every message enters the transcript before later challenges",
   "Two transcripts produce the same sequence of challenges exactly when they absorbed the same sequence of messages under the same labels; changing, dropping, adding or reordering any absorbed message changes every later challenge. In compiled proofs this covers every commitment, every claimed sum and every round message, on the prover and on the verifier alike.",
   ["histories", "inputs"], "every sequence of absorb and challenge operations, and every position at which a message differs",
   "Tests only run both sides honestly, which agree even when a message is never absorbed.",
   [S+"transcript/mod.rs", T+"prover_tracker.rs", T+"verifier_tracker.rs", S+"subroutines/poly_iop/sum_check/mod.rs"],
   [("transcript", S+"transcript/mod.rs: append_*, get_and_append_challenge"), ("commitment absorption", T+"prover_tracker.rs: track_mat_poly_and_comm"), ("claimed sums", T+"prover_tracker.rs: compile_proof")],
   "TLA+ symbolic transcript model (TLC) + replay of transcript pairs", "The model's transcript is the free sequence of absorbed items; TLC enumerates operation sequences and single-point differences; the real challenges must agree/differ exactly as the model's."),
 P("C08", "Sumcheck accepts a claimed sum exactly when it is the true sum",
   "For every sum of products of multilinear polynomials, the prover's round messages are the partial sums of that polynomial under the challenges drawn so far, and the verifier accepts the true sum and rejects every other one and every altered message, leaving a residual claim equal to the polynomial at the challenge point. Malformed proofs (wrong number of rounds or evaluations) are errors, never panics or acceptances.",
   ["inputs", "histories", "fault_sequences"], "every polynomial shape (products, shared factors, degrees), every assignment, and every change of a message",
   "Tests use random honest polynomials of a few shapes and never altered messages; degree-dependent interpolation branches are not exercised.",
   [S+"subroutines/poly_iop/sum_check/mod.rs", S+"subroutines/poly_iop/sum_check/prover.rs", S+"subroutines/poly_iop/sum_check/verifier.rs"],
   [("round messages", S+"subroutines/poly_iop/sum_check/prover.rs: prove_round_and_update_state"), ("round checks and interpolation", S+"subroutines/poly_iop/sum_check/verifier.rs: check_and_generate_subclaim, interpolate_uni_poly")],
   "TLA+ sumcheck model over a prime field (TLC) + trace validation of real runs", "Runs of the real prover/verifier over small prime fields are recorded and checked step by step by TLC against the sumcheck specification, including tampered and malformed proofs."),
 P("C09", "Zerocheck accepts exactly the polynomials that vanish on the hypercube",
   "An honest zerocheck proof is accepted when the polynomial is zero at every row and rejected when it is non-zero at any row (up to the field-size sampling error), and the residual claim after acceptance is the polynomial's value at the returned point. Altered or malformed proofs are rejected with an error.",
   ["inputs", "fault_sequences"], "every polynomial, including ones that vanish everywhere but one row or whose rows cancel in the plain sum",
   "Tests use random polynomials that are zero or everywhere random, never zero-sum or single-row violations.",
   [S+"subroutines/poly_iop/zero_check/mod.rs", S+"arithmetic/virtual_polynomial.rs"],
   [("eq multiplier", S+"arithmetic/virtual_polynomial.rs: build_f_hat, build_eq_x_r"), ("verification", S+"subroutines/poly_iop/zero_check/mod.rs: verify")],
   "TLA+ zerocheck model over a prime field (TLC) + trace validation of real runs", "As C08, with the eq factor and the residual claim checked by TLC on recorded runs."),
 P("C10", "A KZG opening verifies exactly for the committed value",
   "For every multilinear polynomial, commitment and point, an opening proof made by the prover verifies with the polynomial's value and with no other value. It never verifies for a point or commitment at which the claimed value is false, nor with one quotient replaced, missing or added. Polynomials with fewer variables than the parameters are supported; inputs that do not fit (too many variables, wrong point length) are errors, and commitments are binding on the polynomial.",
   ["inputs", "fault_sequences", "configurations"], "every polynomial and point up to the parameter size and every change of value, point, commitment or proof",
   "Tests open random polynomials at random points and try one wrong value; boolean points, constants, and altered proofs are not reached.",
   [S+"subroutines/pcs/multilinear_kzg/mod.rs", S+"subroutines/pcs/multilinear_kzg/srs.rs"],
   [("open", S+"subroutines/pcs/multilinear_kzg/mod.rs: open_internal"), ("verify", S+"subroutines/pcs/multilinear_kzg/mod.rs: verify_internal"), ("parameters", S+"subroutines/pcs/multilinear_kzg/srs.rs: trim, gen_srs_for_testing")],
   "TLA+ algebraic model of KZG (TLC) + replay on real KZG", "TLC shows completeness, binding and uniqueness in the exponent over a small field (exhaustive for one variable, sampled for two) and generates commit/open/verify histories with substitutions; the real KZG must give the model's verdict on each (up to 5 variables)."),
 P("C11", "A batch opening verifies exactly when every single claim in it is true",
   "Opening any number of committed polynomials, each at its own point, in one batch verifies when every claimed evaluation is the true one, and fails when an evaluation, point, commitment or ordering is changed so that a claim becomes false or when one element of the proof is changed, even by a prover who chooses the claimed evaluations after seeing the commitments. Empty, mismatched or oversized batches are errors.",
   ["inputs", "fault_sequences", "configurations"], "every number of polynomials, repeated or distinct polynomials and points, and every single change",
   "Tests batch random polynomials with honest evaluations plus one wrong value.",
   [S+"subroutines/pcs/multilinear_kzg/batching.rs", S+"subroutines/pcs/structs.rs"],
   [("batch open", S+"subroutines/pcs/multilinear_kzg/batching.rs: multi_open_internal"), ("batch verify", S+"subroutines/pcs/multilinear_kzg/batching.rs: batch_verify_internal")],
   "TLA+ model of the batching identity (TLC) + replay on real KZG batches", "TLC checks the folding identities and that values fixed before t survive for at most Ell/P of the t (and that an adversary who sees t first always wins, a named deviation); batches of 1-9 claims with shared polynomials and points, every substitution and the adaptive adversary are replayed."),
 P("C12", "Polynomial arithmetic computes the polynomial it names",
   "Sums, products, partial evaluation, evaluation, materialisation, merging, equality polynomials, bit decomposition and point/index helpers of virtual and multilinear polynomials return exactly the values the mathematical definition gives, for every size, coefficient and point; sequential, parallel and optimised variants agree. Inputs of mismatching sizes are reported as errors.",
   ["inputs", "programs"], "every expression of virtual polynomials and every point, boolean or not",
   "Tests compare a few random instances with one another rather than with the definition.",
   [S+"arithmetic/virtual_polynomial.rs", S+"arithmetic/multilinear_polynomial.rs", S+"arithmetic/util.rs"],
   [("virtual polynomials", S+"arithmetic/virtual_polynomial.rs: add_mle_list, mul_by_mle, Add, evaluate, build_eq_x_r"), ("multilinear helpers", S+"arithmetic/multilinear_polynomial.rs: evaluate_opt, fix_variables, merge_polynomials"), ("utilities", S+"arithmetic/util.rs")],
   "TLA+ definition over a prime field (TLC) + replay", "TLC computes the defining value mod p for random expressions/points; the code over the same field must return it."),
 P("C13", "Bag lookups, equality and sums hold exactly as weighted multisets",
   "The multi-bag lookup argument accepts exactly when, for every value, its total weight (selector times multiplicity) over the left bags equals that over the right bags; bag equality and bag sum are its instances with all weights one. Inactive rows never count, and empty or mis-shaped argument lists are rejected.",
   ["inputs", "programs"], "all bags, selectors and multiplicities of any number, size and content",
   "Tests use one honest instance and one random perturbation per gadget.",
   [I+"bag_multitool/bag_multitool.rs", I+"bag_eq/bag_eq.rs", I+"bag_sum/bag_sum.rs"],
   [("log-derivative sums", I+"bag_multitool/bag_multitool.rs: prove/verify"), ("bag equality", I+"bag_eq/bag_eq.rs"), ("bag sum", I+"bag_sum/bag_sum.rs")], TLC, GADGET_NOTE),
 P("C14", "Bag inclusion holds exactly when every active value is in the super bag",
   "The inclusion argument is accepted when every value active in the included bag is active in the super bag, with whatever repetitions, sizes and order, and rejected when one active value is missing. With explicit multiplicities, it is accepted exactly when they are the number of occurrences each super value answers for.",
   ["inputs"], "all pairs of bags with any selectors, and all multiplicity columns",
   "Tests use a few fixed random bags.",
   [I+"bag_inclusion/bag_inclusion.rs", I+"bag_inclusion/utils.rs"],
   [("multiplicities", I+"bag_inclusion/utils.rs"), ("prove/verify", I+"bag_inclusion/bag_inclusion.rs")], TLC, GADGET_NOTE),
 P("C15", "No-zeros and selector checks hold for active rows and all rows",
   "The no-zeros argument is accepted exactly when no active row of the bag is zero, whatever inactive rows hold. The selector check is accepted exactly when every entry of the column is 0 or 1.",
   ["inputs"], "all columns and selectors",
   "Tests use one column each.",
   [I+"bag_no_zeros/mod.rs", I+"selector_valid/selector_valid.rs"],
   [("inverse advice", I+"bag_no_zeros/mod.rs"), ("boolean constraint", I+"selector_valid/selector_valid.rs")], TLC, GADGET_NOTE),
 P("C16", "The prescribed-permutation check holds exactly for the given permutation",
   "The argument is accepted exactly when the second column is the first rearranged by the given permutation column and that column is a permutation of the row indices. Columns of different sizes are rejected.",
   ["inputs"], "all columns and all permutation columns, including ones with repeated or out-of-range indices",
   "Tests try a rotation and one wrong permutation.",
   [I+"bag_presc_perm/bag_presc_perm.rs"], [("index/value fingerprint", I+"bag_presc_perm/bag_presc_perm.rs")], TLC, GADGET_NOTE),
 P("C17", "The strict-sort check holds exactly for increasing active rows",
   "The strict-sort argument is accepted exactly when every step between neighbouring rows lies in the given range column and no active row equals its successor, so active rows are strictly increasing for a non-negative range. One wrong neighbour anywhere, including at the first and last rows, is rejected.",
   ["inputs"], "all columns, selectors and range columns",
   "Tests use one sorted and a few unsorted columns.",
   [I+"bag_sort/bag_sort.rs"], [("shifted column and difference bag", I+"bag_sort/bag_sort.rs")], TLC, GADGET_NOTE),
 P("C18", "A support is accepted exactly when it is the sorted set of active values",
   "The support argument is accepted exactly when the claimed support's active rows are the distinct active values of the bag in strictly increasing order. Missing, extra, repeated or unordered values are rejected; explicit multiplicities must be the true, non-zero counts.",
   ["inputs"], "all bags, candidate supports, multiplicities and ranges",
   "Tests use one bag.", [I+"bag_supp/bag_supp.rs", I+"bag_supp/utils.rs"], [("reduction", I+"bag_supp/bag_supp.rs")], TLC, GADGET_NOTE),
 P("C19", "Disjointness is accepted exactly when no active value is shared",
   "The bag-disjointness argument is accepted when the two bags share no active value and rejected when they share one; set disjointness also requires both sides to be free of duplicates. Differently sized bags, empty selections and values active only on one side's inactive rows are handled alike.",
   ["inputs"], "all pairs of bags and selectors whose values the range covers",
   "Tests use two random bags and one overlap.", [I+"bag_disjoint/bag_disjoint.rs", I+"bag_disjoint/utils.rs", I+"set_disjoint/set_disjoint.rs"],
   [("sorted joint support", I+"bag_disjoint/utils.rs"), ("multiplicity product", I+"bag_disjoint/bag_disjoint.rs"), ("sorted sum", I+"set_disjoint/set_disjoint.rs")], TLC, GADGET_NOTE),
 P("C20", "Set union, difference and intersection hold exactly for the true result",
   "Each set-operation argument is accepted when the supplied result is the true union, difference or intersection of the active values and rejected when a value is missing, extra or in the wrong part. Results are compared by active rows only.",
   ["inputs"], "all sets, candidate results and helper parts",
   "Tests use a handful of fixed sets and perturbations.",
   [I+"set_union/set_union.rs", I+"set_diff/set_diff.rs", I+"set_intersect/set_intersect.rs"],
   [("union", I+"set_union/set_union.rs"), ("difference", I+"set_diff/set_diff.rs"), ("intersection", I+"set_intersect/set_intersect.rs")], TLC, GADGET_NOTE),
 P("C21", "Index transform is accepted exactly when each output row is an input row",
   "The argument is accepted exactly when every active row of the output table equals, in all columns together, some active row of the input table. Rows mixed from several input rows, swapped columns or inactive rows are rejected.",
   ["inputs"], "all tables with any number of columns and selectors",
   "Tests use two columns of random data, where mixed rows collide with nothing.",
   [I+"index_transform/index_transform.rs", I+"index_transform/utils.rs"], [("row fingerprint", I+"index_transform/utils.rs")], TLC, GADGET_NOTE),
 P("C22", "The cross product contains every pair of rows exactly once",
   "The cross product of two tables has the columns of the first followed by those of the second, one row for every pair of rows, selected exactly when both rows are, on the prover and the verifier alike. Its columns can be used in further claims, which are decided as for any table.",
   ["inputs"], "all pairs of tables of any sizes and numbers of columns",
   "Tests use one shape with all rows active.", [I+"cross_product/cross_product.rs", I+"cross_product/utils.rs"],
   [("variable extension", I+"cross_product/cross_product.rs")], TLC, GADGET_NOTE),
 P("C23", "Join reduction is accepted exactly when unmatched rows are marked",
   "The argument is accepted exactly when both marker columns are boolean and mark precisely the active rows whose value has no active partner in the other bag. Marking a matched row, or leaving an unmatched one unmarked, on either side is rejected.",
   ["inputs"], "all pairs of bags, selectors and marker columns over a covered range",
   "Tests use one pair of bags.", [I+"join_reduction/join_reduction.rs", I+"join_reduction/utils.rs"],
   [("split bags", I+"join_reduction/join_reduction.rs")], TLC, GADGET_NOTE),
 P("C24", "One-to-many joins return each right row with its matching left row",
   "The join of a left table with unique keys and a right table whose active keys all occur in it is accepted and returns, for each active right row, the left row with the same key next to it; a missing key is rejected. Supplied left columns are accepted exactly when each active row is a real left row with the right row's key.",
   ["inputs"], "all tables, key columns, selectors and supplied columns",
   "Tests use one small join and a few perturbations.", [I+"final_join_one_to_many/final_join_one_to_many.rs", I+"final_join_one_to_many/utils.rs"],
   [("match columns", I+"final_join_one_to_many/utils.rs"), ("key equality and row inclusion", I+"final_join_one_to_many/final_join_one_to_many.rs")], TLC, GADGET_NOTE),
 P("C25", "GROUP BY is accepted exactly for the true groups, counts and sums",
   "A grouping is accepted exactly when its groups are the distinct active key values in increasing order, each group's count is the number of its active rows and each requested sum is the sum of that column over them. The returned table has the group keys, then one column per requested aggregate in the order requested.",
   ["inputs", "programs"], "all tables, key columns and lists of COUNT and SUM aggregates",
   "Tests use one table with one aggregate list.", [I+"group_by/group_by.rs"],
   [("support of the key column", I+"group_by/group_by.rs"), ("sum aggregates", I+"group_by/group_by.rs")], TLC, GADGET_NOTE),
 P("C26", "Advice helpers compute the multiset splits and multiplicities they name",
   "Every helper that prepares advice (multiplicities, left/middle/right splits, sorted sums and supports, disjoint-support columns, join selectors, joined columns) returns bags that satisfy the multiset equations it exists for, whatever the sizes, selectors and repetitions of its inputs. Inactive rows never contribute.",
   ["inputs"], "all bags and tables the helpers accept",
   "Tests print or compare a few fixed vectors.", [I+"util/intermed_bag_calc.rs", I+"util/multiplicity_count.rs", I+"bag_disjoint/utils.rs", I+"join_reduction/utils.rs"],
   [("splits", I+"util/intermed_bag_calc.rs"), ("multiplicities", I+"util/multiplicity_count.rs")],
   "TLA+ predicates (TLC) over recorded helper outputs", "Inputs generated by TLC, outputs recorded from the real helpers and checked against the specification's predicates by TLC."),
]


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    na = getattr(checks, "NOT_APPLICABLE", {})
    m = {
        "version": 1,
        "setup_cmd": "python3 bin/setup.py",
        "hooks": {"guard": "cfg(zksql_verif)", "enable": "RUSTFLAGS='--cfg zksql_verif' when building /verif/harness, which depends on /repo by path",
                  "source_commits": checks.HOOK_COMMITS},
        "checks": [],
        "not_applicable": [],
    }
    for p in PROPS:
        i = p["id"]
        if i in checks.CHECKS:
            m["checks"].append({"property": i, "quick_cmd": "python3 bin/check.py %s quick" % i, "thorough_cmd": "python3 bin/check.py %s thorough" % i,
                                "technique": p["_tech"], "level": "model_checking", "level_note": p["_note"], "evidence_file": "evidence/%s.json" % i})
        else:
            m["not_applicable"].append({"property": i, "reason": na.get(i, "specified; its check is still being built")})
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print(len(m["checks"]), "checks", len(m["not_applicable"]), "pending")


main()
