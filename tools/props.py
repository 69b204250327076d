HOOKS = ["d4b1181", "57fba96"]
ML = "src/arithmetic/multilinear_polynomial.rs"; VP = "src/arithmetic/virtual_polynomial.rs"; AU = "src/arithmetic/util.rs"
SC = "src/subroutines/poly_iop/sum_check"; ZC = "src/subroutines/poly_iop/zero_check/mod.rs"
TR = "src/transcript/mod.rs"
prop("P01", "Multilinear evaluation, variable fixing and merging are exact",
 "Evaluating a multilinear polynomial at any point, or fixing any number of its first or last variables, agrees with the unique multilinear extension of its table; evaluating in one go and fixing step by step give the same result. Merging several polynomials gives one whose extra variables select the originals in order and is zero on the unused selectors. Points or merges of the wrong size are refused.",
 ["inputs"], "every table, every point and every split of the variables, at each size",
 "Tests compare two code paths on a few random tables; an index or ordering error that coincides on the sampled shape, or a wrong refusal, is not seen.",
 [ML, AU], [("evaluate_opt / fix_variables", ML), ("fix_last_variables", ML), ("merge_polynomials", ML)], BASE)
prop("P02", "Virtual polynomials behave as the sum of products they denote",
 "A virtual polynomial built from products, additions and multiplications evaluates, at every point, to the arithmetic expression it was built from, and its materialised table is that expression on the hypercube. Its declared degree bounds every product, shared factors are stored once without changing the value, and operations that are refused leave it unchanged. The samplers return the claimed sum (or vanish on the hypercube).",
 ["inputs", "histories"], "all tables and coefficients, over sequences of add/multiply operations with shared and repeated factors",
 "Tests sample random polynomials with random seeds and never mix refused operations or shared factors between operands.",
 [VP], [("add_mle_list", VP), ("mul_by_mle", VP), ("Add", VP), ("build_f_hat", VP), ("rand / rand_zero", VP)], BASE)
prop("P03", "Equality polynomial, index maps and permutation tables are correct",
 "The equality polynomial is 1 exactly when two hypercube points coincide and its table, its closed form and its multilinear extension agree at every point. Bit decompositions and index maps are mutually inverse, and identity and random permutation tables are permutations of the full index range split in order.",
 ["inputs", "configurations"], "all points of the field, all indices, all outcomes of the random source",
 "Tests use a handful of random points; ordering mistakes (first versus last variable) can cancel and a shuffle that loses entries needs specific draws.",
 [VP, AU, ML], [("build_eq_x_r_vec / eq_eval", VP), ("identity_permutation / random_permutation", ML), ("bit_decompose / get_index", AU)], BASE)
prop("P04", "An honest sumcheck proof is accepted and its subclaim is right",
 "For every polynomial the prover's messages are the true partial sums, the extracted sum is the sum over the hypercube, the verifier accepts, and the value it is left to check is the polynomial's value at the challenges. Prover and verifier end with identical transcripts, and the same proof is refused for any other claimed sum.",
 ["inputs"], "all tables, coefficients and challenges for each product shape",
 "Tests run random polynomials of a few shapes; a wrong message can go unnoticed when its effect vanishes for the shapes sampled.",
 [SC+"/prover.rs", SC+"/verifier.rs", SC+"/mod.rs"], [("prove_round_and_update_state", SC+"/prover.rs"), ("check_and_generate_subclaim", SC+"/verifier.rs")], RO, hook="construct and read round messages")
prop("P05", "The sumcheck verifier accepts only consistent proofs of the true sum",
 "Whatever messages a prover sends, acceptance implies that every round adds up to the previous claim, that each challenge depends on the statement's shape (variables and degree) and on everything sent before it, and, if the final evaluation claim is true, that the claimed sum is the true sum. Messages of the wrong length and missing rounds are refused, and interpolation at a challenge is exact for every degree the verifier supports.",
 ["inputs"], "all messages and claimed sums (chosen adaptively to the challenges already seen) and all challenges",
 "Tests only run honest proofs, which never exercise a rejection; soundness quantifies over every dishonest prover.",
 [SC+"/verifier.rs", SC+"/mod.rs"], [("round consistency and subclaim", SC+"/verifier.rs"), ("interpolate_uni_poly", SC+"/verifier.rs"), ("transcript of messages", SC+"/verifier.rs")], RO, hook="construct and read round messages")
prop("P06", "Zero checks accept exactly polynomials that vanish on the hypercube",
 "A polynomial that is zero on the hypercube has an accepted proof whose remaining claim is correct; no proof is accepted, with a true remaining claim, for one that is not. The challenge point is fixed by the transcript before the first message and differs from the sumcheck challenges.",
 ["inputs"], "all polynomials, prover messages and challenges at each size",
 "Tests try a few random vanishing and non-vanishing polynomials with the honest prover only.",
 [ZC, VP], [("zero check prove / verify", ZC), ("build_f_hat", VP)], RO, hook="construct and read round messages")
prop("P07", "Every challenge depends on everything absorbed before it",
 "Two transcripts with the same sequence of operations and values produce the same challenges; changing, dropping, adding or reordering any absorbed value, label or earlier draw changes every later challenge. Distinct draws are distinct challenges.",
 ["inputs", "histories"], "all absorbed values, over operation histories and their single-step variations",
 "Tests check only that prover and verifier agree, which also holds for a transcript that ignores what it is given.",
 [TR], [("append_* and challenge draws", TR)], RO)
KZ = "src/subroutines/pcs/multilinear_kzg"
prop("P08", "Commitments and openings of multilinear polynomials are correct",
 "The parameters published for each size are consistent with one secret point, trimming keeps the part that belongs to the smaller size, a commitment is the polynomial at that point, and commitments are linear and distinguish polynomials. An honest opening carries the polynomial's value and is accepted, for every polynomial size a key supports, and not with another value or another polynomial's commitment. Requests beyond the parameters or with a point of the wrong length are refused.",
 ["inputs", "configurations"], "all polynomials, points and secret parameters, for every size, trimming and polynomial size within the bounds",
 "Tests open random polynomials at full size with one parameter set; smaller polynomials under a larger key, constants and refusals are hardly reached.",
 [KZ+"/mod.rs", KZ+"/srs.rs", KZ+"/util.rs"], [("commit / open / verify", KZ+"/mod.rs"), ("parameter generation and trimming", KZ+"/srs.rs")], AGM)
prop("P09", "No accepted opening carries a wrong value",
 "Whatever proof elements are sent, an opening accepted for a polynomial's commitment carries the polynomial's value at the point, also for points that leave out unused leading variables and for proofs with missing or extra elements. A commitment built in any way from the published parameters cannot be opened to two values at one point.",
 ["inputs"], "all polynomials, points, values and all proofs an algebraic adversary can form",
 "Tests verify honest proofs only; soundness quantifies over every dishonest proof.",
 [KZ+"/mod.rs"], [("pairing check", KZ+"/mod.rs verify_internal")], AGM)
prop("P10", "Batch openings are accepted exactly for true values",
 "Opening any number of polynomials at shared or distinct points yields an accepted proof that carries the true values and leaves both transcripts equal. Whatever proof is sent, acceptance implies that every carried value is its polynomial's value at its point; batches whose commitments, points and values differ in number are refused.",
 ["inputs", "configurations"], "all polynomials, points, sharing patterns, values, challenges and adversarial proofs, for batches of one to several polynomials",
 "One test opens one batch of random polynomials at distinct points with the honest prover.",
 [KZ+"/batching.rs"], [("multi_open_internal", KZ+"/batching.rs"), ("batch_verify_internal", KZ+"/batching.rs")], AGM, hook="construct batch proofs")
IO = "src/zksql_poly_iop"; TK = "src/tracker"
import glob as _g
TP = TK+"/prover_tracker.rs"; TV = TK+"/verifier_tracker.rs"; TS = TK+"/tracker_structs.rs"
prop("P11", "Tracked polynomials denote the arithmetic they were built from",
 "A polynomial built through the prover's tracker by sums, differences, products and scalar operations evaluates, at every point and on the whole hypercube, to that arithmetic over the tracked tables; widening to more variables keeps the table, ignoring the added variables. Claims, widening and compilation preserve what every tracked polynomial denotes.",
 ["inputs", "histories"], "all tables, scalars and points, over sequences of operations and widenings",
 "Tests combine two or three random polynomials in a fixed way.",
 [TP], [("add/sub/mul_polys, add/mul_scalar", TP), ("evaluations / evaluate_at", TP), ("equalize_mat_poly_nv", TP)], RO, hook="reach the tracker module")
prop("P12", "The verifier's virtual commitments mirror the prover's polynomials",
 "When prover and verifier perform the same steps, they assign the same identifiers, keep the same transcript and draw the same challenges, each of which depends on every commitment made before it, and every virtual commitment, given true openings, evaluates to the value of the prover's polynomial with that identifier, also after widening on either side.",
 ["inputs", "histories"], "all tables, openings, points and challenges, over sequences of tracker operations",
 "Tests check a few operations at a random point with the same closure order.",
 [TV, TP], [("virtual commitment closures", TV), ("increase_nv_front / increase_nv_back", TV), ("transfer of commitments", TV)], RO, hook="reach the tracker module")
prop("P13", "Compiled proofs of true claims are accepted, of false claims are not",
 "A set of true sum claims and zero claims over tracked polynomials, of equal or different numbers of variables, compiles to a proof that the mirrored verifier accepts, leaving equal transcripts. A compiled proof is refused when a claimed sum, a zero claim or a commitment does not hold.",
 ["inputs", "configurations"], "all tables, claimed sums and challenges for each mix of claims and sizes",
 "Tests compile a few random claim sets, all of them true.",
 [TP, TV], [("compile_proof", TP), ("verify_claims", TV)], RO, hook="reach the tracker module")
prop("P14", "An accepted compiled proof carries true openings and true claims",
 "Whatever proof is sent, acceptance by the verifier implies that every opened value is the committed polynomial's value at the opening point and, given the sumcheck's final evaluation claim, that every sum claim and zero claim holds. Claimed sums are fixed before the challenges that combine them.",
 ["inputs"], "all proofs, claimed sums, openings and challenges for each mix of claims",
 "Tests never send a dishonest proof.",
 [TV, TP], [("verify_claims", TV), ("claims batching", TV), ("claimed sums in the transcript", TP)], RO, hook="reach the tracker module")

def gp(*dirs):
    return [IO + "/" + d for d in dirs]
GN = RO + " Soundness runs the real verifier on a proof whose every commitment and claimed sum is arbitrary and assumes the claims it derives to be true (P13/P14 decide that step); commitments are binding (P08-P10). Fractional sums over random challenges are split by poles, exact up to Schwartz-Zippel. Input selectors are 0/1 and the range bag holds 0..2^r-1, as the gadgets' callers must establish."
GQ = ["inputs"]
GT = "all tables, selectors, dishonest proofs and challenges at each size"
MT = IO + "/bag_multitool/bag_multitool.rs"; EQF = IO + "/bag_eq/bag_eq.rs"; SUM = IO + "/bag_sum/bag_sum.rs"; INC = IO + "/bag_inclusion/bag_inclusion.rs"
NZ = IO + "/bag_no_zeros/mod.rs"; SV = IO + "/selector_valid/selector_valid.rs"; PP = IO + "/bag_presc_perm/bag_presc_perm.rs"; SO = IO + "/bag_sort/bag_sort.rs"
SP = IO + "/bag_supp/bag_supp.rs"; BD = IO + "/bag_disjoint/bag_disjoint.rs"; SD = IO + "/set_disjoint/set_disjoint.rs"
CP = IO + "/cross_product/cross_product.rs"; IT = IO + "/index_transform/index_transform.rs"; ITU = IO + "/index_transform/utils.rs"
FJ = IO + "/final_join_one_to_many/final_join_one_to_many.rs"; FJU = IO + "/final_join_one_to_many/utils.rs"; JR = IO + "/join_reduction/join_reduction.rs"; JRU = IO + "/join_reduction/utils.rs"
GB = IO + "/group_by/group_by.rs"; LMR = IO + "/util/intermed_bag_calc.rs"; MC = IO + "/util/multiplicity_count.rs"
SUF = IO + "/bag_supp/utils.rs"; BDF = IO + "/bag_disjoint/utils.rs"; INF = IO + "/bag_inclusion/utils.rs"
HK = "reach the gadgets and the tracker"
WHY = "Tests run the honest prover on one or two fixed tables and a couple of wrong ones; soundness quantifies over every dishonest proof, and completeness over every table, including repeated values, empty selections and unequal sizes."
prop("P15", "Multiset equality and sums are accepted exactly when they hold",
 "Bags with equal multisets of selected values (weighted by multiplicities, in any order, any split over several bags and any padding) have an honest proof whose claims are all true and which the verifier mirrors. Conversely, if the verifier's claims are true for any proof whatever, both sides give every value the same total weight; likewise for one bag being the sum of two.",
 GQ, GT, WHY, [MT, EQF, SUM], [("BagMultitoolIOP", MT), ("BagEqIOP", EQF), ("BagSumIOP", SUM)], GN, hook=HK)
prop("P16", "Inclusion of one bag in another is accepted exactly when it holds",
 "If every selected value of a bag is selected in another, the computed multiplicities make an honest proof with true claims that the verifier mirrors. If the verifier's claims are true for any proof, every selected value of the first bag is selected in the second, and caller-supplied multiplicities count the occurrences.",
 GQ, GT, WHY, [INC, INF], [("BagInclusionIOP", INC), ("calc_bag_inclusion_advice", INF)], GN, hook=HK)
prop("P17", "No-zeros and selector checks decide exactly those facts",
 "The no-zeros gadget's claims can be true only if no entry with a non-zero selector is zero, and an honest proof exists whenever that holds, for arbitrary field selectors. The selector gadget's claims are true exactly for selectors that are 0 or 1 everywhere.",
 GQ, GT, WHY, [NZ, SV], [("BagNoZerosIOP", NZ), ("SelectorValidIOP", SV)], GN, hook=HK)
prop("P18", "A prescribed permutation is accepted exactly when it was applied",
 "For every permutation, the honest proof that a bag is another in the prescribed order has true claims and is mirrored. Whatever the proof, true claims imply the second bag's i-th entry is the first's entry at the i-th prescribed position. Bags of different sizes are refused.",
 GQ, GT, WHY, [PP], [("BagPrescPermIOP", PP)], GN, hook=HK)
prop("P19", "Sortedness is accepted exactly for bags that increase within range",
 "An honest proof exists with true claims for every bag that starts anywhere and whose steps stay within the range, strictly positive after selected entries. Whatever the proof, true claims imply that every step lies in the range and that a selected entry is smaller than its successor.",
 GQ, GT, WHY, [SO], [("BagStrictSortIOP", SO)], GN, hook=HK)
prop("P20", "A support is accepted exactly when it holds each value once",
 "If a strictly sorted set holds exactly the selected values of a bag, there is an honest proof with true claims that the verifier mirrors. Whatever the proof, true claims imply that the support contains every selected value of the bag, nothing else, and each once; supplied multiplicities count the occurrences.",
 GQ, GT, WHY, [SP, SUF], [("BagSuppIOP", SP)], GN, hook=HK)
prop("P21", "Disjointness is accepted exactly for bags with no common value",
 "Two bags, or two sets, without a common selected value have an honest proof with true claims that the verifier mirrors. Whatever the proof and its advice, true claims imply that no value is selected in both and, for sets, that neither contains a value twice.",
 GQ, GT, WHY, [BD, SD, BDF], [("BagDisjointIOP", BD), ("SetDisjointIOP", SD)], GN, hook=HK)
prop("P22", "Union, difference and intersection results are what they claim",
 "For sets and their true union, difference or intersection the honest proof has true claims and is mirrored. Whatever the proof, true claims imply that the union holds exactly the values of either set once, the difference exactly those only in the first, the intersection exactly those in both.",
 GQ, GT, WHY, gp("set_union/set_union.rs", "set_diff/set_diff.rs", "set_intersect/set_intersect.rs"),
 [("SetUnionIOP", IO + "/set_union/set_union.rs"), ("SetDiffIOP", IO + "/set_diff/set_diff.rs"), ("SetIntersectIOP", IO + "/set_intersect/set_intersect.rs")], GN, hook=HK)
prop("P23", "Products, index transforms and joins carry the right rows",
 "A cross product holds every pair of rows of both tables, selected when both are. A proven index transform's selected rows are whole selected rows of the source table, column by column. A one-to-many join keeps the second table's rows and attaches to each selected one a whole selected row of the first with the same key; honest joins verify, and a selected key without match is refused.",
 ["inputs", "configurations"], "all tables, selectors, dishonest proofs and challenges for several numbers of rows and columns", WHY,
 [CP, IT, ITU, FJ, FJU], [("CrossProductIOP", CP), ("IndexTransformIOP / row aggregation", ITU), ("FinalJoinOneToManyIOP", FJ)], GN, hook=HK)
prop("P24", "Join reduction drops exactly the rows without a partner",
 "For any two key columns the computed selectors mark exactly the selected rows whose key is not selected in the other table, and give an honest proof with true claims that is mirrored. Whatever the proof, true claims imply that the two result selectors are boolean and mark exactly those rows.",
 GQ, GT, WHY, [JR, JRU], [("JoinReductionIOP", JR), ("calc_join_reduction_lr_sel_advice", JRU)], GN, hook=HK)
prop("P25", "Group-by results list each group once with its aggregates",
 "For any table the honest group-by has true claims and is mirrored. Whatever the proof, if its claims are true the result lists, under a boolean selector, exactly the grouping values of selected rows, each once, with the number of selected rows and the sum of the aggregated column over them.",
 GQ, GT, WHY, [GB], [("GroupByIOP", GB)], GN, hook=HK)
prop("P26", "The prover's computed splits and advice are correct for all inputs",
 "Splitting two bags or sets into left, common and right parts keeps every selected value with its multiplicity in exactly the right part, commits the parts, and stays within their sizes. Support, disjointness, inclusion, join-reduction and join-index advice are what the gadgets need for every selection, order and repetition of values; unmatched joins are refused.",
 GQ, "all values (any order and coincidences) and selections at each size",
 "Tests split one pair of sorted bags; unsorted input, repeated values at the ends and exhausted sides are not reached.",
 [LMR, MC, SUF, BDF, INF, JRU, FJU], [("bag_lmr_split / multiplicity split", LMR), ("support advice", SUF), ("disjointness advice", BDF), ("inclusion advice", INF), ("join indices", FJU)], BASE, hook=HK)

WHOLE = [TP, TV, TS, IO, KZ, SC]
WM = [("gadgets on both sides", IO), ("compile_proof", TP), ("set_compiled_proof / transfer / verify_claims", TV)]
WN = RO + " The whole pipeline runs: commitments, the gadget on the prover's side, claim compilation, sumcheck, openings, transfer, the gadget on the verifier's side, claim verification; with the ideal commitment scheme and with the KZG scheme (trapdoors as independent transcendentals). Input selectors are 0/1 and the range bag holds 0..2^r-1."
prop("P27", "A query proof of a true statement is accepted from start to end",
 "For every table that satisfies a gadget's relation (equality, sum, inclusion, no zeros, selector, permutation, sortedness, support, disjointness, union, difference, intersection, product, transform, join, group-by), committing, proving, compiling, transferring and verifying ends with an accepted proof, the same number of results on both sides and equal transcripts.",
 ["inputs", "configurations"], "all tables and challenges at each size, for each gadget and both commitment schemes",
 "Tests run the whole pipeline on one or two fixed tables per gadget, so repeated values, empty selections, unequal sizes and unequal numbers of variables between claims are not reached.",
 WHOLE, WM, WN, hook=HK)
prop("P28", "The library's own prover cannot prove a false query statement",
 "For every table that violates a gadget's relation, running the library's prover, compiler and verifier on it ends in a refusal by one of them: no accepted proof states a wrong result.",
 ["inputs", "configurations"], "all tables and challenges at each size, for each gadget and both commitment schemes",
 "Tests try one or two wrong tables per gadget; a statement that is false in an untested way is proved by the same code.",
 WHOLE, WM, WN, hook=HK)
prop("P29", "Gadgets proved one after another keep their meaning",
 "Several gadgets proved in sequence on one tracker, sharing inputs and using each other's results, have an honest proof whose claims are all true and which the verifier mirrors; whatever the proof, true claims imply every one of the relations, so a chain of equalities, of sorting and inclusion, or of a join or product and checks on it, states what its parts state.",
 ["inputs", "histories"], "all tables, selectors, dishonest proofs and challenges at each size, for several sequences",
 "Tests run each gadget alone on a fresh tracker; state shared between gadgets (identifiers, challenges, claims) is never exercised in sequence.",
 [TP, TV, IO], [("claims of several gadgets", TP), ("claims of several gadgets", TV)], GN, hook=HK)
