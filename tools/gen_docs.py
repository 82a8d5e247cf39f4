#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (kept in one place so they stay in step)."""
import json, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
I = "include/MTToolBox/"
P = []


def prop(id, title, statement, over, text, why, files, mech, note, technique, observe=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or []),
                  note=note, technique=technique))


prop("C01", "minpoly() returns the exact minimal polynomial of the chosen output bit",
     "For every GF(2)-linear generator, state and output bit position, minpoly() returns exactly the minimal polynomial of the sequence of that bit (bit 0 = LSB by default), whatever the polynomial argument held before. This holds for any state size argument that is at least the linear complexity of the sequence, and for the default (0 = bitSize()). It works for every supported output word, including a 128-bit one.",
     ["inputs", "programs"], "all linear generators (any transition and output matrix, zero and degenerate states included), bit positions, output word types and admissible state sizes",
     "The tests compute it for one fixed XORSHIFT/TinyMT and only look at derived values (degree, irreducibility); degenerate sequences, other bit positions, tight state sizes and other word widths are never reached.",
     [I + "period.hpp", I + "util.hpp"], [("draws 2*size bits and calls NTL MinPolySeq", I + "period.hpp:minpoly"), ("bit extraction by position", I + "util.hpp:getBitOfPos")],
     "compared with our own Berlekamp-Massey on the sequence of a copy; state dimension up to 1300", "property-based testing: generated linear generators, differential against an independent Berlekamp-Massey")

prop("C02", "Irreducibility and primitivity decisions agree with the mathematics",
     "Every decision function (irreducible, maximal period by Mersenne exponent, by a list of prime factors, by a shipped factor table, or through an AlgorithmPrimitivity object, asked once or repeatedly) says yes exactly for polynomials that are irreducible, respectively primitive, of the requested degree. Every shipped factor table lists exactly the prime factors of 2^n-1. isMexp is right for every number up to 20996011 and accepts no non-exponent above.",
     ["inputs", "configurations"], "all polynomials of degree >= 2, requested degrees, complete prime lists in any order, every shipped table, all 32-bit candidate exponents",
     "The tests ask about a handful of polynomials; a wrong answer needs e.g. an irreducible polynomial whose order misses exactly one particular prime of one particular table.",
     [I + "period.hpp", I + "AlgorithmPrimitivity.hpp", "lib/period.cpp", "lib/AlgorithmPrimitivity.cpp"],
     [("x^(2^n)=x and small-degree tests", "lib/period.cpp:isIrreducible"), ("power test for every prime factor", "lib/period.cpp:isPrime"), ("factor tables", "lib/AlgorithmPrimitivity.cpp"), ("list of exponents", "lib/period.cpp:isMexp")],
     "polynomials with constructed status: minimal polynomials of the p-th power of a primitive root for every prime p of every table; tables verified with GMP; degrees up to 1279", "property-based testing: constructed polynomials of known order, differential against independent GF(2) arithmetic and GMP")

prop("C03", "Extraction of the large irreducible factor is exact",
     "hasFactorOfDegree(poly, d) says yes exactly when poly has an irreducible factor of degree d, and then leaves exactly that factor in poly. Small factors, powers of x, repeated factors and other factors whose degrees add up to d do not confuse it.",
     ["inputs"], "all polynomials of degree < 2d (so at most one such factor), d >= 2",
     "One test polynomial with one factor; repeated small factors, products of degree d and a polynomial of too small degree are not sampled.",
     [I + "period.hpp", "lib/period.cpp"], [("removal of small factors by gcd with x^(2^i)-x", "lib/period.cpp:hasFactorOfDegree")],
     "truth from our own distinct-degree factorisation; degree up to 1279", "property-based testing: polynomials built from chosen factors, differential against independent distinct-degree factorisation")

prop("C04", "Equidistribution of reducible generators is that of the irreducible component",
     "For a reducible generator and the irreducible factor of degree mexp, every dimension of equidistribution k(v) and the total defect returned are those of the orbit projected on the component of that factor, with mexp as the dimension. The generator passed in is left unchanged.",
     ["inputs", "programs"], "all reducible generators whose start state has the factor, all output widths, word types 32, 64 and 128 bits",
     "Tests run one fixed generator; arbitrary small factors, output structures and widths are not sampled.",
     [I + "AlgorithmReducibleEquidistribution.hpp", I + "ReducibleGenerator.hpp", I + "AlgorithmReducibleRecursionSearch.hpp", I + "AlgorithmEquidistribution.hpp"],
     [("annihilates the quotient part before the lattice reduction", I + "AlgorithmReducibleEquidistribution.hpp")],
     "k(v) from its rank definition on the orbit of q(T)x computed independently", "property-based testing: generated reducible generators, k(v) by rank of the projected orbit")

prop("C05", "k(v) equals the dimension of equidistribution by definition, for every width",
     "For every GF(2)-linear generator and start state, the values k(v) computed for v = 1..L most significant bits (or least significant ones when output is reversed), singly or all at once, equal the largest k such that k consecutive v-bit outputs are linearly independent functions on the span of the orbit. The returned defects are the sums of floor(n/v)-k(v) for the dimension n given (bitSize() by default); if some k(v) exceeds floor(n/v), n is wrong and a logic_error is thrown instead. The generator passed in, its state and its tempering are left unchanged.",
     ["inputs", "programs"], "all linear generators including degenerate, non-invertible and low-rank ones, start states, widths, word types, right and wrong dimensions",
     "Tests compare a few published totals for two fixed generators; the lattice reduction has many branches (zero vectors, ties, carries over width reduction) which depend on the generator.",
     [I + "AlgorithmEquidistribution.hpp", I + "EquidistributionCalculatable.hpp"], [("PIS lattice reduction", I + "AlgorithmEquidistribution.hpp:get_equidist_main"), ("lattice basis with dependency check", I + "AlgorithmEquidistribution.hpp:linear_generator_vector")],
     "k(v) from its rank definition by Gaussian elimination; dimension up to 900 (thorough)", "property-based testing: generated linear generators, k(v) by rank definition")

prop("C06", "annihilate() applies the polynomial; the characteristic polynomial is the LCM",
     "annihilate(g, p) replaces the state x of g by p(T)x, T being its transition, and changes nothing else of g (parameters, tempering, parity value, output direction). calcCharacteristicPolynomial returns the least common multiple of the minimal polynomials of all output bits, whether it starts from 1 or from a divisor of the result.",
     ["inputs", "programs"], "all linear generators, states, polynomials (zero, constants, degree above the state size included), word types",
     "No test calls annihilate or checks the characteristic polynomial of a generator whose bits have different minimal polynomials.",
     [I + "ReducibleGenerator.hpp", I + "AlgorithmReducibleRecursionSearch.hpp", I + "util.hpp"], [("accumulation over a clone", I + "ReducibleGenerator.hpp:annihilate"), ("repeated minpoly and annihilation", I + "AlgorithmReducibleRecursionSearch.hpp:calcCharacteristicPolynomial"), ("LCM", I + "util.hpp:LCM")],
     "p(T)x and the LCM by independent arithmetic", "property-based testing: generated linear generators, metamorphic p(T)x model and independent LCM")

prop("C07", "The parity check vector certifies the period 2^mexp-1 for every state",
     "For a reducible generator f*q, searchParity returns a non-zero vector c such that every state whose parity word has inner product 1 with c has a non-zero component for f, i.e. period a multiple of 2^mexp-1; equivalently c is orthogonal to the parity words of all of Ker q. The vector is also given to the generator, whose state stays as it was. Where no such vector exists none is returned or set: the search throws.",
     ["inputs", "programs"], "all reducible generators whose parity word observes Ker q, singular transitions included; RMT64Search itself, word types 32, 64, 128 bits, start states",
     "The existing test prints a vector for one generator and does not examine Ker q.",
     [I + "AlgorithmCalculateParity.hpp", I + "ReducibleGenerator.hpp"], [("basis of the kernel from unit states", I + "AlgorithmCalculateParity.hpp:searchParity"), ("Gaussian elimination for the orthogonal vector", I + "AlgorithmCalculateParity.hpp:search_parity_check_vector")],
     "Ker q recomputed as the image of f(T); assumes the parity word observes Ker q", "property-based testing: generated reducible generators, invariant over an independently computed kernel basis")

prop("C08", "Parameter search returns the first valid candidate and nothing else",
     "start(n) of AlgorithmRecursionSearch tries candidates in the order of the parameter source and stops with true at the first whose minimal polynomial has full degree and passes the primitivity test; it returns false exactly when n candidates failed. The polynomial, count, parameter string and generator left are those of that candidate, the count accumulates over calls, and exhaustion of the parameter source is passed on as an exception.",
     ["histories", "programs", "inputs"], "all histories of start() calls, candidate families (valid, reducible, not primitive, degenerate), parameter sources, primitivity tests",
     "One search with one generator and seed; sequences of calls, failing calls and exhausted sources are untested.",
     [I + "AlgorithmRecursionSearch.hpp", I + "RecursionSearchable.hpp", I + "ParameterGenerator.hpp"], [("search loop", I + "AlgorithmRecursionSearch.hpp:start")],
     "outcome predicted by own Berlekamp-Massey, irreducibility and order", "stateful property-based testing: histories of start() against a reference search")

prop("C09", "Reducible parameter search accepts exactly the first valid candidate",
     "start(n) of AlgorithmReducibleRecursionSearch tries candidates in order and stops with true at the first whose minimal polynomial has an irreducible factor of degree mexp; it returns false exactly when n candidates failed. Polynomial, irreducible factor, count, parameter string and generator left are those of that candidate, over any history of calls and with exhaustion of the source passed on.",
     ["histories", "programs", "inputs"], "all histories of start() calls and families of reducible candidates with bitSize() < 2*mexp",
     "Tests search one fixed generator once.",
     [I + "AlgorithmReducibleRecursionSearch.hpp", "lib/period.cpp"], [("search loop", I + "AlgorithmReducibleRecursionSearch.hpp:start"), ("factor test", "lib/period.cpp:hasFactorOfDegree")],
     "outcome predicted by own factorisation", "stateful property-based testing: histories of start() against a reference search")

prop("C10", "Search plus tempering reports the generator it leaves",
     "search() of the combined algorithms (irreducible and reducible) leaves the first valid candidate, runs the LSB tempering search before the MSB one unless told not to, and reports the characteristic polynomial (or irreducible factor and parity vector), weight and total defect of exactly the tempered generator left behind. The parity vector given to the generator is orthogonal to the kernel of the other factor, the output direction is reset, and nothing is printed when verbose is false.",
     ["programs", "inputs", "configurations"], "all candidate families, tempering algorithms, option combinations (verbose, no_lsb, one or two tempering algorithms), parameter sources",
     "One generator, seed and option set; the one-algorithm overload of the reducible class was never even instantiated.",
     [I + "AlgorithmRecursionAndTempering.hpp", I + "AlgorithmReducibleRT.hpp"], [("search then tempering then equidistribution", I + "AlgorithmRecursionAndTempering.hpp:search"), ("search, parity, annihilation, tempering, equidistribution", I + "AlgorithmReducibleRT.hpp:search")],
     "recording tempering algorithms; polynomial, weight, defect and kernel recomputed", "property-based testing: generated candidate families and options, reference model of the whole search")

prop("C11", "Partial bit pattern search makes the best choice block by block",
     "AlgorithmPartialBitPattern sets, for each block of bits and each parameter in turn, the pattern with the smallest total defect over all output widths, the one with more ones on ties, in MSB or (with reversed output) LSB direction. Bits outside the searched range keep their previous values, the tempering chosen is in effect (set up), the state is untouched and the output direction is reset, whether verbose or not.",
     ["inputs", "programs", "configurations"], "all tempered linear generators, earlier parameter values, template arguments (parameters, bits, step, direction), word types 32 and 64",
     "The test prints one result for one generator; no choice is compared with the alternatives.",
     [I + "AlgorithmPartialBitPattern.hpp", I + "TemperingCalculatable.hpp"], [("greedy search over patterns", I + "AlgorithmPartialBitPattern.hpp:search_best_temper"), ("mask of the block", I + "AlgorithmPartialBitPattern.hpp:make_mask")],
     "every pattern re-evaluated with the independent equidistribution", "property-based testing: generated tempered generators, exact reference search")

prop("C12", "Best-bits search keeps every best prefix and installs the best tempering",
     "AlgorithmBestBits examines, bit level by bit level from the MSB, all patterns of the current bits (and of the bits they reach by the given shifts) on top of all parameter sets that were best so far, keeps all with the smallest defect of the leading widths, and installs the first of the final best sets. Bits that would be shifted out are not set, generators that need setUpTempering() get it before each evaluation and at the end, and state and output direction are left as documented.",
     ["inputs", "programs", "configurations"], "one or two tempering parameters, shift values, limits up to the word width, all tempered linear generators",
     "The test prints one result for one generator whose setUpTempering() does nothing.",
     [I + "AlgorithmBestBits.hpp", I + "TemperingCalculatable.hpp"], [("level-by-level search", I + "AlgorithmBestBits.hpp:operator()"), ("patterns", I + "AlgorithmBestBits.hpp:make_pattern"), ("shifted-out bits", I + "AlgorithmBestBits.hpp:inRange")],
     "whole search recomputed with the independent equidistribution", "property-based testing: generated tempered generators, exact reference search")

prop("C13", "The linearity test accepts linear generators and rejects visible violations",
     "TestLinearity returns true for every GF(2)-linear generator with a correct add(). It returns false for a generator whose output, transition or add() breaks additivity within a few dozen outputs for practically all pairs of states, or whose add() does so for practically all states added to themselves. The tested generator is not changed and no clone is left behind.",
     ["programs", "inputs"], "linear generators of every kind; affine outputs, non-linear outputs or transitions, late deviations, deviations of one output, several wrong add() implementations; word types 32, 64, 128",
     "Tests feed two generators; kinds of non-linearity are not varied.",
     [I + "TestLinearity.hpp", I + "EquidistributionCalculatable.hpp"], [("g+g=0 and f(x)+f(y)=f(x+y)", I + "TestLinearity.hpp:operator()")],
     "non-linear cases are filtered so that 20 random pairs of states all show the violation within 40 outputs", "property-based testing: generated linear and mutated generators")

prop("C14", "MersenneTwister is MT19937 for every seed kind and draw history",
     "MersenneTwister produces the outputs of MT19937 with the standard initialisation by number (5489 by default) or by array, a string being the array of its characters (empty = {0}), for every mixture of draws and re-seedings. A 64-bit draw is two outputs, high half first.",
     ["histories", "inputs"], "all histories of construction, seeding (number, string, array of any length) and draws",
     "Tests compare the first outputs for two fixed seeds; wrap-around of the 1024-word buffer, long keys and re-seeding after draws are not reached.",
     [I + "MersenneTwister.hpp"], [("circular 1024-word buffer", I + "MersenneTwister.hpp:next"), ("array initialisation", I + "MersenneTwister.hpp:seed_array")],
     "own whole-array implementation, and std::mt19937 for number seeds", "stateful property-based testing: histories, differential against a reference MT19937 and std::mt19937")

prop("C15", "MersenneTwister64 is MT19937-64 for every seed kind and draw history",
     "MersenneTwister64 produces the outputs of MT19937-64 with the standard initialisation by number (19650218 by default) or by array, a string being the array of its characters (empty = {0}), for every mixture of draws and re-seedings. A 32-bit draw is the high half of one output.",
     ["histories", "inputs"], "all histories of construction, seeding (number, string, array of any length) and draws",
     "Tests compare the first outputs for two fixed seeds.",
     [I + "MersenneTwister64.hpp"], [("circular buffer modulo 312", I + "MersenneTwister64.hpp:next"), ("array initialisation", I + "MersenneTwister64.hpp:seed_array")],
     "own whole-array implementation, and std::mt19937_64 for number seeds", "stateful property-based testing: histories, differential against a reference MT19937-64 and std::mt19937_64")

prop("C16", "Sequential counts down to zero exactly once, then reports the end",
     "A Sequential yields start^mask, (start-1)^mask, ..., 0^mask and then throws underflow_error on every draw until it is seeded again, whichever draw method is used. Without a start it begins at the largest value, without arguments also with mask 0; copies continue independently from the same point.",
     ["histories", "inputs"], "all histories of construction, draws, seedings, copies, for counter types of 8 to 64 bits",
     "No test of Sequential exists.",
     [I + "Sequential.hpp"], [("countdown with end flag", I + "Sequential.hpp:next")],
     "counter model, memory pre-filled with random bytes", "stateful property-based testing: histories against a counter model")

prop("C17", "Bit, word and polynomial helpers agree with their bit-by-bit definitions",
     "count_bit, reverse_bit, calc_1pos, bit get/set, GF(2) vector conversion, floor2p, get_range (input reduced modulo the length of the range), fill_table, LCM and print_binary, and the shifts, masks and logical operators of the two 128-bit word types (sfmtdc and dSFMTdc), give for every input the value of their definition. They do not change their inputs.",
     ["inputs"], "all words of 16, 32, 64 and 128 bits, bit positions and shifts inside the word, tables, polynomials",
     "No tests of the helpers exist; a wrong carry or mask shows on a few words or one shift value only.",
     [I + "util.hpp", "samples/sfmtdc/w128.hpp", "samples/dSFMTdc/w128.hpp"], [("SWAR helpers", I + "util.hpp"), ("128-bit word", "samples/sfmtdc/w128.hpp")],
     "bit-by-bit recomputation", "property-based testing: random and shaped words, bit-by-bit reference")


prop("C18", "Generator classes of the dynamic creators behave as their recursions",
     "tinymt32, mtgp32, RMT64Search, MT32Search (samples) and the C functions of xorshift128 produce, for every parameter set, seed and history, exactly the outputs of their published recursion and tempering. setUpParam gives usable parameters carrying the id. seed, setZero, isZero, setOneBit, bit-limited and reversed output, setTemperingPattern/setUpTempering, parity value, parameter string, copy, clone and add (a linear sum, wherever the circular buffers stand) keep to that model, and instances never affect each other. Seeding by key array gives a non-zero state that depends on the key alone.",
     ["histories", "inputs", "configurations"], "all histories over several instances, parameters, ids, seeds, Mersenne exponents; keys of 1 word or more; add() between instances with the same parameters",
     "No test touches these classes; errors show only after particular combinations (sums at different buffer positions, high state bits, delayed tempering).",
     ["samples/TinyMTDC/tinymt32search.hpp", "samples/MTGPDC/MTGP32search.hpp", "samples/MTGPDC/mtgp_param.h", "samples/RMT/rmt64.hpp", "samples/MTDC/mt2.cpp", "samples/XORSHIFT/xorshift128.c"],
     [("recursion and tempering", "samples/TinyMTDC/tinymt32search.hpp:next_state"), ("circular buffers", "samples/MTGPDC/MTGP32search.hpp:add"), ("one-bit states", "samples/RMT/rmt64.hpp:setOneBit"), ("key seeding", "samples/XORSHIFT/xorshift128.c:xorshift128_init_by_array")],
     "queue models of each recursion; one known finding: a copy of a reversed tinymt32 gives normal order", "stateful property-based testing: histories over several instances against models of the recursions")

prop("C19", "SFMT generator, certification and long-period component are exact",
     "The sfmt class follows the SFMT recursion for every parameter set, seed, start mode, weight mode and history of draws, copies, clones and adds; getParamString and setUpParam describe usable parameters. After periodCertification of a freshly seeded state the inner product of parity vector and state is 1: accepted states are untouched (returns 1), others get exactly one parity bit flipped (returns 0). anni() projects the state to the component of the irreducible factor of degree mexp, and with the parity vector from searchParity every certified state has the period 2^mexp-1.",
     ["histories", "inputs", "configurations"], "all histories over several instances, parameters (shifts 1-31, byte shifts 1-7, any masks), seeds, parity vectors; for the component: invertible transitions with one irreducible factor of degree mexp whose component bit 0 of the output shows",
     "No test uses the class; the period guarantee concerns every seed of every parameter set and a wrong start or weight mode only shows in the first words after a switch.",
     ["samples/sfmtdc/sfmtsearch.hpp", "samples/sfmtdc/Annihilate.cpp", "samples/sfmtdc/w128.hpp", I + "AlgorithmCalculateParity.hpp"],
     [("recursion and output modes", "samples/sfmtdc/sfmtsearch.hpp:generate"), ("certification", "samples/sfmtdc/sfmtsearch.hpp:periodCertification"), ("projection", "samples/sfmtdc/Annihilate.cpp:anni")],
     "queue model of the recursion; minimal polynomial, factor and projections by independent linear algebra, 2 to 5 words (7 thorough)", "stateful property-based testing: histories against a model of SFMT, plus algebraic oracle for generated parameters")

prop("C20", "dSFMT generator, fix point and period certification are exact",
     "The dSFMT class follows the dSFMT recursion for every parameter set, seed, exponent prefix, start mode, weight mode and history of draws, copies, clones, adds and constant vectors; isZero, equals and the parameter string tell the truth; setUpParam gives usable parameters. getLCMPoly() gives the minimal polynomial of the recursion, anni() projects the state to the long-period component, calc_fixpoint() gives the lung of that component's fix point under the affine recursion. periodCertification() flips exactly one parity bit when needed, and with the searched parity vector and fix point every certified state has period 2^mexp-1.",
     ["histories", "inputs", "configurations"], "all histories over several instances, parameters (sl1 1-51, 52-bit masks), seeds, prefixes, parity vectors and fix points; for the component: one irreducible factor of degree mexp, and bit 0 of the lung shows the whole recursion",
     "No test uses the class; the period guarantee concerns every seed of every parameter set, and the fix point only matters for states next to it.",
     ["samples/dSFMTdc/dSFMTsearch.hpp", "samples/dSFMTdc/Annihilate.cpp", "samples/dSFMTdc/calc_fixpoint.cpp", "samples/dSFMTdc/w128.hpp", I + "AlgorithmCalculateParity.hpp"],
     [("recursion and output modes", "samples/dSFMTdc/dSFMTsearch.hpp:generate"), ("certification", "samples/dSFMTdc/dSFMTsearch.hpp:periodCertification"), ("projection", "samples/dSFMTdc/Annihilate.cpp:anni"), ("fix point", "samples/dSFMTdc/calc_fixpoint.cpp:calc_fixpoint")],
     "queue model of the recursion; minimal polynomial, factor, projections and fix point by independent linear algebra, 2 to 5 words (7 thorough)", "stateful property-based testing: histories against a model of dSFMT, plus algebraic oracle for generated parameters")

_lanes = "For every v the reported k(v) is min over the starting words s of max over the weights w of E*K - (E - w), where K is the largest number of whole blocks, taken from w words after s, whose words' top v bits are linearly independent over the orbit of the given state. So k(v) never exceeds the true dimension of equidistribution of the word stream, and is less than one block below it. The sum returned is that of floor(mexp/v) - k(v); a logic_error is thrown instead when some k(v) exceeds floor(mexp/v), and only for a mexp below the dimension of the orbit. The generator passed in is not modified, and nothing outside the first bit_len entries is written."
prop("C21", "Equidistribution of the 32- and 64-bit words of a 128-bit generator is exact",
     "calc_SIMD_equidistribution(): a block has E = 4 words of 32 bits or E = 2 words of 64 bits, read from the top or (lsb) from the low end. " + _lanes,
     ["inputs", "configurations"], "all linear generators of 128-bit blocks with a transition invertible on the orbit, all states, word sizes, bit lengths up to the word, both bit orders, every bound mexp (too small ones are refused)",
     "k(v) is a statement about every state of the generator; no test computes one for a SIMD generator and a wrong value still looks plausible.",
     ["samples/sfmtdc/AlgorithmSIMDEquidistribution.hpp"],
     [("k(v) over start and weight modes", "samples/sfmtdc/AlgorithmSIMDEquidistribution.hpp:calc_SIMD_equidistribution"), ("lattice reduction", "samples/sfmtdc/AlgorithmSIMDEquidistribution.hpp:get_equidist_main")],
     "rank definition on the word stream by independent elimination, orbit dimension up to 260 (400 thorough) generic, 256-384 for sfmt", "property-based testing against the rank definition")
prop("C22", "Equidistribution of the 52-bit fractions of a dSFMT is exact",
     "calc_dSFMT_equidistribution(): a block has E = 2 words, of which the low 52 bits count, from bit 51 down. " + _lanes,
     ["inputs", "configurations"], "all linear generators of two 52-bit words per block with a transition invertible on the orbit, all states, bit lengths 1 to 52, every bound mexp (too small ones are refused)",
     "k(v) is a statement about every state of the generator; no test computes one for dSFMT and a wrong value still looks plausible.",
     ["samples/dSFMTdc/AlgorithmDSFMTEquidistribution.hpp"],
     [("k(v) over start and weight modes", "samples/dSFMTdc/AlgorithmDSFMTEquidistribution.hpp:calc_dSFMT_equidistribution"), ("lattice reduction", "samples/dSFMTdc/AlgorithmDSFMTEquidistribution.hpp:get_equidist_main")],
     "rank definition on the word stream by independent elimination, orbit dimension up to 260 (400 thorough) generic, 336-544 for dSFMT", "property-based testing against the rank definition")

prop("C23", "Dynamic creators tinymt32dc, mt2, rmt64dc and MTGP32dc print true parameters",
     "For every seed, start number, id, count, bound, exponent and option spelling, each parameter line printed describes a generator of period 2^mexp-1 (irreducible polynomial of that degree, or such a factor for RMT with a parity vector orthogonal to the other part) carrying the id asked for; the characteristic polynomial, weight and total dimension defect printed are those of that generator. Exactly count lines follow the header (tinymt32dc -a: exactly the good numbers from start to 0 whose defect is at most the bound). The same seed, written in decimal or hexadecimal, gives the same lines: a smaller count is a prefix, a bound only selects, verbose only adds, -f FILE redirects all to the file. Every exponent the usage message of a program offers is accepted; arguments outside the documented range, unknown options, options without their value, numbers too long for their type and what is no number where one is due, are refused.",
     ["inputs", "configurations"], "all documented options of the four programs; seeds, starts, ids; exponents 521, 607 (thorough 1279), 127 for TinyMT, 3217 for MTGP32dc",
     "No test runs the creators; a wrong line still looks like a parameter set, and its period and defect need an independent computation.",
     ["samples/TinyMTDC/tinymt32dc.cpp", "samples/TinyMTDC/parse_opt.cpp", "samples/TinyMTDC/tinymt32search.hpp", "samples/MTDC/mt2.cpp", "samples/RMT/rmt64dc.cpp", "samples/RMT/rmt64.hpp", "samples/MTGPDC/MTGP32dc.cpp", I + "AlgorithmRecursionAndTempering.hpp", I + "AlgorithmReducibleRT.hpp"],
     [("tinymt32 search", "samples/TinyMTDC/tinymt32dc.cpp:search"), ("MT search", "samples/MTDC/mt2.cpp:main"), ("RMT search", "samples/RMT/rmt64dc.cpp:search"), ("MTGP search", "samples/MTGPDC/MTGP32dc.cpp:indexed_search")],
     "each printed line rebuilt as an independent model: minimal polynomial, irreducibility, ranks, inner products; relations between runs", "property-based testing of the programs as black boxes: generated options, model oracle, metamorphic relations between runs")
prop("C24", "Dynamic creators sfmtdc, sfmtdcfixed and dSFMTdc print true parameters",
     "For every seed, count, fixed shift and option spelling, each line printed describes a recursion whose characteristic polynomial has an irreducible factor of degree mexp; the parity vector is orthogonal to every state without long-period part, the fix point (dSFMT) is that of the long-period component (up to the lung of a state without long-period part, which the certification does not see, where the lung's lowest bit does not show the whole recursion), and the defects delta32, delta64, delta128 (delta52) are those of that component. sfmtdcfixed and --fixed keep the shifts asked for. Exactly count lines follow the header, fewer only when the search reaches its limit of candidates and says so; the same seed, written in decimal or hexadecimal, gives the same lines: a smaller count is a prefix, verbose only adds, -f FILE redirects all to the file. Every exponent the usage message of a program offers is accepted; arguments outside the documented range, unknown options, options without their value, numbers too long for their type and what is no number where one is due, are refused.",
     ["inputs", "configurations"], "all documented options of the three programs; seeds, odd fixed shifts; exponents 607 and 521 (thorough 1279)",
     "No test runs the creators; a wrong line still looks like a parameter set, and its parity vector only fails for rare seeds.",
     ["samples/sfmtdc/sfmtdc.cpp", "samples/sfmtdc/sfmtdcfixed.cpp", "samples/sfmtdc/sfmtsearch.hpp", "samples/sfmtdc/Annihilate.cpp", "samples/sfmtdc/AlgorithmSIMDEquidistribution.hpp", "samples/dSFMTdc/dSFMTdc.cpp", "samples/dSFMTdc/dSFMTsearch.hpp", "samples/dSFMTdc/calc_fixpoint.cpp"],
     [("SFMT search", "samples/sfmtdc/sfmtdc.cpp:search"), ("SFMT search with fixed shifts", "samples/sfmtdc/sfmtdcfixed.cpp:search"), ("dSFMT search", "samples/dSFMTdc/dSFMTdc.cpp:search")],
     "each printed line rebuilt as an independent model: factorisation, projections, parity image, affine fix point, ranks; relations between runs", "property-based testing of the programs as black boxes: generated options, model oracle, metamorphic relations between runs")

prop("C25", "Tools describing SFMT, dSFMT and RMT parameter lines print true numbers",
     "Given a parameter line, with or without what the creators print after it, each tool prints what is true of that recursion: calc_equidist the dimensions of equidistribution and total defects of the long-period component for every word size, from the top or with -r from the low end; test_period and calc_period the degree mexp in every start and weight mode; test_linearity that every bit is linear; calc_fixpoint a fix point of the long-period component; calc_parity a parity vector orthogonal to every state without long-period part; make_old_format the same parameters in the old layout. The seed changes none of it, -v only adds the tables, and a recursion without a factor of degree mexp, a missing parameter line, an unknown option and a seed that is no number are refused with a non-zero exit status. No run reads or writes outside its memory.",
     ["inputs", "configurations"], "all parameters of SFMT, dSFMT, RMT recursions of 2 or 3 words (RMT: small mexp) with exactly one irreducible factor of degree mexp visible in the observed bit, or none (refusal); documented options and seeds",
     "No test runs the tools; the numbers describe a state space of 2^mexp elements and a wrong one still looks plausible.",
     ["samples/sfmtdc/calc_equidist.cpp", "samples/sfmtdc/test_period.cpp", "samples/sfmtdc/test_linearity.cpp", "samples/dSFMTdc/calc_equidist.cpp", "samples/dSFMTdc/calc_fixpoint_main.cpp", "samples/dSFMTdc/calc_parity.cpp", "samples/RMT/calc_equidist.cpp", "samples/RMT/calc_period.cpp", "samples/dSFMTdc/calc_period.cpp", "samples/dSFMTdc/make_old_format.cpp"],
     [("SFMT table", "samples/sfmtdc/calc_equidist.cpp:main"), ("dSFMT fix point", "samples/dSFMTdc/calc_fixpoint.cpp:calc_fixpoint")],
     "each number recomputed by independent linear algebra on the orbit, degree up to about 440", "property-based testing of the programs as black boxes: generated parameter lines, model oracle")
prop("C26", "Enumerations and tables of the XORSHIFT and MT19937 samples are exact",
     "xorshift3 and xorshift4 print, counting down, exactly those shift parameters (of all 2^15 Marsaglia triples; of all 2^18 patterned triples) whose generator has period 2^128-1, each with its true total dimension defect. xorshift1, xorshift2, xorshift5 and mt1 print the true period and the true k(v), d(v) and total defect of their fixed generators; xorshift128 prints the outputs of its recursion.",
     ["inputs"], "all 32768 + 262144 parameter sets; the fixed generators of the other programs",
     "No test runs the programs; whether the list is complete needs a decision for each parameter set left out.",
     ["samples/XORSHIFT/xorshift-1.cpp", "samples/XORSHIFT/xorshift-2.cpp", "samples/XORSHIFT/xorshift-3.cpp", "samples/XORSHIFT/xorshift-4.cpp", "samples/XORSHIFT/xorshift-5.cpp", "samples/MTDC/mt1.cpp", I + "AlgorithmPrimitivity.hpp", I + "AlgorithmEquidistribution.hpp"],
     [("triples", "samples/XORSHIFT/xorshift-3.cpp:main"), ("patterns", "samples/XORSHIFT/xorshift-4.cpp:main")],
     "primitivity by own polynomial arithmetic and the factors of 2^128-1, defects by ranks; the MT19937 table is compared with the published one", "property-based testing: generated ranges of the enumeration decided by an independent model")

def main():
    with open(V / "properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
    m = dict(version=1, setup_cmd="python3 run.py --setup",
             checks=[dict(property=p["id"], quick_cmd="python3 run.py %s --tier quick" % p["id"], thorough_cmd="python3 run.py %s --tier thorough" % p["id"],
                          evidence_file="evidence/%s.json" % p["id"], technique=p["technique"], level="exploration",
                          level_note="Generated-input search, no proof: " + p["note"] + ". Trusts the harness' own GF(2) arithmetic, the compiler and NTL's basic polynomial container.") for p in P],
             not_applicable=[],
             notes="Every check compiles its harness against /repo's headers and library sources (not the build products), runs generated cases in forked workers under AddressSanitizer, shrinks a failure and writes a replay file: python3 run.py ID --replay FILE. No hooks in /repo are used. Known and repaired defects: known_findings.txt.")
    (V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")


main()
