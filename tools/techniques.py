EX="Every description within the bounds stated in the evidence file is compiled by the real code and judged by an independent oracle; nothing is sampled. "
TR="Assumes that behaviours outside the bounds follow the same patterns (small scope); trusts the renderer of descriptions, the oracle and the Go toolchain. In process executions are cross checked with the real program, and violations are reported only when the real program shows them five times."
def t(id,tech,note): T[id]=(tech,EX+note+" "+TR)
t("C01","explicit exhaustive enumeration of descriptions on the real compiler, bit disjointness invariant","Depth 4 over 47 functionalities on an 8 bit bus, deeper for gaps, depth 2-3 on 9 other bus widths, regular large descriptions of up to 257 functionalities.")
t("C02","explicit exhaustive enumeration of functionalities and constructor arguments, geometry oracle","All single functionalities with width up to three registers, all pairs, all legal calls of access constructors within bounds, regular large descriptions with arrays of up to 1024 items.")
t("C03","explicit exhaustive enumeration of descriptions and block trees, size invariants","Depth 3 over 47 functionalities, types used a few times, trees of blocks up to three levels, all align variants, regular large descriptions and trees, sizes and counts up to 2^63.")
t("C04","explicit exhaustive enumeration of block trees, address space invariants","Trees of blocks up to three levels and four siblings with own sizes 0-9, counts 1-3, align variants, regular trees of up to 12 levels and 33 siblings.")
t("C05","explicit exhaustive enumeration of descriptions, read and write effect model","Depth 4 over 33 functionalities, depth 8 over the alphabet sharing registers, regular large descriptions.")
t("C06","explicit exhaustive enumeration of param and return lists, packing reference model","All lists up to 3 items over widths around multiples of the bus width, 6 bus widths, all sequences of procs and streams up to 4, lists of up to 64 items.")
t("C07","explicit exhaustive enumeration of type chains and property placements, property resolution model","All 13 base types, chains up to 3 types (4 in thorough), every assignment of every property to a level, every property set twice, chains of 5 and 8 types (up to 20) with pairs of properties, 8 placements of types.")
t("C08","explicit exhaustive enumeration of parameter and argument lists and of sequences of uses, substitution reference model","All argument lists for up to 3 parameters, all legal argument expressions in chains of two parametrized types in 9 placements, all sequences of up to 4 uses of 11 kinds, lists of up to 11 (33) parameters, chains of up to 8 (20) types.")
t("C09","explicit exhaustive enumeration of constant placements over scopes and of reference graphs, lexical scope reference model","Two names over four scopes in 9 scope structures, all reference graphs of 3 main and 2 imported constants, all pairs of 35 values in 7 places, up to 32 nested scopes, up to 129 constants.")
t("C10","explicit exhaustive enumeration of expressions, exact big number reference evaluator","Flat expressions up to 5 operands (6 in thorough), trees of 3 operators, boundary values, all kinds of operands, periodic expressions of up to 48 operands, nesting of up to 100.")
t("C11","explicit exhaustive enumeration of properties, values and placements, legality reference model","All base types and properties with about 190 values in 7 placements over 3 levels, all pairs of properties over levels, all widths up to 72 with values around limits.")
t("C12","explicit exhaustive enumeration of compositions over type chains, composition reference model","All parent and child pairs, all sibling pairs over 3 levels, groups up to 4, streams and procs up to 5, all package level pairs over three packages, bodies of up to 27 functionalities.")
t("C13","explicit exhaustive enumeration of values over widths and of bit strings, exact big number reference model","All widths up to 72 with all values around the limits of each, wide ones to 4200, all bit strings up to a length, all exported bit string operations.")
t("C14","explicit exhaustive enumeration of ranges and their placements, exact width reference","All upper bounds up to 4200 and around all powers of two, all pairs of such bounds, lists up to 4 pairs, regular ones up to 17 (40), 11 placements, all queries of exported range types.")
t("C15","explicit exhaustive enumeration of short strings and token sequences, reference tokenizer","All strings up to 4 characters over 33, all sequences of 3 of 85 lexemes with all white space, all layouts of 4 lines, all literals up to a length, names in 10 places, all properties with all neighbours, lexemes of all lengths to a limit.")
t("C16","explicit exhaustive enumeration of error classes, placements and edits, marked template oracle","Over 500 hand marked classes of errors in up to 15 placements with 10 x 7 preceding texts, illegal bytes, spaces, indentation and tokens at all positions of 2 descriptions using the whole grammar, errors in far lines and columns.")
t("C17","explicit exhaustive enumeration of lexeme sequences, edits of a corpus and reference graphs on the real compiler, termination and crash monitor","All sequences of up to 3 of 60 lexemes in 17 contexts, all truncations and single edits of descriptions using the whole grammar, all small graphs of types, constants and packages, extreme values, depths and sizes. Termination is decided by a 60 s limit.")
t("C18","explicit exhaustive enumeration of layout rewritings on the real compiler, metamorphic oracle (equal output)","All single rewritings and their combinations at all places of descriptions using the whole grammar, all distributions over files, all orders of 4 of 13 kinds of functionalities, pairs of rewritings, descriptions using types against the ones without types, 23 illegal descriptions.")
t("C19","explicit exhaustive enumeration of sequences of comment lines and elements on the real compiler, line based reference model","All sequences of up to 5 lines or elements of 13 kinds in 3 bodies and of 4 of 10 kinds at the top level, all comment texts up to 3 of 14 characters, all pairs of functionalities in all parents with 9 x 9 forms of documentation, types in packages and files.")
t("C20","stateless model checking of the real compiler: controlled scheduler and map orders with a deviation bound, race detector, exhaustive histories of compilations","Source is instrumented automatically from the current tree. Up to 2 (3 in thorough) deviations from the default schedule and orders of iterations over maps, up to 1 (2 in thorough) with the race detector, 24 descriptions with up to 5 packages; all sequences of up to 3 of 35 compilations in one process.")
t("C21","explicit exhaustive enumeration of descriptions and their single edits on the real compiler, reference geometry and pairwise comparison of IDs","All bus widths up to 80 (200 in thorough), names ID and TIMESTAMP in all places and types, all single edits of 90 fields with up to 65 values in 6 places pairwise, all multisets of up to 3 functionalities with and without the timestamp. IDs are compared pairwise only for buses at least 32 bit wide.")
t("C22","explicit exhaustive enumeration of argument sequences on the real program, reference argument parser","All sequences of up to 3 of 15 arguments, of 4 of 10, (of 5 of 8 in thorough), all sequences of up to 4 items before the main file, 36 descriptions with 12 sets of options, 20 forms of the main path with 12 of the constants path, failing outputs. A flag at the place of an optional value is a flag.")
t("C23","explicit exhaustive enumeration of directory trees, import paths and placements of imports on the real program, reference model of the file system","All trees of up to 3 (4 in thorough) of 34 pieces with 10 settings of FBDPATH, 53 import paths with and without alias over all sets of up to 3 (4) of 10 package directories, all uses of 24 symbols in 4 files with all placements of up to 3 (9) of 9 imports.")
t("C24","explicit exhaustive enumeration of groups, delays, arrays and block trees on the real compiler, every query of the exported types compared with the description","All groups of up to 5 (7) of config, mask, static and status and up to 4 (5) of all variants of irq in four places, groups of up to 40 (70) with one different at each position, all delays, all pairs of kinds with names and array sizes, small trees of blocks, all contents of the container of constants.")
t("C25","explicit exhaustive enumeration of sets of properties, texts, constants and bounds on the real compiler, strict reader of the output and expected values from the description","All sets of properties with several values of 13 base types in all parents, all characters to U+017F and others, all sets of up to 3 of 20 constants in 5 places, all pairs of bounds around powers of two up to 2^63.")
