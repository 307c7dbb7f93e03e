#!/usr/bin/env python3
"""Writes properties.jsonl (run by hand; the output is committed)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    assert len(title)<=80,(id,len(title))
    assert statement.count('. ')<=2,(id,statement)
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe)))

GOLD="The golden tests sample about 40 fixed descriptions; "
p("C01","Register bits are never shared",
 "For every description which compiles, within each block (the main bus included) every bit of every register belongs to at most one item of at most one functionality, as given by the access information in the output (registers of procs and streams, irq and irq enable bits, ID and TIMESTAMP included).",
 ["programs"],"all descriptions: any number, kind, width, array size and order of functionalities, any bus width, any nesting",
 GOLD+"none of them checks disjointness and only a few make two functionalities share a register through a gap.",
 ["internal/reg/reg.go","internal/reg/status.go","internal/reg/config.go","internal/reg/static.go","internal/reg/irq.go","internal/gap/pool.go","pkg/fbdl/types/access.go"],
 [("gap pool hands each gap out once","internal/gap/pool.go"),("address counter advanced by register count","internal/reg/*.go")],["JSON output: Access of all functionalities"])
p("C02","Access information is self consistent and matches the declaration",
 "Every access in the output has item width and item count equal to the declared width and array size, register width equal to the bus width, and register count, start and end addresses, start and end bits and widths in the first and last register equal to those which follow from the documented meaning of its access type. Except for params and returns, an item not wider than the bus lies within one register, and a wider item starts from bit 0. The same holds for the exported access constructors called with legal arguments.",
 ["programs","inputs"],"all widths, array sizes, bus widths, start bits and kinds of functionalities",
 "Unit tests of access constructors use a handful of argument tuples; off by one errors appear for particular residues of widths modulo the bus width only.",
 ["pkg/fbdl/types/access.go","internal/reg/config.go","internal/reg/status.go","internal/reg/static.go","internal/reg/mask.go","internal/reg/proc.go","internal/reg/stream.go"],
 [("access constructors","pkg/fbdl/types/access.go"),("choice of the access type","internal/reg/*.go")],["JSON output: Access","types.Make*Access"])
p("C03","Registers lie in the own space of the block and sizes are right",
 "All registers of a block, including call, exit, strobe and clear addresses, have addresses from 0 to own size - 1 without unused registers in between (unless the block has an irq with enable cleared on read), register 0 of the main bus holds only ID, and the timestamp, if requested, is the last own register. Cumulated size is own size plus sizes of all items of all subblocks, and aligned size is the smallest power of 2, or the smallest multiple of the align property, holding own registers (rounded up to power of 2 when align is not set) and all items of all subblocks. A description whose sizes or widths do not fit 63 bits is rejected; all others, however large, get exact ones.",
 ["programs"],"all descriptions with one value of align at most",
 GOLD+"sizes are compared for single examples, and no test relates them to the addresses in use.",
 ["internal/reg/reg.go","internal/reg/assign.go","internal/util/util.go","internal/reg/irq.go","internal/reg/proc.go","internal/reg/stream.go","internal/reg/id_and_ts.go"],
 [("own size is the final address","internal/reg/reg.go Registerify, regBlock"),("alignBlockSize","internal/reg/reg.go")],["JSON output: Sizes, Access, CallAddr, ExitAddr, StbAddr, ClearAddr"])
p("C04","Address spaces of blocks are disjoint, nested and aligned",
 "The address space of a block has count times aligned size addresses, lies within the address space of its parent, and overlaps neither with own registers of (any item of) the parent nor with sibling blocks; the main bus starts from 0. If align is not set anywhere, each block starts at a multiple of its aligned size, which is a power of 2, and lies within one item of the parent; if one align value is used, each block starts at its multiple.",
 ["programs"],"all trees of blocks, array sizes of at least 1, names and own sizes",
 GOLD+"trees with more than two differently sized array siblings or with arrays of nested blocks are not among them.",
 ["internal/reg/assign.go","internal/reg/reg.go"],
 [("subblocks are placed from the end of the space in decreasing size order","internal/reg/assign.go assignGlobalAccessAddresses")],["JSON output: AddrSpace, Sizes"])
p("C05","Register accesses have no side effects on other functionalities",
 "Writing any register affects at most one functionality (config, mask, params, irq enable, irq clear, proc call, stream strobe), and clearing an irq does not require writing the register with its enable bit. Reading a register whose read has an effect (irq cleared on read, upstream strobe, proc exit or call by read) concerns only the functionality owning that register. Exactly the explicitly cleared irqs have a clear address.",
 ["programs"],"all mixes of readable and writable functionalities, in any order and number",
 GOLD+"no test examines what a write to a shared register touches.",
 ["internal/gap/gap.go","internal/gap/pool.go","internal/reg/irq.go","internal/reg/status.go","internal/reg/config.go","internal/reg/static.go"],
 [("WriteSafe flag of gaps","internal/gap/gap.go"),("irqs placed in write-safe gaps only","internal/reg/irq.go")],["JSON output: Access, EnableAccess, ClearAddr, CallAddr, ExitAddr, StbAddr"])
p("C06","Params and returns are packed, call, exit and strobe addresses are right",
 "Params followed by returns of a proc, and items of a stream, lie one after another in declaration order without gaps from bit 0 of a register, in registers not shared with anything else. The call address is the last register of the last param (without params: own register of an empty proc, first return register if delay is set, otherwise none), the exit address is the last register of the last return (without returns: the call address if delay is set, otherwise none), and the strobe address is the last register of the stream. Queries of the public API on procs and streams (buffer sizes, start addresses, direction, classification) agree with that.",
 ["programs"],"all lists of params and returns (any widths, array sizes and order), any bus width, any other functionalities around",
 "Golden tests cover a few procs and streams; straddling, full registers, zero widths and arrays combine in many more ways.",
 ["internal/reg/proc.go","internal/reg/stream.go","pkg/fbdl/fn/proc.go","pkg/fbdl/fn/stream.go","pkg/fbdl/types/access.go"],
 [("regProc, regUpstream, regDownstream","internal/reg")],["JSON output: Params, Returns, CallAddr, ExitAddr, StbAddr, Delay","fn.Proc and fn.Stream methods"])
p("C07","Properties of functionalities come from the whole type chain",
 "For every functionality the output reports for each property the value set in the one place of its type chain (instantiation, its type, type of the type and so on) where it is set, and the documented default otherwise (also when types are nested, parametrized or imported). A property set twice along the chain is rejected, and so is width together with range. Inner functionalities and constants are those of all types of the chain.",
 ["programs"],"all type chains up to any length and all properties of all base types",
 "Tests set one or two properties in one or two places; each property of each base type has separate code.",
 ["internal/ins/*.go","internal/prs/type.go","internal/prs/inst.go"],
 [("type chain iteration and diaries","internal/ins/type_chain.go, internal/ins/*.go")],["JSON output: all properties"])
p("C08","Type parameters are bound by position, name and default",
 "An instantiation or derived type with an argument list behaves exactly as if each parameter in the type was replaced by the matching argument: positional arguments in order, named ones by name, defaults for the rest, evaluated in the scope of the user of the type; parameters may be used in properties, array sizes, constants, inner functionalities and arguments for ancestor types. Different uses of the same type do not influence each other. Argument lists which do not match the parameter list (too many, missing, unknown, repeated) are rejected.",
 ["programs"],"all parameter and argument lists, chains of parametrized types, nesting and repeated uses",
 "Tests use single instantiations of a parametrized type; binding is stateful (stored in the shared type) so repeated and chained uses matter.",
 ["internal/ins/args.go","internal/prs/type.go","internal/prs/inst.go","internal/prs/arg.go","internal/prs/param.go","internal/prs/body.go","internal/ins/type_chain.go"],
 [("resolveArgs and BindParams","internal/ins/args.go, internal/prs/type.go")],["JSON output"])
p("C09","Identifiers resolve to the innermost visible constant, dumps are exact",
 "An identifier in an expression denotes the constant of the innermost scope which defines it (body, type parameter, enclosing bodies, package, and for qualified names the imported package, whatever file of the package defines it), independently of the definition order. Values of constants are reported in the constants dump and in Consts of blocks and groups exactly as evaluated, under their kind (boolean, integer, float, string, lists), each defined constant exactly once. Unknown, cyclic and repeated constants are rejected.",
 ["programs"],"all placements and shadowings of constants over scopes, files and packages, all supported kinds of values",
 "Tests resolve constants one level deep.",
 ["internal/prs/expr.go","internal/prs/symbol_container.go","internal/prs/file.go","internal/prs/pkg.go","internal/ins/const.go","internal/util/constContainer/constContainer.go","internal/ins/block.go","internal/ins/group.go"],
 [("GetConst chain over scopes","internal/prs"),("constContainer.AddConst","internal/util/constContainer")],["JSON output: Consts","constants dump"])
p("C10","Expressions evaluate according to precedence and arithmetic rules",
 "An expression of integer literals (any notation), parentheses and the supported operators (+ - * / % ** << >>, unary minus, bool, ceil, floor, log2, log10 calls) has the mathematically exact value following from left associativity and the documented precedence: ** over * / % << >> over + -; division gives an integer only when exact, otherwise a float. Unsupported operand types, division by zero and unsupported operators are rejected with a diagnostic; a wrong value is never produced.",
 ["inputs"],"all expressions over the operators and literals",
 "Expression tests contain a few trees with fixed values.",
 ["internal/ast/expr.go","internal/prs/expr.go","internal/prs/call.go","internal/tok/token.go","internal/val/val.go"],
 [("precedence climbing","internal/ast/expr.go"),("Eval methods","internal/prs/expr.go, internal/prs/call.go")],["constants dump"])
p("C11","Exactly the legal properties and values are accepted",
 "A property is accepted only by base types which define it, and only with a value of the right type, unit and range (for example width natural, align power of two, masters positive, one of the listed strings for reset, clear, triggers, init and read values fitting width, delay a time), otherwise the description is rejected. Legal properties with legal values are accepted. Restrictions hold wherever in the type chain the property is set.",
 ["programs"],"all pairs of base type and property, all kinds of values with boundary ones, set in the instantiation or in a type",
 "Golden error tests cover about half of the pairs with single illegal values.",
 ["internal/util/util.go","internal/ins/check.go","internal/ins/*.go"],
 [("IsValidProperty tables","internal/util/util.go"),("checkProp","internal/ins/check.go")],["exit status, diagnostic, JSON output"])
p("C12","Exactly the legal compositions are accepted, names are unique",
 "A functionality may be instantiated only within base types allowing it, with a name unique within its parent (over all types of the chain, whatever the kinds), a group may mix neither irqs, params nor returns with anything else, may not be empty, may be virtual only without them, and must have irqs of one out trigger, a stream may contain either params or returns only, only buses may be instantiated at the package level and only in the main package. Violating descriptions are rejected, complying ones are accepted with all functionalities reported exactly once, in declaration order within each kind.",
 ["programs"],"all pairs of parent and child types, all pairs of siblings, spread over the type chain in all ways",
 "Golden error tests cover single pairs.",
 ["internal/util/util.go","internal/util/group/group.go","internal/util/block/block.go","internal/util/proc/proc.go","internal/util/stream/stream.go","internal/ins/block.go","internal/ins/group.go","internal/ins/proc.go","internal/ins/stream.go","internal/prs/prs.go"],
 [("IsValidInnerType, HasFunctionality, Add* functions","internal/util")],["exit status, diagnostic, JSON output"])
p("C13","Values are encoded exactly and bit strings mean the same everywhere",
 "An init, reset, read or enable value given as an integer is reported as a bit string which has the (positive) width of the functionality and represents exactly the given value, negative ones in two's complement; one given as a bit string is reported as given with its prefix in lower case. Values which do not fit the width are rejected, whatever the property, functionality, base and place the width comes from. Operations of the exported bit string type (width, conversion to integers, extension, conversion to binary) are consistent with the string for every base and length.",
 ["inputs"],"all widths, all integers around the limits, all bit strings of each base up to a length",
 "Unit tests list single strings.",
 ["internal/val/bit_str.go","pkg/fbdl/types/bit_str.go","internal/ins/common.go","internal/ins/config.go","internal/ins/mask.go","internal/ins/static.go","internal/ins/status.go","internal/ins/irq.go"],
 [("BitStrFromInt, processValue","internal/val/bit_str.go, internal/ins/common.go"),("types.BitStr methods","pkg/fbdl/types/bit_str.go")],["JSON output","types.BitStr"])
p("C14","Width implied by range is the minimal one",
 "When range is given without width, the reported width is the smallest one able to represent every value of the range (for range given as upper bound, as one or as several pairs), and the range is reported as given. The same holds for bit width queries of the exported range types.",
 ["inputs"],"all ranges with bounds around powers of two and extreme values, lists of ranges",
 "Unit tests check single values; rounding errors appear near large powers of two only.",
 ["pkg/fbdl/types/range.go","internal/ins/config.go","internal/ins/param.go","internal/ins/check.go"],
 [("BitWidth","pkg/fbdl/types/range.go")],["JSON output: Width, Range","types.SingleRange, types.ArrayRange"])
p("C15","Tokens are recognized exactly, independently of their neighbours",
 "Every literal, name, keyword, property name, operator and string of the language denotes the same thing whatever legal tokens and amount of white space stand next to it, and is read in full. Malformed literals and illegal characters are rejected, and if the diagnostic has a location, it points at them.",
 ["inputs"],"all sequences of tokens up to a length over an alphabet of all token kinds, all short strings over the characters significant for the tokenizer",
 "Tokenizer tests contain about twenty fixed inputs.",
 ["internal/tok/parse.go","internal/tok/token.go","internal/tok/context.go"],
 [("parse functions","internal/tok/parse.go")],["constants dump, JSON output, diagnostics"])
p("C16","Diagnostics point at the offending place",
 "Whenever a diagnostic for a rejected description carries a location, it is the file, line and column of the offending element, the quoted source line is that line, and the underline is below that element, wherever in the file (and in which file) the element is placed and whatever precedes it. Errors in tokens, syntax, literals, operators, properties illegal for the functionality, property values of a wrong type or out of the legal set, arguments, parameters and repeated definitions always carry a location.",
 ["programs"],"all classes of errors, at all positions: lines before, indentation, packages, multiline strings and comments before",
 "Golden error tests place each error at one place, typically within first lines of the single file.",
 ["internal/tok/error.go","internal/tok/position.go","internal/tok/join.go","internal/tok/context.go","internal/prs/*.go","internal/ins/*.go"],
 [("tok.Error","internal/tok/error.go"),("positions","internal/tok/parse.go")],["stderr"])
p("C17","Every input ends with output or with a diagnostic",
 "For every input file content the compiler ends, either with exit status 0 and a complete output, or with a non zero status and a non empty diagnostic on stderr; it never crashes (Go panic, stack overflow, nil dereference) and never hangs. The same holds for descriptions which are cyclic (constants, types, instantiations) or truncated.",
 ["inputs","programs"],"all byte sequences up to a length over the significant alphabet, all prefixes and single edits of valid descriptions, all small graphs of references",
 "Tests contain only well formed inputs and classic errors.",
 ["internal/tok","internal/ast","internal/prs","internal/ins","internal/reg","cmd/fbdl/main.go"],
 [("tok.Error instead of panic","internal/tok, internal/ast"),("cycle detection","internal/prs/expr.go, internal/ins/ins.go")],["exit status, stdout, stderr"])
p("C18","Layout of the source does not matter",
 "Replacing a body by the equivalent one line form, adding blank lines, trailing comments or comment lines of the same indentation, white space within lines, or a final new line, splitting a description over multiple bodies of a type chain, splitting a package over files, changing order of properties, of definitions relative to their uses, of functionalities of different kinds, and of blocks does not change the output. The only exception are the documentation texts, and the value of the ID which covers them. Descriptions which are rejected stay rejected.",
 ["programs"],"all combinations of such rewritings at all places of a set of descriptions covering the whole grammar",
 "Golden tests have one layout per description.",
 ["internal/tok/parse.go","internal/ast/*.go","internal/prs/body.go","internal/prs/symbol_container.go"],
 [("newline, indent and comment handling","internal/tok/parse.go, internal/ast")],["JSON output"])
p("C19","Documentation comments are attached to the right functionality",
 "The comment lines directly preceding an instantiation (no blank line in between, same indentation) are its documentation in the output: one line of text per comment line, without the leading # and one following space. Comments separated by a blank line, trailing comments, and comments of other elements are not attached, and a functionality without such comment has empty documentation.",
 ["programs"],"all sequences of comment lines, blank lines and elements up to a length, at the top level and within bodies",
 "Tests check a single documentation comment.",
 ["internal/ast/doc.go","internal/ast/body.go","internal/ast/build.go","internal/ins/common.go"],
 [("buildDoc","internal/ast/doc.go")],["JSON output: Doc"])
p("C20","Results are deterministic",
 "Whether a compilation succeeds, and its output (the bus and the constants), depends only on the content of the source files: not on the interleaving of goroutines parsing packages, the order of iteration over maps, previous compilations done by the same process, or whether the compiler is used as the program or through the Compile function. No data race is possible, and no interleaving deadlocks.",
 ["schedules","histories"],"all interleavings of parsing goroutines up to the preemption bound, all map iteration orders, all sequences of compilations up to a length",
 "Tests run each description once, in one process, with one schedule and one map order.",
 ["internal/prs/prs.go","internal/prs/pkg.go","internal/prs/import.go","internal/ins/ins.go","internal/ins/const.go","internal/reg/reg.go","pkg/fbdl/compile.go","pkg/fbdl/types/init.go"],
 [("mutexes and wait groups","internal/prs/prs.go, internal/prs/pkg.go"),("global variables reset for every compilation","internal/ins/ins.go, internal/reg/reg.go")],["JSON output, constants dump, diagnostics"])
p("C21","ID and TIMESTAMP are generated correctly",
 "The main bus, and no other block, has exactly one generated static ID at bit 0 of register 0 with width min(32, bus width) and init value of that width; it depends only on the description of the main bus (not on time, other buses, detached comments, layout of the source, names of types, parameters and package constants), and, for buses at least 32 bits wide, changes with a single change of name, documentation, array size, width, init value, atomicity, irq triggers, clear or enable, items of procs and streams, masters, values of constants, size, place, order or number of registered functionalities (groups are not registered yet; the base type itself is not a part of ID). With timestamp requested there is exactly one static TIMESTAMP of width min(36, bus width) at bit 0 of the last own register of the main bus holding (low bits of) the time of compilation in seconds, otherwise there is none; accesses of the other own functionalities of the main bus stay the same. Functionality named ID is rejected in the main bus, one named TIMESTAMP only when the timestamp is requested, both are legal elsewhere.",
 ["programs"],"all descriptions, all single edits of them, all bus widths",
 "Golden tests freeze the ID of fixed descriptions, and the timestamp is not tested.",
 ["internal/reg/id_and_ts.go","internal/reg/reg.go","internal/util/hash/*.go"],
 [("hash.Hash","internal/util/hash"),("id, timestamp","internal/reg/id_and_ts.go")],["JSON output: Statics"])
p("C22","The command line contract",
 "Flags and parameters are recognized in any order before the main file, which is the last argument; -main selects the bus, -c writes constants to the given path or const.json (the optional value of -c and -r is the next argument unless it is a flag, a parameter or the main file), -r is accepted, -add-timestamp adds the timestamp, -debug adds messages to stderr only, -help and -version print to stdout and end with status 0; anything else is rejected. On success stdout is exactly one JSON document, stderr is empty (without -debug), the file with constants is a JSON document replacing what was there, and no other files are written; on any error, also when the result cannot be written, the status is 1, stderr has the diagnostic, and for errors found in arguments or descriptions stdout is empty and nothing is written.",
 ["configurations"],"all sequences of arguments up to a length over all flags, parameters, values and file names",
 "No test runs the program with flags other than -r.",
 ["cmd/fbdl/main.go","internal/args/*.go"],
 [("args.Parse","internal/args/parse.go")],["exit status, stdout, stderr, files"])
p("C23","Packages are discovered and imported as documented",
 "Packages are exactly the directories named fbd-NAME with at least one file named *.fbd, at any depth under the working directory and the directories listed in FBDPATH, each physical directory counted once, symbolic links followed (link cycles, broken links and missing directories do no harm), two packages with the same name being rejected and fbd-main being replaced by the main file. An import is bound, in its file only, under the alias (or the import path without fbd- if there is neither alias nor slash) to the only package whose path ends with the import path, and is rejected if there is none or more than one; all *.fbd files of the package and no other files contribute, and symbols of packages not imported in the file are not visible in it.",
 ["configurations"],"all small directory trees with packages, links, FBDPATH settings and import paths",
 "Tests use two fixed trees.",
 ["internal/prs/pre.go","internal/prs/import.go","internal/util/directory.go","internal/prs/prs.go","internal/prs/pkg.go"],
 [("DiscoverPackages","internal/prs/pre.go"),("bindImports","internal/prs/import.go")],["JSON output, constants dump, diagnostics"])
p("C24","Queries of the exported types agree with the description",
 "On the bus returned by Compile, GetName, Type, IsArray and Count of every functionality are its declared name, base type (block for the bus) and array size (1 if it is not an array); StartAddr of a block is the start of its address space; a group is read only exactly when nothing in it can be written (it has no config, mask or param, and no irq with explicit clear or with an enable register); IsZero of a delay is true exactly for zero delays. The container of constants is empty exactly when it has no constants.",
 ["programs"],"all groups of functionalities, all delays, all trees of blocks, all contents of the container",
 "No test calls IsReadOnly, IsZero, StartAddr or Empty.",
 ["pkg/fbdl/fn/*.go","pkg/fbdl/types/time.go","pkg/fbdl/cnst/*.go","internal/ins/*.go"],
 [("Group.IsReadOnly","pkg/fbdl/fn/group.go"),("Container.Empty","pkg/fbdl/cnst")],["methods of the bus returned by Compile"])
p("C25","The output is a complete and exact document",
 "The bus and the dumped constants are each a single document of valid JSON and UTF-8 without repeated keys, in which every functionality is an object which has every field of its exported type (pkg/fbdl/fn, pkg/fbdl/types, pkg/fbdl/cnst) with a value of the type of the field: integers are written exactly (to 2^63), names, documentation and strings character by character, ranges with all their bounds in the order given, delays as seconds and nanoseconds, bit strings with their value. Properties which are not set and have no default (range, delay, init, read, reset and enable values) are null or empty, lists and the optional addresses may be null, nothing else may; there are exactly the described functionalities (and the ID) and constants.",
 ["programs"],"all sets of properties of all base types in all parents, all characters of texts, all kinds of constants, all bounds around powers of two",
 "Tests compare the output of a few fixed descriptions, in which most fields have their default values.",
 ["pkg/fbdl/fn/*.go","pkg/fbdl/types/*.go","pkg/fbdl/cnst/*.go","pkg/fbdl/pkg/*.go","cmd/fbdl/main.go","internal/ins/*.go"],
 [("json encoding of exported types","pkg/fbdl/fn, cmd/fbdl/main.go")],["stdout, constants dump"])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
