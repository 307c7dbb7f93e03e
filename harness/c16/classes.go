package main

import "strings"

// class is a single kind of an error, placed in all contexts.
type class struct {
	ctx  string // top, block or name of the functionality.
	name string
	pre  string // Preceding top level definitions.
	frag string // Lines with marks.
	few  bool   // Only some of placements and noise.
	use  string // Lines of the main bus for top context, @ is the qualifier of the package.
}

var minimal = map[string]string{
	"blackbox": "size = 1", "block": "masters = 1", "bus": "masters = 1", "config": "width = 5", "group": "virtual = true", "irq": "add-enable = true",
	"mask": "width = 5", "param": "width = 5", "proc": "delay = 1 ns", "return": "width = 5", "static": "init-value = 0; width = 5", "status": "width = 5", "stream": "delay = 1 ns",
}

var valid = map[string][]string{
	"blackbox": {"size"},
	"block":    {"align", "masters", "reset"},
	"config":   {"atomic", "init-value", "range", "read-value", "reset-value", "width"},
	"group":    {"virtual"},
	"irq":      {"add-enable", "clear", "enable-init-value", "enable-reset-value", "in-trigger", "out-trigger"},
	"mask":     {"atomic", "init-value", "read-value", "reset-value", "width"},
	"param":    {"range", "width"},
	"proc":     {"delay"},
	"return":   {"width"},
	"static":   {"init-value", "read-value", "reset-value", "width"},
	"status":   {"atomic", "read-value", "width"},
	"stream":   {"delay"},
}

// Properties with legal value and illegal values.
var legal = map[string]string{
	"access": `"Read Only"`, "add-enable": "true", "align": "2", "atomic": "false", "byte-write-enable": "true", "clear": `"Explicit"`, "delay": "10 ns", "enable-init-value": "1", "enable-reset-value": `b"0"`,
	"init-value": "3", "in-trigger": `"Edge"`, "masters": "2", "out-trigger": `"Level"`, "range": "[1:2, 4:5]", "read-latency": "1", "read-value": "1", "reset": `"Sync"`, "reset-value": `x"f"`,
	"size": "4", "virtual": "true", "width": "7",
}

var illegal = map[string][]string{
	"add-enable": {"3", `"yes"`}, "align": {"true", "0", "3", "-2"}, "atomic": {"1"}, "clear": {"3", `"Both"`}, "delay": {"3", `"ns"`},
	"enable-init-value": {"true", `"1"`}, "enable-reset-value": {"true"}, "init-value": {"true", "1:2"}, "in-trigger": {"1", `"Ledge"`}, "out-trigger": {"1", `"Ledge"`},
	"masters": {`"1"`, "0", "2 - 3"}, "range": {"-1", "true", `"1:2"`, "3:1", "-1:2", "[3:1]", "[1:2, 3:2]", "[1:2, 3]", "[-1:2]", "[0:1, 2:-3]", "[]"},
	"read-value": {"false"}, "reset": {"7", `"Never"`}, "reset-value": {"1 ns"}, "size": {"-4", "true"}, "virtual": {"0"},
	"width": {"-3", "true", `"8"`, "1:2", "[1, 2]", "(1 - 2)", "3 - 2 * 4", "-(1 + 2)", `b"1"`, "8 ns", "1.5", "\"multi\nline\""},
}

func classes() (cs []class) {
	add := func(ctx, name, pre, frag string) { cs = append(cs, class{ctx: ctx, name: name, pre: pre, frag: frag}) }
	top := func(name, frag, use string) { cs = append(cs, class{ctx: "top", name: name, frag: frag, use: use}) }
	kinds := strings.Fields("blackbox block config group irq mask param proc return static status stream")
	rest := map[string]string{"static": "init-value", "blackbox": "size", "group": "", "proc": "", "stream": ""}

	for _, k := range kinds {
		ok := map[string]bool{}
		for _, p := range valid[k] {
			ok[p] = true
		}
		req := rest[k]
		reqLine := ""
		if req != "" {
			reqLine = req + " = 0\n"
		}
		if k == "group" {
			reqLine = "config\n"
			reqLine = ""
		}
		// Properties.
		for _, p := range valid[k] {
			pre := reqLine
			if strings.HasPrefix(p, "enable-") {
				pre += "add-enable = true\n"
			}
			if p == req {
				pre = ""
			}
			add(k, "valid "+p, "", pre+p+" = "+legal[p])
			for _, val := range illegal[p] {
				add(k, p+" = "+val, "", pre+"‹"+p+"› = «"+val+"»")
			}
			add(k, p+" repeated", "", pre+p+" = "+legal[p]+"\n«"+p+"» = "+legal[p])
			add(k, p+" without =", "", pre+p+" «"+legal[p][:firstTok(legal[p])]+"»"+legal[p][firstTok(legal[p]):])
			add(k, p+" const", "const BAD = \"bad\"", pre+"‹"+p+"› = «BAD»")
		}
		for _, p := range []string{"access", "add-enable", "align", "atomic", "byte-write-enable", "clear", "delay", "init-value", "masters", "range", "read-latency", "reset", "size", "virtual", "width"} {
			if ok[p] {
				continue
			}
			add(k, "invalid property "+p, "", reqLine+"«"+p+"» = "+legal[p])
		}
		// Tokens and syntax.
		if k != "blackbox" {
			l := reqLine
			p := valid[k][0]
			if p == req {
				l = ""
			}
			v := legal[p]
			add(k, "invalid byte", "", l+"‹"+p+"› = "+v+" «@»")
			add(k, "invalid byte without space", "", l+p+"«@» = "+v)
			add(k, "tab", "", l+"‹"+p+"› =«\t»"+v)
			add(k, "tab at the end", "", l+"‹"+p+"› = "+v+"«\t»")
			add(k, "space at the end", "", l+"‹"+p+"› = "+v+"« »\n")
			add(k, "spaces at the end", "", l+"‹"+p+"› = "+v+"«    »\n")
			add(k, "semicolon at the end", "", l+"‹"+p+"› = "+v+"«;»\n")
			add(k, "redundant semicolon", "", l+"‹"+p+"› = "+v+";«;» "+valid[k][len(valid[k])-1]+" = 1")
			add(k, "no value", "", l+"‹"+p+"› =«\n»")
			add(k, "two values", "", l+"‹"+p+"› = "+v+" «"+v[:firstTok(v)]+"»"+v[firstTok(v):])
			add(k, "unexpected token in expression", "", l+"‹"+p+"› = (1 + 2 * «]»")
			add(k, "unclosed parenthesis", "", l+"‹"+p+"› = (1 + 2 «]»")
			add(k, "expression ends", "", l+"‹"+p+"› = 1 +«\n»")
			add(k, "list", "", l+"‹"+p+"› = [1, 2 «)»")
			add(k, "redundant comma", "", l+"‹"+p+"› = [1,«,» 2]")
			add(k, "unterminated call", "", l+"‹"+p+"› = ceil(1.5, «]»")
			add(k, "qualified function", "", l+"‹"+p+"› = a.b«(»1)")
			add(k, "unknown function", "", l+"‹"+p+"› = 1 + «foo»(2, 3) - 1")
			add(k, "division by zero", "", l+"‹"+p+"› = 1 + 2 / «0»")
			add(k, "remainder", "const ZERO = 0", l+"‹"+p+"› = (1 + 2) % «ZERO»")
			add(k, "shift", "const NEG = -1", l+"‹"+p+"› = 1 << «NEG»")
			add(k, "right shift", "", l+"‹"+p+"› = 1 >> «(2 - 3)»")
			add(k, "power of zero", "", l+"‹"+p+"› = 0 ** «-1»")
			add(k, "overflow", "", l+"‹"+p+"› = 9223372036854775807 «+» 1")
			add(k, "overflow of product", "", l+"‹"+p+"› = 1 + 4611686018427387904 «*» 2")
			add(k, "overflow of power", "", l+"‹"+p+"› = 2 «**» 63 - 1")
			add(k, "overflow of difference", "", l+"‹"+p+"› = -9223372036854775807 «-» 2")
			add(k, "operands", "", l+"‹"+p+"› = 1 «+» true")
			add(k, "operands of strings", "", l+"‹"+p+"› = \"a\" «*» \"b\"")
			add(k, "operands of shift", "", l+"‹"+p+"› = 1 << «\"a\"»")
			add(k, "operands of range", "", l+"‹"+p+"› = 1:«true»")
			add(k, "ranges of range", "", l+"‹"+p+"› = «(1:2)» : 3")
			add(k, "second point", "", l+"‹"+p+"› = 1.2«.»3")
			add(k, "second exponent", "", l+"‹"+p+"› = 1e2«e»3")
			add(k, "point after exponent", "", l+"‹"+p+"› = 1e2«.»3")
			add(k, "invalid number", "", l+"‹"+p+"› = 12«a»")
			add(k, "invalid binary", "", l+"‹"+p+"› = 0b10«2»")
			add(k, "invalid octal", "", l+"‹"+p+"› = 0o17«8»")
			add(k, "invalid hex", "", l+"‹"+p+"› = 0x1f«g»")
			add(k, "invalid binary bit string", "", l+"‹"+p+"› = b\"01«2»1\"")
			add(k, "invalid octal bit string", "", l+"‹"+p+"› = o\"01«8»1\"")
			add(k, "invalid hex bit string", "", l+"‹"+p+"› = x\"01«g»1\"")
			add(k, "unterminated binary bit string", "", l+"‹"+p+"› = «b\"01»")
			add(k, "unterminated octal bit string", "", l+"‹"+p+"› = «o\"01»")
			add(k, "unterminated hex bit string", "", l+"‹"+p+"› = «x\"01»")
			add(k, "too big integer", "", l+"‹"+p+"› = «9223372036854775808»")
			add(k, "too big time", "", l+"‹"+p+"› = «9223372036854775808 s»")
			add(k, "qualified identifier", "", l+"‹"+p+"› = «a.1»")
			add(k, "odd indent", "", l+"‹"+p+"› = "+v+"\n¦ »"+valid[k][len(valid[k])-1]+" = 1")
			add(k, "unexpected token", "", l+"«=» "+p+" = "+v)
			add(k, "unexpected number", "", l+"«12» = "+v)
			add(k, "import within body", "", l+"«import» \"a\"")
		}
	}

	// Widths.
	for _, k := range []string{"config", "param"} {
		add(k, "width then range", "", "‹width› = 3\n«range» = 5")
		add(k, "range then width", "", "‹range› = 3\n«width» = 5")
	}

	// Constants, types and instances in bodies.
	for _, k := range []string{"block", "config", "group", "proc"} {
		fill := map[string]string{"group": "config", "block": "config", "proc": "param"}[k]
		add(k, "const without value", "", "const A«\n»")
		add(k, "const without name", "", "const «=» 3")
		add(k, "const keyword name", "", "const «type» = 3")
		add(k, "const redefinition", "", "const «A» = 1\nconst «A» = 2")
		add(k, "const block redefinition", "", "const\n  «A» = 1\n  B = 3\n  «A» = 2")
		add(k, "const in two blocks", "", "const\n  A = 1\n  «B» = 3\nconst\n  C = 2\n  «B» = 3")
		add(k, "const bad body", "", "const\n  A = 1\n  «width» = 3")
		add(k, "const dangling", "", "const\n  A = 1\n  B «:» 3")
		add(k, "type redefinition", "", "type «A» config\ntype «A» status")
		add(k, "type without name", "", "type «(»A) config")
		add(k, "type without type", "", "type A«\n»")
		add(k, "type with number", "", "type A «3»")
		add(k, "type array", "", "type A [3«)»config")
		add(k, "type empty parameters", "", "type A«()» config")
		add(k, "type parameters", "", "type A(P «;» Q) config")
		add(k, "type parameter value", "", "type A(P = 3 «;») config")
		add(k, "type parameter name", "", "type A(P, «3») config")
		add(k, "type repeated parameter", "", "type A(P, Q, «P») config")
		add(k, "type parameter order", "", "type A(P = 3, Q = 4, «R») config")
		add(k, "type base with arguments", "", "type A(W) config«(W)»")
		add(k, "type arguments", "", "type A B(1, «]»)")
		add(k, "type empty arguments", "", "type A B«()»")
		add(k, "type repeated argument", "", "type A B(P = 1, Q = 2, «P» = 3)")
		add(k, "type argument order", "", "type A B(P = 1, «2»)")
		add(k, "type garbage", "", "type A config «config»")
		add(k, "type property", "", "type A config; width = 3; «width» = 4")
		add(k, "type invalid property", "", "type A config\n  «size» = 3")
		add(k, "type conflict", "", "type A config\n  ‹width› = 3\n  «range» = 3")
		add(k, "type no property", "", "type A config; «B» = 3")
		if fill == "" {
			continue
		}
		add(k, "control", "", "const A = 1\ntype B(P) [2]"+fill+"; width = P\nx B(A)\ny "+fill)
		add(k, "redefinition", "", "«x» "+fill+"\ny "+fill+"\n«x» "+fill)
		add(k, "no type", "", "x«\n»")
		add(k, "unknown type", "", "«x» foo")
		add(k, "unknown package", "", "«x» foo.bar")
		add(k, "garbage", "", "x "+fill+" «=» 3")
		add(k, "second type", "", "x "+fill+" «"+fill+"»")
		add(k, "unclosed array", "", "x [3 «"+fill+"»")
		add(k, "array without size", "", "x [«]»"+fill)
		add(k, "negative array", "const NEG = -2", "«x» [NEG]"+fill)
		add(k, "base with arguments", "", "x "+fill+"«(3)»")
		add(k, "empty arguments", "type NTP(W = 3) "+fill+"; width = W", "x NTP«()»")
		add(k, "missing argument", "type NTP(W, V = 3) "+fill+"; width = W", "«x» NTP")
		add(k, "missing second argument", "type NTP(W, V) "+fill+"; width = W", "«x» NTP(V = 3)")
		add(k, "too many arguments", "type NTP(W) "+fill+"; width = W", "«x» NTP(3, 4)")
		add(k, "unknown argument", "type NTP(W) "+fill+"; width = W", "«x» NTP(3, V = 4)")
		add(k, "argument twice", "type NTP(W, V = 1) "+fill+"; width = W", "«x» NTP(3, W = 4)")
		add(k, "repeated argument", "type NTP(W, V = 1) "+fill+"; width = W", "x NTP(W = 3, V = 2, «W» = 4)")
		add(k, "argument order", "type NTP(W, V = 1) "+fill+"; width = W", "x NTP(W = 3, «2»)")
		add(k, "argument syntax", "type NTP(W, V = 1) "+fill+"; width = W", "x NTP(W = 3 «;» 2)")
		add(k, "argument value", "type NTP(W) "+fill+"; width = W", "x NTP(W = «)»")
		add(k, "value of argument", "type NTP(W) "+fill+"\n  ‹width› = «W»", "x NTP(true)")
		add(k, "value of expression of argument", "type NTP(W) "+fill+"\n  ‹width› = 1 / «W»", "x NTP(0)")
		add(k, "property set in ancestor", "type NTP "+fill+"; width = 4", "x NTP; «width» = 4")
		add(k, "property set in type", "type NTP "+fill+"; width = 4\ntype NTQ NTP\n  «width» = 4\ntype NTR NTQ", "x NTR")
		add(k, "array in ancestor", "type NTP [2]"+fill+"; width = 4", "«x» [3]NTP")
		add(k, "array in type", "type NTP [2]"+fill+"; width = 4\ntype «NTQ» [2]NTP\ntype NTR NTQ", "x NTR")
		add(k, "invalid property of type", "type NTP "+fill, "x NTP; «size» = 3")
		add(k, "invalid property in type", "type NTP "+fill+"\ntype NTQ NTP\n  «size» = 3", "x NTQ")
		add(k, "extra indent", "", "x "+fill+"\n¦      »width = 3")
		add(k, "indented", "", "x "+fill+"\n  width = 3\n¦ »y config")
		add(k, "body of body", "", "x "+fill+"\n  width = 3\n¦    »width = 3")
		add(k, "cyclic types", "type «NTP» NTQ\ntype NTQ NTP", "x NTP")
	}
	for _, k := range []string{"static"} {
		add("block", "static without init-value", "", "«x» "+k+"; width = 3")
		add("block", "static without anything", "", "«x» "+k)
		add("block", "static array without init-value", "", "«x» [3]"+k+"; width = 3")
		add("block", "static type without init-value", "type NTS static; width = 3", "«x» NTS")
	}
	add("block", "blackbox without size", "", "«x» blackbox")
	add("block", "blackbox type without size", "type NTB blackbox", "«x» NTB")
	add("block", "conflict with ancestor width", "type NTC config; width = 3", "x NTC; «range» = 3")
	add("block", "conflict with ancestor range", "type NTC config; range = 3", "x NTC; «width» = 3")
	add("block", "recursive type", "type NTI block\n  «y» NTI", "x NTI")
	add("block", "recursive types", "type NTI block\n  ‹y› NTJ\ntype NTJ block\n  ‹y› NTI", "x NTI")

	// Top level.
	top("control", "const A = 3\ntype T(P = A) config; width = P\n", "x @T")
	top("control import", "const A = 3\ntype T(P = A) config; width = P\n", "")
	top("invalid byte", "«$»const A = 3", "")
	top("invalid byte after", "const A = 3 «^» 3", "")
	top("tab", "«\t»const A = 3", "")
	top("tab inside", "const A =«\t»3", "")
	top("trailing space", "const A = 3« »\n", "")
	top("trailing spaces", "const A = [1, 2, 3]«   »\n", "")
	top("space of the next line", "const A = 3\n«  »\n", "")
	top("indentation", "const B = 3\n« »const A = 3", "")
	top("unexpected", "«=» 3", "")
	top("unexpected string", "«\"abc\"»", "")
	top("unexpected number", "«12» config", "")
	top("const no value", "const A =«\n»", "")
	top("const no name", "const\n«B» = 3", "")
	top("const keyword", "const «import» = 3", "")
	top("const list", "const A = [1, 2, «=»]", "")
	top("const redefinition", "const ‹A› = 1\nconst B = 2\nconst «A» = 3", "")
	top("const redefinition in blocks", "const\n  A = 1\n  «B» = 2\nconst\n  C = 2\n  «B» = 3\n", "")
	top("const redefinition in block", "const\n  ‹A› = 1\n  B = 2\n  «A» = 3\n", "")
	top("const cycle", "const ‹A› = B\nconst ‹B› = A", "")
	top("const self cycle", "const «A» = A", "")
	top("const longer cycle", "const ‹A› = B + 1\nconst ‹B› = 2 * C\nconst ‹C› = -A\n", "")
	top("const unknown", "const «A» = FOO + 1", "")
	top("const unknown package", "const «A» = foo.BAR", "")
	top("const division", "const ‹A› = 3 / «0»", "")
	top("const overflow", "const ‹A› = 3 + 9223372036854775807 «*» 2", "")
	top("const operands", "const ‹A› = true «*» 2", "")
	top("const function", "const ‹A› = «foo»(3)", "")
	top("const unterminated", "const A = «\"abc»", "")
	top("type redefinition", "type ‹A› config\ntype B config\ntype «A» status", "")
	top("type cycle", "type ‹A› B\ntype ‹B› A", "x @A")
	top("type base arguments", "type A config«(3)»", "")
	top("type property", "type A config; width = 2; «width» = 3", "")
	top("type illegal property", "type A block; «width» = 3", "x @A")
	top("type value", "type A block; masters = «0»", "x @A")
	top("type unknown", "type «A» foo", "x @A")
	top("type unknown of package", "type «A» foo.bar", "x @A")
	top("type missing argument", "type A(P) config; width = P\ntype «B» A", "x @B")
	top("type too many arguments", "type A(P) config; width = P\ntype «B» A(1, 2)", "x @B")
	top("type inner", "type A block\n  x config; width = 4\n  y config\n    range = «[4:3]»\n", "x @A")
	top("type inner static", "type A block\n  x config; width = 4\n  «y» static\n  z status\n", "x @A")
	top("type inner unknown", "type A block\n  «x» foo; width = 4", "x @A")
	top("type inner redefinition", "type A block\n  «x» config; width = 4\n  y config\n    width = 3\n  «x» status", "x @A")
	top("package level", "«x» config", "")
	top("package level type", "type A config\n«x» A", "")
	top("import without path", "import a «3»", "")
	top("import without string", "import «=»", "")
	top("import block", "import\n  a «3»", "")
	top("import keyword", "import\n  «const»", "")
	top("import alias twice", "import a \"p2\"\nimport a «\"p2\"»", "")
	top("import alias twice in block", "import\n  a \"p2\"\n  b \"p2\"\n  b «\"p2\"»\n", "")
	top("multi line string first", "const A = \"a\nb\n\nc\" + «;»", "")
	top("multi line string after", "const A = «@» \"a\nb\n\nc\"", "")
	top("multi line token", "type A config; width = «\"a\nb\n\nc\"»", "x @A")
	top("multi line list", "type A config; width = «[\"a\nb\n\nc\", 3]»", "x @A")
	return append(cs, families()...)
}

// firstTok returns length of the first token of a legal value.
func firstTok(v string) int {
	switch {
	case v[0] == '[':
		return 1
	case strings.HasPrefix(v, "10 ns"):
		return 5
	}
	return len(v)
}
