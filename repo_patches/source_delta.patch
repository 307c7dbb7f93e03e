From 397fb0764fe87ff36fc271eb95c0b332f745e76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:08 +0000
Subject: [PATCH 01/78] fix: add a gap to the pool only once

A gap not narrower than all gaps in the pool was appended once for every
gap passed on the way, so two functionalities could get the same bits.
---
 internal/gap/pool.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/gap/pool.go b/internal/gap/pool.go
index 7bdd670..8b48c60 100644
--- a/internal/gap/pool.go
+++ b/internal/gap/pool.go
@@ -18,8 +18,8 @@ func (p *Pool) Add(g Gap) {
 				p.singles[i] = g
 				return
 			}
-			p.singles = append(p.singles, g)
 		}
+		p.singles = append(p.singles, g)
 	case Array:
 		if len(p.arrays) == 0 {
 			p.arrays = append(p.arrays, g)
@@ -33,6 +33,7 @@ func (p *Pool) Add(g Gap) {
 				return
 			}
 		}
+		p.arrays = append(p.arrays, g)
 	}
 }
 
-- 
2.43.0


From 6cb2d8514951d0eb3447a85df47a708ba7446dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:53 +0000
Subject: [PATCH 02/78] fix: do not mark remainder of a write unsafe gap as
 write safe

---
 internal/reg/status.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/internal/reg/status.go b/internal/reg/status.go
index a8ce16e..5d05cf1 100644
--- a/internal/reg/status.go
+++ b/internal/reg/status.go
@@ -18,8 +18,12 @@ func regAtomicStatus(st *fn.Status, addr int64, gp *gap.Pool) int64 {
 func regAtomicStatusSingle(st *fn.Status, addr int64, gp *gap.Pool) int64 {
 	var acs types.Access
 
+	// The remaining gap is as write-safe as the register it is placed in.
+	writeSafe := true
+
 	if g, ok := gp.GetSingle(st.Width, false); ok {
 		acs = types.MakeSingleAccess(g.Addr, g.StartBit, st.Width)
+		writeSafe = g.WriteSafe
 	} else {
 		acs = types.MakeSingleAccess(addr, 0, st.Width)
 		addr += acs.RegCount
@@ -30,7 +34,7 @@ func regAtomicStatusSingle(st *fn.Status, addr int64, gp *gap.Pool) int64 {
 			Addr:      acs.EndAddr,
 			StartBit:  acs.EndBit + 1,
 			EndBit:    busWidth - 1,
-			WriteSafe: true,
+			WriteSafe: writeSafe,
 		})
 	}
 
@@ -75,8 +79,12 @@ func regNonAtomicStatus(st *fn.Status, addr int64, gp *gap.Pool) int64 {
 func regNonAtomicStatusSingle(st *fn.Status, addr int64, gp *gap.Pool) int64 {
 	var acs types.Access
 
+	// The remaining gap is as write-safe as the register it is placed in.
+	writeSafe := true
+
 	if g, ok := gp.GetSingle(st.Width, false); ok {
 		acs = types.MakeSingleAccess(g.Addr, g.StartBit, st.Width)
+		writeSafe = g.WriteSafe
 	} else {
 		acs = types.MakeSingleAccess(addr, 0, st.Width)
 		addr += acs.RegCount
@@ -87,7 +95,7 @@ func regNonAtomicStatusSingle(st *fn.Status, addr int64, gp *gap.Pool) int64 {
 			Addr:      acs.EndAddr,
 			StartBit:  acs.EndBit + 1,
 			EndBit:    busWidth - 1,
-			WriteSafe: true,
+			WriteSafe: writeSafe,
 		})
 	}
 
-- 
2.43.0


From 40fe1999b003d14d309f54e6556b099ff12f2b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:57 +0000
Subject: [PATCH 03/78] fix: registerify non-atomic status arrays not filling
 the end register

---
 internal/reg/status.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/reg/status.go b/internal/reg/status.go
index 5d05cf1..c7b7f3b 100644
--- a/internal/reg/status.go
+++ b/internal/reg/status.go
@@ -113,9 +113,12 @@ func regNonAtomicStatusArray(st *fn.Status, addr int64, gp *gap.Pool) int64 {
 	} else if busWidth/2 < st.Width && st.Width <= busWidth {
 		acs = types.MakeArrayOneInRegAccess(st.Count, addr, 0, st.Width)
 		// TODO: This is a place for adding a potential Gap.
-	} else if busWidth%st.Width == 0 || st.Count <= busWidth/st.Width || st.Width < busWidth/2 {
+	} else if st.Width <= busWidth/2 && st.Count%(busWidth/st.Width) == 0 {
 		acs = types.MakeArrayNInRegAccess(st.Count, addr, st.Width)
 		// TODO: This is a place for adding a potential Gap.
+	} else if st.Width <= busWidth/2 {
+		acs = types.MakeArrayNInRegMInEndRegAccess(st.Count, addr, st.Width)
+		// TODO: This is a place for adding a potential Gap.
 	} else if st.Width > busWidth {
 		acs = types.MakeArrayOneInNRegsAccess(st.Count, addr, st.Width)
 	} else {
-- 
2.43.0


From 91348155b6e800f2e97d1d7d964dff8c6d164e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:00 +0000
Subject: [PATCH 04/78] fix: calculate occupied width of ArrayNRegs fitting one
 register

---
 pkg/fbdl/types/access.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/fbdl/types/access.go b/pkg/fbdl/types/access.go
index 48cb4cf..c17e77d 100644
--- a/pkg/fbdl/types/access.go
+++ b/pkg/fbdl/types/access.go
@@ -209,8 +209,10 @@ func MakeArrayNRegsAccess(itemCount, startAddr, startBit, width int64) Access {
 	endBit := (startBit + itemCount*width - 1) % busWidth
 
 	startRegWidth := busWidth - startBit
+	endRegWidth := endBit + 1
 	if regCount == 1 {
-		startRegWidth = itemCount*width - startBit
+		startRegWidth = totalWidth
+		endRegWidth = totalWidth
 	}
 
 	return Access{
@@ -224,7 +226,7 @@ func MakeArrayNRegsAccess(itemCount, startAddr, startBit, width int64) Access {
 		StartBit:      startBit,
 		EndBit:        endBit,
 		StartRegWidth: startRegWidth,
-		EndRegWidth:   endBit + 1,
+		EndRegWidth:   endRegWidth,
 	}
 }
 
-- 
2.43.0


From a643c1e7b03d39d39762c59307269df4e35185f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:52 +0000
Subject: [PATCH 05/78] fix: resolve argument lists in all symbols of a scope

---
 internal/ins/args.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/ins/args.go b/internal/ins/args.go
index 8bbd01a..af4716d 100644
--- a/internal/ins/args.go
+++ b/internal/ins/args.go
@@ -40,7 +40,10 @@ func resolveArgListsInSymbols(syms []prs.Symbol) error {
 		}
 
 		if len(f.Symbols()) > 0 {
-			return resolveArgListsInSymbols(f.Symbols())
+			err := resolveArgListsInSymbols(f.Symbols())
+			if err != nil {
+				return err
+			}
 		}
 	}
 
-- 
2.43.0


From 3d6ff5794dc1d40c6a618144196486932b2f959a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:55 +0000
Subject: [PATCH 06/78] fix: do not mix arguments passed to ancestor type with
 own parameters

---
 internal/ins/type_chain.go | 14 +++++++-------
 internal/prs/func.go       |  1 +
 internal/prs/inst.go       |  5 +----
 internal/prs/type.go       |  6 ++++--
 4 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/internal/ins/type_chain.go b/internal/ins/type_chain.go
index a0b845a..afd7222 100644
--- a/internal/ins/type_chain.go
+++ b/internal/ins/type_chain.go
@@ -6,19 +6,19 @@ import (
 
 func typeChainIter(typeChain []prs.Functionality) func() (prs.Functionality, bool) {
 	tc := typeChain
+
+	// Arguments for type parameters are provided by the next element in the chain.
+	// Bind them all before iterating, as evaluation of an argument may require parameters of the next type.
+	for i := 0; i+1 < len(tc); i++ {
+		tc[i].BindParams(tc[i+1].ResolvedArgs())
+	}
+
 	i := 0
 	return func() (prs.Functionality, bool) {
 		if i == len(tc) {
 			return nil, false
 		}
-		resolvedArgs := make(map[string]prs.Expr)
-		if (i+1) < len(tc) && tc[i+1].ResolvedArgs() != nil {
-			resolvedArgs = tc[i+1].ResolvedArgs()
-		}
 		typ := tc[i]
-		if resolvedArgs != nil {
-			typ.SetResolvedArgs(resolvedArgs)
-		}
 		i += 1
 		return typ, true
 	}
diff --git a/internal/prs/func.go b/internal/prs/func.go
index 23a4042..9322adb 100644
--- a/internal/prs/func.go
+++ b/internal/prs/func.go
@@ -12,6 +12,7 @@ type Functionality interface {
 	Params() []Param
 	SetResolvedArgs(args map[string]Expr)
 	ResolvedArgs() map[string]Expr
+	BindParams(args map[string]Expr)
 	Props() PropContainer
 	Symbols() []Symbol
 }
diff --git a/internal/prs/inst.go b/internal/prs/inst.go
index b3992f8..b41e0f0 100644
--- a/internal/prs/inst.go
+++ b/internal/prs/inst.go
@@ -33,10 +33,6 @@ func (i *Inst) GetConst(name string) (*Const, error) {
 		return sym, nil
 	}
 
-	if v, ok := i.resolvedArgs[name]; ok {
-		return &Const{Value: v}, nil
-	}
-
 	return i.scope.GetConst(name)
 }
 
@@ -61,6 +57,7 @@ func (i *Inst) GetType(name string) (*Type, error) {
 func (i Inst) Args() []Arg                         { return i.argList.Args }
 func (i *Inst) SetResolvedArgs(ra map[string]Expr) { i.resolvedArgs = ra }
 func (i Inst) ResolvedArgs() map[string]Expr       { return i.resolvedArgs }
+func (i *Inst) BindParams(args map[string]Expr)    {} // Instantiation has no parameters.
 func (i Inst) Props() PropContainer                { return i.props }
 func (i Inst) Symbols() []Symbol                   { return i.symbolContainer.Symbols() }
 
diff --git a/internal/prs/type.go b/internal/prs/type.go
index cca11e5..d337011 100644
--- a/internal/prs/type.go
+++ b/internal/prs/type.go
@@ -17,7 +17,8 @@ type Type struct {
 
 	params       []Param
 	args         ArgList
-	resolvedArgs map[string]Expr
+	resolvedArgs map[string]Expr // Arguments for parameters of the ancestor type
+	boundParams  map[string]Expr // Arguments for own parameters
 
 	props PropContainer
 	symbolContainer
@@ -29,7 +30,7 @@ func (t *Type) GetConst(name string) (*Const, error) {
 		return sym, nil
 	}
 
-	if v, ok := t.resolvedArgs[name]; ok {
+	if v, ok := t.boundParams[name]; ok {
 		return &Const{Value: v}, nil
 	}
 
@@ -60,6 +61,7 @@ func (t Type) Args() []Arg                         { return t.args.Args }
 func (t Type) Params() []Param                     { return t.params }
 func (t *Type) SetResolvedArgs(ra map[string]Expr) { t.resolvedArgs = ra }
 func (t Type) ResolvedArgs() map[string]Expr       { return t.resolvedArgs }
+func (t *Type) BindParams(args map[string]Expr)    { t.boundParams = args }
 func (t Type) Props() PropContainer                { return t.props }
 func (t Type) Symbols() []Symbol                   { return t.symbolContainer.Symbols() }
 func (t Type) IsArray() bool                       { return false }
-- 
2.43.0


From 8f1d83524e89618dbb019747d0888194fbda0541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:57 +0000
Subject: [PATCH 07/78] fix: do not instantiate package level type definitions

---
 internal/ins/ins.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ins/ins.go b/internal/ins/ins.go
index 22f3c46..38135f6 100644
--- a/internal/ins/ins.go
+++ b/internal/ins/ins.go
@@ -68,7 +68,7 @@ func Instantiate(packages prs.Packages, mainName string) (*fn.Block, map[string]
 		for _, pkg := range pkgs {
 			for _, symbol := range pkg.Symbols() {
 				name := symbol.Name()
-				prsFn, ok := symbol.(prs.Functionality)
+				prsFn, ok := symbol.(*prs.Inst)
 				if !ok {
 					continue
 				}
-- 
2.43.0


From 9b72c60f8bc6eeb784c7d85b60371ecc850fb3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:12 +0000
Subject: [PATCH 08/78] fix: reject argument lists not matching type parameters

---
 internal/ins/args.go | 47 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/internal/ins/args.go b/internal/ins/args.go
index af4716d..e56c0a0 100644
--- a/internal/ins/args.go
+++ b/internal/ins/args.go
@@ -63,6 +63,11 @@ func resolveArgs(symbol prs.Functionality) (map[string]prs.Expr, error) {
 
 	params := typeSymbol.Params()
 
+	err = checkArgs(args, params)
+	if err != nil {
+		return nil, err
+	}
+
 	var argName string
 	var argHasName bool
 	for i, p := range params {
@@ -114,3 +119,45 @@ func resolveArgs(symbol prs.Functionality) (map[string]prs.Expr, error) {
 
 	return resolvedArgs, nil
 }
+
+// checkArgs checks whether arguments match type parameters.
+func checkArgs(args []prs.Arg, params []prs.Param) error {
+	if len(args) > len(params) {
+		return fmt.Errorf(
+			"too many arguments, type has %d parameters, but %d arguments were provided",
+			len(params), len(args),
+		)
+	}
+
+	provided := make(map[string]bool)
+
+	for i, a := range args {
+		name := a.Name
+		if name == "" {
+			name = params[i].Name
+		} else {
+			known := false
+			for _, p := range params {
+				if p.Name == name {
+					known = true
+				}
+			}
+			if !known {
+				return fmt.Errorf("type has no parameter named '%s'", name)
+			}
+		}
+
+		if provided[name] {
+			return fmt.Errorf("multiple arguments provided for parameter '%s'", name)
+		}
+		provided[name] = true
+	}
+
+	for _, p := range params {
+		if !provided[p.Name] && p.DfltValue == nil {
+			return fmt.Errorf("missing argument for parameter '%s'", p.Name)
+		}
+	}
+
+	return nil
+}
-- 
2.43.0


From 9405fbfacf85346b61e9b6f79460505d2af0d119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:14 +0000
Subject: [PATCH 09/78] fix: tokenize every subtraction operator following
 identifier

---
 internal/tok/parse.go | 111 +++++++++---------------------------------
 1 file changed, 22 insertions(+), 89 deletions(-)

diff --git a/internal/tok/parse.go b/internal/tok/parse.go
index 6b2db15..7580c92 100644
--- a/internal/tok/parse.go
+++ b/internal/tok/parse.go
@@ -769,47 +769,28 @@ func parseWord(ctx *context, toks *[]Token) (Token, error) {
 	defer func() { ctx.idx = t.End() + 1 }()
 	word, hasHyphen, hasDot := getWord(ctx.src, ctx.idx)
 
-	qualIdentErrMsg := "symbol name in qualified identifier must start with letter"
-	if hasHyphen && hasDot {
-		// This is for sure part of an expression
-		chunks := bytes.Split(word, []byte{'-'})
-		for i, chunk := range chunks {
-			if bytes.Contains(chunk, []byte{'.'}) {
-				t = QualIdent{
-					position{
-						start:  ctx.idx,
-						end:    ctx.idx + len(chunk) - 1,
-						line:   ctx.line,
-						column: ctx.col(ctx.idx),
-						src:    ctx.src,
-						path:   ctx.path,
-					},
-				}
-				if !isValidQualifiedIdentifier(chunk) {
-					return t, Error{qualIdentErrMsg, []Token{t}}
-				}
-			} else {
-				t = Ident{
-					position{
-						start:  ctx.idx,
-						end:    ctx.idx + len(chunk) - 1,
-						line:   ctx.line,
-						column: ctx.col(ctx.idx),
-						src:    ctx.src,
-						path:   ctx.path,
-					},
-				}
+	if hasHyphen {
+		// The word might be a property.
+		t = parseProperty(word, ctx)
+		if _, ok := t.(None); !ok {
+			// Properties are properties only if they are in valid place.
+			prevTok, ok := lastToken(*toks)
+			if !ok {
+				return t, nil
 			}
-			if i == len(chunks)-1 {
+			switch prevTok.(type) {
+			case Newline, Indent, Semicolon:
 				return t, nil
 			}
-			*toks = append(*toks, t)
-			ctx.idx += len(chunks[i])
-			t = Sub{ctx.pos()}
-			*toks = append(*toks, t)
-			ctx.idx++
 		}
-	} else if hasDot {
+		// Otherwise, the word is part of an expression, and the hyphen is the subtraction operator.
+		// Take only the left operand, the rest is parsed as separate tokens.
+		word = word[:bytes.IndexByte(word, '-')]
+		hasDot = bytes.IndexByte(word, '.') >= 0
+		t = Ident{position{ctx.idx, ctx.idx + len(word) - 1, ctx.line, ctx.col(ctx.idx), ctx.src, ctx.path}}
+	}
+
+	if hasDot {
 		// It is qualified identifier
 		t = QualIdent{position{
 			start:  ctx.idx,
@@ -821,32 +802,15 @@ func parseWord(ctx *context, toks *[]Token) (Token, error) {
 		}}
 
 		if !isValidQualifiedIdentifier(word) {
-			return t, Error{qualIdentErrMsg, []Token{t}}
+			return t, Error{
+				"symbol name in qualified identifier must start with letter",
+				[]Token{t},
+			}
 		}
 
 		return t, nil
 	}
 
-	splitHyphenatedWord := func() (Ident, Sub, Ident) {
-		i1 := Ident{ctx.pos()}
-		s := Sub{position{line: ctx.line}}
-		i2 := Ident{position{end: ctx.idx + len(word) - 1, line: ctx.line}}
-
-		for i := range word {
-			if word[i] == '-' {
-				i1.end = ctx.idx + i - 1
-
-				s.start = ctx.idx + i
-				s.end = ctx.idx + i
-				s.column = ctx.col(ctx.idx + i)
-
-				i2.start = ctx.idx + i + 1
-				i2.column = ctx.col(ctx.idx + i + 1)
-			}
-		}
-		return i1, s, i2
-	}
-
 	if !hasHyphen {
 		// Firstly assume word is a keyword
 		t = parseKeyword(word, ctx)
@@ -882,37 +846,6 @@ func parseWord(ctx *context, toks *[]Token) (Token, error) {
 				t = Ident{position{t.Start(), t.End(), t.Line(), t.Column(), ctx.src, ctx.path}}
 			}
 		}
-	} else {
-		// Firstly assume word is a property
-		t = parseProperty(word, ctx)
-		// If it is not property, then it is part of an expression.
-		if _, ok := t.(None); ok {
-			// t is last, as deferred function has to calculate new context index.
-			i1, sub, i2 := splitHyphenatedWord()
-			t = i2
-			*toks = append(*toks, []Token{i1, sub, i2}...)
-			// Assing to t for updating context index in deferred function
-			t = i2
-			return None{}, nil
-		} else {
-			// It might be property, or part of an expression.
-			prevTok, ok := lastToken(*toks)
-			if !ok {
-				// Safe to return, time literal units do not contain hyphen '-'.
-				return t, nil
-			}
-			// It is part of an expression.
-			switch prevTok.(type) {
-			case Newline, Indent, Semicolon:
-				// It is property
-			default:
-				i1, sub, i2 := splitHyphenatedWord()
-				*toks = append(*toks, []Token{i1, sub, i2}...)
-				// Assing to t for updating context index in deferred function
-				t = i2
-				return None{}, nil
-			}
-		}
 	}
 
 	// The word might be the unit of time literal
-- 
2.43.0


From 0263b7e689b564c11df8ecfe7abd185650aece3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:17 +0000
Subject: [PATCH 10/78] fix: report qualified identifier with empty symbol name

---
 internal/tok/parse.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/tok/parse.go b/internal/tok/parse.go
index 7580c92..dbd926a 100644
--- a/internal/tok/parse.go
+++ b/internal/tok/parse.go
@@ -759,6 +759,9 @@ func parseHexInt(ctx *context) (Int, error) {
 func isValidQualifiedIdentifier(qi []byte) bool {
 	aux := bytes.Split(qi, []byte("."))
 	sym := aux[1]
+	if len(sym) == 0 {
+		return false
+	}
 	r := []rune(string(sym))[0]
 	return unicode.IsUpper(r) || unicode.IsLower(r)
 }
-- 
2.43.0


From daa6901ffc4d1f3a9d0097c8c23d1076bf1024c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:20 +0000
Subject: [PATCH 11/78] fix: recognize properties placed after indent decrease

---
 internal/tok/parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tok/parse.go b/internal/tok/parse.go
index dbd926a..55c5665 100644
--- a/internal/tok/parse.go
+++ b/internal/tok/parse.go
@@ -782,7 +782,7 @@ func parseWord(ctx *context, toks *[]Token) (Token, error) {
 				return t, nil
 			}
 			switch prevTok.(type) {
-			case Newline, Indent, Semicolon:
+			case Newline, Indent, Dedent, Semicolon:
 				return t, nil
 			}
 		}
@@ -828,7 +828,7 @@ func parseWord(ctx *context, toks *[]Token) (Token, error) {
 				// otherwise, these are regular identifiers.
 				if prevTok, ok := lastToken(*toks); ok {
 					switch prevTok.(type) {
-					case Newline, Semicolon, Indent:
+					case Newline, Semicolon, Indent, Dedent:
 						// Do nothing, this is property
 					default:
 						t = Ident{position{t.Start(), t.End(), t.Line(), t.Column(), ctx.src, ctx.path}}
-- 
2.43.0


From 73fde7fdde39c596db8f77c81786961b52dd766a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:22 +0000
Subject: [PATCH 12/78] fix: track line breaks in string literals

---
 internal/tok/join.go  | 8 ++------
 internal/tok/parse.go | 6 ++++--
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/internal/tok/join.go b/internal/tok/join.go
index f3372e0..93be1a2 100644
--- a/internal/tok/join.go
+++ b/internal/tok/join.go
@@ -5,16 +5,12 @@ package tok
 //
 // It panics if:
 //   - tokens are from different source,
-//   - tokens are not in the same line,
 //   - tok1 is after tok2.
 func Join(tok1, tok2 Token) Token {
-	if tok1.Line() != tok2.Line() {
+	if tok1.Path() != tok2.Path() {
 		panic("cannot join tokens from different files")
 	}
-	if tok1.Line() != tok2.Line() {
-		panic("cannot join tokens placed in different lines")
-	}
-	if tok1.Column() > tok2.Column() {
+	if tok1.Start() > tok2.Start() {
 		panic("cannot join tokens, tok1 starts after tok2")
 	}
 
diff --git a/internal/tok/parse.go b/internal/tok/parse.go
index 55c5665..a55d072 100644
--- a/internal/tok/parse.go
+++ b/internal/tok/parse.go
@@ -510,8 +510,10 @@ func parseString(ctx *context) (String, error) {
 			return t, Error{"unterminated string, probably missing '\"'", []Token{t}}
 		}
 		b := ctx.byte()
-		if b != '\n' {
-			t.end++
+		t.end++
+		if b == '\n' {
+			ctx.nlIdx = ctx.idx
+			ctx.line++
 		}
 		if b == '"' {
 			break
-- 
2.43.0


From 74849dc82a8baccba46c603a20972db0088a5cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:25 +0000
Subject: [PATCH 13/78] fix: do not read past the end of the source when
 reporting errors

---
 internal/tok/error.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/tok/error.go b/internal/tok/error.go
index cbb7175..97a0045 100644
--- a/internal/tok/error.go
+++ b/internal/tok/error.go
@@ -74,6 +74,11 @@ func (err Error) code(tok Token) string {
 		lineEndIdx--
 	}
 
+	// Eof token is placed right after the last byte of the source.
+	if lineEndIdx >= len(src) {
+		lineEndIdx = len(src) - 1
+	}
+
 	line := src[lineStartIdx : lineEndIdx+1]
 
 	b.WriteRune(' ')
-- 
2.43.0


From ab0a1db9c80416d045822e318712e8f07eced5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:27 +0000
Subject: [PATCH 14/78] fix: support parenthesized expressions

---
 internal/prs/expr.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/prs/expr.go b/internal/prs/expr.go
index 29d11d9..f53c35b 100644
--- a/internal/prs/expr.go
+++ b/internal/prs/expr.go
@@ -41,6 +41,8 @@ func MakeExpr(astExpr ast.Expr, src []byte, s Scope) (Expr, error) {
 		expr, err = MakeFloat(e, src)
 	case ast.String:
 		expr = MakeString(e, src)
+	case ast.ParenExpr:
+		expr, err = MakeExpr(e.X, src, s)
 	case ast.Time:
 		expr, err = MakeTime(e, src, s)
 	case ast.UnaryExpr:
-- 
2.43.0


From cd483def828be00f6cecbddb78f4bb45208054bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:27 +0000
Subject: [PATCH 15/78] fix: report division by zero in expressions

---
 internal/prs/expr.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/prs/expr.go b/internal/prs/expr.go
index f53c35b..bcfc8e8 100644
--- a/internal/prs/expr.go
+++ b/internal/prs/expr.go
@@ -98,6 +98,12 @@ func (be BinaryExpr) Eval() (val.Value, error) {
 		case tok.Div:
 			switch y := y.(type) {
 			case val.Int:
+				if y == 0 {
+					return nil, tok.Error{
+						Msg:  "division by zero",
+						Toks: []tok.Token{be.ast.Y.Tok()},
+					}
+				}
 				if x%y == 0 {
 					v = x / y
 				} else {
@@ -107,6 +113,12 @@ func (be BinaryExpr) Eval() (val.Value, error) {
 		case tok.Rem:
 			switch y := y.(type) {
 			case val.Int:
+				if y == 0 {
+					return nil, tok.Error{
+						Msg:  "division by zero",
+						Toks: []tok.Token{be.ast.Y.Tok()},
+					}
+				}
 				v = x % y
 			}
 		case tok.Exp:
-- 
2.43.0


From 7173f758c09a9a70bdc9176a70c3db4a84bfd07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:29 +0000
Subject: [PATCH 16/78] fix: calculate integer exponentiation without loss of
 precision

---
 internal/prs/expr.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/internal/prs/expr.go b/internal/prs/expr.go
index bcfc8e8..b3305b6 100644
--- a/internal/prs/expr.go
+++ b/internal/prs/expr.go
@@ -124,7 +124,11 @@ func (be BinaryExpr) Eval() (val.Value, error) {
 		case tok.Exp:
 			switch y := y.(type) {
 			case val.Int:
-				v = val.Int(int64(math.Pow(float64(x), float64(y))))
+				if y >= 0 {
+					v = intPow(x, y)
+				} else {
+					v = val.Int(int64(math.Pow(float64(x), float64(y))))
+				}
 			}
 		case tok.LShift:
 			switch y := y.(type) {
@@ -192,6 +196,18 @@ func (be BinaryExpr) Eval() (val.Value, error) {
 	}
 }
 
+// intPow returns x to the power of y, y must not be negative.
+func intPow(x, y val.Int) val.Int {
+	r := val.Int(1)
+	for ; y > 0; y >>= 1 {
+		if y&1 == 1 {
+			r *= x
+		}
+		x *= x
+	}
+	return r
+}
+
 func MakeBinaryExpr(be ast.BinaryExpr, src []byte, s Scope) (BinaryExpr, error) {
 	x, err := MakeExpr(be.X, src, s)
 	if err != nil {
-- 
2.43.0


From e994bc884442676f31e1d68b940a0f56ccf76287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:32 +0000
Subject: [PATCH 17/78] fix: report calls of qualified identifiers

---
 internal/ast/expr.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/ast/expr.go b/internal/ast/expr.go
index 9b6915b..6c3f971 100644
--- a/internal/ast/expr.go
+++ b/internal/ast/expr.go
@@ -135,9 +135,9 @@ func buildExpr(ctx *context, leftOp tok.Operator) (Expr, error) {
 			expr, err = buildIdent(ctx)
 		}
 	case tok.QualIdent:
-		switch ctx.nextTok().(type) {
+		switch nt := ctx.nextTok().(type) {
 		case tok.LParen:
-			expr, err = buildCallExpr(ctx)
+			return Ident{}, unexpected(nt, "operator, function name cannot be qualified identifier")
 		default:
 			expr, err = buildQualIdent(ctx)
 		}
-- 
2.43.0


From eed832c546f8d880911cdec0887cd9f2dc78e13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:34 +0000
Subject: [PATCH 18/78] fix: encode negative values as U2 bit strings

---
 internal/val/bit_str.go | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/internal/val/bit_str.go b/internal/val/bit_str.go
index 009a3c7..96e8c3b 100644
--- a/internal/val/bit_str.go
+++ b/internal/val/bit_str.go
@@ -3,6 +3,7 @@ package val
 import (
 	"fmt"
 	"math"
+	"math/big"
 )
 
 // BitStr represents FBDL bit string type.
@@ -149,21 +150,20 @@ func BitStrFromInt(v Int, width int64) (BitStr, error) {
 			)
 	}
 
-	if i >= 0 {
-		var s string
-		if width%4 == 0 {
-			s = fmt.Sprintf("x\"%0*x\"", width/4, i)
-		} else if width%3 == 0 {
-			s = fmt.Sprintf("o\"%0*o\"", width/3, i)
-		} else {
-			s = fmt.Sprintf("b\"%0*b\"", width, i)
-		}
-
-		return BitStr(s), nil
+	// Use U2 encoding for negative values.
+	u := big.NewInt(i)
+	if i < 0 {
+		u.Add(u, new(big.Int).Lsh(big.NewInt(1), uint(width)))
 	}
 
-	// Negative value handling
-	panic("BitStrFromInt, negative value handling not yet implemented")
+	var s string
+	if width%4 == 0 {
+		s = fmt.Sprintf("x\"%0*x\"", width/4, u)
+	} else if width%3 == 0 {
+		s = fmt.Sprintf("o\"%0*o\"", width/3, u)
+	} else {
+		s = fmt.Sprintf("b\"%0*b\"", width, u)
+	}
 
-	//return BitStr(""), nil
+	return BitStr(s), nil
 }
-- 
2.43.0


From f43cfd8e605aef4d507d8eb7fc2ea072629b81b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:37 +0000
Subject: [PATCH 19/78] fix: calculate range bit width without loss of
 precision

---
 pkg/fbdl/types/range.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/fbdl/types/range.go b/pkg/fbdl/types/range.go
index ce1ca78..444de4e 100644
--- a/pkg/fbdl/types/range.go
+++ b/pkg/fbdl/types/range.go
@@ -1,6 +1,6 @@
 package types
 
-import "math"
+import "math/bits"
 
 // The Range interface represents range type from the FBDL specification.
 //
@@ -23,7 +23,10 @@ type SingleRange struct {
 func (sr SingleRange) isRange() {}
 
 func (sr SingleRange) BitWidth() int64 {
-	return int64(math.Ceil(math.Log2(float64(sr.End + 1))))
+	if sr.End <= 0 {
+		return 0
+	}
+	return int64(bits.Len64(uint64(sr.End)))
 }
 
 func (sr SingleRange) Shift(offset int64) SingleRange {
-- 
2.43.0


From 8f6d06a7b4f07a3f2a423a14cb92efac42bb5ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:39 +0000
Subject: [PATCH 20/78] fix: do not move address backwards for empty ArrayNRegs

---
 pkg/fbdl/types/access.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/fbdl/types/access.go b/pkg/fbdl/types/access.go
index c17e77d..4fef562 100644
--- a/pkg/fbdl/types/access.go
+++ b/pkg/fbdl/types/access.go
@@ -208,6 +208,12 @@ func MakeArrayNRegsAccess(itemCount, startAddr, startBit, width int64) Access {
 	regCount := int64(math.Ceil((float64(totalWidth)-float64(firstRegWidth))/float64(busWidth))) + 1
 	endBit := (startBit + itemCount*width - 1) % busWidth
 
+	// Empty array also has its place in the register.
+	if totalWidth == 0 {
+		regCount = 1
+		endBit = startBit - 1
+	}
+
 	startRegWidth := busWidth - startBit
 	endRegWidth := endBit + 1
 	if regCount == 1 {
-- 
2.43.0


From dda7857633ef508fde8853f1f35528ab17a89674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:51 +0000
Subject: [PATCH 21/78] fix: place static arrays fitting single register in one
 register

---
 internal/reg/static.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/reg/static.go b/internal/reg/static.go
index c745b58..9fbd863 100644
--- a/internal/reg/static.go
+++ b/internal/reg/static.go
@@ -45,7 +45,9 @@ func regStaticArray(st *fn.Static, addr int64, gp *gap.Pool) int64 {
 	var acs types.Access
 
 	// TODO: In all below branches a potential gap can be added.
-	if busWidth/2 < st.Width && st.Width <= busWidth {
+	if st.Count*st.Width <= busWidth {
+		acs = types.MakeArrayOneRegAccess(st.Count, addr, 0, st.Width)
+	} else if busWidth/2 < st.Width && st.Width <= busWidth {
 		acs = types.MakeArrayOneInRegAccess(st.Count, addr, 0, st.Width)
 	} else if st.Width <= busWidth/2 && st.Count%(busWidth/st.Width) == 0 {
 		acs = types.MakeArrayNInRegAccess(st.Count, addr, st.Width)
-- 
2.43.0


From 225be108a1b381d26db4df91b974ab950807f849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:51 +0000
Subject: [PATCH 22/78] fix: support extension of octal bit strings

---
 pkg/fbdl/types/bit_str.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/fbdl/types/bit_str.go b/pkg/fbdl/types/bit_str.go
index 57f0293..e93a87e 100644
--- a/pkg/fbdl/types/bit_str.go
+++ b/pkg/fbdl/types/bit_str.go
@@ -59,7 +59,7 @@ func (bs BitStr) Extend(width int64) BitStr {
 	case 'b':
 		return extendBin(bs, width)
 	case 'o':
-		panic("not yet implemented")
+		return extendBin(bs.ToBin(), width)
 	case 'x':
 		return extendHex(bs, width)
 	default:
-- 
2.43.0


From a3e714697217b9908741c02aecbb2f5d89c5a100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:35 +0000
Subject: [PATCH 23/78] fix: respect bus width set in type of the main bus

---
 internal/ins/ins.go | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/internal/ins/ins.go b/internal/ins/ins.go
index 38135f6..be9ff5a 100644
--- a/internal/ins/ins.go
+++ b/internal/ins/ins.go
@@ -17,17 +17,28 @@ const dfltBusWidth int64 = 32
 var busWidth int64
 
 func setBusWidth(main *prs.Inst) error {
-	prop, ok := main.Props().Get("width")
-	if !ok {
-		busWidth = dfltBusWidth
-		return nil
+	busWidth = dfltBusWidth
+
+	// The width property might be set in any of the ancestor types.
+	tci := typeChainIter(resolveToBaseType(main))
+	for {
+		typ, ok := tci()
+		if !ok {
+			return nil
+		}
+
+		if prop, ok := typ.Props().Get("width"); ok {
+			return setBusWidthFromProp(typ, prop)
+		}
 	}
+}
 
+func setBusWidthFromProp(typ prs.Functionality, prop prs.Prop) error {
 	v, err := prop.Value.Eval()
 	if err != nil {
 		return fmt.Errorf(
 			"%s:%s: cannot evaluate main bus 'width' property",
-			main.File().Path, prop.Loc(),
+			typ.File().Path, prop.Loc(),
 		)
 	}
 
@@ -36,7 +47,7 @@ func setBusWidth(main *prs.Inst) error {
 	} else {
 		return fmt.Errorf(
 			"%s:%s: main bus 'width' property must be of integer type, current type %s",
-			main.File().Path, prop.Loc(), v.Type(),
+			typ.File().Path, prop.Loc(), v.Type(),
 		)
 	}
 
@@ -52,12 +63,12 @@ func Instantiate(packages prs.Packages, mainName string) (*fn.Block, map[string]
 	}
 	log.Printf("debug: instantiating '%s' as the main bus", mainName)
 
-	err = setBusWidth(main)
+	err = resolveArgLists(packages)
 	if err != nil {
 		log.Fatalf("%v", err)
 	}
 
-	err = resolveArgLists(packages)
+	err = setBusWidth(main)
 	if err != nil {
 		log.Fatalf("%v", err)
 	}
-- 
2.43.0


From 17d152275b8f41639f1c663807dcefdc8d89c603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:38 +0000
Subject: [PATCH 24/78] fix: reject main bus with zero width

---
 internal/ins/ins.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/ins/ins.go b/internal/ins/ins.go
index be9ff5a..00dcb3e 100644
--- a/internal/ins/ins.go
+++ b/internal/ins/ins.go
@@ -43,6 +43,12 @@ func setBusWidthFromProp(typ prs.Functionality, prop prs.Prop) error {
 	}
 
 	if vi, ok := v.(val.Int); ok {
+		if vi == 0 {
+			return fmt.Errorf(
+				"%s:%s: main bus 'width' property must be positive, current value 0",
+				typ.File().Path, prop.Loc(),
+			)
+		}
 		busWidth = int64(vi)
 	} else {
 		return fmt.Errorf(
-- 
2.43.0


From cba93e607fb5051b9e6591747507dcf600c09c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:40 +0000
Subject: [PATCH 25/78] fix: do not accept bus properties for block types

---
 internal/ins/block.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/ins/block.go b/internal/ins/block.go
index 7fe70c4..f463596 100644
--- a/internal/ins/block.go
+++ b/internal/ins/block.go
@@ -32,7 +32,7 @@ func insBlock(typeChain []prs.Functionality) (*fn.Block, error) {
 		if !ok {
 			break
 		}
-		err := applyBlockType(&blk, typ)
+		err := applyBlockType(&blk, typ, typeChain[0].Type())
 		if err != nil {
 			return nil, fmt.Errorf("%v", err)
 		}
@@ -43,9 +43,10 @@ func insBlock(typeChain []prs.Functionality) (*fn.Block, error) {
 	return &blk, nil
 }
 
-func applyBlockType(blk *fn.Block, typ prs.Functionality) error {
+// baseTyp is the base type of the type chain, it is either "block" or "bus".
+func applyBlockType(blk *fn.Block, typ prs.Functionality, baseTyp string) error {
 	for _, p := range typ.Props() {
-		if err := util.IsValidProperty(p.Name, "bus"); err != nil {
+		if err := util.IsValidProperty(p.Name, baseTyp); err != nil {
 			return fmt.Errorf(": %v", err)
 		}
 		if err := checkProp(p); err != nil {
-- 
2.43.0


From ed3679beb2479f96b2262bb574a12c53bb0b6b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:42 +0000
Subject: [PATCH 26/78] fix: detect blackboxes, groups and irqs already
 instantiated in block

---
 internal/util/block/block.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/internal/util/block/block.go b/internal/util/block/block.go
index c8a3d49..ea55add 100644
--- a/internal/util/block/block.go
+++ b/internal/util/block/block.go
@@ -16,11 +16,26 @@ func AddStream(b *fn.Block, s *fn.Stream)      { b.Streams = append(b.Streams, s
 func AddSubblock(b *fn.Block, s *fn.Block)     { b.Subblocks = append(b.Subblocks, s) }
 
 func HasFunctionality(blk *fn.Block, name string) bool {
+	for i := range blk.Blackboxes {
+		if blk.Blackboxes[i].Name == name {
+			return true
+		}
+	}
 	for i := range blk.Configs {
 		if blk.Configs[i].Name == name {
 			return true
 		}
 	}
+	for i := range blk.Groups {
+		if blk.Groups[i].Name == name {
+			return true
+		}
+	}
+	for i := range blk.Irqs {
+		if blk.Irqs[i].Name == name {
+			return true
+		}
+	}
 	for i := range blk.Masks {
 		if blk.Masks[i].Name == name {
 			return true
-- 
2.43.0


From e7b5f6a0b3639c1ae1eb2df2adf2b654aea56556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:45 +0000
Subject: [PATCH 27/78] fix: detect irqs, params and returns already
 instantiated in group

---
 internal/util/group/group.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/internal/util/group/group.go b/internal/util/group/group.go
index 1265cbd..d1cc27c 100644
--- a/internal/util/group/group.go
+++ b/internal/util/group/group.go
@@ -12,11 +12,26 @@ func HasFunctionality(grp *fn.Group, name string) bool {
 			return true
 		}
 	}
+	for i := range grp.Irqs {
+		if grp.Irqs[i].Name == name {
+			return true
+		}
+	}
 	for i := range grp.Masks {
 		if grp.Masks[i].Name == name {
 			return true
 		}
 	}
+	for i := range grp.Params {
+		if grp.Params[i].Name == name {
+			return true
+		}
+	}
+	for i := range grp.Returns {
+		if grp.Returns[i].Name == name {
+			return true
+		}
+	}
 	for i := range grp.Statics {
 		if grp.Statics[i].Name == name {
 			return true
-- 
2.43.0


From 582bc91c8521217345c8fc0ae3fbc10a122cbf92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:47 +0000
Subject: [PATCH 28/78] fix: detect float constants already defined in ancestor
 types

---
 internal/util/constContainer/constContainer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/util/constContainer/constContainer.go b/internal/util/constContainer/constContainer.go
index ec9ae74..eb5941f 100644
--- a/internal/util/constContainer/constContainer.go
+++ b/internal/util/constContainer/constContainer.go
@@ -13,6 +13,9 @@ func HasConst(c cnst.Container, name string) bool {
 	if _, ok := c.BoolLists[name]; ok {
 		return true
 	}
+	if _, ok := c.Floats[name]; ok {
+		return true
+	}
 	if _, ok := c.Ints[name]; ok {
 		return true
 	}
-- 
2.43.0


From 648814a58294811c37a296e9c69c6ce6399f1236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:49 +0000
Subject: [PATCH 29/78] fix: check array size evaluation error before array
 size type

---
 internal/ins/common.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/ins/common.go b/internal/ins/common.go
index f5b0051..c96b811 100644
--- a/internal/ins/common.go
+++ b/internal/ins/common.go
@@ -27,13 +27,13 @@ func makeFunctionality(typeChain []prs.Functionality) (fn.Func, error) {
 		isArray = true
 		v, err := inst.Count().Eval()
 
-		if v.Type() != "integer" {
-			return fn.Func{}, fmt.Errorf("size of array must be of 'integer' type, current type '%s'", v.Type())
-		}
-
 		if err != nil {
 			return fn.Func{}, fmt.Errorf("%v", err)
 		}
+
+		if v.Type() != "integer" {
+			return fn.Func{}, fmt.Errorf("size of array must be of 'integer' type, current type '%s'", v.Type())
+		}
 		count = int64(v.(val.Int))
 		if count < 0 {
 			return fn.Func{}, tok.Error{
-- 
2.43.0


From 19f10e6f71f9e9c688720bf352068322e49154b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:52 +0000
Subject: [PATCH 30/78] fix: report main bus not being a bus

---
 internal/ins/ins.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/ins/ins.go b/internal/ins/ins.go
index 00dcb3e..19a885a 100644
--- a/internal/ins/ins.go
+++ b/internal/ins/ins.go
@@ -97,7 +97,14 @@ func Instantiate(packages prs.Packages, mainName string) (*fn.Block, map[string]
 				f := insFunctionality(prsFn)
 
 				if pkgName == "main" && name == mainName {
-					mainBus = f.(*fn.Block)
+					blk, ok := f.(*fn.Block)
+					if !ok {
+						log.Fatalf(
+							"%s:%s: main bus '%s' must be of bus type, current type %s",
+							prsFn.File().Path, prsFn.Loc(), name, f.Type(),
+						)
+					}
+					mainBus = blk
 				}
 			}
 		}
-- 
2.43.0


From 6abae29f2b70af6c53fc5b7de63b5cfe8b50df68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:54 +0000
Subject: [PATCH 31/78] fix: report package constants which cannot be evaluated

---
 internal/ins/const.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/ins/const.go b/internal/ins/const.go
index 0c3f184..b6833ad 100644
--- a/internal/ins/const.go
+++ b/internal/ins/const.go
@@ -1,6 +1,8 @@
 package ins
 
 import (
+	"log"
+
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/prs"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/util/constContainer"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/pkg"
@@ -28,7 +30,10 @@ func constifyPkg(pp *prs.Package) *pkg.Package {
 	for _, c := range pp.Consts {
 		v, err := c.Value.Eval()
 		if err != nil {
-			panic("not yet implemented")
+			log.Fatalf(
+				"%s:%s: cannot evaluate constant '%s': %v",
+				c.File().Path, c.Loc(), c.Name(), err,
+			)
 		}
 		constContainer.AddConst(&p.Consts, c.Name(), v)
 	}
-- 
2.43.0


From 177b4e7517bf704b611d3be3f5c67aec61dac9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:56 +0000
Subject: [PATCH 32/78] fix: ignore only broken symlink, not the remaining
 directory entries

---
 internal/prs/pre.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/prs/pre.go b/internal/prs/pre.go
index cdbd022..d3d9aad 100644
--- a/internal/prs/pre.go
+++ b/internal/prs/pre.go
@@ -90,7 +90,7 @@ func findPkgsInDir(dirPath string, pkgs Packages, visitedDirs map[util.DirID]str
 			dePath, err = filepath.EvalSymlinks(dePath)
 			// If symlink returns an error, just ignore it.
 			if err != nil {
-				return
+				continue
 			}
 		}
 
-- 
2.43.0


From 78a6b1c8bf633bf72f459dbea1ed8d4c8f87e209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:59 +0000
Subject: [PATCH 33/78] fix: do not panic on package files with short names

---
 internal/prs/prs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/prs/prs.go b/internal/prs/prs.go
index e49ed09..2d1150d 100644
--- a/internal/prs/prs.go
+++ b/internal/prs/prs.go
@@ -55,7 +55,7 @@ func parsePackage(pkg *Package, wg *sync.WaitGroup) {
 		if file.IsDir() {
 			continue
 		}
-		if file.Name()[len(file.Name())-4:] != ".fbd" {
+		if !strings.HasSuffix(file.Name(), ".fbd") {
 			continue
 		}
 
-- 
2.43.0


From 246f8bff0bdc78155670305b1937f56eeb9c1689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:02 +0000
Subject: [PATCH 34/78] fix: do not panic on reinstantiation in package

---
 internal/prs/pkg.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/prs/pkg.go b/internal/prs/pkg.go
index 0697fa7..3cc262a 100644
--- a/internal/prs/pkg.go
+++ b/internal/prs/pkg.go
@@ -65,7 +65,7 @@ func (p *Package) addInst(i *Inst) error {
 		msg := `reinstantiation of '%s' in package '%s'
   %s:%d:%d
   %s:%d:%d`
-		first, _ := p.symbolContainer.GetConst(i.name)
+		first, _ := p.symbolContainer.GetInst(i.name)
 		return fmt.Errorf(
 			msg, i.name, p.Name,
 			first.File().Path, first.Line(), first.Col(),
-- 
2.43.0


From b8e0430121171aa39ec9154d7e8ce303cb779656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:04 +0000
Subject: [PATCH 35/78] fix: report location of range property conflicting with
 width property

---
 internal/prs/check.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/prs/check.go b/internal/prs/check.go
index dc28aa3..1ed26f3 100644
--- a/internal/prs/check.go
+++ b/internal/prs/check.go
@@ -19,7 +19,10 @@ func checkPropConflict(typ string, prop Prop, props PropContainer) error {
 
 	if r, ok := props.Get("range"); ok {
 		if prop.Name == "width" {
-			return fmt.Errorf(msg, "width", "range", r.Line, r.Col)
+			return tok.Error{
+				Msg:  fmt.Sprintf(msg, "width", "range", r.Line(), r.Col()),
+				Toks: []tok.Token{prop.NameTok, r.NameTok},
+			}
 		}
 	}
 
-- 
2.43.0


From 67f18b16ee7cb9d3b78e6b9ae8edb9cc978c65c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:06 +0000
Subject: [PATCH 36/78] fix: make ID value as wide as ID

---
 internal/reg/reg.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/reg/reg.go b/internal/reg/reg.go
index 6331b57..1dc6be7 100644
--- a/internal/reg/reg.go
+++ b/internal/reg/reg.go
@@ -54,11 +54,11 @@ func Registerify(bus *fn.Block, addTimestamp bool) {
 	id := id()
 	id.Access = types.MakeSingleAccess(0, 0, id.Width)
 	hash := int64(hash.Hash(bus))
-	if busWidth < 32 {
-		hash = hash & ((1 << busWidth) - 1)
+	if id.Width < 32 {
+		hash = hash & ((1 << id.Width) - 1)
 	}
 	// Ignore error, the value has been trimmed to the proper width.
-	val, _ := val.BitStrFromInt(val.Int(hash), busWidth)
+	val, _ := val.BitStrFromInt(val.Int(hash), id.Width)
 	id.InitValue = types.MakeBitStr(val)
 	bus.Statics = append(bus.Statics, id)
 
-- 
2.43.0


From 24352c6db4dc56a2805a0c03513e4703dad9c996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:08 +0000
Subject: [PATCH 37/78] fix: make TIMESTAMP access as wide as TIMESTAMP

---
 internal/reg/reg.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/reg/reg.go b/internal/reg/reg.go
index 1dc6be7..ee91bf2 100644
--- a/internal/reg/reg.go
+++ b/internal/reg/reg.go
@@ -67,7 +67,7 @@ func Registerify(bus *fn.Block, addTimestamp bool) {
 			log.Fatalf("'TIMESTAMP' is reserved functionality name in main bus")
 		}
 		ts := timestamp()
-		ts.Access = types.MakeSingleAccess(timestampAddr, 0, busWidth)
+		ts.Access = types.MakeSingleAccess(timestampAddr, 0, ts.Width)
 		bus.Statics = append(bus.Statics, ts)
 	}
 }
-- 
2.43.0


From 3e90b59c9c1070ebbbc0586817981dd57c646801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:11 +0000
Subject: [PATCH 38/78] fix: report constants dependency cycles

---
 internal/prs/expr.go | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/internal/prs/expr.go b/internal/prs/expr.go
index b3305b6..effd79f 100644
--- a/internal/prs/expr.go
+++ b/internal/prs/expr.go
@@ -364,9 +364,17 @@ func MakeFloat(e ast.Float, src []byte) (Float, error) {
 type DeclaredIdentifier struct {
 	x string
 	s Scope
+
+	evaluating bool // Used for detecting cycles.
 }
 
-func (di DeclaredIdentifier) Eval() (val.Value, error) {
+func (di *DeclaredIdentifier) Eval() (val.Value, error) {
+	if di.evaluating {
+		return val.Int(0), fmt.Errorf("evaluating identifier '%s': dependency cycle", di.x)
+	}
+	di.evaluating = true
+	defer func() { di.evaluating = false }()
+
 	c, err := di.s.GetConst(di.x)
 	if err != nil {
 		return val.Int(0), fmt.Errorf("evaluating identifier '%s': %v", di.x, err)
@@ -379,16 +387,24 @@ func (di DeclaredIdentifier) Eval() (val.Value, error) {
 	return x, nil
 }
 
-func MakeDeclaredIdentifier(e ast.Ident, src []byte, s Scope) DeclaredIdentifier {
-	return DeclaredIdentifier{x: tok.Text(e.Name, src), s: s}
+func MakeDeclaredIdentifier(e ast.Ident, src []byte, s Scope) *DeclaredIdentifier {
+	return &DeclaredIdentifier{x: tok.Text(e.Name, src), s: s}
 }
 
 type QualifiedIdentifier struct {
 	x string
 	s Scope
+
+	evaluating bool // Used for detecting cycles.
 }
 
-func (qi QualifiedIdentifier) Eval() (val.Value, error) {
+func (qi *QualifiedIdentifier) Eval() (val.Value, error) {
+	if qi.evaluating {
+		return val.Int(0), fmt.Errorf("evaluating qualified identifier '%s': dependency cycle", qi.x)
+	}
+	qi.evaluating = true
+	defer func() { qi.evaluating = false }()
+
 	c, err := qi.s.GetConst(qi.x)
 	if err != nil {
 		return val.Int(0), fmt.Errorf("evaluating qualified identifier '%s': %v", qi.x, err)
@@ -401,8 +417,8 @@ func (qi QualifiedIdentifier) Eval() (val.Value, error) {
 	return x, nil
 }
 
-func MakeQualifiedIdentifier(e ast.QualIdent, src []byte, s Scope) QualifiedIdentifier {
-	return QualifiedIdentifier{x: tok.Text(e.Name, src), s: s}
+func MakeQualifiedIdentifier(e ast.QualIdent, src []byte, s Scope) *QualifiedIdentifier {
+	return &QualifiedIdentifier{x: tok.Text(e.Name, src), s: s}
 }
 
 type String struct {
-- 
2.43.0


From 68b989e0d5391361d782ddec19ea9db62a4f405c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:13 +0000
Subject: [PATCH 39/78] fix: report types derived from themselves

---
 internal/ins/ins.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/internal/ins/ins.go b/internal/ins/ins.go
index 19a885a..fe15362 100644
--- a/internal/ins/ins.go
+++ b/internal/ins/ins.go
@@ -159,6 +159,19 @@ func insFunctionality(pf prs.Functionality) fn.Functionality {
 }
 
 func resolveToBaseType(f prs.Functionality) []prs.Functionality {
+	return resolveToBaseTypeRec(f, map[prs.Functionality]bool{})
+}
+
+// resolved is used for detecting cycles.
+func resolveToBaseTypeRec(f prs.Functionality, resolved map[prs.Functionality]bool) []prs.Functionality {
+	if resolved[f] {
+		log.Fatalf(
+			"%s:%s: type '%s' is derived from itself",
+			f.File().Path, f.Loc(), f.Name(),
+		)
+	}
+	resolved[f] = true
+
 	typeChain := []prs.Functionality{}
 
 	if !util.IsBaseType(f.Type()) {
@@ -177,7 +190,7 @@ func resolveToBaseType(f prs.Functionality) []prs.Functionality {
 		}
 		typeFn := s.(prs.Functionality)
 
-		typeChain = append(typeChain, resolveToBaseType(typeFn)...)
+		typeChain = append(typeChain, resolveToBaseTypeRec(typeFn, resolved)...)
 	}
 
 	typeChain = append(typeChain, f)
-- 
2.43.0


From 88eb501111e0f49f081b2b2d5ca7c46fff77e247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:16 +0000
Subject: [PATCH 40/78] fix: report types instantiating themselves

---
 internal/ins/ins.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/ins/ins.go b/internal/ins/ins.go
index fe15362..e9d9af3 100644
--- a/internal/ins/ins.go
+++ b/internal/ins/ins.go
@@ -115,7 +115,19 @@ func Instantiate(packages prs.Packages, mainName string) (*fn.Block, map[string]
 	return mainBus, pkgs, nil
 }
 
+// beingInstantiated is used for detecting types instantiating themselves.
+var beingInstantiated = map[prs.Functionality]bool{}
+
 func insFunctionality(pf prs.Functionality) fn.Functionality {
+	if beingInstantiated[pf] {
+		log.Fatalf(
+			"%s:%s: instantiation of '%s' within type '%s' leads to infinite recursion",
+			pf.File().Path, pf.Loc(), pf.Name(), pf.Type(),
+		)
+	}
+	beingInstantiated[pf] = true
+	defer delete(beingInstantiated, pf)
+
 	typeChain := resolveToBaseType(pf)
 
 	var f fn.Functionality
-- 
2.43.0


From 10f4a029a1ad8282858fafc1a7fc9b8d2cd88100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:18 +0000
Subject: [PATCH 41/78] fix: report not creatable constants dump file

---
 cmd/fbdl/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/fbdl/main.go b/cmd/fbdl/main.go
index dbaccc3..74bb821 100644
--- a/cmd/fbdl/main.go
+++ b/cmd/fbdl/main.go
@@ -54,7 +54,7 @@ func main() {
 	if args.DumpConsts != "" {
 		f, err := os.Create(args.DumpConsts)
 		if err != nil {
-			panic(err)
+			log.Fatalf("dump packages constants: %v", err)
 		}
 
 		byteArray, err := json.MarshalIndent(pkgsConsts, "", "  ")
-- 
2.43.0


From 269664ff6e0f442dabfcc9de5fb16b326ac18cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:09 +0000
Subject: [PATCH 42/78] fix: don't drop single character documentation lines

---
 internal/ast/doc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ast/doc.go b/internal/ast/doc.go
index 8a12d0d..e71582b 100644
--- a/internal/ast/doc.go
+++ b/internal/ast/doc.go
@@ -29,7 +29,7 @@ func (d Doc) Text(src []byte) string {
 			}
 		}
 
-		if len(t) > 2 {
+		if len(t) > start {
 			text += t[start:]
 		}
 
-- 
2.43.0


From 63d9381606383df48d4f3ba6a45b699fa50d04c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:11 +0000
Subject: [PATCH 43/78] fix: don't attach detached comments to documentation

---
 internal/ast/doc.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/ast/doc.go b/internal/ast/doc.go
index e71582b..967a1dc 100644
--- a/internal/ast/doc.go
+++ b/internal/ast/doc.go
@@ -55,6 +55,10 @@ func buildDoc(ctx *context) Doc {
 				prevNewline = true
 			}
 		case tok.Comment:
+			if t.Line() != doc.endLine()+1 {
+				// Blank line detaches preceding comments.
+				doc.Lines = nil
+			}
 			doc.Lines = append(doc.Lines, t)
 			prevNewline = false
 		default:
-- 
2.43.0


From 2caa5995e77340f866356c1a7609b16d912741e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:14 +0000
Subject: [PATCH 44/78] fix: attach documentation to symbols defined in bodies

---
 internal/ast/body.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/ast/body.go b/internal/ast/body.go
index e04a3d1..de6bb4b 100644
--- a/internal/ast/body.go
+++ b/internal/ast/body.go
@@ -37,13 +37,16 @@ tokenLoop:
 		case tok.Const:
 			consts, err = buildConst(ctx)
 			if len(consts) > 0 {
-				if doc.endLine() == consts[0].Name.Line()+1 {
+				if doc.endLine() == consts[0].Name.Line()-1 {
 					consts[0].Doc = doc
 				}
 				body.Consts = append(body.Consts, consts...)
 			}
 		case tok.Ident:
 			ins, err = buildInst(ctx)
+			if doc.endLine() == ins.Name.Line()-1 {
+				ins.Doc = doc
+			}
 			body.Insts = append(body.Insts, ins)
 		case tok.Property:
 			props, err = buildPropAssignments(ctx)
-- 
2.43.0


From d006720a3ae4edfc48c3f13b1b62eeadc2595286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:16 +0000
Subject: [PATCH 45/78] fix: accept comments in constant and import blocks

---
 internal/ast/const.go  | 3 +++
 internal/ast/import.go | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/ast/const.go b/internal/ast/const.go
index 8a74ab5..9d41de7 100644
--- a/internal/ast/const.go
+++ b/internal/ast/const.go
@@ -73,6 +73,9 @@ tokenLoop:
 			case tok.Ident:
 				con.Name = t
 				state = Ass
+			case tok.Comment:
+				con.Doc = buildDoc(ctx)
+				ctx.idx--
 			default:
 				return nil, unexpected(t, "identifier")
 			}
diff --git a/internal/ast/import.go b/internal/ast/import.go
index f9b8d46..59e4321 100644
--- a/internal/ast/import.go
+++ b/internal/ast/import.go
@@ -73,7 +73,7 @@ tokenLoop:
 				i.Path = t
 				imps = append(imps, i)
 				i = Import{}
-			case tok.Newline:
+			case tok.Newline, tok.Comment:
 				// Do nothing
 			case tok.Dedent:
 				ctx.idx++
-- 
2.43.0


From be84611feae071e9855b4ac16bd794787cd8ddcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:39 +0000
Subject: [PATCH 46/78] fix: check virtual group set virtual in derived type

---
 internal/ins/group.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/internal/ins/group.go b/internal/ins/group.go
index 7699b5b..ee76470 100644
--- a/internal/ins/group.go
+++ b/internal/ins/group.go
@@ -162,6 +162,19 @@ func addGroupInnerElement(grp *fn.Group, f any) error {
 }
 
 func checkGroup(grp fn.Group) error {
+	// The virtual property might be set in a type derived from the one instantiating functionalities.
+	if grp.Virtual {
+		if len(grp.Irqs) > 0 {
+			return fmt.Errorf("virtual group '%s' contains irq '%s', virtual irq group makes no sense", grp.Name, grp.Irqs[0].Name)
+		}
+		if len(grp.Params) > 0 {
+			return fmt.Errorf("virtual group '%s' contains param '%s', virtual param group makes no sense", grp.Name, grp.Params[0].Name)
+		}
+		if len(grp.Returns) > 0 {
+			return fmt.Errorf("virtual group '%s' contains return '%s', virtual return group makes no sense", grp.Name, grp.Returns[0].Name)
+		}
+	}
+
 	if len(grp.Irqs) > 0 {
 		return checkIrqGroup(grp)
 	}
-- 
2.43.0


From 1ce731877083c57a4666462767eb1938461243d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:12 +0000
Subject: [PATCH 47/78] fix: file of types nested in bodies

---
 internal/prs/type.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/internal/prs/type.go b/internal/prs/type.go
index d337011..cd4b79b 100644
--- a/internal/prs/type.go
+++ b/internal/prs/type.go
@@ -37,6 +37,19 @@ func (t *Type) GetConst(name string) (*Const, error) {
 	return t.scope.GetConst(name)
 }
 
+func (t *Type) File() *File {
+	if t.file != nil {
+		return t.file
+	}
+
+	// Nested type.
+	if s, ok := t.scope.(Symbol); ok {
+		return s.File()
+	}
+
+	panic("should never happen")
+}
+
 func (t *Type) GetInst(name string) (*Inst, error) {
 	sym, ok := t.symbolContainer.GetInst(name)
 	if ok {
-- 
2.43.0


From b288d33cfd408da2cb3ffae12f02e19c1e2d31dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:01 +0000
Subject: [PATCH 48/78] fix: irq enable bit outside of the register for one bit
 bus

---
 internal/reg/irq.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/reg/irq.go b/internal/reg/irq.go
index 7e5e5eb..01dce94 100644
--- a/internal/reg/irq.go
+++ b/internal/reg/irq.go
@@ -32,7 +32,12 @@ func regIrqSingle(irq *fn.Irq, addr int64, gp *gap.Pool) int64 {
 
 	irq.Access = types.MakeSingleAccess(addr, 0, 1)
 	if irq.AddEnable {
-		irq.EnableAccess = types.MakeSingleAccess(addr, 1, 1)
+		if busWidth > 1 {
+			irq.EnableAccess = types.MakeSingleAccess(addr, 1, 1)
+		} else {
+			addr++
+			irq.EnableAccess = types.MakeSingleAccess(addr, 0, 1)
+		}
 		addr++
 	}
 	if irq.Clear == "Explicit" {
-- 
2.43.0


From be989e494ba09b0b6b3cea9af761403eaf75dac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:13 +0000
Subject: [PATCH 49/78] fix: respect array size set in type definition

---
 internal/ins/common.go     | 16 ++++++++++++++--
 internal/ins/type_chain.go | 15 ++++++++++-----
 internal/prs/type.go       |  2 +-
 3 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/internal/ins/common.go b/internal/ins/common.go
index c96b811..7ce5ed9 100644
--- a/internal/ins/common.go
+++ b/internal/ins/common.go
@@ -23,9 +23,21 @@ func makeFunctionality(typeChain []prs.Functionality) (fn.Func, error) {
 	isArray := false
 	count := int64(1)
 
-	if inst.IsArray() {
+	// Array size might depend on parameters of the type.
+	bindParams(typeChain)
+
+	for _, f := range typeChain {
+		if !f.IsArray() {
+			continue
+		}
+		if isArray {
+			return fn.Func{}, tok.Error{
+				Msg:  fmt.Sprintf("cannot set array size of '%s' as it is already set in one of ancestor types", f.Name()),
+				Toks: []tok.Token{f.Tok()},
+			}
+		}
 		isArray = true
-		v, err := inst.Count().Eval()
+		v, err := f.Count().Eval()
 
 		if err != nil {
 			return fn.Func{}, fmt.Errorf("%v", err)
diff --git a/internal/ins/type_chain.go b/internal/ins/type_chain.go
index afd7222..ef88cd5 100644
--- a/internal/ins/type_chain.go
+++ b/internal/ins/type_chain.go
@@ -4,14 +4,19 @@ import (
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/prs"
 )
 
-func typeChainIter(typeChain []prs.Functionality) func() (prs.Functionality, bool) {
-	tc := typeChain
-
-	// Arguments for type parameters are provided by the next element in the chain.
-	// Bind them all before iterating, as evaluation of an argument may require parameters of the next type.
+// bindParams binds parameters of all types in the type chain.
+// Arguments for type parameters are provided by the next element in the chain.
+func bindParams(tc []prs.Functionality) {
 	for i := 0; i+1 < len(tc); i++ {
 		tc[i].BindParams(tc[i+1].ResolvedArgs())
 	}
+}
+
+func typeChainIter(typeChain []prs.Functionality) func() (prs.Functionality, bool) {
+	tc := typeChain
+
+	// Bind parameters of all types before iterating, as evaluation of an argument may require parameters of the next type.
+	bindParams(tc)
 
 	i := 0
 	return func() (prs.Functionality, bool) {
diff --git a/internal/prs/type.go b/internal/prs/type.go
index cd4b79b..0451cbc 100644
--- a/internal/prs/type.go
+++ b/internal/prs/type.go
@@ -77,7 +77,7 @@ func (t Type) ResolvedArgs() map[string]Expr       { return t.resolvedArgs }
 func (t *Type) BindParams(args map[string]Expr)    { t.boundParams = args }
 func (t Type) Props() PropContainer                { return t.props }
 func (t Type) Symbols() []Symbol                   { return t.symbolContainer.Symbols() }
-func (t Type) IsArray() bool                       { return false }
+func (t Type) IsArray() bool                       { return t.count != nil }
 func (t Type) Count() Expr                         { return t.count }
 
 // buildTypes builds list of Types based on the list of ast.Type.
-- 
2.43.0


From d2a7cdf78a972458d32c0db2216c800dfab7c8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:34 +0000
Subject: [PATCH 50/78] fix: check base type of derived types instantiated at
 package level

---
 internal/ins/ins.go | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/internal/ins/ins.go b/internal/ins/ins.go
index e9d9af3..fbabc7f 100644
--- a/internal/ins/ins.go
+++ b/internal/ins/ins.go
@@ -94,17 +94,29 @@ func Instantiate(packages prs.Packages, mainName string) (*fn.Block, map[string]
 					continue
 				}
 
+				baseTyp := resolveToBaseType(prsFn)[0].Type()
+				isMain := pkgName == "main" && name == mainName
+				if isMain && baseTyp != "bus" {
+					log.Fatalf(
+						"%s:%s: main bus '%s' must be of bus type, current type %s",
+						prsFn.File().Path, prsFn.Loc(), name, baseTyp,
+					)
+				} else if baseTyp != "bus" {
+					log.Fatalf(
+						"%s:%s: functionality '%s' of type %s cannot be instantiated at package level",
+						prsFn.File().Path, prsFn.Loc(), name, baseTyp,
+					)
+				} else if pkgName != "main" {
+					log.Fatalf(
+						"%s:%s: bus instantiation must be placed within 'main' package",
+						prsFn.File().Path, prsFn.Loc(),
+					)
+				}
+
 				f := insFunctionality(prsFn)
 
-				if pkgName == "main" && name == mainName {
-					blk, ok := f.(*fn.Block)
-					if !ok {
-						log.Fatalf(
-							"%s:%s: main bus '%s' must be of bus type, current type %s",
-							prsFn.File().Path, prsFn.Loc(), name, f.Type(),
-						)
-					}
-					mainBus = blk
+				if isMain {
+					mainBus = f.(*fn.Block)
 				}
 			}
 		}
-- 
2.43.0


From 93ff885c14ecdea0ed0dfa6ef77eaf0e5e49f5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:36 +0000
Subject: [PATCH 51/78] fix: reject bus instantiated within block or bus

---
 internal/ins/block.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/internal/ins/block.go b/internal/ins/block.go
index f463596..86e2a73 100644
--- a/internal/ins/block.go
+++ b/internal/ins/block.go
@@ -107,14 +107,15 @@ func applyBlockType(blk *fn.Block, typ prs.Functionality, baseTyp string) error
 			continue
 		}
 
-		f := insFunctionality(s.(prs.Functionality))
-
-		if !util.IsValidInnerType(f.Type(), "block") {
+		innerTyp := resolveToBaseType(s.(prs.Functionality))[0].Type()
+		if !util.IsValidInnerType(innerTyp, baseTyp) {
 			return fmt.Errorf(
-				invalidInnerTypeMsg, f.GetName(), f.Type(), "block",
+				invalidInnerTypeMsg, s.Name(), innerTyp, baseTyp,
 			)
 		}
 
+		f := insFunctionality(s.(prs.Functionality))
+
 		if block.HasFunctionality(blk, f.GetName()) {
 			return fmt.Errorf(funcWithNameAlreadyInstMsg, f.GetName())
 		}
-- 
2.43.0


From 259d4e9b04d6039f545147b08a54621872be59f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:17 +0000
Subject: [PATCH 52/78] fix: report unsupported values of constants instead of
 panicking or dropping them

---
 internal/ins/block.go                         |  6 ++-
 internal/ins/const.go                         |  6 ++-
 internal/ins/group.go                         |  6 ++-
 .../util/constContainer/constContainer.go     | 41 +++++++++----------
 4 files changed, 35 insertions(+), 24 deletions(-)

diff --git a/internal/ins/block.go b/internal/ins/block.go
index 86e2a73..fec96b2 100644
--- a/internal/ins/block.go
+++ b/internal/ins/block.go
@@ -99,7 +99,11 @@ func applyBlockType(blk *fn.Block, typ prs.Functionality, baseTyp string) error
 					"cannot evaluate expression for const '%s': %v", c.Name(), err,
 				)
 			}
-			constContainer.AddConst(&blk.Consts, c.Name(), val)
+
+			err = constContainer.AddConst(&blk.Consts, c.Name(), val)
+			if err != nil {
+				return err
+			}
 		}
 
 		_, ok := s.(*prs.Inst)
diff --git a/internal/ins/const.go b/internal/ins/const.go
index b6833ad..a0f2d91 100644
--- a/internal/ins/const.go
+++ b/internal/ins/const.go
@@ -35,7 +35,11 @@ func constifyPkg(pp *prs.Package) *pkg.Package {
 				c.File().Path, c.Loc(), c.Name(), err,
 			)
 		}
-		constContainer.AddConst(&p.Consts, c.Name(), v)
+
+		err = constContainer.AddConst(&p.Consts, c.Name(), v)
+		if err != nil {
+			log.Fatalf("%s:%s: %v", c.File().Path, c.Loc(), err)
+		}
 	}
 
 	return &p
diff --git a/internal/ins/group.go b/internal/ins/group.go
index ee76470..f4250d2 100644
--- a/internal/ins/group.go
+++ b/internal/ins/group.go
@@ -104,7 +104,11 @@ func applyGroupType(grp *fn.Group, typ prs.Functionality, diary *groupDiary) err
 					"cannot evaluate expression for const '%s': %v", c.Name(), err,
 				)
 			}
-			constContainer.AddConst(&grp.Consts, c.Name(), val)
+
+			err = constContainer.AddConst(&grp.Consts, c.Name(), val)
+			if err != nil {
+				return err
+			}
 		}
 
 		_, ok := sym.(*prs.Inst)
diff --git a/internal/util/constContainer/constContainer.go b/internal/util/constContainer/constContainer.go
index eb5941f..f2096c0 100644
--- a/internal/util/constContainer/constContainer.go
+++ b/internal/util/constContainer/constContainer.go
@@ -1,6 +1,8 @@
 package constContainer
 
 import (
+	"fmt"
+
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/val"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/cnst"
 )
@@ -29,10 +31,10 @@ func HasConst(c cnst.Container, name string) bool {
 	return false
 }
 
-func AddConst(c *cnst.Container, name string, v val.Value) {
+// AddConst adds constant to the container.
+// An error is returned if the container does not support given value.
+func AddConst(c *cnst.Container, name string, v val.Value) error {
 	switch v.(type) {
-	case val.BitStr:
-		panic("not yet implemented")
 	case val.Bool:
 		addBoolConst(c, name, v)
 	case val.Float:
@@ -40,23 +42,18 @@ func AddConst(c *cnst.Container, name string, v val.Value) {
 	case val.Int:
 		addIntConst(c, name, v)
 	case val.List:
-		switch v.(val.List)[0].(type) {
-		case val.BitStr:
-			panic("not yet implemented")
-		case val.Bool:
-			addBoolListConst(c, name, v)
-		case val.Int:
-			addIntListConst(c, name, v)
-		case val.Str:
-			panic("not yet implemented")
-		default:
-			panic("should never happen")
+		if !addBoolListConst(c, name, v) && !addIntListConst(c, name, v) {
+			return fmt.Errorf(
+				"const '%s' has unsupported value, only non empty lists of bool values or integers are supported", name,
+			)
 		}
 	case val.Str:
 		addStrConst(c, name, v)
 	default:
-		panic("should never happen")
+		return fmt.Errorf("const '%s' has unsupported value of type %s", name, v.Type())
 	}
+
+	return nil
 }
 
 func addBoolConst(c *cnst.Container, name string, v val.Value) {
@@ -75,16 +72,17 @@ func addFloatConst(c *cnst.Container, name string, v val.Value) {
 	c.Floats[name] = f
 }
 
-func addBoolListConst(c *cnst.Container, name string, v val.Value) {
+func addBoolListConst(c *cnst.Container, name string, v val.Value) bool {
 	l := constifyBoolList(v.(val.List))
-	if l == nil {
-		return
+	if len(l) == 0 {
+		return false
 	}
 
 	if c.BoolLists == nil {
 		c.BoolLists = map[string][]bool{name: l}
 	}
 	c.BoolLists[name] = l
+	return true
 }
 
 func addIntConst(c *cnst.Container, name string, v val.Value) {
@@ -95,16 +93,17 @@ func addIntConst(c *cnst.Container, name string, v val.Value) {
 	c.Ints[name] = i
 }
 
-func addIntListConst(c *cnst.Container, name string, v val.Value) {
+func addIntListConst(c *cnst.Container, name string, v val.Value) bool {
 	l := constifyIntList(v.(val.List))
-	if l == nil {
-		return
+	if len(l) == 0 {
+		return false
 	}
 
 	if c.IntLists == nil {
 		c.IntLists = map[string][]int64{name: l}
 	}
 	c.IntLists[name] = l
+	return true
 }
 
 func addStrConst(c *cnst.Container, name string, v val.Value) {
-- 
2.43.0


From 73030b0a4935b40a2f5faf75224db7f4334ae708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:48 +0000
Subject: [PATCH 53/78] fix: report integer overflow in expressions instead of
 evaluating to wrong value

---
 internal/prs/expr.go | 76 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 61 insertions(+), 15 deletions(-)

diff --git a/internal/prs/expr.go b/internal/prs/expr.go
index effd79f..b6213a8 100644
--- a/internal/prs/expr.go
+++ b/internal/prs/expr.go
@@ -3,6 +3,7 @@ package prs
 import (
 	"fmt"
 	"math"
+	"math/big"
 	"strconv"
 	"strings"
 
@@ -83,17 +84,17 @@ func (be BinaryExpr) Eval() (val.Value, error) {
 		case tok.Add:
 			switch y := y.(type) {
 			case val.Int:
-				v = x + y
+				v, err = evalInt(x, op, y)
 			}
 		case tok.Sub:
 			switch y := y.(type) {
 			case val.Int:
-				v = x - y
+				v, err = evalInt(x, op, y)
 			}
 		case tok.Mul:
 			switch y := y.(type) {
 			case val.Int:
-				v = x * y
+				v, err = evalInt(x, op, y)
 			}
 		case tok.Div:
 			switch y := y.(type) {
@@ -105,7 +106,7 @@ func (be BinaryExpr) Eval() (val.Value, error) {
 					}
 				}
 				if x%y == 0 {
-					v = x / y
+					v, err = evalInt(x, op, y)
 				} else {
 					v = val.Float(float64(x) / float64(y))
 				}
@@ -125,9 +126,16 @@ func (be BinaryExpr) Eval() (val.Value, error) {
 			switch y := y.(type) {
 			case val.Int:
 				if y >= 0 {
-					v = intPow(x, y)
+					v, err = evalInt(x, op, y)
+				} else if x == 0 {
+					return nil, tok.Error{
+						Msg:  "division by zero, zero raised to negative power",
+						Toks: []tok.Token{be.ast.Y.Tok()},
+					}
+				} else if x == 1 || x == -1 {
+					v, err = evalInt(x, op, y&1)
 				} else {
-					v = val.Int(int64(math.Pow(float64(x), float64(y))))
+					v = val.Float(math.Pow(float64(x), float64(y)))
 				}
 			}
 		case tok.LShift:
@@ -139,7 +147,7 @@ func (be BinaryExpr) Eval() (val.Value, error) {
 						Toks: []tok.Token{be.ast.Y.Tok()},
 					}
 				}
-				v = x << y
+				v, err = evalInt(x, op, y)
 			default:
 				return nil, tok.Error{
 					Msg:  fmt.Sprintf("right operand of left shift must be of type integer, current type %s", y.Type()),
@@ -183,6 +191,9 @@ func (be BinaryExpr) Eval() (val.Value, error) {
 		}
 	}
 
+	if err != nil {
+		return nil, err
+	}
 	if v != nil {
 		return v, nil
 	}
@@ -196,16 +207,48 @@ func (be BinaryExpr) Eval() (val.Value, error) {
 	}
 }
 
-// intPow returns x to the power of y, y must not be negative.
-func intPow(x, y val.Int) val.Int {
-	r := val.Int(1)
-	for ; y > 0; y >>= 1 {
-		if y&1 == 1 {
-			r *= x
+// evalInt evaluates operation with exact integer result.
+// An error is returned if the result does not fit integer type.
+// Operands must be legal for the operator.
+func evalInt(x val.Int, op tok.Operator, y val.Int) (val.Value, error) {
+	bx, by := big.NewInt(int64(x)), big.NewInt(int64(y))
+	r := new(big.Int)
+
+	// Exponent or shift value above which the result never fits, unless x magnitude is lower than 2.
+	const maxBits = 64
+
+	switch op.(type) {
+	case tok.Add:
+		r.Add(bx, by)
+	case tok.Sub:
+		r.Sub(bx, by)
+	case tok.Mul:
+		r.Mul(bx, by)
+	case tok.Div:
+		r.Quo(bx, by)
+	case tok.Exp:
+		if y > maxBits {
+			if x >= -1 && x <= 1 {
+				by.SetInt64(maxBits + int64(y)%2)
+			} else {
+				by.SetInt64(maxBits)
+			}
+		}
+		r.Exp(bx, by, nil)
+	case tok.LShift:
+		r.Lsh(bx, uint(min(y, maxBits)))
+	default:
+		panic("should never happen")
+	}
+
+	if !r.IsInt64() {
+		return nil, tok.Error{
+			Msg:  fmt.Sprintf("result of %s operator does not fit 64 bit integer", op.Name()),
+			Toks: []tok.Token{op},
 		}
-		x *= x
 	}
-	return r
+
+	return val.Int(r.Int64()), nil
 }
 
 func MakeBinaryExpr(be ast.BinaryExpr, src []byte, s Scope) (BinaryExpr, error) {
@@ -550,6 +593,9 @@ func (ue UnaryExpr) Eval() (val.Value, error) {
 		case UnaryPlus:
 			return x, nil
 		case UnaryMinus:
+			if x == math.MinInt64 {
+				return nil, fmt.Errorf("unary expression, negation of %d does not fit 64 bit integer", x)
+			}
 			return -x, nil
 		default:
 			panic("operator not yet supported")
-- 
2.43.0


From b0f97458b1dc9c654aa799fbb2105d5cfa426d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:51 +0000
Subject: [PATCH 54/78] fix: report invalid arguments of ceil and floor
 functions

---
 internal/prs/call.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/internal/prs/call.go b/internal/prs/call.go
index 5439258..b135c59 100644
--- a/internal/prs/call.go
+++ b/internal/prs/call.go
@@ -56,16 +56,14 @@ func evalCeil(c Call) (val.Value, error) {
 		return nil, fmt.Errorf("ceil argument evaluation: %v", err)
 	}
 
-	f := float64(0.0)
-
 	switch arg := arg.(type) {
 	case val.Int:
 		return arg, nil
 	case val.Float:
-		f = float64(arg)
+		return floatToInt("ceil", math.Ceil(float64(arg)))
 	}
 
-	return val.Int(int64(math.Ceil(f))), nil
+	return nil, fmt.Errorf("invalid argument type '%s' for ceil function", arg.Type())
 }
 
 func evalFloor(c Call) (val.Value, error) {
@@ -74,16 +72,23 @@ func evalFloor(c Call) (val.Value, error) {
 		return nil, fmt.Errorf("floor argument evaluation: %v", err)
 	}
 
-	f := float64(0.0)
-
 	switch arg := arg.(type) {
 	case val.Int:
 		return arg, nil
 	case val.Float:
-		f = float64(arg)
+		return floatToInt("floor", math.Floor(float64(arg)))
+	}
+
+	return nil, fmt.Errorf("invalid argument type '%s' for floor function", arg.Type())
+}
+
+// floatToInt converts result of the function to integer.
+func floatToInt(funcName string, f float64) (val.Value, error) {
+	if f < -(1<<63) || f >= 1<<63 {
+		return nil, fmt.Errorf("result of %s function does not fit 64 bit integer", funcName)
 	}
 
-	return val.Int(int64(math.Floor(f))), nil
+	return val.Int(int64(f)), nil
 }
 
 func evalLog2(c Call) (val.Value, error) {
-- 
2.43.0


From f4d4b3a9e6d3cc0b33a0b7ace8d59a4df1b150ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:55 +0000
Subject: [PATCH 55/78] fix: evaluate log10 of powers of 10 exactly, report
 logarithms of non positive numbers

---
 internal/prs/call.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/prs/call.go b/internal/prs/call.go
index b135c59..91dfbde 100644
--- a/internal/prs/call.go
+++ b/internal/prs/call.go
@@ -113,6 +113,10 @@ func evalLog2(c Call) (val.Value, error) {
 		return nil, fmt.Errorf("cannot evaluate log2 for argument of %s type", argType)
 	}
 
+	if f <= 0 {
+		return nil, fmt.Errorf("argument of log2 function must be positive")
+	}
+
 	r := math.Log2(f)
 	if r == float64(int64(r)) {
 		return val.Int(int64(r)), nil
@@ -143,7 +147,15 @@ func evalLog10(c Call) (val.Value, error) {
 		return nil, fmt.Errorf("cannot evaluate log10 for argument of %s type", argType)
 	}
 
+	if f <= 0 {
+		return nil, fmt.Errorf("argument of log10 function must be positive")
+	}
+
 	r := math.Log10(f)
+	// math.Log10 is not exact even for powers of 10.
+	if i := math.Round(r); i >= 0 && i <= 22 && math.Pow10(int(i)) == f {
+		r = i
+	}
 	if r == float64(int64(r)) {
 		return val.Int(int64(r)), nil
 	}
-- 
2.43.0


From e8136962132e33958f405f15977e2e07d8b9bdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:57 +0000
Subject: [PATCH 56/78] fix: precedence of unary operators within
 multiplicative expressions

---
 internal/ast/expr.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/ast/expr.go b/internal/ast/expr.go
index 6c3f971..768c8b2 100644
--- a/internal/ast/expr.go
+++ b/internal/ast/expr.go
@@ -345,10 +345,10 @@ tokenLoop:
 }
 
 func buildUnaryExpr(ctx *context) (UnaryExpr, error) {
-	op := ctx.tok().(tok.Operator)
-	un := UnaryExpr{Op: op}
+	un := UnaryExpr{Op: ctx.tok()}
 	ctx.idx++
-	x, err := buildExpr(ctx, op)
+	// Unary operators bind tighter than multiplicative operators, but weaker than the exponentiation.
+	x, err := buildExpr(ctx, tok.Mul{})
 	if err != nil {
 		return un, err
 	}
-- 
2.43.0


From 580456e4c2f32842dd36502bd8910b641eb83d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:19 +0000
Subject: [PATCH 57/78] fix: reject functionalities instantiated within
 functionalities which do not allow any

---
 internal/ins/ins.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/internal/ins/ins.go b/internal/ins/ins.go
index fbabc7f..28fb912 100644
--- a/internal/ins/ins.go
+++ b/internal/ins/ins.go
@@ -175,6 +175,9 @@ func insFunctionality(pf prs.Functionality) fn.Functionality {
 		panic("should never happen")
 	}
 
+	if err == nil {
+		err = checkInnerTypes(typeChain)
+	}
 	if err != nil {
 		log.Fatalf("%v", err)
 	}
@@ -182,6 +185,26 @@ func insFunctionality(pf prs.Functionality) fn.Functionality {
 	return f
 }
 
+// checkInnerTypes checks whether base type of the type chain allows inner functionalities of all types in the type chain.
+func checkInnerTypes(typeChain []prs.Functionality) error {
+	baseTyp := typeChain[0].Type()
+
+	for _, typ := range typeChain {
+		for _, s := range typ.Symbols() {
+			inst, ok := s.(*prs.Inst)
+			if !ok {
+				continue
+			}
+			innerTyp := resolveToBaseType(inst)[0].Type()
+			if !util.IsValidInnerType(innerTyp, baseTyp) {
+				return fmt.Errorf(invalidInnerTypeMsg, inst.Name(), innerTyp, baseTyp)
+			}
+		}
+	}
+
+	return nil
+}
+
 func resolveToBaseType(f prs.Functionality) []prs.Functionality {
 	return resolveToBaseTypeRec(f, map[prs.Functionality]bool{})
 }
-- 
2.43.0


From 2d9e2fd3192e1207b4ffaf7b19f07739d1076833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:44 +0000
Subject: [PATCH 58/78] fix: accept comment and '!=' operator right after
 number literal

---
 internal/tok/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tok/utils.go b/internal/tok/utils.go
index ab767cf..1d40da8 100644
--- a/internal/tok/utils.go
+++ b/internal/tok/utils.go
@@ -13,7 +13,7 @@ func isHexDigit(b byte) bool {
 // Returns true if character is a valid character after number literal.
 func isValidAfterNumber(b byte) bool {
 	switch b {
-	case ' ', '\t', '\n', '(', ')', ']', '-', '+', '*', '/', '%', '=', '<', '>', ';', ':', ',', '|', '&':
+	case ' ', '\t', '\n', '(', ')', ']', '-', '+', '*', '/', '%', '=', '!', '<', '>', ';', ':', ',', '|', '&', '#':
 		return true
 	}
 	return false
-- 
2.43.0


From 1f7243cc4a24579ac933ce145c6c418c4995e855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:47 +0000
Subject: [PATCH 59/78] fix: support all bases of integer literals in time
 literals

---
 internal/prs/expr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/prs/expr.go b/internal/prs/expr.go
index b6213a8..04f7edd 100644
--- a/internal/prs/expr.go
+++ b/internal/prs/expr.go
@@ -542,7 +542,7 @@ func MakeTime(e ast.Time, src []byte, s Scope) (Time, error) {
 	intLiteral := aux[0]
 	unit := aux[1]
 
-	x, err := strconv.ParseInt(intLiteral, 10, 64)
+	x, err := strconv.ParseInt(intLiteral, 0, 64)
 	if err != nil {
 		return Time{}, fmt.Errorf("make time literal: integer literal: %v", err)
 	}
-- 
2.43.0


From e4ec1b06b72e0167f5031ad616d24ba7e8aa62cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:49 +0000
Subject: [PATCH 60/78] fix: overflow of time literals in milli and
 microseconds

---
 internal/prs/expr.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/prs/expr.go b/internal/prs/expr.go
index 04f7edd..c4d0751 100644
--- a/internal/prs/expr.go
+++ b/internal/prs/expr.go
@@ -559,9 +559,11 @@ func (tim Time) Eval() (val.Value, error) {
 	case "s":
 		t = val.Time{S: int64(v.(val.Int)), Ns: 0}
 	case "ms":
-		t = val.Time{S: 0, Ns: 1000000 * int64(v.(val.Int))}
+		ms := int64(v.(val.Int))
+		t = val.Time{S: ms / 1000, Ns: ms % 1000 * 1000000}
 	case "us":
-		t = val.Time{S: 0, Ns: 1000 * int64(v.(val.Int))}
+		us := int64(v.(val.Int))
+		t = val.Time{S: us / 1000000, Ns: us % 1000000 * 1000}
 	case "ns":
 		t = val.Time{S: 0, Ns: int64(v.(val.Int))}
 	}
-- 
2.43.0


From 5d7856509fecb658f75eb01a707bc251f69f1aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:11 +0000
Subject: [PATCH 61/78] fix: report file of properties already set in ancestor
 types

---
 internal/ins/ins.go  | 12 ++++++------
 internal/prs/prop.go |  3 ++-
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/internal/ins/ins.go b/internal/ins/ins.go
index 28fb912..93b9336 100644
--- a/internal/ins/ins.go
+++ b/internal/ins/ins.go
@@ -37,23 +37,23 @@ func setBusWidthFromProp(typ prs.Functionality, prop prs.Prop) error {
 	v, err := prop.Value.Eval()
 	if err != nil {
 		return fmt.Errorf(
-			"%s:%s: cannot evaluate main bus 'width' property",
-			typ.File().Path, prop.Loc(),
+			"%s: cannot evaluate main bus 'width' property",
+			prop.Loc(),
 		)
 	}
 
 	if vi, ok := v.(val.Int); ok {
 		if vi == 0 {
 			return fmt.Errorf(
-				"%s:%s: main bus 'width' property must be positive, current value 0",
-				typ.File().Path, prop.Loc(),
+				"%s: main bus 'width' property must be positive, current value 0",
+				prop.Loc(),
 			)
 		}
 		busWidth = int64(vi)
 	} else {
 		return fmt.Errorf(
-			"%s:%s: main bus 'width' property must be of integer type, current type %s",
-			typ.File().Path, prop.Loc(), v.Type(),
+			"%s: main bus 'width' property must be of integer type, current type %s",
+			prop.Loc(), v.Type(),
 		)
 	}
 
diff --git a/internal/prs/prop.go b/internal/prs/prop.go
index e39316e..2729d4a 100644
--- a/internal/prs/prop.go
+++ b/internal/prs/prop.go
@@ -17,8 +17,9 @@ type Prop struct {
 func (p Prop) Line() int { return p.NameTok.Line() }
 func (p Prop) Col() int  { return p.NameTok.Column() }
 
+// Loc returns property location in the "path:line:column" format.
 func (p Prop) Loc() string {
-	return fmt.Sprintf("%d:%d", p.Line(), p.Col())
+	return fmt.Sprintf("%s:%d:%d", p.NameTok.Path(), p.Line(), p.Col())
 }
 
 // PropContainer represents a list of properties.
-- 
2.43.0


From a6c427aa228042d4648ec7f3a9803ff408bb42da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:14 +0000
Subject: [PATCH 62/78] fix: quote only the first line of tokens spanning
 multiple lines

---
 internal/tok/error.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/internal/tok/error.go b/internal/tok/error.go
index 97a0045..cfc8c58 100644
--- a/internal/tok/error.go
+++ b/internal/tok/error.go
@@ -1,6 +1,7 @@
 package tok
 
 import (
+	"bytes"
 	"fmt"
 	"github.com/mattn/go-isatty"
 	"os"
@@ -62,7 +63,13 @@ func (err Error) code(tok Token) string {
 		lineStartIdx--
 	}
 
-	lineEndIdx := tok.End()
+	// The token might span multiple lines, only the first one is quoted.
+	tokEnd := tok.End()
+	if i := bytes.IndexByte(src[min(tok.Start(), len(src)):], '\n'); i > 0 {
+		tokEnd = min(tokEnd, tok.Start()+i-1)
+	}
+
+	lineEndIdx := tokEnd
 	if _, ok := tok.(Newline); !ok {
 		for lineEndIdx < len(src)-1 {
 			if src[lineEndIdx+1] == '\n' {
@@ -103,7 +110,7 @@ func (err Error) code(tok Token) string {
 
 	colorPrefix, colorSuffix := err.getColor()
 	b.WriteString(colorPrefix)
-	for col < tok.Column()+(tok.End()-tok.Start()+1) {
+	for col < tok.Column()+(tokEnd-tok.Start()+1) {
 		b.WriteRune('^')
 		col++
 	}
-- 
2.43.0


From 52d9b846b1c3d68ddc6ffe8811a767c713de3dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:56 +0000
Subject: [PATCH 63/78] fix: quote single line for newline tokens followed by
 empty lines

---
 internal/tok/error.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/tok/error.go b/internal/tok/error.go
index cfc8c58..4c4f1fc 100644
--- a/internal/tok/error.go
+++ b/internal/tok/error.go
@@ -67,6 +67,8 @@ func (err Error) code(tok Token) string {
 	tokEnd := tok.End()
 	if i := bytes.IndexByte(src[min(tok.Start(), len(src)):], '\n'); i > 0 {
 		tokEnd = min(tokEnd, tok.Start()+i-1)
+	} else if i == 0 {
+		tokEnd = tok.Start() // Newline token spans also all following empty lines.
 	}
 
 	lineEndIdx := tokEnd
-- 
2.43.0


From f9ba32f3e81aea0ba9d2f670be4666ad50012674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:00 +0000
Subject: [PATCH 64/78] fix: report location of literals which cannot be
 represented

---
 internal/prs/expr.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/prs/expr.go b/internal/prs/expr.go
index c4d0751..9c21248 100644
--- a/internal/prs/expr.go
+++ b/internal/prs/expr.go
@@ -276,7 +276,7 @@ func (bs BitString) Eval() (val.Value, error) {
 func MakeBitString(e ast.BitString, src []byte) (BitString, error) {
 	x, err := val.MakeBitStr(tok.Text(e.X, src))
 	if err != nil {
-		return BitString{}, fmt.Errorf("make bit string: %v", err)
+		return BitString{}, tok.Error{Msg: fmt.Sprintf("make bit string: %v", err), Toks: []tok.Token{e.X}}
 	}
 
 	return BitString{x: x}, nil
@@ -334,7 +334,7 @@ func (i Int) Eval() (val.Value, error) {
 func MakeInt(e ast.Int, src []byte) (Int, error) {
 	x, err := strconv.ParseInt(tok.Text(e.X, src), 0, 64)
 	if err != nil {
-		return Int{}, fmt.Errorf("make int: %v", err)
+		return Int{}, tok.Error{Msg: fmt.Sprintf("make int: %v", err), Toks: []tok.Token{e.X}}
 	}
 
 	return Int{x: x}, nil
@@ -398,7 +398,7 @@ func MakeFloat(e ast.Float, src []byte) (Float, error) {
 	text := tok.Text(e.X, src)
 	x, err := strconv.ParseFloat(text, 64)
 	if err != nil {
-		return Float{}, fmt.Errorf("make float: %v", err)
+		return Float{}, tok.Error{Msg: fmt.Sprintf("make float: %v", err), Toks: []tok.Token{e.X}}
 	}
 
 	return Float{x: x}, nil
@@ -544,7 +544,7 @@ func MakeTime(e ast.Time, src []byte, s Scope) (Time, error) {
 
 	x, err := strconv.ParseInt(intLiteral, 0, 64)
 	if err != nil {
-		return Time{}, fmt.Errorf("make time literal: integer literal: %v", err)
+		return Time{}, tok.Error{Msg: fmt.Sprintf("make time literal: integer literal: %v", err), Toks: []tok.Token{e.X}}
 	}
 
 	return Time{Int{x}, unit}, nil
-- 
2.43.0


From 61048403ef177caa4c523add4e902ae86e1213e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:13 +0000
Subject: [PATCH 65/78] fix: report location of properties invalid for the base
 type in derived types

---
 internal/ins/blackbox.go | 2 +-
 internal/ins/block.go    | 2 +-
 internal/ins/check.go    | 5 +++++
 internal/ins/config.go   | 2 +-
 internal/ins/group.go    | 2 +-
 internal/ins/irq.go      | 2 +-
 internal/ins/mask.go     | 2 +-
 internal/ins/param.go    | 2 +-
 internal/ins/proc.go     | 2 +-
 internal/ins/return.go   | 2 +-
 internal/ins/static.go   | 2 +-
 internal/ins/status.go   | 2 +-
 internal/ins/stream.go   | 2 +-
 13 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/internal/ins/blackbox.go b/internal/ins/blackbox.go
index e3f2658..4b47ad1 100644
--- a/internal/ins/blackbox.go
+++ b/internal/ins/blackbox.go
@@ -51,7 +51,7 @@ func insBlackbox(typeChain []prs.Functionality) (*fn.Blackbox, error) {
 func applyBlackboxType(bb *fn.Blackbox, typ prs.Functionality) error {
 	for _, p := range typ.Props() {
 		if err := util.IsValidProperty(p.Name, "blackbox"); err != nil {
-			return fmt.Errorf(": %v", err)
+			return invalidProp(p, err)
 		}
 		if err := checkProp(p); err != nil {
 			return fmt.Errorf("%s: %v", p.Loc(), err)
diff --git a/internal/ins/block.go b/internal/ins/block.go
index fec96b2..1af7436 100644
--- a/internal/ins/block.go
+++ b/internal/ins/block.go
@@ -47,7 +47,7 @@ func insBlock(typeChain []prs.Functionality) (*fn.Block, error) {
 func applyBlockType(blk *fn.Block, typ prs.Functionality, baseTyp string) error {
 	for _, p := range typ.Props() {
 		if err := util.IsValidProperty(p.Name, baseTyp); err != nil {
-			return fmt.Errorf(": %v", err)
+			return invalidProp(p, err)
 		}
 		if err := checkProp(p); err != nil {
 			return err
diff --git a/internal/ins/check.go b/internal/ins/check.go
index 9ff7c73..e10120a 100644
--- a/internal/ins/check.go
+++ b/internal/ins/check.go
@@ -9,6 +9,11 @@ import (
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/val"
 )
 
+// invalidProp returns error for property that is not valid for the functionality.
+func invalidProp(prop prs.Prop, err error) error {
+	return tok.Error{Msg: err.Error(), Toks: []tok.Token{prop.NameTok}}
+}
+
 // Check property value type and value.
 func checkProp(prop prs.Prop) error {
 	pv, err := prop.Value.Eval()
diff --git a/internal/ins/config.go b/internal/ins/config.go
index daf73f9..f69f1fd 100644
--- a/internal/ins/config.go
+++ b/internal/ins/config.go
@@ -56,7 +56,7 @@ func insConfig(typeChain []prs.Functionality) (*fn.Config, error) {
 func applyConfigType(cfg *fn.Config, typ prs.Functionality, diary *configDiary) error {
 	for _, p := range typ.Props() {
 		if err := util.IsValidProperty(p.Name, "config"); err != nil {
-			return fmt.Errorf(": %v", err)
+			return invalidProp(p, err)
 		}
 		if err := checkProp(p); err != nil {
 			return err
diff --git a/internal/ins/group.go b/internal/ins/group.go
index f4250d2..9de407d 100644
--- a/internal/ins/group.go
+++ b/internal/ins/group.go
@@ -66,7 +66,7 @@ func insGroup(typeChain []prs.Functionality) (*fn.Group, error) {
 func applyGroupType(grp *fn.Group, typ prs.Functionality, diary *groupDiary) error {
 	for _, p := range typ.Props() {
 		if err := util.IsValidProperty(p.Name, "group"); err != nil {
-			return fmt.Errorf(": %v", err)
+			return invalidProp(p, err)
 		}
 		if err := checkProp(p); err != nil {
 			return err
diff --git a/internal/ins/irq.go b/internal/ins/irq.go
index e20b27e..1835834 100644
--- a/internal/ins/irq.go
+++ b/internal/ins/irq.go
@@ -55,7 +55,7 @@ func insIrq(typeChain []prs.Functionality) (*fn.Irq, error) {
 func applyIrqType(irq *fn.Irq, typ prs.Functionality, diary *irqDiary) error {
 	for _, p := range typ.Props() {
 		if err := util.IsValidProperty(p.Name, "irq"); err != nil {
-			return fmt.Errorf(": %v", err)
+			return invalidProp(p, err)
 		}
 		if err := checkProp(p); err != nil {
 			return err
diff --git a/internal/ins/mask.go b/internal/ins/mask.go
index a9bffdd..c1a848f 100644
--- a/internal/ins/mask.go
+++ b/internal/ins/mask.go
@@ -55,7 +55,7 @@ func insMask(typeChain []prs.Functionality) (*fn.Mask, error) {
 func applyMaskType(mask *fn.Mask, typ prs.Functionality, diary *maskDiary) error {
 	for _, p := range typ.Props() {
 		if err := util.IsValidProperty(p.Name, "mask"); err != nil {
-			return fmt.Errorf(": %v", err)
+			return invalidProp(p, err)
 		}
 		if err := checkProp(p); err != nil {
 			return err
diff --git a/internal/ins/param.go b/internal/ins/param.go
index 6c4f1f5..8ae67ae 100644
--- a/internal/ins/param.go
+++ b/internal/ins/param.go
@@ -45,7 +45,7 @@ func insParam(typeChain []prs.Functionality) (*fn.Param, error) {
 func applyParamType(param *fn.Param, typ prs.Functionality, diary *paramDiary) error {
 	for _, p := range typ.Props() {
 		if err := util.IsValidProperty(p.Name, "param"); err != nil {
-			return fmt.Errorf(": %v", err)
+			return invalidProp(p, err)
 		}
 		if err := checkProp(p); err != nil {
 			return fmt.Errorf("%s: %v", p.Loc(), err)
diff --git a/internal/ins/proc.go b/internal/ins/proc.go
index 61ba20f..698b8d6 100644
--- a/internal/ins/proc.go
+++ b/internal/ins/proc.go
@@ -43,7 +43,7 @@ func insProc(typeChain []prs.Functionality) (*fn.Proc, error) {
 func applyProcType(p *fn.Proc, typ prs.Functionality, diary *procDiary) error {
 	for _, prop := range typ.Props() {
 		if err := util.IsValidProperty(prop.Name, "proc"); err != nil {
-			return fmt.Errorf(": %v", err)
+			return invalidProp(prop, err)
 		}
 		if err := checkProp(prop); err != nil {
 			return err
diff --git a/internal/ins/return.go b/internal/ins/return.go
index 31be25d..cbae362 100644
--- a/internal/ins/return.go
+++ b/internal/ins/return.go
@@ -43,7 +43,7 @@ func insReturn(typeChain []prs.Functionality) (*fn.Return, error) {
 func applyReturnType(ret *fn.Return, typ prs.Functionality, diary *returnDiary) error {
 	for _, p := range typ.Props() {
 		if err := util.IsValidProperty(p.Name, "return"); err != nil {
-			return fmt.Errorf(": %v", err)
+			return invalidProp(p, err)
 		}
 		if err := checkProp(p); err != nil {
 			return err
diff --git a/internal/ins/static.go b/internal/ins/static.go
index f75841b..d53b262 100644
--- a/internal/ins/static.go
+++ b/internal/ins/static.go
@@ -59,7 +59,7 @@ func insStatic(typeChain []prs.Functionality) (*fn.Static, error) {
 func applyStaticType(st *fn.Static, typ prs.Functionality, diary *staticDiary) error {
 	for _, p := range typ.Props() {
 		if err := util.IsValidProperty(p.Name, "static"); err != nil {
-			return fmt.Errorf(": %v", err)
+			return invalidProp(p, err)
 		}
 		if err := checkProp(p); err != nil {
 			return err
diff --git a/internal/ins/status.go b/internal/ins/status.go
index 72fc45d..eb21149 100644
--- a/internal/ins/status.go
+++ b/internal/ins/status.go
@@ -55,7 +55,7 @@ func insStatus(typeChain []prs.Functionality) (*fn.Status, error) {
 func applyStatusType(st *fn.Status, typ prs.Functionality, diary *statusDiary) error {
 	for _, p := range typ.Props() {
 		if err := util.IsValidProperty(p.Name, "status"); err != nil {
-			return fmt.Errorf(": %v", err)
+			return invalidProp(p, err)
 		}
 		if err := checkProp(p); err != nil {
 			return err
diff --git a/internal/ins/stream.go b/internal/ins/stream.go
index d4992c2..3b44d16 100644
--- a/internal/ins/stream.go
+++ b/internal/ins/stream.go
@@ -44,7 +44,7 @@ func insStream(typeChain []prs.Functionality) (*fn.Stream, error) {
 func applyStreamType(strm *fn.Stream, typ prs.Functionality, diary *streamDiary) error {
 	for _, prop := range typ.Props() {
 		if err := util.IsValidProperty(prop.Name, "stream"); err != nil {
-			return fmt.Errorf(": %v", err)
+			return invalidProp(prop, err)
 		}
 		if err := checkProp(prop); err != nil {
 			return fmt.Errorf("%s: %v", prop.Loc(), err)
-- 
2.43.0


From 2a0e19357f0b42d9c60ac6b0020abf0d0c242c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:19 +0000
Subject: [PATCH 66/78] fix: do not iterate over all registers of single access

---
 pkg/fbdl/types/access.go | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/pkg/fbdl/types/access.go b/pkg/fbdl/types/access.go
index 4fef562..64b8086 100644
--- a/pkg/fbdl/types/access.go
+++ b/pkg/fbdl/types/access.go
@@ -82,19 +82,11 @@ func MakeSingleOneRegAccess(addr, startBit, width int64) Access {
 //	|| c(0) || || c(1) || || c(2) | 24 bits gap ||
 //	---------- ---------- ------------------------
 func MakeSingleNRegsAccess(addr, startBit, width int64) Access {
-	regCount := int64(1)
-
-	endBit := int64(0)
-	w := busWidth - startBit
-	for {
-		regCount += 1
-		if w+busWidth < width {
-			w += busWidth
-		} else {
-			endBit = width - w - 1
-			break
-		}
-	}
+	// Width placed in registers following the first one.
+	rest := width - (busWidth - startBit)
+
+	regCount := 1 + (rest-1)/busWidth + 1
+	endBit := (rest - 1) % busWidth
 
 	return Access{
 		Type:          "SingleNRegs",
-- 
2.43.0


From 921625c779eea2be869cf0e475697ddceefb0786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:37 +0000
Subject: [PATCH 67/78] fix: calculate alignment to power of 2 exactly for huge
 sizes

---
 internal/util/util.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/util/util.go b/internal/util/util.go
index 02bb8f7..6738c39 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -2,7 +2,7 @@ package util
 
 import (
 	"fmt"
-	"math"
+	"math/bits"
 )
 
 const RepoIssueUrl = "https://github.com/Functional-Bus-Description-Language/go-fbdl/issues"
@@ -99,7 +99,11 @@ func IsValidInnerType(it string, ot string) bool {
 }
 
 func AlignToPowerOf2(n int64) int64 {
-	return int64(math.Pow(2, math.Ceil(math.Log2(float64(n)))))
+	if n <= 0 {
+		return 0
+	}
+
+	return 1 << bits.Len64(uint64(n-1))
 }
 
 // Aligns n to multiple of m.
-- 
2.43.0


From 90791704bda51da70d6b697c6dc29a82acb4bf79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:41 +0000
Subject: [PATCH 68/78] fix: calculate number of registers of array access
 exactly for huge arrays

---
 pkg/fbdl/types/access.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pkg/fbdl/types/access.go b/pkg/fbdl/types/access.go
index 64b8086..0a9f858 100644
--- a/pkg/fbdl/types/access.go
+++ b/pkg/fbdl/types/access.go
@@ -2,7 +2,6 @@ package types
 
 import (
 	"fmt"
-	"math"
 )
 
 // Access struct represents information required to access a given functionality.
@@ -197,7 +196,10 @@ func MakeArrayNRegsAccess(itemCount, startAddr, startBit, width int64) Access {
 	totalWidth := itemCount * width
 	firstRegWidth := busWidth - startBit
 
-	regCount := int64(math.Ceil((float64(totalWidth)-float64(firstRegWidth))/float64(busWidth))) + 1
+	regCount := (totalWidth-firstRegWidth+busWidth-1)/busWidth + 1
+	if totalWidth <= firstRegWidth {
+		regCount = 1
+	}
 	endBit := (startBit + itemCount*width - 1) % busWidth
 
 	// Empty array also has its place in the register.
@@ -293,7 +295,7 @@ func MakeArrayNInRegMInEndRegAccess(itemCount, startAddr, width int64) Access {
 		panic("itemsInEndReg = 0, use ArrayNInReg")
 	}
 
-	regCount := int64(math.Ceil(float64(itemCount) / float64(itemsInReg)))
+	regCount := itemCount/itemsInReg + 1
 
 	return Access{
 		Type:          "ArrayNInRegMInEndReg",
-- 
2.43.0


From c2b557e6fa050f206f0c5009042594509ed27c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:45 +0000
Subject: [PATCH 69/78] fix: pad bit strings of any width

---
 internal/val/bit_str.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/internal/val/bit_str.go b/internal/val/bit_str.go
index 96e8c3b..c62f5e9 100644
--- a/internal/val/bit_str.go
+++ b/internal/val/bit_str.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"math"
 	"math/big"
+	"strings"
 )
 
 // BitStr represents FBDL bit string type.
@@ -127,12 +128,27 @@ func makeHexBitStr(s string) (BitStr, error) {
 	return BitStr("x" + s[1:]), nil
 }
 
+// maxBitStrWidth is the maximum width of the bit string created from integer.
+const maxBitStrWidth = 1 << 24
+
+// zeroPad pads string s with zeros so that it has n characters.
+func zeroPad(s string, n int64) string {
+	return strings.Repeat("0", max(0, int(n)-len(s))) + s
+}
+
 // BitStrFromInt converts val.Int to BitStr.
 // It only checks whether given value can be represented with given width.
 // It uses U2 encoding for negative values.
 func BitStrFromInt(v Int, width int64) (BitStr, error) {
 	i := int64(v)
 
+	if width > maxBitStrWidth {
+		return BitStr(""),
+			fmt.Errorf(
+				"cannot convert value %d to bit string of width %d, max width = %d", i, width, maxBitStrWidth,
+			)
+	}
+
 	max := int64(math.Pow(float64(2), float64(width))) - int64(1)
 	min := -int64(math.Pow(float64(2), float64(width-1)))
 
@@ -158,11 +174,11 @@ func BitStrFromInt(v Int, width int64) (BitStr, error) {
 
 	var s string
 	if width%4 == 0 {
-		s = fmt.Sprintf("x\"%0*x\"", width/4, u)
+		s = `x"` + zeroPad(u.Text(16), width/4) + `"`
 	} else if width%3 == 0 {
-		s = fmt.Sprintf("o\"%0*o\"", width/3, u)
+		s = `o"` + zeroPad(u.Text(8), width/3) + `"`
 	} else {
-		s = fmt.Sprintf("b\"%0*b\"", width, u)
+		s = `b"` + zeroPad(u.Text(2), width) + `"`
 	}
 
 	return BitStr(s), nil
-- 
2.43.0


From feb2464ebc74c151a089304fafc74795b68b2b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:52 +0000
Subject: [PATCH 70/78] fix: report not yet supported arrays instead of
 panicking

---
 internal/reg/config.go | 6 ++++--
 internal/reg/irq.go    | 8 +++-----
 internal/reg/mask.go   | 4 +++-
 internal/reg/static.go | 4 +++-
 4 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/internal/reg/config.go b/internal/reg/config.go
index adbd386..20165dd 100644
--- a/internal/reg/config.go
+++ b/internal/reg/config.go
@@ -1,6 +1,8 @@
 package reg
 
 import (
+	"log"
+
 	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/fn"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/types"
 
@@ -28,7 +30,7 @@ func regAtomicConfigArray(cfg *fn.Config, addr int64, gp *gap.Pool) int64 {
 	} else if cfg.Width <= busWidth/2 {
 		acs = types.MakeArrayNInRegMInEndRegAccess(cfg.Count, addr, cfg.Width)
 	} else {
-		panic("unimplemented")
+		log.Fatalf("'%s': array of configs wider than the bus is not yet supported", cfg.Name)
 	}
 
 	addr += acs.RegCount
@@ -57,7 +59,7 @@ func regAtomicConfigSingle(cfg *fn.Config, addr int64, gp *gap.Pool) int64 {
 
 func regNonAtomicConfig(cfg *fn.Config, addr int64, gp *gap.Pool) int64 {
 	if cfg.IsArray {
-		panic("unimplemented")
+		log.Fatalf("'%s': array of non-atomic configs is not yet supported", cfg.Name)
 	}
 	return regNonAtomicConfigSingle(cfg, addr, gp)
 }
diff --git a/internal/reg/irq.go b/internal/reg/irq.go
index 01dce94..23eb4ea 100644
--- a/internal/reg/irq.go
+++ b/internal/reg/irq.go
@@ -1,6 +1,8 @@
 package reg
 
 import (
+	"log"
+
 	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/fn"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/types"
 
@@ -9,7 +11,7 @@ import (
 
 func regIrq(irq *fn.Irq, addr int64, gp *gap.Pool) int64 {
 	if irq.IsArray {
-		return regIrqArray(irq, addr)
+		log.Fatalf("'%s': array of irqs is not yet supported", irq.Name)
 	}
 	return regIrqSingle(irq, addr, gp)
 }
@@ -49,7 +51,3 @@ func regIrqSingle(irq *fn.Irq, addr int64, gp *gap.Pool) int64 {
 
 	return addr
 }
-
-func regIrqArray(irq *fn.Irq, addr int64) int64 {
-	panic("unimplemented")
-}
diff --git a/internal/reg/mask.go b/internal/reg/mask.go
index 4b14c23..c9fe82d 100644
--- a/internal/reg/mask.go
+++ b/internal/reg/mask.go
@@ -1,6 +1,8 @@
 package reg
 
 import (
+	"log"
+
 	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/fn"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/types"
 )
@@ -10,7 +12,7 @@ func regMask(mask *fn.Mask, addr int64) int64 {
 	var acs types.Access
 
 	if mask.IsArray {
-		panic("unimplemented")
+		log.Fatalf("'%s': array of masks is not yet supported", mask.Name)
 		/* Should it be implemented the same way as for Status?
 		if width == busWidth {
 
diff --git a/internal/reg/static.go b/internal/reg/static.go
index 9fbd863..82a133e 100644
--- a/internal/reg/static.go
+++ b/internal/reg/static.go
@@ -1,6 +1,8 @@
 package reg
 
 import (
+	"log"
+
 	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/fn"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/types"
 
@@ -54,7 +56,7 @@ func regStaticArray(st *fn.Static, addr int64, gp *gap.Pool) int64 {
 	} else if st.Width <= busWidth/2 {
 		acs = types.MakeArrayNInRegMInEndRegAccess(st.Count, addr, st.Width)
 	} else {
-		panic("unimplemented")
+		log.Fatalf("'%s': array of statics wider than the bus is not yet supported", st.Name)
 	}
 	addr += acs.RegCount
 
-- 
2.43.0


From f3328389d00eb653685daacf681e9b82d2688c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:06 +0000
Subject: [PATCH 71/78] fix: report packages with the same name instead of
 panicking

---
 internal/ins/const.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/ins/const.go b/internal/ins/const.go
index a0f2d91..849b5cd 100644
--- a/internal/ins/const.go
+++ b/internal/ins/const.go
@@ -14,7 +14,10 @@ func constifyPackages(packages prs.Packages) map[string]*pkg.Package {
 	// TODO: Resolve name conflicts.
 	for name, pkgs := range packages {
 		if len(pkgs) > 1 {
-			panic("not yet implemented")
+			log.Fatalf(
+				"packages '%s' and '%s' have the same name, it is not yet supported",
+				pkgs[0].Path, pkgs[1].Path,
+			)
 		}
 		for _, pkg := range pkgs {
 			cPkgs[name] = constifyPkg(pkg)
-- 
2.43.0


From 1f598fc83524f08545596b2c59547de07834788f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:10 +0000
Subject: [PATCH 72/78] fix: report unreadable directories instead of panicking

---
 internal/prs/pre.go | 8 ++++----
 internal/prs/prs.go | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/internal/prs/pre.go b/internal/prs/pre.go
index d3d9aad..4f90917 100644
--- a/internal/prs/pre.go
+++ b/internal/prs/pre.go
@@ -15,7 +15,7 @@ func DiscoverPackages(main string) Packages {
 
 	cwd, err := os.Getwd()
 	if err != nil {
-		panic(err)
+		log.Fatalf("cannot get working directory: %v", err)
 	}
 	pathsToLook = append(pathsToLook, cwd)
 
@@ -72,7 +72,7 @@ func findPkgsInDir(dirPath string, pkgs Packages, visitedDirs map[util.DirID]str
 
 	dirEntires, err := os.ReadDir(dirPath)
 	if err != nil {
-		panic(err)
+		log.Fatalf("cannot discover packages: %v", err)
 	}
 
 	base := filepath.Base(dirPath)
@@ -84,7 +84,7 @@ func findPkgsInDir(dirPath string, pkgs Packages, visitedDirs map[util.DirID]str
 		dePath := filepath.Join(dirPath, de.Name())
 		fileInfo, err := os.Lstat(dePath)
 		if err != nil {
-			panic(err)
+			log.Fatalf("cannot discover packages: %v", err)
 		}
 		if fileInfo.Mode()&os.ModeSymlink != 0 {
 			dePath, err = filepath.EvalSymlinks(dePath)
@@ -96,7 +96,7 @@ func findPkgsInDir(dirPath string, pkgs Packages, visitedDirs map[util.DirID]str
 
 		fileInfo, err = os.Stat(dePath)
 		if err != nil {
-			panic(err)
+			log.Fatalf("cannot discover packages: %v", err)
 		}
 
 		if fileInfo.IsDir() {
diff --git a/internal/prs/prs.go b/internal/prs/prs.go
index 2d1150d..2433321 100644
--- a/internal/prs/prs.go
+++ b/internal/prs/prs.go
@@ -42,12 +42,12 @@ func parsePackage(pkg *Package, wg *sync.WaitGroup) {
 
 	pkgDirContent, err := os.ReadDir(pkg.Path)
 	if err != nil {
-		panic(err)
+		log.Fatalf("cannot read package directory: %v", err)
 	}
 
 	cwd, err := os.Getwd()
 	if err != nil {
-		panic(err)
+		log.Fatalf("cannot get working directory: %v", err)
 	}
 	cwd += string(os.PathSeparator)
 
-- 
2.43.0


From d1754ea4e612a53e7b45f940dbb9bd735652fca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:08 +0000
Subject: [PATCH 73/78] fix: do not evaluate constants multiple times

---
 internal/prs/expr.go | 26 ++++++++++++++++++++++++++
 internal/prs/type.go |  9 ++++++++-
 2 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/internal/prs/expr.go b/internal/prs/expr.go
index 9c21248..cb8c41a 100644
--- a/internal/prs/expr.go
+++ b/internal/prs/expr.go
@@ -409,9 +409,18 @@ type DeclaredIdentifier struct {
 	s Scope
 
 	evaluating bool // Used for detecting cycles.
+
+	value     val.Value // Last evaluated value.
+	valueBind uint64    // Parameters binding for which the value is valid.
 }
 
 func (di *DeclaredIdentifier) Eval() (val.Value, error) {
+	// Evaluate each identifier only once for given parameters binding.
+	// Without this the evaluation time is exponential in the length of the chain of constants.
+	if di.value != nil && di.valueBind == paramsBind {
+		return di.value, nil
+	}
+
 	if di.evaluating {
 		return val.Int(0), fmt.Errorf("evaluating identifier '%s': dependency cycle", di.x)
 	}
@@ -427,6 +436,10 @@ func (di *DeclaredIdentifier) Eval() (val.Value, error) {
 	if err != nil {
 		return val.Int(0), fmt.Errorf("evaluating constant identifier '%s': %v", di.x, err)
 	}
+
+	di.value = x
+	di.valueBind = paramsBind
+
 	return x, nil
 }
 
@@ -439,9 +452,18 @@ type QualifiedIdentifier struct {
 	s Scope
 
 	evaluating bool // Used for detecting cycles.
+
+	value     val.Value // Last evaluated value.
+	valueBind uint64    // Parameters binding for which the value is valid.
 }
 
 func (qi *QualifiedIdentifier) Eval() (val.Value, error) {
+	// Evaluate each identifier only once for given parameters binding.
+	// Without this the evaluation time is exponential in the length of the chain of constants.
+	if qi.value != nil && qi.valueBind == paramsBind {
+		return qi.value, nil
+	}
+
 	if qi.evaluating {
 		return val.Int(0), fmt.Errorf("evaluating qualified identifier '%s': dependency cycle", qi.x)
 	}
@@ -457,6 +479,10 @@ func (qi *QualifiedIdentifier) Eval() (val.Value, error) {
 	if err != nil {
 		return val.Int(0), fmt.Errorf("evaluating constant qualified identifier '%s': %v", qi.x, err)
 	}
+
+	qi.value = x
+	qi.valueBind = paramsBind
+
 	return x, nil
 }
 
diff --git a/internal/prs/type.go b/internal/prs/type.go
index 0451cbc..4eac3bd 100644
--- a/internal/prs/type.go
+++ b/internal/prs/type.go
@@ -74,12 +74,19 @@ func (t Type) Args() []Arg                         { return t.args.Args }
 func (t Type) Params() []Param                     { return t.params }
 func (t *Type) SetResolvedArgs(ra map[string]Expr) { t.resolvedArgs = ra }
 func (t Type) ResolvedArgs() map[string]Expr       { return t.resolvedArgs }
-func (t *Type) BindParams(args map[string]Expr)    { t.boundParams = args }
 func (t Type) Props() PropContainer                { return t.props }
 func (t Type) Symbols() []Symbol                   { return t.symbolContainer.Symbols() }
 func (t Type) IsArray() bool                       { return t.count != nil }
 func (t Type) Count() Expr                         { return t.count }
 
+// paramsBind is changed each time parameters of any type are bound.
+var paramsBind uint64
+
+func (t *Type) BindParams(args map[string]Expr) {
+	t.boundParams = args
+	paramsBind++
+}
+
 // buildTypes builds list of Types based on the list of ast.Type.
 func buildTypes(astTypes []ast.Type, src []byte) ([]*Type, error) {
 	types := make([]*Type, 0, len(astTypes))
-- 
2.43.0


From 169e464e4de8c2eee078b64850c536c2c6035d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:11 +0000
Subject: [PATCH 74/78] fix: report too deeply nested expressions instead of
 overflowing stack

---
 internal/ast/context.go | 6 ++++++
 internal/ast/expr.go    | 8 ++++++++
 2 files changed, 14 insertions(+)

diff --git a/internal/ast/context.go b/internal/ast/context.go
index 4072ca8..8519f4c 100644
--- a/internal/ast/context.go
+++ b/internal/ast/context.go
@@ -8,7 +8,13 @@ import (
 type context struct {
 	idx  int // Current token index
 	toks []tok.Token
+
+	exprDepth int // Current expression nesting depth
 }
 
+// maxExprDepth is the maximum nesting depth of the expression.
+// It prevents stack overflow during expression processing.
+const maxExprDepth = 10000
+
 func (ctx context) tok() tok.Token     { return ctx.toks[ctx.idx] }
 func (ctx context) nextTok() tok.Token { return ctx.toks[ctx.idx+1] }
diff --git a/internal/ast/expr.go b/internal/ast/expr.go
index 768c8b2..0da107b 100644
--- a/internal/ast/expr.go
+++ b/internal/ast/expr.go
@@ -124,6 +124,13 @@ func buildExpr(ctx *context, leftOp tok.Operator) (Expr, error) {
 		expr Expr
 	)
 
+	ctx.exprDepth++
+	defer func(depth int) { ctx.exprDepth = depth - 1 }(ctx.exprDepth)
+
+	if ctx.exprDepth > maxExprDepth {
+		return Ident{}, tok.Error{Msg: "expression is too deeply nested", Toks: []tok.Token{ctx.tok()}}
+	}
+
 	switch t := ctx.tok().(type) {
 	case tok.Neg, tok.Sub, tok.Add:
 		expr, err = buildUnaryExpr(ctx)
@@ -177,6 +184,7 @@ func buildExpr(ctx *context, leftOp tok.Operator) (Expr, error) {
 			(leftOp != nil && (leftOp.Precedence() < rightOp.Precedence())) {
 			be := BinaryExpr{X: expr, Op: rightOp}
 			ctx.idx++
+			ctx.exprDepth++
 			expr, err = buildExpr(ctx, rightOp)
 			if err != nil {
 				return expr, err
-- 
2.43.0


From bb2ec29dfadf2456ee1f35dbea9c7d6122397974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:00 +0000
Subject: [PATCH 75/78] fix: report failure of writing the result to stdout

---
 cmd/fbdl/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/fbdl/main.go b/cmd/fbdl/main.go
index 74bb821..0efe801 100644
--- a/cmd/fbdl/main.go
+++ b/cmd/fbdl/main.go
@@ -78,5 +78,8 @@ func main() {
 	if err != nil {
 		log.Fatalf("marshal registerification results: %v", err)
 	}
-	fmt.Printf("%s", string(jsonBytes))
+	_, err = os.Stdout.Write(jsonBytes)
+	if err != nil {
+		log.Fatalf("dump registerification results: %v", err)
+	}
 }
-- 
2.43.0


From 6d82ac055100afd99ef36173b654dcd33a409081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:55 +0000
Subject: [PATCH 76/78] fix: ignore broken links and links to directories in
 package directories

---
 internal/prs/prs.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/prs/prs.go b/internal/prs/prs.go
index 2433321..186052f 100644
--- a/internal/prs/prs.go
+++ b/internal/prs/prs.go
@@ -60,6 +60,11 @@ func parsePackage(pkg *Package, wg *sync.WaitGroup) {
 		}
 
 		filePath := path.Join(pkg.Path, file.Name())
+		// Ignore links to directories and broken links, as it is done during the discovery.
+		fileInfo, err := os.Stat(filePath)
+		if err != nil || fileInfo.IsDir() {
+			continue
+		}
 		filePath = strings.TrimPrefix(filePath, cwd)
 
 		filesWG.Add(1)
-- 
2.43.0


From cdb743581102634deafb41bb62f80f0fda235a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:00 +0000
Subject: [PATCH 77/78] fix: strip the directory prefix from the default name
 of import

---
 internal/prs/import.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/prs/import.go b/internal/prs/import.go
index 311d636..3f4ee41 100644
--- a/internal/prs/import.go
+++ b/internal/prs/import.go
@@ -29,7 +29,7 @@ func buildImports(astImports []ast.Import, src []byte) []Import {
 			path = path[1 : len(path)-1]
 			// TODO: Should it be [0] or the last element?
 			name = strings.Split(path, string(os.PathSeparator))[0]
-			if len(name) > 4 && name[0:3] == "fbd-" {
+			if len(name) > 4 && name[0:4] == "fbd-" {
 				name = name[4:]
 			}
 		} else {
-- 
2.43.0


From 2893528e70d6dbfac0d876488a0faead568f4d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:44 +0000
Subject: [PATCH 78/78] fix: reject address spaces and widths which do not fit
 63 bits instead of overflowing

---
 internal/reg/limit.go | 81 +++++++++++++++++++++++++++++++++++++++++++
 internal/reg/reg.go   | 37 +++++++++++---------
 2 files changed, 102 insertions(+), 16 deletions(-)
 create mode 100644 internal/reg/limit.go

diff --git a/internal/reg/limit.go b/internal/reg/limit.go
new file mode 100644
index 0000000..0fbb0d6
--- /dev/null
+++ b/internal/reg/limit.go
@@ -0,0 +1,81 @@
+package reg
+
+import (
+	"log"
+	"math"
+
+	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/fn"
+)
+
+// addSize adds non negative sizes, it fails if the result cannot be represented.
+func addSize(a, b int64) int64 {
+	if a > math.MaxInt64-b {
+		log.Fatalf("address space is too big, it does not fit 63 bits")
+	}
+	return a + b
+}
+
+// mulSize multiplies non negative sizes, it fails if the result cannot be represented.
+func mulSize(a, b int64) int64 {
+	if b > 0 && a > math.MaxInt64/b {
+		log.Fatalf("address space is too big, it does not fit 63 bits")
+	}
+	return a * b
+}
+
+// checkAddr fails if adding registers of a functionality overflowed the address.
+// Functionality never has more registers than the limit checked by the checkWidths.
+func checkAddr(addr int64) int64 {
+	if addr < 0 {
+		log.Fatalf("address space is too big, it does not fit 63 bits")
+	}
+	return addr
+}
+
+// checkWidths checks that total width of each functionality can be represented.
+func checkWidths(blk *fn.Block) {
+	check := func(f fn.Func, widths ...int64) {
+		total := busWidth
+		for _, w := range widths {
+			if w > math.MaxInt64-total {
+				log.Fatalf("'%s': total width is too big, it does not fit 63 bits", f.Name)
+			}
+			total += w
+		}
+	}
+	width := func(f fn.Func, width int64) int64 {
+		if f.Count > 0 && width > math.MaxInt64/f.Count {
+			log.Fatalf("'%s': total width is too big, it does not fit 63 bits", f.Name)
+		}
+		return f.Count * width
+	}
+	params := func(ps []*fn.Param, rs []*fn.Return) []int64 {
+		widths := []int64{}
+		for _, p := range ps {
+			widths = append(widths, width(p.Func, p.Width))
+		}
+		for _, r := range rs {
+			widths = append(widths, width(r.Func, r.Width))
+		}
+		return widths
+	}
+
+	for _, c := range blk.Configs {
+		check(c.Func, width(c.Func, c.Width))
+	}
+	for _, m := range blk.Masks {
+		check(m.Func, width(m.Func, m.Width))
+	}
+	for _, s := range blk.Statics {
+		check(s.Func, width(s.Func, s.Width))
+	}
+	for _, s := range blk.Statuses {
+		check(s.Func, width(s.Func, s.Width))
+	}
+	for _, p := range blk.Procs {
+		check(p.Func, params(p.Params, p.Returns)...)
+	}
+	for _, s := range blk.Streams {
+		check(s.Func, params(s.Params, s.Returns)...)
+	}
+}
diff --git a/internal/reg/reg.go b/internal/reg/reg.go
index ee91bf2..cded3ed 100644
--- a/internal/reg/reg.go
+++ b/internal/reg/reg.go
@@ -29,7 +29,7 @@ func Registerify(bus *fn.Block, addTimestamp bool) {
 
 	timestampAddr := addr
 	if addTimestamp {
-		addr += 1
+		addr = addSize(addr, 1)
 	}
 
 	sizes := types.Sizes{}
@@ -39,11 +39,12 @@ func Registerify(bus *fn.Block, addTimestamp bool) {
 
 	for _, sb := range bus.Subblocks {
 		sbSizes := regBlock(sb)
-		sizes.Cumulated += sb.Count * sbSizes.Cumulated
-		sizes.Aligned += sb.Count * sbSizes.Aligned
+		sizes.Cumulated = addSize(sizes.Cumulated, mulSize(sb.Count, sbSizes.Cumulated))
+		sizes.Aligned = addSize(sizes.Aligned, mulSize(sb.Count, sbSizes.Aligned))
 	}
 
 	bus.Sizes = alignBlockSize(sizes, bus.Align)
+	mulSize(bus.Count, bus.Sizes.Aligned)
 
 	// Base address property is not yet supported, so it starts from 0.
 	assignGlobalAccessAddresses(bus, 0)
@@ -75,6 +76,8 @@ func Registerify(bus *fn.Block, addTimestamp bool) {
 func regFunctionalities(blk *fn.Block, addr int64) int64 {
 	gp := gap.Pool{}
 
+	checkWidths(blk)
+
 	addr = regProcs(blk, addr)
 	addr = regStreams(blk, addr)
 	//addr = regGroups(blk, addr)
@@ -113,7 +116,7 @@ func regGroups(blk *fn.Block, insBlk *ins.Element, addr int64) int64 {
 
 func regProcs(blk *fn.Block, addr int64) int64 {
 	for _, fun := range blk.Procs {
-		addr = regProc(fun, addr)
+		addr = checkAddr(regProc(fun, addr))
 	}
 
 	return addr
@@ -121,7 +124,7 @@ func regProcs(blk *fn.Block, addr int64) int64 {
 
 func regStreams(blk *fn.Block, addr int64) int64 {
 	for _, stream := range blk.Streams {
-		addr = regStream(stream, addr)
+		addr = checkAddr(regStream(stream, addr))
 	}
 
 	return addr
@@ -129,7 +132,7 @@ func regStreams(blk *fn.Block, addr int64) int64 {
 
 func regMasks(blk *fn.Block, addr int64) int64 {
 	for _, mask := range blk.Masks {
-		addr = regMask(mask, addr)
+		addr = checkAddr(regMask(mask, addr))
 	}
 
 	return addr
@@ -157,7 +160,7 @@ func regStatics(blk *fn.Block, addr int64, gp *gap.Pool) int64 {
 	sort.SliceStable(statics, sortFunc(statics))
 
 	for _, st := range statics {
-		addr = regStatic(st, addr, gp)
+		addr = checkAddr(regStatic(st, addr, gp))
 	}
 
 	return addr
@@ -194,10 +197,10 @@ func regStatuses(blk *fn.Block, addr int64, gp *gap.Pool) int64 {
 	sort.SliceStable(nonAtomicSts, sortFunc(nonAtomicSts))
 
 	for _, st := range atomicSts {
-		addr = regAtomicStatus(st, addr, gp)
+		addr = checkAddr(regAtomicStatus(st, addr, gp))
 	}
 	for _, st := range nonAtomicSts {
-		addr = regNonAtomicStatus(st, addr, gp)
+		addr = checkAddr(regNonAtomicStatus(st, addr, gp))
 	}
 
 	return addr
@@ -205,7 +208,7 @@ func regStatuses(blk *fn.Block, addr int64, gp *gap.Pool) int64 {
 
 func regIrqs(blk *fn.Block, addr int64, gp *gap.Pool) int64 {
 	for _, irq := range blk.Irqs {
-		addr = regIrq(irq, addr, gp)
+		addr = checkAddr(regIrq(irq, addr, gp))
 	}
 	return addr
 }
@@ -241,10 +244,10 @@ func regConfigs(blk *fn.Block, addr int64, gp *gap.Pool) int64 {
 	sort.SliceStable(nonAtomicCfgs, sortFunc(nonAtomicCfgs))
 
 	for _, cfg := range atomicCfgs {
-		addr = regAtomicConfig(cfg, addr, gp)
+		addr = checkAddr(regAtomicConfig(cfg, addr, gp))
 	}
 	for _, cfg := range nonAtomicCfgs {
-		addr = regNonAtomicConfig(cfg, addr, gp)
+		addr = checkAddr(regNonAtomicConfig(cfg, addr, gp))
 	}
 
 	return addr
@@ -258,8 +261,8 @@ func regBlock(blk *fn.Block) types.Sizes {
 
 	for _, sb := range blk.Subblocks {
 		b := regBlock(sb)
-		sizes.Cumulated += sb.Count * b.Cumulated
-		sizes.Aligned += sb.Count * b.Aligned
+		sizes.Cumulated = addSize(sizes.Cumulated, mulSize(sb.Count, b.Cumulated))
+		sizes.Aligned = addSize(sizes.Aligned, mulSize(sb.Count, b.Aligned))
 	}
 
 	align := blk.Align
@@ -274,9 +277,11 @@ func regBlock(blk *fn.Block) types.Sizes {
 
 func alignBlockSize(sizes types.Sizes, align int64) types.Sizes {
 	if align == 0 {
-		sizes.Aligned = util.AlignToPowerOf2(util.AlignToPowerOf2(sizes.Own) + sizes.Aligned)
+		sizes.Aligned = checkAddr(util.AlignToPowerOf2(
+			addSize(checkAddr(util.AlignToPowerOf2(sizes.Own)), sizes.Aligned),
+		))
 	} else {
-		sizes.Aligned = util.AlignToMultipleOf(sizes.Own+sizes.Aligned, align)
+		sizes.Aligned = checkAddr(util.AlignToMultipleOf(addSize(sizes.Own, sizes.Aligned), align))
 	}
 
 	return sizes
-- 
2.43.0

