From effe68cd0cb6b060a12fd749879cce7f57434612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:56 +0000
Subject: [PATCH 1/8] fix: Parse must not write to the names map shared between
 calls

Every successful Parse wrote the built-in names into the map given to
NewLL1Parser and returned a pointer to it: concurrent calls raced, the
caller's map changed, results shared one map, a nil map made Parse panic.
---
 pkg/parser/parser.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index f462f08..358afa5 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -364,7 +364,12 @@ func (p *realParser) processEOS() (cst.Node, *map[int]string, error) {
 		return nil, nil, fmt.Errorf("prod stack empty")
 	}
 
-	ret_names := p.names
+	// p.names is shared with the caller of NewLL1Parser and with other Parse
+	// calls: every result gets a map of its own
+	ret_names := make(map[int]string, len(p.names) + 2)
+	for name_id, name := range p.names {
+		ret_names[name_id] = name
+	}
 	ret_names[builtinTerminal] = "_literal"
 	ret_names[builtinNothing]  = "_nothing"
 
-- 
2.43.0


From 18f1fe213eac1291fc8ce14d73531e36713eeecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:56 +0000
Subject: [PATCH 2/8] fix: a zero byte in the source is not the end of input

Everything behind a zero byte was silently ignored, and a zero byte in a
terminal matched beyond the end of the source.
---
 pkg/parser/parser.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 358afa5..1cbe4ea 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -210,6 +210,11 @@ func (s *ll1parserScanner) peek() byte {
 	return s.src[s.offset]
 }
 
+// peek can't tell end of input from zero byte in the input
+func (s *ll1parserScanner) atEnd() bool {
+	return s.offset >= len(s.src)
+}
+
 func (s *ll1parserScanner) next() {
 	s.offset++
 }
@@ -350,7 +355,7 @@ func (p *realParser) processFunction(f function_t) {
 }
 
 func (p *realParser) processEOS() (cst.Node, *map[int]string, error) {
-	if p.scanner.peek() != byte(0) {
+	if !p.scanner.atEnd() {
 		// fmt.Println("expected end of input got: ", in.Peek())
 		// Parsing error Unexpected EOF
 		return nil, nil, fmt.Errorf("expected end of input got %s",
@@ -377,7 +382,7 @@ func (p *realParser) processEOS() (cst.Node, *map[int]string, error) {
 }
 
 func (p *realParser) processChar(c opChar_t) error {
-	if c.Value() != p.scanner.peek() {
+	if p.scanner.atEnd() || c.Value() != p.scanner.peek() {
 		// Parsing error
 		return fmt.Errorf("expected char %s, got %s",
 		                  charCode(c.Value()),
-- 
2.43.0


From d468845a70c41a5e44dfd85541c4eac3aa8ef5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:56 +0000
Subject: [PATCH 3/8] fix: ToAST must not sort the caller's IgnoreNodeTypes in
 place

Concurrent conversions with one bindings value raced on the slice and could
miss ignored nodes while another call was sorting.
---
 pkg/bnf/fromcst/fromcst.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/bnf/fromcst/fromcst.go b/pkg/bnf/fromcst/fromcst.go
index bb03b31..d36a509 100644
--- a/pkg/bnf/fromcst/fromcst.go
+++ b/pkg/bnf/fromcst/fromcst.go
@@ -301,6 +301,8 @@ func (b BNFCSTtoASTBindings) parseRule(rule cst.Node, str string) (*bnf.Rule, er
 
 func (b BNFCSTtoASTBindings) ToAST(root cst.Node, str string) (*bnf.Grammar, error) {
 
+	// the slice is shared with the caller and other calls: sort a copy
+	b.IgnoreNodeTypes = append([]int{}, b.IgnoreNodeTypes...)
 	sort.Sort(sort.IntSlice(b.IgnoreNodeTypes))
 
 	var res bnf.Grammar
-- 
2.43.0


From 79d6506cfbab42556b4df7e6037c573d42605594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:56 +0000
Subject: [PATCH 4/8] fix: FOLLOW must look through every symbol that may be
 empty

Only the symbol right behind a non terminal was considered, so parsers of
LL(1) grammars with several nullable symbols in a row refused sentences.
---
 pkg/bnf/tablegen/tablegen.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pkg/bnf/tablegen/tablegen.go b/pkg/bnf/tablegen/tablegen.go
index 049b9ce..db2a9e9 100644
--- a/pkg/bnf/tablegen/tablegen.go
+++ b/pkg/bnf/tablegen/tablegen.go
@@ -229,14 +229,21 @@ func (tg *tableGenerator,
 		}
 
 		// rule 2
-		// get firsts for next symbol in sequance (can be itself)
-		nextFirsts, err := tg.symbolFirsts(&(*sequence).Symbols[i+1])
-		if err != nil {
-			return err
+		// get firsts for rest of sequence (can contain itself): symbols
+		// which may be empty are looked through, empty string is kept only
+		// if every symbol may be empty
+		nextFirsts := bs.New(EOS)
+		for j := i + 1; j < symbolsLen && nextFirsts.Contains(EOS); j++ {
+			symbolFirsts, err := tg.symbolFirsts(&(*sequence).Symbols[j])
+			if err != nil {
+				return err
+			}
+			nextFirsts.Remove(EOS)
+			nextFirsts = nextFirsts.Union(symbolFirsts)
 		}
 
 		// rule 4
-		// if next symbol (q) 's firsts contain empty string (Є)
+		// if rest (q) 's firsts contain empty string (Є)
 		// add to target rule's follows it's firsts w/o empty
 		// and follow set for sequence's rule (A)
 		//
-- 
2.43.0


From a8de78ce74075ea876b632ebe9b2e286012ca3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:56 +0000
Subject: [PATCH 5/8] fix: refuse two alternatives in one table cell

Alternatives competing for the same byte were concatenated into one cell;
with a left-recursive grammar Parse then never returned.
---
 pkg/bnf/tablegen/tablegen.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/bnf/tablegen/tablegen.go b/pkg/bnf/tablegen/tablegen.go
index db2a9e9..0a033f9 100644
--- a/pkg/bnf/tablegen/tablegen.go
+++ b/pkg/bnf/tablegen/tablegen.go
@@ -353,6 +353,11 @@ func (tg *tableGenerator,
 		}
 
 		for _, term := range seqFirsts.Bytes() {
+			if _, ok := res[byte(term)]; ok {
+				return res,
+					fmt.Errorf("grammar lead to multiple parser op " +
+						"sets per table cell")
+			}
 			for _, symbol := range sequence.Symbols {
 				switch v := symbol.(type) {
 				case bnf.SymbolTerminal:
-- 
2.43.0


From 4db29366033b280f27719e5325204e33b751ddf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:56 +0000
Subject: [PATCH 6/8] fix: table generation must not print to standard output

---
 pkg/bnf/tablegen/tablegen.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/bnf/tablegen/tablegen.go b/pkg/bnf/tablegen/tablegen.go
index 0a033f9..dd5c28e 100644
--- a/pkg/bnf/tablegen/tablegen.go
+++ b/pkg/bnf/tablegen/tablegen.go
@@ -340,8 +340,7 @@ func (tg *tableGenerator,
 			seqFollows := tg.follows[ruleIndex]
 
 			for _, followTerm := range seqFollows.Bytes() {
-				if v, ok := res[byte(followTerm)]; ok {
-					fmt.Println(v)
+				if _, ok := res[byte(followTerm)]; ok {
 					return res,
 						fmt.Errorf("grammar lead to multiple parser op " +
 							"sets per table cell")
-- 
2.43.0


From b4aa9fbb9c75f9cd032d376b10290e15a3af93b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:48 +0000
Subject: [PATCH 7/8] fix: refuse malformed grammars with an error

Table generation panicked on a grammar without rules, on an empty terminal,
on an empty-string symbol behind a terminal and on a nil symbol, and did not
notice an undefined rule in an alternative with empty FIRST.
---
 pkg/bnf/tablegen/tablegen.go | 49 ++++++++++++++++++++++++++++++++++++
 1 file changed, 49 insertions(+)

diff --git a/pkg/bnf/tablegen/tablegen.go b/pkg/bnf/tablegen/tablegen.go
index dd5c28e..9bfac79 100644
--- a/pkg/bnf/tablegen/tablegen.go
+++ b/pkg/bnf/tablegen/tablegen.go
@@ -421,6 +421,50 @@ func (tg *tableGenerator) Run() (table *map[int]map[byte][]parser.ParserOp,
 	return tg.makeTable()
 }
 
+// checkGrammar
+// Refuses grammars table can't be generated from because they are malformed,
+// rest of table generation relies on what is checked here
+func (tg *tableGenerator) checkGrammar() error {
+	if tg.ruleCount == 0 {
+		return errors.New("grammar has no rules")
+	}
+
+	for i := range tg.g.Rules {
+		for _, sequence := range tg.g.Rules[i].Tail.Sequences {
+			if len(sequence.Symbols) == 0 {
+				return errors.New("empty sequence")
+			}
+
+			for _, symbol := range sequence.Symbols {
+				switch v := symbol.(type) {
+				case bnf.SymbolTerminal:
+					if len(v.Name) == 0 {
+						return errors.New(
+							"terminal with empty string check grammar")
+					}
+
+				case bnf.SymbolNothing:
+					if len(sequence.Symbols) > 1 {
+						return errors.New(
+							"empty string is not a single sequence symbol")
+					}
+
+				case bnf.SymbolNonTerminal:
+					if _, ok := tg.ruleMap[v.Name]; !ok {
+						return fmt.Errorf(
+							"no rules defined for non terminal <%s>", v.Name)
+					}
+
+				default:
+					return fmt.Errorf("symbol of unknown type: %T", v)
+				}
+			}
+		}
+	}
+
+	return nil
+}
+
 func FromGrammar(g bnf.Grammar) (table *map[int]map[byte][]parser.ParserOp,
 	rowNames *map[int]string,
 	err error) {
@@ -452,6 +496,11 @@ func FromGrammar(g bnf.Grammar) (table *map[int]map[byte][]parser.ParserOp,
 		}
 	}
 
+	err = tablegen.checkGrammar()
+	if err != nil {
+		return nil, nil, err
+	}
+
 	table, err = tablegen.Run()
 	if err != nil {
 		return nil, nil, err
-- 
2.43.0


From a02521ea58ccdf5c7cc3face1cb530ae3b0bedc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:53 +0000
Subject: [PATCH 8/8] fix: escape sequences are recognised by the bindings, not
 by the self grammar's numbering

---
 pkg/bnf/fromcst/fromcst.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/pkg/bnf/fromcst/fromcst.go b/pkg/bnf/fromcst/fromcst.go
index d36a509..1c689ab 100644
--- a/pkg/bnf/fromcst/fromcst.go
+++ b/pkg/bnf/fromcst/fromcst.go
@@ -88,6 +88,11 @@ type BNFCSTtoASTBindings struct {
 
 	SymbolNonTerminalType int
 
+	// nonterminal containing full escape sequence inside of a terminal
+	// (i.e. escape symbol followed by EscapeCharacterType)
+	// Bindings that leave it 0 mean the one of bnf.SelfGrammar
+	EscapeSequenceType int
+
 	// Content of this type (single character striung) will be used to replace
 	// with corresponding value from EscapeMapping
 	EscapeCharacterType int
@@ -143,10 +148,18 @@ func (b BNFCSTtoASTBindings) parseEscape(escSeq cst.Node, str string) ([]byte, e
 	return nil, err
 }
 
+// type of escape sequences in bnf.SelfGrammar
+const selfEscapeSequenceType = 16
+
 // manually construct terminal literal
 func (b BNFCSTtoASTBindings) parseTerminalName(symbol cst.Node, str string) (string, error) {
 	sb := strings.Builder{}
 
+	escapeType := b.EscapeSequenceType
+	if escapeType == 0 {
+		escapeType = selfEscapeSequenceType
+	}
+
 	fOnNode := func(node cst.Node) error {
 		if node.Type() == parser.BuiltinTerminal {
 			sb.Write([]byte(str[node.Pos():node.End()]))
@@ -164,7 +177,7 @@ func (b BNFCSTtoASTBindings) parseTerminalName(symbol cst.Node, str string) (str
 	err := lrTraverse(
 		symbol,
 		func(int) bool { return false },
-		func(n int) bool { return n == 16 || n == parser.BuiltinTerminal },
+		func(n int) bool { return n == escapeType || n == parser.BuiltinTerminal },
 		fOnNode)
 
 	return sb.String(), err
@@ -335,6 +348,7 @@ func SelfCSTtoASTBindings() BNFCSTtoASTBindings {
 		SequencesSymbolType:     9,
 		SymbolTerminalTypes:     []int{11, 12},
 		SymbolNonTerminalType:   18,
+		EscapeSequenceType:      selfEscapeSequenceType,
 		EscapeCharacterType:     17,
 		EscapeMapping: map[string]string{
 			`t`: "\t",
-- 
2.43.0

