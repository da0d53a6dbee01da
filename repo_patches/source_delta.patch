From 3e26f8af7b4e5a6c1a26b8600f7365392c9e0a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:53 +0000
Subject: [PATCH 01/36] fix: IsLeftRecursive finds left recursion hidden behind
 nullable symbols

A symbol that had already been checked was treated as not nullable, and
only a direct empty production counted as nullable, so S -> A S with
A -> B, B -> <empty> was reported as not left recursive.
---
 leftrecursion.go | 69 +++++++++++++++++++++++++++++++++++-------------
 1 file changed, 51 insertions(+), 18 deletions(-)

diff --git a/leftrecursion.go b/leftrecursion.go
index f3d3d95..d2addd5 100644
--- a/leftrecursion.go
+++ b/leftrecursion.go
@@ -5,11 +5,11 @@ func IsLeftRecursive(grammar Grammar) bool {
 	op := &lrOp{
 		Grammar: grammar,
 		checked: make(map[string]bool),
+		stack:   make(map[string]bool),
 	}
+	op.findNullable()
 	for _, nt := range grammar.NonTerminals() {
-		op.stack = make(map[string]bool)
-		isLR, _ := op.check(nt)
-		if isLR {
+		if op.check(nt) {
 			return true
 		}
 	}
@@ -18,41 +18,74 @@ func IsLeftRecursive(grammar Grammar) bool {
 
 type lrOp struct {
 	Grammar
-	checked, stack map[string]bool
+	checked, stack, nullable map[string]bool
 }
 
-func (op *lrOp) check(s Symbol) (isLR, checkNext bool) {
+// findNullable finds every non-terminal that can derive the empty string.
+func (op *lrOp) findNullable() {
+	op.nullable = make(map[string]bool)
+	nts := op.NonTerminals()
+	for changed := true; changed; {
+		changed = false
+		for _, nt := range nts {
+			if op.nullable[nt.String()] {
+				continue
+			}
+			prods := op.Productions(nt)
+			if prods == nil {
+				continue
+			}
+			for i := prods.Iter(); i.Next(); {
+				if op.allNullable(i.Production) {
+					op.nullable[nt.String()] = true
+					changed = true
+					break
+				}
+			}
+		}
+	}
+}
+
+func (op *lrOp) allNullable(p Production) bool {
+	for i := p.Iter(); i.Next(); {
+		if !op.nullable[i.Symbol.String()] {
+			return false
+		}
+	}
+	return true
+}
+
+// check returns true if a cycle of leftmost symbols can be reached from s. A
+// symbol can be leftmost if everything before it in the production is nullable.
+func (op *lrOp) check(s Symbol) bool {
 	if op.checked[s.String()] {
-		return false, false
+		return false
 	}
 
 	prods := op.Productions(s)
 	if prods == nil {
 		// s is a terminal
 		op.checked[s.String()] = true // add to checked to avoid the lookup in the future
-		return false, false
+		return false
 	}
 
 	if op.stack[s.String()] {
-		return true, false
+		return true
 	}
 	op.stack[s.String()] = true
 
-	retCheckNext := false
 	for i := prods.Iter(); i.Next(); {
-		if i.Production.Symbols() == 0 {
-			retCheckNext = true
-			continue
-		}
-		for j, isLR, checkNext := i.Iter(), false, true; j.Next() && checkNext; {
-			isLR, checkNext = op.check(j.Symbol)
-			if isLR {
-				return true, false
+		for j := i.Iter(); j.Next(); {
+			if op.check(j.Symbol) {
+				return true
+			}
+			if !op.nullable[j.Symbol.String()] {
+				break
 			}
 		}
 	}
 
 	op.checked[s.String()] = true
 	op.stack[s.String()] = false
-	return false, retCheckNext
+	return false
 }
-- 
2.43.0


From 0270c0fdd68e571859d2f888f483868e892406a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:16 +0000
Subject: [PATCH 02/36] fix: setsymbol.Set.ByIdx returns nil for every index
 out of range

The index equal to Size was accepted and gave a symbol whose String panics.
---
 symbol/setsymbol/set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbol/setsymbol/set.go b/symbol/setsymbol/set.go
index 856a9d9..cad2381 100644
--- a/symbol/setsymbol/set.go
+++ b/symbol/setsymbol/set.go
@@ -25,7 +25,7 @@ func (s *Set) Size() int { return len(s.symb2str) }
 
 // ByIdx gets a symbol by index from the set
 func (s *Set) ByIdx(idx int) *Symbol {
-	if idx > len(s.symb2str) {
+	if idx < 0 || idx >= len(s.symb2str) {
 		return nil
 	}
 	return &Symbol{
-- 
2.43.0


From b571d21de04bd35e9be3c5f26f773921d9f6e0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:18 +0000
Subject: [PATCH 03/36] fix: productions taken from a setsymbol.Productions do
 not share spare capacity

AddSymbols on two views of the same production wrote to the same backing
array, so the second overwrote the symbols added to the first.
---
 symbol/setsymbol/set.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symbol/setsymbol/set.go b/symbol/setsymbol/set.go
index cad2381..4ca8f59 100644
--- a/symbol/setsymbol/set.go
+++ b/symbol/setsymbol/set.go
@@ -261,8 +261,9 @@ func (p *Productions) Productions() int {
 // Production returns the production at the given index
 func (p *Productions) Production(i int) parlex.Production {
 	if i < len(p.prods) {
+		symbs := p.prods[i]
 		return &Production{
-			symbs: p.prods[i],
+			symbs: symbs[:len(symbs):len(symbs)],
 			set:   p.set,
 		}
 	}
-- 
2.43.0


From 21301603f20d38e61fe427a1e28fb00f7fdb6d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:19 +0000
Subject: [PATCH 04/36] fix: symbols in a grammar production can be separated
 by tabs

Two symbols separated by only a tab were fused into one symbol.
---
 grammar/grammar.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/grammar/grammar.go b/grammar/grammar.go
index 9e739b1..3136e49 100644
--- a/grammar/grammar.go
+++ b/grammar/grammar.go
@@ -16,13 +16,10 @@ var ErrBadGrammar = errors.New("Bad Grammar")
 // production
 func (g *Grammar) trimAndSplit(str string) *setsymbol.Production {
 	//TODO: add some tests for this
-	strs := strings.Split(strings.TrimSpace(str), " ")
+	strs := strings.Fields(str)
 	symbols := make([]parlex.Symbol, 0, len(strs))
 	for _, str := range strs {
-		str = strings.TrimSpace(str) // trim tabs
-		if str != "" {               // skip empty caused by two spaces in a row
-			symbols = append(symbols, g.set.Str(str))
-		}
+		symbols = append(symbols, g.set.Str(str))
 	}
 
 	return g.set.Production(symbols...)
-- 
2.43.0


From bf7d2fa624873751f8c62563a09ad6ebc53508ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:21 +0000
Subject: [PATCH 05/36] fix: looking up productions does not change the grammar

Productions added every symbol it was asked about to the grammar's set, so
lookups from two goroutines raced on the set's map.
---
 grammar/grammar.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/grammar/grammar.go b/grammar/grammar.go
index 3136e49..b3b67ce 100644
--- a/grammar/grammar.go
+++ b/grammar/grammar.go
@@ -117,8 +117,8 @@ func Empty() *Grammar {
 // not a non-terminal in the Grammar, nil is returned. It is part of the
 // parlex.Grammer interface.
 func (g *Grammar) Productions(symbol parlex.Symbol) parlex.Productions {
-	idx := g.set.Symbol(symbol).Idx()
-	if idx >= len(g.productions) {
+	idx := g.set.Idx(symbol)
+	if idx < 0 || idx >= len(g.productions) {
 		return nil
 	}
 	p := g.productions[idx]
-- 
2.43.0


From 0bdc017715ea4b20c32f74ab9cc3021dcf9d0d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:03 +0000
Subject: [PATCH 06/36] fix: analysis finds the firsts of recursive grammars

firsts read the unfinished result of a symbol that was still being worked
on, confused reaching an empty production through leftmost children with
deriving the empty string, marked only leading terminals as terminals and
did not recognise a non-terminal with only empty productions.
---
 analyze/analysis.go | 90 ++++++++++++++++++++++++++++++---------------
 1 file changed, 60 insertions(+), 30 deletions(-)

diff --git a/analyze/analysis.go b/analyze/analysis.go
index 69dd846..3252b87 100644
--- a/analyze/analysis.go
+++ b/analyze/analysis.go
@@ -13,7 +13,7 @@ type Analytics struct {
 	nilInFirst     []bool
 	Terminals      []bool
 	set            *setsymbol.Set
-	done           []bool
+	nullable       []bool
 }
 
 // Analyze a grammar. The grammar is embeded so the return value can be used as
@@ -35,12 +35,28 @@ func Analyze(grammar parlex.Grammar) *Analytics {
 		nonterm2firsts: make([][]int, ln),
 		nilInFirst:     make([]bool, ln),
 		Terminals:      make([]bool, ln),
-		done:           make([]bool, ln),
+		nullable:       make([]bool, ln),
 	}
 
-	// find firsts by populating nonterm2firsts
+	// anything that is not a non-terminal is a terminal
+	for i := range a.Terminals {
+		a.Terminals[i] = true
+	}
+	nonterms := make([]*setsymbol.Symbol, 0, ln)
 	for _, symbol := range a.NonTerminals() {
-		a.firsts(a.set.Symbol(symbol))
+		nt := a.set.Symbol(symbol)
+		a.Terminals[nt.Idx()] = false
+		a.nonterm2firsts[nt.Idx()] = []int{}
+		nonterms = append(nonterms, nt)
+	}
+
+	// find firsts by populating nonterm2firsts, a recursive grammar can require
+	// several passes
+	for changed := true; changed; {
+		changed = false
+		for _, nt := range nonterms {
+			changed = a.firsts(nt) || changed
+		}
 	}
 
 	// populate first2nonterms from nonterm2firsts
@@ -59,37 +75,51 @@ func Analyze(grammar parlex.Grammar) *Analytics {
 	return a
 }
 
-func (a *Analytics) firsts(s *setsymbol.Symbol) ([]int, bool) {
+// firsts updates what is known about s from its productions. It returns true if
+// anything was added.
+func (a *Analytics) firsts(s *setsymbol.Symbol) bool {
 	sIdx := s.Idx()
-	if a.done[sIdx] {
-		return a.nonterm2firsts[sIdx], a.nilInFirst[sIdx]
+	changed := false
+	set := func(flag *bool) {
+		changed = changed || !*flag
+		*flag = true
+	}
+
+	has := make(map[int]bool)
+	for _, first := range a.nonterm2firsts[sIdx] {
+		has[first] = true
+	}
+	add := func(first int) {
+		if !has[first] {
+			has[first] = true
+			a.nonterm2firsts[sIdx] = append(a.nonterm2firsts[sIdx], first)
+			changed = true
+		}
 	}
-	a.done[sIdx] = true
 
-	var fs []int
-	nilInFirst := false
 	for i := a.Productions(s).Iter(); i.Next(); {
 		if i.Symbols() == 0 {
-			nilInFirst = true
-			continue
+			set(&a.nilInFirst[sIdx])
 		}
-		var firsts []int
-		for j, doNext := i.Iter(), true; j.Next() && doNext; {
-			symbol := a.set.Symbol(j.Symbol)
-			if a.Productions(symbol) == nil {
-				doNext = false
-				fs = append(fs, symbol.Idx())
-				a.Terminals[symbol.Idx()] = true
-			} else {
-				firsts, doNext = a.firsts(symbol)
-				nilInFirst = nilInFirst || doNext
-				fs = append(fs, firsts...)
+		doNext := true
+		for j := i.Iter(); doNext && j.Next(); {
+			idx := a.set.Symbol(j.Symbol).Idx()
+			if a.Terminals[idx] {
+				add(idx)
+			}
+			for _, first := range a.nonterm2firsts[idx] {
+				add(first)
+			}
+			if a.nilInFirst[idx] {
+				set(&a.nilInFirst[sIdx])
 			}
+			doNext = a.nullable[idx]
+		}
+		if doNext {
+			set(&a.nullable[sIdx])
 		}
 	}
-	a.nonterm2firsts[sIdx] = fs
-	a.nilInFirst[sIdx] = nilInFirst
-	return fs, nilInFirst
+	return changed
 }
 
 // Contains returns true if the grammar contains the symbol as either a terminal
@@ -127,11 +157,11 @@ func (a *Analytics) HasFirst(symbol parlex.Symbol, first parlex.Symbol) bool {
 	if s == nil {
 		return false
 	}
-	nonterms := a.first2nonterms[f.Idx()]
-	if nonterms == nil {
-		return s.Idx() == f.Idx()
+	if s.Idx() == f.Idx() {
+		return true
 	}
-	return nonterms[s.Idx()]
+	nonterms := a.first2nonterms[f.Idx()]
+	return nonterms != nil && nonterms[s.Idx()]
 }
 
 // HasNilInFirst will return true if it possible to reach an empty production
-- 
2.43.0


From b038134e815e9cb826f961cf78e7a4a30424953b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:09 +0000
Subject: [PATCH 07/36] fix: packrat accepts the empty sequence only if the
 grammar derives it

The zero treeDef found when the start symbol was not in the memo looks like
one that ends at 0, so every grammar accepted the empty sequence.
---
 parser/packrat/packrat.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/packrat/packrat.go b/parser/packrat/packrat.go
index 45965d9..622ae27 100644
--- a/parser/packrat/packrat.go
+++ b/parser/packrat/packrat.go
@@ -108,8 +108,8 @@ func (p *Packrat) Parse(lexemes []parlex.Lexeme) parlex.ParseNode {
 	var accept treeKey
 	accept.idx = start.idx
 	accept.end = len(lexemes)
-	accepted := op.memo[accept]
-	if accepted.end != accept.end {
+	accepted, ok := op.memo[accept]
+	if !ok {
 		return nil
 	}
 	return accepted.toPN(op.lxms, op.memo, op.set)
-- 
2.43.0


From d78e54b989753b1034c38e78418c0f1c0fa81069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:10 +0000
Subject: [PATCH 08/36] fix: packrat does not confuse a lexeme with the
 non-terminal of the same name

A lexeme whose kind is the name of a non-terminal was matched against a
production of that non-terminal, and put in the tree in place of it.
---
 parser/packrat/packrat.go | 27 ++++++++-------------------
 1 file changed, 8 insertions(+), 19 deletions(-)

diff --git a/parser/packrat/packrat.go b/parser/packrat/packrat.go
index 622ae27..37a989d 100644
--- a/parser/packrat/packrat.go
+++ b/parser/packrat/packrat.go
@@ -166,14 +166,6 @@ func (u *updater) update(op *prOp) {
 		start: extended.end,
 	}
 
-	if td := op.checkNonTerminal(extended.treeMarker); td != nil {
-		(&updater{
-			base:      extended,
-			extension: td.treeKey,
-		}).update(op)
-		return
-	}
-
 	op.addPartial(extended, requires)
 }
 
@@ -230,7 +222,7 @@ func (op *prOp) addPartial(tp treePartial, requires treeMarker) {
 	if op.nonterms[requires.idx] {
 		op.partials[requires] = append(op.partials[requires], tp)
 	} else {
-		op.checkNonTerminal(requires)
+		op.checkTerminal(requires)
 	}
 
 	for _, td := range op.markers[requires] {
@@ -240,16 +232,13 @@ func (op *prOp) addPartial(tp treePartial, requires treeMarker) {
 	op.addProds(requires)
 }
 
-func (op *prOp) checkNonTerminal(at treeMarker) *treeDef {
-	matchesNonterminal := at.start < len(op.lxms) && at.idx == op.lxms[at.start].K.(*setsymbol.Symbol).Idx()
-	if !matchesNonterminal {
-		return nil
+func (op *prOp) checkTerminal(at treeMarker) {
+	if at.start < len(op.lxms) && at.idx == op.lxms[at.start].K.(*setsymbol.Symbol).Idx() {
+		var td treeDef
+		td.treeMarker = at
+		td.end = at.start + 1
+		op.addToMemo(td)
 	}
-	var td treeDef
-	td.treeMarker = at
-	td.end = at.start + 1
-	op.addToMemo(td)
-	return &td
 }
 
 func (op *prOp) push(tp treePartial, tk treeKey) {
@@ -263,7 +252,7 @@ func (op *prOp) push(tp treePartial, tk treeKey) {
 func (td *treeDef) toPN(lxms []*lexeme.Lexeme, memo map[treeKey]treeDef, set *setsymbol.Set) *tree.PN {
 	var lx *lexeme.Lexeme
 	var setPos bool
-	if td.start < len(lxms) && lxms[td.start].K.(*setsymbol.Symbol).Idx() == td.idx {
+	if len(td.children) == 0 && td.end > td.start {
 		lx = lxms[td.start]
 	} else {
 		lx = lexeme.New(set.ByIdx(td.idx))
-- 
2.43.0


From d24f8a4fc3898c30c95a16b1e2ead324af748ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:39 +0000
Subject: [PATCH 09/36] fix: packrat chooses between derivations after finding
 all of them

Alternatives were compared as they were discovered. If the children of one
were improved later the comparison was not repeated, so the tree depended
on the order of discovery and not on the priority of the productions.
---
 parser/packrat/packrat.go | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/parser/packrat/packrat.go b/parser/packrat/packrat.go
index 37a989d..05ccf21 100644
--- a/parser/packrat/packrat.go
+++ b/parser/packrat/packrat.go
@@ -49,6 +49,7 @@ type prOp struct {
 	grmr     parlex.Grammar
 	lxms     []*lexeme.Lexeme
 	memo     map[treeKey]treeDef
+	others   map[treeKey][]treeDef
 	markers  map[treeMarker][]treeDef
 	partials map[treeMarker][]treePartial
 	queued   map[treeMarker]bool
@@ -84,6 +85,7 @@ func (p *Packrat) Parse(lexemes []parlex.Lexeme) parlex.ParseNode {
 		grmr:     p.Grammar,
 		lxms:     set.LoadLexemes(lexemes),
 		memo:     make(map[treeKey]treeDef),
+		others:   make(map[treeKey][]treeDef),        // alternatives to the treeDef in memo
 		markers:  make(map[treeMarker][]treeDef),     // maps marker to treeDef containing that marker
 		partials: make(map[treeMarker][]treePartial), // maps a marker to a treePartial looking for that marker
 		queued:   make(map[treeMarker]bool),
@@ -112,6 +114,8 @@ func (p *Packrat) Parse(lexemes []parlex.Lexeme) parlex.ParseNode {
 	if !ok {
 		return nil
 	}
+	op.resolve(accept, make(map[treeKey]bool))
+	accepted = op.memo[accept]
 	return accepted.toPN(op.lxms, op.memo, op.set)
 }
 
@@ -170,20 +174,46 @@ func (u *updater) update(op *prOp) {
 }
 
 func (op *prOp) addToMemo(td treeDef) {
-	old, ok := op.memo[td.treeKey]
+	_, ok := op.memo[td.treeKey]
 	if !ok {
 		op.memo[td.treeKey] = td
 		op.markers[td.treeMarker] = append(op.markers[td.treeMarker], td)
 		for _, tp := range op.partials[td.treeMarker] {
 			op.push(tp, td.treeKey)
 		}
-	} else if td.comparePriority(&old, op) == 1 && !op.createsCircularDep(td, &td) {
-		op.memo[td.treeKey] = td
+	} else {
+		op.others[td.treeKey] = append(op.others[td.treeKey], td)
+	}
+}
+
+// resolve chooses the treeDef with the highest priority. The priority depends on
+// the children, so they have to be resolved first.
+func (op *prOp) resolve(key treeKey, resolved map[treeKey]bool) {
+	if resolved[key] {
+		return
+	}
+	resolved[key] = true
+	for _, ck := range op.memo[key].children {
+		op.resolve(ck, resolved)
+	}
+	for _, td := range op.others[key] {
+		for _, ck := range td.children {
+			op.resolve(ck, resolved)
+		}
+	}
+	for _, td := range op.others[key] {
+		old := op.memo[key]
+		if td.comparePriority(&old, op) == 1 && !op.createsCircularDep(td, &td) {
+			op.memo[key] = td
+		}
 	}
 }
 
 func (op *prOp) createsCircularDep(node treeDef, root *treeDef) bool {
 	for _, ck := range node.children {
+		if ck.start != root.start || ck.end != root.end {
+			continue // a tree for only a part of the root cannot contain the root
+		}
 		if ck == root.treeKey || op.createsCircularDep(op.memo[ck], root) {
 			return true
 		}
-- 
2.43.0


From ea97e26cd0701b379ea8cd4e4f20cde21ff42b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:40 +0000
Subject: [PATCH 10/36] fix: trees from the top down parser have parents and do
 not share nodes

Parents were never set, and a memoized node accepted in two places (always
an empty one) occurred twice in the tree.
---
 parser/topdown/topdown.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/parser/topdown/topdown.go b/parser/topdown/topdown.go
index 803bbf7..5fc3407 100644
--- a/parser/topdown/topdown.go
+++ b/parser/topdown/topdown.go
@@ -47,7 +47,21 @@ func (t *Topdown) Parse(lexemes []parlex.Lexeme) parlex.ParseNode {
 	if node == nil {
 		return nil
 	}
-	return node
+	return link(node, nil)
+}
+
+// link copies the accepted nodes setting the parents. The copy is necessary
+// because a memoized node can be accepted in more than one place.
+func link(node, parent *tree.PN) *tree.PN {
+	pn := &tree.PN{
+		Lexeme: lexeme.Copy(node.Lexeme),
+		P:      parent,
+		C:      make([]*tree.PN, len(node.C)),
+	}
+	for i, c := range node.C {
+		pn.C[i] = link(c, pn)
+	}
+	return pn
 }
 
 type treeKey struct {
-- 
2.43.0


From dcb73736267600d051dc41475555e68f736ba62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:48 +0000
Subject: [PATCH 11/36] fix: the Parent of the root of a tree is nil

A nil *PN was returned as a parlex.ParseNode that does not equal nil.
---
 tree/parsetree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tree/parsetree.go b/tree/parsetree.go
index f88e5f9..6269de6 100644
--- a/tree/parsetree.go
+++ b/tree/parsetree.go
@@ -57,6 +57,9 @@ type PN struct {
 // Parent returns a reference to the nodes parent. If parent is nil, this is the
 // root of the tree. This is part of the parlex.ParseNode interface.
 func (p *PN) Parent() parlex.ParseNode {
+	if p.P == nil {
+		return nil
+	}
 	return p.P
 }
 
-- 
2.43.0


From a0680cc89418ee48cde41fd5fe19c54a2937d270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:50 +0000
Subject: [PATCH 12/36] fix: tree.New refuses empty and unbalanced tree strings

No node or an extra closing brace caused a panic, a missing closing brace a
panic or the wrong root, and nodes after the root were dropped.
---
 tree/parsetree.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tree/parsetree.go b/tree/parsetree.go
index 6269de6..383f9a2 100644
--- a/tree/parsetree.go
+++ b/tree/parsetree.go
@@ -20,13 +20,17 @@ var handleSlash = strings.NewReplacer(`\\`, "\\", `\n`, "\n", `\"`, "\"")
 // New creates a *PN from a string. They are more commonly created from a Parser
 // but this can be useful for testing.
 func New(str string) (*PN, error) {
-	cur := &PN{}
+	root := &PN{}
+	cur := root
 	for _, line := range strings.Split(str, "\n") {
 		m := reTreeLine.FindStringSubmatch(line)
 		if len(line) != len(m[0]) {
 			return nil, ErrBadTreeString
 		}
 		if m[1] == "}" {
+			if cur == root {
+				return nil, ErrBadTreeString
+			}
 			cur = cur.P
 		}
 		if m[2] != "" {
@@ -42,7 +46,10 @@ func New(str string) (*PN, error) {
 			}
 		}
 	}
-	cur = cur.C[0]
+	if cur != root || len(root.C) != 1 {
+		return nil, ErrBadTreeString
+	}
+	cur = root.C[0]
 	cur.P = nil
 	return cur, nil
 }
-- 
2.43.0


From 2992c27fffd68051a57db48dd7f62bf1ecf459b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:51 +0000
Subject: [PATCH 13/36] fix: tree.New reverses every escape that PN.String
 writes

Only \\, \n and \" were reversed, so a tab or a control character in a
value came back as its escape sequence.
---
 tree/parsetree.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tree/parsetree.go b/tree/parsetree.go
index 383f9a2..b2c4268 100644
--- a/tree/parsetree.go
+++ b/tree/parsetree.go
@@ -7,6 +7,7 @@ import (
 	"github.com/adamcolton/parlex/lexeme"
 	"github.com/adamcolton/parlex/symbol/stringsymbol"
 	"regexp"
+	"strconv"
 	"strings"
 )
 
@@ -35,7 +36,10 @@ func New(str string) (*PN, error) {
 		}
 		if m[2] != "" {
 			kind := stringsymbol.Symbol(m[2])
-			val := handleSlash.Replace(m[3])
+			val, err := strconv.Unquote(`"` + m[3] + `"`)
+			if err != nil {
+				val = handleSlash.Replace(m[3])
+			}
 			ch := &PN{
 				Lexeme: lexeme.New(kind).Set(val),
 				P:      cur,
-- 
2.43.0


From 147da4d73af1006910e13506e24957067ded668a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:52 +0000
Subject: [PATCH 14/36] fix: tree.Clone keeps the positions of the nodes

---
 tree/parsetree.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/tree/parsetree.go b/tree/parsetree.go
index b2c4268..beab77b 100644
--- a/tree/parsetree.go
+++ b/tree/parsetree.go
@@ -170,11 +170,8 @@ func (p *PN) ChildAt(cIdx int, symbs ...string) bool {
 // Clone takes a node and clones it and all it's children.
 func Clone(node parlex.ParseNode) *PN {
 	pn := &PN{
-		Lexeme: &lexeme.Lexeme{
-			K: node.Kind(),
-			V: node.Value(),
-		},
-		C: make([]*PN, node.Children()),
+		Lexeme: lexeme.Copy(node),
+		C:      make([]*PN, node.Children()),
 	}
 	for i := 0; i < node.Children(); i++ {
 		c := Clone(node.Child(i))
-- 
2.43.0


From d931951d5d14a74325fcf75e26bb2aa1a826e6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:54 +0000
Subject: [PATCH 15/36] fix: nodes in a reduced tree have their parents set

---
 tree/reducer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tree/reducer.go b/tree/reducer.go
index 942c4bd..5a913aa 100644
--- a/tree/reducer.go
+++ b/tree/reducer.go
@@ -73,7 +73,9 @@ func (r Reducer) RawReduce(node parlex.ParseNode) *PN {
 		C:      make([]*PN, node.Children()),
 	}
 	for i := range cp.C {
-		cp.C[i] = r.RawReduce(node.Child(i))
+		c := r.RawReduce(node.Child(i))
+		c.P = cp
+		cp.C[i] = c
 	}
 
 	if reduction := r[cp.Kind().String()]; reduction != nil {
-- 
2.43.0


From 103bb4ba4155c025afdf9aa4660c44bd23267e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:55 +0000
Subject: [PATCH 16/36] fix: ReplaceWithChild keeps the parents in the tree
 correct

The node became its own parent and its new children kept the parent they
had before.
---
 tree/node_reductions.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tree/node_reductions.go b/tree/node_reductions.go
index 2937334..0d986bb 100644
--- a/tree/node_reductions.go
+++ b/tree/node_reductions.go
@@ -10,7 +10,12 @@ func (p *PN) ReplaceWithChild(cIdx int) bool {
 	if !ok {
 		return false
 	}
+	parent := p.P
 	*p = *(p.C[cIdx])
+	p.P = parent
+	for _, c := range p.C {
+		c.P = p
+	}
 	return true
 }
 
-- 
2.43.0


From 341fe6615fe0727eb6306bf69a690ffbb88385a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:57 +0000
Subject: [PATCH 17/36] fix: PromoteChildrenOf sets the parent of the promoted
 children

---
 tree/node_reductions.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tree/node_reductions.go b/tree/node_reductions.go
index 0d986bb..baa23f0 100644
--- a/tree/node_reductions.go
+++ b/tree/node_reductions.go
@@ -122,6 +122,9 @@ func (p *PN) PromoteChildrenOf(cIdx int) bool {
 	if !ok {
 		return false
 	}
+	for _, c := range p.C[cIdx].C {
+		c.P = p
+	}
 	if cIdx == l-1 {
 		p.C = append(p.C[:cIdx], p.C[cIdx].C...)
 	} else {
-- 
2.43.0


From 2b3efc393d11e6933d4bd3b530d14fd8e7aad1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:59 +0000
Subject: [PATCH 18/36] fix: PromoteChildValue takes no action for an index out
 of bounds

An index too far below zero was still negative after it was converted, and
was converted again by RemoveChild, which then removed a child.
---
 tree/node_reductions.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/tree/node_reductions.go b/tree/node_reductions.go
index baa23f0..e4bf9dd 100644
--- a/tree/node_reductions.go
+++ b/tree/node_reductions.go
@@ -94,14 +94,12 @@ func (p *PN) PromoteSingleChild() bool {
 // is negative, it will find the child relative to the end. If cIdx is out of
 // bounds, no action will be taken.
 func (p *PN) PromoteChildValue(cIdx int) {
-	l := len(p.C)
-	if cIdx < 0 {
-		cIdx = l + cIdx
-	}
-	if cIdx >= 0 && l > cIdx {
-		ch := p.C[cIdx]
-		p.Lexeme = lexeme.New(p.Kind()).Set(ch.Value()).At(ch.Pos())
+	cIdx, _, ok := p.GetIdx(cIdx)
+	if !ok {
+		return
 	}
+	ch := p.C[cIdx]
+	p.Lexeme = lexeme.New(p.Kind()).Set(ch.Value()).At(ch.Pos())
 	p.RemoveChild(cIdx)
 }
 
-- 
2.43.0


From f89c188dfbf23a1649b9e71a123c5e3946637f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:00 +0000
Subject: [PATCH 19/36] fix: reducer text refuses an index that is not an
 integer

RemoveChild(1.5) was accepted and removed the first child.
---
 tree/reducer/reducer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree/reducer/reducer.go b/tree/reducer/reducer.go
index 2b61a0a..781a6c1 100644
--- a/tree/reducer/reducer.go
+++ b/tree/reducer/reducer.go
@@ -23,7 +23,7 @@ const lexerRules = `
   PromoteSingleChild
   ReplaceWithChild
   Nil
-  number  /-?\d*\.?\d+/
+  number  /-?\d+/
   rule    /(\w+)/
   string  /\"([^\"\\]|(\\.))*\"/
   lp      /\(/
-- 
2.43.0


From ce24efa46e43d0b7ccee0458924c9be56a53ef37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:03 +0000
Subject: [PATCH 20/36] fix: simple lexer matches rules when choosing by
 priority

The first match was compared to a priority of -1, which no rule is higher
than, so after ByPriority every input was one error.
---
 lexer/simplelexer/lexer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lexer/simplelexer/lexer.go b/lexer/simplelexer/lexer.go
index c019f86..091ac20 100644
--- a/lexer/simplelexer/lexer.go
+++ b/lexer/simplelexer/lexer.go
@@ -149,9 +149,9 @@ func (op *lexOp) findNextMatch() (*lexeme.Lexeme, int) {
 
 	// look in next for matches and take the longest one
 	for kind, loc := range op.next {
-		if loc != nil && loc[0] == op.cur {
+		if loc != nil && loc[0] == op.cur && loc[1] > op.cur {
 			p := op.rules[kind].priority
-			if op.compare(loc[1], p, lxEnd, lxP) {
+			if lx.K == nil || op.compare(loc[1], p, lxEnd, lxP) {
 				lx.K = op.set.ByIdx(kind)
 				lx.V = string(op.b[loc[0]:loc[1]])
 				lxEnd = loc[1]
-- 
2.43.0


From f39cf0edfb9533fbf7fbe03ffd55a1c78e153036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:04 +0000
Subject: [PATCH 21/36] fix: a lex error does not change the simple lexer

The kind of the error was added to the set of the lexer by Lex. That was a
data race if the lexer was shared, and left a hole in the rules that caused
a panic if a rule was added afterwards.
---
 lexer/simplelexer/lexer.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lexer/simplelexer/lexer.go b/lexer/simplelexer/lexer.go
index 091ac20..d0053b8 100644
--- a/lexer/simplelexer/lexer.go
+++ b/lexer/simplelexer/lexer.go
@@ -117,8 +117,7 @@ func (op *lexOp) checkError() {
 	}
 	op.errFlag = false
 	val := string(op.b[op.errStart:op.cur])
-	errKind := op.set.Str(op.Error)
-	lxm := lexeme.New(errKind).Set(val)
+	lxm := lexeme.String(op.Error).Set(val)
 	op.lxs = append(op.lxs, &errLexeme{lxm})
 }
 
-- 
2.43.0


From 2875844c460863d6bc44ca311fe4b1f0e65eaa6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:06 +0000
Subject: [PATCH 22/36] fix: simple lexer gives errors a position and counts
 their lines

---
 lexer/simplelexer/lexer.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lexer/simplelexer/lexer.go b/lexer/simplelexer/lexer.go
index d0053b8..c4a9a77 100644
--- a/lexer/simplelexer/lexer.go
+++ b/lexer/simplelexer/lexer.go
@@ -64,6 +64,8 @@ type lexOp struct {
 	next     [][]int
 	errFlag  bool
 	errStart int
+	errLine  int
+	errCol   int
 	cur      int
 	lines    int
 }
@@ -88,6 +90,10 @@ func (l *Lexer) Lex(str string) []parlex.Lexeme {
 			if !op.errFlag {
 				op.errFlag = true
 				op.errStart = op.cur
+				op.errLine, op.errCol = lx.Pos()
+			}
+			if op.cur < len(op.b) && op.b[op.cur] == '\n' {
+				op.lines++
 			}
 			op.cur++
 		} else {
@@ -117,7 +123,7 @@ func (op *lexOp) checkError() {
 	}
 	op.errFlag = false
 	val := string(op.b[op.errStart:op.cur])
-	lxm := lexeme.String(op.Error).Set(val)
+	lxm := lexeme.String(op.Error).Set(val).At(op.errLine, op.errCol)
 	op.lxs = append(op.lxs, &errLexeme{lxm})
 }
 
-- 
2.43.0


From 3e0cac7c6c39be2348a3ee42b089ec4c519d4864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:49 +0000
Subject: [PATCH 23/36] fix: stacklexer.New returns the errors found in a
 definition

A bad regular expression or cyclic inheritance was ignored, along with all
the rules that followed it.
---
 lexer/stacklexer/construct.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lexer/stacklexer/construct.go b/lexer/stacklexer/construct.go
index 0a9f503..8311c25 100644
--- a/lexer/stacklexer/construct.go
+++ b/lexer/stacklexer/construct.go
@@ -122,7 +122,9 @@ func New(definitions ...string) (*StackLexer, error) {
 	done := make(map[string]bool)
 	stack := make(map[string]bool)
 	for _, sl := range l.lexers {
-		sl.parse(subLexerDefs, done, stack)
+		if err := sl.parse(subLexerDefs, done, stack); err != nil {
+			return nil, err
+		}
 	}
 
 	return l, nil
-- 
2.43.0


From c4ee6d68a8a28d760260e65bf8edb1e14d60cb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:50 +0000
Subject: [PATCH 24/36] fix: stacklexer.New refuses missing and duplicate
 sub-lexers

A definition without any sub-lexer and a push to one that is not defined
caused a panic in Lex. If the first sub-lexer was defined again it was left
without any rules.
---
 lexer/stacklexer/construct.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/lexer/stacklexer/construct.go b/lexer/stacklexer/construct.go
index 8311c25..dec27c9 100644
--- a/lexer/stacklexer/construct.go
+++ b/lexer/stacklexer/construct.go
@@ -77,6 +77,9 @@ func parseSubmatches(str string) []submatch {
 // ErrCyclic will be returned if a stack lexers form a cyclic inheritance
 var ErrCyclic = errors.New("Cyclic Inheritance")
 
+// ErrNoSubLexer will be returned if the definitions do not contain a sub-lexer
+var ErrNoSubLexer = errors.New("No Sub-Lexer")
+
 var subParserDef = regexp.MustCompile(`==\s*([a-zA-Z_][a-zA-Z_0-9]*)\s*(?:==)?\s*\n`)
 var subParserLine = regexp.MustCompile(`([^\/\s]+)\s*(?:\/((?:[^\/\\]|(?:\\\/?))+)\/\s*(?:\(((?:[^\\\)]|(?:\\[^\n]))*)\))?)?\s*((?:\^+)|(?:[a-zA-Z_][a-zA-Z_0-9]*))?\s*(-?)`)
 
@@ -105,6 +108,9 @@ func New(definitions ...string) (*StackLexer, error) {
 			}
 			cur.idx = m[1]
 			cur.name = definition[m[2]:m[3]]
+			if l.lexers[cur.name] != nil {
+				return nil, fmt.Errorf("Duplicate Sub-Lexer: %s", cur.name)
+			}
 			sl := &subLexer{
 				StackLexer: l,
 				name:       cur.name,
@@ -119,6 +125,10 @@ func New(definitions ...string) (*StackLexer, error) {
 		}
 	}
 
+	if l.start == nil {
+		return nil, ErrNoSubLexer
+	}
+
 	done := make(map[string]bool)
 	stack := make(map[string]bool)
 	for _, sl := range l.lexers {
@@ -127,6 +137,14 @@ func New(definitions ...string) (*StackLexer, error) {
 		}
 	}
 
+	for _, sl := range l.lexers {
+		for _, kind := range sl.order {
+			if push := sl.rules[kind].push; push != "" && l.lexers[push] == nil {
+				return nil, fmt.Errorf("Undefined Sub-Lexer: %s", push)
+			}
+		}
+	}
+
 	return l, nil
 }
 
-- 
2.43.0


From 71b16bf86344a471b76dcdfc7c1954a9b3d58a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:51 +0000
Subject: [PATCH 25/36] fix: stack lexer inherits rules in the order they are
 defined

They were inherited in the order of the symbols in the set, which is not
the order of the rules and depended on the iteration order of a map.
---
 lexer/stacklexer/construct.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lexer/stacklexer/construct.go b/lexer/stacklexer/construct.go
index dec27c9..a23712c 100644
--- a/lexer/stacklexer/construct.go
+++ b/lexer/stacklexer/construct.go
@@ -266,10 +266,8 @@ func (sl *subLexer) addHeir(heir *subLexer, defs map[string]string, done, stack
 	sl.inheirit.by = append(sl.inheirit.by, heir)
 	heir.inheirit.from = append(heir.inheirit.from, sl)
 
-	for _, r := range sl.rules {
-		if r != nil {
-			heir.addRule(*r)
-		}
+	for _, kind := range sl.order {
+		heir.addRule(*sl.rules[kind])
 	}
 	return nil
 }
-- 
2.43.0


From 13f5eabac3f4310b85433dc90916a5fe46cc5d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:52 +0000
Subject: [PATCH 26/36] fix: stack lexer compares the lengths of the matches

The ends that were compared were relative to where each search had started,
so a shorter match could win. An empty match by a rule of higher priority
also hid the other matches.
---
 lexer/stacklexer/lex.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lexer/stacklexer/lex.go b/lexer/stacklexer/lex.go
index e8f34ab..421db7b 100644
--- a/lexer/stacklexer/lex.go
+++ b/lexer/stacklexer/lex.go
@@ -111,9 +111,9 @@ func (op *lexOp) findNextMatch() (*lexeme.Lexeme, int, *rule) {
 
 	// look in next for matches and take the longest one
 	for kind, loc := range op.next {
-		if loc != nil && loc[0]+loc[len(loc)-1] == op.cur {
+		if loc != nil && loc[0]+loc[len(loc)-1] == op.cur && loc[1] > loc[0] {
 			tr := op.rules[kind]
-			if tr != nil && (r == nil || op.compare(loc[1], tr.priority, idx[1], r.priority)) {
+			if tr != nil && (r == nil || op.compare(loc[1]-loc[0], tr.priority, idx[1]-idx[0], r.priority)) {
 				idx = loc
 				r = tr
 			}
-- 
2.43.0


From 8616bc8076ad0a37af396fccae5a1234899bc1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:53 +0000
Subject: [PATCH 27/36] fix: stack lexer updates the matches after an error

A match that had been found before the error was not searched for again, so
the rule could not match until some other rule did.
---
 lexer/stacklexer/lex.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lexer/stacklexer/lex.go b/lexer/stacklexer/lex.go
index 421db7b..bcc9123 100644
--- a/lexer/stacklexer/lex.go
+++ b/lexer/stacklexer/lex.go
@@ -55,6 +55,7 @@ func (op *lexOp) lex() {
 				if op.cur >= len(op.b) {
 					break
 				}
+				op.updateNext()
 			} else {
 				op.pop(1)
 			}
-- 
2.43.0


From 904e27d8381a2d65cd1981a64842f3faab739c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:55 +0000
Subject: [PATCH 28/36] fix: stack lexer does not panic if a rule pops the
 empty stack

---
 lexer/stacklexer/lex.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/lexer/stacklexer/lex.go b/lexer/stacklexer/lex.go
index bcc9123..9aa5880 100644
--- a/lexer/stacklexer/lex.go
+++ b/lexer/stacklexer/lex.go
@@ -84,12 +84,14 @@ func (op *lexOp) lex() {
 }
 
 func (op *lexOp) pop(i int) {
-	ln := len(op.stack) - i
-	if ln < 0 {
-		ln = 0
+	if len(op.stack) > 0 {
+		ln := len(op.stack) - i
+		if ln < 0 {
+			ln = 0
+		}
+		op.subLexer = op.stack[ln]
+		op.stack = op.stack[:ln]
 	}
-	op.subLexer = op.stack[ln]
-	op.stack = op.stack[:ln]
 	op.populateNext()
 }
 
-- 
2.43.0


From e2ccfecfe8b9e5d445d6e76c8123777cbced2ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:56 +0000
Subject: [PATCH 29/36] fix: stack lexer reads the group list as documented

The quotes were left in the literal strings, a literal that contains a
digit was taken for group 0, and a group the regular expression does not
have caused a panic in Lex.
---
 lexer/stacklexer/construct.go | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/lexer/stacklexer/construct.go b/lexer/stacklexer/construct.go
index a23712c..ec04ee7 100644
--- a/lexer/stacklexer/construct.go
+++ b/lexer/stacklexer/construct.go
@@ -55,23 +55,27 @@ type submatch struct {
 	str     string
 }
 
-var intRe = regexp.MustCompile(`\d+`)
+var intRe = regexp.MustCompile(`^\s*\d+\s*$`)
+var quotedRe = regexp.MustCompile(`^\s*"(.*)"\s*$`)
+var submatchRe = regexp.MustCompile(`(?:"[^"]*"|[^|"])+`)
 
-func parseSubmatches(str string) []submatch {
-	if str == "" {
-		return nil
-	}
-	segs := strings.Split(str, "|")
-	ms := make([]submatch, len(segs))
-	for i, s := range segs {
+func parseSubmatches(str string, groups int) ([]submatch, error) {
+	var ms []submatch
+	for _, s := range submatchRe.FindAllString(str, -1) {
 		if intRe.MatchString(s) {
-			sec, _ := strconv.Atoi(s)
-			ms[i] = submatch{section: sec}
+			sec, err := strconv.Atoi(strings.TrimSpace(s))
+			if err != nil || sec > groups {
+				return nil, fmt.Errorf("Undefined Group: %s", s)
+			}
+			ms = append(ms, submatch{section: sec})
 		} else {
-			ms[i] = submatch{section: -1, str: s}
+			if m := quotedRe.FindStringSubmatch(s); m != nil {
+				s = m[1]
+			}
+			ms = append(ms, submatch{section: -1, str: s})
 		}
 	}
-	return ms
+	return ms, nil
 }
 
 // ErrCyclic will be returned if a stack lexers form a cyclic inheritance
@@ -215,6 +219,11 @@ func (sl *subLexer) addMatch(m []string) error {
 		return err
 	}
 
+	submatches, err := parseSubmatches(m[3], re.NumSubexp())
+	if err != nil {
+		return err
+	}
+
 	push := m[4]
 	pop := 0
 	for _, r := range push {
@@ -234,7 +243,7 @@ func (sl *subLexer) addMatch(m []string) error {
 		push:       push,
 		pop:        pop,
 		discard:    m[5] == "-",
-		submatches: parseSubmatches(m[3]),
+		submatches: submatches,
 	}
 	sl.addRule(r)
 	return nil
-- 
2.43.0


From 69c0d8a12b6a231d859cd39cee038456fc64dfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:57 +0000
Subject: [PATCH 30/36] fix: stack lexer does not panic if a listed group did
 not match

---
 lexer/stacklexer/lex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexer/stacklexer/lex.go b/lexer/stacklexer/lex.go
index 9aa5880..484140c 100644
--- a/lexer/stacklexer/lex.go
+++ b/lexer/stacklexer/lex.go
@@ -134,7 +134,7 @@ func (op *lexOp) findNextMatch() (*lexeme.Lexeme, int, *rule) {
 		for _, sub := range r.submatches {
 			if sub.section == -1 {
 				lx.V += sub.str
-			} else {
+			} else if idx[sub.section*2] != -1 {
 				lx.V += string(op.b[offset+idx[sub.section*2] : offset+idx[sub.section*2+1]])
 			}
 		}
-- 
2.43.0


From 62ab5e4d7cc27bc71c1ad894a87522cad0922a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:58 +0000
Subject: [PATCH 31/36] fix: stack lexer positions are correct around errors

The newlines of an error and of the match that follows it were counted too
late and too early, and the column was wrong if the error held a newline.
---
 lexer/stacklexer/lex.go | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/lexer/stacklexer/lex.go b/lexer/stacklexer/lex.go
index 484140c..2d26212 100644
--- a/lexer/stacklexer/lex.go
+++ b/lexer/stacklexer/lex.go
@@ -1,10 +1,10 @@
 package stacklexer
 
 import (
+	"bytes"
 	"github.com/adamcolton/parlex"
 	"github.com/adamcolton/parlex/lexeme"
 	"github.com/adamcolton/parlex/symbol/setsymbol"
-	"strings"
 )
 
 type lexOp struct {
@@ -18,8 +18,7 @@ type lexOp struct {
 		start int
 		kind  *setsymbol.Symbol
 	}
-	cur   int
-	lines int
+	cur int
 }
 
 // Lex fulfills parlex.Lexer. It uses the StackLexer to lex a string
@@ -27,7 +26,6 @@ func (l *StackLexer) Lex(str string) []parlex.Lexeme {
 	op := &lexOp{
 		subLexer: l.start,
 		b:        []byte(str),
-		lines:    1,
 		lxs:      make([]parlex.Lexeme, 0),
 	}
 	op.err.kind = l.set.Str(op.Error)
@@ -138,20 +136,19 @@ func (op *lexOp) findNextMatch() (*lexeme.Lexeme, int, *rule) {
 				lx.V += string(op.b[offset+idx[sub.section*2] : offset+idx[sub.section*2+1]])
 			}
 		}
-		op.handleLineCol(lx, string(op.b[offset+idx[0]:offset+idx[1]]))
 	} else {
 		lx.V = string(op.b[offset+idx[0] : offset+idx[1]])
-		op.handleLineCol(lx, lx.V)
 	}
+	op.handleLineCol(lx, op.cur)
 
 	return lx, offset + idx[1], r
 }
 
-func (op *lexOp) handleLineCol(lx *lexeme.Lexeme, str string) {
-	lx.L = op.lines
-	lx.C = strings.LastIndex(string(op.b[:op.cur]), "\n")
-	lx.C = op.cur - lx.C
-	op.lines += strings.Count(str, "\n")
+// handleLineCol sets the position of a lexeme that starts at the given offset.
+func (op *lexOp) handleLineCol(lx *lexeme.Lexeme, start int) {
+	before := op.b[:start]
+	lx.L = 1 + bytes.Count(before, []byte("\n"))
+	lx.C = start - bytes.LastIndexByte(before, '\n')
 }
 
 func (op *lexOp) checkError() {
@@ -161,8 +158,7 @@ func (op *lexOp) checkError() {
 	op.err.flag = false
 	val := string(op.b[op.err.start:op.cur])
 	lx := lexeme.New(op.err.kind).Set(val)
-	op.handleLineCol(lx, lx.V)
-	lx.C -= len(val)
+	op.handleLineCol(lx, op.err.start)
 	op.lxs = append(op.lxs, &errLexeme{lx})
 }
 
-- 
2.43.0


From 6d3b933000184fe32bc4c616869da46aef00466a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:00 +0000
Subject: [PATCH 32/36] fix: Lex does not change the stack lexer

The kind of the error was added to the set of the lexer by Lex, which was a
data race if the lexer was shared.
---
 lexer/stacklexer/construct.go | 1 +
 lexer/stacklexer/lex.go       | 8 +++++---
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/lexer/stacklexer/construct.go b/lexer/stacklexer/construct.go
index ec04ee7..29f2545 100644
--- a/lexer/stacklexer/construct.go
+++ b/lexer/stacklexer/construct.go
@@ -97,6 +97,7 @@ func New(definitions ...string) (*StackLexer, error) {
 		Error:   "Error",
 		compare: lengthThenPriority,
 	}
+	l.set.Str(l.Error)
 	subLexerDefs := make(map[string]string)
 	for _, definition := range definitions {
 		ms := subParserDef.FindAllStringSubmatchIndex(definition, -1)
diff --git a/lexer/stacklexer/lex.go b/lexer/stacklexer/lex.go
index 2d26212..4c26dce 100644
--- a/lexer/stacklexer/lex.go
+++ b/lexer/stacklexer/lex.go
@@ -4,7 +4,6 @@ import (
 	"bytes"
 	"github.com/adamcolton/parlex"
 	"github.com/adamcolton/parlex/lexeme"
-	"github.com/adamcolton/parlex/symbol/setsymbol"
 )
 
 type lexOp struct {
@@ -16,7 +15,7 @@ type lexOp struct {
 	err   struct {
 		flag  bool
 		start int
-		kind  *setsymbol.Symbol
+		kind  parlex.Symbol
 	}
 	cur int
 }
@@ -28,7 +27,10 @@ func (l *StackLexer) Lex(str string) []parlex.Lexeme {
 		b:        []byte(str),
 		lxs:      make([]parlex.Lexeme, 0),
 	}
-	op.err.kind = l.set.Str(op.Error)
+	op.err.kind = lexeme.String(op.Error).Kind()
+	if kind := l.set.HasSymbol(op.err.kind); kind != nil {
+		op.err.kind = kind
+	}
 	if op.insert.startKind != "" {
 		op.lxs = append(op.lxs, lexeme.String(op.insert.startKind).Set(op.insert.startVal))
 	}
-- 
2.43.0


From 058cd59d923e6e9043a9999c66e41894cffe845c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:12 +0000
Subject: [PATCH 33/36] fix: an empty group in a regex grammar matches nothing

A production that contains () was dropped from the grammar.
---
 grammar/regexgram/regexgram.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grammar/regexgram/regexgram.go b/grammar/regexgram/regexgram.go
index 58a20b9..60cfd8c 100644
--- a/grammar/regexgram/regexgram.go
+++ b/grammar/regexgram/regexgram.go
@@ -292,7 +292,7 @@ func mergeRules(a, b rules) rules {
 
 func (rc ruleComb) reduce() rules {
 	if len(rc) == 0 {
-		return nil
+		return rules{rule{}}
 	}
 	ra := rc[0]
 	for _, rb := range rc[1:] {
-- 
2.43.0


From b3daa042f7b27b44d452fe81d008a93d7e2343bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:14 +0000
Subject: [PATCH 34/36] fix: regex grammar keeps different repeated groups
 apart

(A B)* and (A_B)* have the same name, so the second was replaced by the
production of the first.
---
 grammar/regexgram/regexgram.go | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/grammar/regexgram/regexgram.go b/grammar/regexgram/regexgram.go
index 60cfd8c..c5b5667 100644
--- a/grammar/regexgram/regexgram.go
+++ b/grammar/regexgram/regexgram.go
@@ -115,6 +115,8 @@ type evalOp struct {
 	nonterm   string
 	bludgeons map[string][]string
 	done      map[string]rules
+	names     map[string]string // key of a repeat to the name of its production
+	taken     map[string]bool   // names that are in use
 }
 
 func evalGrammar(node *tree.PN) (*grammar.Grammar, tree.Reducer) {
@@ -124,6 +126,8 @@ func evalGrammar(node *tree.PN) (*grammar.Grammar, tree.Reducer) {
 		rdcr:      tree.Reducer{},
 		bludgeons: make(map[string][]string),
 		done:      make(map[string]rules),
+		names:     make(map[string]string),
+		taken:     make(map[string]bool),
 	}
 	for _, c := range node.C {
 		if c.Kind().String() == "Production" {
@@ -192,7 +196,7 @@ func (op *evalOp) evalSymbol(node *tree.PN) rules {
 //    ->
 // And adds a rule to the reducer
 func (op *evalOp) addRepeatAsProduction(node *tree.PN) rules {
-	symName := op.getName(node)
+	symName := op.uniqueName(node)
 	op.bludgeons[op.nonterm] = append(op.bludgeons[op.nonterm], symName)
 	if rs, ok := op.done[symName]; ok {
 		return rs
@@ -241,26 +245,41 @@ func bludgeon(symbols []string) func(*tree.PN) {
 	}
 }
 
-func (op *evalOp) getName(node *tree.PN) string {
+// uniqueName returns the same name only for nodes that are the same. The names
+// alone don't guarantee that, (A B)* and (A_B)* are both named (A_B)*.
+func (op *evalOp) uniqueName(node *tree.PN) string {
+	key := op.getName(node, " ")
+	name, ok := op.names[key]
+	if !ok {
+		name = op.getName(node, "_")
+		for op.taken[name] {
+			name += "'"
+		}
+		op.names[key], op.taken[name] = name, true
+	}
+	return name
+}
+
+func (op *evalOp) getName(node *tree.PN, sep string) string {
 	switch node.Kind().String() {
 	case "symbol":
 		return node.Value()
 	case "OptSymbol":
-		return op.getName(node.C[0]) + "?"
+		return op.getName(node.C[0], sep) + "?"
 	case "RepSymbol":
-		return op.getName(node.C[0]) + "*"
+		return op.getName(node.C[0], sep) + "*"
 	case "OrSymbol":
 		var strs []string
 		for _, c := range node.C {
-			strs = append(strs, op.getName(c))
+			strs = append(strs, op.getName(c, sep))
 		}
 		return strings.Join(strs, "|")
 	case "Group":
 		var strs []string
 		for _, c := range node.C {
-			strs = append(strs, op.getName(c))
+			strs = append(strs, op.getName(c, sep))
 		}
-		return "(" + strings.Join(strs, "_") + ")"
+		return "(" + strings.Join(strs, sep) + ")"
 	}
 
 	return ""
-- 
2.43.0


From d3143a601aa314219974725ec43aaee1e22e7b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:15 +0000
Subject: [PATCH 35/36] fix: the first line of a regex grammar can be a comment

---
 grammar/regexgram/regexgram.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/grammar/regexgram/regexgram.go b/grammar/regexgram/regexgram.go
index c5b5667..78055a3 100644
--- a/grammar/regexgram/regexgram.go
+++ b/grammar/regexgram/regexgram.go
@@ -322,7 +322,8 @@ func (rc ruleComb) reduce() rules {
 
 // New takes a grammar string and returns a grammar, reducer and error.
 func New(grammarString string) (*grammar.Grammar, tree.Reducer, error) {
-	parseTree, err := runner.Run(grammarString)
+	// a comment begins with a newline
+	parseTree, err := runner.Run("\n" + grammarString)
 	if err != nil {
 		return nil, nil, err
 	}
-- 
2.43.0


From ae9c4f3a76acd1ba3046cd7b8a3ec136adc01442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:41 +0000
Subject: [PATCH 36/36] fix: RemoveLeftRecursion preserves the language and
 removes all left recursion

Productions were expanded with those of the original grammar, which never
ended if they were left recursive themselves, all leading occurrences of a
symbol were stripped and not just the first, symbols were looked up in the
set of another grammar, non-terminals that derive nothing were left without
productions and so turned into terminals, and left recursion behind symbols
that can be empty was left in. Grammars that can't be handled by expanding
productions get the left corner transform, which does not blow up.
---
 grammar/left_recursion.go | 424 ++++++++++++++++++++++++++++++--------
 1 file changed, 341 insertions(+), 83 deletions(-)

diff --git a/grammar/left_recursion.go b/grammar/left_recursion.go
index b2e8278..62687b3 100644
--- a/grammar/left_recursion.go
+++ b/grammar/left_recursion.go
@@ -2,120 +2,378 @@ package grammar
 
 import (
 	"github.com/adamcolton/parlex"
-	"github.com/adamcolton/parlex/symbol/setsymbol"
 )
 
-type lrOp struct {
-	in        parlex.Grammar
-	out       *Grammar
-	done      []bool
-	cur       *setsymbol.Symbol
-	hasDirect bool
-	set       *setsymbol.Set
-}
-
 // RemoveLeftRecursion will convert a grammar with left recursion into one
 // without.
 func RemoveLeftRecursion(grammar parlex.Grammar) *Grammar {
-	nts := grammar.NonTerminals()
-	op := &lrOp{
-		in:   grammar,
-		out:  Empty(),
-		done: make([]bool, len(nts)),
-		set:  setsymbol.New(),
+	in := newLrGrammar(grammar)
+	in = in.productive(in.isTerminal)
+	out := in.removeLeftRecursion()
+	if out == nil || parlex.IsLeftRecursive(out.grammar()) {
+		// left recursion can be hidden behind symbols that can be empty
+		out = in.proper().leftCorner()
 	}
-	for _, s := range nts {
-		op.cur = op.set.Symbol(s)
-		op.hasDirect = false
-		for i := grammar.Productions(op.cur).Iter(); i.Next(); {
-			op.safeAdd(op.set.CastProduction(i.Production))
-		}
-		if op.hasDirect {
-			op.removeDirectLeftRecursion()
-		}
-		idx := op.cur.Idx()
-		if idx >= len(op.done) {
-			op.done = append(op.done, make([]bool, 1+idx+len(op.done))...)
+	return out.grammar()
+}
+
+// lrGrammar is the form of a grammar that is used to remove left recursion.
+type lrGrammar struct {
+	order []string
+	prods map[string][][]string
+	names map[string]bool // all symbols in the grammar
+}
+
+func newLrGrammar(in parlex.Grammar) *lrGrammar {
+	g := &lrGrammar{
+		prods: make(map[string][][]string),
+		names: make(map[string]bool),
+	}
+	for _, nt := range in.NonTerminals() {
+		for i := in.Productions(nt).Iter(); i.Next(); {
+			var prod []string
+			for j := i.Iter(); j.Next(); {
+				prod = append(prod, j.Symbol.String())
+			}
+			g.add(nt.String(), prod)
 		}
-		op.done[op.cur.Idx()] = true
 	}
-	return op.out
+	return g
 }
 
-func (op *lrOp) safeAdd(prod *setsymbol.Production) {
-	var first *setsymbol.Symbol
-	if prod.Symbols() > 0 {
-		first = prod.Symbol(0).(*setsymbol.Symbol)
+// empty returns a grammar without any productions but with the same names.
+func (g *lrGrammar) empty() *lrGrammar {
+	return &lrGrammar{
+		prods: make(map[string][][]string),
+		names: g.names,
 	}
+}
 
-	// We can directly add a production if it begins with a symobl we haven't
-	// processed yet
-	if first == nil || first.Idx() >= len(op.done) || !op.done[first.Idx()] {
-		op.hasDirect = op.hasDirect || (first != nil && first.Idx() == op.cur.Idx())
-		op.out.Add(op.cur, prod)
-		return
+func (g *lrGrammar) add(nt string, prod []string) {
+	if g.prods[nt] == nil {
+		g.order = append(g.order, nt)
+		g.names[nt] = true
 	}
+	g.prods[nt] = append(g.prods[nt], prod)
+	for _, s := range prod {
+		g.names[s] = true
+	}
+}
+
+// newName returns a name based on nt that is not used in the grammar.
+func (g *lrGrammar) newName(nt string) string {
+	for nt += "'"; g.names[nt]; nt += "'" {
+	}
+	g.names[nt] = true
+	return nt
+}
 
-	for i := op.in.Productions(first).Iter(); i.Next(); {
-		newProd := op.set.Production()
-		for lead := i.Production.Iter(); lead.Next(); {
-			newProd.AddSymbols(lead.Symbol)
+func (g *lrGrammar) grammar() *Grammar {
+	out := Empty()
+	for _, nt := range g.order {
+		for _, prod := range g.prods[nt] {
+			to := out.set.Production()
+			for _, s := range prod {
+				to.AddSymbols(out.set.Str(s))
+			}
+			out.Add(out.set.Str(nt), to)
 		}
-		for tail := op.getTail(prod).Iter(); tail.Next(); {
-			newProd.AddSymbols(tail.Symbol)
+	}
+	return out
+}
+
+// closure finds the non-terminals that have a production in which every symbol
+// is either accepted or in the closure itself.
+func (g *lrGrammar) closure(accept func(string) bool) map[string]bool {
+	c := make(map[string]bool)
+	for changed := true; changed; {
+		changed = false
+		for _, nt := range g.order {
+			for _, prod := range g.prods[nt] {
+				all := true
+				for _, s := range prod {
+					all = all && (accept(s) || c[s])
+				}
+				if all && !c[nt] {
+					c[nt], changed = true, true
+				}
+			}
 		}
-		op.safeAdd(newProd)
 	}
+	return c
 }
 
-func (op *lrOp) getTail(prod *setsymbol.Production) *setsymbol.Production {
-	tail := op.set.Production()
-	ln := prod.Symbols()
-	for i := 1; i < ln; i++ {
-		tail.AddSymbols(prod.Symbol(i))
+func (g *lrGrammar) isTerminal(s string) bool { return g.prods[s] == nil }
+
+// productive removes all productions that cannot derive a string of terminals.
+func (g *lrGrammar) productive(isTerminal func(string) bool) *lrGrammar {
+	c := g.closure(isTerminal)
+	out := g.empty()
+	if len(g.order) == 0 || !c[g.order[0]] {
+		return out
+	}
+	for _, nt := range g.order {
+		for _, prod := range g.prods[nt] {
+			all := true
+			for _, s := range prod {
+				all = all && (isTerminal(s) || c[s])
+			}
+			if all {
+				out.add(nt, prod)
+			}
+		}
 	}
-	return tail
+	return out
 }
 
-func (op *lrOp) removeDirectLeftRecursion() {
-	newSym := op.set.Str(op.cur.String() + "'")
-	nsIdx := newSym.Idx()
-	if nsIdx >= len(op.out.productions) || op.out.productions[nsIdx] == nil {
-		op.out.order = append(op.out.order, nsIdx)
+// short returns an equivalent grammar in which productions have at most two
+// symbols.
+func (g *lrGrammar) short() *lrGrammar {
+	out := g.empty()
+	for _, nt := range g.order {
+		for _, prod := range g.prods[nt] {
+			from := nt
+			for len(prod) > 2 {
+				rest := g.newName(nt)
+				out.add(from, []string{prod[0], rest})
+				from, prod = rest, prod[1:]
+			}
+			out.add(from, prod)
+		}
 	}
+	return out
+}
 
-	prods := op.out.productions[op.cur.Idx()]
-	op.out.productions[op.cur.Idx()] = nil
-	for i := prods.Iter(); i.Next(); {
-		prod := i.Production.(*setsymbol.Production)
-		if prod.Symbols() == 0 || prod.Symbol(0).(*setsymbol.Symbol).Idx() != op.cur.Idx() {
-			prod.AddSymbols(newSym)
-			op.directAdd(op.cur, prod)
-		} else {
-			for prod.Symbols() > 0 && prod.Symbol(0).(*setsymbol.Symbol).Idx() == op.cur.Idx() {
-				prod = op.getTail(prod)
+// proper returns an equivalent grammar in which only the start symbol can be
+// empty, and no non-terminal can derive itself.
+func (g *lrGrammar) proper() *lrGrammar {
+	if len(g.order) == 0 {
+		return g
+	}
+	g = g.short()
+	nullable := g.closure(func(string) bool { return false })
+	start := g.order[0]
+	rename := start
+	if nullable[start] {
+		// the non-empty strings of start
+		rename = g.newName(start)
+	}
+
+	full := g.empty()
+	if nullable[start] {
+		full.add(start, []string{rename})
+		full.add(start, nil)
+	}
+	for _, nt := range g.order {
+		from := nt
+		if nt == start {
+			from = rename
+		}
+		for _, prod := range g.prods[nt] {
+			for _, p := range omitNullable(prod, nullable) {
+				if len(p) == 0 {
+					continue
+				}
+				for i, s := range p {
+					if s == start {
+						p[i] = rename
+					}
+				}
+				full.add(from, p)
+			}
+		}
+	}
+	// a non-terminal that can only be empty has no productions left
+	full = full.productive(func(s string) bool { return g.isTerminal(s) && s != rename })
+
+	out := full.empty()
+	for _, nt := range full.order {
+		if nullable[start] && nt == start {
+			for _, p := range full.prods[nt] {
+				out.add(nt, p)
+			}
+			continue
+		}
+		// replace the productions that are a single non-terminal
+		done := map[string]bool{nt: true}
+		var expand func(string)
+		expand = func(s string) {
+			for _, p := range full.prods[s] {
+				if len(p) != 1 || full.prods[p[0]] == nil {
+					out.add(nt, p)
+				} else if !done[p[0]] {
+					done[p[0]] = true
+					expand(p[0])
+				}
 			}
-			if prod.Symbols() > 0 {
-				prod.AddSymbols(newSym)
-				op.directAdd(newSym, prod)
+		}
+		expand(nt)
+	}
+	return out
+}
+
+// leftCorner removes left recursion from a proper grammar. A non-terminal that
+// is left recursive starts with a terminal, its left corner, and what follows
+// builds up the tree from there: A'X derives what can follow X in an A.
+func (g *lrGrammar) leftCorner() *lrGrammar {
+	out := g.empty()
+	for _, nt := range g.order {
+		// the symbols nt can start with
+		var corners []string
+		found := make(map[string]bool)
+		todo := []string{nt}
+		for len(todo) > 0 {
+			from := todo[0]
+			todo = todo[1:]
+			for _, prod := range g.prods[from] {
+				if len(prod) > 0 && !found[prod[0]] {
+					found[prod[0]] = true
+					corners = append(corners, prod[0])
+					todo = append(todo, prod[0])
+				}
+			}
+		}
+		if !found[nt] {
+			for _, prod := range g.prods[nt] {
+				out.add(nt, prod)
+			}
+			continue
+		}
+
+		after := make(map[string]string)
+		for _, corner := range corners {
+			after[corner] = g.newName(nt)
+			if g.isTerminal(corner) {
+				out.add(nt, []string{corner, after[corner]})
+			}
+		}
+		for _, prod := range g.prods[nt] {
+			out.add(after[prod[0]], prod[1:])
+		}
+		for _, from := range g.order {
+			if !found[from] {
+				continue
+			}
+			for _, prod := range g.prods[from] {
+				rest := prod[1:]
+				out.add(after[prod[0]], append(rest[:len(rest):len(rest)], after[from]))
 			}
 		}
 	}
-	op.directAdd(newSym, op.set.Production())
+	return out
 }
 
-func (op *lrOp) directAdd(from *setsymbol.Symbol, to *setsymbol.Production) {
-	f := from.Idx()
-	var prods *setsymbol.Productions
-	if f < len(op.out.productions) {
-		prods = op.out.productions[f]
-	} else {
-		op.out.productions = append(op.out.productions, make([]*setsymbol.Productions, 1+f-len(op.out.productions))...)
+// omitNullable returns all the productions that can be made by omitting
+// nullable symbols.
+func omitNullable(prod []string, nullable map[string]bool) [][]string {
+	out := [][]string{nil}
+	for _, s := range prod {
+		ln := len(out)
+		for i, p := range out[:ln] {
+			if nullable[s] {
+				out = append(out, p)
+			}
+			out[i] = append(p[:len(p):len(p)], s)
+		}
 	}
+	return out
+}
 
-	if prods == nil {
-		op.out.productions[f] = op.out.set.Productions(to)
-	} else {
-		prods.AddProductions(to)
+// expansion is a symbol in a production along with the non-terminals that were
+// expanded to get it.
+type expansion struct {
+	symbol string
+	from   *expansion
+}
+
+func (e *expansion) has(symbol string) bool {
+	for ; e != nil; e = e.from {
+		if e.symbol == symbol {
+			return true
+		}
+	}
+	return false
+}
+
+// removeLeftRecursion goes through the non-terminals in order. A production that
+// starts with a non-terminal that is done is expanded, so the productions can
+// only start with non-terminals that come later. It returns nil if that fails
+// or the grammar becomes too big.
+func (g *lrGrammar) removeLeftRecursion() *lrGrammar {
+	out := g.empty()
+	done := make(map[string]bool)
+	budget := 100
+	for _, prods := range g.prods {
+		budget += 10 * len(prods)
+	}
+
+	var expand func(prod []*expansion) ([][]string, bool)
+	expand = func(prod []*expansion) ([][]string, bool) {
+		if len(prod) == 0 || !done[prod[0].symbol] {
+			budget--
+			var symbols []string
+			for _, e := range prod {
+				symbols = append(symbols, e.symbol)
+			}
+			return [][]string{symbols}, budget >= 0
+		}
+		first := prod[0]
+		if first.from.has(first.symbol) {
+			return nil, false
+		}
+		var expanded [][]string
+		for _, lead := range out.prods[first.symbol] {
+			var p []*expansion
+			for _, s := range lead {
+				p = append(p, &expansion{s, first})
+			}
+			ps, ok := expand(append(p, prod[1:]...))
+			if !ok {
+				return nil, false
+			}
+			expanded = append(expanded, ps...)
+		}
+		return expanded, true
+	}
+
+	for _, nt := range g.order {
+		var prods, tails [][]string
+		direct := false
+		for _, symbols := range g.prods[nt] {
+			var prod []*expansion
+			for _, s := range symbols {
+				prod = append(prod, &expansion{symbol: s})
+			}
+			expanded, ok := expand(prod)
+			if !ok {
+				return nil
+			}
+			for _, p := range expanded {
+				if len(p) == 0 || p[0] != nt {
+					prods = append(prods, p)
+					continue
+				}
+				direct = true
+				if len(p) > 1 {
+					tails = append(tails, p[1:])
+				}
+			}
+		}
+		if direct {
+			newSym := g.newName(nt)
+			for _, p := range prods {
+				out.add(nt, append(p[:len(p):len(p)], newSym))
+			}
+			for _, p := range tails {
+				out.add(newSym, append(p[:len(p):len(p)], newSym))
+			}
+			out.add(newSym, nil)
+		} else {
+			for _, p := range prods {
+				out.add(nt, p)
+			}
+		}
+		done[nt] = true
 	}
+	return out
 }
-- 
2.43.0

