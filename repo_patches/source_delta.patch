From e57799f40b7d03420486f31bbf2068c323a7865a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:23 +0000
Subject: [PATCH 01/45] fix: StartSync blocked for ever on sources with more
 tokens than half their length

---
 circuitcompiler/lexer.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/circuitcompiler/lexer.go b/circuitcompiler/lexer.go
index 72bff75..d58be26 100644
--- a/circuitcompiler/lexer.go
+++ b/circuitcompiler/lexer.go
@@ -217,13 +217,11 @@ func (l *Lexer) Start() {
 	go l.run()
 }
 
+// StartSync executes the Lexer before it returns.
 func (l *Lexer) StartSync() {
-	// Take half the string length as a buffer size.
-	buffSize := len(l.source) / 2
-	if buffSize <= 0 {
-		buffSize = 1
-	}
-	l.tokens = make(chan Token, buffSize)
+	// Nobody reads while the Lexer runs, so the buffer must hold every token. A token may be empty (""), but
+	// none takes less than one byte of the source.
+	l.tokens = make(chan Token, len(l.source)+1)
 	l.run()
 }
 
-- 
2.43.0


From adeaf3dd5df6d28971502c8e4a65e654c15fa8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:40 +0000
Subject: [PATCH 02/45] fix: the lexer never ended on foreign characters, open
 strings, malformed UTF-8 and trailing blanks

---
 circuitcompiler/lexer.go      | 19 +++++++++++++++----
 circuitcompiler/rune_stack.go | 11 ++++++-----
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/circuitcompiler/lexer.go b/circuitcompiler/lexer.go
index d58be26..1331035 100644
--- a/circuitcompiler/lexer.go
+++ b/circuitcompiler/lexer.go
@@ -272,9 +272,8 @@ func (l *Lexer) PeekTwo() string {
 // occur more than once per call to Next but you can never rewind past the
 // last point a token was emitted.
 func (l *Lexer) Rewind() {
-	r := l.rewind.pop()
+	r, size := l.rewind.pop()
 	if r > EOFRune {
-		size := utf8.RuneLen(r)
 		l.position -= size
 		if l.position < l.start {
 			l.position = l.start
@@ -299,7 +298,7 @@ func (l *Lexer) Next() rune {
 		r, s = utf8.DecodeRuneInString(str)
 	}
 	l.position += s
-	l.rewind.push(r)
+	l.rewind.push(r, s)
 	if r == '\n' {
 		l.currentLine++
 	}
@@ -393,6 +392,10 @@ func readCommentLine(l *Lexer) {
 func IdentState(l *Lexer) StateFunc {
 	peek := l.Peek()
 
+	if peek == EOFRune { // only blanks were left
+		return nil
+	}
+
 	if isDigit(peek) {
 		return NumberState
 	}
@@ -406,7 +409,10 @@ func IdentState(l *Lexer) StateFunc {
 		l.Next()
 		l.Ignore()
 		for l.Peek() != '"' { // we read everything inside " ", used for import
-			l.Next()
+			if l.Next() == EOFRune {
+				l.Error("closing \" missing")
+				return nil
+			}
 		}
 		l.Emit(IDENTIFIER_VARIABLE)
 		l.Next()
@@ -437,6 +443,11 @@ func IdentState(l *Lexer) StateFunc {
 	//read the next word and push it on stack
 	readIdent(l)
 
+	if l.Current() == "" {
+		l.Error(fmt.Sprintf("unexpected token %q", l.Peek()))
+		return nil
+	}
+
 	if val, ex := keyWordMap[l.Current()]; ex {
 		l.Emit(val)
 		return ProbablyWhitespaceState
diff --git a/circuitcompiler/rune_stack.go b/circuitcompiler/rune_stack.go
index c471b38..b820e89 100644
--- a/circuitcompiler/rune_stack.go
+++ b/circuitcompiler/rune_stack.go
@@ -2,6 +2,7 @@ package circuitcompiler
 
 type runeNode struct {
 	r    rune
+	size int // bytes the rune took in the source, 1 for malformed UTF-8
 	next *runeNode
 }
 
@@ -14,8 +15,8 @@ func newRuneStack() runeStack {
 	return runeStack{}
 }
 
-func (s *runeStack) push(r rune) {
-	node := &runeNode{r: r}
+func (s *runeStack) push(r rune, size int) {
+	node := &runeNode{r: r, size: size}
 	if s.start == nil {
 		s.start = node
 	} else {
@@ -25,13 +26,13 @@ func (s *runeStack) push(r rune) {
 
 }
 
-func (s *runeStack) pop() rune {
+func (s *runeStack) pop() (rune, int) {
 	if s.start == nil {
-		return EOFRune
+		return EOFRune, 0
 	} else {
 		n := s.start
 		s.start = n.next
-		return n.r
+		return n.r, n.size
 	}
 }
 
-- 
2.43.0


From 22cf3290544d6f44939e9b1a1871e4b2004088be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:03 +0000
Subject: [PATCH 03/45] fix: parse and import failures panicked in goroutines
 of the compiler and ended the whole process

---
 circuitcompiler/parser.go | 41 ++++++++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/circuitcompiler/parser.go b/circuitcompiler/parser.go
index 9609b68..bbebbdc 100644
--- a/circuitcompiler/parser.go
+++ b/circuitcompiler/parser.go
@@ -26,9 +26,7 @@ func (l *Parser) error(e string, a ...interface{}) {
 		l.Err = errors.New(fmt.Sprintf(e, a...))
 		l.ErrorHandler(e)
 	} else {
-		//since parser and lexer run concurrently, we use the lexers error handler, to get the line-number where the program failed
-		l.lexer.Error(fmt.Sprintf(e, a...))
-		//panic(fmt.Sprintf("%v ", e, ))
+		panic(fmt.Sprintf("%v at line %v", fmt.Sprintf(e, a...), l.lexer.currentLine))
 	}
 }
 func (p *Parser) nextNonBreakToken() *Token {
@@ -60,6 +58,8 @@ func (p *Parser) nextToken() *Token {
 
 func newParser(code string, log bool) (p *Parser) {
 	lexer := New(code, ProbablyWhitespaceState)
+	//the lexer runs in its own goroutine, where a panic would end the process. stackAllTokens raises its errors instead
+	lexer.ErrorHandler = func(e string) {}
 	lexer.Start()
 	return &Parser{constraintChan: make(chan *Constraint), tokenChannel: make(chan Token), done: make(chan struct{}), lexer: lexer, log: log}
 }
@@ -71,26 +71,42 @@ func Parse(code string, checkSemantics bool) (p *Program) {
 
 	var constraintStack []*Constraint
 	toks := parser.stackAllTokens()
-	go parser.statementMode(toks)
+	//a failure of the parser is raised again in the goroutine of our caller, who can handle it
+	failed := make(chan interface{}, 1)
+	go func() {
+		defer func() {
+			if r := recover(); r != nil {
+				failed <- r
+			}
+		}()
+		parser.statementMode(toks)
+	}()
 	//go parser.statementMode(parser.stackAllTokens())
 	p = newProgram()
+	//the parser is read to its end before anything is made of its constraints, so it never waits for us in vain
+	var parsed []*Constraint
 out:
 	for {
 		select {
 		case constraint := <-parser.constraintChan:
 			//fmt.Println("#############")
 			//fmt.Println(constraint)
-			if constraint.Output.Type == PUBLIC {
-				a := p.GetMainCircuit().resolveArrayName(constraint)
-				p.PublicInputs = append(p.PublicInputs, a)
-			}
-			if checkSemantics {
-				constraintStack = append(constraintStack, constraint)
-			}
+			parsed = append(parsed, constraint)
+		case err := <-failed:
+			panic(err)
 		case <-parser.done:
 			break out
 		}
 	}
+	for _, constraint := range parsed {
+		if constraint.Output.Type == PUBLIC {
+			a := p.GetMainCircuit().resolveArrayName(constraint)
+			p.PublicInputs = append(p.PublicInputs, a)
+		}
+		if checkSemantics {
+			constraintStack = append(constraintStack, constraint)
+		}
+	}
 
 	//p = newProgram(big.NewInt(1993), big.NewInt(1993))
 	p.globalFunction.preCompile(constraintStack)
@@ -638,6 +654,9 @@ func (p *Parser) stackAllTokens() []Token {
 	for tok := p.nextToken(); tok.Type != EOF; tok = p.nextToken() {
 		stack = append(stack, *tok)
 	}
+	if p.lexer.Err != nil {
+		panic(fmt.Sprintf("%v at line %v", p.lexer.Err, p.lexer.currentLine))
+	}
 	stack = append(stack, Token{
 		Type: EOF,
 	})
-- 
2.43.0


From 8f44d7c8a74198c0df3a8c4a0a9987a8e61614a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:37 +0000
Subject: [PATCH 04/45] fix: an if branch without return was followed by the
 else branches of its chain

---
 circuitcompiler/Programm.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index 202117e..3757c4f 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -198,6 +198,14 @@ func (p *Program) Execute() (orderedmGates []*Gate) {
 func (currentCircuit *function) execute(gateCollector *gateContainer) (facs factors, returned bool, preloadedFunction function) {
 
 	for _, task := range currentCircuit.taskStack.data {
+		//the IF tasks of a function are the branches of one if-else chain, at most one of them is taken
+		if task.Output.Type == IF {
+			if len(task.Inputs) == 0 || currentCircuit.checkStaticCondition(task.Inputs[0]) {
+				branch := &Constraint{Output: Token{Type: IF_FUNCTION_CALL, Identifier: task.Output.Identifier}}
+				return currentCircuit.compile(branch, gateCollector)
+			}
+			continue
+		}
 		f, returs, fkt := currentCircuit.compile(task, gateCollector)
 		if returs {
 			return f, true, fkt
-- 
2.43.0


From 2ba75bcf696f4eb8f3d15043fdaf7ae62746ab50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:38 +0000
Subject: [PATCH 05/45] fix: nested if statements and an if chain at the end of
 a body could not be compiled

---
 circuitcompiler/circuit.go | 9 ++++++++-
 circuitcompiler/parser.go  | 7 ++++---
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/circuitcompiler/circuit.go b/circuitcompiler/circuit.go
index b64bbd5..1722fd2 100644
--- a/circuitcompiler/circuit.go
+++ b/circuitcompiler/circuit.go
@@ -488,9 +488,16 @@ func (from Token) primitiveReturnfunction() (gives *function) {
 
 func splitAtIfEnd(cs []*Constraint) (inside, outside []*Constraint) {
 
+	depth := 0
 	for i, v := range cs {
+		if v.Output.Type == IF {
+			depth++
+		}
 		if v.Output.Type == IF_ELSE_CHAIN_END {
-			return cs[:i], cs[i:]
+			depth--
+			if depth == 0 {
+				return cs[:i], cs[i:]
+			}
 		}
 	}
 	panic("unexpected reach")
diff --git a/circuitcompiler/parser.go b/circuitcompiler/parser.go
index bbebbdc..8e7f43a 100644
--- a/circuitcompiler/parser.go
+++ b/circuitcompiler/parser.go
@@ -245,16 +245,17 @@ func (p *Parser) statementMode(tokens []Token) {
 		handeFunc(1, true, IF)
 
 		hasElseIf := false
-		for rest[0].Type == ELSE && rest[1].Type == IF {
+		for len(rest) > 1 && rest[0].Type == ELSE && rest[1].Type == IF {
 			handeFunc(2, true, ELSE)
 			hasElseIf = true
 		}
 
-		if rest[0].Type != ELSE && hasElseIf {
+		hasElse := len(rest) > 0 && rest[0].Type == ELSE
+		if !hasElse && hasElseIf {
 			p.error("you used else if, so a else at the end is required")
 		}
 
-		if rest[0].Type == ELSE {
+		if hasElse {
 			handeFunc(1, false, ELSE)
 		}
 		p.constraintChan <- &Constraint{Output: Token{Type: IF_ELSE_CHAIN_END}}
-- 
2.43.0


From a7a072cae0cb7407d1e3aa43a00bc535cf9d237d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:38 +0000
Subject: [PATCH 06/45] fix: a var without assignment dropped the rest of its
 block or hung the compiler

---
 circuitcompiler/parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/circuitcompiler/parser.go b/circuitcompiler/parser.go
index 8e7f43a..d42096c 100644
--- a/circuitcompiler/parser.go
+++ b/circuitcompiler/parser.go
@@ -401,6 +401,7 @@ func (p *Parser) statementMode(tokens []Token) {
 			return
 		}
 		//var a = func(){}
+		p.error("assignment expected, got %v", l)
 	case RETURN:
 		//return (1+a)
 		l, r := splitTokensAtFirstString(tokens, "\n")
-- 
2.43.0


From ebb144616a0f7d26b546ed141e04a54e97fdf001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:38 +0000
Subject: [PATCH 07/45] fix: subtraction negated numbers in place, among them
 the shared constant one

---
 circuitcompiler/factorHandling.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/circuitcompiler/factorHandling.go b/circuitcompiler/factorHandling.go
index a8f0caa..18eecbc 100644
--- a/circuitcompiler/factorHandling.go
+++ b/circuitcompiler/factorHandling.go
@@ -239,7 +239,8 @@ func addFactors(leftFactors, rightFactors factors) factors {
 func negateFactors(leftFactors factors) factors {
 	for i := range leftFactors {
 		//leftFactors[i].multiplicative = field.Neg(leftFactors[i].multiplicative)
-		leftFactors[i].multiplicative = leftFactors[i].multiplicative.Neg(leftFactors[i].multiplicative)
+		//a new number, since the old one may be shared (bigOne for example)
+		leftFactors[i].multiplicative = new(big.Int).Neg(leftFactors[i].multiplicative)
 		if leftFactors[i].typ.Type == NumberToken {
 			leftFactors[i].typ.Identifier = leftFactors[i].multiplicative.String()
 		}
-- 
2.43.0


From 0538a38bb0706407e47030f4dc8ae08df88327e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:39 +0000
Subject: [PATCH 08/45] fix: multiplication and division of an expression that
 is constantly zero panicked

---
 circuitcompiler/factorHandling.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/circuitcompiler/factorHandling.go b/circuitcompiler/factorHandling.go
index 18eecbc..19b2624 100644
--- a/circuitcompiler/factorHandling.go
+++ b/circuitcompiler/factorHandling.go
@@ -61,6 +61,9 @@ func extractGCD(f factors) (factors, *big.Int) {
 	for i := 1; i < len(f); i++ {
 		gcd = new(big.Int).GCD(nil, nil, f[i].multiplicative, gcd)
 	}
+	if gcd.Sign() == 0 { //all factors are zero, there is nothing to extract
+		return f, bigOne
+	}
 	for i := 0; i < len(f); i++ {
 		f[i].multiplicative = new(big.Int).Div(f[i].multiplicative, gcd)
 
-- 
2.43.0


From 5ebb80fd2dffa9b2d3ea18fecebc565b50e3b105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:29 +0000
Subject: [PATCH 09/45] fix: equal(a,b) was dropped when the program also
 contains a*b

---
 circuitcompiler/gate.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/circuitcompiler/gate.go b/circuitcompiler/gate.go
index 32c858d..6e0f4a6 100644
--- a/circuitcompiler/gate.go
+++ b/circuitcompiler/gate.go
@@ -55,6 +55,10 @@ func (gate *Gate) setAndGetID() (id string) {
 	sort.Sort(gate.outIns)
 	eo := hashFactorsToBig(append(gate.expoIns, gate.outIns...))
 	gate.identifier = new(big.Int).Xor(lr, eo).String()[:16]
+	if gate.gateType == equalityGate {
+		//equal(a,b) is not the gate a*b
+		gate.identifier = "=" + gate.identifier
+	}
 	return gate.identifier
 }
 func (gate *Gate) minimizeR1CSDescriptiveComplexity() {
-- 
2.43.0


From 9b4f08a5d590f51ad9cf3c8c665e740d325fb74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:29 +0000
Subject: [PATCH 10/45] fix: addGateConstraint multiplied the constant factors
 of its summands

---
 circuitcompiler/Programm.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index 3757c4f..458604b 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -439,11 +439,11 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 			rightClone := currentConstraint.Inputs[1].clone()
 			leftFactors, _, _ := currentCircuit.compile(leftClone, gateCollector)
 			rightFactors, _, _ := currentCircuit.compile(rightClone, gateCollector)
-			commonExtracted, extractedLeft, extractedRight := extractConstant(leftFactors, rightFactors)
+			commonExtracted, summands := factorSignature(addFactors(leftFactors, rightFactors))
 
 			rootGate := &Gate{
 				gateType: additionGate,
-				leftIns:  addFactors(extractedLeft, extractedRight),
+				leftIns:  summands,
 			}
 
 			nTok := Token{
-- 
2.43.0


From d72de42f69ad38d70d009929d163d0eaf5e0939e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:25 +0000
Subject: [PATCH 11/45] fix: sparse scalar products were not reduced, so that
 valid witnesses were rejected

---
 utils/sparsePolynomial.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/sparsePolynomial.go b/utils/sparsePolynomial.go
index 6fe136f..0d574f6 100644
--- a/utils/sparsePolynomial.go
+++ b/utils/sparsePolynomial.go
@@ -181,7 +181,7 @@ func (f Fq) InterpolateSparseArray(dataArray *AvlTree, degree int) (polynom *Avl
 func (f Fq) SparseScalarProduct(a *AvlTree, b []*big.Int) (res *big.Int) {
 	res = big.NewInt(0)
 	for v := range a.ChannelNodes(true) {
-		res = res.Add(res, f.Mul(v.Value, b[v.Key]))
+		res = f.Add(res, f.Mul(v.Value, b[v.Key]))
 	}
 	return
 }
-- 
2.43.0


From dbe98e6e7e7c865241acc8dbb31e72a7c3e9b655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:25 +0000
Subject: [PATCH 12/45] fix: scaling a sparse polynomial changed the tree its
 own walker was reading

---
 utils/sparsePolynomial.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/utils/sparsePolynomial.go b/utils/sparsePolynomial.go
index 0d574f6..83ef109 100644
--- a/utils/sparsePolynomial.go
+++ b/utils/sparsePolynomial.go
@@ -20,11 +20,11 @@ func (fq Fq) MulSparse(a, b *AvlTree) *AvlTree {
 
 // Mul multiplies a sparse polynomail with a scalar over the Finite Field
 func (fq Fq) MulSparseScalar(a *AvlTree, scalar *big.Int) *AvlTree {
-	a = a.Clone()
+	r := NewAvlTree()
 	for L := range a.ChannelNodes(true) {
-		a.Put(L.Key, scalar, fq.Mul)
+		r.Insert(L.Key, fq.Mul(L.Value, scalar))
 	}
-	return a
+	return r
 }
 
 type Entry struct {
@@ -187,7 +187,7 @@ func (f Fq) SparseScalarProduct(a *AvlTree, b []*big.Int) (res *big.Int) {
 }
 
 func (f Fq) Combine(a *AvlTree, w []*big.Int) (scaledPolynomial *AvlTree) {
-	for v := range a.ChannelNodes(true) {
+	for _, v := range a.DecendingNodes() {
 		a.Put(v.Key, w[v.Key], f.Mul)
 	}
 	return a
-- 
2.43.0


From 461045b494f6d1a84f611c88216c5bb280d8506a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:25 +0000
Subject: [PATCH 13/45] fix: dividing a sparse polynomial by a constant
 panicked and by zero never ended

---
 utils/sparsePolynomial.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utils/sparsePolynomial.go b/utils/sparsePolynomial.go
index 83ef109..61550ec 100644
--- a/utils/sparsePolynomial.go
+++ b/utils/sparsePolynomial.go
@@ -36,8 +36,11 @@ type Entry struct {
 func (fq Fq) DivideSparse(a, b *AvlTree) (result, rem *AvlTree) {
 	result = NewAvlTree()
 	rem = a.Clone()
+	if b.Size() == 0 {
+		panic("division by the zero polynomial")
+	}
 	maxA, maxB := rem.MaxNode(), b.MaxNode()
-	for ; maxA != nil && maxB != nil && maxA.Key() >= maxB.Key(); maxA = rem.MaxNode() {
+	for ; rem.Size() > 0 && maxA.Key() >= maxB.Key(); maxA = rem.MaxNode() {
 		l := fq.Div(maxA.Value(), maxB.Value())
 		pos := maxA.Key() - maxB.Key()
 		aux := NewAvlTree()
-- 
2.43.0


From 16624019aeff57f229fd8252c8742ec5172b14e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:25 +0000
Subject: [PATCH 14/45] fix: evaluating a sparse polynomial at a multiple of
 the field order panicked

---
 utils/sparsePolynomial.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils/sparsePolynomial.go b/utils/sparsePolynomial.go
index 61550ec..d31384b 100644
--- a/utils/sparsePolynomial.go
+++ b/utils/sparsePolynomial.go
@@ -83,6 +83,7 @@ func (fq Fq) EvalSparsePoly(poly *AvlTree, at *big.Int) (result *big.Int) {
 	if nBits < poly.Size() {
 		//fmt.Println("WARN, ur polynomial is not very sparse. a casual array type polynomial becomes more efficient at some point. not necessarily in this case however.")
 	}
+	at = fq.Copy(at)
 	if at.Cmp(bigZero) == 0 {
 		if v, b := poly.Get(0); b == nil {
 			return new(big.Int).Set(v)
-- 
2.43.0


From bcbb078799a9124e72de7b1971f0da28c139a4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:25 +0000
Subject: [PATCH 15/45] fix: removing an absent key rebalanced subtrees but
 kept the old root, which lost entries

---
 utils/avl.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/utils/avl.go b/utils/avl.go
index bcf8bc9..f228b6a 100644
--- a/utils/avl.go
+++ b/utils/avl.go
@@ -468,9 +468,6 @@ func (self *AvlNode) Remove(key uint) (_ *AvlNode, value *big.Int, err error) {
 	} else {
 		self.right, value, err = self.right.Remove(key)
 	}
-	if err != nil {
-		return self.balance(), value, err
-	}
 	return self, value, err
 }
 
-- 
2.43.0


From 47652017decb506851f4be3f7885ef7536dd183c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:25 +0000
Subject: [PATCH 16/45] fix: dense division by a polynomial of higher degree
 panicked

---
 utils/polynomialField.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils/polynomialField.go b/utils/polynomialField.go
index b7dd86d..59da177 100644
--- a/utils/polynomialField.go
+++ b/utils/polynomialField.go
@@ -94,6 +94,9 @@ func (pf PolynomialField) MulSimple(a, b []*big.Int) []*big.Int {
 // Div divides two polinomials over the Finite Field, returning the result and the remainder
 func (pf PolynomialField) Div(a, b []*big.Int) ([]*big.Int, []*big.Int) {
 	// https://en.wikipedia.org/wiki/Division_algorithm
+	if len(a) < len(b) {
+		return []*big.Int{}, a
+	}
 	r := ArrayOfBigZeros(len(a) - len(b) + 1)
 	rem := a
 	for len(rem) >= len(b) {
-- 
2.43.0


From 62981d2f9a5c6b90e254689f9a30c73c31110c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:02 +0000
Subject: [PATCH 17/45] fix: interpolating in two goroutines at once killed the
 process by a race on the base caches

---
 utils/finiteField.go      | 3 +++
 utils/polynomialField.go  | 7 ++++++-
 utils/sparsePolynomial.go | 7 ++++++-
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/utils/finiteField.go b/utils/finiteField.go
index 67bb2ae..7ea522e 100644
--- a/utils/finiteField.go
+++ b/utils/finiteField.go
@@ -5,6 +5,7 @@ import (
 	"crypto/rand"
 	bn256 "github.com/mottla/go-AlgebraicProgram-SNARK/pairing"
 	"math/big"
+	"sync"
 )
 
 type Fields struct {
@@ -38,6 +39,7 @@ type Fq struct {
 	Q            *big.Int // Q
 	bases        map[baseLengthPair]*AvlTree
 	basesClassic map[baseLengthPair][]*big.Int
+	basesLock    *sync.RWMutex // guards bases and basesClassic, which all copies of a field share
 }
 
 // NewFq generates a new Fq
@@ -46,6 +48,7 @@ func NewFq(q *big.Int) Fq {
 		q,
 		make(map[baseLengthPair]*AvlTree),
 		make(map[baseLengthPair][]*big.Int),
+		&sync.RWMutex{},
 	}
 }
 
diff --git a/utils/polynomialField.go b/utils/polynomialField.go
index 59da177..3d86c1a 100644
--- a/utils/polynomialField.go
+++ b/utils/polynomialField.go
@@ -202,7 +202,10 @@ func (pf PolynomialField) LagrangeInterpolation(datapoints []*big.Int) (polynom
 
 	var base = func(pointPos, totalPoints int) (r []*big.Int) {
 
-		if v, ex := pf.F.basesClassic[baseLengthPair{baseIndex: pointPos, Length: totalPoints}]; ex {
+		pf.F.basesLock.RLock()
+		v, ex := pf.F.basesClassic[baseLengthPair{baseIndex: pointPos, Length: totalPoints}]
+		pf.F.basesLock.RUnlock()
+		if ex {
 			return v
 		}
 		facBig := big.NewInt(1)
@@ -222,7 +225,9 @@ func (pf PolynomialField) LagrangeInterpolation(datapoints []*big.Int) (polynom
 			}
 		}
 		r = pf.MulScalar(r, hf)
+		pf.F.basesLock.Lock()
 		pf.F.basesClassic[baseLengthPair{baseIndex: pointPos, Length: totalPoints}] = r
+		pf.F.basesLock.Unlock()
 		return r
 	}
 	//if IsZeroArray(datapoints){
diff --git a/utils/sparsePolynomial.go b/utils/sparsePolynomial.go
index d31384b..85178f3 100644
--- a/utils/sparsePolynomial.go
+++ b/utils/sparsePolynomial.go
@@ -139,7 +139,10 @@ func (f Fq) InterpolateSparseArray(dataArray *AvlTree, degree int) (polynom *Avl
 	}
 	var base = func(pointPos, totalPoints int) (r *AvlTree) {
 
-		if v, ex := f.bases[baseLengthPair{baseIndex: pointPos, Length: totalPoints}]; ex {
+		f.basesLock.RLock()
+		v, ex := f.bases[baseLengthPair{baseIndex: pointPos, Length: totalPoints}]
+		f.basesLock.RUnlock()
+		if ex {
 			return v
 		}
 		//r = NewAvlTree()
@@ -160,7 +163,9 @@ func (f Fq) InterpolateSparseArray(dataArray *AvlTree, degree int) (polynom *Avl
 		}
 		hf := f.Inverse(facBig)
 		r = f.MulSparseScalar(r, hf)
+		f.basesLock.Lock()
 		f.bases[baseLengthPair{baseIndex: pointPos, Length: totalPoints}] = r
+		f.basesLock.Unlock()
 		return r
 	}
 	//if  IsZeroArray(dataArray.ToArray(degree)){
-- 
2.43.0


From 48c89c97309032170b41b0f1cd8a869d5e3add04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:33 +0000
Subject: [PATCH 18/45] fix: doubling a group element in place gave a wrong
 element

---
 pairing/curve.go | 9 +++++----
 pairing/twist.go | 7 ++++---
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/pairing/curve.go b/pairing/curve.go
index 819cb81..8c6b049 100644
--- a/pairing/curve.go
+++ b/pairing/curve.go
@@ -203,6 +203,11 @@ func (c *curvePoint) Double(a *curvePoint, pool *bnPool) {
 	t.Add(d, d)
 	c.x.Sub(f, t)
 
+	// z before y: c and a may be the same point
+	t.Mul(a.y, a.z)
+	t.Mod(t, P)
+	c.z.Add(t, t)
+
 	t.Add(C_, C_)
 	t2.Add(t, t)
 	t.Add(t2, t2)
@@ -211,10 +216,6 @@ func (c *curvePoint) Double(a *curvePoint, pool *bnPool) {
 	t2.Mod(t2, P)
 	c.y.Sub(t2, t)
 
-	t.Mul(a.y, a.z)
-	t.Mod(t, P)
-	c.z.Add(t, t)
-
 	pool.Put(A)
 	pool.Put(B)
 	pool.Put(C_)
diff --git a/pairing/twist.go b/pairing/twist.go
index 43364ff..7d94b86 100644
--- a/pairing/twist.go
+++ b/pairing/twist.go
@@ -185,6 +185,10 @@ func (c *twistPoint) Double(a *twistPoint, pool *bnPool) {
 	t.Add(d, d)
 	c.x.Sub(f, t)
 
+	// z before y: c and a may be the same point
+	t.Mul(a.y, a.z, pool)
+	c.z.Add(t, t)
+
 	t.Add(C_, C_)
 	t2.Add(t, t)
 	t.Add(t2, t2)
@@ -192,9 +196,6 @@ func (c *twistPoint) Double(a *twistPoint, pool *bnPool) {
 	t2.Mul(e, c.y, pool)
 	c.y.Sub(t2, t)
 
-	t.Mul(a.y, a.z, pool)
-	c.z.Add(t, t)
-
 	A.Put(pool)
 	B.Put(pool)
 	C_.Put(pool)
-- 
2.43.0


From 5a33cac14c1aec4fc7bc10fe7cea1615ade29fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:13 +0000
Subject: [PATCH 19/45] fix: reading a group element changed it while other
 goroutines were reading it

---
 pairing/bn256.go | 60 +++++++++++++++++++++++++++++-------------------
 pairing/curve.go |  7 ++++--
 2 files changed, 41 insertions(+), 26 deletions(-)

diff --git a/pairing/bn256.go b/pairing/bn256.go
index 5e745d4..bb1d165 100644
--- a/pairing/bn256.go
+++ b/pairing/bn256.go
@@ -109,8 +109,11 @@ func (e *G1) X() *big.Int {
 	if e.p.IsInfinity() {
 		return new(big.Int)
 	}
-	e.p.MakeAffine(nil)
-	return new(big.Int).Mod(e.p.x, P)
+	// on a copy: e may be shared
+	p := newCurvePoint(nil)
+	p.Set(e.p)
+	p.MakeAffine(nil)
+	return new(big.Int).Mod(p.x, P)
 }
 
 // Marshal converts n to a byte slice.
@@ -122,10 +125,13 @@ func (e *G1) Marshal() []byte {
 		return make([]byte, numBytes*2)
 	}
 
-	e.p.MakeAffine(nil)
+	// on a copy: e may be shared
+	p := newCurvePoint(nil)
+	p.Set(e.p)
+	p.MakeAffine(nil)
 
-	xBytes := new(big.Int).Mod(e.p.x, P).Bytes()
-	yBytes := new(big.Int).Mod(e.p.y, P).Bytes()
+	xBytes := new(big.Int).Mod(p.x, P).Bytes()
+	yBytes := new(big.Int).Mod(p.y, P).Bytes()
 
 	ret := make([]byte, numBytes*2)
 	copy(ret[1*numBytes-len(xBytes):], xBytes)
@@ -243,12 +249,15 @@ func (n *G2) Marshal() []byte {
 		return make([]byte, numBytes*4)
 	}
 
-	n.p.MakeAffine(nil)
+	// on a copy: n may be shared
+	p := newTwistPoint(nil)
+	p.Set(n.p)
+	p.MakeAffine(nil)
 
-	xxBytes := new(big.Int).Mod(n.p.x.x, P).Bytes()
-	xyBytes := new(big.Int).Mod(n.p.x.y, P).Bytes()
-	yxBytes := new(big.Int).Mod(n.p.y.x, P).Bytes()
-	yyBytes := new(big.Int).Mod(n.p.y.y, P).Bytes()
+	xxBytes := new(big.Int).Mod(p.x.x, P).Bytes()
+	xyBytes := new(big.Int).Mod(p.x.y, P).Bytes()
+	yxBytes := new(big.Int).Mod(p.y.x, P).Bytes()
+	yyBytes := new(big.Int).Mod(p.y.y, P).Bytes()
 
 	ret := make([]byte, numBytes*4)
 	copy(ret[1*numBytes-len(xxBytes):], xxBytes)
@@ -346,20 +355,23 @@ func (e *GT) Neg(a *GT) *GT {
 
 // Marshal converts n into a byte slice.
 func (n *GT) Marshal() []byte {
-	n.p.Minimal()
-
-	xxxBytes := n.p.x.x.x.Bytes()
-	xxyBytes := n.p.x.x.y.Bytes()
-	xyxBytes := n.p.x.y.x.Bytes()
-	xyyBytes := n.p.x.y.y.Bytes()
-	xzxBytes := n.p.x.z.x.Bytes()
-	xzyBytes := n.p.x.z.y.Bytes()
-	yxxBytes := n.p.y.x.x.Bytes()
-	yxyBytes := n.p.y.x.y.Bytes()
-	yyxBytes := n.p.y.y.x.Bytes()
-	yyyBytes := n.p.y.y.y.Bytes()
-	yzxBytes := n.p.y.z.x.Bytes()
-	yzyBytes := n.p.y.z.y.Bytes()
+	// on a copy: n may be shared
+	p := newGFp12(nil)
+	p.Set(n.p)
+	p.Minimal()
+
+	xxxBytes := p.x.x.x.Bytes()
+	xxyBytes := p.x.x.y.Bytes()
+	xyxBytes := p.x.y.x.Bytes()
+	xyyBytes := p.x.y.y.Bytes()
+	xzxBytes := p.x.z.x.Bytes()
+	xzyBytes := p.x.z.y.Bytes()
+	yxxBytes := p.y.x.x.Bytes()
+	yxyBytes := p.y.x.y.Bytes()
+	yyxBytes := p.y.y.x.Bytes()
+	yyyBytes := p.y.y.y.Bytes()
+	yzxBytes := p.y.z.x.Bytes()
+	yzyBytes := p.y.z.y.Bytes()
 
 	// Each value is a 256-bit number.
 	const numBytes = 256 / 8
diff --git a/pairing/curve.go b/pairing/curve.go
index 8c6b049..1cb631d 100644
--- a/pairing/curve.go
+++ b/pairing/curve.go
@@ -35,8 +35,11 @@ func newCurvePoint(pool *bnPool) *curvePoint {
 }
 
 func (c *curvePoint) String() string {
-	c.MakeAffine(new(bnPool))
-	return "(" + c.x.String() + ", " + c.y.String() + ")"
+	// on a copy: c may be shared
+	p := newCurvePoint(nil)
+	p.Set(c)
+	p.MakeAffine(new(bnPool))
+	return "(" + p.x.String() + ", " + p.y.String() + ")"
 }
 
 func (c *curvePoint) Put(pool *bnPool) {
-- 
2.43.0


From b38f0a08ed2698f881565297b7d016f712d003c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:00 +0000
Subject: [PATCH 20/45] fix: a refused Unmarshal left the receiving group
 element modified

---
 pairing/bn256.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/pairing/bn256.go b/pairing/bn256.go
index bb1d165..01845fd 100644
--- a/pairing/bn256.go
+++ b/pairing/bn256.go
@@ -148,10 +148,10 @@ func (e *G1) Unmarshal(m []byte) ([]byte, error) {
 	if len(m) != 2*numBytes {
 		return nil, errors.New("bn256: not enough data")
 	}
-	// Unmarshal the points and check their caps
-	if e.p == nil {
-		e.p = newCurvePoint(nil)
-	}
+	// Unmarshal the points and check their caps, into a new element: the
+	// receiver stays as it was unless all is well
+	dst := e
+	e = &G1{newCurvePoint(nil)}
 	e.p.x.SetBytes(m[0*numBytes : 1*numBytes])
 	if e.p.x.Cmp(P) >= 0 {
 		return nil, errors.New("bn256: coordinate exceeds modulus")
@@ -174,6 +174,7 @@ func (e *G1) Unmarshal(m []byte) ([]byte, error) {
 			return nil, errors.New("bn256: malformed point")
 		}
 	}
+	dst.p = e.p
 	return m[2*numBytes:], nil
 }
 
@@ -276,10 +277,10 @@ func (e *G2) Unmarshal(m []byte) ([]byte, error) {
 	if len(m) != 4*numBytes {
 		return nil, errors.New("bn256: not enough data")
 	}
-	// Unmarshal the points and check their caps
-	if e.p == nil {
-		e.p = newTwistPoint(nil)
-	}
+	// Unmarshal the points and check their caps, into a new element: the
+	// receiver stays as it was unless all is well
+	dst := e
+	e = &G2{newTwistPoint(nil)}
 	e.p.x.x.SetBytes(m[0*numBytes : 1*numBytes])
 	if e.p.x.x.Cmp(P) >= 0 {
 		return nil, errors.New("bn256: coordinate exceeds modulus")
@@ -313,6 +314,7 @@ func (e *G2) Unmarshal(m []byte) ([]byte, error) {
 			return nil, errors.New("bn256: malformed point")
 		}
 	}
+	dst.p = e.p
 	return m[4*numBytes:], nil
 }
 
-- 
2.43.0


From 7ae38d66e9b053b28af2c79aae626ad22653c65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:16 +0000
Subject: [PATCH 21/45] fix: GT.Unmarshal accepted unreduced coordinates, a
 second encoding of the same element

---
 pairing/bn256.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pairing/bn256.go b/pairing/bn256.go
index 01845fd..44f00a5 100644
--- a/pairing/bn256.go
+++ b/pairing/bn256.go
@@ -405,6 +405,13 @@ func (e *GT) Unmarshal(m []byte) (*GT, bool) {
 		return nil, false
 	}
 
+	// coordinates are reduced, otherwise the element would have a second encoding
+	for i := 0; i < 12; i++ {
+		if new(big.Int).SetBytes(m[i*numBytes:(i+1)*numBytes]).Cmp(P) >= 0 {
+			return nil, false
+		}
+	}
+
 	if e.p == nil {
 		e.p = newGFp12(nil)
 	}
-- 
2.43.0


From cf9ea5fd90442612d51fff514cb6fcaa6f780241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:06 +0000
Subject: [PATCH 22/45] fix: a return inside a loop was ignored

---
 circuitcompiler/Programm.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index 458604b..e43e061 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -255,13 +255,12 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 	case FOR:
 		//we check the condition each time we rerun the loop
 		for currentCircuit.checkStaticCondition(currentConstraint.Inputs[0]) {
-			content := &Constraint{
-				Output: Token{
-					Type:       FUNCTION_CALL,
-					Identifier: currentConstraint.Output.Identifier,
-				},
+			body, ex := currentCircuit.findFunctionInBloodline(currentConstraint.Output.Identifier)
+			if !ex {
+				panic(fmt.Sprintf("function %s not declared", currentConstraint.Output.Identifier))
 			}
-			f, retu, fkt := currentCircuit.compile(content, gateCollector)
+			//not compiled as a function call, since those end at a return of the body, which has to end the loop and its function
+			f, retu, fkt := body.flatCopy().execute(gateCollector)
 			if retu {
 				return f, true, fkt
 			}
-- 
2.43.0


From 3fd2c791353e94b1912deede42239d34e19f6bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:06 +0000
Subject: [PATCH 23/45] fix: functions that wait for arguments or return
 nothing were taken as zero in expressions

---
 circuitcompiler/Programm.go | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index e43e061..90e8076 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -215,6 +215,15 @@ func (currentCircuit *function) execute(gateCollector *gateContainer) (facs fact
 	return nil, false, function{}
 }
 
+//compileNumber compiles an operand. Functions that wait for arguments or return nothing are no operands
+func (currentCircuit *function) compileNumber(operand *Constraint, gateCollector *gateContainer) (facs factors) {
+	facs, _, _ = currentCircuit.compile(operand, gateCollector)
+	if len(facs) == 0 {
+		panic(fmt.Sprintf("%v is not a field element", operand.Output))
+	}
+	return facs
+}
+
 //recursively walks through the parse tree to create a list of all
 //multiplication gates needed for the QAP construction
 //Takes into account, that multiplication with constants and addition (= substraction) can be reduced, and does so
@@ -436,8 +445,8 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 			}
 			leftClone := currentConstraint.Inputs[0].clone()
 			rightClone := currentConstraint.Inputs[1].clone()
-			leftFactors, _, _ := currentCircuit.compile(leftClone, gateCollector)
-			rightFactors, _, _ := currentCircuit.compile(rightClone, gateCollector)
+			leftFactors := currentCircuit.compileNumber(leftClone, gateCollector)
+			rightFactors := currentCircuit.compileNumber(rightClone, gateCollector)
 			commonExtracted, summands := factorSignature(addFactors(leftFactors, rightFactors))
 
 			rootGate := &Gate{
@@ -463,7 +472,7 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 			if len(currentConstraint.Inputs) != 1 {
 				panic("scalarBaseMultiply argument missmatch")
 			}
-			exponentInputFactors, _, _ := currentCircuit.compile(currentConstraint.Inputs[0], gateCollector)
+			exponentInputFactors := currentCircuit.compileNumber(currentConstraint.Inputs[0], gateCollector)
 
 			rootGate := &Gate{
 				gateType: scalarBaseMultiplyGate,
@@ -482,8 +491,8 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 			}
 			leftClone := currentConstraint.Inputs[0].clone()
 			rightClone := currentConstraint.Inputs[1].clone()
-			leftFactors, _, _ := currentCircuit.compile(leftClone, gateCollector)
-			rightFactors, _, _ := currentCircuit.compile(rightClone, gateCollector)
+			leftFactors := currentCircuit.compileNumber(leftClone, gateCollector)
+			rightFactors := currentCircuit.compileNumber(rightClone, gateCollector)
 
 			rootGate := &Gate{
 				gateType:    equalityGate,
@@ -547,8 +556,8 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 		case ArithmeticOperatorToken:
 			switch operation.Identifier {
 			case "*":
-				leftFactors, _, _ = currentCircuit.compile(left, gateCollector)
-				rightFactors, _, _ = currentCircuit.compile(right, gateCollector)
+				leftFactors = currentCircuit.compileNumber(left, gateCollector)
+				rightFactors = currentCircuit.compileNumber(right, gateCollector)
 
 				if leftFactors.isSingleNumber() || rightFactors.isSingleNumber() {
 					return mulFactors(leftFactors, rightFactors), currentConstraint.Output.Type == RETURN, function{}
@@ -569,8 +578,8 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 				f := factor{typ: nTok, multiplicative: commonFactor}
 				return factors{f}, currentConstraint.Output.Type == RETURN, function{}
 			case "/":
-				leftFactors, _, _ = currentCircuit.compile(left, gateCollector)
-				rightFactors, _, _ = currentCircuit.compile(right, gateCollector)
+				leftFactors = currentCircuit.compileNumber(left, gateCollector)
+				rightFactors = currentCircuit.compileNumber(right, gateCollector)
 
 				if rightFactors.isSingleNumber() { // (x1+x2..)/6
 					return mulFactors(leftFactors, invertFactors(rightFactors)), currentConstraint.Output.Type == RETURN, function{}
@@ -593,14 +602,14 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 				f := factor{typ: nTok, multiplicative: commonF}
 				return factors{f}, currentConstraint.Output.Type == RETURN, function{}
 			case "+":
-				leftFactors, _, _ = currentCircuit.compile(left, gateCollector)
-				rightFactors, _, _ = currentCircuit.compile(right, gateCollector)
+				leftFactors = currentCircuit.compileNumber(left, gateCollector)
+				rightFactors = currentCircuit.compileNumber(right, gateCollector)
 				addedFactors := addFactors(leftFactors, rightFactors)
 				return addedFactors, currentConstraint.Output.Type == RETURN, function{}
 
 			case "-":
-				leftFactors, _, _ = currentCircuit.compile(left, gateCollector)
-				rightFactors, _, _ = currentCircuit.compile(right, gateCollector)
+				leftFactors = currentCircuit.compileNumber(left, gateCollector)
+				rightFactors = currentCircuit.compileNumber(right, gateCollector)
 				rightFactors = negateFactors(rightFactors)
 				addedFactors := addFactors(leftFactors, rightFactors)
 				return addedFactors, currentConstraint.Output.Type == RETURN, function{}
-- 
2.43.0


From 8234527178793f2e297d414f01f9cc088a0a9a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:07 +0000
Subject: [PATCH 24/45] fix: whatever stands between else and its body was
 dropped

---
 circuitcompiler/parser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/circuitcompiler/parser.go b/circuitcompiler/parser.go
index d42096c..fa911c4 100644
--- a/circuitcompiler/parser.go
+++ b/circuitcompiler/parser.go
@@ -232,6 +232,8 @@ func (p *Parser) statementMode(tokens []Token) {
 			IfConst := &Constraint{Output: Token{Type: typ}}
 			if pareseExpression {
 				p.parseExpression(condition[skip:], IfConst)
+			} else if len(condition) != skip {
+				p.error("'{' expected after else, got %v", condition[skip:])
 			}
 			condition, rest, success = splitAtClosingSwingBrackets(rest)
 			if !success {
-- 
2.43.0


From 7330e3094f9beaec4aca985fe6f8056710e0f817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:07 +0000
Subject: [PATCH 25/45] fix: array indices without opening bracket were
 accepted

---
 circuitcompiler/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/circuitcompiler/parser.go b/circuitcompiler/parser.go
index fa911c4..22854d3 100644
--- a/circuitcompiler/parser.go
+++ b/circuitcompiler/parser.go
@@ -549,6 +549,9 @@ func (p *Parser) parseExpression(stack []Token, constraint *Constraint) {
 		l, r, _ := splitAtClosingSquareBrackets(stack[2:])
 		p.parseExpression(l, cr)
 		for len(r) != 0 {
+			if r[0].Identifier != "[" {
+				p.error("brackets '[' missing, got %v", r[0])
+			}
 			l, r, _ = splitAtClosingSquareBrackets(r)
 			p.parseExpression(l, cr)
 		}
-- 
2.43.0


From d5d34f00855d2a299c20dac8ede316ff07daa272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:22 +0000
Subject: [PATCH 26/45] fix: statements outside of functions were accepted and
 never executed

---
 circuitcompiler/circuit.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/circuitcompiler/circuit.go b/circuitcompiler/circuit.go
index 1722fd2..32da82d 100644
--- a/circuitcompiler/circuit.go
+++ b/circuitcompiler/circuit.go
@@ -75,6 +75,13 @@ func (currentCircuit *function) preCompile(constraintStack []*Constraint) {
 	}
 	currentConstraint := constraintStack[0]
 
+	if currentCircuit.Context == nil {
+		switch currentConstraint.Output.Type {
+		case IF, FOR, VARIABLE_OVERLOAD, FUNCTION_CALL, RETURN:
+			panic(fmt.Sprintf("statement outside of a function, it would never be executed: %v", currentConstraint))
+		}
+	}
+
 	switch currentConstraint.Output.Type {
 	case PUBLIC:
 		if currentCircuit.Name != "main" {
-- 
2.43.0


From 0c9bb905c4bbe26777ad72b70e550092759afc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:22 +0000
Subject: [PATCH 27/45] fix: public inputs declared twice or unknown to main
 gave a wrong circuit

---
 circuitcompiler/parser.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/circuitcompiler/parser.go b/circuitcompiler/parser.go
index 22854d3..ca280a1 100644
--- a/circuitcompiler/parser.go
+++ b/circuitcompiler/parser.go
@@ -110,9 +110,28 @@ out:
 
 	//p = newProgram(big.NewInt(1993), big.NewInt(1993))
 	p.globalFunction.preCompile(constraintStack)
+	if checkSemantics {
+		p.checkPublicInputs()
+	}
 	return p
 }
 
+//every public input has to be an input of main and must be declared once
+func (p *Program) checkPublicInputs() {
+	undeclared := make(map[string]bool)
+	if main := p.GetMainCircuit(); main != nil {
+		for _, input := range main.Inputs {
+			undeclared[input] = true
+		}
+	}
+	for _, public := range p.PublicInputs[1:] {
+		if !undeclared[public] {
+			panic(fmt.Sprintf("public input %v is declared twice or is no input of main", public))
+		}
+		delete(undeclared, public)
+	}
+}
+
 func (p *Parser) statementMode(tokens []Token) {
 
 	tokens = removeLeadingAndTrailingBreaks(tokens)
-- 
2.43.0


From de7b2783acc2986c1d0c407bf99cc66fc3105067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:35 +0000
Subject: [PATCH 28/45] fix: a declaration in the last line without line break
 was refused

---
 circuitcompiler/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/circuitcompiler/parser.go b/circuitcompiler/parser.go
index ca280a1..255437b 100644
--- a/circuitcompiler/parser.go
+++ b/circuitcompiler/parser.go
@@ -683,7 +683,11 @@ func (p *Parser) stackAllTokens() []Token {
 	if p.lexer.Err != nil {
 		panic(fmt.Sprintf("%v at line %v", p.lexer.Err, p.lexer.currentLine))
 	}
+	//the last line of a text may lack its line break
 	stack = append(stack, Token{
+		Type:       SyntaxToken,
+		Identifier: "\n",
+	}, Token{
 		Type: EOF,
 	})
 	return stack
-- 
2.43.0


From 40b83cc8fd664e3f55ee17a16402636ce16b0737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:11 +0000
Subject: [PATCH 29/45] fix: the bits of a split value could not be accessed,
 and scaled values were split without their factor

---
 circuitcompiler/Programm.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index 90e8076..1d16299 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -382,9 +382,13 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 			//prepare input number Z
 			arg := currentConstraint.Inputs[0].clone()
 			in, _, _ := currentCircuit.compile(arg, gateCollector)
-			if len(in) != 1 {
+			if len(in) != 1 || in[0].typ.Type == NumberToken || in[0].multiplicative.Cmp(bigOne) != 0 {
 				panic("arguments in split must be pure")
 			}
+			name := arg.Output.Identifier
+			if arg.Output.Type == ARRAY_CALL {
+				name = currentCircuit.resolveArrayName(arg)
+			}
 
 			//hmm what is this actually good for
 			//sig := hashFactorsToBig(in).String()[:16]
@@ -414,8 +418,10 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 					typ:            nTok,
 					multiplicative: new(big.Int).Lsh(bigOne, uint(i)),
 				}
-				// we need to add the bits during precompilations so we can access them like from an array
-				//	currentCircuit.constraintMap
+				//the bits can be accessed like the elements of an array
+				element := fmt.Sprintf("%s[%v]", name, i)
+				currentCircuit.functions[element] = sum[i].typ.primitiveReturnfunction()
+				currentCircuit.constraintMap[element] = &Constraint{Output: Token{Type: FUNCTION_CALL, Identifier: element}}
 			}
 			//add the sum constraint \sum Z_i 2^i = Z to ensure that the Zi are the bit representation of Z
 
-- 
2.43.0


From a4443dfb9ffbf52a937da0b8a899a955e94d35d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:11 +0000
Subject: [PATCH 30/45] fix: dividing by a constantly zero expression gave zero

---
 circuitcompiler/Programm.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index 1d16299..913acc0 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -588,6 +588,9 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 				rightFactors = currentCircuit.compileNumber(right, gateCollector)
 
 				if rightFactors.isSingleNumber() { // (x1+x2..)/6
+					if field.Equal(rightFactors[0].multiplicative, bigZero) {
+						panic("division by zero")
+					}
 					return mulFactors(leftFactors, invertFactors(rightFactors)), currentConstraint.Output.Type == RETURN, function{}
 				}
 
-- 
2.43.0


From 6473674deb0b7b3bd52c4ffbd6e725d192b1d92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:15 +0000
Subject: [PATCH 31/45] fix: files that import each other recursed until the
 process died

---
 circuitcompiler/parser.go | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/circuitcompiler/parser.go b/circuitcompiler/parser.go
index 255437b..a326879 100644
--- a/circuitcompiler/parser.go
+++ b/circuitcompiler/parser.go
@@ -132,6 +132,32 @@ func (p *Program) checkPublicInputs() {
 	}
 }
 
+//importTokens returns the tokens of the file without EOF, with the imports of the file already resolved
+func (p *Parser) importTokens(file string, importedBy ...string) []Token {
+	for _, importer := range importedBy {
+		if importer == file {
+			panic(fmt.Sprintf("%v imports itself", file))
+		}
+	}
+	dat, err := ioutil.ReadFile(file)
+	if err != nil {
+		panic(err)
+	}
+	tmpParser := newParser(string(dat), false)
+	t := tmpParser.stackAllTokens()
+	t = t[:len(t)-1]
+	for i := 0; i+1 < len(t); i++ {
+		startsStatement := i == 0 || t[i-1].Identifier == "\n" || t[i-1].Identifier == "{" || t[i-1].Identifier == "}"
+		if t[i].Type == IMPORT && startsStatement && t[i+1].Type == IDENTIFIER_VARIABLE {
+			imported := p.importTokens(t[i+1].Identifier, append(importedBy, file)...)
+			rest := t[i+2:]
+			t = append(append(append([]Token{}, t[:i]...), imported...), rest...)
+			i += len(imported) - 1
+		}
+	}
+	return t
+}
+
 func (p *Parser) statementMode(tokens []Token) {
 
 	tokens = removeLeadingAndTrailingBreaks(tokens)
@@ -165,14 +191,8 @@ func (p *Parser) statementMode(tokens []Token) {
 			p.error("import failed")
 		}
 
-		dat, err := ioutil.ReadFile(tokens[1].Identifier)
-		if err != nil {
-			panic(err)
-		}
-		tmpParser := newParser(string(dat), false)
-		t := tmpParser.stackAllTokens()
-		//we glue em together, but remove the EOF from t first
-		p.statementMode(append(t[:len(t)-1], tokens[2:]...))
+		//we glue em together
+		p.statementMode(append(p.importTokens(tokens[1].Identifier), tokens[2:]...))
 	case FUNCTION_DEFINE:
 		toks := Tokens{toks: tokens}
 		var tok = toks.next() //func
-- 
2.43.0


From cda00166969a1465892b3fba79b3151c9d2a54b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:27 +0000
Subject: [PATCH 32/45] fix: a recursion without end exhausted the stack and
 ended the process

---
 circuitcompiler/Programm.go | 33 +++++++++++++++++++++++++--------
 circuitcompiler/circuit.go  |  6 +++---
 circuitcompiler/parser.go   |  2 +-
 3 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index 913acc0..e73278f 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -11,8 +11,12 @@ type gateContainer struct {
 	orderedmGates    []*Gate
 	computedFactors  map[string]bool
 	splittedElements map[string][]string
+	callDepth        int //number of function bodies that are currently being executed within each other
 }
 
+//a program whose recursion does not end is refused before it exhausts the stack and ends the process
+const maxCallDepth = 10000
+
 func newGateContainer() *gateContainer {
 	return &gateContainer{
 		orderedmGates:    []*Gate{},
@@ -21,6 +25,13 @@ func newGateContainer() *gateContainer {
 	}
 }
 
+//scratch returns a container for gates that are thrown away
+func (g *gateContainer) scratch() *gateContainer {
+	s := newGateContainer()
+	s.callDepth = g.callDepth
+	return s
+}
+
 func (g *gateContainer) completeFunction(f factors) {
 
 	//if len f is 1, we can simpl
@@ -157,13 +168,13 @@ func (currentCircuit *function) getsLoadedWith(newInputs []*function) (allArgume
 }
 
 //helper function
-func (currentCircuit *function) resolveArrayName(c *Constraint) string {
+func (currentCircuit *function) resolveArrayName(c *Constraint, gateCollector *gateContainer) string {
 	var arrayIdentifier = c.Output.Identifier
 	//if len(c.Inputs) < 1 {
 	//	panic("accessing array index failed")
 	//}
 	for _, in := range c.Inputs {
-		indexFactors, _, _ := currentCircuit.compile(in, newGateContainer())
+		indexFactors, _, _ := currentCircuit.compile(in, gateCollector.scratch())
 		if !indexFactors.isSingleNumber() {
 			panic("cannot access array dynamically in an arithmetic circuit currently")
 		}
@@ -197,10 +208,16 @@ func (p *Program) Execute() (orderedmGates []*Gate) {
 
 func (currentCircuit *function) execute(gateCollector *gateContainer) (facs factors, returned bool, preloadedFunction function) {
 
+	gateCollector.callDepth++
+	defer func() { gateCollector.callDepth-- }()
+	if gateCollector.callDepth > maxCallDepth {
+		panic("recursion does not end")
+	}
+
 	for _, task := range currentCircuit.taskStack.data {
 		//the IF tasks of a function are the branches of one if-else chain, at most one of them is taken
 		if task.Output.Type == IF {
-			if len(task.Inputs) == 0 || currentCircuit.checkStaticCondition(task.Inputs[0]) {
+			if len(task.Inputs) == 0 || currentCircuit.checkStaticCondition(task.Inputs[0], gateCollector) {
 				branch := &Constraint{Output: Token{Type: IF_FUNCTION_CALL, Identifier: task.Output.Identifier}}
 				return currentCircuit.compile(branch, gateCollector)
 			}
@@ -263,7 +280,7 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 
 	case FOR:
 		//we check the condition each time we rerun the loop
-		for currentCircuit.checkStaticCondition(currentConstraint.Inputs[0]) {
+		for currentCircuit.checkStaticCondition(currentConstraint.Inputs[0], gateCollector) {
 			body, ex := currentCircuit.findFunctionInBloodline(currentConstraint.Output.Identifier)
 			if !ex {
 				panic(fmt.Sprintf("function %s not declared", currentConstraint.Output.Identifier))
@@ -317,7 +334,7 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 
 		if currentConstraint.Inputs[0].Output.Type == ARRAY_CALL {
 			// myArray[7*3] = expression
-			toOverloadIdentifier = currentCircuit.resolveArrayName(currentConstraint.Inputs[0])
+			toOverloadIdentifier = currentCircuit.resolveArrayName(currentConstraint.Inputs[0], gateCollector)
 			//myArray[21] = expression
 		}
 
@@ -338,7 +355,7 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 		return facs, false, function{}
 
 	case ARRAY_CALL:
-		resolvedName := currentCircuit.resolveArrayName(currentConstraint)
+		resolvedName := currentCircuit.resolveArrayName(currentConstraint, gateCollector)
 		if con, ex := currentCircuit.findConstraintInBloodline(resolvedName); ex {
 			a, _, fkt := currentCircuit.compile(con, gateCollector)
 			return a, false, fkt
@@ -346,7 +363,7 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 			panic(fmt.Sprintf("array %s not declared", resolvedName))
 		}
 	case IF:
-		if len(currentConstraint.Inputs) == 0 || currentCircuit.checkStaticCondition(currentConstraint.Inputs[0]) {
+		if len(currentConstraint.Inputs) == 0 || currentCircuit.checkStaticCondition(currentConstraint.Inputs[0], gateCollector) {
 			return currentCircuit.compile(&Constraint{
 				Output: Token{
 					Type:       IF_FUNCTION_CALL,
@@ -387,7 +404,7 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 			}
 			name := arg.Output.Identifier
 			if arg.Output.Type == ARRAY_CALL {
-				name = currentCircuit.resolveArrayName(arg)
+				name = currentCircuit.resolveArrayName(arg, gateCollector)
 			}
 
 			//hmm what is this actually good for
diff --git a/circuitcompiler/circuit.go b/circuitcompiler/circuit.go
index 32da82d..ec6ea35 100644
--- a/circuitcompiler/circuit.go
+++ b/circuitcompiler/circuit.go
@@ -397,14 +397,14 @@ func (circ *function) restore(keys []string) {
 	circ.constraintMap = tmp
 }
 
-func (currentCircuit *function) checkStaticCondition(c *Constraint) (isSatisfied bool) {
+func (currentCircuit *function) checkStaticCondition(c *Constraint, gateCollector *gateContainer) (isSatisfied bool) {
 	//unelegant...
 
 	var factorsA, factorsB factors
 	var A, B *big.Int
 
-	factorsA, _, _ = currentCircuit.compile(c.Inputs[1], newGateContainer())
-	factorsB, _, _ = currentCircuit.compile(c.Inputs[2], newGateContainer())
+	factorsA, _, _ = currentCircuit.compile(c.Inputs[1], gateCollector.scratch())
+	factorsB, _, _ = currentCircuit.compile(c.Inputs[2], gateCollector.scratch())
 
 	A = factorsA[0].multiplicative
 	B = factorsB[0].multiplicative
diff --git a/circuitcompiler/parser.go b/circuitcompiler/parser.go
index a326879..e310c81 100644
--- a/circuitcompiler/parser.go
+++ b/circuitcompiler/parser.go
@@ -100,7 +100,7 @@ out:
 	}
 	for _, constraint := range parsed {
 		if constraint.Output.Type == PUBLIC {
-			a := p.GetMainCircuit().resolveArrayName(constraint)
+			a := p.GetMainCircuit().resolveArrayName(constraint, newGateContainer())
 			p.PublicInputs = append(p.PublicInputs, a)
 		}
 		if checkSemantics {
-- 
2.43.0


From b3bb0df97e273603709aa6f1b1dcde809c1953a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:17 +0000
Subject: [PATCH 33/45] fix: functions without a name or with the name of a
 builtin function were accepted and never called

---
 circuitcompiler/circuit.go | 4 ++++
 circuitcompiler/parser.go  | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/circuitcompiler/circuit.go b/circuitcompiler/circuit.go
index ec6ea35..be7793a 100644
--- a/circuitcompiler/circuit.go
+++ b/circuitcompiler/circuit.go
@@ -211,6 +211,10 @@ func (currentCircuit *function) preCompile(constraintStack []*Constraint) {
 		if _, ex := currentCircuit.functions[currentConstraint.Output.Identifier]; ex {
 			panic(fmt.Sprintf("function %s already declared", currentConstraint.Output.Identifier))
 		}
+		switch currentConstraint.Output.Identifier {
+		case "BREAK", "SPLIT", "AND", "NAND", "OR", "NOT", "addGateConstraint", "scalarBaseMultiply", "equal":
+			panic(fmt.Sprintf("function %s already exists, it would never be called", currentConstraint.Output.Identifier))
+		}
 		if _, ex := currentCircuit.constraintMap[currentConstraint.Output.Identifier]; ex {
 			panic(fmt.Sprintf("function %s overloads variable with same name", currentConstraint.Output.Identifier))
 		}
diff --git a/circuitcompiler/parser.go b/circuitcompiler/parser.go
index e310c81..e68e391 100644
--- a/circuitcompiler/parser.go
+++ b/circuitcompiler/parser.go
@@ -197,6 +197,9 @@ func (p *Parser) statementMode(tokens []Token) {
 		toks := Tokens{toks: tokens}
 		var tok = toks.next() //func
 		tok = toks.next()     //function name
+		if tok.Type != FUNCTION_CALL && tok.Type != IDENTIFIER_VARIABLE {
+			p.error("function name expected, got %v ", tok)
+		}
 
 		FuncConstraint := &Constraint{
 			Output: Token{Type: FUNCTION_DEFINE, Identifier: tok.Identifier},
-- 
2.43.0


From d5a8799be18471496f94c26858e1f8bf2b8daeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:48 +0000
Subject: [PATCH 34/45] fix: a variable of main holding main itself made the
 compiler copy functions without end and ended the process

---
 circuitcompiler/Programm.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index e73278f..1187bea 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -194,7 +194,8 @@ func (currentCircuit *function) resolveArrayName(c *Constraint, gateCollector *g
 func (p *Program) Execute() (orderedmGates []*Gate) {
 
 	container := newGateContainer()
-	mainCircuit := p.GetMainCircuit()
+	//like every other function main is executed on a copy, else its variables could hold main itself and copying them would never end
+	mainCircuit := p.GetMainCircuit().flatCopy()
 
 	for i := 0; i < mainCircuit.taskStack.len(); i++ {
 		f, returns, _ := mainCircuit.compile(mainCircuit.taskStack.data[i], container)
-- 
2.43.0


From e38180144302ea34865fdb29873882f3f835babd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:55 +0000
Subject: [PATCH 35/45] fix: an unknown input replaced the constant one of the
 witness, and values outside of the field were taken over

---
 circuitcompiler/ER1CS.go | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/circuitcompiler/ER1CS.go b/circuitcompiler/ER1CS.go
index 6f8bc28..85aca58 100644
--- a/circuitcompiler/ER1CS.go
+++ b/circuitcompiler/ER1CS.go
@@ -138,6 +138,31 @@ func (er1cs *ER1CSsPARSETransposed) ER1CSToEAPSparse() (lPoly, rPoly, ePoly, oPo
 	return
 }
 
+//setInputs writes the inputs to their positions in the witness. Inputs the system does not know, contradicting ones
+//and values that are no field elements have no position in it
+func setInputs(indexMap map[string]int, input []InputArgument, witness []*big.Int, set []bool) error {
+	given := make(map[string]*big.Int)
+	for _, v := range input {
+		index, ex := indexMap[v.identifier]
+		if !ex {
+			return fmt.Errorf("there is no input %v", v.identifier)
+		}
+		if v.value == nil || v.value.Sign() < 0 || v.value.Cmp(field.Q) >= 0 {
+			return fmt.Errorf("value %v of input %v is no field element", v.value, v.identifier)
+		}
+		if old, ex := given[v.identifier]; ex && old.Cmp(v.value) != 0 {
+			return fmt.Errorf("input %v is given twice", v.identifier)
+		}
+		if index == 0 && v.value.Cmp(witness[0]) != 0 {
+			return fmt.Errorf("input %v is the constant one", v.identifier)
+		}
+		given[v.identifier] = v.value
+		witness[index] = v.value
+		set[index] = true
+	}
+	return nil
+}
+
 //Calculates the witness (program trace) given some extended rank 1 constraint system
 //asserts that ER1CS has been computed and is stored in the program p memory calling this function
 func CalculateWitness(r1cs *ER1CS, input []InputArgument) (witness []*big.Int, err error) {
@@ -161,9 +186,8 @@ func CalculateWitness(r1cs *ER1CS, input []InputArgument) (witness []*big.Int, e
 		set[r1cs.indexMap[randInput]] = true
 	}
 
-	for _, v := range input {
-		setWitness(r1cs.indexMap[v.identifier], v.value)
-		set[r1cs.indexMap[v.identifier]] = true
+	if err = setInputs(r1cs.indexMap, input, witness, set); err != nil {
+		return nil, err
 	}
 
 	//inverseSplitmap maps each bit index onto (bitposition,positionOfFather)
@@ -313,9 +337,8 @@ func CalculateSparseWitness(r1cs *ER1CSSparse, input []InputArgument) (witness [
 		set[r1cs.indexMap[randInput]] = true
 	}
 
-	for _, v := range input {
-		witness[r1cs.indexMap[v.identifier]] = v.value
-		set[r1cs.indexMap[v.identifier]] = true
+	if err = setInputs(r1cs.indexMap, input, witness, set); err != nil {
+		return nil, err
 	}
 
 	//inverseSplitmap maps each bit index onto (bitposition,positionOfFather)
-- 
2.43.0


From 4691916072c28fbc669941af7aa9e81bf8504783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:50 +0000
Subject: [PATCH 36/45] fix: a witness with values that are neither given nor
 determined was returned without an error

---
 circuitcompiler/ER1CS.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/circuitcompiler/ER1CS.go b/circuitcompiler/ER1CS.go
index 85aca58..02d2c40 100644
--- a/circuitcompiler/ER1CS.go
+++ b/circuitcompiler/ER1CS.go
@@ -316,6 +316,11 @@ func CalculateWitness(r1cs *ER1CS, input []InputArgument) (witness []*big.Int, e
 
 	}
 
+	for i, known := range set {
+		if !known {
+			return nil, fmt.Errorf("value at position %v of the witness is neither given nor determined by a gate", i)
+		}
+	}
 	return
 }
 
@@ -474,5 +479,10 @@ func CalculateSparseWitness(r1cs *ER1CSSparse, input []InputArgument) (witness [
 
 	}
 
+	for i, known := range set {
+		if !known {
+			return nil, fmt.Errorf("value at position %v of the witness is neither given nor determined by a gate", i)
+		}
+	}
 	return
 }
-- 
2.43.0


From 5b576ba599e15952d03be45da4380faf63e5dc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:50 +0000
Subject: [PATCH 37/45] fix: the sparse transposed constraint system was
 interpolated over as many points as it has columns instead of its gates

---
 circuitcompiler/ER1CS.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/circuitcompiler/ER1CS.go b/circuitcompiler/ER1CS.go
index 02d2c40..5d96818 100644
--- a/circuitcompiler/ER1CS.go
+++ b/circuitcompiler/ER1CS.go
@@ -127,13 +127,13 @@ func (er1cs *ER1CSsPARSETransposed) ER1CSToEAPSparse() (lPoly, rPoly, ePoly, oPo
 	eT := er1cs.E
 	oT := er1cs.O
 	for i := 0; i < len(lT); i++ {
-		lPoly = append(lPoly, utils.Field.ArithmeticField.InterpolateSparseArray(lT[i], er1cs.WitnessLength))
+		lPoly = append(lPoly, utils.Field.ArithmeticField.InterpolateSparseArray(lT[i], er1cs.NumberOfGates))
 
-		rPoly = append(rPoly, utils.Field.ArithmeticField.InterpolateSparseArray(rT[i], er1cs.WitnessLength))
+		rPoly = append(rPoly, utils.Field.ArithmeticField.InterpolateSparseArray(rT[i], er1cs.NumberOfGates))
 
-		ePoly = append(ePoly, utils.Field.ArithmeticField.InterpolateSparseArray(eT[i], er1cs.WitnessLength))
+		ePoly = append(ePoly, utils.Field.ArithmeticField.InterpolateSparseArray(eT[i], er1cs.NumberOfGates))
 
-		oPoly = append(oPoly, utils.Field.ArithmeticField.InterpolateSparseArray(oT[i], er1cs.WitnessLength))
+		oPoly = append(oPoly, utils.Field.ArithmeticField.InterpolateSparseArray(oT[i], er1cs.NumberOfGates))
 	}
 	return
 }
-- 
2.43.0


From 758498ffadc52dcc9c281cf02cee4507abd472f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:42 +0000
Subject: [PATCH 38/45] fix: gates were changed while the constraint system was
 derived from them

---
 circuitcompiler/Programm.go | 40 ++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index 1187bea..78f6bcb 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -719,10 +719,10 @@ func (p *Program) GatesToR1CS(mGates []*Gate, randomize bool) (r1CS *ER1CS) {
 	for _, g := range mGates {
 		//we want to reduce the number of exponentiations in the slower group G2
 		//since a*b = b*a, we swap in case
-		if len(g.rightIns) > len(g.leftIns) {
-			tmp := g.rightIns
-			g.rightIns = g.leftIns
-			g.leftIns = tmp
+		//the gates themselves stay as they are, others may read them
+		leftIns, rightIns := g.leftIns, g.rightIns
+		if len(rightIns) > len(leftIns) {
+			leftIns, rightIns = rightIns, leftIns
 		}
 
 		switch g.gateType {
@@ -732,11 +732,11 @@ func (p *Program) GatesToR1CS(mGates []*Gate, randomize bool) (r1CS *ER1CS) {
 			eConstraint := utils.ArrayOfBigZeros(size)
 			cConstraint := utils.ArrayOfBigZeros(size)
 
-			for _, val := range g.leftIns {
+			for _, val := range leftIns {
 				insertValue(val, aConstraint)
 			}
 
-			for _, val := range g.rightIns {
+			for _, val := range rightIns {
 				insertValue(val, bConstraint)
 			}
 
@@ -776,11 +776,11 @@ func (p *Program) GatesToR1CS(mGates []*Gate, randomize bool) (r1CS *ER1CS) {
 			eConstraint := utils.ArrayOfBigZeros(size)
 			cConstraint := utils.ArrayOfBigZeros(size)
 
-			for _, val := range g.leftIns {
+			for _, val := range leftIns {
 				insertValue(val, aConstraint)
 			}
 
-			for _, val := range g.rightIns {
+			for _, val := range rightIns {
 				insertValue(val, cConstraint)
 			}
 
@@ -812,7 +812,7 @@ func (p *Program) GatesToR1CS(mGates []*Gate, randomize bool) (r1CS *ER1CS) {
 			eConstraint := utils.ArrayOfBigZeros(size)
 			cConstraint := utils.ArrayOfBigZeros(size)
 
-			for _, val := range g.leftIns {
+			for _, val := range leftIns {
 				insertValue(val, aConstraint)
 			}
 			bConstraint[0] = big.NewInt(int64(1))
@@ -830,7 +830,7 @@ func (p *Program) GatesToR1CS(mGates []*Gate, randomize bool) (r1CS *ER1CS) {
 			eConstraint := utils.ArrayOfBigZeros(size)
 			cConstraint := utils.ArrayOfBigZeros(size)
 
-			for _, val := range g.leftIns {
+			for _, val := range leftIns {
 				insertValue(val, aConstraint)
 			}
 			bConstraint[0] = big.NewInt(int64(1))
@@ -928,10 +928,10 @@ func (p *Program) GatesToSparseR1CS(mGates []*Gate, randomize bool) (r1CS *ER1CS
 	for _, g := range mGates {
 		//we want to reduce the number of exponentiations in the slower group G2
 		//since a*b = b*a, we swap in case
-		if len(g.rightIns) > len(g.leftIns) {
-			tmp := g.rightIns
-			g.rightIns = g.leftIns
-			g.leftIns = tmp
+		//the gates themselves stay as they are, others may read them
+		leftIns, rightIns := g.leftIns, g.rightIns
+		if len(rightIns) > len(leftIns) {
+			leftIns, rightIns = rightIns, leftIns
 		}
 
 		switch g.gateType {
@@ -941,11 +941,11 @@ func (p *Program) GatesToSparseR1CS(mGates []*Gate, randomize bool) (r1CS *ER1CS
 			eConstraint := utils.NewAvlTree()
 			cConstraint := utils.NewAvlTree()
 
-			for _, val := range g.leftIns {
+			for _, val := range leftIns {
 				insertValue(val, aConstraint)
 			}
 
-			for _, val := range g.rightIns {
+			for _, val := range rightIns {
 				insertValue(val, bConstraint)
 			}
 
@@ -964,7 +964,7 @@ func (p *Program) GatesToSparseR1CS(mGates []*Gate, randomize bool) (r1CS *ER1CS
 			eConstraint := utils.NewAvlTree()
 			cConstraint := utils.NewAvlTree()
 
-			for _, val := range g.leftIns {
+			for _, val := range leftIns {
 				insertValue(val, aConstraint)
 			}
 			bConstraint.Insert(uint(0), big.NewInt(int64(1)))
@@ -984,7 +984,7 @@ func (p *Program) GatesToSparseR1CS(mGates []*Gate, randomize bool) (r1CS *ER1CS
 			eConstraint := utils.NewAvlTree()
 			cConstraint := utils.NewAvlTree()
 
-			for _, val := range g.leftIns {
+			for _, val := range leftIns {
 				insertValue(val, aConstraint)
 			}
 			bConstraint.Insert(uint(0), big.NewInt(int64(1)))
@@ -1034,11 +1034,11 @@ func (p *Program) GatesToSparseR1CS(mGates []*Gate, randomize bool) (r1CS *ER1CS
 			eConstraint := utils.NewAvlTree()
 			cConstraint := utils.NewAvlTree()
 
-			for _, val := range g.leftIns {
+			for _, val := range leftIns {
 				insertValue(val, aConstraint)
 			}
 
-			for _, val := range g.rightIns {
+			for _, val := range rightIns {
 				insertValue(val, cConstraint)
 			}
 
-- 
2.43.0


From 650840184faecb6d2b281262198ba597971ae3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:36 +0000
Subject: [PATCH 39/45] fix: proving a program of one gate panicked in the
 dense representation

---
 zkSNARK/wol19.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zkSNARK/wol19.go b/zkSNARK/wol19.go
index e9d5d29..98ab013 100644
--- a/zkSNARK/wol19.go
+++ b/zkSNARK/wol19.go
@@ -384,9 +384,10 @@ func GenerateProofs(publicInputs int, provingKey *Pk, witnessTrace []*big.Int, P
 		panic("remainder supposed to be 0")
 	}
 
-	var QxDx_div_delta = new(bn256.G1).ScalarMult(provingKey.G1.PowersX_Domain_Delta[0], Qx[0])
+	//Q(x) has no coefficients if there is only one gate
+	var QxDx_div_delta = g1ScalarBaseMultiply(big.NewInt(0))
 
-	for i := 1; i < len(Qx); i++ {
+	for i := 0; i < len(Qx); i++ {
 		tmp := new(bn256.G1).ScalarMult(provingKey.G1.PowersX_Domain_Delta[i], Qx[i])
 		QxDx_div_delta.Add(QxDx_div_delta, tmp)
 	}
-- 
2.43.0


From ae173241a21be8a20ec387bdd2590345dd5dfa86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:55 +0000
Subject: [PATCH 40/45] fix: the bits of a value that is not given were taken
 as zero, and the value with them

---
 circuitcompiler/ER1CS.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/circuitcompiler/ER1CS.go b/circuitcompiler/ER1CS.go
index 5d96818..822086a 100644
--- a/circuitcompiler/ER1CS.go
+++ b/circuitcompiler/ER1CS.go
@@ -214,7 +214,7 @@ func CalculateWitness(r1cs *ER1CS, input []InputArgument) (witness []*big.Int, e
 
 			if val.Cmp(zero) != 0 {
 				if !set[j] {
-					if bitPosAndFather, exists := inverseSplitmap[j]; exists {
+					if bitPosAndFather, exists := inverseSplitmap[j]; exists && set[bitPosAndFather[1]] {
 						bit := big.NewInt(int64(witness[bitPosAndFather[1]].Bit(int(bitPosAndFather[0]))))
 						setWitness(j, bit)
 						set[j] = true
@@ -368,7 +368,7 @@ func CalculateSparseWitness(r1cs *ER1CSSparse, input []InputArgument) (witness [
 		knowns = utils.NewAvlTree()
 		for val := range array.ChannelNodes(true) {
 			if !set[val.Key] {
-				if bitPosAndFather, exists := inverseSplitmap[int(val.Key)]; exists {
+				if bitPosAndFather, exists := inverseSplitmap[int(val.Key)]; exists && set[bitPosAndFather[1]] {
 					bit := big.NewInt(int64(witness[bitPosAndFather[1]].Bit(int(bitPosAndFather[0]))))
 					witness[val.Key] = bit
 					set[val.Key] = true
-- 
2.43.0


From bb7200c867068b41bd4ee8afcac6064500409c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:23 +0000
Subject: [PATCH 41/45] fix: random field elements could be zero, which has no
 inverse and makes a setup unusable

---
 utils/finiteField.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/utils/finiteField.go b/utils/finiteField.go
index 7ea522e..9079e1c 100644
--- a/utils/finiteField.go
+++ b/utils/finiteField.go
@@ -208,15 +208,19 @@ func (fq Fq) Rand() (*big.Int, error) {
 	b := make([]byte, (maxbits/8)-1)
 	// b := make([]byte, 3)
 	// b := make([]byte, 3)
-	_, err := rand.Read(b)
-	if err != nil {
-		return nil, err
-	}
-	r := new(big.Int).SetBytes(b)
-	rq := new(big.Int).Mod(r, fq.Q)
+	for {
+		_, err := rand.Read(b)
+		if err != nil {
+			return nil, err
+		}
+		r := new(big.Int).SetBytes(b)
+		rq := new(big.Int).Mod(r, fq.Q)
 
-	// return r over q, nil
-	return rq, nil
+		//zero is useless as a secret and has no inverse
+		if rq.Sign() > 0 {
+			return rq, nil
+		}
+	}
 }
 
 func (fq Fq) IsZero(a *big.Int) bool {
-- 
2.43.0


From 53465a678169996bba1dbb01775032a9d19573a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:32 +0000
Subject: [PATCH 42/45] fix: the verifier panicked on a proof with missing
 elements

---
 zkSNARK/wol19.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zkSNARK/wol19.go b/zkSNARK/wol19.go
index 98ab013..1525b03 100644
--- a/zkSNARK/wol19.go
+++ b/zkSNARK/wol19.go
@@ -464,6 +464,10 @@ func GenerateProof_Sparse(publicInputs int, provingKey *Pk, witnessTrace []*big.
 func VerifyProof(pk *Pk, proof *Proof, publicSignals []*big.Int, debug bool) bool {
 	//note that the trivial cases should be rejected to
 
+	if proof == nil || proof.PiA == nil || proof.PiB == nil || proof.PiC == nil || proof.PiF == nil {
+		fmt.Println("❌ wolf19 verification not passed. Proof incomplete")
+		return false
+	}
 	if len(publicSignals) != len(pk.G1.RLEO_Gamma) {
 		fmt.Println("❌ wolf19 verification not passed. Signal length wrong")
 		return false
-- 
2.43.0


From 513188a63075e501703f12f9656ee194610470ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:33 +0000
Subject: [PATCH 43/45] fix: the verifier accepted signals outside of the field
 in place of others, and any number in place of the constant one

---
 zkSNARK/wol19.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/zkSNARK/wol19.go b/zkSNARK/wol19.go
index 1525b03..f30bd4c 100644
--- a/zkSNARK/wol19.go
+++ b/zkSNARK/wol19.go
@@ -472,6 +472,13 @@ func VerifyProof(pk *Pk, proof *Proof, publicSignals []*big.Int, debug bool) boo
 		fmt.Println("❌ wolf19 verification not passed. Signal length wrong")
 		return false
 	}
+	//otherwise a proof for v would be accepted for v+Q, and for negative values
+	for i, v := range publicSignals {
+		if v == nil || v.Sign() < 0 || v.Cmp(utils.Field.ArithmeticField.Q) >= 0 || (i == 0 && v.Cmp(big.NewInt(1)) != 0) {
+			fmt.Println("❌ wolf19 verification not passed. Signal is no field element")
+			return false
+		}
+	}
 
 	icPubl := new(bn256.G1).ScalarMult(pk.G1.RLEO_Gamma[0], publicSignals[0])
 	for i := 1; i < len(publicSignals); i++ {
-- 
2.43.0


From 98e4a2901cf1df2cdb685f6ccfa8f3166c624b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:09 +0000
Subject: [PATCH 44/45] fix: a failing entropy source ended the process instead
 of being reported

---
 utils/finiteField.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utils/finiteField.go b/utils/finiteField.go
index 9079e1c..26fb5e0 100644
--- a/utils/finiteField.go
+++ b/utils/finiteField.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"crypto/rand"
 	bn256 "github.com/mottla/go-AlgebraicProgram-SNARK/pairing"
+	"io"
 	"math/big"
 	"sync"
 )
@@ -209,7 +210,8 @@ func (fq Fq) Rand() (*big.Int, error) {
 	// b := make([]byte, 3)
 	// b := make([]byte, 3)
 	for {
-		_, err := rand.Read(b)
+		//rand.Read ends the whole process instead of returning the error of a failing source
+		_, err := io.ReadFull(rand.Reader, b)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 0d2907fd0c5d9b498a49282cb8d8696cb6293185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:41 +0000
Subject: [PATCH 45/45] fix: refuse texts whose brackets do not match

The helper that looks for a closing bracket took the opening one as optional,
so that callers which had consumed it accepted a second, never closed one
(func main((x){, func main(x){{, for (i<3; (i=i+1){, a[[1]), and anything but a
bracket at the start of an operand was cut off with a surplus closing one.
---
 circuitcompiler/parser.go | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/circuitcompiler/parser.go b/circuitcompiler/parser.go
index e68e391..d7930c0 100644
--- a/circuitcompiler/parser.go
+++ b/circuitcompiler/parser.go
@@ -180,7 +180,7 @@ func (p *Parser) statementMode(tokens []Token) {
 		//NOTE THAT WE GOT ERROR WHEN USING &Constraint{} instead of Constraint{}, dont understand why
 		buffer := Constraint{}
 
-		rest := p.argumentParse(toks.toks, splitAtClosingSwingBrackets, &buffer)
+		rest := p.argumentParse(tokens[1:], splitAtClosingSwingBrackets, &buffer)
 		for _, publicInput := range buffer.Inputs {
 			publicInput.Output.Type = PUBLIC
 			p.constraintChan <- publicInput
@@ -210,7 +210,7 @@ func (p *Parser) statementMode(tokens []Token) {
 			p.error("Function expected, got %v ", tok)
 		}
 
-		rest := p.argumentParse(toks.toks, splitAtClosingBrackets, FuncConstraint)
+		rest := p.argumentParse(tokens[2:], splitAtClosingBrackets, FuncConstraint)
 		var FuncConstraintInputs []*Constraint
 		for _, v := range FuncConstraint.Inputs {
 
@@ -251,7 +251,7 @@ func (p *Parser) statementMode(tokens []Token) {
 			p.error("invalid function declaration, got %v : %v", tok.Identifier, tok.Type)
 		}
 		p.constraintChan <- FuncConstraint
-		l, r, b := splitAtClosingSwingBrackets(toks.toks)
+		l, r, b := splitAtClosingSwingBrackets(rest)
 		if !b {
 			panic("closing brackets missing")
 		}
@@ -339,7 +339,7 @@ func (p *Parser) statementMode(tokens []Token) {
 		r = r[1:]
 		p.parseExpression(l, ForConst)
 		//a = a+1)
-		l, r, success = splitAtClosingBrackets(r)
+		l, r, success = splitAtClosingBrackets(append([]Token{tokens[1]}, r...))
 		if !success {
 			p.error("closing brackets missing")
 		}
@@ -367,7 +367,7 @@ func (p *Parser) statementMode(tokens []Token) {
 		if r[0].Identifier != "{" {
 			p.error("brackets '{' missing, got %v", r[0])
 		}
-		l, r, success = splitAtClosingSwingBrackets(r[1:])
+		l, r, success = splitAtClosingSwingBrackets(r)
 		if !success {
 			p.error("closing brackets missing")
 		}
@@ -581,14 +581,14 @@ func (p *Parser) parseExpression(stack []Token, constraint *Constraint) {
 		return
 	}
 
-	if stack[1].Identifier == "[" && stack[len(stack)-1].Identifier == "]" {
+	if stack[0].Type == IDENTIFIER_VARIABLE && stack[1].Identifier == "[" && stack[len(stack)-1].Identifier == "]" {
 		rtok := Token{
 			Type:       ARRAY_CALL,
 			Identifier: stack[0].Identifier,
 		}
 		cr := &Constraint{Output: rtok}
 		constraint.Inputs = append(constraint.Inputs, cr)
-		l, r, _ := splitAtClosingSquareBrackets(stack[2:])
+		l, r, _ := splitAtClosingSquareBrackets(stack[1:])
 		p.parseExpression(l, cr)
 		for len(r) != 0 {
 			if r[0].Identifier != "[" {
@@ -847,11 +847,11 @@ func isSurroundedByBrackets(in []Token) bool {
 }
 
 //splitAtClosingBrackets takes token array asserting that the opening brackets
-//are not contained! Returns the slices without the closing bracket in an of them!
+//are contained! Returns the slices without the opening and closing bracket in any of them!
 //note that this behaviour differs from splitTokensAtFirstString
-//example "asdf)jkl" -> "asdf" ,"jkl" ,true
-//"(asdf)jkl" -> nil,nil,false
-//"(asdf))jkl" -> "(asdf)","jkl",true
+//example "(asdf)jkl" -> "asdf" ,"jkl" ,true
+//"asdf)jkl" -> nil,nil,false
+//"((asdf)jkl" -> nil,nil,false
 func splitAtClosingBrackets(in []Token) (cutLeft, cutRight []Token, success bool) {
 	return splitAtClosingStringBrackets(in, "(", ")")
 }
@@ -863,12 +863,10 @@ func splitAtClosingSquareBrackets(in []Token) (cutLeft, cutRight []Token, succes
 }
 
 func splitAtClosingStringBrackets(in []Token, open, close string) (cutLeft, cutRight []Token, success bool) {
-	ctr := 0
-	start := 1
-	if in[0].Identifier != open {
-		ctr = 1
-		start = 0
+	if len(in) == 0 || in[0].Identifier != open {
+		return nil, nil, false
 	}
+	ctr := 0
 
 	for i := 0; i < len(in); i++ {
 		if in[i].Identifier == open {
@@ -878,9 +876,9 @@ func splitAtClosingStringBrackets(in []Token, open, close string) (cutLeft, cutR
 			ctr--
 			if ctr == 0 {
 				if i == len(in)-1 {
-					return in[start:i], cutRight, true
+					return in[1:i], cutRight, true
 				}
-				return in[start:i], in[i+1:], true
+				return in[1:i], in[i+1:], true
 			}
 		}
 	}
-- 
2.43.0

