From 705826d584d48139ebc01f4604c8576ec2751ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:46 +0000
Subject: [PATCH 01/47] fix: a star segment matches a segment that is literally
 a star

PathMatch compared segments for equality before looking for the star, so a
path segment '*' consumed the star as a literal and the remainder could not
match (path *//b against pattern */b).
---
 util/builtin_operators.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/util/builtin_operators.go b/util/builtin_operators.go
index f6b7bcf..2dcc896 100755
--- a/util/builtin_operators.go
+++ b/util/builtin_operators.go
@@ -175,12 +175,6 @@ func PathMatchHelper(path, pattern, sep string, prefix, suffix byte) bool {
 	pathS, path, lastPathSeg = nextSegment(path, sep)
 	patternS, pattern, lastPatternSeg = nextSegment(pattern, sep)
 
-	if pathS == patternS || isDynamicSegment(patternS, prefix, suffix) {
-		if lastPathSeg != lastPatternSeg {
-			return false
-		}
-		return PathMatchHelper(path, pattern, sep, prefix, suffix)
-	}
 	if patternS == "*" {
 		if !lastPatternSeg && lastPathSeg {
 			return false
@@ -188,6 +182,12 @@ func PathMatchHelper(path, pattern, sep string, prefix, suffix byte) bool {
 		return PathMatchHelper(path, pattern, sep, prefix, suffix) ||
 			PathMatchHelper(path, "*"+sep+pattern, sep, prefix, suffix)
 	}
+	if pathS == patternS || isDynamicSegment(patternS, prefix, suffix) {
+		if lastPathSeg != lastPatternSeg {
+			return false
+		}
+		return PathMatchHelper(path, pattern, sep, prefix, suffix)
+	}
 	return false
 }
 
-- 
2.43.0


From e8a4aebf347405b3e10094cd31795b8c7b0cf960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:53 +0000
Subject: [PATCH 02/47] fix: alternatives of a matcher share no clause list

For (a || b) && (c && d) the clauses that follow were appended to one slice
for both alternatives, so the second alternative was checked against the
clauses the first had left behind.
---
 model/defs/matcher_def.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/model/defs/matcher_def.go b/model/defs/matcher_def.go
index 09494fa..d35ccd5 100644
--- a/model/defs/matcher_def.go
+++ b/model/defs/matcher_def.go
@@ -162,7 +162,9 @@ func buildExprTree(node *MatcherStage, tokens []govaluate.ExpressionToken, and [
 		}
 		return buildExprTree(node, tokens[index+1:], and)
 	} else { // operator.Value == &&
-		return buildExprTree(node, tokens[:index], append(and, tokens[index+1:]))
+		// copy, the remaining clauses are shared by all branches of an or
+		and = append(append([][]govaluate.ExpressionToken{}, and...), tokens[index+1:])
+		return buildExprTree(node, tokens[:index], and)
 	}
 }
 
-- 
2.43.0


From 6966be1eee78cf868a63743cbab6bda346159391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:28 +0000
Subject: [PATCH 03/47] fix: a conditional in a matcher is not split at its
 logical operators

a ? b : c && d was split into the stages 'a ? b : c' and 'd', although the
conditional binds weaker than && and ||.
---
 model/defs/matcher_def.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/model/defs/matcher_def.go b/model/defs/matcher_def.go
index d35ccd5..58d7b7a 100644
--- a/model/defs/matcher_def.go
+++ b/model/defs/matcher_def.go
@@ -71,6 +71,7 @@ type MatcherDef struct {
 func nextOperator(tokens []govaluate.ExpressionToken) (int, bool) {
 	clauseCounter := 0
 	index := -1
+	isOr := false
 	isBracket := tokens[0].Kind == govaluate.CLAUSE
 
 	for i, token := range tokens {
@@ -83,12 +84,15 @@ func nextOperator(tokens []govaluate.ExpressionToken) (int, bool) {
 				isBracket = false
 			}
 		case govaluate.LOGICALOP:
-			if clauseCounter != 0 {
+			if clauseCounter != 0 || isOr {
 				break
 			}
 			index = i
-			if token.Value == "||" {
-				return index, false
+			isOr = token.Value == "||"
+		case govaluate.TERNARY, govaluate.SEPARATOR:
+			// binds weaker than && and ||, the expression can't be split
+			if clauseCounter == 0 {
+				return -1, false
 			}
 		}
 	}
-- 
2.43.0


From 458ac1cf1c7e6011dea26cabda162fcad58c3b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:08 +0000
Subject: [PATCH 04/47] fix: matcher stages keep the tokens of the matcher

Turning the tokens of a stage back into text lost the escapes of string
literals and the quotes of dates and regular expressions, and a literal that
looks like a field (or ends like one) was taken for a policy argument.
The stages now evaluate the parsed tokens themselves.
---
 model/defs/matcher_def.go | 43 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 41 insertions(+), 2 deletions(-)

diff --git a/model/defs/matcher_def.go b/model/defs/matcher_def.go
index 58d7b7a..53162df 100644
--- a/model/defs/matcher_def.go
+++ b/model/defs/matcher_def.go
@@ -10,6 +10,7 @@ import (
 
 type MatcherStage struct {
 	expr     string
+	tokens   []govaluate.ExpressionToken
 	pArgs    []string
 	rArgs    []string
 	children []*MatcherStage
@@ -23,6 +24,30 @@ func NewMatcherStage(expr string) *MatcherStage {
 	return stage
 }
 
+func newMatcherStageFromTokens(tokens []govaluate.ExpressionToken) *MatcherStage {
+	stage := &MatcherStage{}
+	stage.expr = tokensToExpr(tokens)
+	stage.tokens = tokens
+	for _, token := range tokens {
+		var name string
+		switch token.Kind {
+		case govaluate.VARIABLE:
+			name = token.Value.(string)
+		case govaluate.ACCESSOR:
+			name = token.Value.([]string)[0]
+		}
+		if name == "" {
+			continue
+		}
+		if pArgReg.FindString(name) == name {
+			stage.pArgs = append(stage.pArgs, name)
+		} else if rArgReg.FindString(name) == name {
+			stage.rArgs = append(stage.rArgs, name)
+		}
+	}
+	return stage
+}
+
 func (stage *MatcherStage) GetPolicyArgs() []string {
 	return stage.pArgs
 }
@@ -58,6 +83,21 @@ func (stage *MatcherStage) IsLeafNode() bool {
 }
 
 func (def *MatcherStage) NewExpressionWithFunctions(functions map[string]govaluate.ExpressionFunction) (*govaluate.EvaluableExpression, error) {
+	if def.tokens != nil {
+		// tokensToExpr is not able to restore every literal, use the tokens as they are
+		tokens := append([]govaluate.ExpressionToken{}, def.tokens...)
+		for i, token := range tokens {
+			if token.Kind != govaluate.FUNCTION {
+				continue
+			}
+			fn, ok := functions[token.Value2.(string)]
+			if !ok {
+				return nil, fmt.Errorf("function '%v' not found", token.Value2)
+			}
+			tokens[i].Value = fn
+		}
+		return govaluate.NewEvaluableExpressionFromTokens(tokens)
+	}
 	return govaluate.NewEvaluableExpressionWithFunctions(def.expr, functions)
 }
 
@@ -148,8 +188,7 @@ func buildExprTree(node *MatcherStage, tokens []govaluate.ExpressionToken, and [
 
 	//expr has no more logical operators
 	if index == -1 {
-		expr := tokensToExpr(tokens)
-		nextNode := NewMatcherStage(expr)
+		nextNode := newMatcherStageFromTokens(tokens)
 		node.children = append(node.children, nextNode)
 		if len(and) > 0 {
 			bTokens := and[len(and)-1]
-- 
2.43.0


From 76945c96435d82d3bfd0ee535cc71960a3d0c6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:35 +0000
Subject: [PATCH 05/47] fix: only references to fields are rewritten in a
 matcher

The dot was replaced everywhere in the text where something looked like a
field, also in string literals, in the middle of other names (user.Name has
'r.Name' in it) and in nested attributes (r.sub.p.X).
---
 model/defs/defs.go        | 12 ++++++++++++
 model/defs/matcher_def.go |  2 +-
 model/matcher/matcher.go  |  2 +-
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/model/defs/defs.go b/model/defs/defs.go
index 67ee870..31d35f1 100644
--- a/model/defs/defs.go
+++ b/model/defs/defs.go
@@ -31,6 +31,18 @@ var ArgReg = regexp.MustCompile(`([prg][0-9]*)(\.|_)([A-Za-z0-9_]+)`)
 var pArgReg = regexp.MustCompile(`([pg][0-9]*)_([A-Za-z0-9_]+)`)
 var rArgReg = regexp.MustCompile(`(r[0-9]*)_([A-Za-z0-9_]+)`)
 
+// argRefReg finds everything which might contain a reference to an argument: references are
+// looked for in variables, but not in string literals
+var argRefReg = regexp.MustCompile(`["'](?:\\(?s:.)|[^"'\\])*["']|\[(?:\\(?s:.)|[^\]\\])*\]|\pL(?:\\(?s:.)|[\pL\p{Nd}_.])*`)
+var argPrefixReg = regexp.MustCompile(`^(\[?[prg][0-9]*)\.([A-Za-z0-9_]+)`)
+
+// ReplaceArgRefs replaces the dot of all argument references with an underscore (p.sub => p_sub)
+func ReplaceArgRefs(expr string) string {
+	return argRefReg.ReplaceAllStringFunc(expr, func(token string) string {
+		return argPrefixReg.ReplaceAllString(token, "${1}_${2}")
+	})
+}
+
 type IDef interface {
 	String() string
 	GetKey() string
diff --git a/model/defs/matcher_def.go b/model/defs/matcher_def.go
index 53162df..02405ef 100644
--- a/model/defs/matcher_def.go
+++ b/model/defs/matcher_def.go
@@ -230,7 +230,7 @@ func (def *MatcherDef) Build(functions map[string]govaluate.ExpressionFunction)
 	}()
 
 	def.root = NewMatcherStage("")
-	expr := ArgReg.ReplaceAllString(def.expr, "${1}_${3}")
+	expr := ReplaceArgRefs(def.expr)
 	parsedExpr, err := govaluate.NewEvaluableExpressionWithFunctions(expr, functions)
 	if err != nil {
 		return err
diff --git a/model/matcher/matcher.go b/model/matcher/matcher.go
index 47622fe..8b80c39 100644
--- a/model/matcher/matcher.go
+++ b/model/matcher/matcher.go
@@ -249,7 +249,7 @@ func generateEvalFunction(fMap fm.FunctionMap, parameters *MatchParameters) gova
 		}
 
 		expression := args[0].(string)
-		expression = defs.ArgReg.ReplaceAllString(expression, "${1}_${3}")
+		expression = defs.ReplaceArgRefs(expression)
 		return eval(expression, functions, parameters)
 	}
 }
-- 
2.43.0


From beb84db27c1d211c1c3f728cb9e6c6fc716ad5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:50 +0000
Subject: [PATCH 06/47] fix: rules which differ only in where a value ends are
 different rules

The hash of a rule joined its values with a comma, so ["a,b"] and
["a", "b"] were the same rule for policies and matchers.
---
 util/util.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/util/util.go b/util/util.go
index 74f217b..8f6ea0f 100644
--- a/util/util.go
+++ b/util/util.go
@@ -3,6 +3,7 @@ package util
 import (
 	"errors"
 	"os"
+	"strconv"
 	"strings"
 )
 
@@ -27,5 +28,12 @@ func FileExists(path string) (bool, error) {
 }
 
 func Hash(rule []string) string {
-	return strings.Join(rule, DefaultSep)
+	var sb strings.Builder
+	for _, value := range rule {
+		// the length keeps values apart, which contain the separator
+		sb.WriteString(strconv.Itoa(len(value)))
+		sb.WriteString(DefaultSep)
+		sb.WriteString(value)
+	}
+	return sb.String()
 }
-- 
2.43.0


From d15b37d5906dd15d3af7875c2b5bb37e27688391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:21 +0000
Subject: [PATCH 07/47] fix: a matcher may have more than two alternatives

The nodes of a matcher had room for two alternatives, a third one ended in an
index out of range.
---
 model/matcher/matcher.go | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/model/matcher/matcher.go b/model/matcher/matcher.go
index 8b80c39..5d4b6e3 100644
--- a/model/matcher/matcher.go
+++ b/model/matcher/matcher.go
@@ -33,18 +33,24 @@ type MatcherNode struct {
 func NewMatcherNode(rule []string) *MatcherNode {
 	node := &MatcherNode{}
 	node.rule = rule
-	node.children = make([]map[string]*MatcherNode, 2)
-	node.children[0] = make(map[string]*MatcherNode)
-	node.children[1] = make(map[string]*MatcherNode)
 	return node
 }
 
+// nodes returns the children of the i-th alternative
+func (n *MatcherNode) nodes(i int) map[string]*MatcherNode {
+	for len(n.children) <= i {
+		n.children = append(n.children, make(map[string]*MatcherNode))
+	}
+	return n.children[i]
+}
+
 func (n *MatcherNode) GetOrCreate(i int, key string, rule []string) *MatcherNode {
-	if node, ok := n.children[i][key]; ok {
+	nodes := n.nodes(i)
+	if node, ok := nodes[key]; ok {
 		return node
 	}
 	node := NewMatcherNode(rule)
-	n.children[i][key] = node
+	nodes[key] = node
 	return node
 }
 
@@ -135,7 +141,7 @@ func (m *Matcher) addRuleHelper(rule []string, exprNode *defs.MatcherStage, node
 			nextNode := node.GetOrCreate(i, key, rule)
 			m.addRuleHelper(rule, nextExpr, nextNode)
 		} else {
-			node.children[i][key] = NewMatcherNode(rule)
+			node.nodes(i)[key] = NewMatcherNode(rule)
 		}
 	}
 
@@ -158,11 +164,11 @@ func (m *Matcher) removeRuleHelper(rule []string, exprNode *defs.MatcherStage, n
 		}
 
 		if !nextExpr.IsLeafNode() {
-			if nextNode, ok := node.children[i][key]; ok {
+			if nextNode, ok := node.nodes(i)[key]; ok {
 				m.removeRuleHelper(rule, nextExpr, nextNode)
 			}
 		} else {
-			delete(node.children[i], key)
+			delete(node.nodes(i), key)
 		}
 	}
 }
@@ -198,7 +204,11 @@ func (m *Matcher) rangeMatches(exprNode *defs.MatcherStage, rules map[string]*Ma
 
 func (m *Matcher) rangeMatchesHelper(exprNode *defs.MatcherStage, node *MatcherNode, params *MatchParameters, functions map[string]govaluate.ExpressionFunction, fn func(rule []string) bool) (bool, error) {
 	for i, nextExpr := range exprNode.Children() {
-		cont, err := m.rangeMatches(nextExpr, node.children[i], params, functions, func(nextNode *MatcherNode) bool {
+		var nodes map[string]*MatcherNode
+		if i < len(node.children) {
+			nodes = node.children[i]
+		}
+		cont, err := m.rangeMatches(nextExpr, nodes, params, functions, func(nextNode *MatcherNode) bool {
 			if nextExpr.IsLeafNode() && !fn(nextNode.rule) {
 				return false //break
 			} else {
-- 
2.43.0


From 232f038bed02ca7584337500787b7fd8971f64f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:23 +0000
Subject: [PATCH 08/47] fix: an error in a later stage of a matcher is reported

The error of a nested stage only ended the iteration, so the decision was
made from the matches found so far.
---
 model/matcher/matcher.go | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/model/matcher/matcher.go b/model/matcher/matcher.go
index 5d4b6e3..14485b2 100644
--- a/model/matcher/matcher.go
+++ b/model/matcher/matcher.go
@@ -173,7 +173,7 @@ func (m *Matcher) removeRuleHelper(rule []string, exprNode *defs.MatcherStage, n
 	}
 }
 
-func (m *Matcher) rangeMatches(exprNode *defs.MatcherStage, rules map[string]*MatcherNode, params *MatchParameters, functions map[string]govaluate.ExpressionFunction, fn func(node *MatcherNode) bool) (bool, error) {
+func (m *Matcher) rangeMatches(exprNode *defs.MatcherStage, rules map[string]*MatcherNode, params *MatchParameters, functions map[string]govaluate.ExpressionFunction, fn func(node *MatcherNode) (bool, error)) (bool, error) {
 	expr, err := exprNode.NewExpressionWithFunctions(functions)
 	if err != nil {
 		return false, err
@@ -194,8 +194,11 @@ func (m *Matcher) rangeMatches(exprNode *defs.MatcherStage, rules map[string]*Ma
 		}
 		switch b := res.(type) {
 		case bool:
-			if b && !fn(child) {
-				return false, nil
+			if !b {
+				continue
+			}
+			if cont, err := fn(child); err != nil || !cont {
+				return false, err
 			}
 		}
 	}
@@ -208,16 +211,11 @@ func (m *Matcher) rangeMatchesHelper(exprNode *defs.MatcherStage, node *MatcherN
 		if i < len(node.children) {
 			nodes = node.children[i]
 		}
-		cont, err := m.rangeMatches(nextExpr, nodes, params, functions, func(nextNode *MatcherNode) bool {
-			if nextExpr.IsLeafNode() && !fn(nextNode.rule) {
-				return false //break
-			} else {
-				cont, err := m.rangeMatchesHelper(nextExpr, nextNode, params, functions, fn)
-				if err != nil || !cont {
-					return false
-				}
+		cont, err := m.rangeMatches(nextExpr, nodes, params, functions, func(nextNode *MatcherNode) (bool, error) {
+			if nextExpr.IsLeafNode() {
+				return fn(nextNode.rule), nil
 			}
-			return true //continue
+			return m.rangeMatchesHelper(nextExpr, nextNode, params, functions, fn)
 		})
 		if err != nil {
 			return false, err
-- 
2.43.0


From 91436ecc0edaebb1bb0d079c4a2d83308bec4884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:25 +0000
Subject: [PATCH 09/47] fix: removed rules do not match any longer

Removing the last rule below a stage left the node of the stage behind and an
empty rule was evaluated in its place, so the removed rule still granted
access. The empty rule stands in only if there are no rules at all.
---
 model/matcher/matcher.go | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/model/matcher/matcher.go b/model/matcher/matcher.go
index 14485b2..8f263a2 100644
--- a/model/matcher/matcher.go
+++ b/model/matcher/matcher.go
@@ -44,6 +44,15 @@ func (n *MatcherNode) nodes(i int) map[string]*MatcherNode {
 	return n.children[i]
 }
 
+func (n *MatcherNode) isEmpty() bool {
+	for _, nodes := range n.children {
+		if len(nodes) > 0 {
+			return false
+		}
+	}
+	return true
+}
+
 func (n *MatcherNode) GetOrCreate(i int, key string, rule []string) *MatcherNode {
 	nodes := n.nodes(i)
 	if node, ok := nodes[key]; ok {
@@ -166,6 +175,9 @@ func (m *Matcher) removeRuleHelper(rule []string, exprNode *defs.MatcherStage, n
 		if !nextExpr.IsLeafNode() {
 			if nextNode, ok := node.nodes(i)[key]; ok {
 				m.removeRuleHelper(rule, nextExpr, nextNode)
+				if nextNode.isEmpty() {
+					delete(node.nodes(i), key)
+				}
 			}
 		} else {
 			delete(node.nodes(i), key)
@@ -179,13 +191,6 @@ func (m *Matcher) rangeMatches(exprNode *defs.MatcherStage, rules map[string]*Ma
 		return false, err
 	}
 
-	if len(rules) == 0 {
-		empty_rule := make([]string, len(m.pDef.GetArgs()))
-		rules = map[string]*MatcherNode{
-			"": NewMatcherNode(empty_rule),
-		}
-	}
-
 	for _, child := range rules {
 		params.pvals = child.rule
 		res, err := expr.Eval(params)
@@ -232,7 +237,14 @@ func (m *Matcher) RangeMatches(rDef defs.RequestDef, rvals []interface{}, fMap f
 	fMap.SetFunction("eval", generateEvalFunction(fMap, params))
 	functions := fMap.GetFunctions()
 
-	_, err := m.rangeMatchesHelper(m.exprRoot, m.root, params, functions, fn)
+	root := m.root
+	if root.isEmpty() {
+		// evaluate the matcher once, if there are no rules
+		root = NewMatcherNode([]string{""})
+		m.addRuleHelper(make([]string, len(m.pDef.GetArgs())), m.exprRoot, root)
+	}
+
+	_, err := m.rangeMatchesHelper(m.exprRoot, root, params, functions, fn)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From d4a757f60664c2e7546553951878f38ded63fcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:43 +0000
Subject: [PATCH 10/47] fix: rules share a stage result only if the stage can't
 tell them apart

All rules without a value for an argument of the stage shared one node, and a
stage with eval(p.rule) was evaluated once for all rules with the same rule
text, although the text may read other fields of the rule.
---
 model/defs/matcher_def.go | 10 ++++++++++
 model/matcher/matcher.go  | 32 ++++++++++++++------------------
 2 files changed, 24 insertions(+), 18 deletions(-)

diff --git a/model/defs/matcher_def.go b/model/defs/matcher_def.go
index 02405ef..8f42e65 100644
--- a/model/defs/matcher_def.go
+++ b/model/defs/matcher_def.go
@@ -82,6 +82,16 @@ func (stage *MatcherStage) IsLeafNode() bool {
 	return len(stage.children) == 0
 }
 
+// HasFunction returns true, if the function is called in this stage
+func (stage *MatcherStage) HasFunction(name string) bool {
+	for _, token := range stage.tokens {
+		if token.Kind == govaluate.FUNCTION && token.Value2 == name {
+			return true
+		}
+	}
+	return false
+}
+
 func (def *MatcherStage) NewExpressionWithFunctions(functions map[string]govaluate.ExpressionFunction) (*govaluate.EvaluableExpression, error) {
 	if def.tokens != nil {
 		// tokensToExpr is not able to restore every literal, use the tokens as they are
diff --git a/model/matcher/matcher.go b/model/matcher/matcher.go
index 8f263a2..9cda05e 100644
--- a/model/matcher/matcher.go
+++ b/model/matcher/matcher.go
@@ -130,21 +130,25 @@ func (m *Matcher) GetPolicyKey() string {
 	return m.pDef.GetKey()
 }
 
+// nodeKey returns the key of the node a rule belongs to.
+// Rules with the same key are indistinguishable for the expression.
+func (m *Matcher) nodeKey(rule []string, expr *defs.MatcherStage) string {
+	pArgs := expr.GetPolicyArgs()
+	if len(pArgs) > 0 && !expr.IsLeafNode() && !expr.HasFunction("eval") {
+		if values, err := m.pDef.GetParameters(rule, pArgs); err == nil {
+			return "v" + util.Hash(values)
+		}
+	}
+	return "r" + util.Hash(rule)
+}
+
 func (m *Matcher) addRule(rule []string) {
 	m.addRuleHelper(rule, m.exprRoot, m.root)
 }
 
 func (m *Matcher) addRuleHelper(rule []string, exprNode *defs.MatcherStage, node *MatcherNode) {
 	for i, nextExpr := range exprNode.Children() {
-		pArgs := nextExpr.GetPolicyArgs()
-
-		var key string
-		if len(pArgs) == 0 || nextExpr.IsLeafNode() {
-			key = util.Hash(rule)
-		} else {
-			r, _ := m.pDef.GetParameters(rule, pArgs)
-			key = util.Hash(r)
-		}
+		key := m.nodeKey(rule, nextExpr)
 
 		if !nextExpr.IsLeafNode() {
 			nextNode := node.GetOrCreate(i, key, rule)
@@ -162,15 +166,7 @@ func (m *Matcher) removeRule(rule []string) {
 
 func (m *Matcher) removeRuleHelper(rule []string, exprNode *defs.MatcherStage, node *MatcherNode) {
 	for i, nextExpr := range exprNode.Children() {
-		pArgs := nextExpr.GetPolicyArgs()
-
-		var key string
-		if len(pArgs) == 0 || nextExpr.IsLeafNode() {
-			key = util.Hash(rule)
-		} else {
-			r, _ := m.pDef.GetParameters(rule, pArgs)
-			key = util.Hash(r)
-		}
+		key := m.nodeKey(rule, nextExpr)
 
 		if !nextExpr.IsLeafNode() {
 			if nextNode, ok := node.nodes(i)[key]; ok {
-- 
2.43.0


From c71c77ba62069ea154e7a87e204fb7009ca2da10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:45 +0000
Subject: [PATCH 11/47] fix: matching leaves the functions of the model alone

Every decision stored its own eval function in the function map of the model,
so decisions made at the same time raced and could evaluate each other's
request.
---
 model/matcher/matcher.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/model/matcher/matcher.go b/model/matcher/matcher.go
index 9cda05e..fb5a83a 100644
--- a/model/matcher/matcher.go
+++ b/model/matcher/matcher.go
@@ -230,8 +230,11 @@ func (m *Matcher) rangeMatchesHelper(exprNode *defs.MatcherStage, node *MatcherN
 
 func (m *Matcher) RangeMatches(rDef defs.RequestDef, rvals []interface{}, fMap fm.FunctionMap, fn func(rule []string) bool) error {
 	params := NewMatchParameters(*m.pDef, nil, rDef, rvals)
-	fMap.SetFunction("eval", generateEvalFunction(fMap, params))
-	functions := fMap.GetFunctions()
+	functions := make(map[string]govaluate.ExpressionFunction)
+	for name, function := range fMap.GetFunctions() {
+		functions[name] = function
+	}
+	functions["eval"] = generateEvalFunction(functions, params)
 
 	root := m.root
 	if root.isEmpty() {
@@ -256,9 +259,7 @@ func eval(expression string, functions map[string]govaluate.ExpressionFunction,
 	return expr.Eval(parameters)
 }
 
-func generateEvalFunction(fMap fm.FunctionMap, parameters *MatchParameters) govaluate.ExpressionFunction {
-	functions := fMap.GetFunctions()
-
+func generateEvalFunction(functions map[string]govaluate.ExpressionFunction, parameters *MatchParameters) govaluate.ExpressionFunction {
 	return func(args ...interface{}) (interface{}, error) {
 		if err := util.ValidateVariadicArgs(1, args...); err != nil {
 			return false, fmt.Errorf("%s: %s", "eval", err)
-- 
2.43.0


From d40f82c2a29dd4264a84c7b763ca7ca8e1dc80bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:12 +0000
Subject: [PATCH 12/47] fix: a rule matching several alternatives is reported
 once

Filter listed a rule once per alternative of the matcher it matches.
---
 model/defs/matcher_def.go | 13 +++++++++++++
 model/matcher/matcher.go  | 37 ++++++++++++++++++++++++++++++++-----
 2 files changed, 45 insertions(+), 5 deletions(-)

diff --git a/model/defs/matcher_def.go b/model/defs/matcher_def.go
index 8f42e65..e82e25e 100644
--- a/model/defs/matcher_def.go
+++ b/model/defs/matcher_def.go
@@ -78,6 +78,19 @@ func (stage *MatcherStage) Children() []*MatcherStage {
 	return stage.children
 }
 
+// HasAlternatives returns true, if there is more than one way to match the matcher
+func (stage *MatcherStage) HasAlternatives() bool {
+	if len(stage.children) > 1 {
+		return true
+	}
+	for _, child := range stage.children {
+		if child.HasAlternatives() {
+			return true
+		}
+	}
+	return false
+}
+
 func (stage *MatcherStage) IsLeafNode() bool {
 	return len(stage.children) == 0
 }
diff --git a/model/matcher/matcher.go b/model/matcher/matcher.go
index fb5a83a..539f89b 100644
--- a/model/matcher/matcher.go
+++ b/model/matcher/matcher.go
@@ -53,6 +53,21 @@ func (n *MatcherNode) isEmpty() bool {
 	return true
 }
 
+// isSeen returns true, if there is no rule left below the node which is not contained in seen
+func (n *MatcherNode) isSeen(seen map[string]bool) bool {
+	if n.isEmpty() {
+		return seen[util.Hash(n.rule)]
+	}
+	for _, nodes := range n.children {
+		for _, node := range nodes {
+			if !node.isSeen(seen) {
+				return false
+			}
+		}
+	}
+	return true
+}
+
 func (n *MatcherNode) GetOrCreate(i int, key string, rule []string) *MatcherNode {
 	nodes := n.nodes(i)
 	if node, ok := nodes[key]; ok {
@@ -181,13 +196,16 @@ func (m *Matcher) removeRuleHelper(rule []string, exprNode *defs.MatcherStage, n
 	}
 }
 
-func (m *Matcher) rangeMatches(exprNode *defs.MatcherStage, rules map[string]*MatcherNode, params *MatchParameters, functions map[string]govaluate.ExpressionFunction, fn func(node *MatcherNode) (bool, error)) (bool, error) {
+func (m *Matcher) rangeMatches(exprNode *defs.MatcherStage, rules map[string]*MatcherNode, params *MatchParameters, functions map[string]govaluate.ExpressionFunction, seen map[string]bool, fn func(node *MatcherNode) (bool, error)) (bool, error) {
 	expr, err := exprNode.NewExpressionWithFunctions(functions)
 	if err != nil {
 		return false, err
 	}
 
 	for _, child := range rules {
+		if seen != nil && child.isSeen(seen) {
+			continue
+		}
 		params.pvals = child.rule
 		res, err := expr.Eval(params)
 		if err != nil {
@@ -206,17 +224,20 @@ func (m *Matcher) rangeMatches(exprNode *defs.MatcherStage, rules map[string]*Ma
 	return true, nil
 }
 
-func (m *Matcher) rangeMatchesHelper(exprNode *defs.MatcherStage, node *MatcherNode, params *MatchParameters, functions map[string]govaluate.ExpressionFunction, fn func(rule []string) bool) (bool, error) {
+func (m *Matcher) rangeMatchesHelper(exprNode *defs.MatcherStage, node *MatcherNode, params *MatchParameters, functions map[string]govaluate.ExpressionFunction, seen map[string]bool, fn func(rule []string) bool) (bool, error) {
 	for i, nextExpr := range exprNode.Children() {
 		var nodes map[string]*MatcherNode
 		if i < len(node.children) {
 			nodes = node.children[i]
 		}
-		cont, err := m.rangeMatches(nextExpr, nodes, params, functions, func(nextNode *MatcherNode) (bool, error) {
+		cont, err := m.rangeMatches(nextExpr, nodes, params, functions, seen, func(nextNode *MatcherNode) (bool, error) {
 			if nextExpr.IsLeafNode() {
+				if seen != nil {
+					seen[util.Hash(nextNode.rule)] = true
+				}
 				return fn(nextNode.rule), nil
 			}
-			return m.rangeMatchesHelper(nextExpr, nextNode, params, functions, fn)
+			return m.rangeMatchesHelper(nextExpr, nextNode, params, functions, seen, fn)
 		})
 		if err != nil {
 			return false, err
@@ -243,7 +264,13 @@ func (m *Matcher) RangeMatches(rDef defs.RequestDef, rvals []interface{}, fMap f
 		m.addRuleHelper(make([]string, len(m.pDef.GetArgs())), m.exprRoot, root)
 	}
 
-	_, err := m.rangeMatchesHelper(m.exprRoot, root, params, functions, fn)
+	// a rule may match several alternatives, but it is reported only once
+	var seen map[string]bool
+	if m.exprRoot.HasAlternatives() {
+		seen = make(map[string]bool)
+	}
+
+	_, err := m.rangeMatchesHelper(m.exprRoot, root, params, functions, seen, fn)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 71d64e1681c3d91bbae53347257bff0ae01107a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:26 +0000
Subject: [PATCH 13/47] fix: operands of && and || which are not booleans are
 an error

A stage which is no boolean was treated as a stage that does not match, so
r.sub && r.act == p.act denied nothing under the effect
!some(where(p.eft==deny)) instead of failing like it does unsplit. A variable
without a name ([]) is an error as well, not a panic.
---
 model/matcher/matcher.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/model/matcher/matcher.go b/model/matcher/matcher.go
index 539f89b..341df02 100644
--- a/model/matcher/matcher.go
+++ b/model/matcher/matcher.go
@@ -95,6 +95,9 @@ func NewMatchParameters(pDef defs.PolicyDef, pvals []string, rDef defs.RequestDe
 }
 
 func (params *MatchParameters) Get(name string) (interface{}, error) {
+	if name == "" {
+		return nil, errors.New("parameter without name")
+	}
 	switch name[0] {
 	case 'p', 'g':
 		return params.pDef.GetParameter(params.pvals, name)
@@ -157,6 +160,12 @@ func (m *Matcher) nodeKey(rule []string, expr *defs.MatcherStage) string {
 	return "r" + util.Hash(rule)
 }
 
+// isSingleStage returns true, if the matcher isn't divided into several stages
+func (m *Matcher) isSingleStage() bool {
+	children := m.exprRoot.Children()
+	return len(children) == 1 && children[0].IsLeafNode()
+}
+
 func (m *Matcher) addRule(rule []string) {
 	m.addRuleHelper(rule, m.exprRoot, m.root)
 }
@@ -219,6 +228,11 @@ func (m *Matcher) rangeMatches(exprNode *defs.MatcherStage, rules map[string]*Ma
 			if cont, err := fn(child); err != nil || !cont {
 				return false, err
 			}
+		default:
+			// operands of logical operators must be booleans
+			if !m.isSingleStage() {
+				return false, fmt.Errorf("value '%v' cannot be used with a logical operator, it is not a bool", res)
+			}
 		}
 	}
 	return true, nil
-- 
2.43.0


From 3f6a3aa84cdde07e6ee8fa846d014d99cf96a8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:55 +0000
Subject: [PATCH 14/47] fix: fields of rules and requests mean the values at
 their positions

A rule with more values than its definition has fields was taken for a rule
with its key in front, so every field meant the next value, and the effect of
a rule without effect value was read from the field before. The key is now
skipped only if it is there, and never where the rule has no key.
---
 enforcer.go              |  2 +-
 model/defs/defs.go       | 20 ++++++++++++--------
 model/matcher/matcher.go | 11 +++++++++--
 3 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/enforcer.go b/enforcer.go
index 6cad9a0..fde17cf 100644
--- a/enforcer.go
+++ b/enforcer.go
@@ -317,7 +317,7 @@ func (e *Enforcer) enforce(ctx *Context, rvals []interface{}) (bool, error) {
 
 	var eftErr error = nil
 	err := e.RangeMatchesWithContext(ctx, rvals, func(rule []string) bool {
-		effect := pDef.GetEft(rule)
+		effect := pDef.GetEft(rule[1:])
 
 		effects = append(effects, effect)
 		matches = append(matches, rule)
diff --git a/model/defs/defs.go b/model/defs/defs.go
index 31d35f1..51d84a6 100644
--- a/model/defs/defs.go
+++ b/model/defs/defs.go
@@ -81,7 +81,7 @@ func (def *PolicyDef) Has(name string) bool {
 func (def *PolicyDef) GetEft(values []string) types.Effect {
 	eftArg := def.key + "_eft"
 	if def.Has(eftArg) {
-		eftStr, _ := def.GetParameter(values, eftArg)
+		eftStr, _ := def.GetValue(values, eftArg)
 		switch eftStr {
 		case "", "allow":
 			return eft.Allow
@@ -95,19 +95,23 @@ func (def *PolicyDef) GetEft(values []string) types.Effect {
 }
 
 func (def *PolicyDef) GetParameter(rule []string, name string) (string, error) {
+	//check if rule is passed with key
+	if len(rule) > len(def.args) && rule[0] == def.key {
+		rule = rule[1:]
+	}
+	return def.GetValue(rule, name)
+}
+
+// GetValue returns the value of an argument, rule must be passed without key
+func (def *PolicyDef) GetValue(rule []string, name string) (string, error) {
 	index, ok := def.argIndex[name]
 	if !ok {
 		return "", errors.New("parameter '" + name + "' not found.")
 	}
-	//check if rule is passed with key
-	if len(rule) > len(def.args) {
-		index++
-	}
 	if index >= len(rule) {
 		return "", errors.New("rule has not enough values")
 	}
 	return rule[index], nil
-
 }
 
 func (def *PolicyDef) GetParameters(rule, names []string) ([]string, error) {
@@ -157,8 +161,8 @@ func (def *RequestDef) GetParameter(values []interface{}, name string) (interfac
 	if !ok {
 		return "", errors.New("parameter '" + name + "' not found.")
 	}
-	//check if rule is passed with key
-	if len(values) > len(def.args) {
+	//check if request is passed with key
+	if len(values) > len(def.args) && values[0] == def.key {
 		index++
 	}
 	if index >= len(values) {
diff --git a/model/matcher/matcher.go b/model/matcher/matcher.go
index 341df02..3db018b 100644
--- a/model/matcher/matcher.go
+++ b/model/matcher/matcher.go
@@ -100,7 +100,7 @@ func (params *MatchParameters) Get(name string) (interface{}, error) {
 	}
 	switch name[0] {
 	case 'p', 'g':
-		return params.pDef.GetParameter(params.pvals, name)
+		return params.pDef.GetValue(params.pvals, name)
 	case 'r':
 		return params.rDef.GetParameter(params.rvals, name)
 	default:
@@ -153,7 +153,14 @@ func (m *Matcher) GetPolicyKey() string {
 func (m *Matcher) nodeKey(rule []string, expr *defs.MatcherStage) string {
 	pArgs := expr.GetPolicyArgs()
 	if len(pArgs) > 0 && !expr.IsLeafNode() && !expr.HasFunction("eval") {
-		if values, err := m.pDef.GetParameters(rule, pArgs); err == nil {
+		values := make([]string, len(pArgs))
+		var err error
+		for i, name := range pArgs {
+			if values[i], err = m.pDef.GetValue(rule, name); err != nil {
+				break
+			}
+		}
+		if err == nil {
 			return "v" + util.Hash(values)
 		}
 	}
-- 
2.43.0


From 50ddbcee94b6919aced77124ddd5701c1c49fd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:13 +0000
Subject: [PATCH 15/47] fix: allow-and-no-deny looks for an allowing rule among
 all matches

The decision was the effect of the first match, so a rule whose effect is
neither allow nor deny could hide a rule which allows, depending on the order
of the rules.
---
 model/effector/default_effector.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/model/effector/default_effector.go b/model/effector/default_effector.go
index 7a63f6e..07cb072 100644
--- a/model/effector/default_effector.go
+++ b/model/effector/default_effector.go
@@ -43,10 +43,12 @@ func (e *DefaultEffector) MergeEffects(effects []types.Effect, matches [][]strin
 		case eft.NO_DENY:
 			return eft.Allow, []string{}, nil
 		case eft.SOME_ALLOW_NO_DENY:
-			if len(matches) == 0 {
-				return eft.Deny, []string{}, nil
+			for i, effect := range effects {
+				if effect == eft.Allow {
+					return effect, matches[i], nil
+				}
 			}
-			return effects[0], matches[0], nil
+			return eft.Deny, []string{}, nil
 		}
 		return eft.Deny, []string{}, errors.New("unsupported effect")
 	}
-- 
2.43.0


From 9f8f788cc1c0c66eca19c4ea0fe7b24396a149f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:14 +0000
Subject: [PATCH 16/47] fix: an unsupported effect is reported by Enforce

---
 enforcer.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/enforcer.go b/enforcer.go
index fde17cf..cf9d94a 100644
--- a/enforcer.go
+++ b/enforcer.go
@@ -333,11 +333,13 @@ func (e *Enforcer) enforce(ctx *Context, rvals []interface{}) (bool, error) {
 		return false, err
 	}
 	if eftErr != nil {
-		return false, err
+		return false, eftErr
 	}
 
 	if res == eft.Indeterminate {
-		res, _, _ = ctx.effector.MergeEffects(effects, matches, true)
+		if res, _, err = ctx.effector.MergeEffects(effects, matches, true); err != nil {
+			return false, err
+		}
 	}
 
 	return res == eft.Allow, nil
-- 
2.43.0


From 766375028874b86358be456be71867e4fbc85619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:25 +0000
Subject: [PATCH 17/47] fix: malformed rules and unknown definitions are
 errors, not panics

Rules without key, role rules with less than two values, definitions without
key and unknown request definitions and role managers ended in a panic.
---
 model/model.go      | 19 ++++++++++++++++---
 rbac/role_policy.go |  9 +++++++++
 str/errors.go       |  2 ++
 3 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/model/model.go b/model/model.go
index 88b8d5d..508f1be 100644
--- a/model/model.go
+++ b/model/model.go
@@ -15,6 +15,7 @@
 package model
 
 import (
+	"errors"
 	"fmt"
 	"sort"
 
@@ -168,7 +169,7 @@ func (m *Model) SetDef(sec byte, key string, value string) error {
 	if !ok {
 		return fmt.Errorf(str.ERR_INVALID_SEC, sec)
 	}
-	if key[0] != secDef.keyPrefix {
+	if key == "" || key[0] != secDef.keyPrefix {
 		return fmt.Errorf(str.ERR_INVALID_KEY_PREFIX, secDef.name, secDef.keyPrefix)
 	}
 	if err := secDef.handler(m, key, value); err != nil {
@@ -246,6 +247,9 @@ func (m *Model) BuildMatcherFromDef(mDef *defs.MatcherDef) (matcher.IMatcher, er
 }
 
 func (m *Model) AddRule(rule []string) (bool, error) {
+	if len(rule) == 0 || rule[0] == "" {
+		return false, errors.New(str.ERR_RULE_WITHOUT_KEY)
+	}
 	key := rule[0]
 	sec := key[0]
 	var added bool
@@ -265,6 +269,9 @@ func (m *Model) AddRule(rule []string) (bool, error) {
 }
 
 func (m *Model) RemoveRule(rule []string) (bool, error) {
+	if len(rule) == 0 || rule[0] == "" {
+		return false, errors.New(str.ERR_RULE_WITHOUT_KEY)
+	}
 	key := rule[0]
 	sec := key[0]
 	var removed bool
@@ -328,7 +335,10 @@ func (m *Model) SetPolicy(key string, policy policy.IPolicy) {
 
 func (m *Model) GetRoleManager(key string) (rbac.IRoleManager, bool) {
 	rp, ok := m.rpMap[key]
-	return rp.GetRoleManager(), ok
+	if !ok {
+		return nil, false
+	}
+	return rp.GetRoleManager(), true
 }
 
 func (m *Model) SetRoleManager(key string, rm rbac.IRoleManager) {
@@ -347,7 +357,10 @@ func (m *Model) SetMatcher(key string, matcher matcher.IMatcher) {
 
 func (m *Model) GetRequestDef(key string) (*defs.RequestDef, bool) {
 	def, ok := m.defs[R_SEC][key]
-	return def.(*defs.RequestDef), ok
+	if !ok {
+		return nil, false
+	}
+	return def.(*defs.RequestDef), true
 }
 
 func (m *Model) SetRequestDef(key string, def *defs.RequestDef) {
diff --git a/rbac/role_policy.go b/rbac/role_policy.go
index f1193e3..d719be1 100644
--- a/rbac/role_policy.go
+++ b/rbac/role_policy.go
@@ -1,7 +1,10 @@
 package rbac
 
 import (
+	"errors"
+
 	"github.com/abichinger/fastac/model/policy"
+	"github.com/abichinger/fastac/str"
 	em "github.com/vansante/go-event-emitter"
 )
 
@@ -16,6 +19,9 @@ func NewRolePolicy(rm IRoleManager) *RolePolicy {
 }
 
 func (p *RolePolicy) AddRule(rule []string) (bool, error) {
+	if len(rule) < 2 {
+		return false, errors.New(str.ERR_RULE_TOO_SHORT)
+	}
 	added, err := p.rm.AddLink(rule[0], rule[1], rule[2:]...)
 	if !added || err != nil {
 		return added, err
@@ -25,6 +31,9 @@ func (p *RolePolicy) AddRule(rule []string) (bool, error) {
 }
 
 func (p *RolePolicy) RemoveRule(rule []string) (bool, error) {
+	if len(rule) < 2 {
+		return false, errors.New(str.ERR_RULE_TOO_SHORT)
+	}
 	removed, err := p.rm.DeleteLink(rule[0], rule[1], rule[2:]...)
 	if !removed || err != nil {
 		return removed, err
diff --git a/str/errors.go b/str/errors.go
index b8b0b6b..6654974 100644
--- a/str/errors.go
+++ b/str/errors.go
@@ -23,4 +23,6 @@ const (
 	ERR_REQUESTDEF_NOT_FOUND = "error: request definition %s not found"
 	ERR_EFFECTOR_NOT_FOUND   = "error: effect definition %s not found"
 	ERR_INVALID_MODEL        = "invalid model"
+	ERR_RULE_WITHOUT_KEY     = "error: rule has no key"
+	ERR_RULE_TOO_SHORT       = "error: rule has not enough values"
 )
-- 
2.43.0


From 03823d003f4514960224c37d482c9ab1e25264b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:26 +0000
Subject: [PATCH 18/47] fix: missing default definitions and policies are
 errors, not panics

---
 context.go  | 14 +++++++++++---
 enforcer.go |  6 +++++-
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/context.go b/context.go
index e0caff9..1bb64c7 100644
--- a/context.go
+++ b/context.go
@@ -103,13 +103,21 @@ func NewContext(model model.IModel, options ...ContextOption) (*Context, error)
 	}
 
 	if ctx.rDef == nil {
-		_ = SetRequestDef("r")(ctx)
+		if err := SetRequestDef("r")(ctx); err != nil {
+			return nil, err
+		}
 	}
 	if ctx.matcher == nil {
-		_ = SetMatcher("m")(ctx)
+		matcher, ok := model.GetMatcher("m")
+		if !ok {
+			return nil, fmt.Errorf(str.ERR_MATCHER_NOT_FOUND, "m")
+		}
+		ctx.matcher = matcher
 	}
 	if ctx.effector == nil {
-		_ = SetEffector("e")(ctx)
+		if err := SetEffector("e")(ctx); err != nil {
+			return nil, err
+		}
 	}
 
 	return ctx, nil
diff --git a/enforcer.go b/enforcer.go
index cf9d94a..c185935 100644
--- a/enforcer.go
+++ b/enforcer.go
@@ -16,6 +16,7 @@ package fastac
 
 import (
 	"errors"
+	"fmt"
 	"time"
 
 	log "github.com/abichinger/fastac/log"
@@ -310,7 +311,10 @@ func (e *Enforcer) RangeMatchesWithContext(ctx *Context, rvals []interface{}, fn
 
 func (e *Enforcer) enforce(ctx *Context, rvals []interface{}) (bool, error) {
 	def, _ := e.model.GetDef(m.P_SEC, ctx.matcher.GetPolicyKey())
-	pDef := def.(*defs.PolicyDef)
+	pDef, ok := def.(*defs.PolicyDef)
+	if !ok {
+		return false, fmt.Errorf(str.ERR_POLICY_NOT_FOUND, ctx.matcher.GetPolicyKey())
+	}
 	res := eft.Indeterminate
 	effects := []types.Effect{}
 	matches := [][]string{}
-- 
2.43.0


From 77014c180dc56609f3e003844e3ff0ffb25c1ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:12 +0000
Subject: [PATCH 19/47] fix: a matcher which can't be rebuilt is removed, the
 others are rebuilt

---
 model/model.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/model/model.go b/model/model.go
index 508f1be..d35c53a 100644
--- a/model/model.go
+++ b/model/model.go
@@ -195,12 +195,13 @@ func (m *Model) RemoveDef(sec byte, key string) error {
 }
 
 func (m *Model) BuildMatchers() error {
+	var firstErr error
 	for key := range m.defs[M_SEC] {
-		if err := m.BuildMatcher(key); err != nil {
-			return err
+		if err := m.BuildMatcher(key); err != nil && firstErr == nil {
+			firstErr = err
 		}
 	}
-	return nil
+	return firstErr
 }
 
 func (m *Model) BuildMatcher(key string) error {
@@ -212,6 +213,7 @@ func (m *Model) BuildMatcher(key string) error {
 	mDef := def.(*defs.MatcherDef)
 	matcher, err := m.BuildMatcherFromDef(mDef)
 	if err != nil {
+		delete(m.mMap, key) // don't keep a matcher of a former definition
 		return err
 	}
 	m.mMap[key] = matcher
-- 
2.43.0


From 94513fd1094ed7f6db3a6b212897b9429b3de4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:14 +0000
Subject: [PATCH 20/47] fix: RangeRules stops for all policies, rules never
 share the key slice

---
 model/model.go | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/model/model.go b/model/model.go
index d35c53a..420920f 100644
--- a/model/model.go
+++ b/model/model.go
@@ -379,9 +379,9 @@ func (m *Model) SetEffector(key string, effector e.IEffector) {
 }
 
 func (m *Model) RangeMatches(matcher matcher.IMatcher, rDef *defs.RequestDef, rvals []interface{}, fn func(rule []string) bool) error {
-	policyKey := []string{matcher.GetPolicyKey()}
+	policyKey := matcher.GetPolicyKey()
 	return matcher.RangeMatches(*rDef, rvals, *m.fm, func(rule []string) bool {
-		return fn(append(policyKey, rule...))
+		return fn(withKey(policyKey, rule))
 	})
 }
 
@@ -418,17 +418,33 @@ func (m *Model) String() string {
 	return res
 }
 
+// withKey returns a copy of the rule prefixed with its key
+func withKey(key string, rule []string) []string {
+	res := make([]string, 0, len(rule)+1)
+	res = append(res, key)
+	return append(res, rule...)
+}
+
 func (m *Model) RangeRules(fn func(rule []string) bool) {
+	cont := true
 	for pKey, p := range m.pMap {
-		ruleKey := []string{pKey}
+		if !cont {
+			return
+		}
+		key := pKey
 		p.Range(func(rule []string) bool {
-			return fn(append(ruleKey, rule...))
+			cont = fn(withKey(key, rule))
+			return cont
 		})
 	}
 	for gKey, rm := range m.rpMap {
-		ruleKey := []string{gKey}
+		if !cont {
+			return
+		}
+		key := gKey
 		rm.Range(func(rule []string) bool {
-			return fn(append(ruleKey, rule...))
+			cont = fn(withKey(key, rule))
+			return cont
 		})
 	}
 }
-- 
2.43.0


From b2a591be0f2a33eab1438177b31304420f4a1f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:16 +0000
Subject: [PATCH 21/47] fix: stored rules don't share memory with the caller

---
 model/model.go         |  4 ++--
 model/policy/policy.go | 10 ++++++++--
 rbac/role_policy.go    |  2 +-
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/model/model.go b/model/model.go
index 420920f..2265482 100644
--- a/model/model.go
+++ b/model/model.go
@@ -265,7 +265,7 @@ func (m *Model) AddRule(rule []string) (bool, error) {
 		return false, fmt.Errorf(str.ERR_POLICY_NOT_FOUND, key)
 	}
 	if added {
-		m.Emitter.EmitEvent(RULE_ADDED, rule)
+		m.Emitter.EmitEvent(RULE_ADDED, withKey(key, rule[1:]))
 	}
 	return added, err
 }
@@ -287,7 +287,7 @@ func (m *Model) RemoveRule(rule []string) (bool, error) {
 		return false, fmt.Errorf(str.ERR_POLICY_NOT_FOUND, key)
 	}
 	if removed {
-		m.Emitter.EmitEvent(RULE_REMOVED, rule)
+		m.Emitter.EmitEvent(RULE_REMOVED, withKey(key, rule[1:]))
 	}
 	return removed, err
 }
diff --git a/model/policy/policy.go b/model/policy/policy.go
index c80337a..01b70c4 100644
--- a/model/policy/policy.go
+++ b/model/policy/policy.go
@@ -40,6 +40,7 @@ func (p *Policy) AddRule(rule []string) (bool, error) {
 	if _, ok := p.ruleMap[key]; ok {
 		return false, nil
 	}
+	rule = copyRule(rule)
 	p.ruleMap[key] = rule
 	p.Emitter.EmitEvent(EVT_RULE_ADDED, rule)
 	return true, nil
@@ -47,7 +48,7 @@ func (p *Policy) AddRule(rule []string) (bool, error) {
 
 func (p *Policy) RemoveRule(rule []string) (bool, error) {
 	key := util.Hash(rule)
-	_, ok := p.ruleMap[key]
+	rule, ok := p.ruleMap[key]
 	if !ok {
 		return false, nil
 	}
@@ -56,9 +57,14 @@ func (p *Policy) RemoveRule(rule []string) (bool, error) {
 	return true, nil
 }
 
+// copyRule is used to never share memory with the caller
+func copyRule(rule []string) []string {
+	return append([]string{}, rule...)
+}
+
 func (p *Policy) Range(fn func(rule []string) bool) {
 	for _, r := range p.ruleMap {
-		if !fn(r) {
+		if !fn(copyRule(r)) {
 			break
 		}
 	}
diff --git a/rbac/role_policy.go b/rbac/role_policy.go
index d719be1..100373b 100644
--- a/rbac/role_policy.go
+++ b/rbac/role_policy.go
@@ -26,7 +26,7 @@ func (p *RolePolicy) AddRule(rule []string) (bool, error) {
 	if !added || err != nil {
 		return added, err
 	}
-	p.Emitter.EmitEvent(policy.EVT_RULE_ADDED, rule)
+	p.Emitter.EmitEvent(policy.EVT_RULE_ADDED, append([]string{}, rule...))
 	return true, nil
 }
 
-- 
2.43.0


From efc40722a4e2d0d9b065e5905918b8b72ba68eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:18 +0000
Subject: [PATCH 22/47] fix: GetDistinct reports columns which a rule does not
 have

---
 model/policy/policy_api.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/model/policy/policy_api.go b/model/policy/policy_api.go
index 45381d1..d9fa54c 100644
--- a/model/policy/policy_api.go
+++ b/model/policy/policy_api.go
@@ -1,7 +1,10 @@
 package policy
 
 import (
+	"errors"
+
 	"github.com/abichinger/fastac/api"
+	"github.com/abichinger/fastac/str"
 	"github.com/abichinger/fastac/util"
 	em "github.com/vansante/go-event-emitter"
 )
@@ -23,14 +26,22 @@ type IPolicy interface {
 
 func GetDistinct(p IPolicy, columns []int) ([][]string, error) {
 	resMap := make(map[string][]string)
+	var err error
 	p.Range(func(rule []string) bool {
 		values := make([]string, len(columns))
 		for i, column := range columns {
+			if column < 0 || column >= len(rule) {
+				err = errors.New(str.ERR_RULE_TOO_SHORT)
+				return false
+			}
 			values[i] = rule[column]
 		}
 		resMap[util.Hash(values)] = values
 		return true
 	})
+	if err != nil {
+		return nil, err
+	}
 	res := make([][]string, 0)
 	for _, values := range resMap {
 		res = append(res, values)
-- 
2.43.0


From 2017f70da15d37e6068947c9a0c49f3f8ae984e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:43 +0000
Subject: [PATCH 23/47] fix: definitions are printed in a form which the parser
 does not change

---
 model/defs/defs.go        |  9 ++++-----
 model/defs/matcher_def.go |  8 ++++++--
 model/defs/util.go        | 21 +++++++++++++++++++++
 3 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/model/defs/defs.go b/model/defs/defs.go
index 51d84a6..1db1075 100644
--- a/model/defs/defs.go
+++ b/model/defs/defs.go
@@ -16,7 +16,6 @@ package defs
 
 import (
 	"errors"
-	"fmt"
 	"regexp"
 	"strings"
 
@@ -127,7 +126,7 @@ func (def *PolicyDef) GetParameters(rule, names []string) ([]string, error) {
 }
 
 func (def *PolicyDef) String() string {
-	return fmt.Sprintf("%s = %s", def.key, strings.Join(def.args, DefaultSep+" "))
+	return formatDef(def.key, strings.Join(def.args, DefaultSep+" "))
 }
 
 type RequestDef struct {
@@ -184,7 +183,7 @@ func (def *RequestDef) GetParameters(values []interface{}, names []string) ([]in
 }
 
 func (def *RequestDef) String() string {
-	return fmt.Sprintf("%s = %s", def.key, strings.Join(def.args, DefaultSep+" "))
+	return formatDef(def.key, strings.Join(def.args, DefaultSep+" "))
 }
 
 type EffectDef struct {
@@ -208,7 +207,7 @@ func (def *EffectDef) Expr() string {
 }
 
 func (def *EffectDef) String() string {
-	return fmt.Sprintf("%s = %s", def.key, def.expr)
+	return formatDef(def.key, def.expr)
 }
 
 type RoleDef struct {
@@ -236,5 +235,5 @@ func (def *RoleDef) String() string {
 	for i := 0; i < def.nargs; i++ {
 		args[i] = DefaultRoleParty
 	}
-	return fmt.Sprintf("%s = %s", def.key, strings.Join(args, DefaultSep))
+	return formatDef(def.key, strings.Join(args, DefaultSep))
 }
diff --git a/model/defs/matcher_def.go b/model/defs/matcher_def.go
index e82e25e..2dacbb0 100644
--- a/model/defs/matcher_def.go
+++ b/model/defs/matcher_def.go
@@ -287,6 +287,10 @@ func (def *MatcherDef) GetPolicyKey() string {
 }
 
 func (def *MatcherDef) String() string {
-	return fmt.Sprintf("%s = %s", def.key, def.expr)
-
+	expr := def.expr
+	if iniVarReg.MatchString(expr) {
+		// can only be part of a string literal
+		expr = strings.ReplaceAll(expr, "%(", `%\(`)
+	}
+	return formatDef(def.key, expr)
 }
diff --git a/model/defs/util.go b/model/defs/util.go
index 24f8726..82b648a 100644
--- a/model/defs/util.go
+++ b/model/defs/util.go
@@ -1,6 +1,8 @@
 package defs
 
 import (
+	"fmt"
+	"regexp"
 	"strconv"
 	"strings"
 )
@@ -23,3 +25,22 @@ func SplitMatcherKey(key string) (string, int) {
 	}
 	return mKey, index
 }
+
+// iniVarReg finds references to other keys, which are replaced when a model is loaded
+var iniVarReg = regexp.MustCompile(`%\(([^)]+)\)s`)
+
+// formatDef returns the line of a definition. The value is quoted, if it would be changed by
+// the ini parser otherwise
+func formatDef(key, value string) string {
+	n := len(value)
+	quote := ""
+	if strings.ContainsAny(value, "#;\n\r") || strings.TrimSpace(value) != value ||
+		strings.HasPrefix(value, "`") || strings.HasPrefix(value, `"""`) || strings.HasSuffix(value, `\`) ||
+		(n > 1 && (value[0] == '"' || value[0] == '\'') && value[0] == value[n-1]) {
+		quote = "`"
+		if strings.Contains(value, "\n") && strings.Contains(value, "`") {
+			quote = `"""`
+		}
+	}
+	return fmt.Sprintf("%s = %s%s%s", key, quote, value, quote)
+}
-- 
2.43.0


From f49e8afa3cc75f1e2c8933d71bfbf5521e53e327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:00 +0000
Subject: [PATCH 24/47] fix: the logger isn't created by concurrent requests

---
 log/log.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/log/log.go b/log/log.go
index f7858f5..7ff8105 100644
--- a/log/log.go
+++ b/log/log.go
@@ -6,7 +6,7 @@ import (
 	log "github.com/sirupsen/logrus"
 )
 
-var defaultLogger log.FieldLogger
+var defaultLogger log.FieldLogger = NullLogger()
 
 func NullLogger() log.FieldLogger {
 	log := log.New()
@@ -15,12 +15,12 @@ func NullLogger() log.FieldLogger {
 }
 
 func SetLogger(logger log.FieldLogger) {
+	if logger == nil {
+		logger = NullLogger()
+	}
 	defaultLogger = logger
 }
 
 func Logger() log.FieldLogger {
-	if defaultLogger == nil {
-		SetLogger(NullLogger())
-	}
 	return defaultLogger
 }
-- 
2.43.0


From e6a0b2e22fc8b5446597aa187e12cd90ec5139eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:37 +0000
Subject: [PATCH 25/47] fix: invalid patterns and addresses are errors, not
 panics

---
 util/builtin_operators.go | 52 ++++++++++++++++++++++++++++++---------
 1 file changed, 41 insertions(+), 11 deletions(-)

diff --git a/util/builtin_operators.go b/util/builtin_operators.go
index 2dcc896..93ac7fa 100755
--- a/util/builtin_operators.go
+++ b/util/builtin_operators.go
@@ -85,34 +85,46 @@ func ValidateVariadicArgs(expectedLen int, args ...interface{}) error {
 	return nil
 }
 
+func regexMatch(key1 string, key2 string) (bool, error) {
+	return regexp.MatchString(key2, key1)
+}
+
 // RegexMatch determines whether key1 matches the pattern of key2 in regular expression.
 func RegexMatch(key1 string, key2 string) bool {
-	res, err := regexp.MatchString(key2, key1)
+	res, err := regexMatch(key1, key2)
 	if err != nil {
 		panic(err)
 	}
 	return res
 }
 
-// IPMatch determines whether IP address ip1 matches the pattern of IP address ip2, ip2 can be an IP address or a CIDR pattern.
-// For example, "192.168.2.123" matches "192.168.2.0/24"
-func IPMatch(ip1 string, ip2 string) bool {
+func ipMatch(ip1 string, ip2 string) (bool, error) {
 	objIP1 := net.ParseIP(ip1)
 	if objIP1 == nil {
-		panic("invalid argument: ip1 in IPMatch() function is not an IP address.")
+		return false, errors.New("invalid argument: ip1 in IPMatch() function is not an IP address.")
 	}
 
 	_, cidr, err := net.ParseCIDR(ip2)
 	if err != nil {
 		objIP2 := net.ParseIP(ip2)
 		if objIP2 == nil {
-			panic("invalid argument: ip2 in IPMatch() function is neither an IP address nor a CIDR.")
+			return false, errors.New("invalid argument: ip2 in IPMatch() function is neither an IP address nor a CIDR.")
 		}
 
-		return objIP1.Equal(objIP2)
+		return objIP1.Equal(objIP2), nil
 	}
 
-	return cidr.Contains(objIP1)
+	return cidr.Contains(objIP1), nil
+}
+
+// IPMatch determines whether IP address ip1 matches the pattern of IP address ip2, ip2 can be an IP address or a CIDR pattern.
+// For example, "192.168.2.123" matches "192.168.2.0/24"
+func IPMatch(ip1 string, ip2 string) bool {
+	res, err := ipMatch(ip1, ip2)
+	if err != nil {
+		panic(err.Error())
+	}
+	return res
 }
 
 // GlobMatch determines whether key1 matches the pattern of key2 using glob pattern
@@ -148,6 +160,21 @@ func WrapMatchingFunc(fn MatchingFunc) govaluate.ExpressionFunction {
 	}
 }
 
+// wrapMatchingFuncErr is like WrapMatchingFunc, the errors of fn are returned
+func wrapMatchingFuncErr(name string, fn func(str, pattern string) (bool, error)) govaluate.ExpressionFunction {
+	return func(args ...interface{}) (interface{}, error) {
+		if err := ValidateVariadicArgs(2, args...); err != nil {
+			return false, fmt.Errorf("%s: %s", name, err)
+		}
+
+		res, err := fn(args[0].(string), args[1].(string))
+		if err != nil {
+			return false, fmt.Errorf("%s: %s", name, err)
+		}
+		return res, nil
+	}
+}
+
 func nextSegment(path, sep string) (seg string, remaining string, last bool) {
 	i := strings.Index(path, sep)
 	if i == -1 {
@@ -226,11 +253,14 @@ func IsPathPattern2(path string) bool {
 
 var PathMatchFunc = WrapMatchingFunc(PathMatch)
 var PathMatchFunc2 = WrapMatchingFunc(PathMatch2)
-var RegexMatchFunc = WrapMatchingFunc(RegexMatch)
-var IPMatchFunc = WrapMatchingFunc(IPMatch)
+var RegexMatchFunc = wrapMatchingFuncErr("RegexMatch", regexMatch)
+var IPMatchFunc = wrapMatchingFuncErr("IPMatch", ipMatch)
 
 const defaultPrefix = "p'"
 
 var PathMatcher = NewMatcher(IsPathPattern, PathMatch)
 var PathMatcher2 = NewMatcher(IsPathPattern2, PathMatch2)
-var RegexMatcher = NewPrefixMatcher(defaultPrefix, RegexMatch)
+var RegexMatcher = NewPrefixMatcher(defaultPrefix, func(str, pattern string) bool {
+	res, err := regexMatch(str, pattern)
+	return err == nil && res
+})
-- 
2.43.0


From 8d63e57e9e69a3f9a779f0ed39b93deba560356c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:39 +0000
Subject: [PATCH 26/47] fix: the cache returns the latest value of a key

---
 util/cache.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/util/cache.go b/util/cache.go
index 3ace430..f926cb3 100644
--- a/util/cache.go
+++ b/util/cache.go
@@ -68,8 +68,12 @@ func (cache *LRUCache) Get(key interface{}) (value interface{}, ok bool) {
 }
 
 func (cache *LRUCache) Put(key interface{}, value interface{}) {
+	if cache.capacity <= 0 {
+		return
+	}
 	n, ok := cache.m[key]
 	if ok {
+		n.value = value
 		cache.remove(n, false)
 	} else {
 		n = &node{key, value, nil, nil}
-- 
2.43.0


From 25af0edca608d48e5c029c61931d6753398d7aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:42 +0000
Subject: [PATCH 27/47] fix: concurrent cache lookups don't race

---
 util/cache.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/util/cache.go b/util/cache.go
index f926cb3..9709ac2 100644
--- a/util/cache.go
+++ b/util/cache.go
@@ -96,8 +96,9 @@ func NewSyncLRUCache(capacity int) *SyncLRUCache {
 }
 
 func (cache *SyncLRUCache) Get(key interface{}) (value interface{}, ok bool) {
-	cache.rwm.RLock()
-	defer cache.rwm.RUnlock()
+	// a lookup changes the order of the entries
+	cache.rwm.Lock()
+	defer cache.rwm.Unlock()
 	return cache.LRUCache.Get(key)
 }
 
-- 
2.43.0


From c28cce70065a7f7ba5b0c98e07d7beb1ad07e769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:58 +0000
Subject: [PATCH 28/47] fix: path separators of more than one character

---
 util/builtin_operators.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/builtin_operators.go b/util/builtin_operators.go
index 93ac7fa..7d1b467 100755
--- a/util/builtin_operators.go
+++ b/util/builtin_operators.go
@@ -180,7 +180,7 @@ func nextSegment(path, sep string) (seg string, remaining string, last bool) {
 	if i == -1 {
 		return path, "", true
 	}
-	return path[:i], path[i+1:], false
+	return path[:i], path[i+len(sep):], false
 }
 
 func isDynamicSegment(segment string, prefix, suffix byte) bool {
-- 
2.43.0


From 4d2b7069f9068953294bb65bc9ad39ddfe09beba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:00 +0000
Subject: [PATCH 29/47] fix: a file name given as adapter is used as adapter

---
 enforcer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enforcer.go b/enforcer.go
index c185935..dd6bc5f 100644
--- a/enforcer.go
+++ b/enforcer.go
@@ -99,7 +99,7 @@ func NewEnforcer(model interface{}, adapter interface{}, options ...Option) (*En
 	var a3 storage.Adapter
 	switch a2 := adapter.(type) {
 	case string:
-		a3 := a.NewFileAdapter(a2)
+		a3 = a.NewFileAdapter(a2)
 		if err := a3.LoadPolicy(e.model); err != nil {
 			return nil, err
 		}
-- 
2.43.0


From fa9a50919efdf463a7b0021bbac7146f168cf054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:01 +0000
Subject: [PATCH 30/47] fix: changes stay pending until the adapter accepted
 them

---
 storage/controller.go | 33 +++++++++++----------------------
 1 file changed, 11 insertions(+), 22 deletions(-)

diff --git a/storage/controller.go b/storage/controller.go
index 2c9e208..ddc22b9 100644
--- a/storage/controller.go
+++ b/storage/controller.go
@@ -125,46 +125,35 @@ func (sc *StorageController) AutosaveEnabled() bool {
 	return sc.autosave
 }
 
+// flush sends the pending operations one by one. Operations stay pending until the adapter accepted them
 func (sc *StorageController) flush() error {
 	for len(sc.q) > 0 {
 		operation := sc.q[0]
-		sc.q = sc.q[1:]
 		if err := sc.run(operation.opc, operation.rule); err != nil {
 			return err
 		}
+		sc.q = sc.q[1:]
 	}
 	return nil
 }
 
+// batchFlush sends successive operations of the same kind as one batch
 func (sc *StorageController) batchFlush() error {
-
-	rules := [][]string{}
-
-	var currentOpc opcode
-	if len(sc.q) > 0 {
-		currentOpc = sc.q[0].opc
-	}
-
 	for len(sc.q) > 0 {
-
-		operation := sc.q[0]
-		sc.q = sc.q[1:]
-
-		if currentOpc == operation.opc {
-			rules = append(rules, operation.rule)
-		} else {
-			if err := sc.runBatch(currentOpc, rules); err != nil {
-				return err
+		currentOpc := sc.q[0].opc
+		rules := [][]string{}
+		for _, operation := range sc.q {
+			if operation.opc != currentOpc {
+				break
 			}
-			currentOpc = operation.opc
-			rules = [][]string{operation.rule}
+			rules = append(rules, operation.rule)
 		}
-	}
 
-	if len(rules) > 0 {
+		n := len(rules)
 		if err := sc.runBatch(currentOpc, rules); err != nil {
 			return err
 		}
+		sc.q = sc.q[n:]
 	}
 	return nil
 }
-- 
2.43.0


From 88bc2de7149f2427602a432324399a34777cb712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:02 +0000
Subject: [PATCH 31/47] fix: a failing autosave is reported as an error, not as
 a panic

---
 enforcer.go           | 24 ++++++++++++++++--------
 storage/controller.go | 15 ++++++++++++---
 2 files changed, 28 insertions(+), 11 deletions(-)

diff --git a/enforcer.go b/enforcer.go
index dd6bc5f..046dd18 100644
--- a/enforcer.go
+++ b/enforcer.go
@@ -177,7 +177,7 @@ func (e *Enforcer) Flush() error {
 // Add grouping rule:
 //  e.AddRule([]string{"g", "alice", "group1"})
 func (e *Enforcer) AddRule(rule []string) (bool, error) {
-	return e.model.AddRule(rule)
+	return e.autosaved(e.model.AddRule(rule))
 }
 
 // RemoveRule removes a rule from the model
@@ -188,17 +188,25 @@ func (e *Enforcer) AddRule(rule []string) (bool, error) {
 // Add grouping rule:
 //  e.RemoveRule([]string{"g", "alice", "group1"})
 func (e *Enforcer) RemoveRule(rule []string) (bool, error) {
-	return e.model.RemoveRule(rule)
+	return e.autosaved(e.model.RemoveRule(rule))
+}
+
+// autosaved adds the error of a failed autosave to the result of a rule change
+func (e *Enforcer) autosaved(changed bool, err error) (bool, error) {
+	if saveErr := e.sc.AutosaveError(); saveErr != nil && err == nil {
+		err = saveErr
+	}
+	return changed, err
 }
 
 // AddRules adds multiple rules to the model
-func (e *Enforcer) AddRules(rules [][]string) error {
+func (e *Enforcer) AddRules(rules [][]string) (err error) {
 	if e.sc.AutosaveEnabled() {
 		e.sc.DisableAutosave()
 		defer func() {
 			e.sc.EnableAutosave()
-			if err := e.sc.Flush(); err != nil {
-				panic(err)
+			if flushErr := e.sc.Flush(); flushErr != nil && err == nil {
+				err = flushErr
 			}
 		}()
 	}
@@ -211,13 +219,13 @@ func (e *Enforcer) AddRules(rules [][]string) error {
 }
 
 // RemoveRules removes multiple rules from the model
-func (e *Enforcer) RemoveRules(rules [][]string) error {
+func (e *Enforcer) RemoveRules(rules [][]string) (err error) {
 	if e.sc.AutosaveEnabled() {
 		e.sc.DisableAutosave()
 		defer func() {
 			e.sc.EnableAutosave()
-			if err := e.sc.Flush(); err != nil {
-				panic(err)
+			if flushErr := e.sc.Flush(); flushErr != nil && err == nil {
+				err = flushErr
 			}
 		}()
 	}
diff --git a/storage/controller.go b/storage/controller.go
index ddc22b9..108b5ef 100644
--- a/storage/controller.go
+++ b/storage/controller.go
@@ -45,6 +45,7 @@ type StorageController struct {
 	adapter   Adapter
 	q         []operation
 	wait      int
+	err       error // error of the last failed autosave
 	listeners []listener
 }
 
@@ -105,9 +106,8 @@ func (sc *StorageController) addOp(opc opcode, rule []string) {
 	if sc.autosave {
 		sc.wait--
 		if sc.wait <= 0 {
-			err := sc.Flush()
-			if err != nil {
-				panic(err)
+			if err := sc.Flush(); err != nil {
+				sc.err = err
 			}
 		}
 	}
@@ -171,6 +171,7 @@ func (sc *StorageController) Flush() error {
 	}
 
 	sc.wait = 0
+	sc.err = nil
 	return err
 }
 
@@ -200,6 +201,14 @@ func (sc *StorageController) runBatch(opc opcode, rules [][]string) error {
 	return err
 }
 
+// AutosaveError returns and resets the error of the last autosave, which failed.
+// The changes are still pending.
+func (sc *StorageController) AutosaveError() error {
+	err := sc.err
+	sc.err = nil
+	return err
+}
+
 func (sc *StorageController) AddWait(i int) {
 	sc.wait += i
 }
-- 
2.43.0


From 58ab7767cabcb62ba05821252f92858a16741d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:04 +0000
Subject: [PATCH 32/47] fix: storage settings and pending changes survive
 exchanging the adapter

---
 enforcer.go           | 26 +++++++++++++++++++-------
 storage/controller.go |  5 +++++
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/enforcer.go b/enforcer.go
index 046dd18..80df143 100644
--- a/enforcer.go
+++ b/enforcer.go
@@ -33,6 +33,8 @@ type Enforcer struct {
 	model   m.IModel
 	adapter storage.Adapter
 	sc      *storage.StorageController
+
+	noAdapter bool // storage is disabled, because no adapter was supplied
 }
 
 type Option func(*Enforcer) error
@@ -58,6 +60,7 @@ func OptionAutosave(autosave bool) Option {
 // If storage is disabled, the StorageController will not listen for rule updates
 func OptionStorage(enable bool) Option {
 	return func(e *Enforcer) error {
+		e.noAdapter = false
 		if enable {
 			e.sc.Enable()
 		}
@@ -97,6 +100,7 @@ func NewEnforcer(model interface{}, adapter interface{}, options ...Option) (*En
 	}
 
 	var a3 storage.Adapter
+	noAdapter := false
 	switch a2 := adapter.(type) {
 	case string:
 		a3 = a.NewFileAdapter(a2)
@@ -107,10 +111,14 @@ func NewEnforcer(model interface{}, adapter interface{}, options ...Option) (*En
 		a3 = a2
 	default:
 		a3 = &a.NoopAdapter{}
-		options = append([]Option{OptionStorage(false)}, options...)
+		noAdapter = true
 	}
 
 	e.SetAdapter(a3)
+	if noAdapter {
+		e.sc.Disable()
+		e.noAdapter = true
+	}
 
 	for _, option := range options {
 		if err := option(e); err != nil {
@@ -130,14 +138,18 @@ func (e *Enforcer) GetStorageController() *storage.StorageController {
 	return e.sc
 }
 
-// SetAdapter sets the storage adapter
+// SetAdapter sets the storage adapter. Settings and pending changes of the former adapter are kept
 func (e *Enforcer) SetAdapter(adapter storage.Adapter) {
-	autosave := false
-	if e.sc != nil {
-		autosave = e.sc.AutosaveEnabled()
-		e.sc.Disable()
+	if e.sc == nil {
+		e.sc = storage.NewStorageController(e.model, adapter, false)
+	} else {
+		e.sc.SetAdapter(adapter)
+		if e.noAdapter {
+			// default: enabled, if an adapter is supplied
+			e.sc.Enable()
+		}
 	}
-	e.sc = storage.NewStorageController(e.model, adapter, autosave)
+	e.noAdapter = false
 	e.adapter = adapter
 }
 
diff --git a/storage/controller.go b/storage/controller.go
index 108b5ef..363d530 100644
--- a/storage/controller.go
+++ b/storage/controller.go
@@ -101,6 +101,11 @@ func (sc *StorageController) Disable() {
 	sc.listeners = []listener{}
 }
 
+// SetAdapter exchanges the adapter. Settings and pending changes are kept
+func (sc *StorageController) SetAdapter(adapter Adapter) {
+	sc.adapter = adapter
+}
+
 func (sc *StorageController) addOp(opc opcode, rule []string) {
 	sc.q = append(sc.q, operation{opc, rule})
 	if sc.autosave {
-- 
2.43.0


From f7e6e3003554e587d1a750fb399b4f0239849c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:05 +0000
Subject: [PATCH 33/47] fix: rule changes of a new model reach the storage

---
 enforcer.go           |  1 +
 storage/controller.go | 10 ++++++++++
 2 files changed, 11 insertions(+)

diff --git a/enforcer.go b/enforcer.go
index 80df143..2a22a0f 100644
--- a/enforcer.go
+++ b/enforcer.go
@@ -371,6 +371,7 @@ func (e *Enforcer) enforce(ctx *Context, rvals []interface{}) (bool, error) {
 
 func (e *Enforcer) SetModel(model m.IModel) {
 	e.model = model
+	e.sc.SetEmitter(model)
 }
 
 func (e *Enforcer) GetModel() m.IModel {
diff --git a/storage/controller.go b/storage/controller.go
index 363d530..79f43af 100644
--- a/storage/controller.go
+++ b/storage/controller.go
@@ -106,6 +106,16 @@ func (sc *StorageController) SetAdapter(adapter Adapter) {
 	sc.adapter = adapter
 }
 
+// SetEmitter exchanges the source of rule changes. Settings and pending changes are kept
+func (sc *StorageController) SetEmitter(eventemitter api.IAddRemoveListener) {
+	enabled := sc.Enabled()
+	sc.Disable()
+	sc.em = eventemitter
+	if enabled {
+		sc.Enable()
+	}
+}
+
 func (sc *StorageController) addOp(opc opcode, rule []string) {
 	sc.q = append(sc.q, operation{opc, rule})
 	if sc.autosave {
-- 
2.43.0


From f8cad72d7663d59ee5cdcd863c74bceeab274844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:28 +0000
Subject: [PATCH 34/47] fix: policy files are read as a whole, lines of any
 length and values with line breaks

---
 storage/adapter/fileadapter.go | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/storage/adapter/fileadapter.go b/storage/adapter/fileadapter.go
index 682f49e..fd45773 100644
--- a/storage/adapter/fileadapter.go
+++ b/storage/adapter/fileadapter.go
@@ -17,6 +17,7 @@ package adapter
 import (
 	"bufio"
 	"encoding/csv"
+	"io"
 	"os"
 	"strings"
 
@@ -27,17 +28,21 @@ import (
 )
 
 // LoadPolicyLine loads a text line as a policy rule to model.
+func newReader(reader io.Reader) *csv.Reader {
+	r := csv.NewReader(reader)
+	r.Comma = ','
+	r.Comment = '#'
+	r.TrimLeadingSpace = true
+	r.FieldsPerRecord = -1
+	return r
+}
+
 func LoadPolicyLine(line string, m api.IAddRuleBool) error {
 	if line == "" || strings.HasPrefix(line, "#") {
 		return nil
 	}
 
-	r := csv.NewReader(strings.NewReader(line))
-	r.Comma = ','
-	r.Comment = '#'
-	r.TrimLeadingSpace = true
-
-	tokens, err := r.Read()
+	tokens, err := newReader(strings.NewReader(line)).Read()
 	if err != nil {
 		return err
 	}
@@ -85,14 +90,20 @@ func (a *FileAdapter) LoadPolicy(model api.IAddRuleBool) error {
 	}
 	defer file.Close()
 
-	scanner := bufio.NewScanner(file)
-	for scanner.Scan() {
-		if err := LoadPolicyLine(scanner.Text(), model); err != nil {
+	// values may contain line breaks
+	r := newReader(file)
+	for {
+		tokens, err := r.Read()
+		if err == io.EOF {
+			return nil
+		}
+		if err != nil {
+			return err
+		}
+		if _, err := model.AddRule(tokens); err != nil {
 			return err
 		}
 	}
-
-	return scanner.Err()
 }
 
 func getWriter(path string) (*bufio.Writer, error) {
-- 
2.43.0


From 512b253b93fa1333bde4d0b44b04cda9cf8a958b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:30 +0000
Subject: [PATCH 35/47] fix: saved values are quoted where the reader needs it

---
 storage/adapter/fileadapter.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/storage/adapter/fileadapter.go b/storage/adapter/fileadapter.go
index fd45773..44d94e5 100644
--- a/storage/adapter/fileadapter.go
+++ b/storage/adapter/fileadapter.go
@@ -20,6 +20,7 @@ import (
 	"io"
 	"os"
 	"strings"
+	"unicode"
 
 	"github.com/abichinger/fastac/api"
 	"github.com/abichinger/fastac/model/defs"
@@ -124,13 +125,33 @@ func getWriter(path string) (*bufio.Writer, error) {
 	return bufio.NewWriter(f), nil
 }
 
+// formatValue quotes a value, if it would be changed by the reader otherwise
+func formatValue(value string, first, single bool) string {
+	if !strings.ContainsAny(value, ",\"\n\r") && strings.TrimLeftFunc(value, unicode.IsSpace) == value &&
+		!(first && strings.HasPrefix(value, "#")) && !(single && value == "") {
+		return value
+	}
+	value = strings.ReplaceAll(value, `"`, `""`)
+	// the reader removes one carriage return in front of a line feed
+	value = strings.ReplaceAll(value, "\r\n", "\r\r\n")
+	return `"` + value + `"`
+}
+
+func formatRule(rule []string) string {
+	values := make([]string, len(rule))
+	for i, value := range rule {
+		values[i] = formatValue(value, i == 0, len(rule) == 1)
+	}
+	return strings.Join(values, ", ")
+}
+
 func (a *FileAdapter) SavePolicy(model api.IRangeRules) error {
 	writer, err := getWriter(a.path)
 	if err != nil {
 		return err
 	}
 	model.RangeRules(func(rule []string) bool {
-		if _, err = writer.WriteString(strings.Join(rule, ", ") + "\n"); err != nil {
+		if _, err = writer.WriteString(formatRule(rule) + "\n"); err != nil {
 			return false
 		}
 		return true
-- 
2.43.0


From d700816458cb437112158bd891276cb4b8f8ff98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:31 +0000
Subject: [PATCH 36/47] fix: saving replaces the policy file at once

---
 storage/adapter/fileadapter.go | 54 ++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 26 deletions(-)

diff --git a/storage/adapter/fileadapter.go b/storage/adapter/fileadapter.go
index 44d94e5..ea26c65 100644
--- a/storage/adapter/fileadapter.go
+++ b/storage/adapter/fileadapter.go
@@ -25,7 +25,6 @@ import (
 	"github.com/abichinger/fastac/api"
 	"github.com/abichinger/fastac/model/defs"
 	"github.com/abichinger/fastac/model/policy"
-	"github.com/abichinger/fastac/util"
 )
 
 // LoadPolicyLine loads a text line as a policy rule to model.
@@ -107,24 +106,6 @@ func (a *FileAdapter) LoadPolicy(model api.IAddRuleBool) error {
 	}
 }
 
-func getWriter(path string) (*bufio.Writer, error) {
-	if exists, err := util.FileExists(path); err != nil {
-		return nil, err
-	} else if exists {
-		if err := os.Remove(path); err != nil {
-			return nil, err
-		}
-	}
-	if _, err := os.Create(path); err != nil {
-		return nil, err
-	}
-	f, err := os.OpenFile(path, os.O_WRONLY, 0600)
-	if err != nil {
-		return nil, err
-	}
-	return bufio.NewWriter(f), nil
-}
-
 // formatValue quotes a value, if it would be changed by the reader otherwise
 func formatValue(value string, first, single bool) string {
 	if !strings.ContainsAny(value, ",\"\n\r") && strings.TrimLeftFunc(value, unicode.IsSpace) == value &&
@@ -146,21 +127,42 @@ func formatRule(rule []string) string {
 }
 
 func (a *FileAdapter) SavePolicy(model api.IRangeRules) error {
-	writer, err := getWriter(a.path)
+	// the policy is replaced at once, a failed save must not destroy it
+	tmp := a.path + ".tmp"
+	if err := savePolicyFile(tmp, model); err != nil {
+		_ = os.Remove(tmp)
+		return err
+	}
+	if err := os.Rename(tmp, a.path); err != nil {
+		_ = os.Remove(tmp)
+		return err
+	}
+	return nil
+}
+
+func savePolicyFile(path string, model api.IRangeRules) (err error) {
+	file, err := os.Create(path)
 	if err != nil {
 		return err
 	}
-	model.RangeRules(func(rule []string) bool {
-		if _, err = writer.WriteString(formatRule(rule) + "\n"); err != nil {
-			return false
+	defer func() {
+		if closeErr := file.Close(); err == nil {
+			err = closeErr
 		}
-		return true
+	}()
+
+	writer := bufio.NewWriter(file)
+	model.RangeRules(func(rule []string) bool {
+		_, err = writer.WriteString(formatRule(rule) + "\n")
+		return err == nil
 	})
 	if err != nil {
 		return err
 	}
-
-	return writer.Flush()
+	if err := writer.Flush(); err != nil {
+		return err
+	}
+	return file.Sync()
 }
 
 func (a *FileAdapter) AddRule(rule []string) error {
-- 
2.43.0


From 307714860105e258b6da8f30bff8f2878db1621d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:33 +0000
Subject: [PATCH 37/47] fix: a rule without values can't be added to a policy
 file

---
 storage/adapter/fileadapter.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/storage/adapter/fileadapter.go b/storage/adapter/fileadapter.go
index ea26c65..c93e6fa 100644
--- a/storage/adapter/fileadapter.go
+++ b/storage/adapter/fileadapter.go
@@ -17,6 +17,7 @@ package adapter
 import (
 	"bufio"
 	"encoding/csv"
+	"errors"
 	"io"
 	"os"
 	"strings"
@@ -25,6 +26,7 @@ import (
 	"github.com/abichinger/fastac/api"
 	"github.com/abichinger/fastac/model/defs"
 	"github.com/abichinger/fastac/model/policy"
+	"github.com/abichinger/fastac/str"
 )
 
 // LoadPolicyLine loads a text line as a policy rule to model.
@@ -64,6 +66,14 @@ func NewRuleSet() *RuleSet {
 	return &RuleSet{Policy: policy.NewPolicy(def)}
 }
 
+func (set *RuleSet) AddRule(rule []string) (bool, error) {
+	if len(rule) == 0 {
+		// can't be stored
+		return false, errors.New(str.ERR_RULE_WITHOUT_KEY)
+	}
+	return set.Policy.AddRule(rule)
+}
+
 func (set *RuleSet) RangeRules(fn func(rule []string) bool) {
 	set.Range(func(rule []string) bool {
 		return fn(rule)
-- 
2.43.0


From 0f651fc870e31e98040ca563335a8e4b240ac94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:29 +0000
Subject: [PATCH 38/47] fix: role queries store no temporary roles, patterns
 apply to both ends of a link in any order

---
 rbac/domain_manager.go |   5 +-
 rbac/role.go           |  75 +++++++++++++++---------
 rbac/role_manager.go   | 127 ++++++++++++++++++++++++-----------------
 3 files changed, 125 insertions(+), 82 deletions(-)

diff --git a/rbac/domain_manager.go b/rbac/domain_manager.go
index 135ad93..8bf64d7 100644
--- a/rbac/domain_manager.go
+++ b/rbac/domain_manager.go
@@ -246,10 +246,7 @@ func (dm *DomainManager) GetDomains(name string) ([]string, error) {
 	res := []string{}
 	for _, domains := range domainArr {
 		rm := dm.resolveRoleManager(domains...)
-		role, created := rm.getRole(name)
-		if created {
-			defer rm.removeRole(role.name)
-		}
+		role := rm.findRole(name)
 		if len(role.getUsers()) > 0 || len(role.getRoles()) > 0 {
 			res = append(res, strings.Join(domains, "/"))
 		}
diff --git a/rbac/role.go b/rbac/role.go
index f8976c8..bf8b233 100644
--- a/rbac/role.go
+++ b/rbac/role.go
@@ -94,34 +94,54 @@ func (r *Role) removeMatches() {
 	})
 }
 
-func (r *Role) rangeRoles(fn func(key, value interface{}) bool) {
-	r.roles.Range(fn)
-	r.roles.Range(func(key, value interface{}) bool {
-		role := value.(*Role)
-		role.matched.Range(fn)
-		return true
-	})
+// rangeSelf calls fn for the role and for all patterns which match it
+func (r *Role) rangeSelf(fn func(role *Role)) {
+	fn(r)
 	r.matchedBy.Range(func(key, value interface{}) bool {
-		role := value.(*Role)
-		role.roles.Range(fn)
+		fn(value.(*Role))
 		return true
 	})
 }
 
-func (r *Role) rangeUsers(fn func(key, value interface{}) bool) {
-	r.users.Range(fn)
-	r.users.Range(func(key, value interface{}) bool {
-		role := value.(*Role)
+// rangeLinked calls fn for the roles of all links the role takes part in
+func (r *Role) rangeLinked(fn func(role *Role)) {
+	r.rangeSelf(func(user *Role) {
+		user.roles.Range(func(key, value interface{}) bool {
+			fn(value.(*Role))
+			return true
+		})
+	})
+}
+
+func (r *Role) rangeRoles(fn func(key, value interface{}) bool) {
+	r.rangeLinked(func(role *Role) {
+		fn(role.name, role)
 		role.matched.Range(fn)
-		return true
 	})
-	r.matchedBy.Range(func(key, value interface{}) bool {
-		role := value.(*Role)
-		role.users.Range(fn)
-		return true
+}
+
+func (r *Role) rangeUsers(fn func(key, value interface{}) bool) {
+	r.rangeSelf(func(role *Role) {
+		role.users.Range(func(key, value interface{}) bool {
+			user := value.(*Role)
+			fn(key, user)
+			user.matched.Range(fn)
+			return true
+		})
 	})
 }
 
+func (r *Role) isUnused() bool {
+	unused := true
+	fn := func(key, value interface{}) bool {
+		unused = false
+		return false
+	}
+	r.roles.Range(fn)
+	r.users.Range(fn)
+	return unused
+}
+
 func (r *Role) String() string {
 	roles := r.getRoles()
 
@@ -153,18 +173,21 @@ func (r *Role) String() string {
 }
 
 func (r *Role) getRoles() []string {
-	names := []string{}
-	r.rangeRoles(func(key, value interface{}) bool {
-		names = append(names, key.(string))
-		return true
-	})
-	return names
+	return uniqueNames(r.rangeRoles)
 }
 
 func (r *Role) getUsers() []string {
+	return uniqueNames(r.rangeUsers)
+}
+
+func uniqueNames(rangeFn func(fn func(key, value interface{}) bool)) []string {
 	names := []string{}
-	r.rangeUsers(func(key, value interface{}) bool {
-		names = append(names, key.(string))
+	seen := make(map[string]bool)
+	rangeFn(func(key, value interface{}) bool {
+		if name := key.(string); !seen[name] {
+			seen[name] = true
+			names = append(names, name)
+		}
 		return true
 	})
 	return names
diff --git a/rbac/role_manager.go b/rbac/role_manager.go
index 098da72..ac45b69 100644
--- a/rbac/role_manager.go
+++ b/rbac/role_manager.go
@@ -15,7 +15,6 @@
 package rbac
 
 import (
-	"strings"
 	"sync"
 
 	"github.com/abichinger/fastac/util"
@@ -59,8 +58,12 @@ func (rm *RoleManager) rebuild() {
 	})
 }
 
+// match returns true, if pattern is a pattern and matches str
 func (rm *RoleManager) match(str string, pattern string) bool {
-	cacheKey := strings.Join([]string{str, pattern}, "$$")
+	if !rm.matcher.IsPattern(pattern) {
+		return false
+	}
+	cacheKey := util.Hash([]string{str, pattern})
 	if v, has := rm.matchingFuncCache.Get(cacheKey); has {
 		return v.(bool)
 	} else {
@@ -84,8 +87,9 @@ func (rm *RoleManager) rangeMatchingPatterns(name string, fn func(role *Role)) {
 	rm.patternRoles.Range(func(key, _ interface{}) bool {
 		pattern := key.(string)
 		if pattern != name && rm.match(name, pattern) {
-			value, _ := rm.allRoles.Load(pattern)
-			fn(value.(*Role))
+			if role, ok := rm.load(pattern); ok {
+				fn(role)
+			}
 		}
 		return true
 	})
@@ -99,29 +103,43 @@ func (rm *RoleManager) load(name interface{}) (value *Role, ok bool) {
 }
 
 // loads or creates a role
-func (rm *RoleManager) getRole(name string) (r *Role, created bool) {
-	var role *Role
-	var ok bool
-
-	if role, ok = rm.load(name); !ok {
-		role = newRole(name)
-		rm.allRoles.Store(name, role)
-
-		if rm.matcher != nil {
-			if rm.matcher.IsPattern(name) {
-				rm.patternRoles.Store(name, nil)
-				rm.rangeMatchingRoles(name, func(r *Role) {
-					role.addMatch(r)
-				})
-			} else {
-				rm.rangeMatchingPatterns(name, func(r *Role) {
-					r.addMatch(role)
-				})
-			}
+func (rm *RoleManager) getRole(name string) *Role {
+	role, ok := rm.load(name)
+	if ok {
+		return role
+	}
+
+	role = newRole(name)
+	if rm.matcher != nil {
+		rm.rangeMatchingPatterns(name, func(r *Role) {
+			r.addMatch(role)
+		})
+		if rm.matcher.IsPattern(name) {
+			rm.rangeMatchingRoles(name, func(r *Role) {
+				role.addMatch(r)
+			})
+			rm.patternRoles.Store(name, nil)
 		}
 	}
+	rm.allRoles.Store(name, role)
+	return role
+}
+
+// findRole loads a role for a query. An unknown name is not stored, but it takes part in the
+// links of the patterns which match it.
+func (rm *RoleManager) findRole(name string) *Role {
+	role, ok := rm.load(name)
+	if ok {
+		return role
+	}
 
-	return role, !ok
+	role = newRole(name)
+	if rm.matcher != nil {
+		rm.rangeMatchingPatterns(name, func(r *Role) {
+			role.matchedBy.Store(r.name, r)
+		})
+	}
+	return role
 }
 
 func loadAndDelete(m *sync.Map, name string) (value interface{}, loaded bool) {
@@ -139,6 +157,12 @@ func (rm *RoleManager) removeRole(name string) {
 	rm.patternRoles.Delete(name)
 }
 
+func (rm *RoleManager) removeUnused(role *Role) {
+	if role.isUnused() {
+		rm.removeRole(role.name)
+	}
+}
+
 // SetMatcher support use pattern in g
 func (rm *RoleManager) SetMatcher(matcher util.IMatcher) {
 	rm.matcher = matcher
@@ -161,8 +185,8 @@ func (rm *RoleManager) Clear() error {
 // AddLink adds the inheritance link between role: name1 and role: name2.
 // aka role: name1 inherits role: name2.
 func (rm *RoleManager) AddLink(name1 string, name2 string, domains ...string) (bool, error) {
-	user, _ := rm.getRole(name1)
-	role, _ := rm.getRole(name2)
+	user := rm.getRole(name1)
+	role := rm.getRole(name2)
 
 	if len(domains) > 0 && domains[0] == REDUNDANT_ROLE {
 		user.redundant.LoadOrStore(name2, nil)
@@ -174,14 +198,23 @@ func (rm *RoleManager) AddLink(name1 string, name2 string, domains ...string) (b
 // DeleteLink deletes the inheritance link between role: name1 and role: name2.
 // aka role: name1 does not inherit role: name2 any more.
 func (rm *RoleManager) DeleteLink(name1 string, name2 string, domains ...string) (bool, error) {
-	user, _ := rm.getRole(name1)
-	role, _ := rm.getRole(name2)
+	user, ok := rm.load(name1)
+	if !ok {
+		return false, nil
+	}
+	role, ok := rm.load(name2)
+	if !ok {
+		return false, nil
+	}
 
 	if len(domains) > 0 && domains[0] == REDUNDANT_ROLE {
 		user.redundant.Delete(name2)
 	}
 
-	return user.removeRole(role), nil
+	removed := user.removeRole(role)
+	rm.removeUnused(user)
+	rm.removeUnused(role)
+	return removed, nil
 }
 
 // HasLink determines whether role: name1 inherits role: name2.
@@ -190,55 +223,45 @@ func (rm *RoleManager) HasLink(name1 string, name2 string, domains ...string) (b
 		return true, nil
 	}
 
-	user, userCreated := rm.getRole(name1)
-	role, roleCreated := rm.getRole(name2)
-
-	if userCreated {
-		defer rm.removeRole(user.name)
-	}
-	if roleCreated {
-		defer rm.removeRole(role.name)
-	}
+	user := rm.findRole(name1)
+	role := rm.findRole(name2)
 
-	return rm.hasLinkHelper(role.name, map[string]*Role{user.name: user}, rm.maxHierarchyLevel), nil
+	return rm.hasLinkHelper(role, map[string]*Role{user.name: user}, rm.maxHierarchyLevel), nil
 }
 
-func (rm *RoleManager) hasLinkHelper(targetName string, roles map[string]*Role, level int) bool {
+func (rm *RoleManager) hasLinkHelper(target *Role, roles map[string]*Role, level int) bool {
 	if level <= 0 || len(roles) == 0 {
 		return false
 	}
 
 	nextRoles := map[string]*Role{}
 	for _, role := range roles {
-		if targetName == role.name || (rm.matcher != nil && rm.match(role.name, targetName)) {
+		if target.name == role.name || (rm.matcher != nil && rm.match(role.name, target.name)) {
 			return true
 		}
 		role.rangeRoles(func(key, value interface{}) bool {
 			nextRoles[key.(string)] = value.(*Role)
 			return true
 		})
+		role.rangeLinked(func(linked *Role) {
+			if _, ok := target.matchedBy.Load(linked.name); ok {
+				nextRoles[target.name] = target
+			}
+		})
 	}
 
-	return rm.hasLinkHelper(targetName, nextRoles, level-1)
+	return rm.hasLinkHelper(target, nextRoles, level-1)
 }
 
 // GetRoles gets the roles that a user inherits.
 func (rm *RoleManager) GetRoles(name string, domains ...string) ([]string, error) {
-	user, created := rm.getRole(name)
-	if created {
-		defer rm.removeRole(user.name)
-	}
-	return user.getRoles(), nil
+	return rm.findRole(name).getRoles(), nil
 }
 
 // GetUsers gets the users of a role.
 // domain is an unreferenced parameter here, may be used in other implementations.
 func (rm *RoleManager) GetUsers(name string, domain ...string) ([]string, error) {
-	role, created := rm.getRole(name)
-	if created {
-		defer rm.removeRole(role.name)
-	}
-	return role.getUsers(), nil
+	return rm.findRole(name).getUsers(), nil
 }
 
 // GetDomains gets domains that a user has
-- 
2.43.0


From 1a40e2642390af8f39bb4cb81d29f25dee44b44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:25 +0000
Subject: [PATCH 39/47] fix: domain patterns neither lose nor change explicit
 links, no domain name is special

---
 rbac/domain_manager.go | 302 +++++++++++++++++------------------------
 rbac/role.go           |   2 -
 rbac/role_manager.go   |  21 +--
 3 files changed, 129 insertions(+), 196 deletions(-)

diff --git a/rbac/domain_manager.go b/rbac/domain_manager.go
index 8bf64d7..3efc658 100644
--- a/rbac/domain_manager.go
+++ b/rbac/domain_manager.go
@@ -21,30 +21,38 @@ import (
 	"github.com/abichinger/fastac/util"
 )
 
-const defaultDomain string = "RoleManager"
-
+// DomainManager stores the links of every domain in a separate RoleManager.
+// The links of pattern domains are applied, when a matching domain is queried.
 type DomainManager struct {
-	rmMap             *sync.Map
-	patternMap        *sync.Map
+	links             *RoleManager // links without domain
+	rmMap             *sync.Map    // links of domains, a DomainManager for each domain
 	maxHierarchyLevel int
 	matcher           util.IMatcher
 	domainMatcher     util.IMatcher
 	matchingFuncCache *util.SyncLRUCache
+	mergedCache       *util.SyncLRUCache // links of a domain, including those of matching pattern domains
 }
 
 // NewDomainManager is the constructor for creating an instance of the
 // default DomainManager implementation.
 func NewDomainManager(maxHierarchyLevel int) *DomainManager {
 	dm := &DomainManager{}
-	_ = dm.Clear() // init rmMap and rmCache
 	dm.maxHierarchyLevel = maxHierarchyLevel
+	_ = dm.Clear() // init links, rmMap and caches
 	return dm
 }
 
+func (dm *DomainManager) resetCaches() {
+	dm.matchingFuncCache = util.NewSyncLRUCache(100)
+	dm.mergedCache = util.NewSyncLRUCache(100)
+}
+
 func (dm *DomainManager) SetMatcher(matcher util.IMatcher) {
 	dm.matcher = matcher
+	dm.resetCaches()
+	dm.links.SetMatcher(matcher)
 	dm.rmMap.Range(func(key, value interface{}) bool {
-		value.(IDefaultRoleManager).SetMatcher(matcher)
+		value.(*DomainManager).SetMatcher(matcher)
 		return true
 	})
 }
@@ -52,42 +60,27 @@ func (dm *DomainManager) SetMatcher(matcher util.IMatcher) {
 // SetDomainMatcher support use domain pattern in g
 func (dm *DomainManager) SetDomainMatcher(matcher util.IMatcher) {
 	dm.domainMatcher = matcher
+	dm.resetCaches()
 	dm.rmMap.Range(func(key, value interface{}) bool {
-		value.(IDefaultRoleManager).SetDomainMatcher(matcher)
-		return true
-	})
-	dm.rebuild()
-}
-
-// clears the map of RoleManagers
-func (dm *DomainManager) rebuild() {
-	rmMap := dm.rmMap
-	_ = dm.Clear()
-	dm.rangeLinks(rmMap, func(name1, name2 string, domain ...string) bool {
-		_, _ = dm.AddLink(name1, name2, domain...)
+		value.(*DomainManager).SetDomainMatcher(matcher)
 		return true
 	})
 }
 
 //Clear clears all stored data and resets the role manager to the initial state.
 func (dm *DomainManager) Clear() error {
+	dm.links = newRoleManagerWithMatchingFunc(dm.maxHierarchyLevel-1, dm.matcher)
 	dm.rmMap = &sync.Map{}
-	dm.patternMap = &sync.Map{}
-	dm.matchingFuncCache = util.NewSyncLRUCache(100)
+	dm.resetCaches()
 	return nil
 }
 
-func (dm *DomainManager) getDomain(domains ...string) (domain string, subdomains []string, err error) {
-	if len(domains) == 0 {
-		return defaultDomain, []string{}, nil
-	} else if domains[0] == REDUNDANT_ROLE {
-		return defaultDomain, []string{REDUNDANT_ROLE}, nil
-	}
-	return domains[0], domains[1:], nil
-}
-
+// match returns true, if pattern is a pattern and matches str
 func (dm *DomainManager) match(str string, pattern string) bool {
-	cacheKey := strings.Join([]string{str, pattern}, "$$")
+	if dm.domainMatcher == nil || !dm.domainMatcher.IsPattern(pattern) {
+		return false
+	}
+	cacheKey := util.Hash([]string{str, pattern})
 	if v, has := dm.matchingFuncCache.Get(cacheKey); has {
 		return v.(bool)
 	} else {
@@ -97,208 +90,163 @@ func (dm *DomainManager) match(str string, pattern string) bool {
 	}
 }
 
-func (dm *DomainManager) load(name interface{}) (value IDefaultRoleManager, ok bool) {
-	if r, ok := dm.rmMap.Load(name); ok {
-		return r.(IDefaultRoleManager), true
+func (dm *DomainManager) load(domain string) (value *DomainManager, ok bool) {
+	if r, ok := dm.rmMap.Load(domain); ok {
+		return r.(*DomainManager), true
 	}
 	return nil, false
 }
 
-func (dm *DomainManager) rangeMatchingRMs(pattern string, fn func(rm IRoleManager)) {
-	dm.rmMap.Range(func(key, value interface{}) bool {
-		domain := key.(string)
-		if pattern != domain && dm.match(domain, pattern) {
-			fn(value.(IRoleManager))
+// getRoleManager loads the RoleManager which stores the links of exactly this domain
+func (dm *DomainManager) getRoleManager(create bool, domains ...string) (*RoleManager, bool) {
+	for _, domain := range domains {
+		next, ok := dm.load(domain)
+		if !ok {
+			if !create {
+				return nil, false
+			}
+			next = NewDomainManager(dm.maxHierarchyLevel - 1)
+			next.SetMatcher(dm.matcher)
+			next.SetDomainMatcher(dm.domainMatcher)
+			dm.rmMap.Store(domain, next)
 		}
-		return true
-	})
+		dm = next
+	}
+	return dm.links, true
 }
 
-func (dm *DomainManager) rangeMatchingPatterns(domain string, fn func(rm IRoleManager)) {
-	dm.patternMap.Range(func(key, _ interface{}) bool {
-		pattern := key.(string)
-		if pattern != domain && dm.match(domain, pattern) {
-			value, _ := dm.load(pattern)
-			fn(value)
+// rangeRoleManagers calls fn for the RoleManagers of the domain and of all pattern domains which match it
+func (dm *DomainManager) rangeRoleManagers(fn func(rm *RoleManager), domains ...string) {
+	if len(domains) == 0 {
+		fn(dm.links)
+		return
+	}
+	dm.rmMap.Range(func(key, value interface{}) bool {
+		if name := key.(string); name == domains[0] || dm.match(domains[0], name) {
+			value.(*DomainManager).rangeRoleManagers(fn, domains[1:]...)
 		}
 		return true
 	})
 }
 
-// load or create a RoleManager instance of domain
-func (dm *DomainManager) getRoleManager(domain string, store bool, subdomains ...string) IRoleManager {
-	var rm IDefaultRoleManager
-	var ok bool
-
-	if rm, ok = dm.load(domain); !ok {
-		if domain != defaultDomain {
-			rm = NewDomainManager(dm.maxHierarchyLevel - 1)
-			rm.SetMatcher(dm.matcher)
-			rm.SetDomainMatcher(dm.domainMatcher)
-		} else {
-			rm = newRoleManagerWithMatchingFunc(dm.maxHierarchyLevel-1, dm.matcher)
-		}
-		if store {
-			dm.rmMap.Store(domain, rm)
-		}
-		if dm.domainMatcher != nil {
-			if dm.domainMatcher.IsPattern(domain) {
-				dm.patternMap.Store(domain, nil)
-			} else {
-				dm.rangeMatchingPatterns(domain, func(rm2 IRoleManager) {
-					rm2.Range(func(name1, name2 string, domain ...string) bool {
-						_, _ = rm.AddLink(name1, name2, append(domain, REDUNDANT_ROLE)...)
-						return true
-					})
-				})
-			}
+// resolveRoleManager returns a RoleManager to query the links of a domain. It must not be modified.
+func (dm *DomainManager) resolveRoleManager(domains ...string) *RoleManager {
+	rms := []*RoleManager{}
+	if dm.domainMatcher == nil {
+		if rm, ok := dm.getRoleManager(false, domains...); ok {
+			rms = append(rms, rm)
 		}
+	} else {
+		dm.rangeRoleManagers(func(rm *RoleManager) {
+			rms = append(rms, rm)
+		}, domains...)
 	}
-	return rm
-}
 
-// AddLink adds the inheritance link between role: name1 and role: name2.
-// aka role: name1 inherits role: name2.
-func (dm *DomainManager) AddLink(name1 string, name2 string, domains ...string) (bool, error) {
-	domain, subdomains, err := dm.getDomain(domains...)
-	if err != nil {
-		return false, err
+	if len(rms) == 1 {
+		return rms[0]
 	}
-	roleManager := dm.getRoleManager(domain, true, subdomains...) //create role manager if it does not exist
-	added, _ := roleManager.AddLink(name1, name2, subdomains...)
 
-	if dm.domainMatcher != nil && dm.domainMatcher.IsPattern(domain) {
-		dm.rangeMatchingRMs(domain, func(rm IRoleManager) {
-			_, _ = rm.AddLink(name1, name2, append(subdomains, REDUNDANT_ROLE)...)
+	cacheKey := util.Hash(domains)
+	if rm, ok := dm.mergedCache.Get(cacheKey); ok {
+		return rm.(*RoleManager)
+	}
+	merged := newRoleManagerWithMatchingFunc(dm.maxHierarchyLevel-len(domains)-1, dm.matcher)
+	for _, rm := range rms {
+		rm.Range(func(name1, name2 string, _ ...string) bool {
+			_, _ = merged.AddLink(name1, name2)
+			return true
 		})
 	}
-	return added, nil
+	dm.mergedCache.Put(cacheKey, merged)
+	return merged
+}
+
+// AddLink adds the inheritance link between role: name1 and role: name2.
+// aka role: name1 inherits role: name2.
+func (dm *DomainManager) AddLink(name1 string, name2 string, domains ...string) (bool, error) {
+	rm, _ := dm.getRoleManager(true, domains...)
+	added, err := rm.AddLink(name1, name2)
+	dm.mergedCache = util.NewSyncLRUCache(100)
+	return added, err
 }
 
 // DeleteLink deletes the inheritance link between role: name1 and role: name2.
 // aka role: name1 does not inherit role: name2 any more.
 func (dm *DomainManager) DeleteLink(name1 string, name2 string, domains ...string) (bool, error) {
-	domain, subdomains, err := dm.getDomain(domains...)
-	if err != nil {
-		return false, err
+	rm, ok := dm.getRoleManager(false, domains...)
+	if !ok {
+		return false, nil
 	}
-	roleManager := dm.getRoleManager(domain, true, subdomains...) //create role manager if it does not exist
-	removed, _ := roleManager.DeleteLink(name1, name2, subdomains...)
-
-	if dm.domainMatcher != nil && dm.domainMatcher.IsPattern(domain) {
-		dm.rangeMatchingRMs(domain, func(rm IRoleManager) {
-			_, _ = rm.DeleteLink(name1, name2, append(subdomains, REDUNDANT_ROLE)...)
-		})
-	}
-	return removed, nil
+	removed, err := rm.DeleteLink(name1, name2)
+	dm.mergedCache = util.NewSyncLRUCache(100)
+	return removed, err
 }
 
 // HasLink determines whether role: name1 inherits role: name2.
 func (dm *DomainManager) HasLink(name1 string, name2 string, domains ...string) (bool, error) {
-	domain, subdomains, err := dm.getDomain(domains...)
-	if err != nil {
-		return false, err
-	}
-	rm := dm.getRoleManager(domain, false, subdomains...)
-	return rm.HasLink(name1, name2, subdomains...)
+	return dm.resolveRoleManager(domains...).HasLink(name1, name2)
 }
 
 // GetRoles gets the roles that a subject inherits.
 func (dm *DomainManager) GetRoles(name string, domains ...string) ([]string, error) {
-	domain, subdomains, err := dm.getDomain(domains...)
-	if err != nil {
-		return nil, err
-	}
-	rm := dm.getRoleManager(domain, false, subdomains...)
-	return rm.GetRoles(name, subdomains...)
+	return dm.resolveRoleManager(domains...).GetRoles(name)
 }
 
 // GetUsers gets the users of a role.
 func (dm *DomainManager) GetUsers(name string, domains ...string) ([]string, error) {
-	domain, subdomains, err := dm.getDomain(domains...)
-	if err != nil {
-		return nil, err
-	}
-	rm := dm.getRoleManager(domain, false, subdomains...)
-	return rm.GetUsers(name, subdomains...)
-}
-
-func (dm *DomainManager) resolveRoleManager(domains ...string) *RoleManager {
-	var domain string
-	domainManager := dm
-	domain, subdomains, _ := dm.getDomain(domains...)
-
-	for domain != defaultDomain {
-		domainManager = domainManager.getRoleManager(domain, false, subdomains...).(*DomainManager)
-		domain, subdomains, _ = dm.getDomain(subdomains...)
-	}
-
-	return domainManager.getRoleManager(domain, false, subdomains...).(*RoleManager)
+	return dm.resolveRoleManager(domains...).GetUsers(name)
 }
 
 // GetDomains gets domains that a user has
 func (dm *DomainManager) GetDomains(name string) ([]string, error) {
-	domainArr, err := dm.getAllDomainsHelper()
-	if err != nil {
-		return nil, err
-	}
+	return dm.listDomains(func(domains []string) bool {
+		role := dm.resolveRoleManager(domains...).findRole(name)
+		return len(role.getUsers()) > 0 || len(role.getRoles()) > 0
+	}), nil
+}
 
-	res := []string{}
-	for _, domains := range domainArr {
-		rm := dm.resolveRoleManager(domains...)
-		role := rm.findRole(name)
-		if len(role.getUsers()) > 0 || len(role.getRoles()) > 0 {
-			res = append(res, strings.Join(domains, "/"))
-		}
-	}
-	return res, nil
+// GetAllDomains gets all domains
+func (dm *DomainManager) GetAllDomains() ([]string, error) {
+	return dm.listDomains(func(domains []string) bool { return true }), nil
 }
 
-func (dm *DomainManager) getAllDomainsHelper() ([][]string, error) {
+// listDomains lists all domains with links for which the filter holds
+func (dm *DomainManager) listDomains(filter func(domains []string) bool) []string {
 	domainMap := make(map[string][]string)
 	dm.Range(func(name1, name2 string, domains ...string) bool {
-		domain := strings.Join(domains, "/")
-		domainMap[domain] = domains
+		domainMap[util.Hash(domains)] = domains
 		return true
 	})
-	domains := [][]string{}
-	for _, domain := range domainMap {
-		domains = append(domains, domain)
-	}
-	return domains, nil
-}
-
-// GetAllDomains gets all domains
-func (dm *DomainManager) GetAllDomains() ([]string, error) {
-	domains, err := dm.getAllDomainsHelper()
-	if err != nil {
-		return nil, err
-	}
 
 	res := []string{}
-	for _, domain := range domains {
-		res = append(res, strings.Join(domain, "/"))
+	seen := make(map[string]bool)
+	for _, domains := range domainMap {
+		domain := strings.Join(domains, "/")
+		if !seen[domain] && filter(domains) {
+			seen[domain] = true
+			res = append(res, domain)
+		}
 	}
-	return res, nil
+	return res
 }
 
-func (dm *DomainManager) rangeLinks(rmMap *sync.Map, fn func(name1, name2 string, domain ...string) bool) {
-	rmMap.Range(func(key, value interface{}) bool {
-		roleManager := value.(IRoleManager)
-		domains := []string{}
-		if d := key.(string); d != defaultDomain {
-			domains = append(domains, d)
-		}
-
-		roleManager.Range(func(name1, name2 string, domain ...string) bool {
-			fn(name1, name2, append(domains, domain...)...)
-			return true
-		})
-
-		return true
+func (dm *DomainManager) rangeLinks(prefix []string, fn func(name1, name2 string, domain ...string) bool) bool {
+	cont := true
+	dm.links.Range(func(name1, name2 string, _ ...string) bool {
+		cont = fn(name1, name2, append([]string{}, prefix...)...)
+		return cont
+	})
+	if !cont {
+		return false
+	}
+	dm.rmMap.Range(func(key, value interface{}) bool {
+		domains := append(append([]string{}, prefix...), key.(string))
+		cont = value.(*DomainManager).rangeLinks(domains, fn)
+		return cont
 	})
+	return cont
 }
 
 func (dm *DomainManager) Range(fn func(name1, name2 string, domain ...string) bool) {
-	dm.rangeLinks(dm.rmMap, fn)
+	dm.rangeLinks([]string{}, fn)
 }
diff --git a/rbac/role.go b/rbac/role.go
index bf8b233..4e58e6e 100644
--- a/rbac/role.go
+++ b/rbac/role.go
@@ -26,7 +26,6 @@ type Role struct {
 	users     *sync.Map
 	matched   *sync.Map
 	matchedBy *sync.Map
-	redundant *sync.Map //string set of redundant roles
 }
 
 func newRole(name string) *Role {
@@ -36,7 +35,6 @@ func newRole(name string) *Role {
 	r.users = &sync.Map{}
 	r.matched = &sync.Map{}
 	r.matchedBy = &sync.Map{}
-	r.redundant = &sync.Map{}
 	return &r
 }
 
diff --git a/rbac/role_manager.go b/rbac/role_manager.go
index ac45b69..0ce73de 100644
--- a/rbac/role_manager.go
+++ b/rbac/role_manager.go
@@ -20,8 +20,6 @@ import (
 	"github.com/abichinger/fastac/util"
 )
 
-const REDUNDANT_ROLE = "redundant_role"
-
 // RoleManager provides a default implementation for the RoleManager interface
 type RoleManager struct {
 	allRoles          *sync.Map
@@ -187,11 +185,6 @@ func (rm *RoleManager) Clear() error {
 func (rm *RoleManager) AddLink(name1 string, name2 string, domains ...string) (bool, error) {
 	user := rm.getRole(name1)
 	role := rm.getRole(name2)
-
-	if len(domains) > 0 && domains[0] == REDUNDANT_ROLE {
-		user.redundant.LoadOrStore(name2, nil)
-	}
-
 	return user.addRole(role), nil
 }
 
@@ -207,10 +200,6 @@ func (rm *RoleManager) DeleteLink(name1 string, name2 string, domains ...string)
 		return false, nil
 	}
 
-	if len(domains) > 0 && domains[0] == REDUNDANT_ROLE {
-		user.redundant.Delete(name2)
-	}
-
 	removed := user.removeRole(role)
 	rm.removeUnused(user)
 	rm.removeUnused(role)
@@ -277,14 +266,12 @@ func (rm *RoleManager) GetAllDomains() ([]string, error) {
 func rangeLinks(users *sync.Map, fn func(name1, name2 string, domain ...string) bool) {
 	users.Range(func(_, value interface{}) bool {
 		user := value.(*Role)
+		cont := true
 		user.roles.Range(func(key, _ interface{}) bool {
-			roleName := key.(string)
-			if _, ok := user.redundant.Load(roleName); !ok {
-				return fn(user.name, roleName)
-			}
-			return true
+			cont = fn(user.name, key.(string))
+			return cont
 		})
-		return true
+		return cont
 	})
 }
 
-- 
2.43.0


From 8ae882b2355af2d059e8e7e1d2a41645e3092ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:57 +0000
Subject: [PATCH 40/47] fix: clearing a role definition clears its matchers too

---
 rbac/role_policy.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rbac/role_policy.go b/rbac/role_policy.go
index 100373b..60b320b 100644
--- a/rbac/role_policy.go
+++ b/rbac/role_policy.go
@@ -54,7 +54,11 @@ func (p *RolePolicy) GetDistinct(columns []int) ([][]string, error) {
 }
 
 func (p *RolePolicy) Clear() error {
-	return p.rm.Clear()
+	if err := p.rm.Clear(); err != nil {
+		return err
+	}
+	p.Emitter.EmitEvent(policy.EVT_CLEARED)
+	return nil
 }
 
 func (p *RolePolicy) GetRoleManager() IRoleManager {
-- 
2.43.0


From 5b195a3ae81c5ddf0f12ff66ac45c4d71f7c7ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:00 +0000
Subject: [PATCH 41/47] fix: invalid arguments of role functions are errors,
 not panics

---
 rbac/role_manager_api.go | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/rbac/role_manager_api.go b/rbac/role_manager_api.go
index 62612dd..55b4568 100644
--- a/rbac/role_manager_api.go
+++ b/rbac/role_manager_api.go
@@ -15,6 +15,9 @@
 package rbac
 
 import (
+	"errors"
+	"fmt"
+
 	"github.com/abichinger/fastac/util"
 	"github.com/abichinger/govaluate"
 )
@@ -53,19 +56,21 @@ type IDefaultRoleManager interface {
 func GenerateGFunction(rm IRoleManager) govaluate.ExpressionFunction {
 
 	return func(args ...interface{}) (interface{}, error) {
-		name1 := args[0].(string)
-		name2 := args[1].(string)
+		if len(args) < 2 {
+			return false, fmt.Errorf("expected at least 2 arguments, but got %d", len(args))
+		}
+		values := make([]string, len(args))
+		for i, arg := range args {
+			value, ok := arg.(string)
+			if !ok {
+				return false, errors.New("argument must be a string")
+			}
+			values[i] = value
+		}
 
 		if rm == nil {
-			return name1 == name2, nil
-		} else if len(args) == 2 {
-			return rm.HasLink(name1, name2)
-		} else {
-			domains := []string{}
-			for _, domain := range args[2:] {
-				domains = append(domains, domain.(string))
-			}
-			return rm.HasLink(name1, name2, domains...)
+			return values[0] == values[1], nil
 		}
+		return rm.HasLink(values[0], values[1], values[2:]...)
 	}
 }
-- 
2.43.0


From 135ab4663927c97e30d93ba6263354199ace7a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:02 +0000
Subject: [PATCH 42/47] fix: role rules reach matchers and storage as they are
 stored

---
 model/model.go      | 11 +++++++++++
 rbac/role_policy.go | 10 ++++++++++
 2 files changed, 21 insertions(+)

diff --git a/model/model.go b/model/model.go
index 2265482..ba3d0bd 100644
--- a/model/model.go
+++ b/model/model.go
@@ -260,6 +260,7 @@ func (m *Model) AddRule(rule []string) (bool, error) {
 	case 'p':
 		added, err = m.addPolicyRule(key, rule[1:])
 	case 'g':
+		rule = m.normalizeRoleRule(rule)
 		added, err = m.addRoleRule(key, rule[1:])
 	default:
 		return false, fmt.Errorf(str.ERR_POLICY_NOT_FOUND, key)
@@ -282,6 +283,7 @@ func (m *Model) RemoveRule(rule []string) (bool, error) {
 	case 'p':
 		removed, err = m.removePolicyRule(key, rule[1:])
 	case 'g':
+		rule = m.normalizeRoleRule(rule)
 		removed, err = m.removeRoleRule(key, rule[1:])
 	default:
 		return false, fmt.Errorf(str.ERR_POLICY_NOT_FOUND, key)
@@ -323,6 +325,15 @@ func (m *Model) removeRoleRule(key string, rule []string) (bool, error) {
 	return rp.RemoveRule(rule)
 }
 
+// normalizeRoleRule returns the rule as it is stored by the role manager
+func (m *Model) normalizeRoleRule(rule []string) []string {
+	rp, ok := m.rpMap[rule[0]]
+	if !ok {
+		return rule
+	}
+	return withKey(rule[0], rp.Normalize(rule[1:]))
+}
+
 func (m *Model) GetPolicy(key string) (policy.IPolicy, bool) {
 	p, ok := m.pMap[key]
 	if !ok {
diff --git a/rbac/role_policy.go b/rbac/role_policy.go
index 60b320b..9d87bc3 100644
--- a/rbac/role_policy.go
+++ b/rbac/role_policy.go
@@ -18,10 +18,19 @@ func NewRolePolicy(rm IRoleManager) *RolePolicy {
 	return &RolePolicy{rm, emitter}
 }
 
+// Normalize removes the values of a rule which the role manager does not store
+func (p *RolePolicy) Normalize(rule []string) []string {
+	if _, ok := p.rm.(*RoleManager); ok && len(rule) > 2 {
+		return rule[:2]
+	}
+	return rule
+}
+
 func (p *RolePolicy) AddRule(rule []string) (bool, error) {
 	if len(rule) < 2 {
 		return false, errors.New(str.ERR_RULE_TOO_SHORT)
 	}
+	rule = p.Normalize(rule)
 	added, err := p.rm.AddLink(rule[0], rule[1], rule[2:]...)
 	if !added || err != nil {
 		return added, err
@@ -34,6 +43,7 @@ func (p *RolePolicy) RemoveRule(rule []string) (bool, error) {
 	if len(rule) < 2 {
 		return false, errors.New(str.ERR_RULE_TOO_SHORT)
 	}
+	rule = p.Normalize(rule)
 	removed, err := p.rm.DeleteLink(rule[0], rule[1], rule[2:]...)
 	if !removed || err != nil {
 		return removed, err
-- 
2.43.0


From def8073112bab9c99782afe38595dffb3fb0cb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:32 +0000
Subject: [PATCH 43/47] fix: building a matcher does not modify its definition

---
 model/model.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/model/model.go b/model/model.go
index ba3d0bd..7d1fcc9 100644
--- a/model/model.go
+++ b/model/model.go
@@ -221,6 +221,9 @@ func (m *Model) BuildMatcher(key string) error {
 }
 
 func (m *Model) BuildMatcherFromDef(mDef *defs.MatcherDef) (matcher.IMatcher, error) {
+	// build a copy, the definition may be used by several requests at the same time
+	def := *mDef
+	mDef = &def
 	if err := mDef.Build(m.fm.GetFunctions()); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 5e11ce594a091dcd24ce0df6655b2daaedb657ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:31 +0000
Subject: [PATCH 44/47] fix: a saved policy file keeps its permissions

---
 storage/adapter/fileadapter.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/storage/adapter/fileadapter.go b/storage/adapter/fileadapter.go
index c93e6fa..939acb8 100644
--- a/storage/adapter/fileadapter.go
+++ b/storage/adapter/fileadapter.go
@@ -139,7 +139,13 @@ func formatRule(rule []string) string {
 func (a *FileAdapter) SavePolicy(model api.IRangeRules) error {
 	// the policy is replaced at once, a failed save must not destroy it
 	tmp := a.path + ".tmp"
-	if err := savePolicyFile(tmp, model); err != nil {
+	perm := os.FileMode(0666)
+	if info, err := os.Stat(a.path); err == nil {
+		perm = info.Mode().Perm()
+	} else if !os.IsNotExist(err) {
+		return err
+	}
+	if err := savePolicyFile(tmp, perm, model); err != nil {
 		_ = os.Remove(tmp)
 		return err
 	}
@@ -150,8 +156,8 @@ func (a *FileAdapter) SavePolicy(model api.IRangeRules) error {
 	return nil
 }
 
-func savePolicyFile(path string, model api.IRangeRules) (err error) {
-	file, err := os.Create(path)
+func savePolicyFile(path string, perm os.FileMode, model api.IRangeRules) (err error) {
+	file, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, perm)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From ec667dd815034645d96279ab457acfac315bdaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:04 +0000
Subject: [PATCH 45/47] fix: a panic while a matcher is evaluated is reported
 as an error

---
 model/matcher/matcher.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/model/matcher/matcher.go b/model/matcher/matcher.go
index 3db018b..9017df9 100644
--- a/model/matcher/matcher.go
+++ b/model/matcher/matcher.go
@@ -223,7 +223,7 @@ func (m *Matcher) rangeMatches(exprNode *defs.MatcherStage, rules map[string]*Ma
 			continue
 		}
 		params.pvals = child.rule
-		res, err := expr.Eval(params)
+		res, err := safeEval(expr, params)
 		if err != nil {
 			return false, err
 		}
@@ -299,6 +299,16 @@ func (m *Matcher) RangeMatches(rDef defs.RequestDef, rvals []interface{}, fMap f
 	return nil
 }
 
+// safeEval reports a panic during the evaluation as error
+func safeEval(expr *govaluate.EvaluableExpression, params *MatchParameters) (res interface{}, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			res, err = nil, fmt.Errorf("evaluation failed: %v", r)
+		}
+	}()
+	return expr.Eval(params)
+}
+
 func eval(expression string, functions map[string]govaluate.ExpressionFunction, parameters *MatchParameters) (interface{}, error) {
 	expr, err := govaluate.NewEvaluableExpressionWithFunctions(expression, functions)
 	if err != nil {
-- 
2.43.0


From 91648127f0e73e9fc91132d3b3c5b8dfdb766f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:06 +0000
Subject: [PATCH 46/47] fix: nested calls of eval are limited

---
 model/matcher/matcher.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/model/matcher/matcher.go b/model/matcher/matcher.go
index 9017df9..964b8bc 100644
--- a/model/matcher/matcher.go
+++ b/model/matcher/matcher.go
@@ -83,8 +83,13 @@ type MatchParameters struct {
 	pvals []string
 	rDef  defs.RequestDef
 	rvals []interface{}
+
+	evalDepth int
 }
 
+// maxEvalDepth limits nested calls of eval, an expression may evaluate itself
+const maxEvalDepth = 100
+
 func NewMatchParameters(pDef defs.PolicyDef, pvals []string, rDef defs.RequestDef, rvals []interface{}) *MatchParameters {
 	return &MatchParameters{
 		pDef:  pDef,
@@ -323,6 +328,12 @@ func generateEvalFunction(functions map[string]govaluate.ExpressionFunction, par
 			return false, fmt.Errorf("%s: %s", "eval", err)
 		}
 
+		if parameters.evalDepth >= maxEvalDepth {
+			return false, errors.New("eval: too many nested calls")
+		}
+		parameters.evalDepth++
+		defer func() { parameters.evalDepth-- }()
+
 		expression := args[0].(string)
 		expression = defs.ReplaceArgRefs(expression)
 		return eval(expression, functions, parameters)
-- 
2.43.0


From 29a3e1fd3e349fb9dcb1a897ab5152e3cfc9c926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:20 +0000
Subject: [PATCH 47/47] fix: context options of unsupported type are reported

---
 context.go    | 12 ++++++++++++
 str/errors.go |  1 +
 2 files changed, 13 insertions(+)

diff --git a/context.go b/context.go
index 1bb64c7..2dbce7b 100644
--- a/context.go
+++ b/context.go
@@ -37,6 +37,10 @@ func SetMatcher(matcher interface{}) ContextOption {
 			ctx.matcher = m
 		case m.IMatcher:
 			ctx.matcher = mType
+		case nil:
+			// not selected
+		default:
+			return fmt.Errorf(str.ERR_INVALID_OPTION, matcher)
 		}
 		return nil
 	}
@@ -56,6 +60,10 @@ func SetRequestDef(definition interface{}) ContextOption {
 			ctx.rDef = rDef
 		case *defs.RequestDef:
 			ctx.rDef = rType
+		case nil:
+			// not selected
+		default:
+			return fmt.Errorf(str.ERR_INVALID_OPTION, definition)
 		}
 		return nil
 	}
@@ -79,6 +87,10 @@ func SetEffector(effector interface{}) ContextOption {
 			ctx.effector = eff
 		case e.IEffector:
 			ctx.effector = eType
+		case nil:
+			// not selected
+		default:
+			return fmt.Errorf(str.ERR_INVALID_OPTION, effector)
 		}
 		return nil
 	}
diff --git a/str/errors.go b/str/errors.go
index 6654974..cb7a8b2 100644
--- a/str/errors.go
+++ b/str/errors.go
@@ -22,6 +22,7 @@ const (
 	ERR_RM_NOT_FOUND         = "error: role manager %s not found"
 	ERR_REQUESTDEF_NOT_FOUND = "error: request definition %s not found"
 	ERR_EFFECTOR_NOT_FOUND   = "error: effect definition %s not found"
+	ERR_INVALID_OPTION       = "error: invalid context option of type %T"
 	ERR_INVALID_MODEL        = "invalid model"
 	ERR_RULE_WITHOUT_KEY     = "error: rule has no key"
 	ERR_RULE_TOO_SHORT       = "error: rule has not enough values"
-- 
2.43.0

