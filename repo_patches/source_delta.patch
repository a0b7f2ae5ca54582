From d4ba3964e14d792e17a3fb73bbc512957de2979d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:50 +0000
Subject: [PATCH 01/63] fix: keep rules apart whose fields contain commas

util.Hash joined the fields with a plain comma, so ["a,b" "c"] and
["a" "b,c"] were treated as the same rule (and as the same node of a
matcher): the second one was silently rejected.
---
 util/util.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/util/util.go b/util/util.go
index 74f217b..a30994a 100644
--- a/util/util.go
+++ b/util/util.go
@@ -26,6 +26,13 @@ func FileExists(path string) (bool, error) {
 	return false, err
 }
 
+var hashEscaper = strings.NewReplacer("\\", "\\\\", DefaultSep, "\\"+DefaultSep)
+
+// Hash returns a key for rule. Different lists of strings always get different keys.
 func Hash(rule []string) string {
-	return strings.Join(rule, DefaultSep)
+	escaped := make([]string, len(rule)+1) // the last element is empty, it keeps [] and [""] apart
+	for i, value := range rule {
+		escaped[i] = hashEscaper.Replace(value)
+	}
+	return strings.Join(escaped, DefaultSep)
 }
-- 
2.43.0


From 95fcf90416a0566a6458a1546046f09007bd1d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:52 +0000
Subject: [PATCH 02/63] fix: data race in SyncLRUCache.Get

Get moves the entry to the head of the list, but held only the read lock.
---
 util/cache.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/cache.go b/util/cache.go
index 3ace430..f247d94 100644
--- a/util/cache.go
+++ b/util/cache.go
@@ -92,8 +92,8 @@ func NewSyncLRUCache(capacity int) *SyncLRUCache {
 }
 
 func (cache *SyncLRUCache) Get(key interface{}) (value interface{}, ok bool) {
-	cache.rwm.RLock()
-	defer cache.rwm.RUnlock()
+	cache.rwm.Lock() // Get moves the entry to the head of the list
+	defer cache.rwm.Unlock()
 	return cache.LRUCache.Get(key)
 }
 
-- 
2.43.0


From 1293b2335c8c79a10b849dd3eccfc58a17876715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:54 +0000
Subject: [PATCH 03/63] fix: LRUCache.Put must replace the value of an existing
 key

Also, Put panicked when the capacity of the cache is zero.
---
 util/cache.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/util/cache.go b/util/cache.go
index f247d94..ff4bad7 100644
--- a/util/cache.go
+++ b/util/cache.go
@@ -68,9 +68,13 @@ func (cache *LRUCache) Get(key interface{}) (value interface{}, ok bool) {
 }
 
 func (cache *LRUCache) Put(key interface{}, value interface{}) {
+	if cache.capacity <= 0 {
+		return
+	}
 	n, ok := cache.m[key]
 	if ok {
 		cache.remove(n, false)
+		n.value = value
 	} else {
 		n = &node{key, value, nil, nil}
 		if len(cache.m) >= cache.capacity {
-- 
2.43.0


From 494ca021e587c2cc57b90808e7df323eeb3cb138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:19 +0000
Subject: [PATCH 04/63] fix: do not lose conditions of disjunctive matchers

The branches of (a || b) && (c && d) shared the backing array of the pending
conjuncts, the second branch was built without the condition c.
---
 model/defs/matcher_def.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/model/defs/matcher_def.go b/model/defs/matcher_def.go
index 09494fa..569e7a0 100644
--- a/model/defs/matcher_def.go
+++ b/model/defs/matcher_def.go
@@ -162,7 +162,9 @@ func buildExprTree(node *MatcherStage, tokens []govaluate.ExpressionToken, and [
 		}
 		return buildExprTree(node, tokens[index+1:], and)
 	} else { // operator.Value == &&
-		return buildExprTree(node, tokens[:index], append(and, tokens[index+1:]))
+		// the branches of a disjunction share and, it must not be extended in place
+		nextAnd := append(make([][]govaluate.ExpressionToken, 0, len(and)+1), and...)
+		return buildExprTree(node, tokens[:index], append(nextAnd, tokens[index+1:]))
 	}
 }
 
-- 
2.43.0


From 5bb905caa0b047f95976ec84058e8958a4df469a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:46 +0000
Subject: [PATCH 05/63] fix: matchers with more than two alternatives

The nodes of a matcher had room for two alternatives, adding a rule to a
matcher like a || b || c panicked.
---
 model/matcher/matcher.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/model/matcher/matcher.go b/model/matcher/matcher.go
index 47622fe..121831c 100644
--- a/model/matcher/matcher.go
+++ b/model/matcher/matcher.go
@@ -39,7 +39,23 @@ func NewMatcherNode(rule []string) *MatcherNode {
 	return node
 }
 
+// grow ensures that the node has a map for the children of stage i
+func (n *MatcherNode) grow(i int) {
+	for len(n.children) <= i {
+		n.children = append(n.children, make(map[string]*MatcherNode))
+	}
+}
+
+// get returns the children of stage i
+func (n *MatcherNode) get(i int) map[string]*MatcherNode {
+	if i < len(n.children) {
+		return n.children[i]
+	}
+	return nil
+}
+
 func (n *MatcherNode) GetOrCreate(i int, key string, rule []string) *MatcherNode {
+	n.grow(i)
 	if node, ok := n.children[i][key]; ok {
 		return node
 	}
@@ -135,6 +151,7 @@ func (m *Matcher) addRuleHelper(rule []string, exprNode *defs.MatcherStage, node
 			nextNode := node.GetOrCreate(i, key, rule)
 			m.addRuleHelper(rule, nextExpr, nextNode)
 		} else {
+			node.grow(i)
 			node.children[i][key] = NewMatcherNode(rule)
 		}
 	}
@@ -158,11 +175,11 @@ func (m *Matcher) removeRuleHelper(rule []string, exprNode *defs.MatcherStage, n
 		}
 
 		if !nextExpr.IsLeafNode() {
-			if nextNode, ok := node.children[i][key]; ok {
+			if nextNode, ok := node.get(i)[key]; ok {
 				m.removeRuleHelper(rule, nextExpr, nextNode)
 			}
 		} else {
-			delete(node.children[i], key)
+			delete(node.get(i), key)
 		}
 	}
 }
@@ -198,7 +215,7 @@ func (m *Matcher) rangeMatches(exprNode *defs.MatcherStage, rules map[string]*Ma
 
 func (m *Matcher) rangeMatchesHelper(exprNode *defs.MatcherStage, node *MatcherNode, params *MatchParameters, functions map[string]govaluate.ExpressionFunction, fn func(rule []string) bool) (bool, error) {
 	for i, nextExpr := range exprNode.Children() {
-		cont, err := m.rangeMatches(nextExpr, node.children[i], params, functions, func(nextNode *MatcherNode) bool {
+		cont, err := m.rangeMatches(nextExpr, node.get(i), params, functions, func(nextNode *MatcherNode) bool {
 			if nextExpr.IsLeafNode() && !fn(nextNode.rule) {
 				return false //break
 			} else {
-- 
2.43.0


From 79dcdead3ef17f924cbe9058b51d9b1b311ccd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:48 +0000
Subject: [PATCH 06/63] fix: removed rules could still grant access

Removing a rule left empty inner nodes behind, which were still evaluated
(with the empty rule for the remaining stages of the matcher).
---
 model/matcher/matcher.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/model/matcher/matcher.go b/model/matcher/matcher.go
index 121831c..1158d69 100644
--- a/model/matcher/matcher.go
+++ b/model/matcher/matcher.go
@@ -54,6 +54,16 @@ func (n *MatcherNode) get(i int) map[string]*MatcherNode {
 	return nil
 }
 
+// isEmpty returns true, if there is no rule below this node
+func (n *MatcherNode) isEmpty() bool {
+	for _, children := range n.children {
+		if len(children) > 0 {
+			return false
+		}
+	}
+	return true
+}
+
 func (n *MatcherNode) GetOrCreate(i int, key string, rule []string) *MatcherNode {
 	n.grow(i)
 	if node, ok := n.children[i][key]; ok {
@@ -177,6 +187,10 @@ func (m *Matcher) removeRuleHelper(rule []string, exprNode *defs.MatcherStage, n
 		if !nextExpr.IsLeafNode() {
 			if nextNode, ok := node.get(i)[key]; ok {
 				m.removeRuleHelper(rule, nextExpr, nextNode)
+				if nextNode.isEmpty() {
+					// a node without rules must not take part in the evaluation
+					delete(node.get(i), key)
+				}
 			}
 		} else {
 			delete(node.get(i), key)
-- 
2.43.0


From 8915748286b9cd863e584d40079e623333e21385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:16 +0000
Subject: [PATCH 07/63] fix: report errors of nested matcher stages

An error in any but the first stage of a matcher ended the evaluation without
being reported, the decision was made with the rules found so far: with the
effect !some(where (p.eft == deny)) the request was allowed.
---
 model/matcher/matcher.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/model/matcher/matcher.go b/model/matcher/matcher.go
index 1158d69..a3edf97 100644
--- a/model/matcher/matcher.go
+++ b/model/matcher/matcher.go
@@ -228,12 +228,16 @@ func (m *Matcher) rangeMatches(exprNode *defs.MatcherStage, rules map[string]*Ma
 }
 
 func (m *Matcher) rangeMatchesHelper(exprNode *defs.MatcherStage, node *MatcherNode, params *MatchParameters, functions map[string]govaluate.ExpressionFunction, fn func(rule []string) bool) (bool, error) {
+	var nestedErr error
 	for i, nextExpr := range exprNode.Children() {
 		cont, err := m.rangeMatches(nextExpr, node.get(i), params, functions, func(nextNode *MatcherNode) bool {
 			if nextExpr.IsLeafNode() && !fn(nextNode.rule) {
 				return false //break
 			} else {
 				cont, err := m.rangeMatchesHelper(nextExpr, nextNode, params, functions, fn)
+				if err != nil {
+					nestedErr = err
+				}
 				if err != nil || !cont {
 					return false
 				}
@@ -243,6 +247,9 @@ func (m *Matcher) rangeMatchesHelper(exprNode *defs.MatcherStage, node *MatcherN
 		if err != nil {
 			return false, err
 		}
+		if nestedErr != nil {
+			return false, nestedErr
+		}
 		if !cont {
 			return false, nil
 		}
-- 
2.43.0


From 4b51813b9efac4b2fc394fd8a0687bb41e6f062e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:18 +0000
Subject: [PATCH 08/63] fix: concurrent requests shared the eval function

Every request wrote its own eval function into the function map of the model:
concurrent requests crashed (concurrent map writes) or evaluated eval() with
the values of another request.
---
 model/fm/function.go     | 9 +++++++++
 model/matcher/matcher.go | 1 +
 2 files changed, 10 insertions(+)

diff --git a/model/fm/function.go b/model/fm/function.go
index 8c0c05e..7e2b7e4 100644
--- a/model/fm/function.go
+++ b/model/fm/function.go
@@ -63,3 +63,12 @@ func (fm *FunctionMap) RemoveFunction(name string) bool {
 func (fm *FunctionMap) GetFunctions() map[string]govaluate.ExpressionFunction {
 	return fm.fns
 }
+
+// Copy returns an independent copy of the function map
+func (fm *FunctionMap) Copy() FunctionMap {
+	fns := make(map[string]govaluate.ExpressionFunction, len(fm.fns))
+	for name, fn := range fm.fns {
+		fns[name] = fn
+	}
+	return FunctionMap{fns}
+}
diff --git a/model/matcher/matcher.go b/model/matcher/matcher.go
index a3edf97..f58c42c 100644
--- a/model/matcher/matcher.go
+++ b/model/matcher/matcher.go
@@ -259,6 +259,7 @@ func (m *Matcher) rangeMatchesHelper(exprNode *defs.MatcherStage, node *MatcherN
 
 func (m *Matcher) RangeMatches(rDef defs.RequestDef, rvals []interface{}, fMap fm.FunctionMap, fn func(rule []string) bool) error {
 	params := NewMatchParameters(*m.pDef, nil, rDef, rvals)
+	fMap = fMap.Copy() // eval is bound to this request
 	fMap.SetFunction("eval", generateEvalFunction(fMap, params))
 	functions := fMap.GetFunctions()
 
-- 
2.43.0


From 1b5d8bd41402dc47eec34b22b03fe28d3b93a1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:49 +0000
Subject: [PATCH 09/63] fix: do not report a matching rule more than once

A rule which satisfied several alternatives of a matcher (a || b) was passed
to the callback of RangeMatches, and returned by Filter, once per alternative.
---
 model/defs/matcher_def.go |  8 ++++++++
 model/matcher/matcher.go  | 17 +++++++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/model/defs/matcher_def.go b/model/defs/matcher_def.go
index 569e7a0..dd50bb1 100644
--- a/model/defs/matcher_def.go
+++ b/model/defs/matcher_def.go
@@ -53,6 +53,14 @@ func (stage *MatcherStage) Children() []*MatcherStage {
 	return stage.children
 }
 
+// HasAlternatives returns true, if a single rule can be matched in more than one way
+func (stage *MatcherStage) HasAlternatives() bool {
+	if len(stage.children) > 1 {
+		return true
+	}
+	return len(stage.children) == 1 && stage.children[0].HasAlternatives()
+}
+
 func (stage *MatcherStage) IsLeafNode() bool {
 	return len(stage.children) == 0
 }
diff --git a/model/matcher/matcher.go b/model/matcher/matcher.go
index f58c42c..c459ff1 100644
--- a/model/matcher/matcher.go
+++ b/model/matcher/matcher.go
@@ -263,6 +263,10 @@ func (m *Matcher) RangeMatches(rDef defs.RequestDef, rvals []interface{}, fMap f
 	fMap.SetFunction("eval", generateEvalFunction(fMap, params))
 	functions := fMap.GetFunctions()
 
+	if m.exprRoot.HasAlternatives() {
+		fn = distinct(fn)
+	}
+
 	_, err := m.rangeMatchesHelper(m.exprRoot, m.root, params, functions, fn)
 	if err != nil {
 		return err
@@ -271,6 +275,19 @@ func (m *Matcher) RangeMatches(rDef defs.RequestDef, rvals []interface{}, fMap f
 	return nil
 }
 
+// distinct calls fn only once per rule, even if the rule satisfies several alternatives
+func distinct(fn func(rule []string) bool) func(rule []string) bool {
+	seen := make(map[string]bool)
+	return func(rule []string) bool {
+		key := util.Hash(rule)
+		if seen[key] {
+			return true
+		}
+		seen[key] = true
+		return fn(rule)
+	}
+}
+
 func eval(expression string, functions map[string]govaluate.ExpressionFunction, parameters *MatchParameters) (interface{}, error) {
 	expr, err := govaluate.NewEvaluableExpressionWithFunctions(expression, functions)
 	if err != nil {
-- 
2.43.0


From 6590586a63ce4ea2f18026185d3ec8aa5aef1bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:11 +0000
Subject: [PATCH 10/63] fix: Filter must not return rules that do not exist

Filter and RangeMatches reported a rule with empty fields, when the policy was
empty and the matcher did not depend on it.
---
 enforcer.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/enforcer.go b/enforcer.go
index 6cad9a0..7559183 100644
--- a/enforcer.go
+++ b/enforcer.go
@@ -16,12 +16,14 @@ package fastac
 
 import (
 	"errors"
+	"strings"
 	"time"
 
 	log "github.com/abichinger/fastac/log"
 	m "github.com/abichinger/fastac/model"
 	"github.com/abichinger/fastac/model/defs"
 	"github.com/abichinger/fastac/model/eft"
+	p "github.com/abichinger/fastac/model/policy"
 	"github.com/abichinger/fastac/model/types"
 	"github.com/abichinger/fastac/storage"
 	a "github.com/abichinger/fastac/storage/adapter"
@@ -305,9 +307,30 @@ func (e *Enforcer) RangeMatches(params []interface{}, fn func(rule []string) boo
 }
 
 func (e *Enforcer) RangeMatchesWithContext(ctx *Context, rvals []interface{}, fn func(rule []string) bool) error {
+	if policy, ok := e.model.GetPolicy(ctx.matcher.GetPolicyKey()); ok && isEmpty(policy) {
+		// the matcher is evaluated with an empty rule, which is not part of the policy
+		visit := fn
+		fn = func(rule []string) bool {
+			return strings.Join(rule[1:], "") == "" || visit(rule)
+		}
+	}
+	return e.rangeMatches(ctx, rvals, fn)
+}
+
+// rangeMatches also reports the empty rule, which represents an empty policy
+func (e *Enforcer) rangeMatches(ctx *Context, rvals []interface{}, fn func(rule []string) bool) error {
 	return e.model.RangeMatches(ctx.matcher, ctx.rDef, rvals, fn)
 }
 
+func isEmpty(policy p.IPolicy) bool {
+	empty := true
+	policy.Range(func(rule []string) bool {
+		empty = false
+		return false
+	})
+	return empty
+}
+
 func (e *Enforcer) enforce(ctx *Context, rvals []interface{}) (bool, error) {
 	def, _ := e.model.GetDef(m.P_SEC, ctx.matcher.GetPolicyKey())
 	pDef := def.(*defs.PolicyDef)
@@ -316,7 +339,7 @@ func (e *Enforcer) enforce(ctx *Context, rvals []interface{}) (bool, error) {
 	matches := [][]string{}
 
 	var eftErr error = nil
-	err := e.RangeMatchesWithContext(ctx, rvals, func(rule []string) bool {
+	err := e.rangeMatches(ctx, rvals, func(rule []string) bool {
 		effect := pDef.GetEft(rule)
 
 		effects = append(effects, effect)
-- 
2.43.0


From 271a41719ea4cf28ae5c6edb5eee8ee2a3f23550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:12 +0000
Subject: [PATCH 11/63] fix: evaluate matchers as they were written

The stages of a matcher were converted back to a string and parsed again.
String literals with quotes or backslashes, large numbers, dates and the
operators =~ and !~ did not survive this and were evaluated to something else.
---
 model/defs/matcher_def.go | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/model/defs/matcher_def.go b/model/defs/matcher_def.go
index dd50bb1..520e982 100644
--- a/model/defs/matcher_def.go
+++ b/model/defs/matcher_def.go
@@ -10,6 +10,7 @@ import (
 
 type MatcherStage struct {
 	expr     string
+	tokens   []govaluate.ExpressionToken
 	pArgs    []string
 	rArgs    []string
 	children []*MatcherStage
@@ -23,6 +24,14 @@ func NewMatcherStage(expr string) *MatcherStage {
 	return stage
 }
 
+// newStageFromTokens keeps the tokens, because not every token survives the conversion to a string
+// (escaped quotes, large numbers, dates and regular expressions)
+func newStageFromTokens(tokens []govaluate.ExpressionToken) *MatcherStage {
+	stage := NewMatcherStage(tokensToExpr(tokens))
+	stage.tokens = tokens
+	return stage
+}
+
 func (stage *MatcherStage) GetPolicyArgs() []string {
 	return stage.pArgs
 }
@@ -66,9 +75,32 @@ func (stage *MatcherStage) IsLeafNode() bool {
 }
 
 func (def *MatcherStage) NewExpressionWithFunctions(functions map[string]govaluate.ExpressionFunction) (*govaluate.EvaluableExpression, error) {
+	if def.tokens != nil {
+		tokens, err := bindFunctions(def.tokens, functions)
+		if err != nil {
+			return nil, err
+		}
+		return govaluate.NewEvaluableExpressionFromTokens(tokens)
+	}
 	return govaluate.NewEvaluableExpressionWithFunctions(def.expr, functions)
 }
 
+// bindFunctions returns a copy of tokens, which calls the given functions
+func bindFunctions(tokens []govaluate.ExpressionToken, functions map[string]govaluate.ExpressionFunction) ([]govaluate.ExpressionToken, error) {
+	res := append([]govaluate.ExpressionToken{}, tokens...)
+	for i, token := range res {
+		if token.Kind != govaluate.FUNCTION {
+			continue
+		}
+		fn, ok := functions[token.Value2.(string)]
+		if !ok {
+			return nil, fmt.Errorf("undefined function %v", token.Value2)
+		}
+		res[i].Value = fn
+	}
+	return res, nil
+}
+
 type MatcherDef struct {
 	key  string
 	expr string
@@ -152,8 +184,7 @@ func buildExprTree(node *MatcherStage, tokens []govaluate.ExpressionToken, and [
 
 	//expr has no more logical operators
 	if index == -1 {
-		expr := tokensToExpr(tokens)
-		nextNode := NewMatcherStage(expr)
+		nextNode := newStageFromTokens(tokens)
 		node.children = append(node.children, nextNode)
 		if len(and) > 0 {
 			bTokens := and[len(and)-1]
-- 
2.43.0


From 63ca2e63296bf0624ebd692b8cc528eb74780826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:37 +0000
Subject: [PATCH 12/63] fix: only rewrite the arguments of matchers

Everything that looked like an argument was rewritten and taken for an
argument: string literals ('app.yaml', 'app_data', 'img_1') and fields of
nested objects (r.obj.Owner.Name). Such matchers were evaluated to something
else, rules were dropped, or the matcher could not be built.
---
 model/defs/defs.go        | 15 +++++++++++++++
 model/defs/matcher_def.go | 23 ++++++++++++++++++++++-
 model/matcher/matcher.go  |  2 +-
 3 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/model/defs/defs.go b/model/defs/defs.go
index 67ee870..878eed1 100644
--- a/model/defs/defs.go
+++ b/model/defs/defs.go
@@ -31,6 +31,21 @@ var ArgReg = regexp.MustCompile(`([prg][0-9]*)(\.|_)([A-Za-z0-9_]+)`)
 var pArgReg = regexp.MustCompile(`([pg][0-9]*)_([A-Za-z0-9_]+)`)
 var rArgReg = regexp.MustCompile(`(r[0-9]*)_([A-Za-z0-9_]+)`)
 
+// tokenReg matches string literals, escaped variables and names (including accessors)
+var tokenReg = regexp.MustCompile(`(?s)['"](?:\\.|[^'"\\])*['"]|\[(?:\\.|[^\]\\])*\]|(?:\\.|[\pL\p{Nd}_.])+`)
+
+// EscapeArgs replaces the arguments of an expression with valid variable names (p.sub => p_sub)
+// String literals and the fields of an object (r.sub.Name) are not changed
+func EscapeArgs(expr string) string {
+	return tokenReg.ReplaceAllStringFunc(expr, func(token string) string {
+		loc := ArgReg.FindStringSubmatchIndex(token)
+		if loc == nil || loc[0] != 0 {
+			return token
+		}
+		return token[:loc[4]] + "_" + token[loc[5]:] // group 2 is the separator
+	})
+}
+
 type IDef interface {
 	String() string
 	GetKey() string
diff --git a/model/defs/matcher_def.go b/model/defs/matcher_def.go
index 520e982..2e79105 100644
--- a/model/defs/matcher_def.go
+++ b/model/defs/matcher_def.go
@@ -3,6 +3,7 @@ package defs
 import (
 	"errors"
 	"fmt"
+	"regexp"
 	"strings"
 
 	"github.com/abichinger/govaluate"
@@ -29,9 +30,29 @@ func NewMatcherStage(expr string) *MatcherStage {
 func newStageFromTokens(tokens []govaluate.ExpressionToken) *MatcherStage {
 	stage := NewMatcherStage(tokensToExpr(tokens))
 	stage.tokens = tokens
+	stage.pArgs = findArgs(tokens, pArgReg)
+	stage.rArgs = findArgs(tokens, rArgReg)
 	return stage
 }
 
+// findArgs returns the variables which are an argument according to reg
+func findArgs(tokens []govaluate.ExpressionToken, reg *regexp.Regexp) []string {
+	args := []string{}
+	for _, token := range tokens {
+		var name string
+		switch token.Kind {
+		case govaluate.VARIABLE:
+			name = token.Value.(string)
+		case govaluate.ACCESSOR:
+			name = token.Value.([]string)[0]
+		}
+		if loc := reg.FindStringIndex(name); loc != nil && loc[0] == 0 {
+			args = append(args, name)
+		}
+	}
+	return args
+}
+
 func (stage *MatcherStage) GetPolicyArgs() []string {
 	return stage.pArgs
 }
@@ -226,7 +247,7 @@ func (def *MatcherDef) Build(functions map[string]govaluate.ExpressionFunction)
 	}()
 
 	def.root = NewMatcherStage("")
-	expr := ArgReg.ReplaceAllString(def.expr, "${1}_${3}")
+	expr := EscapeArgs(def.expr)
 	parsedExpr, err := govaluate.NewEvaluableExpressionWithFunctions(expr, functions)
 	if err != nil {
 		return err
diff --git a/model/matcher/matcher.go b/model/matcher/matcher.go
index c459ff1..4954030 100644
--- a/model/matcher/matcher.go
+++ b/model/matcher/matcher.go
@@ -305,7 +305,7 @@ func generateEvalFunction(fMap fm.FunctionMap, parameters *MatchParameters) gova
 		}
 
 		expression := args[0].(string)
-		expression = defs.ArgReg.ReplaceAllString(expression, "${1}_${3}")
+		expression = defs.EscapeArgs(expression)
 		return eval(expression, functions, parameters)
 	}
 }
-- 
2.43.0


From 3966ba545aca3964f74a4ed26f5b891e555946bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:26 +0000
Subject: [PATCH 13/63] fix: eval() must see the fields of every rule

Rules with the same sub-rule were evaluated only once per request, with the
fields of an arbitrary one of them: eval(p.sub_rule) && r.obj == p.obj ignored
rules when the sub-rule referred to other fields of the policy.
---
 model/defs/matcher_def.go | 11 +++++++++++
 model/matcher/matcher.go  |  4 ++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/model/defs/matcher_def.go b/model/defs/matcher_def.go
index 2e79105..fcf963a 100644
--- a/model/defs/matcher_def.go
+++ b/model/defs/matcher_def.go
@@ -35,6 +35,17 @@ func newStageFromTokens(tokens []govaluate.ExpressionToken) *MatcherStage {
 	return stage
 }
 
+// UsesEval returns true, if the stage evaluates an expression, which is not known in advance.
+// The result may depend on all the fields of a rule
+func (stage *MatcherStage) UsesEval() bool {
+	for _, token := range stage.tokens {
+		if token.Kind == govaluate.FUNCTION && token.Value2 == "eval" {
+			return true
+		}
+	}
+	return false
+}
+
 // findArgs returns the variables which are an argument according to reg
 func findArgs(tokens []govaluate.ExpressionToken, reg *regexp.Regexp) []string {
 	args := []string{}
diff --git a/model/matcher/matcher.go b/model/matcher/matcher.go
index 4954030..c3eafb7 100644
--- a/model/matcher/matcher.go
+++ b/model/matcher/matcher.go
@@ -150,7 +150,7 @@ func (m *Matcher) addRuleHelper(rule []string, exprNode *defs.MatcherStage, node
 		pArgs := nextExpr.GetPolicyArgs()
 
 		var key string
-		if len(pArgs) == 0 || nextExpr.IsLeafNode() {
+		if len(pArgs) == 0 || nextExpr.IsLeafNode() || nextExpr.UsesEval() {
 			key = util.Hash(rule)
 		} else {
 			r, _ := m.pDef.GetParameters(rule, pArgs)
@@ -177,7 +177,7 @@ func (m *Matcher) removeRuleHelper(rule []string, exprNode *defs.MatcherStage, n
 		pArgs := nextExpr.GetPolicyArgs()
 
 		var key string
-		if len(pArgs) == 0 || nextExpr.IsLeafNode() {
+		if len(pArgs) == 0 || nextExpr.IsLeafNode() || nextExpr.UsesEval() {
 			key = util.Hash(rule)
 		} else {
 			r, _ := m.pDef.GetParameters(rule, pArgs)
-- 
2.43.0


From 4665e87de0217f217807f50fb34036d13d981253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:27 +0000
Subject: [PATCH 14/63] fix: return the errors of the effector

Requests against a model with an unsupported policy effect were denied without
an error.
---
 enforcer.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/enforcer.go b/enforcer.go
index 7559183..4aa1459 100644
--- a/enforcer.go
+++ b/enforcer.go
@@ -356,11 +356,14 @@ func (e *Enforcer) enforce(ctx *Context, rvals []interface{}) (bool, error) {
 		return false, err
 	}
 	if eftErr != nil {
-		return false, err
+		return false, eftErr
 	}
 
 	if res == eft.Indeterminate {
-		res, _, _ = ctx.effector.MergeEffects(effects, matches, true)
+		res, _, err = ctx.effector.MergeEffects(effects, matches, true)
+		if err != nil {
+			return false, err
+		}
 	}
 
 	return res == eft.Allow, nil
-- 
2.43.0


From 1821294cf118fb33ba6858c5157ba99580337a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:36 +0000
Subject: [PATCH 15/63] fix: the order of the matching rules must not affect
 the decision

some(where (p.eft == allow)) && !some(where (p.eft == deny)) returned the
effect of the first matching rule: if it was neither allow nor deny, the
request was denied in spite of a matching allow rule.
---
 model/effector/default_effector.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/model/effector/default_effector.go b/model/effector/default_effector.go
index 7a63f6e..7208087 100644
--- a/model/effector/default_effector.go
+++ b/model/effector/default_effector.go
@@ -46,7 +46,12 @@ func (e *DefaultEffector) MergeEffects(effects []types.Effect, matches [][]strin
 			if len(matches) == 0 {
 				return eft.Deny, []string{}, nil
 			}
-			return effects[0], matches[0], nil
+			for i, effect := range effects {
+				if effect == eft.Allow {
+					return effect, matches[i], nil
+				}
+			}
+			return eft.Deny, []string{}, nil
 		}
 		return eft.Deny, []string{}, errors.New("unsupported effect")
 	}
-- 
2.43.0


From cf5cd37d4123eb85c9158f472e44f5deb57f7aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:26 +0000
Subject: [PATCH 16/63] fix: do not shift the values of rules and requests that
 are too long

A request with an additional value was taken for a request with a leading key:
Enforce("bob", "alice", "data1", "read") was decided as a request of alice.
The same happened to rules, for example grouping rules with subdomains.
---
 enforcer.go        | 2 +-
 model/defs/defs.go | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/enforcer.go b/enforcer.go
index 4aa1459..8943375 100644
--- a/enforcer.go
+++ b/enforcer.go
@@ -340,7 +340,7 @@ func (e *Enforcer) enforce(ctx *Context, rvals []interface{}) (bool, error) {
 
 	var eftErr error = nil
 	err := e.rangeMatches(ctx, rvals, func(rule []string) bool {
-		effect := pDef.GetEft(rule)
+		effect := pDef.GetEft(rule[1:]) // rule starts with the key of the policy
 
 		effects = append(effects, effect)
 		matches = append(matches, rule)
diff --git a/model/defs/defs.go b/model/defs/defs.go
index 878eed1..1b5aee1 100644
--- a/model/defs/defs.go
+++ b/model/defs/defs.go
@@ -103,7 +103,7 @@ func (def *PolicyDef) GetParameter(rule []string, name string) (string, error) {
 		return "", errors.New("parameter '" + name + "' not found.")
 	}
 	//check if rule is passed with key
-	if len(rule) > len(def.args) {
+	if len(rule) > len(def.args) && rule[0] == def.key {
 		index++
 	}
 	if index >= len(rule) {
@@ -161,8 +161,10 @@ func (def *RequestDef) GetParameter(values []interface{}, name string) (interfac
 		return "", errors.New("parameter '" + name + "' not found.")
 	}
 	//check if rule is passed with key
-	if len(values) > len(def.args) {
+	if len(values) > len(def.args) && values[0] == def.key {
 		index++
+	} else if len(values) > len(def.args) {
+		return "", errors.New("too many values")
 	}
 	if index >= len(values) {
 		return "", errors.New("not enough values")
-- 
2.43.0


From e5436e4f669c8b7d923b9b03f02e0e1aca6b555c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:28 +0000
Subject: [PATCH 17/63] fix: lookups of unknown definitions must not panic

GetRequestDef and GetRoleManager panicked instead of returning false, so
SetRequestDef("unknown") panicked instead of returning an error.
---
 model/model.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/model/model.go b/model/model.go
index 88b8d5d..0119089 100644
--- a/model/model.go
+++ b/model/model.go
@@ -328,6 +328,9 @@ func (m *Model) SetPolicy(key string, policy policy.IPolicy) {
 
 func (m *Model) GetRoleManager(key string) (rbac.IRoleManager, bool) {
 	rp, ok := m.rpMap[key]
+	if !ok {
+		return nil, false
+	}
 	return rp.GetRoleManager(), ok
 }
 
@@ -347,6 +350,9 @@ func (m *Model) SetMatcher(key string, matcher matcher.IMatcher) {
 
 func (m *Model) GetRequestDef(key string) (*defs.RequestDef, bool) {
 	def, ok := m.defs[R_SEC][key]
+	if !ok {
+		return nil, false
+	}
 	return def.(*defs.RequestDef), ok
 }
 
-- 
2.43.0


From e3ecb8654733e57d9c3ab4cbadf2d5365873974c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:07 +0000
Subject: [PATCH 18/63] fix: requests against incomplete models must not panic

Enforce and Filter panicked if the model has no request definition, no matcher
or if the matcher refers to the grouping rules (Enforce only).
---
 context.go  | 13 ++++++++++++-
 enforcer.go | 12 +++++++++++-
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/context.go b/context.go
index e0caff9..d5f22c2 100644
--- a/context.go
+++ b/context.go
@@ -106,7 +106,7 @@ func NewContext(model model.IModel, options ...ContextOption) (*Context, error)
 		_ = SetRequestDef("r")(ctx)
 	}
 	if ctx.matcher == nil {
-		_ = SetMatcher("m")(ctx)
+		ctx.matcher, _ = model.GetMatcher("m")
 	}
 	if ctx.effector == nil {
 		_ = SetEffector("e")(ctx)
@@ -114,3 +114,14 @@ func NewContext(model model.IModel, options ...ContextOption) (*Context, error)
 
 	return ctx, nil
 }
+
+// validate returns an error, if the model does not define what is needed to evaluate a request
+func (ctx *Context) validate() error {
+	if ctx.matcher == nil {
+		return fmt.Errorf(str.ERR_MATCHER_NOT_FOUND, "m")
+	}
+	if ctx.rDef == nil {
+		return fmt.Errorf(str.ERR_REQUESTDEF_NOT_FOUND, "r")
+	}
+	return nil
+}
diff --git a/enforcer.go b/enforcer.go
index 8943375..ca932f3 100644
--- a/enforcer.go
+++ b/enforcer.go
@@ -16,6 +16,7 @@ package fastac
 
 import (
 	"errors"
+	"fmt"
 	"strings"
 	"time"
 
@@ -307,6 +308,9 @@ func (e *Enforcer) RangeMatches(params []interface{}, fn func(rule []string) boo
 }
 
 func (e *Enforcer) RangeMatchesWithContext(ctx *Context, rvals []interface{}, fn func(rule []string) bool) error {
+	if err := ctx.validate(); err != nil {
+		return err
+	}
 	if policy, ok := e.model.GetPolicy(ctx.matcher.GetPolicyKey()); ok && isEmpty(policy) {
 		// the matcher is evaluated with an empty rule, which is not part of the policy
 		visit := fn
@@ -332,7 +336,13 @@ func isEmpty(policy p.IPolicy) bool {
 }
 
 func (e *Enforcer) enforce(ctx *Context, rvals []interface{}) (bool, error) {
-	def, _ := e.model.GetDef(m.P_SEC, ctx.matcher.GetPolicyKey())
+	if err := ctx.validate(); err != nil {
+		return false, err
+	}
+	def, ok := e.model.GetDef(m.P_SEC, ctx.matcher.GetPolicyKey())
+	if !ok {
+		return false, fmt.Errorf(str.ERR_POLICY_NOT_FOUND, ctx.matcher.GetPolicyKey())
+	}
 	pDef := def.(*defs.PolicyDef)
 	res := eft.Indeterminate
 	effects := []types.Effect{}
-- 
2.43.0


From f2620f9b06b8a2a6d83b5c4c8fd438ee96eef4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:09 +0000
Subject: [PATCH 19/63] fix: values of a request or rule must not crash the
 process

Requests (and rules) with unexpected values panicked: an invalid IP address or
regular expression, a missing object, a grouping function called with a number.
---
 model/matcher/matcher.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/model/matcher/matcher.go b/model/matcher/matcher.go
index c3eafb7..819f772 100644
--- a/model/matcher/matcher.go
+++ b/model/matcher/matcher.go
@@ -213,7 +213,7 @@ func (m *Matcher) rangeMatches(exprNode *defs.MatcherStage, rules map[string]*Ma
 
 	for _, child := range rules {
 		params.pvals = child.rule
-		res, err := expr.Eval(params)
+		res, err := evaluate(expr, params)
 		if err != nil {
 			return false, err
 		}
@@ -275,6 +275,17 @@ func (m *Matcher) RangeMatches(rDef defs.RequestDef, rvals []interface{}, fMap f
 	return nil
 }
 
+// evaluate returns an error, if the expression or one of its functions panics
+// (functions may panic if the values of a request or rule are invalid)
+func evaluate(expr *govaluate.EvaluableExpression, params *MatchParameters) (res interface{}, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			res, err = nil, fmt.Errorf("evaluation failed: %v", r)
+		}
+	}()
+	return expr.Eval(params)
+}
+
 // distinct calls fn only once per rule, even if the rule satisfies several alternatives
 func distinct(fn func(rule []string) bool) func(rule []string) bool {
 	seen := make(map[string]bool)
-- 
2.43.0


From d46fb7af80e98ff414c5063a199ad16c340d71cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:11 +0000
Subject: [PATCH 20/63] fix: AddRule and RemoveRule must not panic on
 incomplete rules

---
 model/model.go      | 7 +++++++
 rbac/role_policy.go | 9 +++++++++
 str/errors.go       | 1 +
 3 files changed, 17 insertions(+)

diff --git a/model/model.go b/model/model.go
index 0119089..da3d41d 100644
--- a/model/model.go
+++ b/model/model.go
@@ -15,6 +15,7 @@
 package model
 
 import (
+	"errors"
 	"fmt"
 	"sort"
 
@@ -246,6 +247,9 @@ func (m *Model) BuildMatcherFromDef(mDef *defs.MatcherDef) (matcher.IMatcher, er
 }
 
 func (m *Model) AddRule(rule []string) (bool, error) {
+	if len(rule) == 0 || len(rule[0]) == 0 {
+		return false, errors.New(str.ERR_INVALID_RULE)
+	}
 	key := rule[0]
 	sec := key[0]
 	var added bool
@@ -265,6 +269,9 @@ func (m *Model) AddRule(rule []string) (bool, error) {
 }
 
 func (m *Model) RemoveRule(rule []string) (bool, error) {
+	if len(rule) == 0 || len(rule[0]) == 0 {
+		return false, errors.New(str.ERR_INVALID_RULE)
+	}
 	key := rule[0]
 	sec := key[0]
 	var removed bool
diff --git a/rbac/role_policy.go b/rbac/role_policy.go
index f1193e3..9947d07 100644
--- a/rbac/role_policy.go
+++ b/rbac/role_policy.go
@@ -1,7 +1,10 @@
 package rbac
 
 import (
+	"errors"
+
 	"github.com/abichinger/fastac/model/policy"
+	"github.com/abichinger/fastac/str"
 	em "github.com/vansante/go-event-emitter"
 )
 
@@ -16,6 +19,9 @@ func NewRolePolicy(rm IRoleManager) *RolePolicy {
 }
 
 func (p *RolePolicy) AddRule(rule []string) (bool, error) {
+	if len(rule) < 2 {
+		return false, errors.New(str.ERR_INVALID_RULE)
+	}
 	added, err := p.rm.AddLink(rule[0], rule[1], rule[2:]...)
 	if !added || err != nil {
 		return added, err
@@ -25,6 +31,9 @@ func (p *RolePolicy) AddRule(rule []string) (bool, error) {
 }
 
 func (p *RolePolicy) RemoveRule(rule []string) (bool, error) {
+	if len(rule) < 2 {
+		return false, errors.New(str.ERR_INVALID_RULE)
+	}
 	removed, err := p.rm.DeleteLink(rule[0], rule[1], rule[2:]...)
 	if !removed || err != nil {
 		return removed, err
diff --git a/str/errors.go b/str/errors.go
index b8b0b6b..db95196 100644
--- a/str/errors.go
+++ b/str/errors.go
@@ -22,5 +22,6 @@ const (
 	ERR_RM_NOT_FOUND         = "error: role manager %s not found"
 	ERR_REQUESTDEF_NOT_FOUND = "error: request definition %s not found"
 	ERR_EFFECTOR_NOT_FOUND   = "error: effect definition %s not found"
+	ERR_INVALID_RULE         = "error: invalid rule"
 	ERR_INVALID_MODEL        = "invalid model"
 )
-- 
2.43.0


From 8dde12faa85a06ece1298338379c3ec7543e145f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:09 +0000
Subject: [PATCH 21/63] fix: matchers must notice when grouping rules are
 cleared

ClearPolicy("g") did not emit the cleared event, Filter kept returning the
grouping rules that were removed.
---
 rbac/role_policy.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rbac/role_policy.go b/rbac/role_policy.go
index 9947d07..00a06ee 100644
--- a/rbac/role_policy.go
+++ b/rbac/role_policy.go
@@ -54,7 +54,11 @@ func (p *RolePolicy) GetDistinct(columns []int) ([][]string, error) {
 }
 
 func (p *RolePolicy) Clear() error {
-	return p.rm.Clear()
+	if err := p.rm.Clear(); err != nil {
+		return err
+	}
+	p.Emitter.EmitEvent(policy.EVT_CLEARED)
+	return nil
 }
 
 func (p *RolePolicy) GetRoleManager() IRoleManager {
-- 
2.43.0


From 9cdc77ea930207258482485b82618fd441ebdef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:11 +0000
Subject: [PATCH 22/63] fix: stop iterating over the rules when the callback
 returns false

RangeRules of the model continued with the rules of the next policy, the role
managers with the next role or domain.
---
 model/model.go         | 7 +++++--
 rbac/domain_manager.go | 7 ++++---
 rbac/role_manager.go   | 6 ++++--
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/model/model.go b/model/model.go
index da3d41d..7170fc7 100644
--- a/model/model.go
+++ b/model/model.go
@@ -417,16 +417,19 @@ func (m *Model) String() string {
 }
 
 func (m *Model) RangeRules(fn func(rule []string) bool) {
+	cont := true
 	for pKey, p := range m.pMap {
 		ruleKey := []string{pKey}
 		p.Range(func(rule []string) bool {
-			return fn(append(ruleKey, rule...))
+			cont = cont && fn(append(ruleKey, rule...))
+			return cont
 		})
 	}
 	for gKey, rm := range m.rpMap {
 		ruleKey := []string{gKey}
 		rm.Range(func(rule []string) bool {
-			return fn(append(ruleKey, rule...))
+			cont = cont && fn(append(ruleKey, rule...))
+			return cont
 		})
 	}
 }
diff --git a/rbac/domain_manager.go b/rbac/domain_manager.go
index 135ad93..1f56843 100644
--- a/rbac/domain_manager.go
+++ b/rbac/domain_manager.go
@@ -286,6 +286,7 @@ func (dm *DomainManager) GetAllDomains() ([]string, error) {
 }
 
 func (dm *DomainManager) rangeLinks(rmMap *sync.Map, fn func(name1, name2 string, domain ...string) bool) {
+	cont := true
 	rmMap.Range(func(key, value interface{}) bool {
 		roleManager := value.(IRoleManager)
 		domains := []string{}
@@ -294,11 +295,11 @@ func (dm *DomainManager) rangeLinks(rmMap *sync.Map, fn func(name1, name2 string
 		}
 
 		roleManager.Range(func(name1, name2 string, domain ...string) bool {
-			fn(name1, name2, append(domains, domain...)...)
-			return true
+			cont = fn(name1, name2, append(domains, domain...)...)
+			return cont
 		})
 
-		return true
+		return cont
 	})
 }
 
diff --git a/rbac/role_manager.go b/rbac/role_manager.go
index 098da72..5e496c0 100644
--- a/rbac/role_manager.go
+++ b/rbac/role_manager.go
@@ -252,16 +252,18 @@ func (rm *RoleManager) GetAllDomains() ([]string, error) {
 }
 
 func rangeLinks(users *sync.Map, fn func(name1, name2 string, domain ...string) bool) {
+	cont := true
 	users.Range(func(_, value interface{}) bool {
 		user := value.(*Role)
 		user.roles.Range(func(key, _ interface{}) bool {
 			roleName := key.(string)
 			if _, ok := user.redundant.Load(roleName); !ok {
-				return fn(user.name, roleName)
+				cont = fn(user.name, roleName)
+				return cont
 			}
 			return true
 		})
-		return true
+		return cont
 	})
 }
 
-- 
2.43.0


From 8a5055b9b918a299a47bcfc64c17e221d686a579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:21 +0000
Subject: [PATCH 23/63] fix: do not keep the slices passed to AddRule and
 RemoveRule

The stored rule and the pending storage operation changed, when the caller
reused its slice for the next rule.
---
 model/model.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/model/model.go b/model/model.go
index 7170fc7..ffbd6d2 100644
--- a/model/model.go
+++ b/model/model.go
@@ -250,6 +250,7 @@ func (m *Model) AddRule(rule []string) (bool, error) {
 	if len(rule) == 0 || len(rule[0]) == 0 {
 		return false, errors.New(str.ERR_INVALID_RULE)
 	}
+	rule = append([]string{}, rule...) // the caller may reuse its slice
 	key := rule[0]
 	sec := key[0]
 	var added bool
@@ -272,6 +273,7 @@ func (m *Model) RemoveRule(rule []string) (bool, error) {
 	if len(rule) == 0 || len(rule[0]) == 0 {
 		return false, errors.New(str.ERR_INVALID_RULE)
 	}
+	rule = append([]string{}, rule...) // the caller may reuse its slice
 	key := rule[0]
 	sec := key[0]
 	var removed bool
-- 
2.43.0


From 7d548faebffffbdedad5b0c2236b6071f4a5da4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:24 +0000
Subject: [PATCH 24/63] fix: pathMatch with a path that contains the segment *

The wildcard matched only a single segment, if the first segment was a
literal *.
---
 util/builtin_operators.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/builtin_operators.go b/util/builtin_operators.go
index f6b7bcf..2dbb94a 100755
--- a/util/builtin_operators.go
+++ b/util/builtin_operators.go
@@ -175,7 +175,7 @@ func PathMatchHelper(path, pattern, sep string, prefix, suffix byte) bool {
 	pathS, path, lastPathSeg = nextSegment(path, sep)
 	patternS, pattern, lastPatternSeg = nextSegment(pattern, sep)
 
-	if pathS == patternS || isDynamicSegment(patternS, prefix, suffix) {
+	if patternS != "*" && (pathS == patternS || isDynamicSegment(patternS, prefix, suffix)) {
 		if lastPathSeg != lastPatternSeg {
 			return false
 		}
-- 
2.43.0


From 60e294118bb8f7203622c1f34bcabbf758e13319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:26 +0000
Subject: [PATCH 25/63] fix: cached results of role matchers must not be mixed
 up

The names a$$b/c and a/b$$c shared a cache entry.
---
 rbac/domain_manager.go | 2 +-
 rbac/role_manager.go   | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/rbac/domain_manager.go b/rbac/domain_manager.go
index 1f56843..bd85492 100644
--- a/rbac/domain_manager.go
+++ b/rbac/domain_manager.go
@@ -87,7 +87,7 @@ func (dm *DomainManager) getDomain(domains ...string) (domain string, subdomains
 }
 
 func (dm *DomainManager) match(str string, pattern string) bool {
-	cacheKey := strings.Join([]string{str, pattern}, "$$")
+	cacheKey := [2]string{str, pattern}
 	if v, has := dm.matchingFuncCache.Get(cacheKey); has {
 		return v.(bool)
 	} else {
diff --git a/rbac/role_manager.go b/rbac/role_manager.go
index 5e496c0..7f60bfe 100644
--- a/rbac/role_manager.go
+++ b/rbac/role_manager.go
@@ -15,7 +15,6 @@
 package rbac
 
 import (
-	"strings"
 	"sync"
 
 	"github.com/abichinger/fastac/util"
@@ -60,7 +59,7 @@ func (rm *RoleManager) rebuild() {
 }
 
 func (rm *RoleManager) match(str string, pattern string) bool {
-	cacheKey := strings.Join([]string{str, pattern}, "$$")
+	cacheKey := [2]string{str, pattern}
 	if v, has := rm.matchingFuncCache.Get(cacheKey); has {
 		return v.(bool)
 	} else {
-- 
2.43.0


From d6401a06da809b3768870f276268b73564f26a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:28 +0000
Subject: [PATCH 26/63] fix: data race on the default logger

The logger was created by the first request, concurrent requests raced.
---
 log/log.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/log/log.go b/log/log.go
index f7858f5..d70759f 100644
--- a/log/log.go
+++ b/log/log.go
@@ -6,7 +6,7 @@ import (
 	log "github.com/sirupsen/logrus"
 )
 
-var defaultLogger log.FieldLogger
+var defaultLogger log.FieldLogger = NullLogger()
 
 func NullLogger() log.FieldLogger {
 	log := log.New()
-- 
2.43.0


From c9589a823d5ae1171f272fedb1cab4efee16af29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:44 +0000
Subject: [PATCH 27/63] fix: concurrent queries of a role manager interfered
 with each other

Queries store temporary roles for unknown names. The temporary role of one
query was used, and removed, by another one: links were missed or the query
panicked.
---
 rbac/domain_manager.go |  6 +-----
 rbac/role_manager.go   | 28 ++++++++++++++++++++++++++++
 2 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/rbac/domain_manager.go b/rbac/domain_manager.go
index bd85492..31088e1 100644
--- a/rbac/domain_manager.go
+++ b/rbac/domain_manager.go
@@ -246,11 +246,7 @@ func (dm *DomainManager) GetDomains(name string) ([]string, error) {
 	res := []string{}
 	for _, domains := range domainArr {
 		rm := dm.resolveRoleManager(domains...)
-		role, created := rm.getRole(name)
-		if created {
-			defer rm.removeRole(role.name)
-		}
-		if len(role.getUsers()) > 0 || len(role.getRoles()) > 0 {
+		if rm.isLinked(name) {
 			res = append(res, strings.Join(domains, "/"))
 		}
 	}
diff --git a/rbac/role_manager.go b/rbac/role_manager.go
index 7f60bfe..51e9910 100644
--- a/rbac/role_manager.go
+++ b/rbac/role_manager.go
@@ -30,6 +30,7 @@ type RoleManager struct {
 	matcher           util.IMatcher
 	domainMatcher     util.IMatcher
 	matchingFuncCache *util.SyncLRUCache
+	mu                sync.Mutex // queries create temporary roles
 }
 
 // NewRoleManager is the constructor for creating an instance of the
@@ -160,6 +161,9 @@ func (rm *RoleManager) Clear() error {
 // AddLink adds the inheritance link between role: name1 and role: name2.
 // aka role: name1 inherits role: name2.
 func (rm *RoleManager) AddLink(name1 string, name2 string, domains ...string) (bool, error) {
+	rm.mu.Lock()
+	defer rm.mu.Unlock()
+
 	user, _ := rm.getRole(name1)
 	role, _ := rm.getRole(name2)
 
@@ -173,6 +177,9 @@ func (rm *RoleManager) AddLink(name1 string, name2 string, domains ...string) (b
 // DeleteLink deletes the inheritance link between role: name1 and role: name2.
 // aka role: name1 does not inherit role: name2 any more.
 func (rm *RoleManager) DeleteLink(name1 string, name2 string, domains ...string) (bool, error) {
+	rm.mu.Lock()
+	defer rm.mu.Unlock()
+
 	user, _ := rm.getRole(name1)
 	role, _ := rm.getRole(name2)
 
@@ -185,6 +192,9 @@ func (rm *RoleManager) DeleteLink(name1 string, name2 string, domains ...string)
 
 // HasLink determines whether role: name1 inherits role: name2.
 func (rm *RoleManager) HasLink(name1 string, name2 string, domains ...string) (bool, error) {
+	rm.mu.Lock()
+	defer rm.mu.Unlock()
+
 	if name1 == name2 || (rm.matcher != nil && rm.match(name1, name2)) {
 		return true, nil
 	}
@@ -223,6 +233,9 @@ func (rm *RoleManager) hasLinkHelper(targetName string, roles map[string]*Role,
 
 // GetRoles gets the roles that a user inherits.
 func (rm *RoleManager) GetRoles(name string, domains ...string) ([]string, error) {
+	rm.mu.Lock()
+	defer rm.mu.Unlock()
+
 	user, created := rm.getRole(name)
 	if created {
 		defer rm.removeRole(user.name)
@@ -233,6 +246,9 @@ func (rm *RoleManager) GetRoles(name string, domains ...string) ([]string, error
 // GetUsers gets the users of a role.
 // domain is an unreferenced parameter here, may be used in other implementations.
 func (rm *RoleManager) GetUsers(name string, domain ...string) ([]string, error) {
+	rm.mu.Lock()
+	defer rm.mu.Unlock()
+
 	role, created := rm.getRole(name)
 	if created {
 		defer rm.removeRole(role.name)
@@ -240,6 +256,18 @@ func (rm *RoleManager) GetUsers(name string, domain ...string) ([]string, error)
 	return role.getUsers(), nil
 }
 
+// isLinked returns true, if name has at least one user or role
+func (rm *RoleManager) isLinked(name string) bool {
+	rm.mu.Lock()
+	defer rm.mu.Unlock()
+
+	role, created := rm.getRole(name)
+	if created {
+		defer rm.removeRole(role.name)
+	}
+	return len(role.getUsers()) > 0 || len(role.getRoles()) > 0
+}
+
 // GetDomains gets domains that a user has
 func (rm *RoleManager) GetDomains(name string) ([]string, error) {
 	return []string{}, nil
-- 
2.43.0


From ee695470c942cc3bb53f97072383f0e1a4a06299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:25 +0000
Subject: [PATCH 28/63] fix: links from pattern to pattern must apply to
 matching names

With a link from the pattern u* to the pattern g*, the name u1 had the role g*,
but none of the roles that match g*. A link from u1 to g* already worked.
---
 rbac/role.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rbac/role.go b/rbac/role.go
index f8976c8..20a45f4 100644
--- a/rbac/role.go
+++ b/rbac/role.go
@@ -104,6 +104,10 @@ func (r *Role) rangeRoles(fn func(key, value interface{}) bool) {
 	r.matchedBy.Range(func(key, value interface{}) bool {
 		role := value.(*Role)
 		role.roles.Range(fn)
+		role.roles.Range(func(key, value interface{}) bool {
+			value.(*Role).matched.Range(fn)
+			return true
+		})
 		return true
 	})
 }
@@ -118,6 +122,10 @@ func (r *Role) rangeUsers(fn func(key, value interface{}) bool) {
 	r.matchedBy.Range(func(key, value interface{}) bool {
 		role := value.(*Role)
 		role.users.Range(fn)
+		role.users.Range(func(key, value interface{}) bool {
+			value.(*Role).matched.Range(fn)
+			return true
+		})
 		return true
 	})
 }
-- 
2.43.0


From 0e81d2c557a53e5b58b826e9118e45e3156a555c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:27 +0000
Subject: [PATCH 29/63] fix: queries must not register domain patterns

After a query for an unknown domain that is a pattern, for example a request
with the domain *, every query for a new domain panicked.
---
 rbac/domain_manager.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rbac/domain_manager.go b/rbac/domain_manager.go
index 31088e1..c5281b8 100644
--- a/rbac/domain_manager.go
+++ b/rbac/domain_manager.go
@@ -143,7 +143,9 @@ func (dm *DomainManager) getRoleManager(domain string, store bool, subdomains ..
 		}
 		if dm.domainMatcher != nil {
 			if dm.domainMatcher.IsPattern(domain) {
-				dm.patternMap.Store(domain, nil)
+				if store {
+					dm.patternMap.Store(domain, nil)
+				}
 			} else {
 				dm.rangeMatchingPatterns(domain, func(rm2 IRoleManager) {
 					rm2.Range(func(name1, name2 string, domain ...string) bool {
-- 
2.43.0


From f583d34a5766f78c5bf2a236f166aa495391174a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:57 +0000
Subject: [PATCH 30/63] fix: links of a domain must not get mixed up with
 inherited links

If a link was added to a domain and also inherited from a domain pattern, it
was treated as inherited only: adding it reported that it already exists, it
was not saved with the policy and it was gone after the pattern (or one of
several patterns) was removed or a new role matcher was set.
---
 rbac/domain_manager.go |  4 ++--
 rbac/role.go           | 39 ++++++++++++++++++++++++++++++++++++++-
 rbac/role_manager.go   | 35 ++++++++++++++++++++++++++++++-----
 3 files changed, 70 insertions(+), 8 deletions(-)

diff --git a/rbac/domain_manager.go b/rbac/domain_manager.go
index c5281b8..a108e16 100644
--- a/rbac/domain_manager.go
+++ b/rbac/domain_manager.go
@@ -169,7 +169,7 @@ func (dm *DomainManager) AddLink(name1 string, name2 string, domains ...string)
 	roleManager := dm.getRoleManager(domain, true, subdomains...) //create role manager if it does not exist
 	added, _ := roleManager.AddLink(name1, name2, subdomains...)
 
-	if dm.domainMatcher != nil && dm.domainMatcher.IsPattern(domain) {
+	if added && dm.domainMatcher != nil && dm.domainMatcher.IsPattern(domain) {
 		dm.rangeMatchingRMs(domain, func(rm IRoleManager) {
 			_, _ = rm.AddLink(name1, name2, append(subdomains, REDUNDANT_ROLE)...)
 		})
@@ -187,7 +187,7 @@ func (dm *DomainManager) DeleteLink(name1 string, name2 string, domains ...strin
 	roleManager := dm.getRoleManager(domain, true, subdomains...) //create role manager if it does not exist
 	removed, _ := roleManager.DeleteLink(name1, name2, subdomains...)
 
-	if dm.domainMatcher != nil && dm.domainMatcher.IsPattern(domain) {
+	if removed && dm.domainMatcher != nil && dm.domainMatcher.IsPattern(domain) {
 		dm.rangeMatchingRMs(domain, func(rm IRoleManager) {
 			_, _ = rm.DeleteLink(name1, name2, append(subdomains, REDUNDANT_ROLE)...)
 		})
diff --git a/rbac/role.go b/rbac/role.go
index 20a45f4..24c7ac3 100644
--- a/rbac/role.go
+++ b/rbac/role.go
@@ -26,7 +26,8 @@ type Role struct {
 	users     *sync.Map
 	matched   *sync.Map
 	matchedBy *sync.Map
-	redundant *sync.Map //string set of redundant roles
+	explicit  *sync.Map //string set of the roles, which were added directly
+	redundant *sync.Map //roles inherited from a domain pattern => number of patterns
 }
 
 func newRole(name string) *Role {
@@ -36,6 +37,7 @@ func newRole(name string) *Role {
 	r.users = &sync.Map{}
 	r.matched = &sync.Map{}
 	r.matchedBy = &sync.Map{}
+	r.explicit = &sync.Map{}
 	r.redundant = &sync.Map{}
 	return &r
 }
@@ -64,6 +66,41 @@ func (r *Role) removeRole(role *Role) bool {
 }
 
 //should only be called inside addRole
+// addExplicit marks the link to name as added directly, returns false if it was already marked
+func (r *Role) addExplicit(name string) bool {
+	_, loaded := r.explicit.LoadOrStore(name, nil)
+	return !loaded
+}
+
+// removeExplicit returns false, if the link to name was not added directly
+func (r *Role) removeExplicit(name string) bool {
+	_, loaded := loadAndDelete(r.explicit, name)
+	return loaded
+}
+
+// countRedundant returns how many domain patterns the link to name is inherited from
+func (r *Role) countRedundant(name string) int {
+	if n, ok := r.redundant.Load(name); ok {
+		return n.(int)
+	}
+	return 0
+}
+
+// addRedundant adds delta to the number of domain patterns, the link to name is inherited from
+func (r *Role) addRedundant(name string, delta int) {
+	if n := r.countRedundant(name) + delta; n > 0 {
+		r.redundant.Store(name, n)
+	} else {
+		r.redundant.Delete(name)
+	}
+}
+
+// needsRole returns true, if there is still a reason for the link to name
+func (r *Role) needsRole(name string) bool {
+	_, ok := r.explicit.Load(name)
+	return ok || r.countRedundant(name) > 0
+}
+
 func (r *Role) addUser(user *Role) {
 	r.users.Store(user.name, user)
 }
diff --git a/rbac/role_manager.go b/rbac/role_manager.go
index 51e9910..08d6ad4 100644
--- a/rbac/role_manager.go
+++ b/rbac/role_manager.go
@@ -57,6 +57,9 @@ func (rm *RoleManager) rebuild() {
 		_, _ = rm.AddLink(name1, name2, domain...)
 		return true
 	})
+	rangeRedundant(roles, func(name1, name2 string) {
+		_, _ = rm.AddLink(name1, name2, REDUNDANT_ROLE)
+	})
 }
 
 func (rm *RoleManager) match(str string, pattern string) bool {
@@ -168,10 +171,13 @@ func (rm *RoleManager) AddLink(name1 string, name2 string, domains ...string) (b
 	role, _ := rm.getRole(name2)
 
 	if len(domains) > 0 && domains[0] == REDUNDANT_ROLE {
-		user.redundant.LoadOrStore(name2, nil)
+		user.addRedundant(name2, 1)
+		return user.addRole(role), nil
 	}
 
-	return user.addRole(role), nil
+	added := user.addExplicit(name2)
+	user.addRole(role)
+	return added, nil
 }
 
 // DeleteLink deletes the inheritance link between role: name1 and role: name2.
@@ -184,10 +190,15 @@ func (rm *RoleManager) DeleteLink(name1 string, name2 string, domains ...string)
 	role, _ := rm.getRole(name2)
 
 	if len(domains) > 0 && domains[0] == REDUNDANT_ROLE {
-		user.redundant.Delete(name2)
+		user.addRedundant(name2, -1)
+		return !user.needsRole(name2) && user.removeRole(role), nil
 	}
 
-	return user.removeRole(role), nil
+	removed := user.removeExplicit(name2)
+	if !user.needsRole(name2) {
+		user.removeRole(role)
+	}
+	return removed, nil
 }
 
 // HasLink determines whether role: name1 inherits role: name2.
@@ -284,7 +295,7 @@ func rangeLinks(users *sync.Map, fn func(name1, name2 string, domain ...string)
 		user := value.(*Role)
 		user.roles.Range(func(key, _ interface{}) bool {
 			roleName := key.(string)
-			if _, ok := user.redundant.Load(roleName); !ok {
+			if _, ok := user.explicit.Load(roleName); ok {
 				cont = fn(user.name, roleName)
 				return cont
 			}
@@ -294,6 +305,20 @@ func rangeLinks(users *sync.Map, fn func(name1, name2 string, domain ...string)
 	})
 }
 
+// rangeRedundant calls fn once for every domain pattern a link is inherited from
+func rangeRedundant(users *sync.Map, fn func(name1, name2 string)) {
+	users.Range(func(_, value interface{}) bool {
+		user := value.(*Role)
+		user.redundant.Range(func(key, _ interface{}) bool {
+			for i := user.countRedundant(key.(string)); i > 0; i-- {
+				fn(user.name, key.(string))
+			}
+			return true
+		})
+		return true
+	})
+}
+
 func (rm *RoleManager) Range(fn func(name1, name2 string, domain ...string) bool) {
 	rangeLinks(rm.allRoles, fn)
 }
-- 
2.43.0


From 4025444b8689944160cb1ca8a9c2f7801227d3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:54 +0000
Subject: [PATCH 31/63] fix: links without a domain must not get mixed up with
 domains

Links without a domain were kept in a domain called RoleManager: they were
granted to requests for the domains RoleManager and redundant_role, and links
of a domain pattern like * applied to requests without a domain. The links of
a domain pattern were also copied to other patterns, depending on the order in
which they were added.
---
 rbac/domain_manager.go | 8 ++++++--
 rbac/role_manager.go   | 4 +++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/rbac/domain_manager.go b/rbac/domain_manager.go
index a108e16..0bcf5e1 100644
--- a/rbac/domain_manager.go
+++ b/rbac/domain_manager.go
@@ -21,7 +21,8 @@ import (
 	"github.com/abichinger/fastac/util"
 )
 
-const defaultDomain string = "RoleManager"
+// the null byte keeps the names of domains apart from defaultDomain
+const defaultDomain string = "\x00RoleManager"
 
 type DomainManager struct {
 	rmMap             *sync.Map
@@ -107,6 +108,9 @@ func (dm *DomainManager) load(name interface{}) (value IDefaultRoleManager, ok b
 func (dm *DomainManager) rangeMatchingRMs(pattern string, fn func(rm IRoleManager)) {
 	dm.rmMap.Range(func(key, value interface{}) bool {
 		domain := key.(string)
+		if domain == defaultDomain || dm.domainMatcher.IsPattern(domain) {
+			return true // patterns match the names of domains
+		}
 		if pattern != domain && dm.match(domain, pattern) {
 			fn(value.(IRoleManager))
 		}
@@ -141,7 +145,7 @@ func (dm *DomainManager) getRoleManager(domain string, store bool, subdomains ..
 		if store {
 			dm.rmMap.Store(domain, rm)
 		}
-		if dm.domainMatcher != nil {
+		if dm.domainMatcher != nil && domain != defaultDomain {
 			if dm.domainMatcher.IsPattern(domain) {
 				if store {
 					dm.patternMap.Store(domain, nil)
diff --git a/rbac/role_manager.go b/rbac/role_manager.go
index 08d6ad4..6f32f9b 100644
--- a/rbac/role_manager.go
+++ b/rbac/role_manager.go
@@ -20,7 +20,9 @@ import (
 	"github.com/abichinger/fastac/util"
 )
 
-const REDUNDANT_ROLE = "redundant_role"
+// REDUNDANT_ROLE marks a link, which is inherited from a domain pattern
+// (the null byte keeps it apart from the names of domains)
+const REDUNDANT_ROLE = "\x00redundant_role"
 
 // RoleManager provides a default implementation for the RoleManager interface
 type RoleManager struct {
-- 
2.43.0


From 50d21ba29c349ffb5d946b20dbb4dba163b33ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:35 +0000
Subject: [PATCH 32/63] fix: do not lose modifications when the storage adapter
 fails

Flush removed the operations from the queue before they were executed, so a
failed operation (or batch, including the operation after it) was never
stored, even if Flush was called again.
---
 storage/controller.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/storage/controller.go b/storage/controller.go
index 2c9e208..cc3ec2d 100644
--- a/storage/controller.go
+++ b/storage/controller.go
@@ -128,10 +128,10 @@ func (sc *StorageController) AutosaveEnabled() bool {
 func (sc *StorageController) flush() error {
 	for len(sc.q) > 0 {
 		operation := sc.q[0]
-		sc.q = sc.q[1:]
 		if err := sc.run(operation.opc, operation.rule); err != nil {
-			return err
+			return err // the operation stays in the queue
 		}
+		sc.q = sc.q[1:]
 	}
 	return nil
 }
@@ -145,17 +145,15 @@ func (sc *StorageController) batchFlush() error {
 		currentOpc = sc.q[0].opc
 	}
 
-	for len(sc.q) > 0 {
-
-		operation := sc.q[0]
-		sc.q = sc.q[1:]
+	for _, operation := range sc.q {
 
 		if currentOpc == operation.opc {
 			rules = append(rules, operation.rule)
 		} else {
 			if err := sc.runBatch(currentOpc, rules); err != nil {
-				return err
+				return err // the operations stay in the queue
 			}
+			sc.q = sc.q[len(rules):]
 			currentOpc = operation.opc
 			rules = [][]string{operation.rule}
 		}
@@ -165,6 +163,7 @@ func (sc *StorageController) batchFlush() error {
 		if err := sc.runBatch(currentOpc, rules); err != nil {
 			return err
 		}
+		sc.q = sc.q[len(rules):]
 	}
 	return nil
 }
-- 
2.43.0


From e41fbce161c2b28decf3bdb33986be63b95cec62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:21 +0000
Subject: [PATCH 33/63] fix: a failing storage adapter must not crash the
 process

With autosave enabled, an error of the adapter caused a panic while the event
emitter was locked. The error is returned by AddRule, RemoveRule, AddRules and
RemoveRules instead, the modification is retried by the next flush.
---
 enforcer.go           | 24 ++++++++++++++++--------
 storage/controller.go | 11 ++++++++++-
 2 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/enforcer.go b/enforcer.go
index ca932f3..0cc5e3f 100644
--- a/enforcer.go
+++ b/enforcer.go
@@ -179,7 +179,11 @@ func (e *Enforcer) Flush() error {
 // Add grouping rule:
 //  e.AddRule([]string{"g", "alice", "group1"})
 func (e *Enforcer) AddRule(rule []string) (bool, error) {
-	return e.model.AddRule(rule)
+	ok, err := e.model.AddRule(rule)
+	if err == nil {
+		err = e.sc.AutosaveError()
+	}
+	return ok, err
 }
 
 // RemoveRule removes a rule from the model
@@ -190,17 +194,21 @@ func (e *Enforcer) AddRule(rule []string) (bool, error) {
 // Add grouping rule:
 //  e.RemoveRule([]string{"g", "alice", "group1"})
 func (e *Enforcer) RemoveRule(rule []string) (bool, error) {
-	return e.model.RemoveRule(rule)
+	ok, err := e.model.RemoveRule(rule)
+	if err == nil {
+		err = e.sc.AutosaveError()
+	}
+	return ok, err
 }
 
 // AddRules adds multiple rules to the model
-func (e *Enforcer) AddRules(rules [][]string) error {
+func (e *Enforcer) AddRules(rules [][]string) (err error) {
 	if e.sc.AutosaveEnabled() {
 		e.sc.DisableAutosave()
 		defer func() {
 			e.sc.EnableAutosave()
-			if err := e.sc.Flush(); err != nil {
-				panic(err)
+			if flushErr := e.sc.Flush(); err == nil {
+				err = flushErr
 			}
 		}()
 	}
@@ -213,13 +221,13 @@ func (e *Enforcer) AddRules(rules [][]string) error {
 }
 
 // RemoveRules removes multiple rules from the model
-func (e *Enforcer) RemoveRules(rules [][]string) error {
+func (e *Enforcer) RemoveRules(rules [][]string) (err error) {
 	if e.sc.AutosaveEnabled() {
 		e.sc.DisableAutosave()
 		defer func() {
 			e.sc.EnableAutosave()
-			if err := e.sc.Flush(); err != nil {
-				panic(err)
+			if flushErr := e.sc.Flush(); err == nil {
+				err = flushErr
 			}
 		}()
 	}
diff --git a/storage/controller.go b/storage/controller.go
index cc3ec2d..39364fa 100644
--- a/storage/controller.go
+++ b/storage/controller.go
@@ -45,6 +45,7 @@ type StorageController struct {
 	adapter   Adapter
 	q         []operation
 	wait      int
+	err       error
 	listeners []listener
 }
 
@@ -107,7 +108,7 @@ func (sc *StorageController) addOp(opc opcode, rule []string) {
 		if sc.wait <= 0 {
 			err := sc.Flush()
 			if err != nil {
-				panic(err)
+				sc.err = err // do not panic inside of the event emitter, see AutosaveError
 			}
 		}
 	}
@@ -125,6 +126,14 @@ func (sc *StorageController) AutosaveEnabled() bool {
 	return sc.autosave
 }
 
+// AutosaveError returns and resets the error of the last autosave.
+// Operations that could not be stored are kept and retried by the next Flush
+func (sc *StorageController) AutosaveError() error {
+	err := sc.err
+	sc.err = nil
+	return err
+}
+
 func (sc *StorageController) flush() error {
 	for len(sc.q) > 0 {
 		operation := sc.q[0]
-- 
2.43.0


From 17466e928e6e5e8373cbda959638ce555f358f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:19 +0000
Subject: [PATCH 34/63] fix: NewEnforcer with the path of a policy file must
 keep the adapter

The adapter was assigned to a shadowed variable. LoadPolicy and SavePolicy of
such an enforcer panicked, Flush returned an error.
---
 enforcer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enforcer.go b/enforcer.go
index 0cc5e3f..3f059ab 100644
--- a/enforcer.go
+++ b/enforcer.go
@@ -101,7 +101,7 @@ func NewEnforcer(model interface{}, adapter interface{}, options ...Option) (*En
 	var a3 storage.Adapter
 	switch a2 := adapter.(type) {
 	case string:
-		a3 := a.NewFileAdapter(a2)
+		a3 = a.NewFileAdapter(a2)
 		if err := a3.LoadPolicy(e.model); err != nil {
 			return nil, err
 		}
-- 
2.43.0


From fe07b974ac2f7aa1748e92d3a91d6565b08ff1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:21 +0000
Subject: [PATCH 35/63] fix: SetModel must connect the new model to the storage

Modifications of the new model were not passed to the storage adapter, they
were lost without an error.
---
 enforcer.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/enforcer.go b/enforcer.go
index 3f059ab..a27e2c3 100644
--- a/enforcer.go
+++ b/enforcer.go
@@ -387,8 +387,16 @@ func (e *Enforcer) enforce(ctx *Context, rvals []interface{}) (bool, error) {
 	return res == eft.Allow, nil
 }
 
+// SetModel replaces the model, the rules of the new model are stored by the current adapter
 func (e *Enforcer) SetModel(model m.IModel) {
 	e.model = model
+	if e.sc != nil {
+		enabled := e.sc.Enabled()
+		e.SetAdapter(e.adapter)
+		if !enabled {
+			e.sc.Disable()
+		}
+	}
 }
 
 func (e *Enforcer) GetModel() m.IModel {
-- 
2.43.0


From 75bda37fbd13384d0b4a94fa21ba023b727b76a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:41 +0000
Subject: [PATCH 36/63] fix: FileAdapter must not corrupt rules or lose the
 policy file

Fields which contain commas, quotes, line breaks, leading spaces or start
with # were not read back as they were written. An interrupted or failed
save left an incomplete file behind.
---
 storage/adapter/fileadapter.go | 106 ++++++++++++++++++++++-----------
 1 file changed, 70 insertions(+), 36 deletions(-)

diff --git a/storage/adapter/fileadapter.go b/storage/adapter/fileadapter.go
index 682f49e..98bb7d3 100644
--- a/storage/adapter/fileadapter.go
+++ b/storage/adapter/fileadapter.go
@@ -17,27 +17,35 @@ package adapter
 import (
 	"bufio"
 	"encoding/csv"
+	"fmt"
+	"io"
 	"os"
 	"strings"
+	"time"
+	"unicode"
+	"unicode/utf8"
 
 	"github.com/abichinger/fastac/api"
 	"github.com/abichinger/fastac/model/defs"
 	"github.com/abichinger/fastac/model/policy"
-	"github.com/abichinger/fastac/util"
 )
 
+func newReader(r io.Reader) *csv.Reader {
+	reader := csv.NewReader(r)
+	reader.Comma = ','
+	reader.Comment = '#'
+	reader.TrimLeadingSpace = true
+	reader.FieldsPerRecord = -1
+	return reader
+}
+
 // LoadPolicyLine loads a text line as a policy rule to model.
 func LoadPolicyLine(line string, m api.IAddRuleBool) error {
 	if line == "" || strings.HasPrefix(line, "#") {
 		return nil
 	}
 
-	r := csv.NewReader(strings.NewReader(line))
-	r.Comma = ','
-	r.Comment = '#'
-	r.TrimLeadingSpace = true
-
-	tokens, err := r.Read()
+	tokens, err := newReader(strings.NewReader(line)).Read()
 	if err != nil {
 		return err
 	}
@@ -46,6 +54,23 @@ func LoadPolicyLine(line string, m api.IAddRuleBool) error {
 	return err
 }
 
+// policyLine is the counterpart to LoadPolicyLine. Fields are quoted if necessary
+func policyLine(rule []string) string {
+	fields := make([]string, len(rule))
+	for i, field := range rule {
+		fields[i] = field
+
+		first, _ := utf8.DecodeRuneInString(field)
+		if strings.ContainsAny(field, ",\"\r\n") || unicode.IsSpace(first) ||
+			(i == 0 && (field == "" || first == '#')) {
+			// the reader drops a carriage return in front of a line feed
+			field = strings.ReplaceAll(field, "\r\n", "\r\r\n")
+			fields[i] = `"` + strings.ReplaceAll(field, `"`, `""`) + `"`
+		}
+	}
+	return strings.Join(fields, ", ") + "\n"
+}
+
 type FileAdapter struct {
 	path string
 }
@@ -85,50 +110,59 @@ func (a *FileAdapter) LoadPolicy(model api.IAddRuleBool) error {
 	}
 	defer file.Close()
 
-	scanner := bufio.NewScanner(file)
-	for scanner.Scan() {
-		if err := LoadPolicyLine(scanner.Text(), model); err != nil {
+	reader := newReader(file)
+	for {
+		rule, err := reader.Read()
+		if err == io.EOF {
+			return nil
+		}
+		if err != nil {
+			return err
+		}
+		if _, err := model.AddRule(rule); err != nil {
 			return err
 		}
 	}
-
-	return scanner.Err()
 }
 
-func getWriter(path string) (*bufio.Writer, error) {
-	if exists, err := util.FileExists(path); err != nil {
-		return nil, err
-	} else if exists {
-		if err := os.Remove(path); err != nil {
-			return nil, err
-		}
-	}
-	if _, err := os.Create(path); err != nil {
-		return nil, err
-	}
-	f, err := os.OpenFile(path, os.O_WRONLY, 0600)
+func writePolicy(file *os.File, model api.IRangeRules) error {
+	var err error
+	writer := bufio.NewWriter(file)
+	model.RangeRules(func(rule []string) bool {
+		_, err = writer.WriteString(policyLine(rule))
+		return err == nil
+	})
 	if err != nil {
-		return nil, err
+		return err
+	}
+	if err := writer.Flush(); err != nil {
+		return err
 	}
-	return bufio.NewWriter(f), nil
+	return file.Sync()
 }
 
+// SavePolicy replaces the policy file, the old file is kept if an error occurs
 func (a *FileAdapter) SavePolicy(model api.IRangeRules) error {
-	writer, err := getWriter(a.path)
+	name := fmt.Sprintf("%s.%d.tmp", a.path, time.Now().UnixNano())
+	tmp, err := os.OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0666)
 	if err != nil {
 		return err
 	}
-	model.RangeRules(func(rule []string) bool {
-		if _, err = writer.WriteString(strings.Join(rule, ", ") + "\n"); err != nil {
-			return false
-		}
-		return true
-	})
+
+	err = writePolicy(tmp, model)
+	if info, statErr := os.Stat(a.path); err == nil && statErr == nil {
+		err = tmp.Chmod(info.Mode().Perm())
+	}
+	if closeErr := tmp.Close(); err == nil {
+		err = closeErr
+	}
+	if err == nil {
+		err = os.Rename(name, a.path)
+	}
 	if err != nil {
-		return err
+		os.Remove(name)
 	}
-
-	return writer.Flush()
+	return err
 }
 
 func (a *FileAdapter) AddRule(rule []string) error {
-- 
2.43.0


From c6e67fe326ac697f7b85a4e782be323fd6e4026d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:19 +0000
Subject: [PATCH 37/63] fix: matchers of a single request must be released

Every request with an ad-hoc matcher added three listeners to the policy,
which were never removed.
---
 context.go               | 24 ++++++++++++++++++++++--
 enforcer.go              |  3 +++
 model/matcher/matcher.go | 23 ++++++++++++++++++++---
 3 files changed, 45 insertions(+), 5 deletions(-)

diff --git a/context.go b/context.go
index d5f22c2..f1076f3 100644
--- a/context.go
+++ b/context.go
@@ -23,14 +23,14 @@ func SetMatcher(matcher interface{}) ContextOption {
 			m, ok := ctx.model.GetMatcher(mType)
 			if !ok {
 				mDef := defs.NewMatcherDef("", mType)
-				m, err = ctx.model.BuildMatcherFromDef(mDef)
+				m, err = ctx.buildMatcher(mDef)
 				if err != nil {
 					return err
 				}
 			}
 			ctx.matcher = m
 		case *defs.MatcherDef:
-			m, err := ctx.model.BuildMatcherFromDef(mType)
+			m, err := ctx.buildMatcher(mType)
 			if err != nil {
 				return err
 			}
@@ -90,6 +90,8 @@ type Context struct {
 	rDef     *defs.RequestDef
 	matcher  m.IMatcher
 	effector e.IEffector
+
+	close []func() // releases the matchers of this context
 }
 
 func NewContext(model model.IModel, options ...ContextOption) (*Context, error) {
@@ -98,6 +100,7 @@ func NewContext(model model.IModel, options ...ContextOption) (*Context, error)
 
 	for _, option := range options {
 		if err := option(ctx); err != nil {
+			ctx.Close()
 			return nil, err
 		}
 	}
@@ -115,6 +118,23 @@ func NewContext(model model.IModel, options ...ContextOption) (*Context, error)
 	return ctx, nil
 }
 
+func (ctx *Context) buildMatcher(mDef *defs.MatcherDef) (m.IMatcher, error) {
+	matcher, err := ctx.model.BuildMatcherFromDef(mDef)
+	if c, ok := matcher.(interface{ Close() }); ok {
+		ctx.close = append(ctx.close, c.Close)
+	}
+	return matcher, err
+}
+
+// Close releases the matchers which were built for this context, the context must not be used afterwards.
+// Otherwise they are kept up to date as long as the policy exists
+func (ctx *Context) Close() {
+	for _, close := range ctx.close {
+		close()
+	}
+	ctx.close = nil
+}
+
 // validate returns an error, if the model does not define what is needed to evaluate a request
 func (ctx *Context) validate() error {
 	if ctx.matcher == nil {
diff --git a/enforcer.go b/enforcer.go
index a27e2c3..750bda0 100644
--- a/enforcer.go
+++ b/enforcer.go
@@ -263,6 +263,7 @@ func (e *Enforcer) Enforce(params ...interface{}) (bool, error) {
 	if err != nil {
 		return false, err
 	}
+	defer ctx.Close()
 	return e.EnforceWithContext(ctx, rvals...)
 }
 
@@ -295,6 +296,7 @@ func (e *Enforcer) Filter(params ...interface{}) ([][]string, error) {
 	if err != nil {
 		return nil, err
 	}
+	defer ctx.Close()
 	return e.FilterWithContext(ctx, rvals...)
 }
 
@@ -312,6 +314,7 @@ func (e *Enforcer) RangeMatches(params []interface{}, fn func(rule []string) boo
 	if err != nil {
 		return err
 	}
+	defer ctx.Close()
 	return e.RangeMatchesWithContext(ctx, rvals, fn)
 }
 
diff --git a/model/matcher/matcher.go b/model/matcher/matcher.go
index 819f772..6923b42 100644
--- a/model/matcher/matcher.go
+++ b/model/matcher/matcher.go
@@ -23,6 +23,7 @@ import (
 	p "github.com/abichinger/fastac/model/policy"
 	"github.com/abichinger/fastac/util"
 	"github.com/abichinger/govaluate"
+	em "github.com/vansante/go-event-emitter"
 )
 
 type MatcherNode struct {
@@ -106,6 +107,7 @@ type Matcher struct {
 	pDef     *defs.PolicyDef
 	policy   p.IPolicy
 	root     *MatcherNode
+	close    []func()
 }
 
 func NewMatcher(pDef *defs.PolicyDef, policy p.IPolicy, exprRoot *defs.MatcherStage) *Matcher {
@@ -120,23 +122,38 @@ func NewMatcher(pDef *defs.PolicyDef, policy p.IPolicy, exprRoot *defs.MatcherSt
 		return true
 	})
 
-	policy.AddListener(p.EVT_RULE_ADDED, func(arguments ...interface{}) {
+	m.listen(p.EVT_RULE_ADDED, func(arguments ...interface{}) {
 		rule := arguments[0].([]string)
 		m.addRule(rule)
 	})
 
-	policy.AddListener(p.EVT_RULE_REMOVED, func(arguments ...interface{}) {
+	m.listen(p.EVT_RULE_REMOVED, func(arguments ...interface{}) {
 		rule := arguments[0].([]string)
 		m.removeRule(rule)
 	})
 
-	policy.AddListener(p.EVT_CLEARED, func(arguments ...interface{}) {
+	m.listen(p.EVT_CLEARED, func(arguments ...interface{}) {
 		m.root = NewMatcherNode([]string{""})
 	})
 
 	return m
 }
 
+func (m *Matcher) listen(event em.EventType, handler em.HandleFunc) {
+	listener := m.policy.AddListener(event, handler)
+	m.close = append(m.close, func() {
+		m.policy.RemoveListener(event, listener)
+	})
+}
+
+// Close detaches the matcher from the policy, the matcher must not be used afterwards
+func (m *Matcher) Close() {
+	for _, close := range m.close {
+		close()
+	}
+	m.close = nil
+}
+
 func (m *Matcher) GetPolicyKey() string {
 	return m.pDef.GetKey()
 }
-- 
2.43.0


From a8e4a2295df668a5b852ac38cf870021e34da3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:50 +0000
Subject: [PATCH 38/63] fix: links of nested domain patterns must apply to
 matching domains

A link of the domain d/*, s/* was not visible in d/1, s/1, because links
which d/1 inherits were not passed on to its subdomains.
---
 rbac/domain_manager.go | 56 +++++++++++++++++++++++++++++++++++++++---
 1 file changed, 52 insertions(+), 4 deletions(-)

diff --git a/rbac/domain_manager.go b/rbac/domain_manager.go
index 0bcf5e1..beded6b 100644
--- a/rbac/domain_manager.go
+++ b/rbac/domain_manager.go
@@ -27,12 +27,20 @@ const defaultDomain string = "\x00RoleManager"
 type DomainManager struct {
 	rmMap             *sync.Map
 	patternMap        *sync.Map
+	inherited         map[string]*inheritedLink
 	maxHierarchyLevel int
 	matcher           util.IMatcher
 	domainMatcher     util.IMatcher
 	matchingFuncCache *util.SyncLRUCache
 }
 
+// inheritedLink is a link of a domain pattern, which also applies to this domain
+type inheritedLink struct {
+	name1, name2 string
+	subdomains   []string
+	count        int // number of patterns
+}
+
 // NewDomainManager is the constructor for creating an instance of the
 // default DomainManager implementation.
 func NewDomainManager(maxHierarchyLevel int) *DomainManager {
@@ -74,6 +82,7 @@ func (dm *DomainManager) rebuild() {
 func (dm *DomainManager) Clear() error {
 	dm.rmMap = &sync.Map{}
 	dm.patternMap = &sync.Map{}
+	dm.inherited = make(map[string]*inheritedLink)
 	dm.matchingFuncCache = util.NewSyncLRUCache(100)
 	return nil
 }
@@ -84,7 +93,7 @@ func (dm *DomainManager) getDomain(domains ...string) (domain string, subdomains
 	} else if domains[0] == REDUNDANT_ROLE {
 		return defaultDomain, []string{REDUNDANT_ROLE}, nil
 	}
-	return domains[0], domains[1:], nil
+	return domains[0], domains[1:len(domains):len(domains)], nil
 }
 
 func (dm *DomainManager) match(str string, pattern string) bool {
@@ -153,9 +162,12 @@ func (dm *DomainManager) getRoleManager(domain string, store bool, subdomains ..
 			} else {
 				dm.rangeMatchingPatterns(domain, func(rm2 IRoleManager) {
 					rm2.Range(func(name1, name2 string, domain ...string) bool {
-						_, _ = rm.AddLink(name1, name2, append(domain, REDUNDANT_ROLE)...)
+						_, _ = rm.AddLink(name1, name2, inherit(domain)...)
 						return true
 					})
+					for _, link := range rm2.(*DomainManager).inherited {
+						_, _ = rm.AddLink(link.name1, link.name2, inherit(link.subdomains)...)
+					}
 				})
 			}
 		}
@@ -163,6 +175,36 @@ func (dm *DomainManager) getRoleManager(domain string, store bool, subdomains ..
 	return rm
 }
 
+// countInherited changes the number of patterns from which the link is inherited.
+// Returns true, if this is the first pattern or was the last one
+func (dm *DomainManager) countInherited(name1, name2 string, domains []string, delta int) bool {
+	subdomains := domains[: len(domains)-1 : len(domains)-1] // without REDUNDANT_ROLE
+	key := util.Hash(append([]string{name1, name2}, subdomains...))
+	link, ok := dm.inherited[key]
+	if !ok {
+		link = &inheritedLink{name1, name2, append(subdomains[:0:0], subdomains...), 0}
+	}
+	link.count += delta
+	if link.count > 0 {
+		dm.inherited[key] = link
+	} else {
+		delete(dm.inherited, key)
+	}
+	return ok != (link.count > 0)
+}
+
+// inherit marks the domains of a link as inherited
+func inherit(domains []string) []string {
+	if isInherited(domains) {
+		return domains
+	}
+	return append(domains, REDUNDANT_ROLE)
+}
+
+func isInherited(domains []string) bool {
+	return len(domains) > 0 && domains[len(domains)-1] == REDUNDANT_ROLE
+}
+
 // AddLink adds the inheritance link between role: name1 and role: name2.
 // aka role: name1 inherits role: name2.
 func (dm *DomainManager) AddLink(name1 string, name2 string, domains ...string) (bool, error) {
@@ -175,9 +217,12 @@ func (dm *DomainManager) AddLink(name1 string, name2 string, domains ...string)
 
 	if added && dm.domainMatcher != nil && dm.domainMatcher.IsPattern(domain) {
 		dm.rangeMatchingRMs(domain, func(rm IRoleManager) {
-			_, _ = rm.AddLink(name1, name2, append(subdomains, REDUNDANT_ROLE)...)
+			_, _ = rm.AddLink(name1, name2, inherit(subdomains)...)
 		})
 	}
+	if isInherited(domains) {
+		added = dm.countInherited(name1, name2, domains, 1)
+	}
 	return added, nil
 }
 
@@ -193,9 +238,12 @@ func (dm *DomainManager) DeleteLink(name1 string, name2 string, domains ...strin
 
 	if removed && dm.domainMatcher != nil && dm.domainMatcher.IsPattern(domain) {
 		dm.rangeMatchingRMs(domain, func(rm IRoleManager) {
-			_, _ = rm.DeleteLink(name1, name2, append(subdomains, REDUNDANT_ROLE)...)
+			_, _ = rm.DeleteLink(name1, name2, inherit(subdomains)...)
 		})
 	}
+	if isInherited(domains) {
+		removed = dm.countInherited(name1, name2, domains, -1)
+	}
 	return removed, nil
 }
 
-- 
2.43.0


From 24dec9b94d9a0abfcba71503f61442392cb545a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:40 +0000
Subject: [PATCH 39/63] fix: SetDef must not panic if the key is empty

---
 model/model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model/model.go b/model/model.go
index ffbd6d2..bf779f8 100644
--- a/model/model.go
+++ b/model/model.go
@@ -169,7 +169,7 @@ func (m *Model) SetDef(sec byte, key string, value string) error {
 	if !ok {
 		return fmt.Errorf(str.ERR_INVALID_SEC, sec)
 	}
-	if key[0] != secDef.keyPrefix {
+	if key == "" || key[0] != secDef.keyPrefix {
 		return fmt.Errorf(str.ERR_INVALID_KEY_PREFIX, secDef.name, secDef.keyPrefix)
 	}
 	if err := secDef.handler(m, key, value); err != nil {
-- 
2.43.0


From d8a243f891071a254a6c75dd1285539fe2025d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:45 +0000
Subject: [PATCH 40/63] fix: malformed role and domain patterns must yield
 errors instead of panics

---
 rbac/domain_manager.go | 72 ++++++++++++++++++++++++++++++------------
 rbac/role_manager.go   | 65 +++++++++++++++++++++++++++++---------
 2 files changed, 101 insertions(+), 36 deletions(-)

diff --git a/rbac/domain_manager.go b/rbac/domain_manager.go
index beded6b..4ccc6b2 100644
--- a/rbac/domain_manager.go
+++ b/rbac/domain_manager.go
@@ -73,7 +73,7 @@ func (dm *DomainManager) rebuild() {
 	rmMap := dm.rmMap
 	_ = dm.Clear()
 	dm.rangeLinks(rmMap, func(name1, name2 string, domain ...string) bool {
-		_, _ = dm.AddLink(name1, name2, domain...)
+		mustAddLink(dm, name1, name2, domain...)
 		return true
 	})
 }
@@ -151,9 +151,6 @@ func (dm *DomainManager) getRoleManager(domain string, store bool, subdomains ..
 		} else {
 			rm = newRoleManagerWithMatchingFunc(dm.maxHierarchyLevel-1, dm.matcher)
 		}
-		if store {
-			dm.rmMap.Store(domain, rm)
-		}
 		if dm.domainMatcher != nil && domain != defaultDomain {
 			if dm.domainMatcher.IsPattern(domain) {
 				if store {
@@ -162,15 +159,18 @@ func (dm *DomainManager) getRoleManager(domain string, store bool, subdomains ..
 			} else {
 				dm.rangeMatchingPatterns(domain, func(rm2 IRoleManager) {
 					rm2.Range(func(name1, name2 string, domain ...string) bool {
-						_, _ = rm.AddLink(name1, name2, inherit(domain)...)
+						mustAddLink(rm, name1, name2, inherit(domain)...)
 						return true
 					})
 					for _, link := range rm2.(*DomainManager).inherited {
-						_, _ = rm.AddLink(link.name1, link.name2, inherit(link.subdomains)...)
+						mustAddLink(rm, link.name1, link.name2, inherit(link.subdomains)...)
 					}
 				})
 			}
 		}
+		if store {
+			dm.rmMap.Store(domain, rm)
+		}
 	}
 	return rm
 }
@@ -207,18 +207,29 @@ func isInherited(domains []string) bool {
 
 // AddLink adds the inheritance link between role: name1 and role: name2.
 // aka role: name1 inherits role: name2.
-func (dm *DomainManager) AddLink(name1 string, name2 string, domains ...string) (bool, error) {
+func (dm *DomainManager) AddLink(name1 string, name2 string, domains ...string) (added bool, err error) {
+	defer recoverMatch(&err)
+
 	domain, subdomains, err := dm.getDomain(domains...)
 	if err != nil {
 		return false, err
 	}
+	matching := []IRoleManager{} // the domains which a pattern matches
+	if dm.domainMatcher != nil && dm.domainMatcher.IsPattern(domain) {
+		dm.rangeMatchingRMs(domain, func(rm IRoleManager) {
+			matching = append(matching, rm)
+		})
+	}
 	roleManager := dm.getRoleManager(domain, true, subdomains...) //create role manager if it does not exist
-	added, _ := roleManager.AddLink(name1, name2, subdomains...)
+	added, err = roleManager.AddLink(name1, name2, subdomains...)
+	if err != nil {
+		return false, err
+	}
 
-	if added && dm.domainMatcher != nil && dm.domainMatcher.IsPattern(domain) {
-		dm.rangeMatchingRMs(domain, func(rm IRoleManager) {
+	if added {
+		for _, rm := range matching {
 			_, _ = rm.AddLink(name1, name2, inherit(subdomains)...)
-		})
+		}
 	}
 	if isInherited(domains) {
 		added = dm.countInherited(name1, name2, domains, 1)
@@ -228,18 +239,29 @@ func (dm *DomainManager) AddLink(name1 string, name2 string, domains ...string)
 
 // DeleteLink deletes the inheritance link between role: name1 and role: name2.
 // aka role: name1 does not inherit role: name2 any more.
-func (dm *DomainManager) DeleteLink(name1 string, name2 string, domains ...string) (bool, error) {
+func (dm *DomainManager) DeleteLink(name1 string, name2 string, domains ...string) (removed bool, err error) {
+	defer recoverMatch(&err)
+
 	domain, subdomains, err := dm.getDomain(domains...)
 	if err != nil {
 		return false, err
 	}
+	matching := []IRoleManager{} // the domains which a pattern matches
+	if dm.domainMatcher != nil && dm.domainMatcher.IsPattern(domain) {
+		dm.rangeMatchingRMs(domain, func(rm IRoleManager) {
+			matching = append(matching, rm)
+		})
+	}
 	roleManager := dm.getRoleManager(domain, true, subdomains...) //create role manager if it does not exist
-	removed, _ := roleManager.DeleteLink(name1, name2, subdomains...)
+	removed, err = roleManager.DeleteLink(name1, name2, subdomains...)
+	if err != nil {
+		return false, err
+	}
 
-	if removed && dm.domainMatcher != nil && dm.domainMatcher.IsPattern(domain) {
-		dm.rangeMatchingRMs(domain, func(rm IRoleManager) {
+	if removed {
+		for _, rm := range matching {
 			_, _ = rm.DeleteLink(name1, name2, inherit(subdomains)...)
-		})
+		}
 	}
 	if isInherited(domains) {
 		removed = dm.countInherited(name1, name2, domains, -1)
@@ -248,7 +270,9 @@ func (dm *DomainManager) DeleteLink(name1 string, name2 string, domains ...strin
 }
 
 // HasLink determines whether role: name1 inherits role: name2.
-func (dm *DomainManager) HasLink(name1 string, name2 string, domains ...string) (bool, error) {
+func (dm *DomainManager) HasLink(name1 string, name2 string, domains ...string) (has bool, err error) {
+	defer recoverMatch(&err)
+
 	domain, subdomains, err := dm.getDomain(domains...)
 	if err != nil {
 		return false, err
@@ -258,7 +282,9 @@ func (dm *DomainManager) HasLink(name1 string, name2 string, domains ...string)
 }
 
 // GetRoles gets the roles that a subject inherits.
-func (dm *DomainManager) GetRoles(name string, domains ...string) ([]string, error) {
+func (dm *DomainManager) GetRoles(name string, domains ...string) (roles []string, err error) {
+	defer recoverMatch(&err)
+
 	domain, subdomains, err := dm.getDomain(domains...)
 	if err != nil {
 		return nil, err
@@ -268,7 +294,9 @@ func (dm *DomainManager) GetRoles(name string, domains ...string) ([]string, err
 }
 
 // GetUsers gets the users of a role.
-func (dm *DomainManager) GetUsers(name string, domains ...string) ([]string, error) {
+func (dm *DomainManager) GetUsers(name string, domains ...string) (users []string, err error) {
+	defer recoverMatch(&err)
+
 	domain, subdomains, err := dm.getDomain(domains...)
 	if err != nil {
 		return nil, err
@@ -291,13 +319,15 @@ func (dm *DomainManager) resolveRoleManager(domains ...string) *RoleManager {
 }
 
 // GetDomains gets domains that a user has
-func (dm *DomainManager) GetDomains(name string) ([]string, error) {
+func (dm *DomainManager) GetDomains(name string) (res []string, err error) {
+	defer recoverMatch(&err)
+
 	domainArr, err := dm.getAllDomainsHelper()
 	if err != nil {
 		return nil, err
 	}
 
-	res := []string{}
+	res = []string{}
 	for _, domains := range domainArr {
 		rm := dm.resolveRoleManager(domains...)
 		if rm.isLinked(name) {
diff --git a/rbac/role_manager.go b/rbac/role_manager.go
index 6f32f9b..b67c9ae 100644
--- a/rbac/role_manager.go
+++ b/rbac/role_manager.go
@@ -15,6 +15,7 @@
 package rbac
 
 import (
+	"fmt"
 	"sync"
 
 	"github.com/abichinger/fastac/util"
@@ -56,14 +57,27 @@ func (rm *RoleManager) rebuild() {
 	roles := rm.allRoles
 	_ = rm.Clear()
 	rangeLinks(roles, func(name1, name2 string, domain ...string) bool {
-		_, _ = rm.AddLink(name1, name2, domain...)
+		mustAddLink(rm, name1, name2, domain...)
 		return true
 	})
 	rangeRedundant(roles, func(name1, name2 string) {
-		_, _ = rm.AddLink(name1, name2, REDUNDANT_ROLE)
+		mustAddLink(rm, name1, name2, REDUNDANT_ROLE)
 	})
 }
 
+func mustAddLink(rm IRoleManager, name1, name2 string, domain ...string) {
+	if _, err := rm.AddLink(name1, name2, domain...); err != nil {
+		panic(err)
+	}
+}
+
+// recoverMatch returns the panic of a matcher (e.g. a malformed pattern) as an error
+func recoverMatch(err *error) {
+	if r := recover(); r != nil {
+		*err = fmt.Errorf("matching failed: %v", r)
+	}
+}
+
 func (rm *RoleManager) match(str string, pattern string) bool {
 	cacheKey := [2]string{str, pattern}
 	if v, has := rm.matchingFuncCache.Get(cacheKey); has {
@@ -111,6 +125,12 @@ func (rm *RoleManager) getRole(name string) (r *Role, created bool) {
 	if role, ok = rm.load(name); !ok {
 		role = newRole(name)
 		rm.allRoles.Store(name, role)
+		matched := false
+		defer func() {
+			if !matched { // the matcher panicked
+				rm.removeRole(name)
+			}
+		}()
 
 		if rm.matcher != nil {
 			if rm.matcher.IsPattern(name) {
@@ -124,11 +144,24 @@ func (rm *RoleManager) getRole(name string) (r *Role, created bool) {
 				})
 			}
 		}
+		matched = true
 	}
 
 	return role, !ok
 }
 
+// loads or creates the roles of a link
+func (rm *RoleManager) getRoles(name1, name2 string) (user, role *Role) {
+	user, created := rm.getRole(name1)
+	defer func() {
+		if created && role == nil { // the matcher panicked
+			rm.removeRole(name1)
+		}
+	}()
+	role, _ = rm.getRole(name2)
+	return user, role
+}
+
 func loadAndDelete(m *sync.Map, name string) (value interface{}, loaded bool) {
 	value, loaded = m.Load(name)
 	if loaded {
@@ -165,38 +198,38 @@ func (rm *RoleManager) Clear() error {
 
 // AddLink adds the inheritance link between role: name1 and role: name2.
 // aka role: name1 inherits role: name2.
-func (rm *RoleManager) AddLink(name1 string, name2 string, domains ...string) (bool, error) {
+func (rm *RoleManager) AddLink(name1 string, name2 string, domains ...string) (added bool, err error) {
 	rm.mu.Lock()
 	defer rm.mu.Unlock()
+	defer recoverMatch(&err)
 
-	user, _ := rm.getRole(name1)
-	role, _ := rm.getRole(name2)
+	user, role := rm.getRoles(name1, name2)
 
 	if len(domains) > 0 && domains[0] == REDUNDANT_ROLE {
 		user.addRedundant(name2, 1)
 		return user.addRole(role), nil
 	}
 
-	added := user.addExplicit(name2)
+	added = user.addExplicit(name2)
 	user.addRole(role)
 	return added, nil
 }
 
 // DeleteLink deletes the inheritance link between role: name1 and role: name2.
 // aka role: name1 does not inherit role: name2 any more.
-func (rm *RoleManager) DeleteLink(name1 string, name2 string, domains ...string) (bool, error) {
+func (rm *RoleManager) DeleteLink(name1 string, name2 string, domains ...string) (removed bool, err error) {
 	rm.mu.Lock()
 	defer rm.mu.Unlock()
+	defer recoverMatch(&err)
 
-	user, _ := rm.getRole(name1)
-	role, _ := rm.getRole(name2)
+	user, role := rm.getRoles(name1, name2)
 
 	if len(domains) > 0 && domains[0] == REDUNDANT_ROLE {
 		user.addRedundant(name2, -1)
 		return !user.needsRole(name2) && user.removeRole(role), nil
 	}
 
-	removed := user.removeExplicit(name2)
+	removed = user.removeExplicit(name2)
 	if !user.needsRole(name2) {
 		user.removeRole(role)
 	}
@@ -204,20 +237,20 @@ func (rm *RoleManager) DeleteLink(name1 string, name2 string, domains ...string)
 }
 
 // HasLink determines whether role: name1 inherits role: name2.
-func (rm *RoleManager) HasLink(name1 string, name2 string, domains ...string) (bool, error) {
+func (rm *RoleManager) HasLink(name1 string, name2 string, domains ...string) (has bool, err error) {
 	rm.mu.Lock()
 	defer rm.mu.Unlock()
+	defer recoverMatch(&err)
 
 	if name1 == name2 || (rm.matcher != nil && rm.match(name1, name2)) {
 		return true, nil
 	}
 
 	user, userCreated := rm.getRole(name1)
-	role, roleCreated := rm.getRole(name2)
-
 	if userCreated {
 		defer rm.removeRole(user.name)
 	}
+	role, roleCreated := rm.getRole(name2)
 	if roleCreated {
 		defer rm.removeRole(role.name)
 	}
@@ -245,9 +278,10 @@ func (rm *RoleManager) hasLinkHelper(targetName string, roles map[string]*Role,
 }
 
 // GetRoles gets the roles that a user inherits.
-func (rm *RoleManager) GetRoles(name string, domains ...string) ([]string, error) {
+func (rm *RoleManager) GetRoles(name string, domains ...string) (roles []string, err error) {
 	rm.mu.Lock()
 	defer rm.mu.Unlock()
+	defer recoverMatch(&err)
 
 	user, created := rm.getRole(name)
 	if created {
@@ -258,9 +292,10 @@ func (rm *RoleManager) GetRoles(name string, domains ...string) ([]string, error
 
 // GetUsers gets the users of a role.
 // domain is an unreferenced parameter here, may be used in other implementations.
-func (rm *RoleManager) GetUsers(name string, domain ...string) ([]string, error) {
+func (rm *RoleManager) GetUsers(name string, domain ...string) (users []string, err error) {
 	rm.mu.Lock()
 	defer rm.mu.Unlock()
+	defer recoverMatch(&err)
 
 	role, created := rm.getRole(name)
 	if created {
-- 
2.43.0


From 892e798a09de7c2f3b70f40573e8e8649a676315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:47 +0000
Subject: [PATCH 41/63] fix: NewEnforcer must return an error if the model is
 nil

---
 enforcer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/enforcer.go b/enforcer.go
index 750bda0..fd12565 100644
--- a/enforcer.go
+++ b/enforcer.go
@@ -93,6 +93,9 @@ func NewEnforcer(model interface{}, adapter interface{}, options ...Option) (*En
 	case m.Model:
 		e.model = &m2
 	case *m.Model:
+		if m2 == nil {
+			return nil, errors.New(str.ERR_INVALID_MODEL)
+		}
 		e.model = m2
 	default:
 		return nil, errors.New(str.ERR_INVALID_MODEL)
-- 
2.43.0


From 7bd0b16d68bb8095b11b2fb947983ead0a488eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:14 +0000
Subject: [PATCH 42/63] fix: GetDomains must not confuse subdomains with
 domains containing a slash

---
 rbac/domain_manager.go | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/rbac/domain_manager.go b/rbac/domain_manager.go
index 4ccc6b2..803485d 100644
--- a/rbac/domain_manager.go
+++ b/rbac/domain_manager.go
@@ -327,21 +327,20 @@ func (dm *DomainManager) GetDomains(name string) (res []string, err error) {
 		return nil, err
 	}
 
-	res = []string{}
+	names := []string{}
 	for _, domains := range domainArr {
 		rm := dm.resolveRoleManager(domains...)
 		if rm.isLinked(name) {
-			res = append(res, strings.Join(domains, "/"))
+			names = append(names, strings.Join(domains, "/"))
 		}
 	}
-	return res, nil
+	return unique(names), nil
 }
 
 func (dm *DomainManager) getAllDomainsHelper() ([][]string, error) {
 	domainMap := make(map[string][]string)
 	dm.Range(func(name1, name2 string, domains ...string) bool {
-		domain := strings.Join(domains, "/")
-		domainMap[domain] = domains
+		domainMap[util.Hash(domains)] = domains
 		return true
 	})
 	domains := [][]string{}
@@ -358,11 +357,24 @@ func (dm *DomainManager) GetAllDomains() ([]string, error) {
 		return nil, err
 	}
 
-	res := []string{}
+	names := []string{}
 	for _, domain := range domains {
-		res = append(res, strings.Join(domain, "/"))
+		names = append(names, strings.Join(domain, "/"))
+	}
+	return unique(names), nil
+}
+
+// unique removes duplicates, different domains can have the same joined name
+func unique(names []string) []string {
+	res := []string{}
+	seen := make(map[string]bool, len(names))
+	for _, name := range names {
+		if !seen[name] {
+			seen[name] = true
+			res = append(res, name)
+		}
 	}
-	return res, nil
+	return res
 }
 
 func (dm *DomainManager) rangeLinks(rmMap *sync.Map, fn func(name1, name2 string, domain ...string) bool) {
-- 
2.43.0


From 55960396316b7b5c19f772b3ddfe3760762a8088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:32 +0000
Subject: [PATCH 43/63] fix: removed roles must not connect the patterns they
 match

---
 rbac/role.go         | 12 ++++++++++++
 rbac/role_manager.go |  9 +++++++++
 2 files changed, 21 insertions(+)

diff --git a/rbac/role.go b/rbac/role.go
index 24c7ac3..98baf1d 100644
--- a/rbac/role.go
+++ b/rbac/role.go
@@ -101,6 +101,18 @@ func (r *Role) needsRole(name string) bool {
 	return ok || r.countRedundant(name) > 0
 }
 
+// isUsed returns true, if the role is part of a link
+func (r *Role) isUsed() bool {
+	used := false
+	isUsed := func(key, value interface{}) bool {
+		used = true
+		return false
+	}
+	r.roles.Range(isUsed)
+	r.users.Range(isUsed)
+	return used
+}
+
 func (r *Role) addUser(user *Role) {
 	r.users.Store(user.name, user)
 }
diff --git a/rbac/role_manager.go b/rbac/role_manager.go
index b67c9ae..45203fb 100644
--- a/rbac/role_manager.go
+++ b/rbac/role_manager.go
@@ -177,6 +177,13 @@ func (rm *RoleManager) removeRole(name string) {
 	rm.patternRoles.Delete(name)
 }
 
+// removeUnused removes a role without links, it would connect the patterns it matches
+func (rm *RoleManager) removeUnused(role *Role) {
+	if !role.isUsed() {
+		rm.removeRole(role.name)
+	}
+}
+
 // SetMatcher support use pattern in g
 func (rm *RoleManager) SetMatcher(matcher util.IMatcher) {
 	rm.matcher = matcher
@@ -223,6 +230,8 @@ func (rm *RoleManager) DeleteLink(name1 string, name2 string, domains ...string)
 	defer recoverMatch(&err)
 
 	user, role := rm.getRoles(name1, name2)
+	defer rm.removeUnused(user)
+	defer rm.removeUnused(role)
 
 	if len(domains) > 0 && domains[0] == REDUNDANT_ROLE {
 		user.addRedundant(name2, -1)
-- 
2.43.0


From 93bb47695d774c9eab19b42d27fbcfecbd17fb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:48 +0000
Subject: [PATCH 44/63] fix: GetDistinct must return an error for invalid
 columns

---
 model/policy/policy_api.go | 11 +++++++++++
 str/errors.go              |  1 +
 2 files changed, 12 insertions(+)

diff --git a/model/policy/policy_api.go b/model/policy/policy_api.go
index 45381d1..8a5f825 100644
--- a/model/policy/policy_api.go
+++ b/model/policy/policy_api.go
@@ -1,7 +1,10 @@
 package policy
 
 import (
+	"fmt"
+
 	"github.com/abichinger/fastac/api"
+	"github.com/abichinger/fastac/str"
 	"github.com/abichinger/fastac/util"
 	em "github.com/vansante/go-event-emitter"
 )
@@ -22,15 +25,23 @@ type IPolicy interface {
 }
 
 func GetDistinct(p IPolicy, columns []int) ([][]string, error) {
+	var err error
 	resMap := make(map[string][]string)
 	p.Range(func(rule []string) bool {
 		values := make([]string, len(columns))
 		for i, column := range columns {
+			if column < 0 || column >= len(rule) {
+				err = fmt.Errorf(str.ERR_INVALID_COLUMN, column)
+				return false
+			}
 			values[i] = rule[column]
 		}
 		resMap[util.Hash(values)] = values
 		return true
 	})
+	if err != nil {
+		return nil, err
+	}
 	res := make([][]string, 0)
 	for _, values := range resMap {
 		res = append(res, values)
diff --git a/str/errors.go b/str/errors.go
index db95196..30a9a3c 100644
--- a/str/errors.go
+++ b/str/errors.go
@@ -23,5 +23,6 @@ const (
 	ERR_REQUESTDEF_NOT_FOUND = "error: request definition %s not found"
 	ERR_EFFECTOR_NOT_FOUND   = "error: effect definition %s not found"
 	ERR_INVALID_RULE         = "error: invalid rule"
+	ERR_INVALID_COLUMN       = "error: invalid column %d"
 	ERR_INVALID_MODEL        = "invalid model"
 )
-- 
2.43.0


From 980dd90e3c44073996f29b22b7e46d2b2dc04361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:48 +0000
Subject: [PATCH 45/63] fix: SavePolicy must follow symbolic links and clean up
 after a panic

---
 storage/adapter/fileadapter.go | 37 ++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/storage/adapter/fileadapter.go b/storage/adapter/fileadapter.go
index 98bb7d3..84c2b3f 100644
--- a/storage/adapter/fileadapter.go
+++ b/storage/adapter/fileadapter.go
@@ -20,6 +20,7 @@ import (
 	"fmt"
 	"io"
 	"os"
+	"path/filepath"
 	"strings"
 	"time"
 	"unicode"
@@ -143,26 +144,40 @@ func writePolicy(file *os.File, model api.IRangeRules) error {
 
 // SavePolicy replaces the policy file, the old file is kept if an error occurs
 func (a *FileAdapter) SavePolicy(model api.IRangeRules) error {
-	name := fmt.Sprintf("%s.%d.tmp", a.path, time.Now().UnixNano())
+	path := a.path
+	if target, err := filepath.EvalSymlinks(path); err == nil {
+		path = target
+	}
+
+	name := fmt.Sprintf("%s.%d.tmp", path, time.Now().UnixNano())
 	tmp, err := os.OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0666)
 	if err != nil {
 		return err
 	}
+	saved := false
+	defer func() { // also if ranging over the rules panics
+		tmp.Close()
+		if !saved {
+			os.Remove(name)
+		}
+	}()
 
-	err = writePolicy(tmp, model)
-	if info, statErr := os.Stat(a.path); err == nil && statErr == nil {
-		err = tmp.Chmod(info.Mode().Perm())
+	if err := writePolicy(tmp, model); err != nil {
+		return err
 	}
-	if closeErr := tmp.Close(); err == nil {
-		err = closeErr
+	if info, err := os.Stat(path); err == nil {
+		if err := tmp.Chmod(info.Mode().Perm()); err != nil {
+			return err
+		}
 	}
-	if err == nil {
-		err = os.Rename(name, a.path)
+	if err := tmp.Close(); err != nil {
+		return err
 	}
-	if err != nil {
-		os.Remove(name)
+	if err := os.Rename(name, path); err != nil {
+		return err
 	}
-	return err
+	saved = true
+	return nil
 }
 
 func (a *FileAdapter) AddRule(rule []string) error {
-- 
2.43.0


From 7912116605d0a3f4f9c381031c317a38f7e33848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:44 +0000
Subject: [PATCH 46/63] fix: matchers must not stick to replaced or removed
 definitions

Setting or removing a definition left matchers in place, which had been
built from the old definition or for the old policy. Requests were still
granted by rules that are not part of the model any more.
---
 model/handlers.go |  5 +++++
 model/model.go    | 20 ++++++++++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/model/handlers.go b/model/handlers.go
index b14a8f1..81cd3de 100644
--- a/model/handlers.go
+++ b/model/handlers.go
@@ -11,18 +11,21 @@ func addPolicyDef(m *Model, key string, arguments string) error {
 	def := defs.NewPolicyDef(key, arguments)
 	m.defs[P_SEC][key] = def
 	m.pMap[key] = policy.NewPolicy(def)
+	m.refreshMatchers(key)
 	return nil
 }
 
 func removePolicyDef(m *Model, key string) error {
 	delete(m.defs[P_SEC], key)
 	delete(m.pMap, key)
+	m.refreshMatchers(key)
 	return nil
 }
 
 func addMatcherDef(m *Model, key string, matcher string) error {
 	mDef := defs.NewMatcherDef(key, matcher)
 	m.defs[M_SEC][key] = mDef
+	m.refreshMatcher(key)
 	return nil
 }
 
@@ -43,6 +46,7 @@ func addRoleDef(m *Model, key, arguments string) error {
 	}
 	m.rpMap[key] = rbac.NewRolePolicy(rm)
 	m.fm.SetFunction(key, rbac.GenerateGFunction(rm))
+	m.refreshMatchers(key)
 	return nil
 }
 
@@ -50,6 +54,7 @@ func removeRoleDef(m *Model, key string) error {
 	delete(m.defs[G_SEC], key)
 	delete(m.rpMap, key)
 	m.fm.RemoveFunction(key)
+	m.refreshMatchers(key)
 	return nil
 }
 
diff --git a/model/model.go b/model/model.go
index bf779f8..c24469d 100644
--- a/model/model.go
+++ b/model/model.go
@@ -218,6 +218,24 @@ func (m *Model) BuildMatcher(key string) error {
 	return nil
 }
 
+// refreshMatchers must be called if a policy was replaced or removed, matchers stick to the policy they were built for
+func (m *Model) refreshMatchers(pKey string) {
+	for key, matcher := range m.mMap {
+		if matcher.GetPolicyKey() == pKey {
+			m.refreshMatcher(key)
+		}
+	}
+}
+
+// refreshMatcher rebuilds a matcher. If this is not possible, requests fail until the matcher has been built again
+func (m *Model) refreshMatcher(key string) {
+	_, built := m.mMap[key]
+	_, defined := m.defs[M_SEC][key]
+	if built && defined && m.BuildMatcher(key) != nil {
+		delete(m.mMap, key)
+	}
+}
+
 func (m *Model) BuildMatcherFromDef(mDef *defs.MatcherDef) (matcher.IMatcher, error) {
 	if err := mDef.Build(m.fm.GetFunctions()); err != nil {
 		return nil, err
@@ -333,6 +351,7 @@ func (m *Model) GetPolicy(key string) (policy.IPolicy, bool) {
 
 func (m *Model) SetPolicy(key string, policy policy.IPolicy) {
 	m.pMap[key] = policy
+	m.refreshMatchers(key)
 }
 
 func (m *Model) GetRoleManager(key string) (rbac.IRoleManager, bool) {
@@ -346,6 +365,7 @@ func (m *Model) GetRoleManager(key string) (rbac.IRoleManager, bool) {
 func (m *Model) SetRoleManager(key string, rm rbac.IRoleManager) {
 	m.rpMap[key] = rbac.NewRolePolicy(rm)
 	m.fm.SetFunction(key, rbac.GenerateGFunction(rm))
+	m.refreshMatchers(key)
 }
 
 func (m *Model) GetMatcher(key string) (matcher.IMatcher, bool) {
-- 
2.43.0


From bc92b3d462a336102f6f3598d0758fc9fe17d4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:35 +0000
Subject: [PATCH 47/63] fix: pathMatch must not take exponential time

A pattern with several wildcards had to be reconsidered for every
combination of segments, a long path blocked the request.
---
 util/builtin_operators.go | 43 +++++++++++++++++----------------------
 1 file changed, 19 insertions(+), 24 deletions(-)

diff --git a/util/builtin_operators.go b/util/builtin_operators.go
index 2dbb94a..83bf7a7 100755
--- a/util/builtin_operators.go
+++ b/util/builtin_operators.go
@@ -148,14 +148,6 @@ func WrapMatchingFunc(fn MatchingFunc) govaluate.ExpressionFunction {
 	}
 }
 
-func nextSegment(path, sep string) (seg string, remaining string, last bool) {
-	i := strings.Index(path, sep)
-	if i == -1 {
-		return path, "", true
-	}
-	return path[:i], path[i+1:], false
-}
-
 func isDynamicSegment(segment string, prefix, suffix byte) bool {
 	l := len(segment)
 	if l == 0 {
@@ -170,25 +162,28 @@ func PathMatchHelper(path, pattern, sep string, prefix, suffix byte) bool {
 		return true
 	}
 
-	var pathS, patternS string
-	var lastPathSeg, lastPatternSeg bool
-	pathS, path, lastPathSeg = nextSegment(path, sep)
-	patternS, pattern, lastPatternSeg = nextSegment(pattern, sep)
-
-	if patternS != "*" && (pathS == patternS || isDynamicSegment(patternS, prefix, suffix)) {
-		if lastPathSeg != lastPatternSeg {
+	pathSegs := strings.Split(path, sep)
+	patternSegs := strings.Split(pattern, sep)
+
+	// star is the index of the last wildcard, which matches the segments in front of pathSegs[starEnd].
+	// Earlier wildcards never need to be reconsidered
+	star, starEnd := -1, 0
+	i, j := 0, 0
+	for i < len(pathSegs) {
+		switch {
+		case j < len(patternSegs) && patternSegs[j] == "*":
+			star, starEnd = j, i+1
+			i, j = i+1, j+1
+		case j < len(patternSegs) && (pathSegs[i] == patternSegs[j] || isDynamicSegment(patternSegs[j], prefix, suffix)):
+			i, j = i+1, j+1
+		case star >= 0:
+			starEnd++
+			i, j = starEnd, star+1
+		default:
 			return false
 		}
-		return PathMatchHelper(path, pattern, sep, prefix, suffix)
 	}
-	if patternS == "*" {
-		if !lastPatternSeg && lastPathSeg {
-			return false
-		}
-		return PathMatchHelper(path, pattern, sep, prefix, suffix) ||
-			PathMatchHelper(path, "*"+sep+pattern, sep, prefix, suffix)
-	}
-	return false
+	return j == len(patternSegs)
 }
 
 func IsPathPatternHelper(pattern, sep string, prefix, suffix byte) bool {
-- 
2.43.0


From 42079488cfaa719925939aa333ca2b4dfa139a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:54 +0000
Subject: [PATCH 48/63] fix: a matcher definition can be used by several
 requests at the same time

---
 model/model.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/model/model.go b/model/model.go
index c24469d..8b55808 100644
--- a/model/model.go
+++ b/model/model.go
@@ -237,6 +237,8 @@ func (m *Model) refreshMatcher(key string) {
 }
 
 func (m *Model) BuildMatcherFromDef(mDef *defs.MatcherDef) (matcher.IMatcher, error) {
+	def := *mDef // several requests may build the same definition at the same time
+	mDef = &def
 	if err := mDef.Build(m.fm.GetFunctions()); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From de38cea76f5eef9f8f0f52ef887744461502975c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:37 +0000
Subject: [PATCH 49/63] fix: creating models concurrently must not race on the
 global functions

---
 model/fm/function.go |  5 +----
 model/fm/global.go   | 26 +++++++++++++++++++-------
 2 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/model/fm/function.go b/model/fm/function.go
index 7e2b7e4..9572c03 100644
--- a/model/fm/function.go
+++ b/model/fm/function.go
@@ -41,10 +41,7 @@ func DefaultFunctionMap() *FunctionMap {
 	fm.SetFunction("ipMatch", util.IPMatchFunc)
 	fm.SetFunction("globMatch", util.GlobMatchFunc)
 
-	global := getGlobalFunctionMap()
-	for name, fn := range global.fns {
-		fm.SetFunction(name, fn)
-	}
+	copyGlobalFunctions(fm)
 
 	return fm
 }
diff --git a/model/fm/global.go b/model/fm/global.go
index 5fc592f..9c93ced 100644
--- a/model/fm/global.go
+++ b/model/fm/global.go
@@ -1,16 +1,28 @@
 package fm
 
-import "github.com/abichinger/govaluate"
+import (
+	"sync"
 
-var globalFns *FunctionMap
+	"github.com/abichinger/govaluate"
+)
 
-func getGlobalFunctionMap() *FunctionMap {
-	if globalFns == nil {
-		globalFns = NewFunctionMap()
+var (
+	globalMu  sync.RWMutex
+	globalFns = NewFunctionMap()
+)
+
+// copyGlobalFunctions adds all globally registered functions to dst
+func copyGlobalFunctions(dst *FunctionMap) {
+	globalMu.RLock()
+	defer globalMu.RUnlock()
+	for name, fn := range globalFns.fns {
+		dst.SetFunction(name, fn)
 	}
-	return globalFns
 }
 
+// SetFunction registers a function for all models, which are created afterwards
 func SetFunction(name string, function govaluate.ExpressionFunction) {
-	getGlobalFunctionMap().SetFunction(name, function)
+	globalMu.Lock()
+	defer globalMu.Unlock()
+	globalFns.SetFunction(name, function)
 }
-- 
2.43.0


From b0af685be6e8cc8f0e0de0a41ae99871df7a4c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:42 +0000
Subject: [PATCH 50/63] fix: deleting a link must not register its unknown
 domain

---
 rbac/domain_manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rbac/domain_manager.go b/rbac/domain_manager.go
index 803485d..bdf198d 100644
--- a/rbac/domain_manager.go
+++ b/rbac/domain_manager.go
@@ -252,7 +252,7 @@ func (dm *DomainManager) DeleteLink(name1 string, name2 string, domains ...strin
 			matching = append(matching, rm)
 		})
 	}
-	roleManager := dm.getRoleManager(domain, true, subdomains...) //create role manager if it does not exist
+	roleManager := dm.getRoleManager(domain, false, subdomains...) //an unknown domain has no links to delete
 	removed, err = roleManager.DeleteLink(name1, name2, subdomains...)
 	if err != nil {
 		return false, err
-- 
2.43.0


From cf45ee228b6019b1d1556a4c556080a8cb79480c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:13 +0000
Subject: [PATCH 51/63] fix: values of a rule must not be mistaken for its key

---
 model/defs/defs.go       | 33 +++++++++++++++++++++++++--------
 model/matcher/matcher.go |  6 +++---
 2 files changed, 28 insertions(+), 11 deletions(-)

diff --git a/model/defs/defs.go b/model/defs/defs.go
index 1b5aee1..387c4b0 100644
--- a/model/defs/defs.go
+++ b/model/defs/defs.go
@@ -84,7 +84,7 @@ func (def *PolicyDef) Has(name string) bool {
 func (def *PolicyDef) GetEft(values []string) types.Effect {
 	eftArg := def.key + "_eft"
 	if def.Has(eftArg) {
-		eftStr, _ := def.GetParameter(values, eftArg)
+		eftStr, _ := def.GetValue(values, eftArg)
 		switch eftStr {
 		case "", "allow":
 			return eft.Allow
@@ -98,19 +98,23 @@ func (def *PolicyDef) GetEft(values []string) types.Effect {
 }
 
 func (def *PolicyDef) GetParameter(rule []string, name string) (string, error) {
+	//check if rule is passed with key
+	if len(rule) > len(def.args) && rule[0] == def.key {
+		rule = rule[1:]
+	}
+	return def.GetValue(rule, name)
+}
+
+// GetValue returns the value of the parameter name, the values must not start with the key
+func (def *PolicyDef) GetValue(values []string, name string) (string, error) {
 	index, ok := def.argIndex[name]
 	if !ok {
 		return "", errors.New("parameter '" + name + "' not found.")
 	}
-	//check if rule is passed with key
-	if len(rule) > len(def.args) && rule[0] == def.key {
-		index++
-	}
-	if index >= len(rule) {
+	if index >= len(values) {
 		return "", errors.New("rule has not enough values")
 	}
-	return rule[index], nil
-
+	return values[index], nil
 }
 
 func (def *PolicyDef) GetParameters(rule, names []string) ([]string, error) {
@@ -125,6 +129,19 @@ func (def *PolicyDef) GetParameters(rule, names []string) ([]string, error) {
 	return params, nil
 }
 
+// GetValues returns the values of several parameters, the values must not start with the key
+func (def *PolicyDef) GetValues(values, names []string) ([]string, error) {
+	params := make([]string, 0)
+	for _, name := range names {
+		value, err := def.GetValue(values, name)
+		if err != nil {
+			return nil, err
+		}
+		params = append(params, value)
+	}
+	return params, nil
+}
+
 func (def *PolicyDef) String() string {
 	return fmt.Sprintf("%s = %s", def.key, strings.Join(def.args, DefaultSep+" "))
 }
diff --git a/model/matcher/matcher.go b/model/matcher/matcher.go
index 6923b42..28f3495 100644
--- a/model/matcher/matcher.go
+++ b/model/matcher/matcher.go
@@ -94,7 +94,7 @@ func NewMatchParameters(pDef defs.PolicyDef, pvals []string, rDef defs.RequestDe
 func (params *MatchParameters) Get(name string) (interface{}, error) {
 	switch name[0] {
 	case 'p', 'g':
-		return params.pDef.GetParameter(params.pvals, name)
+		return params.pDef.GetValue(params.pvals, name)
 	case 'r':
 		return params.rDef.GetParameter(params.rvals, name)
 	default:
@@ -170,7 +170,7 @@ func (m *Matcher) addRuleHelper(rule []string, exprNode *defs.MatcherStage, node
 		if len(pArgs) == 0 || nextExpr.IsLeafNode() || nextExpr.UsesEval() {
 			key = util.Hash(rule)
 		} else {
-			r, _ := m.pDef.GetParameters(rule, pArgs)
+			r, _ := m.pDef.GetValues(rule, pArgs)
 			key = util.Hash(r)
 		}
 
@@ -197,7 +197,7 @@ func (m *Matcher) removeRuleHelper(rule []string, exprNode *defs.MatcherStage, n
 		if len(pArgs) == 0 || nextExpr.IsLeafNode() || nextExpr.UsesEval() {
 			key = util.Hash(rule)
 		} else {
-			r, _ := m.pDef.GetParameters(rule, pArgs)
+			r, _ := m.pDef.GetValues(rule, pArgs)
 			key = util.Hash(r)
 		}
 
-- 
2.43.0


From 4f18f36de481f252d57d17c85fce1f7ab5d946a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:21 +0000
Subject: [PATCH 52/63] fix: replacing a policy must not discard matchers set
 by SetMatcher

---
 model/handlers.go | 1 +
 model/model.go    | 7 ++++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/model/handlers.go b/model/handlers.go
index 81cd3de..914839f 100644
--- a/model/handlers.go
+++ b/model/handlers.go
@@ -32,6 +32,7 @@ func addMatcherDef(m *Model, key string, matcher string) error {
 func removeMatcherDef(m *Model, key string) error {
 	delete(m.defs[M_SEC], key)
 	delete(m.mMap, key)
+	delete(m.mSet, key)
 	return nil
 }
 
diff --git a/model/model.go b/model/model.go
index 8b55808..63e472a 100644
--- a/model/model.go
+++ b/model/model.go
@@ -75,6 +75,7 @@ type Model struct {
 
 	pMap  map[string]policy.IPolicy
 	mMap  map[string]matcher.IMatcher
+	mSet  map[string]bool // matchers which were set by SetMatcher
 	rpMap map[string]*rbac.RolePolicy
 	eMap  map[string]effector.IEffector
 
@@ -90,6 +91,7 @@ func NewModel() *Model {
 	m.defs = make(map[byte]map[string]defs.IDef)
 	m.pMap = make(map[string]policy.IPolicy)
 	m.mMap = make(map[string]matcher.IMatcher)
+	m.mSet = make(map[string]bool)
 	m.rpMap = make(map[string]*rbac.RolePolicy)
 	m.eMap = make(map[string]effector.IEffector)
 
@@ -215,13 +217,14 @@ func (m *Model) BuildMatcher(key string) error {
 		return err
 	}
 	m.mMap[key] = matcher
+	delete(m.mSet, key)
 	return nil
 }
 
 // refreshMatchers must be called if a policy was replaced or removed, matchers stick to the policy they were built for
 func (m *Model) refreshMatchers(pKey string) {
 	for key, matcher := range m.mMap {
-		if matcher.GetPolicyKey() == pKey {
+		if matcher.GetPolicyKey() == pKey && !m.mSet[key] {
 			m.refreshMatcher(key)
 		}
 	}
@@ -233,6 +236,7 @@ func (m *Model) refreshMatcher(key string) {
 	_, defined := m.defs[M_SEC][key]
 	if built && defined && m.BuildMatcher(key) != nil {
 		delete(m.mMap, key)
+		delete(m.mSet, key)
 	}
 }
 
@@ -377,6 +381,7 @@ func (m *Model) GetMatcher(key string) (matcher.IMatcher, bool) {
 
 func (m *Model) SetMatcher(key string, matcher matcher.IMatcher) {
 	m.mMap[key] = matcher
+	m.mSet[key] = true
 }
 
 func (m *Model) GetRequestDef(key string) (*defs.RequestDef, bool) {
-- 
2.43.0


From 9ea24de625e470d67181ed20e04ac1887beb43e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:37 +0000
Subject: [PATCH 53/63] fix: the ternary operator binds weaker than logical
 operators

---
 model/defs/matcher_def.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/model/defs/matcher_def.go b/model/defs/matcher_def.go
index fcf963a..67a70ea 100644
--- a/model/defs/matcher_def.go
+++ b/model/defs/matcher_def.go
@@ -154,13 +154,17 @@ func nextOperator(tokens []govaluate.ExpressionToken) (int, bool) {
 			if isBracket && clauseCounter == 0 && i != len(tokens)-1 {
 				isBracket = false
 			}
+		case govaluate.TERNARY:
+			if clauseCounter == 0 {
+				// logical operators bind stronger, the expression must not be split
+				return -1, false
+			}
 		case govaluate.LOGICALOP:
 			if clauseCounter != 0 {
 				break
 			}
-			index = i
-			if token.Value == "||" {
-				return index, false
+			if index == -1 || tokens[index].Value != "||" {
+				index = i
 			}
 		}
 	}
-- 
2.43.0


From 4ef9b5c022c3d45a020bf1c225ecc37b13f80707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:06 +0000
Subject: [PATCH 54/63] fix: long matchers must not be expanded without limit

---
 model/defs/matcher_def.go | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/model/defs/matcher_def.go b/model/defs/matcher_def.go
index 67a70ea..0b032e4 100644
--- a/model/defs/matcher_def.go
+++ b/model/defs/matcher_def.go
@@ -171,6 +171,33 @@ func nextOperator(tokens []govaluate.ExpressionToken) (int, bool) {
 	return index, isBracket
 }
 
+// maxAlternatives limits the number of conjunctions, to which a matcher is expanded
+const maxAlternatives = 1024
+
+// countAlternatives returns the number of conjunctions, to which tokens would be expanded.
+// The exact number is only returned, if it does not exceed maxAlternatives
+func countAlternatives(tokens []govaluate.ExpressionToken) int {
+	index, isBracket := nextOperator(tokens)
+	if isBracket {
+		return countAlternatives(tokens[1 : len(tokens)-1])
+	}
+	if index == -1 {
+		return 1
+	}
+	left := countAlternatives(tokens[:index])
+	if left > maxAlternatives {
+		return left
+	}
+	right := countAlternatives(tokens[index+1:])
+	if right > maxAlternatives {
+		return right
+	}
+	if tokens[index].Value == "||" {
+		return left + right
+	}
+	return left * right
+}
+
 func tokensToExpr(tokens []govaluate.ExpressionToken) string {
 	res := ""
 	for i, token := range tokens {
@@ -267,7 +294,13 @@ func (def *MatcherDef) Build(functions map[string]govaluate.ExpressionFunction)
 	if err != nil {
 		return err
 	}
-	return buildExprTree(def.root, parsedExpr.Tokens(), nil)
+	tokens := parsedExpr.Tokens()
+	if countAlternatives(tokens) > maxAlternatives {
+		// the expansion grows exponentially, evaluate the expression as a whole
+		def.root.children = append(def.root.children, newStageFromTokens(tokens))
+		return nil
+	}
+	return buildExprTree(def.root, tokens, nil)
 }
 
 func (def *MatcherDef) Root() *MatcherStage {
-- 
2.43.0


From a67347aa7bad0d336c3b86d68ce08b0212184389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:00 +0000
Subject: [PATCH 55/63] fix: roles and users must be listed once, even if
 several patterns match

---
 rbac/role.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rbac/role.go b/rbac/role.go
index 98baf1d..c952be3 100644
--- a/rbac/role.go
+++ b/rbac/role.go
@@ -215,7 +215,7 @@ func (r *Role) getRoles() []string {
 		names = append(names, key.(string))
 		return true
 	})
-	return names
+	return unique(names)
 }
 
 func (r *Role) getUsers() []string {
@@ -224,5 +224,5 @@ func (r *Role) getUsers() []string {
 		names = append(names, key.(string))
 		return true
 	})
-	return names
+	return unique(names)
 }
-- 
2.43.0


From bedafa450f0935f797860d4319eb0d102c0b99f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:09 +0000
Subject: [PATCH 56/63] fix: a matcher must not need gigabytes of memory
 because of its expansion

---
 model/defs/matcher_def.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model/defs/matcher_def.go b/model/defs/matcher_def.go
index 0b032e4..89e19ab 100644
--- a/model/defs/matcher_def.go
+++ b/model/defs/matcher_def.go
@@ -172,7 +172,7 @@ func nextOperator(tokens []govaluate.ExpressionToken) (int, bool) {
 }
 
 // maxAlternatives limits the number of conjunctions, to which a matcher is expanded
-const maxAlternatives = 1024
+const maxAlternatives = 128
 
 // countAlternatives returns the number of conjunctions, to which tokens would be expanded.
 // The exact number is only returned, if it does not exceed maxAlternatives
-- 
2.43.0


From 8cf01d9831818bb9f74aaec96fc05f44c4fbf8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:44 +0000
Subject: [PATCH 57/63] fix: tabs in definitions must be ignored like blanks

---
 model/defs/defs.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/model/defs/defs.go b/model/defs/defs.go
index 387c4b0..5d6647a 100644
--- a/model/defs/defs.go
+++ b/model/defs/defs.go
@@ -46,6 +46,11 @@ func EscapeArgs(expr string) string {
 	})
 }
 
+// removeSpace removes all white space
+func removeSpace(text string) string {
+	return strings.Join(strings.Fields(text), "")
+}
+
 type IDef interface {
 	String() string
 	GetKey() string
@@ -60,7 +65,7 @@ type PolicyDef struct {
 func NewPolicyDef(key, arguments string) *PolicyDef {
 	def := &PolicyDef{}
 	def.key = key
-	def.args = strings.Split(strings.ReplaceAll(arguments, " ", ""), DefaultSep)
+	def.args = strings.Split(removeSpace(arguments), DefaultSep)
 	def.argIndex = make(map[string]int, len(def.args))
 	for i, arg := range def.args {
 		def.argIndex[key+"_"+arg] = i
@@ -159,7 +164,7 @@ func (def *RequestDef) GetKey() string {
 func NewRequestDef(key, arguments string) *RequestDef {
 	def := &RequestDef{}
 	def.key = key
-	def.args = strings.Split(strings.ReplaceAll(arguments, " ", ""), DefaultSep)
+	def.args = strings.Split(removeSpace(arguments), DefaultSep)
 	def.argIndex = make(map[string]int, len(def.args))
 	for i, arg := range def.args {
 		def.argIndex[key+"_"+arg] = i
@@ -213,7 +218,7 @@ type EffectDef struct {
 func NewEffectDef(key, expr string) *EffectDef {
 	def := &EffectDef{}
 	def.key = key
-	def.expr = strings.ReplaceAll(expr, " ", "")
+	def.expr = removeSpace(expr)
 	return def
 }
 
-- 
2.43.0


From 6477b4c4afa453ee367a904dc49d4c7a0f371a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:31 +0000
Subject: [PATCH 58/63] fix: context options of an unsupported type must be
 rejected

---
 context.go    | 14 ++++++++++++++
 str/errors.go |  1 +
 2 files changed, 15 insertions(+)

diff --git a/context.go b/context.go
index f1076f3..2e66572 100644
--- a/context.go
+++ b/context.go
@@ -37,6 +37,8 @@ func SetMatcher(matcher interface{}) ContextOption {
 			ctx.matcher = m
 		case m.IMatcher:
 			ctx.matcher = mType
+		default:
+			return unsupportedOption(matcher)
 		}
 		return nil
 	}
@@ -56,6 +58,8 @@ func SetRequestDef(definition interface{}) ContextOption {
 			ctx.rDef = rDef
 		case *defs.RequestDef:
 			ctx.rDef = rType
+		default:
+			return unsupportedOption(definition)
 		}
 		return nil
 	}
@@ -79,11 +83,21 @@ func SetEffector(effector interface{}) ContextOption {
 			ctx.effector = eff
 		case e.IEffector:
 			ctx.effector = eType
+		default:
+			return unsupportedOption(effector)
 		}
 		return nil
 	}
 }
 
+// unsupportedOption returns an error, unless there is no value
+func unsupportedOption(value interface{}) error {
+	if value == nil {
+		return nil
+	}
+	return fmt.Errorf(str.ERR_INVALID_OPTION, value)
+}
+
 type Context struct {
 	model model.IModel
 
diff --git a/str/errors.go b/str/errors.go
index 30a9a3c..36c47d0 100644
--- a/str/errors.go
+++ b/str/errors.go
@@ -25,4 +25,5 @@ const (
 	ERR_INVALID_RULE         = "error: invalid rule"
 	ERR_INVALID_COLUMN       = "error: invalid column %d"
 	ERR_INVALID_MODEL        = "invalid model"
+	ERR_INVALID_OPTION       = "options of type %T are not supported"
 )
-- 
2.43.0


From 46db7a08419fa5c2053f9afc2a62a5730f034d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:03 +0000
Subject: [PATCH 59/63] fix: an adapter of an unsupported type must be rejected

---
 enforcer.go   | 3 +++
 str/errors.go | 1 +
 2 files changed, 4 insertions(+)

diff --git a/enforcer.go b/enforcer.go
index fd12565..41a25cd 100644
--- a/enforcer.go
+++ b/enforcer.go
@@ -111,6 +111,9 @@ func NewEnforcer(model interface{}, adapter interface{}, options ...Option) (*En
 	case storage.Adapter:
 		a3 = a2
 	default:
+		if adapter != nil {
+			return nil, errors.New(str.ERR_INVALID_ADAPTER)
+		}
 		a3 = &a.NoopAdapter{}
 		options = append([]Option{OptionStorage(false)}, options...)
 	}
diff --git a/str/errors.go b/str/errors.go
index 36c47d0..f4540de 100644
--- a/str/errors.go
+++ b/str/errors.go
@@ -25,5 +25,6 @@ const (
 	ERR_INVALID_RULE         = "error: invalid rule"
 	ERR_INVALID_COLUMN       = "error: invalid column %d"
 	ERR_INVALID_MODEL        = "invalid model"
+	ERR_INVALID_ADAPTER      = "invalid adapter"
 	ERR_INVALID_OPTION       = "options of type %T are not supported"
 )
-- 
2.43.0


From 2ecbca1dd6fbe6a362aeb52aadcbbcefc33bb0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:58 +0000
Subject: [PATCH 60/63] fix: malformed patterns must be rejected even if there
 is nothing to match yet

---
 rbac/domain_manager.go | 1 +
 rbac/role_manager.go   | 9 +++++++++
 2 files changed, 10 insertions(+)

diff --git a/rbac/domain_manager.go b/rbac/domain_manager.go
index bdf198d..c5ee86a 100644
--- a/rbac/domain_manager.go
+++ b/rbac/domain_manager.go
@@ -214,6 +214,7 @@ func (dm *DomainManager) AddLink(name1 string, name2 string, domains ...string)
 	if err != nil {
 		return false, err
 	}
+	checkPattern(dm.domainMatcher, domain)
 	matching := []IRoleManager{} // the domains which a pattern matches
 	if dm.domainMatcher != nil && dm.domainMatcher.IsPattern(domain) {
 		dm.rangeMatchingRMs(domain, func(rm IRoleManager) {
diff --git a/rbac/role_manager.go b/rbac/role_manager.go
index 45203fb..bbcbdbf 100644
--- a/rbac/role_manager.go
+++ b/rbac/role_manager.go
@@ -78,6 +78,13 @@ func recoverMatch(err *error) {
 	}
 }
 
+// checkPattern panics, if the name is a malformed pattern
+func checkPattern(matcher util.IMatcher, name string) {
+	if matcher != nil && matcher.IsPattern(name) {
+		matcher.Match(name, name)
+	}
+}
+
 func (rm *RoleManager) match(str string, pattern string) bool {
 	cacheKey := [2]string{str, pattern}
 	if v, has := rm.matchingFuncCache.Get(cacheKey); has {
@@ -210,6 +217,8 @@ func (rm *RoleManager) AddLink(name1 string, name2 string, domains ...string) (a
 	defer rm.mu.Unlock()
 	defer recoverMatch(&err)
 
+	checkPattern(rm.matcher, name1)
+	checkPattern(rm.matcher, name2)
 	user, role := rm.getRoles(name1, name2)
 
 	if len(domains) > 0 && domains[0] == REDUNDANT_ROLE {
-- 
2.43.0


From bf7b2d6517bc7b25ff2180c4d6f6edd5774050ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:26 +0000
Subject: [PATCH 61/63] fix: patterns that do not match themselves must be
 accepted

Reverts 2ecbca1, which rejected patterns such as CIDR ranges, because they are not an IP address themselves.
---
 rbac/domain_manager.go | 1 -
 rbac/role_manager.go   | 9 ---------
 2 files changed, 10 deletions(-)

diff --git a/rbac/domain_manager.go b/rbac/domain_manager.go
index c5ee86a..bdf198d 100644
--- a/rbac/domain_manager.go
+++ b/rbac/domain_manager.go
@@ -214,7 +214,6 @@ func (dm *DomainManager) AddLink(name1 string, name2 string, domains ...string)
 	if err != nil {
 		return false, err
 	}
-	checkPattern(dm.domainMatcher, domain)
 	matching := []IRoleManager{} // the domains which a pattern matches
 	if dm.domainMatcher != nil && dm.domainMatcher.IsPattern(domain) {
 		dm.rangeMatchingRMs(domain, func(rm IRoleManager) {
diff --git a/rbac/role_manager.go b/rbac/role_manager.go
index bbcbdbf..45203fb 100644
--- a/rbac/role_manager.go
+++ b/rbac/role_manager.go
@@ -78,13 +78,6 @@ func recoverMatch(err *error) {
 	}
 }
 
-// checkPattern panics, if the name is a malformed pattern
-func checkPattern(matcher util.IMatcher, name string) {
-	if matcher != nil && matcher.IsPattern(name) {
-		matcher.Match(name, name)
-	}
-}
-
 func (rm *RoleManager) match(str string, pattern string) bool {
 	cacheKey := [2]string{str, pattern}
 	if v, has := rm.matchingFuncCache.Get(cacheKey); has {
@@ -217,8 +210,6 @@ func (rm *RoleManager) AddLink(name1 string, name2 string, domains ...string) (a
 	defer rm.mu.Unlock()
 	defer recoverMatch(&err)
 
-	checkPattern(rm.matcher, name1)
-	checkPattern(rm.matcher, name2)
 	user, role := rm.getRoles(name1, name2)
 
 	if len(domains) > 0 && domains[0] == REDUNDANT_ROLE {
-- 
2.43.0


From 1474bcb94aac5cfe2a62d656951296d11cd3457f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:42 +0000
Subject: [PATCH 62/63] fix: removed domain patterns and domains must not be
 matched any more

---
 rbac/domain_manager.go | 44 +++++++++++++++++++++++++++++++++---------
 rbac/role_manager.go   | 10 ++++++++++
 2 files changed, 45 insertions(+), 9 deletions(-)

diff --git a/rbac/domain_manager.go b/rbac/domain_manager.go
index bdf198d..7ea8ba1 100644
--- a/rbac/domain_manager.go
+++ b/rbac/domain_manager.go
@@ -114,14 +114,14 @@ func (dm *DomainManager) load(name interface{}) (value IDefaultRoleManager, ok b
 	return nil, false
 }
 
-func (dm *DomainManager) rangeMatchingRMs(pattern string, fn func(rm IRoleManager)) {
+func (dm *DomainManager) rangeMatchingRMs(pattern string, fn func(domain string, rm IRoleManager)) {
 	dm.rmMap.Range(func(key, value interface{}) bool {
 		domain := key.(string)
 		if domain == defaultDomain || dm.domainMatcher.IsPattern(domain) {
 			return true // patterns match the names of domains
 		}
 		if pattern != domain && dm.match(domain, pattern) {
-			fn(value.(IRoleManager))
+			fn(domain, value.(IRoleManager))
 		}
 		return true
 	})
@@ -175,6 +175,29 @@ func (dm *DomainManager) getRoleManager(domain string, store bool, subdomains ..
 	return rm
 }
 
+// isUsed returns true, if there is a link in one of the domains
+func (dm *DomainManager) isUsed() bool {
+	used := false
+	dm.rmMap.Range(func(_, value interface{}) bool {
+		switch rm := value.(type) {
+		case *DomainManager:
+			used = rm.isUsed()
+		case *RoleManager:
+			used = rm.isUsed()
+		}
+		return !used
+	})
+	return used
+}
+
+// removeUnused removes a domain without links, neither does it have to match a pattern nor is it one
+func (dm *DomainManager) removeUnused(domain string) {
+	if rm, ok := dm.load(domain); ok && domain != defaultDomain && !rm.(*DomainManager).isUsed() {
+		dm.rmMap.Delete(domain)
+		dm.patternMap.Delete(domain)
+	}
+}
+
 // countInherited changes the number of patterns from which the link is inherited.
 // Returns true, if this is the first pattern or was the last one
 func (dm *DomainManager) countInherited(name1, name2 string, domains []string, delta int) bool {
@@ -214,12 +237,13 @@ func (dm *DomainManager) AddLink(name1 string, name2 string, domains ...string)
 	if err != nil {
 		return false, err
 	}
-	matching := []IRoleManager{} // the domains which a pattern matches
+	matching := map[string]IRoleManager{} // the domains which a pattern matches
 	if dm.domainMatcher != nil && dm.domainMatcher.IsPattern(domain) {
-		dm.rangeMatchingRMs(domain, func(rm IRoleManager) {
-			matching = append(matching, rm)
+		dm.rangeMatchingRMs(domain, func(name string, rm IRoleManager) {
+			matching[name] = rm
 		})
 	}
+	defer dm.removeUnused(domain)                                 // if the link can not be added
 	roleManager := dm.getRoleManager(domain, true, subdomains...) //create role manager if it does not exist
 	added, err = roleManager.AddLink(name1, name2, subdomains...)
 	if err != nil {
@@ -246,10 +270,10 @@ func (dm *DomainManager) DeleteLink(name1 string, name2 string, domains ...strin
 	if err != nil {
 		return false, err
 	}
-	matching := []IRoleManager{} // the domains which a pattern matches
+	matching := map[string]IRoleManager{} // the domains which a pattern matches
 	if dm.domainMatcher != nil && dm.domainMatcher.IsPattern(domain) {
-		dm.rangeMatchingRMs(domain, func(rm IRoleManager) {
-			matching = append(matching, rm)
+		dm.rangeMatchingRMs(domain, func(name string, rm IRoleManager) {
+			matching[name] = rm
 		})
 	}
 	roleManager := dm.getRoleManager(domain, false, subdomains...) //an unknown domain has no links to delete
@@ -259,10 +283,12 @@ func (dm *DomainManager) DeleteLink(name1 string, name2 string, domains ...strin
 	}
 
 	if removed {
-		for _, rm := range matching {
+		for name, rm := range matching {
 			_, _ = rm.DeleteLink(name1, name2, inherit(subdomains)...)
+			dm.removeUnused(name)
 		}
 	}
+	dm.removeUnused(domain)
 	if isInherited(domains) {
 		removed = dm.countInherited(name1, name2, domains, -1)
 	}
diff --git a/rbac/role_manager.go b/rbac/role_manager.go
index 45203fb..fc49934 100644
--- a/rbac/role_manager.go
+++ b/rbac/role_manager.go
@@ -184,6 +184,16 @@ func (rm *RoleManager) removeUnused(role *Role) {
 	}
 }
 
+// isUsed returns true, if there is a link
+func (rm *RoleManager) isUsed() bool {
+	used := false
+	rm.allRoles.Range(func(_, _ interface{}) bool {
+		used = true
+		return false
+	})
+	return used
+}
+
 // SetMatcher support use pattern in g
 func (rm *RoleManager) SetMatcher(matcher util.IMatcher) {
 	rm.matcher = matcher
-- 
2.43.0


From 50ce14da33b0c33ad65b7af2823bf79d219bceb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:14 +0000
Subject: [PATCH 63/63] fix: a policy file whose permissions are unknown must
 not be replaced

---
 storage/adapter/fileadapter.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/storage/adapter/fileadapter.go b/storage/adapter/fileadapter.go
index 84c2b3f..05e7f4c 100644
--- a/storage/adapter/fileadapter.go
+++ b/storage/adapter/fileadapter.go
@@ -147,6 +147,8 @@ func (a *FileAdapter) SavePolicy(model api.IRangeRules) error {
 	path := a.path
 	if target, err := filepath.EvalSymlinks(path); err == nil {
 		path = target
+	} else if !os.IsNotExist(err) {
+		return err
 	}
 
 	name := fmt.Sprintf("%s.%d.tmp", path, time.Now().UnixNano())
@@ -169,6 +171,8 @@ func (a *FileAdapter) SavePolicy(model api.IRangeRules) error {
 		if err := tmp.Chmod(info.Mode().Perm()); err != nil {
 			return err
 		}
+	} else if !os.IsNotExist(err) {
+		return err
 	}
 	if err := tmp.Close(); err != nil {
 		return err
-- 
2.43.0

