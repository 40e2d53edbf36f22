From 74880d011d89d7fd16c624538d2dacca1cf15ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:56 +0000
Subject: [PATCH 01/26] fix: give every element a key of its own

Keys were the addresses of temporaries, which are reused after a garbage
collection, so that unrelated elements could be mistaken for one another.
---
 support.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/support.go b/support.go
index 1e177de..ddf22ed 100644
--- a/support.go
+++ b/support.go
@@ -1,8 +1,9 @@
 package cypher
 
 import (
-	"fmt"
 	"github.com/rs/xid"
+	"strconv"
+	"sync/atomic"
 )
 
 var SYMBOLIC_GENERATOR = xid.New()
@@ -23,7 +24,11 @@ func PatternElementsToVisitables(patterns []PatternElement) []Visitable {
 	return visitables
 }
 
+var lastKey uint64
+
+// getAddress returns a key for a new element. It does not use the address of the element: addresses of
+// elements which are not in use anymore are handed out again, and every element needs a key of its own.
 func getAddress(a interface{}) string {
-	return fmt.Sprintf("%p", a)
+	return strconv.FormatUint(atomic.AddUint64(&lastKey, 1), 10)
 }
 
-- 
2.43.0


From c8082ccf786c1e29a338af31ffc0292ae5b79d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:02 +0000
Subject: [PATCH 02/26] fix: relationship chains never share or change their
 relationships

Refining a chain replaced the last relationship in the array it shared with
the chain it was derived from, and errors of added relationships were lost.
---
 relationship_chain.go | 86 +++++++++++++++++++++++++------------------
 1 file changed, 51 insertions(+), 35 deletions(-)

diff --git a/relationship_chain.go b/relationship_chain.go
index 6cb37c9..23a7839 100644
--- a/relationship_chain.go
+++ b/relationship_chain.go
@@ -10,9 +10,10 @@ type RelationshipChain struct {
 }
 
 func RelationshipChainCreate(relationship Relationship) RelationshipChain {
-	relations := make([]Relationship, 1)
-	relations[0] = relationship
-	return RelationshipChain{relationships: relations, notNil: true}
+	if relationship.GetError() != nil {
+		return RelationshipChain{err: relationship.GetError()}
+	}
+	return relationshipChainOf([]Relationship{relationship})
 }
 
 func RelationshipChainError(msg string) RelationshipChain {
@@ -31,22 +32,44 @@ func (r RelationshipChain) getKey() string {
 	return r.key
 }
 
+// relationshipChainOf creates a chain which owns the given relationships.
+func relationshipChainOf(relationships []Relationship) RelationshipChain {
+	chain := RelationshipChain{relationships: relationships, notNil: true}
+	chain.key = getAddress(&chain)
+	return chain
+}
+
+func (r RelationshipChain) last() Relationship {
+	if len(r.relationships) == 0 {
+		return RelationshipError(errors.New("the relationship chain is empty"))
+	}
+	return r.relationships[len(r.relationships)-1]
+}
+
+// replaceLast returns a copy of the chain in which the last relationship is replaced.
+func (r RelationshipChain) replaceLast(relationship Relationship) RelationshipChain {
+	if r.GetError() != nil {
+		return r
+	}
+	if relationship.GetError() != nil {
+		return RelationshipChain{err: relationship.GetError()}
+	}
+	relationships := make([]Relationship, len(r.relationships))
+	copy(relationships, r.relationships)
+	relationships[len(relationships)-1] = relationship
+	return relationshipChainOf(relationships)
+}
+
 func (r RelationshipChain) RelationshipTo(node Node, types ...string) RelationshipChain {
-	newRelation := r.relationships[len(r.relationships)-1].right.RelationshipTo(node, types...)
-	r.relationships = append(r.relationships, newRelation)
-	return r
+	return r.Add(r.last().right.RelationshipTo(node, types...))
 }
 
 func (r RelationshipChain) RelationshipFrom(node Node, types ...string) RelationshipChain {
-	newRelation := r.relationships[len(r.relationships)-1].right.RelationshipFrom(node, types...)
-	r.relationships = append(r.relationships, newRelation)
-	return r
+	return r.Add(r.last().right.RelationshipFrom(node, types...))
 }
 
 func (r RelationshipChain) RelationshipBetween(node Node, types ...string) RelationshipChain {
-	newRelation := r.relationships[len(r.relationships)-1].right.RelationshipBetween(node, types...)
-	r.relationships = append(r.relationships, newRelation)
-	return r
+	return r.Add(r.last().right.RelationshipBetween(node, types...))
 }
 
 func (r RelationshipChain) Named(name string) Relationship {
@@ -54,45 +77,31 @@ func (r RelationshipChain) Named(name string) Relationship {
 }
 
 func (r RelationshipChain) NamedC(name string) RelationshipChain {
-	namedRelation := r.relationships[len(r.relationships)-1].Named(name)
-	r.relationships[len(r.relationships)-1] = namedRelation
-	return r
+	return r.replaceLast(r.last().Named(name))
 }
 
 func (r RelationshipChain) Unbounded() RelationshipChain {
-	namedRelation := r.relationships[len(r.relationships)-1].Unbounded()
-	r.relationships[len(r.relationships)-1] = namedRelation
-	return r
+	return r.replaceLast(r.last().Unbounded())
 }
 
 func (r RelationshipChain) Min(minimum int) RelationshipChain {
-	namedRelation := r.relationships[len(r.relationships)-1].Min(minimum)
-	r.relationships[len(r.relationships)-1] = namedRelation
-	return r
+	return r.replaceLast(r.last().Min(minimum))
 }
 
 func (r RelationshipChain) Length(minimum int, maximum int) RelationshipChain {
-	namedRelation := r.relationships[len(r.relationships)-1].Length(minimum, maximum)
-	r.relationships[len(r.relationships)-1] = namedRelation
-	return r
+	return r.replaceLast(r.last().Length(minimum, maximum))
 }
 
 func (r RelationshipChain) Max(maximum int) RelationshipChain {
-	namedRelation := r.relationships[len(r.relationships)-1].Max(maximum)
-	r.relationships[len(r.relationships)-1] = namedRelation
-	return r
+	return r.replaceLast(r.last().Max(maximum))
 }
 
 func (r RelationshipChain) Properties(newProperties MapExpression) RelationshipChain {
-	namedRelation := r.relationships[len(r.relationships)-1].WithProperties(newProperties)
-	r.relationships[len(r.relationships)-1] = namedRelation
-	return r
+	return r.replaceLast(r.last().WithProperties(newProperties))
 }
 
 func (r RelationshipChain) PropertiesRaw(keysAndValues ...interface{}) RelationshipChain {
-	namedRelation := r.relationships[len(r.relationships)-1].WithRawProperties(keysAndValues...)
-	r.relationships[len(r.relationships)-1] = namedRelation
-	return r
+	return r.replaceLast(r.last().WithRawProperties(keysAndValues...))
 }
 
 func (r RelationshipChain) accept(visitor *CypherRenderer) {
@@ -114,8 +123,15 @@ func (r RelationshipChain) leave(renderer *CypherRenderer) {
 }
 
 func (r RelationshipChain) Add(relationship Relationship) RelationshipChain {
-	r.relationships = append(r.relationships, relationship)
-	return r
+	if r.GetError() != nil {
+		return r
+	}
+	if relationship.GetError() != nil {
+		return RelationshipChain{err: relationship.GetError()}
+	}
+	relationships := make([]Relationship, len(r.relationships), len(r.relationships)+1)
+	copy(relationships, r.relationships)
+	return relationshipChainOf(append(relationships, relationship))
 }
 
 func (r RelationshipChain) IsPatternElement() bool {
-- 
2.43.0


From 39ccdc6bacd70b58edded4ff15e2cb7c7f3ae9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:02 +0000
Subject: [PATCH 03/26] fix: nodes, distinct expressions and sort items always
 have a key and are present

Elements without a key, and nodes that were named after sharing a key, were
taken for one another by the renderer; elements without notNil were skipped.
---
 cypher.go               |  9 +--------
 distinct_expression.go  |  5 +----
 function_invocation.go  |  4 +---
 node.go                 | 13 +++++++++----
 relationship_details.go |  4 +++-
 sort_item.go            | 17 +++++++++++++----
 6 files changed, 28 insertions(+), 24 deletions(-)

diff --git a/cypher.go b/cypher.go
index 9d89e1e..959ad46 100644
--- a/cypher.go
+++ b/cypher.go
@@ -14,14 +14,7 @@ import (
  * @return A new node representation
  */
 func NewNodeWithLabels(primaryLabel string, additionalLabel ...string) Node {
-	var labels = make([]NodeLabel, 0)
-	labels = append(labels, NodeLabel{value: primaryLabel})
-	for _, label := range additionalLabel {
-		labels = append(labels, NodeLabel{value: label})
-	}
-	return Node{
-		labels: labels,
-	}
+	return NodeCreate3(primaryLabel, additionalLabel...)
 }
 
 /**
diff --git a/distinct_expression.go b/distinct_expression.go
index a61612d..c6eb513 100644
--- a/distinct_expression.go
+++ b/distinct_expression.go
@@ -35,10 +35,7 @@ func (d DistinctExpression) isNotNil() bool {
 
 func (d DistinctExpression) accept(visitor *CypherRenderer) {
 	visitor.enter(d)
-	distinct := Distinct{
-		IsDistinct: false,
-	}
-	distinct.accept(visitor)
+	DISTINCT_INSTANCE.accept(visitor)
 	d.delegate.accept(visitor)
 	visitor.leave(d)
 }
diff --git a/function_invocation.go b/function_invocation.go
index 4467e61..8ca004c 100644
--- a/function_invocation.go
+++ b/function_invocation.go
@@ -119,9 +119,7 @@ func FunctionInvocationCreateDistinct(definition FunctionDefinition, expressions
 		return FunctionInvocationError(errors.Errorf("expression for %s is required", definition.getImplementationName()))
 	}
 	arguments := make([]Visitable, 0)
-	arguments = append(arguments, DistinctExpression{
-		delegate: expressions[0],
-	})
+	arguments = append(arguments, DistinctExpressionCreate(expressions[0]))
 	for _, expression := range expressions[1:] {
 		arguments = append(arguments, expression)
 	}
diff --git a/node.go b/node.go
index c6b77af..7e64c07 100644
--- a/node.go
+++ b/node.go
@@ -17,6 +17,7 @@ func NodeCreate() Node {
 	node := Node{
 		notNil: true,
 	}
+	node.injectKey()
 	return node
 }
 
@@ -30,7 +31,7 @@ func NodeCreate1(primaryLabel string, properties Properties, additionalLabels ..
 		}
 	}
 	labels := make([]NodeLabel, 0)
-	labels = append(labels, NodeLabel{value: primaryLabel})
+	labels = append(labels, NodeLabelCreate(primaryLabel))
 	for _, label := range additionalLabels {
 		labels = append(labels, NodeLabelCreate(label))
 	}
@@ -67,12 +68,13 @@ func NodeCreate3(primaryLabel string, additionalLabel ...string) Node {
 		}
 	}
 	var labels = make([]NodeLabel, 0)
-	labels = append(labels, NodeLabel{value: primaryLabel})
+	labels = append(labels, NodeLabelCreate(primaryLabel))
 	for _, label := range additionalLabel {
 		labels = append(labels, NodeLabelCreate(label))
 	}
 	node := Node{
 		labels: labels,
+		notNil: true,
 	}
 	node.injectKey()
 	return node
@@ -188,11 +190,13 @@ func (node Node) Property(name string) Property {
 }
 
 func (node Node) NamedByString(name string) Node {
-	node.symbolicName = SymbolicNameCreate(name)
-	return node
+	return node.Named(SymbolicNameCreate(name))
 }
 
 func (node Node) Named(name SymbolicName) Node {
+	if node.GetError() != nil {
+		return node
+	}
 	if name.GetError() != nil {
 		return NodeError(name.GetError())
 	}
@@ -200,6 +204,7 @@ func (node Node) Named(name SymbolicName) Node {
 		return NodeError(errors.New("node named: symbolic name is required"))
 	}
 	node.symbolicName = name
+	node.injectKey()
 	return node
 }
 
diff --git a/relationship_details.go b/relationship_details.go
index 622e5f7..ae278cf 100644
--- a/relationship_details.go
+++ b/relationship_details.go
@@ -57,7 +57,7 @@ func RelationshipDetailsCreate(direction Direction, symbolicName SymbolicName,
 	if properties.GetError() != nil {
 		return RelationshipDetailsError(properties.GetError())
 	}
-	return RelationshipDetails{
+	r := RelationshipDetails{
 		direction:    direction,
 		symbolicName: symbolicName,
 		types:        types,
@@ -65,6 +65,8 @@ func RelationshipDetailsCreate(direction Direction, symbolicName SymbolicName,
 		properties:   properties,
 		notNil:       true,
 	}
+	r.key = getAddress(&r)
+	return r
 }
 
 func RelationshipDetailsError(err error) RelationshipDetails {
diff --git a/sort_item.go b/sort_item.go
index 5ef4f7f..f3108de 100644
--- a/sort_item.go
+++ b/sort_item.go
@@ -14,7 +14,7 @@ func SortItemCreate(expression Expression, direction SortDirectionRaw) SortItem
 	}
 	sortItem := SortItem{
 		expression: expression,
-		direction:  SortDirection{value: direction},
+		direction:  sortDirectionCreate(direction),
 		notNil:     true,
 	}
 	sortItem.key = getAddress(&sortItem)
@@ -38,14 +38,17 @@ func (item SortItem) getKey() string {
 }
 
 func (item SortItem) Ascending() SortItem {
+	if item.GetError() != nil {
+		return item
+	}
 	return SortItemCreate(item.expression, ASC)
 }
 
 func (item SortItem) Descending() SortItem {
-	return SortItem{
-		expression: item.expression,
-		direction:  SortDirection{value: DESC},
+	if item.GetError() != nil {
+		return item
 	}
+	return SortItemCreate(item.expression, DESC)
 }
 
 func (item SortItem) accept(visitor *CypherRenderer) {
@@ -88,6 +91,12 @@ const (
 	DESC                       = "DESC"
 )
 
+func sortDirectionCreate(value SortDirectionRaw) SortDirection {
+	s := SortDirection{value: value, notNil: true}
+	s.key = getAddress(&s)
+	return s
+}
+
 func CreateAscendingSortItem(expression Expression) SortItem {
 	return SortItemCreate(expression, ASC)
 }
-- 
2.43.0


From e096c3562c5cb57266bf9fc89b4f4bf88ba1fe82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:39 +0000
Subject: [PATCH 04/26] fix: elements carrying an error can be refined without
 a panic

The error constructors left the embedded container empty, so that every fluent
operation of an erroneous element panicked or lost the error; three of them
called themselves without end.
---
 alias_expression.go               | 6 +++---
 boolean_function_condition.go     | 7 +++----
 comparison.go                     | 6 +++---
 compound_condition.go             | 6 +++---
 constant_condition.go             | 4 +++-
 distinct_expression.go            | 4 +++-
 excluded_pattern.go               | 6 +++---
 existential_subquery.go           | 6 +++---
 expression_list.go                | 6 +++---
 function_invocation.go            | 6 +++---
 has_label_condition.go            | 6 +++---
 key_value_map_entry.go            | 6 +++---
 list_comprehension.go             | 6 +++---
 list_expression.go                | 6 +++---
 list_literal.go                   | 6 +++---
 list_operator.go                  | 4 +++-
 list_predicate.go                 | 4 +++-
 map_expression.go                 | 6 +++---
 map_projection.go                 | 4 +++-
 multi_part_query.go               | 2 +-
 nested_expression.go              | 6 +++---
 operation.go                      | 4 +++-
 parameter.go                      | 6 +++---
 pattern_comprehension.go          | 4 +++-
 raw_string_literal.go             | 4 +++-
 relationship_pattern_condition.go | 6 +++---
 string_literal.go                 | 4 +++-
 symbolic_name.go                  | 6 +++---
 28 files changed, 82 insertions(+), 65 deletions(-)

diff --git a/alias_expression.go b/alias_expression.go
index 3030c05..14cfbda 100644
--- a/alias_expression.go
+++ b/alias_expression.go
@@ -34,9 +34,9 @@ func AliasedExpressionCreate(delegate Expression, alias string) AliasedExpressio
 }
 
 func AliasedExpressionError(err error) AliasedExpression {
-	return AliasedExpression{
-		err: err,
-	}
+	e := AliasedExpression{err: err}
+	e.ExpressionContainer = ExpressionWrap(e)
+	return e
 }
 
 func (aliased AliasedExpression) GetError() error {
diff --git a/boolean_function_condition.go b/boolean_function_condition.go
index c6fe40f..0bbcaed 100644
--- a/boolean_function_condition.go
+++ b/boolean_function_condition.go
@@ -19,10 +19,9 @@ func BooleanFunctionConditionCreate(delegate FunctionInvocation) BooleanFunction
 }
 
 func BooleanFunctionConditionError(err error) BooleanFunctionCondition {
-	function := BooleanFunctionCondition{
-		err: err,
-	}
-	return function
+	e := BooleanFunctionCondition{err: err}
+	e.ConditionContainer = ConditionWrap(e)
+	return e
 }
 
 func (b BooleanFunctionCondition) GetError() error {
diff --git a/comparison.go b/comparison.go
index de49515..4345c83 100644
--- a/comparison.go
+++ b/comparison.go
@@ -81,9 +81,9 @@ func ComparisonCreate1(operator Operator, expression Expression) Comparison {
 }
 
 func ComparisonError(err error) Comparison {
-	return Comparison{
-		err: err,
-	}
+	e := Comparison{err: err}
+	e.ConditionContainer = ConditionWrap(e)
+	return e
 }
 
 func (c Comparison) GetError() error {
diff --git a/compound_condition.go b/compound_condition.go
index 6d24572..b1d76d7 100644
--- a/compound_condition.go
+++ b/compound_condition.go
@@ -63,9 +63,9 @@ func CompoundConditionCreate1(operator Operator) CompoundCondition {
 }
 
 func CompoundConditionError(err error) CompoundCondition {
-	return CompoundCondition{
-		err: err,
-	}
+	e := CompoundCondition{err: err}
+	e.ConditionContainer = ConditionWrap(e)
+	return e
 }
 
 func (c CompoundCondition) GetError() error {
diff --git a/constant_condition.go b/constant_condition.go
index 8b07d2e..93cb3b0 100644
--- a/constant_condition.go
+++ b/constant_condition.go
@@ -25,7 +25,9 @@ func ConstantConditionCreate(value BooleanLiteral) ConstantCondition {
 }
 
 func ConstantConditionError(err error) ConstantCondition {
-	return ConstantCondition{err: err}
+	e := ConstantCondition{err: err}
+	e.ConditionContainer = ConditionWrap(e)
+	return e
 }
 
 func (c ConstantCondition) GetError() error {
diff --git a/distinct_expression.go b/distinct_expression.go
index c6eb513..af1a3d3 100644
--- a/distinct_expression.go
+++ b/distinct_expression.go
@@ -22,7 +22,9 @@ func DistinctExpressionCreate(delegate Expression) DistinctExpression {
 }
 
 func DistinctExpressionError(err error) DistinctExpression {
-	return DistinctExpression{err: err}
+	e := DistinctExpression{err: err}
+	e.ExpressionContainer = ExpressionWrap(e)
+	return e
 }
 
 func (d DistinctExpression) GetError() error {
diff --git a/excluded_pattern.go b/excluded_pattern.go
index 6798cf1..0a69614 100644
--- a/excluded_pattern.go
+++ b/excluded_pattern.go
@@ -22,9 +22,9 @@ func ExcludedPatternCreate(patternElement PatternElement) ExcludedPattern {
 }
 
 func ExcludedPatternError(err error) ExcludedPattern {
-	return ExcludedPattern{
-		err: err,
-	}
+	e := ExcludedPattern{err: err}
+	e.ConditionContainer = ConditionWrap(e)
+	return e
 }
 
 func (e ExcludedPattern) GetError() error {
diff --git a/existential_subquery.go b/existential_subquery.go
index 8f741af..02a2103 100644
--- a/existential_subquery.go
+++ b/existential_subquery.go
@@ -22,9 +22,9 @@ func ExistentialSubqueryCreate(fragment MatchPhrase) ExistentialSubquery {
 }
 
 func ExistentialSubqueryError(err error) ExistentialSubquery {
-	return ExistentialSubquery{
-		err: err,
-	}
+	e := ExistentialSubquery{err: err}
+	e.ConditionContainer = ConditionWrap(e)
+	return e
 }
 
 func ExistentialSubqueryExists(fragment MatchPhrase) ExistentialSubquery {
diff --git a/expression_list.go b/expression_list.go
index c9a7596..7b07611 100644
--- a/expression_list.go
+++ b/expression_list.go
@@ -24,9 +24,9 @@ func ExpressionListCreate(expressions []Expression) ExpressionList {
 }
 
 func ExpressionListError(err error) ExpressionList {
-	return ExpressionList{
-		err: err,
-	}
+	e := ExpressionList{err: err}
+	e.ExpressionContainer = ExpressionWrap(e)
+	return e
 }
 
 func (e ExpressionList) GetExpressionType() ExpressionType {
diff --git a/function_invocation.go b/function_invocation.go
index 8ca004c..2509924 100644
--- a/function_invocation.go
+++ b/function_invocation.go
@@ -134,9 +134,9 @@ func FunctionInvocationCreateDistinct(definition FunctionDefinition, expressions
 }
 
 func FunctionInvocationError(err error) FunctionInvocation {
-	return FunctionInvocation{
-		err: err,
-	}
+	e := FunctionInvocation{err: err}
+	e.ExpressionContainer = ExpressionWrap(e)
+	return e
 }
 
 func (f FunctionInvocation) GetError() error {
diff --git a/has_label_condition.go b/has_label_condition.go
index ed13d8a..65e08ea 100644
--- a/has_label_condition.go
+++ b/has_label_condition.go
@@ -56,9 +56,9 @@ func HasLabelConditionCreate1(nodeName SymbolicName, labels []NodeLabel) HasLabe
 }
 
 func HasLabelConditionError(err error) HasLabelCondition {
-	return HasLabelCondition{
-		err: err,
-	}
+	e := HasLabelCondition{err: err}
+	e.ConditionContainer = ConditionWrap(e)
+	return e
 }
 
 func (h HasLabelCondition) GetError() error {
diff --git a/key_value_map_entry.go b/key_value_map_entry.go
index b4c659a..663cf28 100644
--- a/key_value_map_entry.go
+++ b/key_value_map_entry.go
@@ -23,9 +23,9 @@ func KeyValueMapEntryCreate(key string, value Expression) KeyValueMapEntry {
 }
 
 func KeyValueMapEntryError(err error) KeyValueMapEntry {
-	return KeyValueMapEntry{
-		err: err,
-	}
+	e := KeyValueMapEntry{err: err}
+	e.ExpressionContainer = ExpressionWrap(e)
+	return e
 }
 
 func (k KeyValueMapEntry) GetError() error {
diff --git a/list_comprehension.go b/list_comprehension.go
index 4feb036..96b0e67 100644
--- a/list_comprehension.go
+++ b/list_comprehension.go
@@ -30,9 +30,9 @@ func ListComprehensionCreate(variable SymbolicName, listExpression Expression, w
 }
 
 func ListComprehensionError(err error) ListComprehension {
-	return ListComprehension{
-		err: err,
-	}
+	e := ListComprehension{err: err}
+	e.ExpressionContainer = ExpressionWrap(e)
+	return e
 }
 
 func ListComprehensionWith(variable SymbolicName) OngoingDefinitionWithVariable {
diff --git a/list_expression.go b/list_expression.go
index 9cd5d54..d325bf4 100644
--- a/list_expression.go
+++ b/list_expression.go
@@ -28,9 +28,9 @@ func ListExpressionCreate1(expressions ...Expression) ListExpression {
 }
 
 func ListExpressionError(err error) ListExpression {
-	return ListExpression{
-		err: err,
-	}
+	e := ListExpression{err: err}
+	e.ExpressionContainer = ExpressionWrap(e)
+	return e
 }
 
 func ListOrSingleExpression(expressions ...Expression) Expression {
diff --git a/list_literal.go b/list_literal.go
index 7ada298..e9e69df 100644
--- a/list_literal.go
+++ b/list_literal.go
@@ -26,9 +26,9 @@ func ListLiteralCreate(contents []Literal) ListLiteral {
 }
 
 func ListLiteralError(err error) ListLiteral {
-	return ListLiteral{
-		err: err,
-	}
+	e := ListLiteral{err: err}
+	e.ExpressionContainer = ExpressionWrap(e)
+	return e
 }
 
 func (l ListLiteral) GetError() error {
diff --git a/list_operator.go b/list_operator.go
index a11ffc1..b7008e4 100644
--- a/list_operator.go
+++ b/list_operator.go
@@ -23,7 +23,9 @@ func listOperatorCreate(targetExpression Expression, optionalStart Expression, d
 }
 
 func ListOperatorError(err error) ListOperator {
-	return ListOperator{err: err}
+	e := ListOperator{err: err}
+	e.ExpressionContainer = ExpressionWrap(e)
+	return e
 }
 
 /**
diff --git a/list_predicate.go b/list_predicate.go
index a006a80..df038ec 100644
--- a/list_predicate.go
+++ b/list_predicate.go
@@ -32,7 +32,9 @@ func ListPredicateCreate(variable SymbolicName, listExpression Expression, where
 }
 
 func ListPredicateError(err error) ListPredicate {
-	return ListPredicate{err: err}
+	e := ListPredicate{err: err}
+	e.ExpressionContainer = ExpressionWrap(e)
+	return e
 }
 
 func (l ListPredicate) GetError() error {
diff --git a/map_expression.go b/map_expression.go
index 2ea7be0..db65e36 100644
--- a/map_expression.go
+++ b/map_expression.go
@@ -28,9 +28,9 @@ func MapExpressionCreate(newContents []Expression) MapExpression {
 }
 
 func MapExpressionError(err error) MapExpression {
-	return MapExpression{
-		err: err,
-	}
+	e := MapExpression{err: err}
+	e.ExpressionContainer = ExpressionWrap(e)
+	return e
 }
 
 func (m MapExpression) GetExpressionType() ExpressionType {
diff --git a/map_projection.go b/map_projection.go
index 090d0f2..fd7a8a2 100644
--- a/map_projection.go
+++ b/map_projection.go
@@ -50,7 +50,9 @@ func MapProjectionCreateWithMapExpression(name SymbolicName, mapExpression MapEx
 }
 
 func MapProjectionError(err error) MapProjection {
-	return MapProjection{err: err}
+	e := MapProjection{err: err}
+	e.ExpressionContainer = ExpressionWrap(e)
+	return e
 }
 
 func (m MapProjection) GetError() error {
diff --git a/multi_part_query.go b/multi_part_query.go
index c04645d..9772a66 100644
--- a/multi_part_query.go
+++ b/multi_part_query.go
@@ -26,7 +26,7 @@ func MultiPartQueryCreate(parts []MultiPartElement, remainder SinglePartQuery) M
 }
 
 func MultiPartQueryError(err error) MultiPartQuery {
-	return MultiPartQueryError(err)
+	return MultiPartQuery{err: err}
 }
 
 func (m MultiPartQuery) GetError() error {
diff --git a/nested_expression.go b/nested_expression.go
index bb39916..afc9b2e 100644
--- a/nested_expression.go
+++ b/nested_expression.go
@@ -22,9 +22,9 @@ func NestedExpressionCreate(delegate Expression) NestedExpression {
 }
 
 func NestedExpressionError(err error) NestedExpression {
-	return NestedExpression{
-		err: err,
-	}
+	e := NestedExpression{err: err}
+	e.ExpressionContainer = ExpressionWrap(e)
+	return e
 }
 
 func (n NestedExpression) GetError() error {
diff --git a/operation.go b/operation.go
index 9e3f3db..0db27b8 100644
--- a/operation.go
+++ b/operation.go
@@ -110,7 +110,9 @@ func OperationCreate2(op1 Node, operator Operator, nodeLabels ...string) Operati
 }
 
 func OperationError(err error) Operation {
-	return Operation{err: err}
+	e := Operation{err: err}
+	e.ExpressionContainer = ExpressionWrap(e)
+	return e
 }
 
 func (o Operation) GetError() error {
diff --git a/parameter.go b/parameter.go
index 1ab0a93..3117752 100644
--- a/parameter.go
+++ b/parameter.go
@@ -30,9 +30,9 @@ func ParameterCreate(name string) Parameter {
 }
 
 func ParameterError(err error) Parameter {
-	return Parameter{
-		err: err,
-	}
+	e := Parameter{err: err}
+	e.ExpressionContainer = ExpressionWrap(e)
+	return e
 }
 
 func (p Parameter) GetError() error {
diff --git a/pattern_comprehension.go b/pattern_comprehension.go
index ce0f866..c6443dd 100644
--- a/pattern_comprehension.go
+++ b/pattern_comprehension.go
@@ -25,7 +25,9 @@ func PatternComprehensionCreate(pattern PatternElement, where Where, listDefinit
 }
 
 func PatternComprehensionError(err error) PatternComprehension {
-	return PatternComprehension{err: err}
+	e := PatternComprehension{err: err}
+	e.ExpressionContainer = ExpressionWrap(e)
+	return e
 }
 
 func PatternComprehensionBasedOn(pattern RelationshipPattern) PatternComprehensionOngoingDefinitionWithPattern {
diff --git a/raw_string_literal.go b/raw_string_literal.go
index 682fad6..2c403b3 100644
--- a/raw_string_literal.go
+++ b/raw_string_literal.go
@@ -19,7 +19,9 @@ func RawStringLiteralCreate(content string) RawStringLiteral {
 }
 
 func RawStringLiteralError(err error) RawStringLiteral {
-	return RawStringLiteralError(err)
+	e := RawStringLiteral{err: err}
+	e.ExpressionContainer = ExpressionWrap(e)
+	return e
 }
 
 func (s RawStringLiteral) GetError() error {
diff --git a/relationship_pattern_condition.go b/relationship_pattern_condition.go
index 478ec00..1a3a988 100644
--- a/relationship_pattern_condition.go
+++ b/relationship_pattern_condition.go
@@ -22,9 +22,9 @@ func RelationshipPatternConditionCreate(pathPattern RelationshipPattern) Relatio
 }
 
 func RelationshipPatternConditionError(err error) RelationshipPatternCondition {
-	return RelationshipPatternCondition{
-		err: err,
-	}
+	e := RelationshipPatternCondition{err: err}
+	e.ConditionContainer = ConditionWrap(e)
+	return e
 }
 
 func (r RelationshipPatternCondition) getConditionType() string {
diff --git a/string_literal.go b/string_literal.go
index 1322ef6..0cf896a 100644
--- a/string_literal.go
+++ b/string_literal.go
@@ -32,7 +32,9 @@ func StringLiteralCreate(content string) StringLiteral {
 }
 
 func StringLiteralError(err error) StringLiteral {
-	return StringLiteralError(err)
+	e := StringLiteral{err: err}
+	e.ExpressionContainer = ExpressionWrap(e)
+	return e
 }
 
 func (s StringLiteral) GetError() error {
diff --git a/symbolic_name.go b/symbolic_name.go
index e9e68f2..e79302c 100644
--- a/symbolic_name.go
+++ b/symbolic_name.go
@@ -36,9 +36,9 @@ func SymbolicNameUnResolve() SymbolicName {
 }
 
 func SymbolicNameError(err error) SymbolicName {
-	return SymbolicName{
-		err: err,
-	}
+	e := SymbolicName{err: err}
+	e.ExpressionContainer = ExpressionWrap(e)
+	return e
 }
 
 func (s SymbolicName) GetError() error {
-- 
2.43.0


From e151b445370a6ea6186590b2e6e387ddd6742bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:11 +0000
Subject: [PATCH 05/26] fix: elements report the error of every operand they
 are built from

---
 boolean_function_condition.go |  3 +++
 compound_condition.go         | 12 ++++++++++++
 expression_list.go            |  4 ++--
 expressions.go                |  6 ++++++
 has_label_condition.go        |  5 +++++
 list_comprehension.go         | 24 ++++++++++++++++++++++++
 list_expression.go            |  2 +-
 list_operator.go              |  3 +++
 list_predicate.go             |  9 +++++++--
 map_expression.go             |  5 ++++-
 merge_action.go               |  3 +++
 name_path.go                  |  9 +++++++++
 node.go                       | 18 +++++++++++++++++-
 pattern_comprehension.go      | 28 ++++++++++++++++++++++++++--
 predicates.go                 | 17 ++++++++++++++++-
 relationship.go               | 31 ++++++++++++++++++++++++-------
 relationship_details.go       | 18 +++++++++++++-----
 relationship_length.go        |  3 +++
 return.go                     |  3 +++
 return_body.go                |  8 ++++----
 visitable_list.go             |  7 ++++++-
 yield_items.go                |  2 +-
 22 files changed, 192 insertions(+), 28 deletions(-)

diff --git a/boolean_function_condition.go b/boolean_function_condition.go
index 0bbcaed..4891a2f 100644
--- a/boolean_function_condition.go
+++ b/boolean_function_condition.go
@@ -9,6 +9,9 @@ type BooleanFunctionCondition struct {
 }
 
 func BooleanFunctionConditionCreate(delegate FunctionInvocation) BooleanFunctionCondition {
+	if delegate.GetError() != nil {
+		return BooleanFunctionConditionError(delegate.GetError())
+	}
 	function := BooleanFunctionCondition{
 		delegate: delegate,
 		notNil:   true,
diff --git a/compound_condition.go b/compound_condition.go
index b1d76d7..3ccfc08 100644
--- a/compound_condition.go
+++ b/compound_condition.go
@@ -52,6 +52,9 @@ func CompoundConditionCreate(left Condition, operator Operator, right Condition)
 }
 
 func CompoundConditionCreate1(operator Operator) CompoundCondition {
+	if operator.GetError() != nil {
+		return CompoundConditionError(operator.GetError())
+	}
 	condition := CompoundCondition{
 		operator:   operator,
 		conditions: make([]Condition, 0),
@@ -146,6 +149,15 @@ var EMPTY_CONDITION = CompoundCondition{
 var VALID_OPERATORS = []Operator{AND, OR, XOR}
 
 func (c *CompoundCondition) add(chainingOperator Operator, condition Condition) CompoundCondition {
+	if c.GetError() != nil {
+		return *c
+	}
+	if condition != nil && condition.GetError() != nil {
+		return CompoundConditionError(condition.GetError())
+	}
+	if condition == nil || !condition.isNotNil() {
+		return CompoundConditionError(errors.New("a condition to combine with is required"))
+	}
 	if c.GetExpressionType() == EMPTY_CONDITION_EXPRESSION {
 		newCompound := CompoundConditionCreate1(chainingOperator)
 		return newCompound.add(chainingOperator, condition)
diff --git a/expression_list.go b/expression_list.go
index 7b07611..9351c7a 100644
--- a/expression_list.go
+++ b/expression_list.go
@@ -10,7 +10,7 @@ type ExpressionList struct {
 
 func ExpressionListCreate(expressions []Expression) ExpressionList {
 	for _, expression := range expressions {
-		if expression.GetError() != nil {
+		if expression != nil && expression.GetError() != nil {
 			return ExpressionListError(expression.GetError())
 		}
 	}
@@ -72,5 +72,5 @@ func NewExpressionList(expression ...Expression) ExpressionList {
 	for i := range expression {
 		expressions[i] = expression[i]
 	}
-	return ExpressionList{expressions: expressions}
+	return ExpressionListCreate(expressions)
 }
diff --git a/expressions.go b/expressions.go
index d5fd352..b2ebc61 100644
--- a/expressions.go
+++ b/expressions.go
@@ -1,6 +1,9 @@
 package cypher
 
 func NameOrExpression(expression Expression) Expression {
+	if expression != nil && expression.GetError() != nil {
+		return expression
+	}
 	named, isNamed := (expression).(Named)
 	if isNamed && named.GetSymbolicName().isNotNil() {
 		return named.GetSymbolicName()
@@ -12,6 +15,9 @@ func CreateSymbolicNameByNamed(nameds ...Named) []Expression {
 	expressions := make([]Expression, 0)
 	for _, named := range nameds {
 		if named != nil {
+			if named.GetError() != nil {
+				return []Expression{SymbolicNameError(named.GetError())}
+			}
 			expressions = append(expressions, named.GetSymbolicName())
 		}
 	}
diff --git a/has_label_condition.go b/has_label_condition.go
index 65e08ea..4f992c8 100644
--- a/has_label_condition.go
+++ b/has_label_condition.go
@@ -45,6 +45,11 @@ func HasLabelConditionCreate1(nodeName SymbolicName, labels []NodeLabel) HasLabe
 	if labels == nil || len(labels) == 0 {
 		return HasLabelConditionError(errors.New("labels is required"))
 	}
+	for _, label := range labels {
+		if label.GetError() != nil {
+			return HasLabelConditionError(label.GetError())
+		}
+	}
 	hasLabelCondition := HasLabelCondition{
 		nodeName:   nodeName,
 		nodeLabels: labels,
diff --git a/list_comprehension.go b/list_comprehension.go
index 96b0e67..e58aa05 100644
--- a/list_comprehension.go
+++ b/list_comprehension.go
@@ -17,6 +17,21 @@ func ListComprehensionCreate(variable SymbolicName, listExpression Expression, w
 	if variable.GetError() != nil {
 		return ListComprehensionError(variable.GetError())
 	}
+	if listExpression != nil && listExpression.GetError() != nil {
+		return ListComprehensionError(listExpression.GetError())
+	}
+	if where.GetError() != nil {
+		return ListComprehensionError(where.GetError())
+	}
+	if listDefinition != nil && listDefinition.GetError() != nil {
+		return ListComprehensionError(listDefinition.GetError())
+	}
+	if !variable.isNotNil() {
+		return ListComprehensionError(errors.New("list comprehension: a variable is required"))
+	}
+	if listExpression == nil || !listExpression.isNotNil() {
+		return ListComprehensionError(errors.New("list comprehension: a list is required"))
+	}
 	list := ListComprehension{
 		variable:       variable,
 		listExpression: listExpression,
@@ -36,6 +51,9 @@ func ListComprehensionError(err error) ListComprehension {
 }
 
 func ListComprehensionWith(variable SymbolicName) OngoingDefinitionWithVariable {
+	if variable.GetError() != nil {
+		return ListComprehensionBuilder{err: variable.GetError()}
+	}
 	if !variable.isNotNil() {
 		return ListComprehensionBuilder{err: errors.New("list comprehension: a variable is required")}
 	}
@@ -117,11 +135,17 @@ func (l ListComprehensionBuilder) ReturningByNamed(variables ...Named) ListCompr
 }
 
 func (l ListComprehensionBuilder) Returning(expressions ...Expression) ListComprehension {
+	if l.err != nil {
+		return ListComprehensionError(l.err)
+	}
 	return ListComprehensionCreate(l.variable, l.listExpression, l.where,
 		ListOrSingleExpression(expressions...))
 }
 
 func (l ListComprehensionBuilder) ReturningDefault() ListComprehension {
+	if l.err != nil {
+		return ListComprehensionError(l.err)
+	}
 	return ListComprehensionCreate(l.variable, l.listExpression, l.where, nil)
 }
 
diff --git a/list_expression.go b/list_expression.go
index d325bf4..7732e79 100644
--- a/list_expression.go
+++ b/list_expression.go
@@ -35,7 +35,7 @@ func ListExpressionError(err error) ListExpression {
 
 func ListOrSingleExpression(expressions ...Expression) Expression {
 	if expressions == nil || len(expressions) == 0 {
-		ListExpressionError(errors.New("expressions are required"))
+		return ListExpressionError(errors.New("expressions are required"))
 	}
 	if len(expressions) == 1 {
 		return expressions[0]
diff --git a/list_operator.go b/list_operator.go
index b7008e4..1b2bcfd 100644
--- a/list_operator.go
+++ b/list_operator.go
@@ -228,6 +228,9 @@ func ListOperatorDetailsCreate(optionalStart Expression, dots Dot, optionalEnd E
 	if optionalStart != nil && optionalStart.GetError() != nil {
 		return ListOperatorDetails{err: optionalStart.GetError()}
 	}
+	if dots.GetError() != nil {
+		return ListOperatorDetails{err: dots.GetError()}
+	}
 	if optionalEnd != nil && optionalEnd.GetError() != nil {
 		return ListOperatorDetails{err: optionalEnd.GetError()}
 	}
diff --git a/list_predicate.go b/list_predicate.go
index df038ec..f80a578 100644
--- a/list_predicate.go
+++ b/list_predicate.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type ListPredicate struct {
 	ExpressionContainer
 	variable       SymbolicName
@@ -15,10 +17,13 @@ func ListPredicateCreate(variable SymbolicName, listExpression Expression, where
 		return ListPredicateError(variable.GetError())
 	}
 	if listExpression != nil && listExpression.GetError() != nil {
-		return ListPredicateError(variable.GetError())
+		return ListPredicateError(listExpression.GetError())
 	}
 	if where.GetError() != nil {
-		return ListPredicateError(variable.GetError())
+		return ListPredicateError(where.GetError())
+	}
+	if listExpression == nil || !listExpression.isNotNil() {
+		return ListPredicateError(errors.New("list predicate: a list is required"))
 	}
 	listPredicate := ListPredicate{
 		variable:       variable,
diff --git a/map_expression.go b/map_expression.go
index db65e36..8ff9d43 100644
--- a/map_expression.go
+++ b/map_expression.go
@@ -51,7 +51,7 @@ func (m MapExpression) getKey() string {
 
 func NewMapExpression(objects ...interface{}) MapExpression {
 	if len(objects)%2 != 0 {
-		return MapExpressionError(errors.Errorf("new map expression number of object input should be product of 2 but it is %", len(objects)))
+		return MapExpressionError(errors.Errorf("new map expression number of object input should be product of 2 but it is %d", len(objects)))
 	}
 	var newContents = make([]Expression, len(objects)/2)
 	var knownKeys = make(map[string]int)
@@ -90,6 +90,9 @@ func (m MapExpression) leave(renderer *CypherRenderer) {
 }
 
 func (m MapExpression) AddEntries(entries []Expression) MapExpression {
+	if m.GetError() != nil {
+		return m
+	}
 	newContent := make([]Expression, len(m.expressions)+len(entries))
 	for i := range m.expressions {
 		newContent[i] = m.expressions[i]
diff --git a/merge_action.go b/merge_action.go
index 0ad34d9..a24a0ab 100644
--- a/merge_action.go
+++ b/merge_action.go
@@ -9,6 +9,9 @@ type MergeAction struct {
 }
 
 func MergeActionCreate(mergeType MERGE_TYPE, set Set) MergeAction {
+	if set.GetError() != nil {
+		return MergeAction{err: set.GetError()}
+	}
 	m := MergeAction{
 		mergeType: mergeType,
 		set:       set,
diff --git a/name_path.go b/name_path.go
index ed0148d..0f5af0e 100644
--- a/name_path.go
+++ b/name_path.go
@@ -48,6 +48,9 @@ func NamedPathBuilderWithNameByString(name string) OngoingDefinitionWithName {
 }
 
 func NamedPathBuilderWithName(name SymbolicName) OngoingDefinitionWithName {
+	if name.GetError() != nil {
+		return NamedPathBuilder{err: name.GetError()}
+	}
 	if !name.isNotNil() {
 		return NamedPathBuilder{
 			err: errors.New("a name is required"),
@@ -66,6 +69,9 @@ func NamedPathShortestPathWithNameByString(name string, algorithm FunctionDefini
 }
 
 func NamedPathShortestPathWithName(name SymbolicName, algorithm FunctionDefinition) OngoingShortestPathDefinitionWithName {
+	if name.GetError() != nil {
+		return ShortestPathBuilder{err: name.GetError()}
+	}
 	if !name.isNotNil() {
 		return ShortestPathBuilder{
 			err: errors.New("a name is required"),
@@ -139,6 +145,9 @@ func NamedPathBuilderCreate(name SymbolicName) NamedPathBuilder {
 }
 
 func (n NamedPathBuilder) DefinedBy(pattern RelationshipPattern) NamedPath {
+	if n.err != nil {
+		return NamedPathError(n.err)
+	}
 	return NamedPathCreate(n.name, pattern)
 }
 
diff --git a/node.go b/node.go
index 7e64c07..be3b1b2 100644
--- a/node.go
+++ b/node.go
@@ -30,6 +30,9 @@ func NodeCreate1(primaryLabel string, properties Properties, additionalLabels ..
 			return NodeError(errors.New("empty label is not allowed"))
 		}
 	}
+	if properties.GetError() != nil {
+		return NodeError(properties.GetError())
+	}
 	labels := make([]NodeLabel, 0)
 	labels = append(labels, NodeLabelCreate(primaryLabel))
 	for _, label := range additionalLabels {
@@ -81,7 +84,17 @@ func NodeCreate3(primaryLabel string, additionalLabel ...string) Node {
 }
 
 func NodeCreate4(newProperties MapExpression, node Node) Node {
-	newNode := Node{symbolicName: node.symbolicName, labels: node.labels, notNil: true, properties: PropertiesCreate(newProperties)}
+	if node.GetError() != nil {
+		return node
+	}
+	if newProperties.GetError() != nil {
+		return NodeError(newProperties.GetError())
+	}
+	properties := Properties{}
+	if newProperties.isNotNil() {
+		properties = PropertiesCreate(newProperties)
+	}
+	newNode := Node{symbolicName: node.symbolicName, labels: node.labels, notNil: true, properties: properties}
 	newNode.injectKey()
 	return newNode
 }
@@ -101,6 +114,9 @@ func NodeError(err error) Node {
 }
 
 func (node Node) GetRequiredSymbolicName() SymbolicName {
+	if node.GetError() != nil {
+		return SymbolicNameError(node.GetError())
+	}
 	if node.symbolicName.isNotNil() {
 		return node.symbolicName
 	}
diff --git a/pattern_comprehension.go b/pattern_comprehension.go
index c6443dd..733306e 100644
--- a/pattern_comprehension.go
+++ b/pattern_comprehension.go
@@ -13,6 +13,21 @@ type PatternComprehension struct {
 }
 
 func PatternComprehensionCreate(pattern PatternElement, where Where, listDefinition Expression) PatternComprehension {
+	if pattern != nil && pattern.GetError() != nil {
+		return PatternComprehensionError(pattern.GetError())
+	}
+	if where.GetError() != nil {
+		return PatternComprehensionError(where.GetError())
+	}
+	if listDefinition != nil && listDefinition.GetError() != nil {
+		return PatternComprehensionError(listDefinition.GetError())
+	}
+	if pattern == nil || !pattern.isNotNil() {
+		return PatternComprehensionError(errors.New("pattern comprehension: a pattern is required"))
+	}
+	if listDefinition == nil || !listDefinition.isNotNil() {
+		return PatternComprehensionError(errors.New("pattern comprehension: a list definition is required"))
+	}
 	patternComprehension := PatternComprehension{
 		pattern:        pattern,
 		where:          where,
@@ -31,13 +46,19 @@ func PatternComprehensionError(err error) PatternComprehension {
 }
 
 func PatternComprehensionBasedOn(pattern RelationshipPattern) PatternComprehensionOngoingDefinitionWithPattern {
-	if !pattern.isNotNil() {
+	if pattern != nil && pattern.GetError() != nil {
+		return PatternComprehensionBuilder{err: pattern.GetError()}
+	}
+	if pattern == nil || !pattern.isNotNil() {
 		return PatternComprehensionBuilder{err: errors.New("pattern comprehension builder: a pattern is required")}
 	}
 	return PatternComprehensionBuilderCreate(pattern)
 }
 
 func PatternComprehensionBasedOnNamePath(pattern NamedPath) PatternComprehensionOngoingDefinitionWithPattern {
+	if pattern.GetError() != nil {
+		return PatternComprehensionBuilder{err: pattern.GetError()}
+	}
 	if !pattern.isNotNil() {
 		return PatternComprehensionBuilder{err: errors.New("pattern comprehension builder: a pattern is required")}
 	}
@@ -124,6 +145,9 @@ func (p PatternComprehensionBuilder) ReturningByNamed(variables ...Named) Patter
 }
 
 func (p PatternComprehensionBuilder) Returning(listDefinitions ...Expression) PatternComprehension {
+	if p.err != nil {
+		return PatternComprehensionError(p.err)
+	}
 	where := Where{}
 	condition := p.conditionBuilder.buildCondition()
 	if condition != nil && condition.isNotNil() {
@@ -138,7 +162,7 @@ func (p PatternComprehensionBuilder) Where(condition Condition) PatternComprehen
 }
 
 func (p PatternComprehensionBuilder) WherePattern(pathPattern RelationshipPattern) PatternComprehensionOngoingDefinitionWithPatternAndWhere {
-	if !pathPattern.isNotNil() {
+	if pathPattern == nil || (pathPattern.GetError() == nil && !pathPattern.isNotNil()) {
 		return PatternComprehensionBuilder{err: errors.New("pattern comprehension builder: path pattern must not be nil")}
 	}
 	return p.Where(RelationshipPatternConditionCreate(pathPattern))
diff --git a/predicates.go b/predicates.go
index f930db8..cc725cc 100644
--- a/predicates.go
+++ b/predicates.go
@@ -60,6 +60,9 @@ type PredicateBuilder struct {
 }
 
 func PredicateBuilderCreate(predicate Predicate, name SymbolicName) PredicateBuilder {
+	if name.GetError() != nil {
+		return PredicateBuilder{err: name.GetError()}
+	}
 	if !name.isNotNil() {
 		return PredicateBuilder{err: xerrors.New("name for predicate is require")}
 	}
@@ -70,6 +73,12 @@ func PredicateBuilderCreate(predicate Predicate, name SymbolicName) PredicateBui
 }
 
 func (p PredicateBuilder) In(list Expression) OngoingListBasedPredicateFunctionWithList {
+	if p.err != nil {
+		return p
+	}
+	if list != nil && list.GetError() != nil {
+		return PredicateBuilder{err: list.GetError()}
+	}
 	if list == nil || !list.isNotNil() {
 		return PredicateBuilder{err: xerrors.New("predicate builder: the list expression is required")}
 	}
@@ -78,6 +87,12 @@ func (p PredicateBuilder) In(list Expression) OngoingListBasedPredicateFunctionW
 }
 
 func (p PredicateBuilder) Where(condition Condition) Condition {
+	if p.err != nil {
+		return BooleanFunctionConditionError(p.err)
+	}
+	if condition != nil && condition.GetError() != nil {
+		return BooleanFunctionConditionError(condition.GetError())
+	}
 	if condition == nil || !condition.isNotNil() {
 		return BooleanFunctionConditionError(xerrors.New("predicate builder where: the condition is required"))
 	}
@@ -85,5 +100,5 @@ func (p PredicateBuilder) Where(condition Condition) Condition {
 }
 
 func (p PredicateBuilder) GetError() error {
-	panic("implement me")
+	return p.err
 }
diff --git a/relationship.go b/relationship.go
index 327a29c..ebcb455 100644
--- a/relationship.go
+++ b/relationship.go
@@ -28,6 +28,14 @@ func RelationshipCreate(left Node, direction Direction, right Node, types ...str
 	return RelationshipCreate3(left, details, right)
 }
 
+// derive creates a relationship with other details between the nodes of this one.
+func (r Relationship) derive(details RelationshipDetails) Relationship {
+	if r.GetError() != nil {
+		return r
+	}
+	return RelationshipCreate3(r.left, details, r.right)
+}
+
 func RelationshipCreate3(left Node, details RelationshipDetails, right Node) Relationship {
 	if left.GetError() != nil {
 		return RelationshipError(left.GetError())
@@ -63,6 +71,9 @@ func (r Relationship) isNotNil() bool {
 }
 
 func (r Relationship) GetRequiredSymbolicName() SymbolicName {
+	if r.GetError() != nil {
+		return SymbolicNameError(r.GetError())
+	}
 	if r.details.symbolicName.isNotNil() {
 		return r.details.symbolicName
 	}
@@ -78,23 +89,23 @@ func (r Relationship) getKey() string {
 }
 
 func (r Relationship) NamedByString(newSymbolicName string) Relationship {
-	return RelationshipCreate3(r.left, r.details.namedByString(newSymbolicName), r.right)
+	return r.derive(r.details.namedByString(newSymbolicName))
 }
 
 func (r Relationship) Unbounded() Relationship {
-	return RelationshipCreate3(r.left, r.details.unbounded(), r.right)
+	return r.derive(r.details.unbounded())
 }
 
 func (r Relationship) Min(minimum int) Relationship {
-	return RelationshipCreate3(r.left, r.details.min(minimum), r.right)
+	return r.derive(r.details.min(minimum))
 }
 
 func (r Relationship) Length(minimum int, maximum int) Relationship {
-	return RelationshipCreate3(r.left, r.details.min(minimum).max(maximum), r.right)
+	return r.derive(r.details.min(minimum).max(maximum))
 }
 
 func (r Relationship) Max(maximum int) Relationship {
-	return RelationshipCreate3(r.left, r.details.max(maximum), r.right)
+	return r.derive(r.details.max(maximum))
 }
 
 func (r Relationship) accept(visitor *CypherRenderer) {
@@ -128,7 +139,7 @@ func (r Relationship) RelationshipBetween(node Node, types ...string) Relationsh
 }
 
 func (r Relationship) Named(name string) Relationship {
-	return RelationshipCreate3(r.left, r.details.namedByString(name), r.right)
+	return r.derive(r.details.namedByString(name))
 }
 
 func (r Relationship) NamedC(name string) RelationshipChain {
@@ -151,6 +162,12 @@ func (r Relationship) WithRawProperties(keysAndValues ...interface{}) Relationsh
 }
 
 func (r Relationship) WithProperties(newProperties MapExpression) Relationship {
+	if r.GetError() != nil {
+		return r
+	}
+	if newProperties.GetError() != nil {
+		return RelationshipError(newProperties.GetError())
+	}
 	if !newProperties.isNotNil() && !r.details.properties.isNotNil() {
 		return r
 	}
@@ -158,7 +175,7 @@ func (r Relationship) WithProperties(newProperties MapExpression) Relationship {
 	if newProperties.isNotNil() {
 		property = PropertiesCreate(newProperties)
 	}
-	return RelationshipCreate3(r.left, r.details.with(property), r.right)
+	return r.derive(r.details.with(property))
 }
 
 func (r Relationship) Project(entries ...interface{}) MapProjection {
diff --git a/relationship_details.go b/relationship_details.go
index ae278cf..1ef9cab 100644
--- a/relationship_details.go
+++ b/relationship_details.go
@@ -89,6 +89,14 @@ func (r RelationshipDetails) getKey() string {
 	return r.key
 }
 
+// derive returns the changed details, keeping an error of the original ones.
+func (r RelationshipDetails) derive(changed RelationshipDetails) RelationshipDetails {
+	if r.GetError() != nil {
+		return r
+	}
+	return changed
+}
+
 func (r RelationshipDetails) namedByString(newNamed string) RelationshipDetails {
 	if newNamed == "" {
 		return RelationshipDetailsError(errors.New("symbolic name is required"))
@@ -100,15 +108,15 @@ func (r RelationshipDetails) named(newSymbolicName SymbolicName) RelationshipDet
 	if !newSymbolicName.isNotNil() {
 		return RelationshipDetailsError(errors.New("symbolic name is required"))
 	}
-	return RelationshipDetailsCreate(r.direction, newSymbolicName, r.types, r.length, r.properties)
+	return r.derive(RelationshipDetailsCreate(r.direction, newSymbolicName, r.types, r.length, r.properties))
 }
 
 func (r RelationshipDetails) with(newProperties Properties) RelationshipDetails {
-	return RelationshipDetailsCreate(r.direction, r.symbolicName, r.types, r.length, newProperties)
+	return r.derive(RelationshipDetailsCreate(r.direction, r.symbolicName, r.types, r.length, newProperties))
 }
 
 func (r RelationshipDetails) unbounded() RelationshipDetails {
-	return RelationshipDetailsCreate(r.direction, r.symbolicName, r.types, RelationshipLengthCreate(true), r.properties)
+	return r.derive(RelationshipDetailsCreate(r.direction, r.symbolicName, r.types, RelationshipLengthCreate(true), r.properties))
 }
 
 func (r RelationshipDetails) min(minimum int) RelationshipDetails {
@@ -116,7 +124,7 @@ func (r RelationshipDetails) min(minimum int) RelationshipDetails {
 	if r.length.isNotNil() {
 		newLength = RelationshipLengthCreate1(&minimum, r.length.maximum)
 	}
-	return RelationshipDetailsCreate(r.direction, r.symbolicName, r.types, newLength, r.properties)
+	return r.derive(RelationshipDetailsCreate(r.direction, r.symbolicName, r.types, newLength, r.properties))
 }
 
 func (r RelationshipDetails) max(maximum int) RelationshipDetails {
@@ -124,7 +132,7 @@ func (r RelationshipDetails) max(maximum int) RelationshipDetails {
 	if r.length.isNotNil() {
 		newLength = RelationshipLengthCreate1(r.length.minimum, &maximum)
 	}
-	return RelationshipDetailsCreate(r.direction, r.symbolicName, r.types, newLength, r.properties)
+	return r.derive(RelationshipDetailsCreate(r.direction, r.symbolicName, r.types, newLength, r.properties))
 }
 
 func (r RelationshipDetails) hasContent() bool {
diff --git a/relationship_length.go b/relationship_length.go
index 25e1455..c8b1deb 100644
--- a/relationship_length.go
+++ b/relationship_length.go
@@ -72,5 +72,8 @@ func (relationshipLength RelationshipLength) isNotNil() bool {
 }
 
 func (relationshipLength RelationshipLength) Unbounded() RelationshipLength {
+	if relationshipLength.GetError() != nil {
+		return relationshipLength
+	}
 	return RelationshipLengthCreate(true)
 }
diff --git a/return.go b/return.go
index 9b66f0d..c298bee 100644
--- a/return.go
+++ b/return.go
@@ -9,6 +9,9 @@ type Return struct {
 }
 
 func ReturnCreate(distinctInstance Distinct, body ReturnBody) Return {
+	if distinctInstance.GetError() != nil {
+		return ReturnError(distinctInstance.GetError())
+	}
 	if body.GetError() != nil {
 		return ReturnError(body.GetError())
 	}
diff --git a/return_body.go b/return_body.go
index 0cd30ff..e8d89fa 100644
--- a/return_body.go
+++ b/return_body.go
@@ -12,16 +12,16 @@ type ReturnBody struct {
 
 func ReturnBodyCreate(returnItems ExpressionList, order Order, skip Skip, limit Limit) ReturnBody {
 	if returnItems.GetError() != nil {
-		ReturnBodyError(returnItems.GetError())
+		return ReturnBodyError(returnItems.GetError())
 	}
 	if order.GetError() != nil {
-		ReturnBodyError(order.GetError())
+		return ReturnBodyError(order.GetError())
 	}
 	if skip.GetError() != nil {
-		ReturnBodyError(skip.GetError())
+		return ReturnBodyError(skip.GetError())
 	}
 	if limit.GetError() != nil {
-		ReturnBodyError(limit.GetError())
+		return ReturnBodyError(limit.GetError())
 	}
 	r := ReturnBody{
 		returnItems: returnItems,
diff --git a/visitable_list.go b/visitable_list.go
index aa56204..eb0ee93 100644
--- a/visitable_list.go
+++ b/visitable_list.go
@@ -8,7 +8,12 @@ type FunctionArgumentList struct {
 }
 
 func FunctionArgumentListCreate(visitables ...Visitable) FunctionArgumentList {
-	argumentList := FunctionArgumentList{expressions: visitables}
+	for _, visitable := range visitables {
+		if visitable != nil && visitable.GetError() != nil {
+			return FunctionArgumentList{err: visitable.GetError()}
+		}
+	}
+	argumentList := FunctionArgumentList{expressions: visitables, notNil: true}
 	argumentList.key = getAddress(&argumentList)
 	return argumentList
 }
diff --git a/yield_items.go b/yield_items.go
index 026a586..7164ae7 100644
--- a/yield_items.go
+++ b/yield_items.go
@@ -28,7 +28,7 @@ func YieldItemsCreate(expressions []Expression) YieldItems {
 
 func YieldItemsError(err error) YieldItems {
 	return YieldItems{
-		err: nil,
+		err: err,
 	}
 }
 
-- 
2.43.0


From b4857a2a176a8196b50db14854b3260520dcf5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:20 +0000
Subject: [PATCH 06/26] fix: operations, comparisons and cases accept exactly
 their valid operands

---
 case.go       | 61 +++++++++++++++++++++++++++++++++++++++++----------
 comparison.go |  4 ++--
 operation.go  | 15 +++++++++----
 3 files changed, 62 insertions(+), 18 deletions(-)

diff --git a/case.go b/case.go
index 0d82f1a..00b9077 100644
--- a/case.go
+++ b/case.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type Case struct {
 	ConditionContainer
 	caseElse       CaseElse
@@ -16,13 +18,19 @@ var ENDING_SIMPLE_CASE = "EndingSimpleCase"
 var GENERIC_CASE = "GenericCase"
 var ENDING_GENERIC_CASE = "EndingGenericCase"
 
+func caseError(err error) Case {
+	c := Case{err: err}
+	c.ConditionContainer = ConditionWrap(c)
+	return c
+}
+
 func SimpleCaseCreate(caseExpression Expression, caseWhenThens []CaseWhenThen) Case {
 	if caseExpression != nil && caseExpression.GetError() != nil {
-		return Case{err: caseExpression.GetError()}
+		return caseError(caseExpression.GetError())
 	}
 	for _, caseWhenThen := range caseWhenThens {
 		if caseWhenThen.GetError() != nil {
-			return Case{err: caseWhenThen.GetError()}
+			return caseError(caseWhenThen.GetError())
 		}
 	}
 	simpleCase := Case{
@@ -38,7 +46,7 @@ func SimpleCaseCreate(caseExpression Expression, caseWhenThens []CaseWhenThen) C
 
 func SimpleCaseCreate1(caseExpression Expression) Case {
 	if caseExpression != nil && caseExpression.GetError() != nil {
-		return Case{err: caseExpression.GetError()}
+		return caseError(caseExpression.GetError())
 	}
 	simpleCase := Case{
 		caseExpression: caseExpression,
@@ -53,11 +61,11 @@ func SimpleCaseCreate1(caseExpression Expression) Case {
 
 func EndingSimpleCaseCreate(caseExpression Expression, caseWhenThens []CaseWhenThen) Case {
 	if caseExpression != nil && caseExpression.GetError() != nil {
-		return Case{err: caseExpression.GetError()}
+		return caseError(caseExpression.GetError())
 	}
 	for _, caseWhenThen := range caseWhenThens {
 		if caseWhenThen.GetError() != nil {
-			return Case{err: caseWhenThen.GetError()}
+			return caseError(caseWhenThen.GetError())
 		}
 	}
 	simpleCase := Case{
@@ -85,7 +93,7 @@ func GenericCaseCreate1() Case {
 func GenericCaseCreate(caseWhenThens []CaseWhenThen) Case {
 	for _, caseWhenThen := range caseWhenThens {
 		if caseWhenThen.GetError() != nil {
-			return Case{err: caseWhenThen.GetError()}
+			return caseError(caseWhenThen.GetError())
 		}
 	}
 	genericCase := Case{
@@ -101,7 +109,7 @@ func GenericCaseCreate(caseWhenThens []CaseWhenThen) Case {
 func EndingGenericCaseCreate(caseWhenThens []CaseWhenThen) Case {
 	for _, caseWhenThen := range caseWhenThens {
 		if caseWhenThen.GetError() != nil {
-			return Case{err: caseWhenThen.GetError()}
+			return caseError(caseWhenThen.GetError())
 		}
 	}
 	genericCase := Case{
@@ -165,12 +173,19 @@ func (c Case) getConditionType() string {
 }
 
 func (c Case) ElseDefault(defaultExpression Expression) CaseEnding {
+	if c.GetError() != nil {
+		return c
+	}
+	if defaultExpression == nil || (defaultExpression.GetError() == nil && !defaultExpression.isNotNil()) {
+		return caseError(errors.New("case: an else expression is required"))
+	}
 	caseElse := CaseElseCreate(defaultExpression)
 	if caseElse.GetError() != nil {
-		return Case{err: caseElse.GetError()}
+		return caseError(caseElse.GetError())
 	}
 	c.caseElse = caseElse
-	c.ExpressionContainer = ExpressionWrap(c)
+	c.key = getAddress(&c)
+	c.ConditionContainer = ConditionWrap(c)
 	return c
 }
 
@@ -203,17 +218,33 @@ func OngoingWhenThenCreate(caseInstance *Case, whenExpression Expression) Ongoin
 	if whenExpression != nil && whenExpression.GetError() != nil {
 		return OngoingWhenThen{err: whenExpression.GetError()}
 	}
+	if caseInstance == nil {
+		return OngoingWhenThen{err: errors.New("case: a case to extend is required")}
+	}
+	if caseInstance.GetError() != nil {
+		return OngoingWhenThen{err: caseInstance.GetError()}
+	}
 	return OngoingWhenThen{whenExpression: whenExpression, caseInstance: caseInstance}
 }
 
 func (o OngoingWhenThen) Then(expression Expression) CaseEnding {
+	if o.err != nil {
+		return caseError(o.err)
+	}
 	caseWhenThen := CaseWhenThenCreate(o.whenExpression, expression)
-	o.caseInstance.caseWhenThens = append(o.caseInstance.caseWhenThens, caseWhenThen)
+	caseWhenThens := make([]CaseWhenThen, 0, len(o.caseInstance.caseWhenThens)+1)
+	caseWhenThens = append(caseWhenThens, o.caseInstance.caseWhenThens...)
+	caseWhenThens = append(caseWhenThens, caseWhenThen)
+	var next Case
 	if o.caseInstance.caseExpression != nil && o.caseInstance.caseExpression.isNotNil() {
-		return EndingSimpleCaseCreate(o.caseInstance.caseExpression, o.caseInstance.caseWhenThens)
+		next = EndingSimpleCaseCreate(o.caseInstance.caseExpression, caseWhenThens)
 	} else {
-		return EndingGenericCaseCreate(o.caseInstance.caseWhenThens)
+		next = EndingGenericCaseCreate(caseWhenThens)
 	}
+	if next.GetError() == nil && o.caseInstance.caseElse.isNotNil() {
+		return next.ElseDefault(o.caseInstance.caseElse.elseExpression)
+	}
+	return next
 }
 
 //CaseWhenThen
@@ -233,6 +264,12 @@ func CaseWhenThenCreate(whenExpression Expression, thenExpression Expression) Ca
 	if whenExpression != nil && whenExpression.GetError() != nil {
 		return CaseWhenThen{err: whenExpression.GetError()}
 	}
+	if whenExpression == nil || !whenExpression.isNotNil() {
+		return CaseWhenThen{err: errors.New("case: a when expression is required")}
+	}
+	if thenExpression == nil || !thenExpression.isNotNil() {
+		return CaseWhenThen{err: errors.New("case: a then expression is required")}
+	}
 	caseWhenThen := CaseWhenThen{
 		thenExpression: thenExpression,
 		whenExpression: whenExpression,
diff --git a/comparison.go b/comparison.go
index 4345c83..03b1a7f 100644
--- a/comparison.go
+++ b/comparison.go
@@ -30,7 +30,7 @@ func ComparisonCreate(left Expression, operator Operator, right Expression) Comp
 	if left == nil || !left.isNotNil() {
 		return ComparisonError(errors.New("left expression must be not nil"))
 	}
-	if right == nil || !left.isNotNil() {
+	if right == nil || !right.isNotNil() {
 		return ComparisonError(errors.New("right expression must be not nil"))
 	}
 	comparison := Comparison{
@@ -72,7 +72,7 @@ func ComparisonCreate1(operator Operator, expression Expression) Comparison {
 			right:    nil,
 		}
 	default:
-		return Comparison{}
+		return ComparisonError(errors.New("comparison: operator must be a prefix or postfix operator"))
 	}
 	comparison.key = getAddress(&comparison)
 	comparison.notNil = true
diff --git a/operation.go b/operation.go
index 0db27b8..7cfedc2 100644
--- a/operation.go
+++ b/operation.go
@@ -55,13 +55,13 @@ func OperationCreate1(left Expression, operator Operator, right NodeLabel) Opera
 	if right.GetError() != nil {
 		return OperationError(right.GetError())
 	}
-	if left == nil || left.isNotNil() {
+	if left == nil || !left.isNotNil() {
 		return OperationError(errors.New("left can not be nil"))
 	}
-	if operator.isNotNil() {
+	if !operator.isNotNil() {
 		return OperationError(errors.New("operator can not be nil"))
 	}
-	if right.isNotNil() {
+	if !right.isNotNil() {
 		return OperationError(errors.New("right can not be nil"))
 	}
 	o := Operation{
@@ -94,12 +94,19 @@ func OperationCreate2(op1 Node, operator Operator, nodeLabels ...string) Operati
 	if nodeLabels == nil || len(nodeLabels) == 0 {
 		return OperationError(errors.New("labels can not be nil or empty"))
 	}
+	name := op1.GetRequiredSymbolicName()
+	if name.GetError() != nil {
+		return OperationError(name.GetError())
+	}
 	labels := make([]NodeLabel, 0)
 	for _, nodeLabel := range nodeLabels {
+		if nodeLabel == "" {
+			return OperationError(errors.New("an empty label is not allowed"))
+		}
 		labels = append(labels, NodeLabelCreate(nodeLabel))
 	}
 	o := Operation{
-		left:     op1.GetRequiredSymbolicName(),
+		left:     name,
 		operator: operator,
 		right:    NodeLabelsCreate(labels),
 		notNil:   true,
-- 
2.43.0


From 7268a7a810b03877ab2e8d1021d943a7b7bd3a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:05 +0000
Subject: [PATCH 07/26] fix: statement builders never share state, lose clauses
 or forget a failed step

---
 condition_builder.go                     |  13 ++-
 default_ongoing_unwind.go                |   8 +-
 default_statement_builder.go             | 139 +++++++++++++++++------
 default_statement_with_return_builder.go |   8 +-
 default_statement_with_update.go         |  56 +++++----
 default_statement_with_with_builder.go   |  49 ++++----
 in_query_call_builder.go                 |  49 +++++---
 match_builder.go                         |   4 +-
 order_builder.go                         |  18 ++-
 procedure_call.go                        |  52 ++++++---
 updating_clause_builder.go               |   4 +-
 with.go                                  |  10 +-
 12 files changed, 286 insertions(+), 124 deletions(-)

diff --git a/condition_builder.go b/condition_builder.go
index 764c75d..662c0e3 100644
--- a/condition_builder.go
+++ b/condition_builder.go
@@ -13,17 +13,28 @@ func (c *ConditionBuilder) Where(newCondition Condition) {
 }
 
 func (c *ConditionBuilder) And(additionalCondition Condition) {
+	if !c.hasCondition() {
+		c.condition = additionalCondition
+		return
+	}
 	c.condition = c.condition.And(additionalCondition).Get()
 }
 
 func (c *ConditionBuilder) Or(additionalCondition Condition) {
+	if !c.hasCondition() {
+		c.condition = additionalCondition
+		return
+	}
 	c.condition = c.condition.Or(additionalCondition).Get()
 }
 
 func (c *ConditionBuilder) hasCondition() bool {
-	if c.condition == nil || !c.condition.isNotNil() {
+	if c.condition == nil {
 		return false
 	}
+	if c.condition.GetError() != nil {
+		return true
+	}
 	compound, isCompound := c.condition.(CompoundCondition)
 	return c.condition.isNotNil() && (!isCompound || compound.hasCondition())
 }
diff --git a/default_ongoing_unwind.go b/default_ongoing_unwind.go
index 23f30e1..2616f3b 100644
--- a/default_ongoing_unwind.go
+++ b/default_ongoing_unwind.go
@@ -22,6 +22,10 @@ func (d DefaultOngoingUnwind) GetError() error {
 }
 
 func (d DefaultOngoingUnwind) As(variable string) OngoingReading {
-	d.defaultBuilder.currentSinglePartElements = append(d.defaultBuilder.currentSinglePartElements, unwindCreate(d.expressionToUnwind, variable))
-	return d.defaultBuilder
+	if d.err != nil {
+		return DefaultStatementBuilderError(d.err)
+	}
+	builder := *d.defaultBuilder
+	builder.addElement(unwindCreate(d.expressionToUnwind, variable))
+	return builder
 }
diff --git a/default_statement_builder.go b/default_statement_builder.go
index 44fda57..3f5fad4 100644
--- a/default_statement_builder.go
+++ b/default_statement_builder.go
@@ -42,6 +42,9 @@ func (d DefaultStatementBuilder) Where(condition Condition) OngoingReadingWithWh
 	if condition != nil && condition.GetError() != nil {
 		return DefaultStatementBuilderError(condition.GetError())
 	}
+	if !d.currentOngoingMatch.notNil {
+		return DefaultStatementBuilderError(errors.New("a condition needs a preceding MATCH"))
+	}
 	d.currentOngoingMatch.conditionBuilder.Where(condition)
 	return d
 }
@@ -58,7 +61,16 @@ func (d DefaultStatementBuilder) AddWith(with with) DefaultStatementBuilder {
 		return DefaultStatementBuilderError(with.GetError())
 	}
 	if with.isNotNil() {
-		d.multipartElements = append(d.multipartElements, MultiPartElementCreate(d.BuildListOfVisitable(true), with))
+		part := MultiPartElementCreate(d.BuildListOfVisitable(true), with)
+		if d.err != nil {
+			return DefaultStatementBuilderError(d.err)
+		}
+		if part.GetError() != nil {
+			return DefaultStatementBuilderError(part.GetError())
+		}
+		parts := make([]MultiPartElement, len(d.multipartElements), len(d.multipartElements)+1)
+		copy(parts, d.multipartElements)
+		d.multipartElements = append(parts, part)
 	}
 	return d
 }
@@ -267,7 +279,7 @@ func (d DefaultStatementBuilder) Set(expressions ...Expression) BuildableStateme
 			return DefaultStatementBuilderError(expression.GetError())
 		}
 	}
-	d.CloseCurrentOngoingUpdate()
+	d.closeCurrentSteps()
 	return DefaultStatementWithUpdateBuilderCreate2(&d, UPDATE_TYPE_SET, expressions...)
 }
 
@@ -291,6 +303,7 @@ func (d DefaultStatementBuilder) SetByNode(node Node, labels ...string) Buildabl
 	if node.GetError() != nil {
 		return DefaultStatementBuilderError(node.GetError())
 	}
+	d.closeCurrentSteps()
 	return DefaultStatementWithUpdateBuilderCreate2(&d, UPDATE_TYPE_SET, OperationSetLabel(node, labels...))
 }
 
@@ -301,6 +314,7 @@ func (d DefaultStatementBuilder) RemoveByNode(node Node, labels ...string) Build
 	if node.GetError() != nil {
 		return DefaultStatementBuilderError(node.GetError())
 	}
+	d.closeCurrentSteps()
 	return DefaultStatementWithUpdateBuilderCreate2(&d, UPDATE_TYPE_REMOVE, OperationRemove(node, labels...))
 }
 
@@ -317,6 +331,7 @@ func (d DefaultStatementBuilder) Remove(properties ...Property) BuildableStateme
 	for i := range properties {
 		expressions[i] = properties[i]
 	}
+	d.closeCurrentSteps()
 	return DefaultStatementWithUpdateBuilderCreate2(&d, UPDATE_TYPE_REMOVE, expressions...)
 }
 
@@ -346,7 +361,10 @@ func (d DefaultStatementBuilder) Unwind(expression Expression) OngoingUnwind {
 	if expression != nil && expression.GetError() != nil {
 		return DefaultOngoingUnwindError(expression.GetError())
 	}
-	d.CloseCurrentOngoingMatch()
+	d.closeCurrentSteps()
+	if d.err != nil {
+		return DefaultOngoingUnwindError(d.err)
+	}
 	return DefaultOngoingUnwindCreate(&d, expression)
 }
 
@@ -357,18 +375,16 @@ func (d DefaultStatementBuilder) Call(statement Statement) OngoingReadingWithout
 	if statement != nil && statement.GetError() != nil {
 		return DefaultStatementBuilderError(statement.GetError())
 	}
+	d.closeCurrentSteps()
 	if d.err != nil {
 		return d
 	}
-	d.CloseCurrentOngoingCall()
-	d.CloseCurrentOngoingMatch()
-	d.CloseCurrentOngoingUpdate()
 	singlePart := SubqueryCall(statement)
 	if singlePart.GetError() != nil {
 		d.err = singlePart.GetError()
 		return d
 	}
-	d.currentSinglePartElements = append(d.currentSinglePartElements, singlePart)
+	d.addElement(singlePart)
 	return d
 }
 
@@ -376,16 +392,21 @@ func (d DefaultStatementBuilder) Call1(namespaceAndProcedure ...string) OngoingI
 	if d.err != nil {
 		return InQueryCallBuilder{err: d.err}
 	}
-	d.CloseCurrentOngoingMatch()
-	d.CloseCurrentOngoingCall()
+	d.closeCurrentSteps()
+	if d.err != nil {
+		return InQueryCallBuilder{err: d.err}
+	}
 	inQueryCallBuilder := InQueryCallBuilderCreate(&d, ProcedureNameCreate(namespaceAndProcedure...))
 	d.currentOngoingCall = inQueryCallBuilder
 	return inQueryCallBuilder
 }
 
 func (d DefaultStatementBuilder) AsCondition() Condition {
+	if d.err != nil {
+		return CompoundConditionError(d.err)
+	}
 	if !d.currentOngoingMatch.notNil || len(d.currentSinglePartElements) > 0 {
-		panic("only simple MATCH statements can be used as existential subqueries")
+		return CompoundConditionError(errors.New("only simple MATCH statements can be used as existential subqueries"))
 	}
 	return ExistentialSubqueryExists(d.currentOngoingMatch.buildMatch())
 }
@@ -394,6 +415,16 @@ func (d DefaultStatementBuilder) And(condition Condition) OngoingReadingWithWher
 	if d.err != nil {
 		return DefaultStatementBuilderError(d.err)
 	}
+	if condition != nil && condition.GetError() != nil {
+		return DefaultStatementBuilderError(condition.GetError())
+	}
+	if d.currentOngoingCall != nil && d.currentOngoingCall.isNotNil() {
+		d.currentOngoingCall = d.currentOngoingCall.and(condition)
+		return d
+	}
+	if !d.currentOngoingMatch.notNil {
+		return DefaultStatementBuilderError(errors.New("a condition needs a preceding MATCH"))
+	}
 	d.currentOngoingMatch.conditionBuilder.And(condition)
 	return d
 }
@@ -415,6 +446,13 @@ func (d DefaultStatementBuilder) Or(condition Condition) OngoingReadingWithWhere
 	if condition != nil && condition.GetError() != nil {
 		return DefaultStatementBuilderError(condition.GetError())
 	}
+	if d.currentOngoingCall != nil && d.currentOngoingCall.isNotNil() {
+		d.currentOngoingCall = d.currentOngoingCall.or(condition)
+		return d
+	}
+	if !d.currentOngoingMatch.notNil {
+		return DefaultStatementBuilderError(errors.New("a condition needs a preceding MATCH"))
+	}
 	d.currentOngoingMatch.conditionBuilder.Or(condition)
 	return d
 }
@@ -493,18 +531,33 @@ func (d DefaultStatementBuilder) MatchDefault(optional bool, patterns ...Pattern
 			return DefaultStatementBuilderError(pattern.GetError())
 		}
 	}
-	d.CloseCurrentOngoingMatch()
-	d.CloseCurrentOngoingCall()
+	d.closeCurrentSteps()
+	if d.err != nil {
+		return DefaultStatementBuilderError(d.err)
+	}
 	d.currentOngoingMatch = MatchBuilderCreate(optional)
 	d.currentOngoingMatch.patternList = append(d.currentOngoingMatch.patternList, patterns...)
 	return d
 }
 
+// addElement adds to a list of its own, so that no other continuation of the same step sees the element.
+func (d *DefaultStatementBuilder) addElement(element Visitable) {
+	elements := make([]Visitable, len(d.currentSinglePartElements), len(d.currentSinglePartElements)+1)
+	copy(elements, d.currentSinglePartElements)
+	d.currentSinglePartElements = append(elements, element)
+}
+
+func (d *DefaultStatementBuilder) closeCurrentSteps() {
+	d.CloseCurrentOngoingMatch()
+	d.CloseCurrentOngoingCall()
+	d.CloseCurrentOngoingUpdate()
+}
+
 func (d *DefaultStatementBuilder) CloseCurrentOngoingMatch() {
 	if !d.currentOngoingMatch.notNil {
 		return
 	}
-	d.currentSinglePartElements = append(d.currentSinglePartElements, d.currentOngoingMatch.buildMatch())
+	d.addElement(d.currentOngoingMatch.buildMatch())
 	d.currentOngoingMatch = MatchBuilder{}
 }
 
@@ -517,7 +570,7 @@ func (d *DefaultStatementBuilder) CloseCurrentOngoingCall() {
 		d.err = err
 		return
 	}
-	d.currentSinglePartElements = append(d.currentSinglePartElements, builtCall)
+	d.addElement(builtCall)
 	d.currentOngoingCall = InQueryCallBuilder{}
 }
 
@@ -525,7 +578,7 @@ func (d *DefaultStatementBuilder) CloseCurrentOngoingUpdate() {
 	if !d.currentOngoingUpdate.notNil {
 		return
 	}
-	d.currentSinglePartElements = append(d.currentSinglePartElements, d.currentOngoingUpdate.builder.build())
+	d.addElement(d.currentOngoingUpdate.builder.build())
 	d.currentOngoingUpdate = DefaultStatementWithUpdateBuilder{}
 }
 
@@ -558,11 +611,22 @@ func (d DefaultStatementBuilder) Build() (Statement, error) {
 	if d.err != nil {
 		return nil, d.err
 	}
-	return d.BuildImpl(false, Return{}), nil
+	return builtStatement(d.BuildImpl(false, Return{}))
+}
+
+func builtStatement(statement Statement) (Statement, error) {
+	if statement.GetError() != nil {
+		return nil, statement.GetError()
+	}
+	return statement, nil
 }
 
 func (d DefaultStatementBuilder) BuildImpl(clearCurrentBuildSteps bool, returning Return) Statement {
-	singlePartQuery := SinglePartQueryCreate(d.BuildListOfVisitable(clearCurrentBuildSteps), returning)
+	clauses := d.BuildListOfVisitable(clearCurrentBuildSteps)
+	if d.err != nil {
+		return SinglePartQueryError(d.err)
+	}
+	singlePartQuery := SinglePartQueryCreate(clauses, returning)
 	if len(d.multipartElements) == 0 {
 		return singlePartQuery
 	}
@@ -597,15 +661,19 @@ func (d *DefaultStatementBuilder) BuildListOfVisitable(clearAfter bool) []Visita
 
 func (d *DefaultStatementBuilder) addUpdatingClause(clause UpdatingClause) DefaultStatementBuilder {
 	d.CloseCurrentOngoingMatch()
-	d.currentSinglePartElements = append(d.currentSinglePartElements, clause)
+	d.addElement(clause)
 	return *d
 }
 
 func (d *DefaultStatementBuilder) Update(updateType UpdateType, pattern []Visitable) DefaultStatementBuilder {
-	d.CloseCurrentOngoingMatch()
-	d.CloseCurrentOngoingCall()
-	d.CloseCurrentOngoingUpdate()
+	d.closeCurrentSteps()
+	if d.err != nil {
+		return *d
+	}
 	d.currentOngoingUpdate = DefaultStatementWithUpdateBuilderCreate1(d, updateType, pattern)
+	if d.currentOngoingUpdate.err != nil {
+		d.err = d.currentOngoingUpdate.err
+	}
 	return *d
 }
 
@@ -614,17 +682,24 @@ func getUpdatingClauseBuilder(updateType UpdateType, patternOrExpression ...Visi
 	if mergeOrCreate {
 		patternElements := make([]PatternElement, 0)
 		for _, visitable := range patternOrExpression {
-			patternElements := append(patternElements, visitable.(PatternElement))
-			if updateType == UPDATE_TYPE_CREATE {
-				return CreateBuilderCreate(patternElements), nil
-			} else {
-				return MergeBuilderCreate(patternElements), nil
+			patternElement, isPatternElement := visitable.(PatternElement)
+			if !isPatternElement {
+				return RemoveBuilder{}, xerrors.Errorf("%s needs pattern elements", updateType)
 			}
+			patternElements = append(patternElements, patternElement)
+		}
+		if updateType == UPDATE_TYPE_CREATE {
+			return CreateBuilderCreate(patternElements), nil
 		}
+		return MergeBuilderCreate(patternElements), nil
 	} else {
 		expressions := make([]Expression, 0)
 		for _, visitable := range patternOrExpression {
-			expressions = append(expressions, visitable.(Expression))
+			expression, isExpression := visitable.(Expression)
+			if !isExpression {
+				return RemoveBuilder{}, xerrors.Errorf("%s needs expressions", updateType)
+			}
+			expressions = append(expressions, expression)
 		}
 		var expressionList ExpressionList
 		if updateType == UPDATE_TYPE_SET {
@@ -649,8 +724,6 @@ func getUpdatingClauseBuilder(updateType UpdateType, patternOrExpression ...Visi
 			return RemoveBuilder{}, xerrors.Errorf("unsupported update type %s", updateType)
 		}
 	}
-	//Just return to make compiler happy
-	return RemoveBuilder{}, xerrors.Errorf("unexpected behavior")
 }
 
 func prepareSetExpression(possibleSetOperations []Expression) ([]Expression, error) {
@@ -712,11 +785,11 @@ func (o OngoingMergeActionInBuilder) Set(expressions ...Expression) OngoingMatch
 	newSupport, err := support.on(o.mergeType, expressions...)
 	newMergeBuilder, _ := newSupport.(MergeBuilder)
 	if err != nil {
-		o.defaultBuilder.err = err
-		return o.defaultBuilder
+		return DefaultStatementBuilderError(err)
 	}
-	o.defaultBuilder.currentOngoingUpdate.builder = newMergeBuilder
-	return o.defaultBuilder
+	builder := *o.defaultBuilder
+	builder.currentOngoingUpdate.builder = newMergeBuilder
+	return builder
 }
 
 func (o OngoingMergeActionInBuilder) SetWithNamed(variable Named, expression Expression) OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction {
diff --git a/default_statement_with_return_builder.go b/default_statement_with_return_builder.go
index 47b428b..094e47b 100644
--- a/default_statement_with_return_builder.go
+++ b/default_statement_with_return_builder.go
@@ -13,7 +13,9 @@ func DefaultStatementWithReturnBuilderError(err error) DefaultStatementWithRetur
 }
 
 func (d *DefaultStatementWithReturnBuilder) AddExpression(expression ...Expression) {
-	d.returnList = append(d.returnList, expression...)
+	returnList := make([]Expression, 0, len(d.returnList)+len(expression))
+	returnList = append(returnList, d.returnList...)
+	d.returnList = append(returnList, expression...)
 }
 
 func (d DefaultStatementWithReturnBuilder) Build() (Statement, error) {
@@ -22,11 +24,11 @@ func (d DefaultStatementWithReturnBuilder) Build() (Statement, error) {
 	}
 	var returning Return
 	if len(d.returnList) > 0 {
-		returnItems := ExpressionList{expressions: d.returnList}
+		returnItems := ExpressionListCreate(d.returnList)
 		returning = ReturnCreate1(d.distinct, returnItems, d.orderBuilder.BuildOrder(), d.orderBuilder.skip,
 			d.orderBuilder.limit)
 	}
-	return d.defaultBuilder.BuildImpl(false, returning), nil
+	return builtStatement(d.defaultBuilder.BuildImpl(false, returning))
 }
 
 func (d DefaultStatementWithReturnBuilder) And(expression Expression) TerminalOngoingOrderDefinition {
diff --git a/default_statement_with_update.go b/default_statement_with_update.go
index 5c2f70e..cb75cd6 100644
--- a/default_statement_with_update.go
+++ b/default_statement_with_update.go
@@ -104,18 +104,29 @@ func (d DefaultStatementWithUpdateBuilder) Limit(number int) BuildableStatement
 	return d
 }
 
+// closed returns the statement built so far, with the updating clause added to it.
+func (d DefaultStatementWithUpdateBuilder) closed() *DefaultStatementBuilder {
+	if d.err != nil {
+		builder := DefaultStatementBuilderError(d.err)
+		return &builder
+	}
+	builder := *d.defaultBuilder
+	builder.addUpdatingClause(d.builder.build())
+	return &builder
+}
+
 func (d DefaultStatementWithUpdateBuilder) Build() (Statement, error) {
 	if d.err != nil {
 		return nil, d.err
 	}
-	d.defaultBuilder.addUpdatingClause(d.builder.build())
+	builder := d.closed()
 	var returning Return
 	if len(d.returnList) > 0 {
-		returnItems := ExpressionList{expressions: d.returnList}
+		returnItems := ExpressionListCreate(d.returnList)
 		returning = ReturnCreate1(d.distinct, returnItems, d.orderBuilder.BuildOrder(), d.orderBuilder.skip,
 			d.orderBuilder.limit)
 	}
-	return d.defaultBuilder.BuildImpl(false, returning), nil
+	return builtStatement(builder.BuildImpl(false, returning))
 }
 
 func (d DefaultStatementWithUpdateBuilder) ReturningByString(variables ...string) OngoingReadingAndReturn {
@@ -127,7 +138,9 @@ func (d DefaultStatementWithUpdateBuilder) ReturningByNamed(variables ...Named)
 }
 
 func (d DefaultStatementWithUpdateBuilder) Returning(expression ...Expression) OngoingReadingAndReturn {
-	d.returnList = append(d.returnList, expression...)
+	returnList := make([]Expression, 0, len(d.returnList)+len(expression))
+	returnList = append(returnList, d.returnList...)
+	d.returnList = append(returnList, expression...)
 	return d
 }
 
@@ -140,9 +153,8 @@ func (d DefaultStatementWithUpdateBuilder) ReturningDistinctByNamed(variables ..
 }
 
 func (d DefaultStatementWithUpdateBuilder) ReturningDistinct(expression ...Expression) OngoingReadingAndReturn {
-	d.Returning(expression...)
 	d.distinct = true
-	return d
+	return d.Returning(expression...)
 }
 
 func (d DefaultStatementWithUpdateBuilder) WithByString(variables ...string) OrderableOngoingReadingAndWithWithoutWhere {
@@ -158,8 +170,8 @@ func (d DefaultStatementWithUpdateBuilder) With(expressions ...Expression) Order
 }
 
 func (d DefaultStatementWithUpdateBuilder) WithDefault(distinct bool, returnedExpressions ...Expression) OrderableOngoingReadingAndWithWithoutWhere {
-	d.defaultBuilder.addUpdatingClause(d.builder.build())
-	return d.defaultBuilder.WithDefault(distinct, returnedExpressions...)
+	builder := d.closed()
+	return builder.WithDefault(distinct, returnedExpressions...)
 }
 
 func (d DefaultStatementWithUpdateBuilder) WithDistinctByString(variables ...string) OrderableOngoingReadingAndWithWithoutWhere {
@@ -187,7 +199,7 @@ func (d DefaultStatementWithUpdateBuilder) Delete(expressions ...Expression) Ong
 }
 
 func (d DefaultStatementWithUpdateBuilder) DeleteDefault(nextDetach bool, deletedExpressions ...Expression) OngoingUpdate {
-	d.defaultBuilder.addUpdatingClause(d.builder.build())
+	builder := d.closed()
 	var deleteType UpdateType
 	if nextDetach {
 		deleteType = UPDATE_TYPE_DETACH_DELETE
@@ -198,7 +210,7 @@ func (d DefaultStatementWithUpdateBuilder) DeleteDefault(nextDetach bool, delete
 	for i := range deletedExpressions {
 		visitables[i] = deletedExpressions[i]
 	}
-	return d.defaultBuilder.Update(deleteType, visitables)
+	return builder.Update(deleteType, visitables)
 }
 
 func (d DefaultStatementWithUpdateBuilder) DetachDeleteByString(variables ...string) OngoingUpdate {
@@ -214,13 +226,13 @@ func (d DefaultStatementWithUpdateBuilder) DetachDelete(expressions ...Expressio
 }
 
 func (d DefaultStatementWithUpdateBuilder) Merge(pattern ...PatternElement) OngoingUpdateAndExposesSet {
-	d.defaultBuilder.addUpdatingClause(d.builder.build())
-	return d.defaultBuilder.Merge(pattern...)
+	builder := d.closed()
+	return builder.Merge(pattern...)
 }
 
 func (d DefaultStatementWithUpdateBuilder) Set(expressions ...Expression) BuildableStatementAndOngoingMatchAndUpdate {
-	d.defaultBuilder.addUpdatingClause(d.builder.build())
-	return DefaultStatementWithUpdateBuilderCreate2(d.defaultBuilder, UPDATE_TYPE_SET, expressions...)
+	builder := d.closed()
+	return DefaultStatementWithUpdateBuilderCreate2(builder, UPDATE_TYPE_SET, expressions...)
 }
 
 func (d DefaultStatementWithUpdateBuilder) SetWithNamed(variable Named, expression Expression) BuildableStatementAndOngoingMatchAndUpdate {
@@ -228,16 +240,16 @@ func (d DefaultStatementWithUpdateBuilder) SetWithNamed(variable Named, expressi
 }
 
 func (d DefaultStatementWithUpdateBuilder) SetByNode(node Node, labels ...string) BuildableStatementAndOngoingMatchAndUpdate {
-	d.defaultBuilder.addUpdatingClause(d.builder.build())
-	return DefaultStatementWithUpdateBuilderCreate2(d.defaultBuilder, UPDATE_TYPE_SET, OperationSetLabel(node, labels...))
+	builder := d.closed()
+	return DefaultStatementWithUpdateBuilderCreate2(builder, UPDATE_TYPE_SET, OperationSetLabel(node, labels...))
 }
 
 func (d DefaultStatementWithUpdateBuilder) RemoveByNode(node Node, labels ...string) BuildableStatementAndOngoingMatchAndUpdate {
 	if d.err != nil {
 		return d
 	}
-	d.defaultBuilder.addUpdatingClause(d.builder.build())
-	return DefaultStatementWithUpdateBuilderCreate2(d.defaultBuilder, UPDATE_TYPE_REMOVE, OperationSetLabel(node, labels...))
+	builder := d.closed()
+	return DefaultStatementWithUpdateBuilderCreate2(builder, UPDATE_TYPE_REMOVE, OperationRemove(node, labels...))
 }
 
 func (d DefaultStatementWithUpdateBuilder) Remove(properties ...Property) BuildableStatementAndOngoingMatchAndUpdate {
@@ -245,11 +257,11 @@ func (d DefaultStatementWithUpdateBuilder) Remove(properties ...Property) Builda
 	for i := range properties {
 		expressions[i] = properties[i]
 	}
-	d.defaultBuilder.addUpdatingClause(d.builder.build())
-	return DefaultStatementWithUpdateBuilderCreate2(d.defaultBuilder, UPDATE_TYPE_REMOVE, expressions...)
+	builder := d.closed()
+	return DefaultStatementWithUpdateBuilderCreate2(builder, UPDATE_TYPE_REMOVE, expressions...)
 }
 
 func (d DefaultStatementWithUpdateBuilder) Create(element ...PatternElement) OngoingUpdateAndExposesSet {
-	d.defaultBuilder.addUpdatingClause(d.builder.build())
-	return d.defaultBuilder.Create(element...)
+	builder := d.closed()
+	return builder.Create(element...)
 }
diff --git a/default_statement_with_with_builder.go b/default_statement_with_with_builder.go
index af51013..2cd84ea 100644
--- a/default_statement_with_with_builder.go
+++ b/default_statement_with_with_builder.go
@@ -23,6 +23,14 @@ func DefaultStatementWithWithBuilderError(err error) DefaultStatementWithWithBui
 	return DefaultStatementWithWithBuilder{err: err}
 }
 
+// closed returns the statement built so far, with the WITH clause added to it.
+func (d DefaultStatementWithWithBuilder) closed() DefaultStatementBuilder {
+	if d.err != nil {
+		return DefaultStatementBuilderError(d.err)
+	}
+	return d.defaultBuilder.AddWith(d.buildWith())
+}
+
 func (d *DefaultStatementWithWithBuilder) buildWith() with {
 	if len(d.returnList) == 0 {
 		return with{}
@@ -30,10 +38,7 @@ func (d *DefaultStatementWithWithBuilder) buildWith() with {
 	returnItems := ExpressionListCreate(d.returnList)
 	condition := d.conditionBuilder.buildCondition()
 	var where Where
-	if condition == nil || !condition.isNotNil() {
-		where = Where{}
-
-	} else {
+	if condition != nil {
 		where = WhereCreate(condition)
 	}
 	returnedWith := withCreate(d.distinct, returnItems, d.orderBuilder.BuildOrder(), d.orderBuilder.skip,
@@ -44,7 +49,9 @@ func (d *DefaultStatementWithWithBuilder) buildWith() with {
 }
 
 func (d *DefaultStatementWithWithBuilder) addExpression(expressions ...Expression) {
-	d.returnList = append(d.returnList, expressions...)
+	returnList := make([]Expression, 0, len(d.returnList)+len(expressions))
+	returnList = append(returnList, d.returnList...)
+	d.returnList = append(returnList, expressions...)
 }
 
 func (d DefaultStatementWithWithBuilder) Skip(number int) ExposesLimitAndOngoingReadingAndWith {
@@ -86,7 +93,7 @@ func (d DefaultStatementWithWithBuilder) ReturningByNamed(variables ...Named) On
 }
 
 func (d DefaultStatementWithWithBuilder) Returning(expression ...Expression) OngoingReadingAndReturn {
-	return d.defaultBuilder.AddWith(d.buildWith()).
+	return d.closed().
 		Returning(expression...)
 }
 
@@ -99,7 +106,7 @@ func (d DefaultStatementWithWithBuilder) ReturningDistinctByNamed(variables ...N
 }
 
 func (d DefaultStatementWithWithBuilder) ReturningDistinct(expression ...Expression) OngoingReadingAndReturn {
-	return d.defaultBuilder.AddWith(d.buildWith()).
+	return d.closed().
 		ReturningDistinct(expression...)
 }
 
@@ -112,7 +119,7 @@ func (d DefaultStatementWithWithBuilder) WithByNamed(variables ...Named) Orderab
 }
 
 func (d DefaultStatementWithWithBuilder) With(expressions ...Expression) OrderableOngoingReadingAndWithWithoutWhere {
-	return d.defaultBuilder.AddWith(d.buildWith()).
+	return d.closed().
 		With(expressions...)
 }
 
@@ -125,7 +132,7 @@ func (d DefaultStatementWithWithBuilder) WithDistinctByNamed(variables ...Named)
 }
 
 func (d DefaultStatementWithWithBuilder) WithDistinct(expressions ...Expression) OrderableOngoingReadingAndWithWithoutWhere {
-	return d.defaultBuilder.AddWith(d.buildWith()).
+	return d.closed().
 		WithDistinct(expressions...)
 }
 
@@ -138,7 +145,7 @@ func (d DefaultStatementWithWithBuilder) DeleteByNamed(variables ...Named) Ongoi
 }
 
 func (d DefaultStatementWithWithBuilder) Delete(expressions ...Expression) OngoingUpdate {
-	return d.defaultBuilder.AddWith(d.buildWith()).
+	return d.closed().
 		Delete(expressions...)
 }
 
@@ -151,17 +158,17 @@ func (d DefaultStatementWithWithBuilder) DetachDeleteByNamed(variables ...Named)
 }
 
 func (d DefaultStatementWithWithBuilder) DetachDelete(expressions ...Expression) OngoingUpdate {
-	return d.defaultBuilder.AddWith(d.buildWith()).
+	return d.closed().
 		DetachDelete(expressions...)
 }
 
 func (d DefaultStatementWithWithBuilder) Merge(pattern ...PatternElement) OngoingUpdateAndExposesSet {
-	return d.defaultBuilder.AddWith(d.buildWith()).
+	return d.closed().
 		Merge(pattern...)
 }
 
 func (d DefaultStatementWithWithBuilder) Set(expressions ...Expression) BuildableStatementAndOngoingMatchAndUpdate {
-	return d.defaultBuilder.AddWith(d.buildWith()).
+	return d.closed().
 		Set(expressions...)
 }
 
@@ -170,17 +177,17 @@ func (d DefaultStatementWithWithBuilder) SetWithNamed(variable Named, expression
 }
 
 func (d DefaultStatementWithWithBuilder) SetByNode(node Node, labels ...string) BuildableStatementAndOngoingMatchAndUpdate {
-	return d.defaultBuilder.AddWith(d.buildWith()).
+	return d.closed().
 		SetByNode(node, labels...)
 }
 
 func (d DefaultStatementWithWithBuilder) RemoveByNode(node Node, labels ...string) BuildableStatementAndOngoingMatchAndUpdate {
-	return d.defaultBuilder.AddWith(d.buildWith()).
+	return d.closed().
 		RemoveByNode(node, labels...)
 }
 
 func (d DefaultStatementWithWithBuilder) Remove(properties ...Property) BuildableStatementAndOngoingMatchAndUpdate {
-	return d.defaultBuilder.AddWith(d.buildWith()).
+	return d.closed().
 		Remove(properties...)
 }
 
@@ -193,22 +200,22 @@ func (d DefaultStatementWithWithBuilder) UnwindByString(variable string) Ongoing
 }
 
 func (d DefaultStatementWithWithBuilder) Unwind(expression Expression) OngoingUnwind {
-	return d.defaultBuilder.AddWith(d.buildWith()).
+	return d.closed().
 		Unwind(expression)
 }
 
 func (d DefaultStatementWithWithBuilder) Create(element ...PatternElement) OngoingUpdateAndExposesSet {
-	return d.defaultBuilder.AddWith(d.buildWith()).
+	return d.closed().
 		Create(element...)
 }
 
 func (d DefaultStatementWithWithBuilder) Call(statement Statement) OngoingReadingWithoutWhere {
-	return d.defaultBuilder.AddWith(d.buildWith()).
+	return d.closed().
 		Call(statement)
 }
 
 func (d DefaultStatementWithWithBuilder) Call1(namespaceAndProcedure ...string) OngoingInQueryCallWithoutArguments {
-	return d.defaultBuilder.AddWith(d.buildWith()).
+	return d.closed().
 		Call1(namespaceAndProcedure...)
 }
 
@@ -221,7 +228,7 @@ func (d DefaultStatementWithWithBuilder) OptionalMatch(pattern ...PatternElement
 }
 
 func (d DefaultStatementWithWithBuilder) MatchDefault(optional bool, pattern ...PatternElement) OngoingReadingWithoutWhere {
-	return d.defaultBuilder.AddWith(d.buildWith()).
+	return d.closed().
 		MatchDefault(optional, pattern...)
 }
 
diff --git a/in_query_call_builder.go b/in_query_call_builder.go
index 3fa7feb..d86038c 100644
--- a/in_query_call_builder.go
+++ b/in_query_call_builder.go
@@ -19,10 +19,29 @@ func InQueryCallBuilderCreate(defaultBuilder *DefaultStatementBuilder, procedure
 	}
 }
 
+// pending returns the statement built so far, with this call as its current step.
+func (i InQueryCallBuilder) pending() DefaultStatementBuilder {
+	if i.err != nil {
+		return DefaultStatementBuilderError(i.err)
+	}
+	builder := *i.defaultBuilder
+	builder.currentOngoingCall = i
+	return builder
+}
+
+func (i InQueryCallBuilder) and(condition Condition) ProcedureCallBuilder {
+	i.conditionBuilder.And(condition)
+	return i
+}
+
+func (i InQueryCallBuilder) or(condition Condition) ProcedureCallBuilder {
+	i.conditionBuilder.Or(condition)
+	return i
+}
+
 func (i InQueryCallBuilder) Where(condition Condition) OngoingReadingWithWhere {
 	i.conditionBuilder.Where(condition)
-	i.defaultBuilder.currentOngoingCall = i
-	return i.defaultBuilder
+	return i.pending()
 }
 
 func (i InQueryCallBuilder) WhereConditionContainer(container ConditionContainer) OngoingReadingWithWhere {
@@ -42,8 +61,7 @@ func (i InQueryCallBuilder) ReturningByNamed(variables ...Named) OngoingReadingA
 }
 
 func (i InQueryCallBuilder) Returning(expression ...Expression) OngoingReadingAndReturn {
-	i.defaultBuilder.currentOngoingCall = i
-	return i.defaultBuilder.Returning(expression...)
+	return i.pending().Returning(expression...)
 }
 
 func (i InQueryCallBuilder) ReturningDistinctByString(variables ...string) OngoingReadingAndReturn {
@@ -55,21 +73,23 @@ func (i InQueryCallBuilder) ReturningDistinctByNamed(variables ...Named) Ongoing
 }
 
 func (i InQueryCallBuilder) ReturningDistinct(expression ...Expression) OngoingReadingAndReturn {
-	i.defaultBuilder.currentOngoingCall = i
-	return i.defaultBuilder.ReturningDistinct(expression...)
+	return i.pending().ReturningDistinct(expression...)
 }
 
 func (i InQueryCallBuilder) Build() (Statement, error) {
+	if i.err != nil {
+		return nil, i.err
+	}
 	argumentsList := Arguments{}
 	if i.arguments == nil || len(i.arguments) > 0 {
 		argumentsList = ArgumentsCreate(i.arguments)
 	}
 	condition := i.conditionBuilder.buildCondition()
-	if condition != nil && condition.isNotNil() {
-		return ProcedureCallCreate(i.procedureName, argumentsList, i.yieldItems,
-			WhereCreate(condition)), nil
+	if condition != nil {
+		return builtStatement(ProcedureCallCreate(i.procedureName, argumentsList, i.yieldItems,
+			WhereCreate(condition)))
 	}
-	return ProcedureCallCreate(i.procedureName, argumentsList, i.yieldItems, Where{}), nil
+	return builtStatement(ProcedureCallCreate(i.procedureName, argumentsList, i.yieldItems, Where{}))
 }
 
 func (i InQueryCallBuilder) WithArgs(arguments ...Expression) OngoingInQueryCallWithArguments {
@@ -112,8 +132,7 @@ func (i InQueryCallBuilder) WithByNamed(variables ...Named) OrderableOngoingRead
 }
 
 func (i InQueryCallBuilder) With(expressions ...Expression) OrderableOngoingReadingAndWithWithoutWhere {
-	i.defaultBuilder.currentOngoingCall = i
-	return i.defaultBuilder.With(expressions...)
+	return i.pending().With(expressions...)
 }
 
 func (i InQueryCallBuilder) WithDistinctByString(variables ...string) OrderableOngoingReadingAndWithWithoutWhere {
@@ -125,13 +144,11 @@ func (i InQueryCallBuilder) WithDistinctByNamed(variables ...Named) OrderableOng
 }
 
 func (i InQueryCallBuilder) WithDistinct(expressions ...Expression) OrderableOngoingReadingAndWithWithoutWhere {
-	i.defaultBuilder.currentOngoingCall = i
-	return i.defaultBuilder.WithDistinct(expressions...)
+	return i.pending().WithDistinct(expressions...)
 }
 
 func (i InQueryCallBuilder) Call(statement Statement) OngoingReadingWithoutWhere {
-	i.defaultBuilder.currentOngoingCall = i
-	return i.defaultBuilder.Call(statement)
+	return i.pending().Call(statement)
 }
 
 func (i InQueryCallBuilder) isNotNil() bool {
diff --git a/match_builder.go b/match_builder.go
index 889d50e..cde488b 100644
--- a/match_builder.go
+++ b/match_builder.go
@@ -16,10 +16,10 @@ func MatchBuilderCreate(optional bool) MatchBuilder {
 }
 
 func (builder MatchBuilder) buildMatch() MatchPhrase {
-	pattern := Pattern{patternElements: builder.patternList}
+	pattern := PatternCreate(builder.patternList)
 	conditionBuilder := builder.conditionBuilder
 	builtCondition := conditionBuilder.buildCondition()
-	if builtCondition == nil || !builtCondition.isNotNil() {
+	if builtCondition == nil {
 		return MatchPhraseCreate(builder.optional, pattern, Where{})
 	}
 	return MatchPhraseCreate(builder.optional, pattern, WhereCreate(builtCondition))
diff --git a/order_builder.go b/order_builder.go
index bbc40d4..1304762 100644
--- a/order_builder.go
+++ b/order_builder.go
@@ -14,8 +14,15 @@ func OrderBuilderCreate() OrderBuilder {
 	}
 }
 
+// addSortItems adds to a list of its own, so that no other continuation of the same step sees the items.
+func (o *OrderBuilder) addSortItems(item ...SortItem) {
+	sortItems := make([]SortItem, 0, len(o.sortItemList)+len(item))
+	sortItems = append(sortItems, o.sortItemList...)
+	o.sortItemList = append(sortItems, item...)
+}
+
 func (o *OrderBuilder) OrderBySortItem(item ...SortItem) {
-	o.sortItemList = append(o.sortItemList, item...)
+	o.addSortItems(item...)
 }
 
 func (o *OrderBuilder) OrderByExpression(expression Expression) {
@@ -27,12 +34,12 @@ func (o *OrderBuilder) And(expression Expression) {
 }
 
 func (o *OrderBuilder) Descending() {
-	o.sortItemList = append(o.sortItemList, o.lastSortItem.Descending())
+	o.addSortItems(o.lastSortItem.Descending())
 	o.lastSortItem = SortItem{}
 }
 
 func (o *OrderBuilder) Ascending() {
-	o.sortItemList = append(o.sortItemList, o.lastSortItem.Ascending())
+	o.addSortItems(o.lastSortItem.Ascending())
 	o.lastSortItem = SortItem{}
 }
 
@@ -45,8 +52,9 @@ func (o *OrderBuilder) Limit(number int) {
 }
 
 func (o *OrderBuilder) BuildOrder() Order {
-	if o.lastSortItem.isNotNil() {
-		o.sortItemList = append(o.sortItemList, o.lastSortItem)
+	if o.lastSortItem.isNotNil() || o.lastSortItem.GetError() != nil {
+		o.addSortItems(o.lastSortItem)
+		o.lastSortItem = SortItem{}
 	}
 	if o.sortItemList != nil && len(o.sortItemList) > 0 {
 		return OrderCreate(o.sortItemList)
diff --git a/procedure_call.go b/procedure_call.go
index fe8fa7e..bac0996 100644
--- a/procedure_call.go
+++ b/procedure_call.go
@@ -131,6 +131,8 @@ type ProcedureCallBuilder interface {
 	ExposesReturning
 	BuildableStatement
 	isNotNil() bool
+	and(condition Condition) ProcedureCallBuilder
+	or(condition Condition) ProcedureCallBuilder
 }
 
 type StandaloneCallBuilder struct {
@@ -155,9 +157,27 @@ func StandaloneCallBuilderError(err error) StandaloneCallBuilder {
 	}
 }
 
+// pending returns a statement with this call as its current step.
+func (s StandaloneCallBuilder) pending() DefaultStatementBuilder {
+	if s.err != nil {
+		return DefaultStatementBuilderError(s.err)
+	}
+	return DefaultStatementBuilderCreate1(s)
+}
+
+func (s StandaloneCallBuilder) and(condition Condition) ProcedureCallBuilder {
+	s.conditionBuilder.And(condition)
+	return s
+}
+
+func (s StandaloneCallBuilder) or(condition Condition) ProcedureCallBuilder {
+	s.conditionBuilder.Or(condition)
+	return s
+}
+
 func (s StandaloneCallBuilder) Where(condition Condition) OngoingReadingWithWhere {
 	s.conditionBuilder.Where(condition)
-	return DefaultStatementBuilderCreate1(s)
+	return s.pending()
 }
 
 func (s StandaloneCallBuilder) WhereConditionContainer(container ConditionContainer) OngoingReadingWithWhere {
@@ -177,7 +197,7 @@ func (s StandaloneCallBuilder) ReturningByNamed(variables ...Named) OngoingReadi
 }
 
 func (s StandaloneCallBuilder) Returning(expression ...Expression) OngoingReadingAndReturn {
-	return DefaultStatementBuilderCreate1(s).Returning(expression...)
+	return s.pending().Returning(expression...)
 }
 
 func (s StandaloneCallBuilder) ReturningDistinctByString(variables ...string) OngoingReadingAndReturn {
@@ -189,10 +209,13 @@ func (s StandaloneCallBuilder) ReturningDistinctByNamed(variables ...Named) Ongo
 }
 
 func (s StandaloneCallBuilder) ReturningDistinct(expression ...Expression) OngoingReadingAndReturn {
-	return DefaultStatementBuilderCreate1(s).ReturningDistinct(expression...)
+	return s.pending().ReturningDistinct(expression...)
 }
 
 func (s StandaloneCallBuilder) Build() (Statement, error) {
+	if s.err != nil {
+		return nil, s.err
+	}
 	if s.procedureName.GetError() != nil {
 		return nil, s.procedureName.GetError()
 	}
@@ -207,14 +230,11 @@ func (s StandaloneCallBuilder) Build() (Statement, error) {
 		return nil, argumentsList.GetError()
 	}
 	condition := s.conditionBuilder.buildCondition()
-	if condition != nil && condition.isNotNil() {
-		if condition.GetError() != nil {
-			return nil, condition.GetError()
-		}
-		return ProcedureCallCreate(s.procedureName, argumentsList, s.yieldItems,
-			WhereCreate(condition)), nil
+	if condition != nil {
+		return builtStatement(ProcedureCallCreate(s.procedureName, argumentsList, s.yieldItems,
+			WhereCreate(condition)))
 	}
-	return ProcedureCallCreate(s.procedureName, argumentsList, s.yieldItems, Where{}), nil
+	return builtStatement(ProcedureCallCreate(s.procedureName, argumentsList, s.yieldItems, Where{}))
 }
 
 func (s StandaloneCallBuilder) isNotNil() bool {
@@ -222,6 +242,12 @@ func (s StandaloneCallBuilder) isNotNil() bool {
 }
 
 func (s StandaloneCallBuilder) AsFunction() Expression {
+	if s.err != nil {
+		return FunctionInvocationError(s.err)
+	}
+	if s.procedureName.GetError() != nil {
+		return FunctionInvocationError(s.procedureName.GetError())
+	}
 	return FunctionInvocationCreate(FunctionDefinitionDefault{s.procedureName.getQualifiedName()}, s.arguments...)
 }
 
@@ -265,7 +291,7 @@ func (s StandaloneCallBuilder) WithByNamed(variables ...Named) OrderableOngoingR
 }
 
 func (s StandaloneCallBuilder) With(expressions ...Expression) OrderableOngoingReadingAndWithWithoutWhere {
-	return DefaultStatementBuilderCreate1(s).With(expressions...)
+	return s.pending().With(expressions...)
 }
 
 func (s StandaloneCallBuilder) WithDistinctByString(variables ...string) OrderableOngoingReadingAndWithWithoutWhere {
@@ -277,9 +303,9 @@ func (s StandaloneCallBuilder) WithDistinctByNamed(variables ...Named) Orderable
 }
 
 func (s StandaloneCallBuilder) WithDistinct(expressions ...Expression) OrderableOngoingReadingAndWithWithoutWhere {
-	return DefaultStatementBuilderCreate1(s).WithDistinct(expressions...)
+	return s.pending().WithDistinct(expressions...)
 }
 
 func (s StandaloneCallBuilder) Call(statement Statement) OngoingReadingWithoutWhere {
-	return DefaultStatementBuilderCreate1(s).Call(statement)
+	return s.pending().Call(statement)
 }
diff --git a/updating_clause_builder.go b/updating_clause_builder.go
index 814f336..c177ebb 100644
--- a/updating_clause_builder.go
+++ b/updating_clause_builder.go
@@ -25,7 +25,9 @@ func (c MergeBuilder) on(mergeType MERGE_TYPE, expressions ...Expression) (Suppo
 		return MergeBuilder{}, err
 	}
 	expressionList := ExpressionListCreate(expression)
-	c.mergeActions = append(c.mergeActions, MergeActionCreate(mergeType, SetCreate(expressionList)))
+	mergeActions := make([]MergeAction, len(c.mergeActions), len(c.mergeActions)+1)
+	copy(mergeActions, c.mergeActions)
+	c.mergeActions = append(mergeActions, MergeActionCreate(mergeType, SetCreate(expressionList)))
 	return c, nil
 }
 
diff --git a/with.go b/with.go
index e321cf8..d9680b2 100644
--- a/with.go
+++ b/with.go
@@ -11,19 +11,19 @@ type with struct {
 
 func withCreate(distinct bool, returnItems ExpressionList, order Order, skip Skip, limit Limit, where Where) with {
 	if returnItems.GetError() != nil {
-		withError(returnItems.GetError())
+		return withError(returnItems.GetError())
 	}
 	if order.GetError() != nil {
-		withError(order.GetError())
+		return withError(order.GetError())
 	}
 	if skip.GetError() != nil {
-		withError(skip.GetError())
+		return withError(skip.GetError())
 	}
 	if limit.GetError() != nil {
-		withError(limit.GetError())
+		return withError(limit.GetError())
 	}
 	if where.GetError() != nil {
-		withError(where.GetError())
+		return withError(where.GetError())
 	}
 	distinctInstance := Distinct{}
 	if distinct {
-- 
2.43.0


From 1d9caf82d66fd7b907a544216b581667b690b375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:37 +0000
Subject: [PATCH 08/26] fix: combining conditions never changes the combined
 conditions or their grouping

---
 compound_condition.go | 80 ++++++++++++++++++++++++++++++-------------
 1 file changed, 57 insertions(+), 23 deletions(-)

diff --git a/compound_condition.go b/compound_condition.go
index 3ccfc08..5732c43 100644
--- a/compound_condition.go
+++ b/compound_condition.go
@@ -44,11 +44,7 @@ func CompoundConditionCreate(left Condition, operator Operator, right Condition)
 		return CompoundConditionError(errors.New("right hand side condition is required"))
 	}
 	condition := CompoundCondition{operator: operator, notNil: true}
-	condition.add(operator, left)
-	condition.add(operator, right)
-	condition.injectKey()
-	condition.ConditionContainer = ConditionWrap(condition)
-	return condition
+	return condition.add(operator, left).add(operator, right)
 }
 
 func CompoundConditionCreate1(operator Operator) CompoundCondition {
@@ -140,17 +136,34 @@ func (c *CompoundCondition) injectKey() {
 	c.key = getAddress(c)
 }
 
-var EMPTY_CONDITION = CompoundCondition{
-	conditions:    make([]Condition, 0),
-	conditionType: EMPTY_CONDITION_EXPRESSION,
-	notNil:        true,
+// with returns a condition of its own, having the additional conditions.
+func (c CompoundCondition) with(additional ...Condition) CompoundCondition {
+	conditions := make([]Condition, 0, len(c.conditions)+len(additional))
+	conditions = append(conditions, c.conditions...)
+	c.conditions = append(conditions, additional...)
+	c.injectKey()
+	c.ConditionContainer = ConditionWrap(c)
+	return c
+}
+
+func emptyCondition() CompoundCondition {
+	condition := CompoundCondition{
+		conditions:    make([]Condition, 0),
+		conditionType: EMPTY_CONDITION_EXPRESSION,
+		notNil:        true,
+	}
+	condition.injectKey()
+	condition.ConditionContainer = ConditionWrap(condition)
+	return condition
 }
 
+var EMPTY_CONDITION = emptyCondition()
+
 var VALID_OPERATORS = []Operator{AND, OR, XOR}
 
-func (c *CompoundCondition) add(chainingOperator Operator, condition Condition) CompoundCondition {
+func (c CompoundCondition) add(chainingOperator Operator, condition Condition) CompoundCondition {
 	if c.GetError() != nil {
-		return *c
+		return c
 	}
 	if condition != nil && condition.GetError() != nil {
 		return CompoundConditionError(condition.GetError())
@@ -164,27 +177,24 @@ func (c *CompoundCondition) add(chainingOperator Operator, condition Condition)
 	}
 	if compoundCondition, isCompound := condition.(CompoundCondition); isCompound {
 		if !compoundCondition.hasCondition() {
-			return *c
+			return c
 		}
 		if c.operator == chainingOperator && chainingOperator == compoundCondition.operator {
 			if compoundCondition.canBeFlattenedWith(chainingOperator) {
-				c.conditions = append(c.conditions, compoundCondition.conditions...)
-			} else {
-				c.conditions = append(c.conditions, compoundCondition)
+				return c.with(compoundCondition.conditions...)
 			}
-		} else {
-			inner := CompoundConditionCreate1(chainingOperator)
-			inner.conditions = append(inner.conditions, compoundCondition)
-			c.conditions = append(c.conditions, inner)
+			return c.with(compoundCondition)
 		}
-		return *c
+		if c.bindsLooserThan(chainingOperator) {
+			c = CompoundConditionCreate1(chainingOperator).with(c)
+		}
+		return c.with(CompoundConditionCreate1(chainingOperator).with(compoundCondition))
 	}
 
 	if c.operator == chainingOperator {
-		c.conditions = append(c.conditions, condition)
-		return *c
+		return c.with(condition)
 	}
-	return CompoundConditionCreate(*c, chainingOperator, condition)
+	return CompoundConditionCreate(c, chainingOperator, condition)
 }
 
 func (c CompoundCondition) hasCondition() bool {
@@ -192,6 +202,30 @@ func (c CompoundCondition) hasCondition() bool {
 		len(c.conditions) == 0)
 }
 
+// bindsLooserThan tells whether the conditions are joined by an operator that binds looser than the given one,
+// so that they need to be nested before being joined with it.
+func (c CompoundCondition) bindsLooserThan(operator Operator) bool {
+	for i, condition := range c.conditions {
+		actualOperator := c.operator
+		if compound, isCompound := condition.(CompoundCondition); isCompound {
+			actualOperator = compound.operator
+		}
+		if i > 0 && precedenceOf(actualOperator) > precedenceOf(operator) {
+			return true
+		}
+	}
+	return false
+}
+
+func precedenceOf(operator Operator) int {
+	for i, validOperator := range []Operator{AND, XOR, OR} {
+		if validOperator == operator {
+			return i
+		}
+	}
+	return 0
+}
+
 func (c CompoundCondition) canBeFlattenedWith(operatorBefore Operator) bool {
 	for _, c := range c.conditions {
 		if compound, isCompound := c.(CompoundCondition); isCompound && compound.operator != operatorBefore {
-- 
2.43.0


From 5f08154d01fe5e0d83d55dab03ed398cbb975bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:42 +0000
Subject: [PATCH 09/26] fix: function helpers call the function they name and
 reject missing arguments

---
 function_invocation.go | 38 +++++++++++++++++++-------------------
 functions.go           | 34 +++++++++++++++++-----------------
 2 files changed, 36 insertions(+), 36 deletions(-)

diff --git a/function_invocation.go b/function_invocation.go
index 2509924..1f3335d 100644
--- a/function_invocation.go
+++ b/function_invocation.go
@@ -14,16 +14,12 @@ type FunctionInvocation struct {
 }
 
 func FunctionInvocationCreate1(definition FunctionDefinition) FunctionInvocation {
-	return FunctionInvocationCreateWithFunctionName(definition.getImplementationName(), nil)
+	return FunctionInvocationCreateWithFunctionName(definition.getImplementationName())
 }
 
 func FunctionInvocationCreateWithFunctionName(functionName string, arguments ...Expression) FunctionInvocation {
-	if arguments != nil {
-		for _, expression := range arguments {
-			if expression.GetError() != nil {
-				return FunctionInvocationError(expression.GetError())
-			}
-		}
+	if err := errorOfArguments(functionName, arguments); err != nil {
+		return FunctionInvocationError(err)
 	}
 	argumentVisitables := make([]Visitable, len(arguments))
 	for i := range arguments {
@@ -40,12 +36,8 @@ func FunctionInvocationCreateWithFunctionName(functionName string, arguments ...
 }
 
 func FunctionInvocationCreate(definition FunctionDefinition, expressions ...Expression) FunctionInvocation {
-	if expressions != nil {
-		for _, expression := range expressions {
-			if expression.GetError() != nil {
-				return FunctionInvocationError(expression.GetError())
-			}
-		}
+	if err := errorOfArguments(definition.getImplementationName(), expressions); err != nil {
+		return FunctionInvocationError(err)
 	}
 	if len(expressions) == 0 || expressions[0] == nil || !expressions[0].isNotNil() {
 		return FunctionInvocationError(errors.Errorf("function invocation create: expression for %s is required", definition.getImplementationName()))
@@ -105,12 +97,8 @@ func FunctionInvocationCreateWithPattern(definition FunctionDefinition, pattern
 }
 
 func FunctionInvocationCreateDistinct(definition FunctionDefinition, expressions ...Expression) FunctionInvocation {
-	if expressions != nil {
-		for _, expression := range expressions {
-			if expression.GetError() != nil {
-				return FunctionInvocationError(expression.GetError())
-			}
-		}
+	if err := errorOfArguments(definition.getImplementationName(), expressions); err != nil {
+		return FunctionInvocationError(err)
 	}
 	if !definition.isAggregate() {
 		return FunctionInvocationError(errors.New("the distinct operator can only be applied within aggregate functions"))
@@ -133,6 +121,18 @@ func FunctionInvocationCreateDistinct(definition FunctionDefinition, expressions
 	return f
 }
 
+func errorOfArguments(functionName string, arguments []Expression) error {
+	for _, argument := range arguments {
+		if argument != nil && argument.GetError() != nil {
+			return argument.GetError()
+		}
+		if argument == nil || !argument.isNotNil() {
+			return errors.Errorf("every argument of %s is required", functionName)
+		}
+	}
+	return nil
+}
+
 func FunctionInvocationError(err error) FunctionInvocation {
 	e := FunctionInvocation{err: err}
 	e.ExpressionContainer = ExpressionWrap(e)
diff --git a/functions.go b/functions.go
index 1f4217e..57a725d 100644
--- a/functions.go
+++ b/functions.go
@@ -194,7 +194,7 @@ func CollectDistinct(expression Expression) FunctionInvocation {
 	if expression != nil && expression.GetError() != nil {
 		return FunctionInvocationError(expression.GetError())
 	}
-	return FunctionInvocationCreateDistinct(AVG, expression)
+	return FunctionInvocationCreateDistinct(COLLECT, expression)
 }
 
 /**
@@ -715,10 +715,10 @@ func DateWithTemporal(temporalValue string) FunctionInvocation {
  * @since 2020.1.0
  */
 func DateWithExpression(temporalValue Expression) FunctionInvocation {
-	if temporalValue.GetError() != nil {
+	if temporalValue != nil && temporalValue.GetError() != nil {
 		return FunctionInvocationError(temporalValue.GetError())
 	}
-	if !temporalValue.isNotNil() {
+	if temporalValue == nil || !temporalValue.isNotNil() {
 		return FunctionInvocationError(errors.New("functions date with temporalValue :temporalValue is required"))
 	}
 	return FunctionInvocationCreate(DATE, temporalValue)
@@ -732,7 +732,7 @@ func DateWithExpression(temporalValue Expression) FunctionInvocation {
  * @since 2020.1.0
  */
 func Datetime() FunctionInvocation {
-	return FunctionInvocationCreate(DATETIME)
+	return FunctionInvocationCreate1(DATETIME)
 }
 
 /**
@@ -780,10 +780,10 @@ func DateTimeWithTemporal(temporalValue string) FunctionInvocation {
  * @since 2020.1.0
  */
 func DateTimeWithExpression(temporalValue Expression) FunctionInvocation {
-	if temporalValue.GetError() != nil {
+	if temporalValue != nil && temporalValue.GetError() != nil {
 		return FunctionInvocationError(temporalValue.GetError())
 	}
-	if !temporalValue.isNotNil() {
+	if temporalValue == nil || !temporalValue.isNotNil() {
 		return FunctionInvocationError(errors.New("functions datetime with temporalValue :temporalValue is required"))
 	}
 	return FunctionInvocationCreate(DATETIME, temporalValue)
@@ -797,7 +797,7 @@ func DateTimeWithExpression(temporalValue Expression) FunctionInvocation {
  * @since 2020.1.0
  */
 func LocalDatetime() FunctionInvocation {
-	return FunctionInvocationCreate(LOCALDATETIME)
+	return FunctionInvocationCreate1(LOCALDATETIME)
 }
 
 /**
@@ -860,10 +860,10 @@ func LocalDateTimeWithTemporal(temporalValue string) FunctionInvocation {
  * @since 2020.1.0
  */
 func LocalDateTimeWithExpression(temporalValue Expression) FunctionInvocation {
-	if temporalValue.GetError() != nil {
+	if temporalValue != nil && temporalValue.GetError() != nil {
 		return FunctionInvocationError(temporalValue.GetError())
 	}
-	if !temporalValue.isNotNil() {
+	if temporalValue == nil || !temporalValue.isNotNil() {
 		return FunctionInvocationError(errors.New("functions localdatetime with temporalValue :temporalValue is required"))
 	}
 	return FunctionInvocationCreate(LOCALDATETIME, temporalValue)
@@ -877,7 +877,7 @@ func LocalDateTimeWithExpression(temporalValue Expression) FunctionInvocation {
  * @since 2020.1.0
  */
 func Localtime() FunctionInvocation {
-	return FunctionInvocationCreate(LOCALTIME)
+	return FunctionInvocationCreate1(LOCALTIME)
 }
 
 /**
@@ -939,10 +939,10 @@ func LocalTimeWithTemporal(temporalValue string) FunctionInvocation {
  * @since 2020.1.0
  */
 func LocalTimeWithExpression(temporalValue Expression) FunctionInvocation {
-	if temporalValue.GetError() != nil {
+	if temporalValue != nil && temporalValue.GetError() != nil {
 		return FunctionInvocationError(temporalValue.GetError())
 	}
-	if !temporalValue.isNotNil() {
+	if temporalValue == nil || !temporalValue.isNotNil() {
 		return FunctionInvocationError(errors.New("functions localtime with temporalValue :temporalValue is required"))
 	}
 	return FunctionInvocationCreate(LOCALTIME, temporalValue)
@@ -956,7 +956,7 @@ func LocalTimeWithExpression(temporalValue Expression) FunctionInvocation {
  * @since 2020.1.0
  */
 func Time() FunctionInvocation {
-	return FunctionInvocationCreate(TIME)
+	return FunctionInvocationCreate1(TIME)
 }
 
 /**
@@ -1019,10 +1019,10 @@ func TimeWithTemporal(temporalValue string) FunctionInvocation {
  * @since 2020.1.0
  */
 func TimeWithExpression(temporalValue Expression) FunctionInvocation {
-	if temporalValue.GetError() != nil {
+	if temporalValue != nil && temporalValue.GetError() != nil {
 		return FunctionInvocationError(temporalValue.GetError())
 	}
-	if !temporalValue.isNotNil() {
+	if temporalValue == nil || !temporalValue.isNotNil() {
 		return FunctionInvocationError(errors.New("functions time with temporalValue :temporalValue is required"))
 	}
 	return FunctionInvocationCreate(TIME, temporalValue)
@@ -1073,10 +1073,10 @@ func DurationWithTemporal(temporalAmount string) FunctionInvocation {
  * @since 2020.1.0
  */
 func DurationWithExpression(temporalAmount Expression) FunctionInvocation {
-	if temporalAmount.GetError() != nil {
+	if temporalAmount != nil && temporalAmount.GetError() != nil {
 		return FunctionInvocationError(temporalAmount.GetError())
 	}
-	if !temporalAmount.isNotNil() {
+	if temporalAmount == nil || !temporalAmount.isNotNil() {
 		return FunctionInvocationError(errors.New("functions duration with temporalAmount :temporalAmount is required"))
 	}
 	return FunctionInvocationCreate(DURATION, temporalAmount)
-- 
2.43.0


From f1a64b1e97049c16d5f3058f4df3a168bcaf7858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:49 +0000
Subject: [PATCH 10/26] fix: procedure names keep their namespace

---
 cypher.go         |  2 +-
 procedure_call.go |  2 +-
 procedure_name.go | 24 +++++++++++++++++-------
 3 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/cypher.go b/cypher.go
index 959ad46..db3b6ce 100644
--- a/cypher.go
+++ b/cypher.go
@@ -424,7 +424,7 @@ func ACallSimple(procedureName string) OngoingStandaloneCallWithoutArguments {
 	if procedureName == "" {
 		return StandaloneCallBuilderError(errors.New("the procedure name must not be nil or empty"))
 	}
-	return ACall(strings.Split(procedureName, "\\.")...)
+	return ACall(strings.Split(procedureName, ".")...)
 }
 
 /**
diff --git a/procedure_call.go b/procedure_call.go
index bac0996..c97ea3d 100644
--- a/procedure_call.go
+++ b/procedure_call.go
@@ -248,7 +248,7 @@ func (s StandaloneCallBuilder) AsFunction() Expression {
 	if s.procedureName.GetError() != nil {
 		return FunctionInvocationError(s.procedureName.GetError())
 	}
-	return FunctionInvocationCreate(FunctionDefinitionDefault{s.procedureName.getQualifiedName()}, s.arguments...)
+	return FunctionInvocationCreateWithFunctionName(s.procedureName.getQualifiedName(), s.arguments...)
 }
 
 func (s StandaloneCallBuilder) WithArgs(arguments ...Expression) OngoingStandaloneCallWithoutArguments {
diff --git a/procedure_name.go b/procedure_name.go
index 9cd37e3..6e17470 100644
--- a/procedure_name.go
+++ b/procedure_name.go
@@ -1,6 +1,7 @@
 package cypher
 
 import (
+	"errors"
 	"strings"
 )
 
@@ -13,12 +14,19 @@ type ProcedureName struct {
 }
 
 func ProcedureNameCreate(namespaceAndProcedure ...string) ProcedureName {
-	if len(namespaceAndProcedure) == 1 {
+	for _, part := range namespaceAndProcedure {
+		if part == "" {
+			return ProcedureName{err: errors.New("the parts of a procedure name must not be empty")}
+		}
+	}
+	if len(namespaceAndProcedure) == 0 {
+		return ProcedureName{err: errors.New("the name of the procedure is required")}
+	} else if len(namespaceAndProcedure) == 1 {
 		return ProcedureNameCreate1(namespaceAndProcedure[0])
 	} else {
-		values := make([]string, 0)
 		inputLength := len(namespaceAndProcedure)
-		copy(values, namespaceAndProcedure[1:inputLength-1])
+		values := make([]string, inputLength-1)
+		copy(values, namespaceAndProcedure[:inputLength-1])
 		namespace := NameSpaceCreate(values)
 		return ProcedureNameCreate2(namespace, namespaceAndProcedure[inputLength-1])
 	}
@@ -47,11 +55,10 @@ func ProcedureNameCreate2(namespace Namespace, value string) ProcedureName {
 }
 
 func (p ProcedureName) getQualifiedName() string {
-	namespace := ""
 	if p.optionalNamespace.isNotNil() {
-		namespace = strings.Join(p.optionalNamespace.content[:], ".")
+		return strings.Join(p.optionalNamespace.content[:], ".") + "." + p.value
 	}
-	return namespace + "." + p.value
+	return p.value
 }
 
 func (p ProcedureName) GetError() error {
@@ -60,7 +67,10 @@ func (p ProcedureName) GetError() error {
 
 func (p ProcedureName) accept(visitor *CypherRenderer) {
 	visitor.enter(p)
-	VisitIfNotNull(p.optionalNamespace, visitor)
+	if p.optionalNamespace.isNotNil() {
+		p.optionalNamespace.accept(visitor)
+		visitor.append(".")
+	}
 	visitor.leave(p)
 }
 
-- 
2.43.0


From d7b07b0863a7b9b10f1455e10cac8dde1e34774b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:03 +0000
Subject: [PATCH 11/26] fix: maps, lists, lookups and unions are present when
 valid and report missing parts

---
 cypher.go              |  8 ++++++++
 entry_expression.go    | 15 ++++++++++++---
 key_value_map_entry.go |  6 ++++++
 list_literal.go        | 10 ++++++++--
 map_expression.go      | 10 ++++++++++
 multi_part_query.go    |  1 +
 property_lookup.go     | 12 ++++++++++++
 7 files changed, 57 insertions(+), 5 deletions(-)

diff --git a/cypher.go b/cypher.go
index db3b6ce..7f42a83 100644
--- a/cypher.go
+++ b/cypher.go
@@ -562,6 +562,14 @@ func unionImpl(unionAll bool, statements ...Statement) Statement {
 	if statements == nil || len(statements) < 2 {
 		return UnionQueryError(errors.New("at least 2 statements are required"))
 	}
+	for _, statement := range statements {
+		if statement != nil && statement.GetError() != nil {
+			return UnionQueryError(statement.GetError())
+		}
+		if statement == nil || !statement.isNotNil() {
+			return UnionQueryError(errors.New("all statements of an union are required"))
+		}
+	}
 	i := 0
 	existingUnionQuery := UnionQuery{}
 	if unionQuery, isUnion := statements[0].(UnionQuery); isUnion {
diff --git a/entry_expression.go b/entry_expression.go
index ee0db5b..0287aac 100644
--- a/entry_expression.go
+++ b/entry_expression.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type EntryExpression struct {
 	ExpressionContainer
 	Key    string
@@ -11,9 +13,10 @@ type EntryExpression struct {
 
 func EntryExpressionCreate(key string, value Expression) EntryExpression {
 	if value != nil && value.GetError() != nil {
-		return EntryExpression{
-			err: value.GetError(),
-		}
+		return EntryExpressionError(value.GetError())
+	}
+	if key == "" || value == nil || !value.isNotNil() {
+		return EntryExpressionError(errors.New("the key and the value of a map entry are required"))
 	}
 	e := EntryExpression{
 		Value:  value,
@@ -25,6 +28,12 @@ func EntryExpressionCreate(key string, value Expression) EntryExpression {
 	return e
 }
 
+func EntryExpressionError(err error) EntryExpression {
+	e := EntryExpression{err: err}
+	e.ExpressionContainer = ExpressionWrap(e)
+	return e
+}
+
 func (e EntryExpression) GetError() error {
 	return e.err
 }
diff --git a/key_value_map_entry.go b/key_value_map_entry.go
index 663cf28..07d9166 100644
--- a/key_value_map_entry.go
+++ b/key_value_map_entry.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type KeyValueMapEntry struct {
 	ExpressionContainer
 	entryKey string
@@ -13,9 +15,13 @@ func KeyValueMapEntryCreate(key string, value Expression) KeyValueMapEntry {
 	if value != nil && value.GetError() != nil {
 		return KeyValueMapEntryError(value.GetError())
 	}
+	if key == "" || value == nil || !value.isNotNil() {
+		return KeyValueMapEntryError(errors.New("the key and the value of a map entry are required"))
+	}
 	entry := KeyValueMapEntry{
 		entryKey: key,
 		value:    value,
+		notNil:   true,
 	}
 	entry.key = getAddress(&entry)
 	entry.ExpressionContainer = ExpressionWrap(entry)
diff --git a/list_literal.go b/list_literal.go
index e9e69df..a1907f5 100644
--- a/list_literal.go
+++ b/list_literal.go
@@ -1,6 +1,9 @@
 package cypher
 
-import "strings"
+import (
+	"errors"
+	"strings"
+)
 
 type ListLiteral struct {
 	ExpressionContainer
@@ -15,13 +18,16 @@ func ListLiteralCreate(contents []Literal) ListLiteral {
 		if content != nil && content.GetError() != nil {
 			return ListLiteralError(content.GetError())
 		}
+		if content == nil || !content.isNotNil() {
+			return ListLiteralError(errors.New("every entry of a list is required"))
+		}
 	}
 	list := ListLiteral{
 		content: contents,
+		notNil:  true,
 	}
 	list.key = getAddress(&list)
 	list.ExpressionContainer = ExpressionWrap(list)
-	list.notNil = true
 	return list
 }
 
diff --git a/map_expression.go b/map_expression.go
index 8ff9d43..133a297 100644
--- a/map_expression.go
+++ b/map_expression.go
@@ -13,10 +13,20 @@ type MapExpression struct {
 }
 
 func MapExpressionCreate(newContents []Expression) MapExpression {
+	knownKeys := make(map[string]bool)
 	for _, content := range newContents {
 		if content != nil && content.GetError() != nil {
 			return MapExpressionError(content.GetError())
 		}
+		if content == nil || !content.isNotNil() {
+			return MapExpressionError(errors.Errorf("every entry of a map is required"))
+		}
+		if entry, isEntry := content.(EntryExpression); isEntry {
+			if knownKeys[entry.Key] {
+				return MapExpressionError(errors.Errorf("duplicate key"))
+			}
+			knownKeys[entry.Key] = true
+		}
 	}
 	m := MapExpression{
 		expressions: newContents,
diff --git a/multi_part_query.go b/multi_part_query.go
index 9772a66..532fa22 100644
--- a/multi_part_query.go
+++ b/multi_part_query.go
@@ -20,6 +20,7 @@ func MultiPartQueryCreate(parts []MultiPartElement, remainder SinglePartQuery) M
 	m := MultiPartQuery{
 		parts:     parts,
 		remainder: remainder,
+		notNil:    true,
 	}
 	m.key = getAddress(&m)
 	return m
diff --git a/property_lookup.go b/property_lookup.go
index b154772..560bcda 100644
--- a/property_lookup.go
+++ b/property_lookup.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type PropertyLookup struct {
 	ExpressionContainer
 	propertyKeyName string
@@ -9,14 +11,24 @@ type PropertyLookup struct {
 }
 
 func PropertyLookupCreate(name string) PropertyLookup {
+	if name == "" {
+		return PropertyLookupError(errors.New("the name of a property is required"))
+	}
 	property := PropertyLookup{
 		propertyKeyName: name,
+		notNil:          true,
 	}
 	property.key = getAddress(&property)
 	property.ExpressionContainer = ExpressionWrap(property)
 	return property
 }
 
+func PropertyLookupError(err error) PropertyLookup {
+	e := PropertyLookup{err: err}
+	e.ExpressionContainer = ExpressionWrap(e)
+	return e
+}
+
 func (p PropertyLookup) GetError() error {
 	return p.err
 }
-- 
2.43.0


From 0847b54c0e5b23ca4abd270ec5a6425a86aa0e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:52 +0000
Subject: [PATCH 12/26] fix: clauses and elements report missing operands

---
 arguments.go                      |  5 +++++
 delete.go                         |  5 +++++
 distinct_expression.go            |  5 +++++
 excluded_pattern.go               |  7 ++++++-
 expression_list.go                |  5 +++++
 expressions.go                    | 12 +++++++-----
 name_path.go                      |  6 ++++++
 nested_expression.go              |  5 +++++
 pattern.go                        |  8 ++++++++
 property.go                       |  3 +++
 relationship_pattern_condition.go |  7 ++++++-
 remove.go                         |  5 +++++
 return_body.go                    |  5 +++++
 set.go                            |  5 +++++
 sort_item.go                      |  5 +++++
 unwind.go                         |  7 ++++++-
 with.go                           |  5 +++++
 yield_items.go                    |  5 ++++-
 18 files changed, 96 insertions(+), 9 deletions(-)

diff --git a/arguments.go b/arguments.go
index 637b22d..b285c6a 100644
--- a/arguments.go
+++ b/arguments.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type Arguments struct {
 	expressions []Expression
 	key         string
@@ -12,6 +14,9 @@ func ArgumentsCreate(expression []Expression) Arguments {
 		if expr != nil && expr.GetError() != nil {
 			return Arguments{err: expr.GetError()}
 		}
+		if expr == nil || !expr.isNotNil() {
+			return Arguments{err: errors.New("every argument is required")}
+		}
 	}
 	a := Arguments{
 		expressions: expression,
diff --git a/delete.go b/delete.go
index 558e14a..0c5cc09 100644
--- a/delete.go
+++ b/delete.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type Delete struct {
 	deleteItems ExpressionList
 	detach      bool
@@ -12,6 +14,9 @@ func DeleteCreate(deleteItems ExpressionList, detach bool) Delete {
 	if deleteItems.GetError() != nil {
 		return DeleteError(deleteItems.GetError())
 	}
+	if len(deleteItems.expressions) == 0 {
+		return DeleteError(errors.New("at least one expression to delete is required"))
+	}
 	d := Delete{
 		deleteItems: deleteItems,
 		detach:      detach,
diff --git a/distinct_expression.go b/distinct_expression.go
index af1a3d3..da6488c 100644
--- a/distinct_expression.go
+++ b/distinct_expression.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type DistinctExpression struct {
 	ExpressionContainer
 	delegate Expression
@@ -12,6 +14,9 @@ func DistinctExpressionCreate(delegate Expression) DistinctExpression {
 	if delegate != nil && delegate.GetError() != nil {
 		return DistinctExpressionError(delegate.GetError())
 	}
+	if delegate == nil || !delegate.isNotNil() {
+		return DistinctExpressionError(errors.New("the distinct expression is required"))
+	}
 	d := DistinctExpression{
 		delegate: delegate,
 		notNil:   true,
diff --git a/excluded_pattern.go b/excluded_pattern.go
index 0a69614..d520a68 100644
--- a/excluded_pattern.go
+++ b/excluded_pattern.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type ExcludedPattern struct {
 	ConditionContainer
 	patternElement PatternElement
@@ -9,9 +11,12 @@ type ExcludedPattern struct {
 }
 
 func ExcludedPatternCreate(patternElement PatternElement) ExcludedPattern {
-	if patternElement.GetError() != nil {
+	if patternElement != nil && patternElement.GetError() != nil {
 		return ExcludedPatternError(patternElement.GetError())
 	}
+	if patternElement == nil || !patternElement.isNotNil() {
+		return ExcludedPatternError(errors.New("a pattern is required"))
+	}
 	e := ExcludedPattern{
 		patternElement: patternElement,
 		notNil:         true,
diff --git a/expression_list.go b/expression_list.go
index 9351c7a..522b77b 100644
--- a/expression_list.go
+++ b/expression_list.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type ExpressionList struct {
 	ExpressionContainer
 	expressions []Expression
@@ -13,6 +15,9 @@ func ExpressionListCreate(expressions []Expression) ExpressionList {
 		if expression != nil && expression.GetError() != nil {
 			return ExpressionListError(expression.GetError())
 		}
+		if expression == nil || !expression.isNotNil() {
+			return ExpressionListError(errors.New("every expression of a list is required"))
+		}
 	}
 	e := ExpressionList{
 		expressions: expressions,
diff --git a/expressions.go b/expressions.go
index b2ebc61..a89eaed 100644
--- a/expressions.go
+++ b/expressions.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 func NameOrExpression(expression Expression) Expression {
 	if expression != nil && expression.GetError() != nil {
 		return expression
@@ -14,11 +16,13 @@ func NameOrExpression(expression Expression) Expression {
 func CreateSymbolicNameByNamed(nameds ...Named) []Expression {
 	expressions := make([]Expression, 0)
 	for _, named := range nameds {
-		if named != nil {
+		if named == nil {
+			expressions = append(expressions, SymbolicNameError(errors.New("a named element is required")))
+		} else {
 			if named.GetError() != nil {
 				return []Expression{SymbolicNameError(named.GetError())}
 			}
-			expressions = append(expressions, named.GetSymbolicName())
+			expressions = append(expressions, named.GetRequiredSymbolicName())
 		}
 	}
 	return expressions
@@ -26,9 +30,7 @@ func CreateSymbolicNameByNamed(nameds ...Named) []Expression {
 func CreateSymbolicNameByString(args ...string) []Expression {
 	expressions := make([]Expression, 0)
 	for _, arg := range args {
-		if arg != "" {
-			expressions = append(expressions, SymbolicNameCreate(arg))
-		}
+		expressions = append(expressions, SymbolicNameCreate(arg))
 	}
 	return expressions
 }
diff --git a/name_path.go b/name_path.go
index 0f5af0e..f797d87 100644
--- a/name_path.go
+++ b/name_path.go
@@ -17,6 +17,9 @@ func NamedPathCreate(name SymbolicName, pattern RelationshipPattern) NamedPath {
 	if pattern != nil && pattern.GetError() != nil {
 		return NamedPathError(pattern.GetError())
 	}
+	if pattern == nil || !pattern.isNotNil() || !name.isNotNil() {
+		return NamedPathError(errors.New("the name and the pattern of a path are required"))
+	}
 	n := NamedPath{name: name, pattern: pattern, notNil: true}
 	n.key = getAddress(&n)
 	return n
@@ -29,6 +32,9 @@ func NamedPathCreate1(name SymbolicName, algorithm FunctionInvocation) NamedPath
 	if algorithm.GetError() != nil {
 		return NamedPathError(algorithm.GetError())
 	}
+	if !algorithm.isNotNil() || !name.isNotNil() {
+		return NamedPathError(errors.New("the name and the pattern of a path are required"))
+	}
 	n := NamedPath{name: name, pattern: algorithm, notNil: true}
 	n.key = getAddress(&n)
 	return n
diff --git a/nested_expression.go b/nested_expression.go
index afc9b2e..6eb2c22 100644
--- a/nested_expression.go
+++ b/nested_expression.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type NestedExpression struct {
 	ExpressionContainer
 	delegate Expression
@@ -12,6 +14,9 @@ func NestedExpressionCreate(delegate Expression) NestedExpression {
 	if delegate != nil && delegate.GetError() != nil {
 		return NestedExpressionError(delegate.GetError())
 	}
+	if delegate == nil || !delegate.isNotNil() {
+		return NestedExpressionError(errors.New("the expression to nest is required"))
+	}
 	nested := NestedExpression{
 		delegate: delegate,
 		notNil:   true,
diff --git a/pattern.go b/pattern.go
index dcc9396..455241d 100644
--- a/pattern.go
+++ b/pattern.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type Pattern struct {
 	patternElements []PatternElement
 	key             string
@@ -12,6 +14,12 @@ func PatternCreate(patternElements []PatternElement) Pattern {
 		if element != nil && element.GetError() != nil {
 			return Pattern{err: element.GetError()}
 		}
+		if element == nil || !element.isNotNil() {
+			return Pattern{err: errors.New("every element of a pattern is required")}
+		}
+	}
+	if len(patternElements) == 0 {
+		return Pattern{err: errors.New("a pattern needs at least one element")}
 	}
 	p := Pattern{
 		patternElements: patternElements,
diff --git a/property.go b/property.go
index 735bdae..4beef2e 100644
--- a/property.go
+++ b/property.go
@@ -48,6 +48,9 @@ func PropertyCreate1(container Expression, name PropertyLookup) Property {
 	if name.GetError() != nil {
 		return PropertyError(name.GetError())
 	}
+	if container == nil || !container.isNotNil() || !name.isNotNil() {
+		return PropertyError(errors.New("the container and the name of a property are required"))
+	}
 	property := Property{
 		container: container,
 		name:      name,
diff --git a/relationship_pattern_condition.go b/relationship_pattern_condition.go
index 1a3a988..7a2689e 100644
--- a/relationship_pattern_condition.go
+++ b/relationship_pattern_condition.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type RelationshipPatternCondition struct {
 	ConditionContainer
 	pathPattern RelationshipPattern
@@ -9,9 +11,12 @@ type RelationshipPatternCondition struct {
 }
 
 func RelationshipPatternConditionCreate(pathPattern RelationshipPattern) RelationshipPatternCondition {
-	if pathPattern.GetError() != nil {
+	if pathPattern != nil && pathPattern.GetError() != nil {
 		return RelationshipPatternConditionError(pathPattern.GetError())
 	}
+	if pathPattern == nil || !pathPattern.isNotNil() {
+		return RelationshipPatternConditionError(errors.New("a pattern is required"))
+	}
 	r := RelationshipPatternCondition{
 		pathPattern: pathPattern,
 		notNil:      true,
diff --git a/remove.go b/remove.go
index 29a8131..a4a7a91 100644
--- a/remove.go
+++ b/remove.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type Remove struct {
 	setItems ExpressionList
 	key      string
@@ -11,6 +13,9 @@ func RemoveCreate(setItems ExpressionList) Remove {
 	if setItems.GetError() != nil {
 		return RemoveError(setItems.GetError())
 	}
+	if len(setItems.expressions) == 0 {
+		return RemoveError(errors.New("at least one expression to remove is required"))
+	}
 	r := Remove{
 		setItems: setItems,
 		notNil:   true,
diff --git a/return_body.go b/return_body.go
index e8d89fa..cae4f0e 100644
--- a/return_body.go
+++ b/return_body.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type ReturnBody struct {
 	returnItems ExpressionList
 	order       Order
@@ -14,6 +16,9 @@ func ReturnBodyCreate(returnItems ExpressionList, order Order, skip Skip, limit
 	if returnItems.GetError() != nil {
 		return ReturnBodyError(returnItems.GetError())
 	}
+	if len(returnItems.expressions) == 0 {
+		return ReturnBodyError(errors.New("at least one expression is required"))
+	}
 	if order.GetError() != nil {
 		return ReturnBodyError(order.GetError())
 	}
diff --git a/set.go b/set.go
index 5257ad7..394f497 100644
--- a/set.go
+++ b/set.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type Set struct {
 	setItems ExpressionList
 	key      string
@@ -11,6 +13,9 @@ func SetCreate(setItems ExpressionList) Set {
 	if setItems.GetError() != nil {
 		return SetError(setItems.GetError())
 	}
+	if len(setItems.expressions) == 0 {
+		return SetError(errors.New("at least one expression to set is required"))
+	}
 	set := Set{
 		setItems: setItems,
 		notNil:   true,
diff --git a/sort_item.go b/sort_item.go
index f3108de..fe79878 100644
--- a/sort_item.go
+++ b/sort_item.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type SortItem struct {
 	expression Expression
 	direction  SortDirection
@@ -12,6 +14,9 @@ func SortItemCreate(expression Expression, direction SortDirectionRaw) SortItem
 	if expression != nil && expression.GetError() != nil {
 		return SortItemError(expression.GetError())
 	}
+	if expression == nil || !expression.isNotNil() {
+		return SortItemError(errors.New("the expression to sort by is required"))
+	}
 	sortItem := SortItem{
 		expression: expression,
 		direction:  sortDirectionCreate(direction),
diff --git a/unwind.go b/unwind.go
index bf93a89..e69951b 100644
--- a/unwind.go
+++ b/unwind.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type UnwindPhrase struct {
 	expressionToUnwind Expression
 	variable           string
@@ -12,6 +14,9 @@ func unwindCreate(expressionToUnwind Expression, variable string) UnwindPhrase {
 	if expressionToUnwind != nil && expressionToUnwind.GetError() != nil {
 		return unwindError(expressionToUnwind.GetError())
 	}
+	if expressionToUnwind == nil || !expressionToUnwind.isNotNil() || variable == "" {
+		return unwindError(errors.New("the expression to unwind and its variable are required"))
+	}
 	var expression Expression
 	if aliased, isAliased := expressionToUnwind.(Aliased); isAliased {
 		expression = aliased.AsName()
@@ -47,7 +52,7 @@ func (u UnwindPhrase) enter(renderer *CypherRenderer) {
 
 func (u UnwindPhrase) leave(renderer *CypherRenderer) {
 	renderer.append(" AS ")
-	renderer.append(u.variable)
+	renderer.append(EscapeIfNecessary(u.variable))
 	renderer.append(" ")
 }
 
diff --git a/with.go b/with.go
index d9680b2..d452747 100644
--- a/with.go
+++ b/with.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type with struct {
 	distinct Distinct
 	body     ReturnBody
@@ -13,6 +15,9 @@ func withCreate(distinct bool, returnItems ExpressionList, order Order, skip Ski
 	if returnItems.GetError() != nil {
 		return withError(returnItems.GetError())
 	}
+	if len(returnItems.expressions) == 0 {
+		return withError(errors.New("at least one expression is required"))
+	}
 	if order.GetError() != nil {
 		return withError(order.GetError())
 	}
diff --git a/yield_items.go b/yield_items.go
index 7164ae7..dcdcb0a 100644
--- a/yield_items.go
+++ b/yield_items.go
@@ -14,9 +14,12 @@ func YieldItemsCreate(expressions []Expression) YieldItems {
 		return YieldItemsError(errors.New("can not yield an empty list of items"))
 	}
 	for _, expression := range expressions {
-		if expression.GetError() != nil {
+		if expression != nil && expression.GetError() != nil {
 			return YieldItemsError(expression.GetError())
 		}
+		if expression == nil || !expression.isNotNil() {
+			return YieldItemsError(errors.New("every item to yield is required"))
+		}
 	}
 	yieldItem := YieldItems{
 		expressions: expressions,
-- 
2.43.0


From 95e5e80fcf3a3319908ce8df57101034cca3fe7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:29 +0000
Subject: [PATCH 13/26] fix: RETURN, WITH and SET keep the given order and
 report missing operands

---
 default_statement_builder.go             | 19 ++++++++-----------
 default_statement_with_return_builder.go |  9 +++------
 default_statement_with_update.go         |  2 +-
 default_statement_with_with_builder.go   |  3 ---
 4 files changed, 12 insertions(+), 21 deletions(-)

diff --git a/default_statement_builder.go b/default_statement_builder.go
index 3f5fad4..f253eca 100644
--- a/default_statement_builder.go
+++ b/default_statement_builder.go
@@ -728,19 +728,16 @@ func getUpdatingClauseBuilder(updateType UpdateType, patternOrExpression ...Visi
 
 func prepareSetExpression(possibleSetOperations []Expression) ([]Expression, error) {
 	propertyOperations := make([]Expression, 0)
-	listOfExpressions := make([]Expression, 0)
-	for _, possibleSetOperation := range possibleSetOperations {
-		if operation, isOperation := possibleSetOperation.(Operation); isOperation {
+	for i := 0; i < len(possibleSetOperations); i++ {
+		if operation, isOperation := possibleSetOperations[i].(Operation); isOperation {
 			propertyOperations = append(propertyOperations, operation)
-		} else {
-			listOfExpressions = append(listOfExpressions, possibleSetOperation)
+			continue
 		}
-	}
-	if len(listOfExpressions)%2 != 0 {
-		return nil, xerrors.New("the list of expression to OperationSet must be even")
-	}
-	for i := 0; i < len(listOfExpressions); i += 2 {
-		propertyOperations = append(propertyOperations, OperationSet(listOfExpressions[i], listOfExpressions[i+1]))
+		if i+1 == len(possibleSetOperations) {
+			return nil, xerrors.New("the list of expression to OperationSet must be even")
+		}
+		propertyOperations = append(propertyOperations, OperationSet(possibleSetOperations[i], possibleSetOperations[i+1]))
+		i++
 	}
 	return propertyOperations, nil
 }
diff --git a/default_statement_with_return_builder.go b/default_statement_with_return_builder.go
index 094e47b..c61b512 100644
--- a/default_statement_with_return_builder.go
+++ b/default_statement_with_return_builder.go
@@ -22,12 +22,9 @@ func (d DefaultStatementWithReturnBuilder) Build() (Statement, error) {
 	if d.err != nil {
 		return nil, d.err
 	}
-	var returning Return
-	if len(d.returnList) > 0 {
-		returnItems := ExpressionListCreate(d.returnList)
-		returning = ReturnCreate1(d.distinct, returnItems, d.orderBuilder.BuildOrder(), d.orderBuilder.skip,
-			d.orderBuilder.limit)
-	}
+	returnItems := ExpressionListCreate(d.returnList)
+	returning := ReturnCreate1(d.distinct, returnItems, d.orderBuilder.BuildOrder(), d.orderBuilder.skip,
+		d.orderBuilder.limit)
 	return builtStatement(d.defaultBuilder.BuildImpl(false, returning))
 }
 
diff --git a/default_statement_with_update.go b/default_statement_with_update.go
index cb75cd6..d90230f 100644
--- a/default_statement_with_update.go
+++ b/default_statement_with_update.go
@@ -121,7 +121,7 @@ func (d DefaultStatementWithUpdateBuilder) Build() (Statement, error) {
 	}
 	builder := d.closed()
 	var returning Return
-	if len(d.returnList) > 0 {
+	if d.returnList != nil {
 		returnItems := ExpressionListCreate(d.returnList)
 		returning = ReturnCreate1(d.distinct, returnItems, d.orderBuilder.BuildOrder(), d.orderBuilder.skip,
 			d.orderBuilder.limit)
diff --git a/default_statement_with_with_builder.go b/default_statement_with_with_builder.go
index 2cd84ea..5f296b5 100644
--- a/default_statement_with_with_builder.go
+++ b/default_statement_with_with_builder.go
@@ -32,9 +32,6 @@ func (d DefaultStatementWithWithBuilder) closed() DefaultStatementBuilder {
 }
 
 func (d *DefaultStatementWithWithBuilder) buildWith() with {
-	if len(d.returnList) == 0 {
-		return with{}
-	}
 	returnItems := ExpressionListCreate(d.returnList)
 	condition := d.conditionBuilder.buildCondition()
 	var where Where
-- 
2.43.0


From 740572c6047ce80ebae25671e890018dc64ab184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:47 +0000
Subject: [PATCH 14/26] fix: rendering starts afresh each time and gives
 unresolved names a name of their own

---
 cypher_renderer.go | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/cypher_renderer.go b/cypher_renderer.go
index d3be5ac..20eacc5 100644
--- a/cypher_renderer.go
+++ b/cypher_renderer.go
@@ -1,8 +1,8 @@
 package cypher
 
 import (
-	"github.com/rs/xid"
 	"golang.org/x/xerrors"
+	"strconv"
 	"strings"
 	"unicode"
 )
@@ -10,14 +10,13 @@ import (
 type CypherRenderer struct {
 	visitableToAliased     map[string]AliasedExpression
 	separatorOnLevel       map[int]string
-	resolvedSymbolicNames  map[SymbolicName]string
+	resolvedSymbolicNames  map[string]string
 	visitedNamed           map[string]int
 	currentVisitedElements []string
 	currentAliasedElements []AliasedExpression
 	currentLevel           int
 	skipNodeContent        bool
 	builder                strings.Builder
-	guid                   xid.ID
 }
 
 func (renderer *CypherRenderer) append(content string) *CypherRenderer {
@@ -29,13 +28,12 @@ func NewRenderer() *CypherRenderer {
 	return &CypherRenderer{
 		visitableToAliased:     make(map[string]AliasedExpression),
 		separatorOnLevel:       make(map[int]string),
-		resolvedSymbolicNames:  make(map[SymbolicName]string),
+		resolvedSymbolicNames:  make(map[string]string),
 		visitedNamed:           make(map[string]int),
 		currentVisitedElements: make([]string, 0),
 		currentAliasedElements: make([]AliasedExpression, 0),
 		skipNodeContent:        false,
 		builder:                strings.Builder{},
-		guid:                   xid.New(),
 	}
 }
 
@@ -46,8 +44,9 @@ func (renderer CypherRenderer) Render(statement Statement) (string, error) {
 	if statement.GetError() != nil {
 		return "", statement.GetError()
 	}
-	statement.accept(&renderer)
-	return strings.TrimSpace(renderer.builder.String()), nil
+	used := NewRenderer()
+	statement.accept(used)
+	return strings.TrimSpace(used.builder.String()), nil
 }
 
 func (renderer *CypherRenderer) enableSeparator(level int, on bool) {
@@ -68,14 +67,13 @@ func (renderer *CypherRenderer) resetSeparatorOnCurrentLevel() {
 }
 
 func (renderer *CypherRenderer) resolve(name SymbolicName) string {
-	if _, isExist := renderer.resolvedSymbolicNames[name]; !isExist {
-		value := name.value
-		if len(value) > 0 {
-			return EscapeIfNecessary(value)
-		}
-		return renderer.guid.String()
+	if len(name.value) > 0 {
+		return EscapeIfNecessary(name.value)
+	}
+	if _, isExist := renderer.resolvedSymbolicNames[name.key]; !isExist {
+		renderer.resolvedSymbolicNames[name.key] = "unresolved" + strconv.Itoa(len(renderer.resolvedSymbolicNames))
 	}
-	return renderer.resolvedSymbolicNames[name]
+	return renderer.resolvedSymbolicNames[name.key]
 }
 
 func (renderer *CypherRenderer) enter(visitable Visitable) {
-- 
2.43.0


From ae412e6cc44eb16ae50128e5095ae22c28dcc921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:47 +0000
Subject: [PATCH 15/26] fix: parameters, repeated nodes and empty relationship
 types are written in valid syntax

---
 node.go              | 2 +-
 parameter.go         | 6 +++++-
 relationship_type.go | 2 +-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/node.go b/node.go
index be3b1b2..e890b19 100644
--- a/node.go
+++ b/node.go
@@ -165,7 +165,7 @@ func (node Node) enter(renderer *CypherRenderer) {
 	_, renderer.skipNodeContent = renderer.visitedNamed[node.key]
 	renderer.visitedNamed[node.key] = 1
 	if renderer.skipNodeContent {
-		renderer.append(node.symbolicName.value)
+		renderer.append(renderer.resolve(node.symbolicName))
 	}
 }
 
diff --git a/parameter.go b/parameter.go
index 3117752..363eef5 100644
--- a/parameter.go
+++ b/parameter.go
@@ -45,7 +45,11 @@ func (p Parameter) accept(visitor *CypherRenderer) {
 }
 
 func (p Parameter) enter(renderer *CypherRenderer) {
-	renderer.append("$").append(p.name)
+	path := strings.Split(p.name, ".")
+	for i := range path {
+		path[i] = EscapeIfNecessary(path[i])
+	}
+	renderer.append("$").append(strings.Join(path, "."))
 }
 
 func (p Parameter) leave(renderer *CypherRenderer) {
diff --git a/relationship_type.go b/relationship_type.go
index 6fb36f2..8d9812d 100644
--- a/relationship_type.go
+++ b/relationship_type.go
@@ -49,7 +49,7 @@ func (r RelationshipTypes) enter(renderer *CypherRenderer) {
 		}
 		typeWithPrefix = append(typeWithPrefix, escapeName(typeRaw))
 	}
-	if len(r.values) > 0 {
+	if len(typeWithPrefix) > 0 {
 		renderer.append(RelTypeStart).append(strings.Join(typeWithPrefix, RelTypSeparator))
 	}
 }
-- 
2.43.0


From 72c5bf1861b814c3e6e2edfbc08116bfb64abeed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:47 +0000
Subject: [PATCH 16/26] fix: number literals are rendered exactly

---
 number_literal.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/number_literal.go b/number_literal.go
index 1cb365d..fc46987 100644
--- a/number_literal.go
+++ b/number_literal.go
@@ -1,6 +1,8 @@
 package cypher
 
 import (
+	"errors"
+	"math"
 	"math/big"
 )
 
@@ -23,6 +25,9 @@ func NumberLiteralCreate(content int64) NumberLiteral {
 }
 
 func NumberLiteralCreate2(content float64) NumberLiteral {
+	if math.IsNaN(content) || math.IsInf(content, 0) {
+		return NumberLiteralError(errors.New("a number literal has to be finite"))
+	}
 	n := NumberLiteral{
 		content: big.NewFloat(content),
 		notNil:  true,
@@ -42,6 +47,12 @@ func NumberLiteralCreate1(content int) NumberLiteral {
 	return n
 }
 
+func NumberLiteralError(err error) NumberLiteral {
+	e := NumberLiteral{err: err}
+	e.ExpressionContainer = ExpressionWrap(e)
+	return e
+}
+
 func (n NumberLiteral) GetError() error {
 	return n.err
 }
@@ -63,7 +74,10 @@ func (n NumberLiteral) GetContent() interface{} {
 }
 
 func (n NumberLiteral) AsString() string {
-	return n.content.String()
+	if n.content.IsInt() && n.content.MantExp(nil) <= 64 {
+		return n.content.Text('f', 0)
+	}
+	return n.content.Text('g', -1)
 }
 
 func (n NumberLiteral) accept(visitor *CypherRenderer) {
-- 
2.43.0


From 1317265d21bb635c3d09a7d69493aa578b517134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:47 +0000
Subject: [PATCH 17/26] fix: no panics from unfinished methods or sort items
 without direction

---
 arguments.go            | 2 +-
 cypher.go               | 4 ++--
 excluded_pattern.go     | 4 ++--
 existential_subquery.go | 2 +-
 expression_list.go      | 2 +-
 merge.go                | 2 +-
 remove.go               | 2 +-
 7 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/arguments.go b/arguments.go
index b285c6a..dc3ce8b 100644
--- a/arguments.go
+++ b/arguments.go
@@ -41,7 +41,7 @@ func (a Arguments) getKey() string {
 func (a Arguments) PrepareVisit(child Visitable) Visitable {
 	expression, isExpression := child.(Expression)
 	if !isExpression {
-		panic("Can not prepare un expression type In expression list")
+		return child
 	}
 	return NameOrExpression(expression)
 }
diff --git a/cypher.go b/cypher.go
index 7f42a83..634996a 100644
--- a/cypher.go
+++ b/cypher.go
@@ -307,9 +307,9 @@ func SortItemsOfRaw(elements ...string) []SortItem {
 		sortElements := strings.Split(element, " ")
 		literal := LiteralOf(sortElements[0])
 		direction := UNDEFINED
-		if sortElements[1] == "ASC" {
+		if len(sortElements) > 1 && sortElements[1] == "ASC" {
 			direction = ASC
-		}else if sortElements[1] == "DESC" {
+		} else if len(sortElements) > 1 && sortElements[1] == "DESC" {
 			direction = DESC
 		}
 		sortItems[index] = SortItemCreate(literal, direction)
diff --git a/excluded_pattern.go b/excluded_pattern.go
index d520a68..ef8172f 100644
--- a/excluded_pattern.go
+++ b/excluded_pattern.go
@@ -58,9 +58,9 @@ func (e ExcludedPattern) isNotNil() bool {
 }
 
 func (e ExcludedPattern) GetExpressionType() ExpressionType {
-	panic("implement me")
+	return CONDITION
 }
 
 func (e ExcludedPattern) getConditionType() string {
-	panic("implement me")
+	return "ExcludedPattern"
 }
diff --git a/existential_subquery.go b/existential_subquery.go
index 02a2103..6da98fb 100644
--- a/existential_subquery.go
+++ b/existential_subquery.go
@@ -58,7 +58,7 @@ func (e ExistentialSubquery) isNotNil() bool {
 }
 
 func (e ExistentialSubquery) GetExpressionType() ExpressionType {
-	panic("implement me")
+	return CONDITION
 }
 
 func (e ExistentialSubquery) getConditionType() string {
diff --git a/expression_list.go b/expression_list.go
index 522b77b..027ec43 100644
--- a/expression_list.go
+++ b/expression_list.go
@@ -53,7 +53,7 @@ func (e ExpressionList) getKey() string {
 func (e ExpressionList) PrepareVisit(child Visitable) Visitable {
 	expression, isExpression := child.(Expression)
 	if !isExpression {
-		panic("Can not prepare un expression type In expression list")
+		return child
 	}
 	return NameOrExpression(expression)
 }
diff --git a/merge.go b/merge.go
index 81fdf41..0b1636b 100644
--- a/merge.go
+++ b/merge.go
@@ -86,5 +86,5 @@ func (m merge) isNotNil() bool {
 }
 
 func (m merge) isUpdatingClause() bool {
-	panic("implement me")
+	return true
 }
diff --git a/remove.go b/remove.go
index a4a7a91..b719705 100644
--- a/remove.go
+++ b/remove.go
@@ -57,5 +57,5 @@ func (r Remove) isNotNil() bool {
 }
 
 func (r Remove) isUpdatingClause() bool {
-	panic("implement me")
+	return true
 }
-- 
2.43.0


From 51746d3bf3fee5b313acfd2de2e48075ce2aec29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:24 +0000
Subject: [PATCH 18/26] fix: an expression aliased a second time introduces its
 second alias

---
 alias_expression.go |  4 ++--
 cypher_renderer.go  | 21 +++++++++++++++++++--
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/alias_expression.go b/alias_expression.go
index 14cfbda..ce4167b 100644
--- a/alias_expression.go
+++ b/alias_expression.go
@@ -69,13 +69,13 @@ func (aliased AliasedExpression) getKey() string {
 }
 
 func (aliased AliasedExpression) enter(renderer *CypherRenderer) {
-	if _, visited := renderer.visitableToAliased[aliased.delegate.getKey()]; visited {
+	if renderer.isIntroduced(aliased) {
 		renderer.append(EscapeIfNecessary(aliased.alias))
 	}
 }
 
 func (aliased AliasedExpression) leave(renderer *CypherRenderer) {
-	if _, visited := renderer.visitableToAliased[aliased.delegate.getKey()]; !visited {
+	if !renderer.isIntroduced(aliased) {
 		renderer.append(" AS ")
 		renderer.append(EscapeIfNecessary(aliased.alias))
 	}
diff --git a/cypher_renderer.go b/cypher_renderer.go
index 20eacc5..05c30ca 100644
--- a/cypher_renderer.go
+++ b/cypher_renderer.go
@@ -9,6 +9,7 @@ import (
 
 type CypherRenderer struct {
 	visitableToAliased     map[string]AliasedExpression
+	introducedAliases      map[introducedAlias]bool
 	separatorOnLevel       map[int]string
 	resolvedSymbolicNames  map[string]string
 	visitedNamed           map[string]int
@@ -19,6 +20,12 @@ type CypherRenderer struct {
 	builder                strings.Builder
 }
 
+// introducedAlias is an alias that was written for an expression.
+type introducedAlias struct {
+	delegateKey string
+	alias       string
+}
+
 func (renderer *CypherRenderer) append(content string) *CypherRenderer {
 	renderer.builder.WriteString(content)
 	return renderer
@@ -27,6 +34,7 @@ func (renderer *CypherRenderer) append(content string) *CypherRenderer {
 func NewRenderer() *CypherRenderer {
 	return &CypherRenderer{
 		visitableToAliased:     make(map[string]AliasedExpression),
+		introducedAliases:      make(map[introducedAlias]bool),
 		separatorOnLevel:       make(map[int]string),
 		resolvedSymbolicNames:  make(map[string]string),
 		visitedNamed:           make(map[string]int),
@@ -94,7 +102,11 @@ func (renderer *CypherRenderer) leave(visitable Visitable) {
 	}
 	aliasedExpression, isAliased := (visitable).(AliasedExpression)
 	if isAliased {
-		renderer.visitableToAliased[aliasedExpression.delegate.getKey()] = aliasedExpression
+		delegateKey := aliasedExpression.delegate.getKey()
+		if _, seen := renderer.visitableToAliased[delegateKey]; !seen {
+			renderer.visitableToAliased[delegateKey] = aliasedExpression
+		}
+		renderer.introducedAliases[introducedAlias{delegateKey, aliasedExpression.alias}] = true
 	}
 }
 
@@ -102,7 +114,7 @@ func (renderer *CypherRenderer) PreEnter(visitable *Visitable) bool {
 	lastAliased := peekAliased(renderer.currentAliasedElements)
 	visited := false
 	if lastAliased != nil {
-		_, visited = renderer.visitableToAliased[lastAliased.delegate.getKey()]
+		visited = renderer.isIntroduced(*lastAliased)
 	}
 	if renderer.skipNodeContent || visited {
 		return false
@@ -138,6 +150,11 @@ func (renderer *CypherRenderer) postLeave(visitable Visitable) {
 	renderer.currentLevel = renderer.currentLevel - 1
 }
 
+// isIntroduced tells whether this alias was already written for its expression.
+func (renderer *CypherRenderer) isIntroduced(aliased AliasedExpression) bool {
+	return renderer.introducedAliases[introducedAlias{aliased.delegate.getKey(), aliased.alias}]
+}
+
 func (renderer *CypherRenderer) getAliasedIfSeen(visitable Visitable) Visitable {
 	if expression, isExist := renderer.visitableToAliased[visitable.getKey()]; isExist {
 		return expression
-- 
2.43.0


From 0d2a2c36fd6641a3008a8c121540a2b5ac6a5a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:23 +0000
Subject: [PATCH 19/26] fix: blank names are rejected where they would be
 written unquoted

---
 alias_expression.go    | 4 ++--
 entry_expression.go    | 2 +-
 key_value_map_entry.go | 2 +-
 parameter.go           | 5 +++++
 property_lookup.go     | 2 +-
 support.go             | 6 ++++++
 symbolic_name.go       | 2 +-
 unwind.go              | 2 +-
 8 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/alias_expression.go b/alias_expression.go
index ce4167b..3d44dee 100644
--- a/alias_expression.go
+++ b/alias_expression.go
@@ -20,7 +20,7 @@ func AliasedExpressionCreate(delegate Expression, alias string) AliasedExpressio
 	if delegate.GetError() != nil {
 		return AliasedExpressionError(delegate.GetError())
 	}
-	if alias == "" {
+	if isBlank(alias) {
 		return AliasedExpressionError(errors.New("the alias may not be empty"))
 	}
 	a := AliasedExpression{
@@ -52,7 +52,7 @@ func (aliased AliasedExpression) GetExpressionType() ExpressionType {
 }
 
 func (aliased AliasedExpression) Aliased(newAlias string) AliasedExpression {
-	if newAlias == "" {
+	if isBlank(newAlias) {
 		return AliasedExpressionError(errors.New("the alias may not be empty"))
 	}
 	return AliasedExpressionCreate(aliased.delegate, newAlias)
diff --git a/entry_expression.go b/entry_expression.go
index 0287aac..65de84b 100644
--- a/entry_expression.go
+++ b/entry_expression.go
@@ -15,7 +15,7 @@ func EntryExpressionCreate(key string, value Expression) EntryExpression {
 	if value != nil && value.GetError() != nil {
 		return EntryExpressionError(value.GetError())
 	}
-	if key == "" || value == nil || !value.isNotNil() {
+	if isBlank(key) || value == nil || !value.isNotNil() {
 		return EntryExpressionError(errors.New("the key and the value of a map entry are required"))
 	}
 	e := EntryExpression{
diff --git a/key_value_map_entry.go b/key_value_map_entry.go
index 07d9166..6e44196 100644
--- a/key_value_map_entry.go
+++ b/key_value_map_entry.go
@@ -15,7 +15,7 @@ func KeyValueMapEntryCreate(key string, value Expression) KeyValueMapEntry {
 	if value != nil && value.GetError() != nil {
 		return KeyValueMapEntryError(value.GetError())
 	}
-	if key == "" || value == nil || !value.isNotNil() {
+	if isBlank(key) || value == nil || !value.isNotNil() {
 		return KeyValueMapEntryError(errors.New("the key and the value of a map entry are required"))
 	}
 	entry := KeyValueMapEntry{
diff --git a/parameter.go b/parameter.go
index 363eef5..9fe333f 100644
--- a/parameter.go
+++ b/parameter.go
@@ -20,6 +20,11 @@ func ParameterCreate(name string) Parameter {
 	if strings.HasPrefix(name, "$") {
 		return ParameterCreate(name[1:])
 	}
+	for _, part := range strings.Split(name, ".") {
+		if isBlank(part) {
+			return ParameterError(errors.New("the name of the parameter and its parts must not be blank"))
+		}
+	}
 	parameter := Parameter{
 		name:   name,
 		notNil: true,
diff --git a/property_lookup.go b/property_lookup.go
index 560bcda..8509df7 100644
--- a/property_lookup.go
+++ b/property_lookup.go
@@ -11,7 +11,7 @@ type PropertyLookup struct {
 }
 
 func PropertyLookupCreate(name string) PropertyLookup {
-	if name == "" {
+	if isBlank(name) {
 		return PropertyLookupError(errors.New("the name of a property is required"))
 	}
 	property := PropertyLookup{
diff --git a/support.go b/support.go
index ddf22ed..5b75520 100644
--- a/support.go
+++ b/support.go
@@ -3,6 +3,7 @@ package cypher
 import (
 	"github.com/rs/xid"
 	"strconv"
+	"strings"
 	"sync/atomic"
 )
 
@@ -24,6 +25,11 @@ func PatternElementsToVisitables(patterns []PatternElement) []Visitable {
 	return visitables
 }
 
+// isBlank tells whether a name has nothing that could be written: blank names are not quoted when rendered.
+func isBlank(name string) bool {
+	return len(strings.TrimSpace(name)) == 0
+}
+
 var lastKey uint64
 
 // getAddress returns a key for a new element. It does not use the address of the element: addresses of
diff --git a/symbolic_name.go b/symbolic_name.go
index e79302c..a597b19 100644
--- a/symbolic_name.go
+++ b/symbolic_name.go
@@ -13,7 +13,7 @@ type SymbolicName struct {
 }
 
 func SymbolicNameCreate(value string) SymbolicName {
-	if value == "" {
+	if isBlank(value) {
 		return SymbolicNameError(errors.New("name must be not empty"))
 	}
 	symbolicName := SymbolicName{
diff --git a/unwind.go b/unwind.go
index e69951b..099b5bd 100644
--- a/unwind.go
+++ b/unwind.go
@@ -14,7 +14,7 @@ func unwindCreate(expressionToUnwind Expression, variable string) UnwindPhrase {
 	if expressionToUnwind != nil && expressionToUnwind.GetError() != nil {
 		return unwindError(expressionToUnwind.GetError())
 	}
-	if expressionToUnwind == nil || !expressionToUnwind.isNotNil() || variable == "" {
+	if expressionToUnwind == nil || !expressionToUnwind.isNotNil() || isBlank(variable) {
 		return unwindError(errors.New("the expression to unwind and its variable are required"))
 	}
 	var expression Expression
-- 
2.43.0


From 0abd12aad5237813da7d1ea9d58eef2d54c9d80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:19 +0000
Subject: [PATCH 20/26] fix: absent operands and blank names are rejected
 instead of panicking or vanishing

---
 case.go                                |  3 +++
 default_statement_builder.go           |  6 ++++++
 default_statement_with_update.go       |  3 +++
 default_statement_with_with_builder.go |  3 +++
 function_invocation.go                 | 20 ++++++++++++++++++++
 has_label_condition.go                 |  3 +++
 name_space.go                          |  8 ++++++++
 order.go                               |  5 +++++
 procedure_name.go                      |  8 +++++++-
 single_part_query.go                   |  3 +++
 subquery.go                            |  3 +++
 union_part.go                          |  5 +++++
 union_query.go                         |  3 +++
 visitable_list.go                      |  5 +++++
 14 files changed, 77 insertions(+), 1 deletion(-)

diff --git a/case.go b/case.go
index 00b9077..dbe72f3 100644
--- a/case.go
+++ b/case.go
@@ -322,6 +322,9 @@ func CaseElseCreate(elseExpression Expression) CaseElse {
 	if elseExpression != nil && elseExpression.GetError() != nil {
 		return CaseElse{err: elseExpression.GetError()}
 	}
+	if elseExpression == nil {
+		return CaseElse{err: errors.New("case: an else expression is required")}
+	}
 	caseElse := CaseElse{elseExpression: elseExpression, notNil: true}
 	caseElse.key = getAddress(&caseElse)
 	return caseElse
diff --git a/default_statement_builder.go b/default_statement_builder.go
index f253eca..ac4f158 100644
--- a/default_statement_builder.go
+++ b/default_statement_builder.go
@@ -293,6 +293,9 @@ func (d DefaultStatementBuilder) SetWithNamed(variable Named, expression Express
 	if expression != nil && expression.GetError() != nil {
 		return DefaultStatementBuilderError(expression.GetError())
 	}
+	if variable == nil {
+		return DefaultStatementBuilderError(errors.New("the variable to set is required"))
+	}
 	return d.Set(variable.GetSymbolicName(), expression)
 }
 
@@ -799,5 +802,8 @@ func (o OngoingMergeActionInBuilder) SetWithNamed(variable Named, expression Exp
 	if expression != nil && expression.GetError() != nil {
 		return DefaultStatementBuilderError(expression.GetError())
 	}
+	if variable == nil {
+		return DefaultStatementBuilderError(errors.New("the variable to set is required"))
+	}
 	return o.Set(variable.GetSymbolicName(), expression)
 }
diff --git a/default_statement_with_update.go b/default_statement_with_update.go
index d90230f..c05d207 100644
--- a/default_statement_with_update.go
+++ b/default_statement_with_update.go
@@ -236,6 +236,9 @@ func (d DefaultStatementWithUpdateBuilder) Set(expressions ...Expression) Builda
 }
 
 func (d DefaultStatementWithUpdateBuilder) SetWithNamed(variable Named, expression Expression) BuildableStatementAndOngoingMatchAndUpdate {
+	if variable == nil {
+		return d.Set(nil, expression)
+	}
 	return d.Set(variable.GetSymbolicName(), expression)
 }
 
diff --git a/default_statement_with_with_builder.go b/default_statement_with_with_builder.go
index 5f296b5..ee92c77 100644
--- a/default_statement_with_with_builder.go
+++ b/default_statement_with_with_builder.go
@@ -170,6 +170,9 @@ func (d DefaultStatementWithWithBuilder) Set(expressions ...Expression) Buildabl
 }
 
 func (d DefaultStatementWithWithBuilder) SetWithNamed(variable Named, expression Expression) BuildableStatementAndOngoingMatchAndUpdate {
+	if variable == nil {
+		return d.Set(nil, expression)
+	}
 	return d.Set(variable.GetRequiredSymbolicName(), expression)
 }
 
diff --git a/function_invocation.go b/function_invocation.go
index 1f3335d..2faad2e 100644
--- a/function_invocation.go
+++ b/function_invocation.go
@@ -14,10 +14,16 @@ type FunctionInvocation struct {
 }
 
 func FunctionInvocationCreate1(definition FunctionDefinition) FunctionInvocation {
+	if definition == nil {
+		return FunctionInvocationError(errNoDefinition)
+	}
 	return FunctionInvocationCreateWithFunctionName(definition.getImplementationName())
 }
 
 func FunctionInvocationCreateWithFunctionName(functionName string, arguments ...Expression) FunctionInvocation {
+	if isBlank(functionName) {
+		return FunctionInvocationError(errors.New("the name of the function is required"))
+	}
 	if err := errorOfArguments(functionName, arguments); err != nil {
 		return FunctionInvocationError(err)
 	}
@@ -36,6 +42,9 @@ func FunctionInvocationCreateWithFunctionName(functionName string, arguments ...
 }
 
 func FunctionInvocationCreate(definition FunctionDefinition, expressions ...Expression) FunctionInvocation {
+	if definition == nil {
+		return FunctionInvocationError(errNoDefinition)
+	}
 	if err := errorOfArguments(definition.getImplementationName(), expressions); err != nil {
 		return FunctionInvocationError(err)
 	}
@@ -57,6 +66,9 @@ func FunctionInvocationCreate(definition FunctionDefinition, expressions ...Expr
 }
 
 func FunctionInvocationCreateWithPatternElement(definition FunctionDefinition, element PatternElement) FunctionInvocation {
+	if definition == nil {
+		return FunctionInvocationError(errNoDefinition)
+	}
 	if element != nil && element.GetError() != nil {
 		return FunctionInvocationError(element.GetError())
 	}
@@ -76,6 +88,9 @@ func FunctionInvocationCreateWithPatternElement(definition FunctionDefinition, e
 }
 
 func FunctionInvocationCreateWithPattern(definition FunctionDefinition, pattern Pattern) FunctionInvocation {
+	if definition == nil {
+		return FunctionInvocationError(errNoDefinition)
+	}
 	if pattern.GetError() != nil {
 		return FunctionInvocationError(pattern.GetError())
 	}
@@ -97,6 +112,9 @@ func FunctionInvocationCreateWithPattern(definition FunctionDefinition, pattern
 }
 
 func FunctionInvocationCreateDistinct(definition FunctionDefinition, expressions ...Expression) FunctionInvocation {
+	if definition == nil {
+		return FunctionInvocationError(errNoDefinition)
+	}
 	if err := errorOfArguments(definition.getImplementationName(), expressions); err != nil {
 		return FunctionInvocationError(err)
 	}
@@ -121,6 +139,8 @@ func FunctionInvocationCreateDistinct(definition FunctionDefinition, expressions
 	return f
 }
 
+var errNoDefinition = errors.New("the definition of the function is required")
+
 func errorOfArguments(functionName string, arguments []Expression) error {
 	for _, argument := range arguments {
 		if argument != nil && argument.GetError() != nil {
diff --git a/has_label_condition.go b/has_label_condition.go
index 4f992c8..36972e2 100644
--- a/has_label_condition.go
+++ b/has_label_condition.go
@@ -23,6 +23,9 @@ func HasLabelConditionCreate(nodeName SymbolicName, labels ...string) HasLabelCo
 	}
 	nodeLabels := make([]NodeLabel, len(labels))
 	for i := range labels {
+		if labels[i] == "" {
+			return HasLabelConditionError(errors.New("an empty label is not allowed"))
+		}
 		nodeLabels[i] = NodeLabelCreate(labels[i])
 	}
 	hasLabelCondition := HasLabelCondition{
diff --git a/name_space.go b/name_space.go
index cca9d3b..3df830f 100644
--- a/name_space.go
+++ b/name_space.go
@@ -1,6 +1,7 @@
 package cypher
 
 import (
+	"errors"
 	"strings"
 )
 
@@ -13,6 +14,13 @@ type Namespace struct {
 }
 
 func NameSpaceCreate(content []string) Namespace {
+	for _, part := range content {
+		if isBlank(part) {
+			e := Namespace{err: errors.New("the parts of a namespace must not be empty")}
+			e.ExpressionContainer = ExpressionWrap(e)
+			return e
+		}
+	}
 	n := Namespace{
 		content: content,
 		notNil:  true,
diff --git a/order.go b/order.go
index 19cc6ea..7ecb1d5 100644
--- a/order.go
+++ b/order.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type Order struct {
 	sortItems []SortItem
 	key       string
@@ -8,6 +10,9 @@ type Order struct {
 }
 
 func OrderCreate(sortItems []SortItem) Order {
+	if len(sortItems) == 0 {
+		return Order{err: errors.New("at least one sort item is required")}
+	}
 	for _, item := range sortItems {
 		if item.GetError() != nil {
 			return Order{err: item.GetError()}
diff --git a/procedure_name.go b/procedure_name.go
index 6e17470..8d63129 100644
--- a/procedure_name.go
+++ b/procedure_name.go
@@ -15,7 +15,7 @@ type ProcedureName struct {
 
 func ProcedureNameCreate(namespaceAndProcedure ...string) ProcedureName {
 	for _, part := range namespaceAndProcedure {
-		if part == "" {
+		if isBlank(part) {
 			return ProcedureName{err: errors.New("the parts of a procedure name must not be empty")}
 		}
 	}
@@ -33,6 +33,9 @@ func ProcedureNameCreate(namespaceAndProcedure ...string) ProcedureName {
 }
 
 func ProcedureNameCreate1(value string) ProcedureName {
+	if isBlank(value) {
+		return ProcedureName{err: errors.New("the name of the procedure is required")}
+	}
 	p := ProcedureName{
 		value:  value,
 		notNil: true,
@@ -45,6 +48,9 @@ func ProcedureNameCreate2(namespace Namespace, value string) ProcedureName {
 	if namespace.GetError() != nil {
 		return ProcedureName{err: namespace.GetError()}
 	}
+	if isBlank(value) {
+		return ProcedureName{err: errors.New("the name of the procedure is required")}
+	}
 	p := ProcedureName{
 		value:             value,
 		optionalNamespace: namespace,
diff --git a/single_part_query.go b/single_part_query.go
index 256f6b3..f59ae54 100644
--- a/single_part_query.go
+++ b/single_part_query.go
@@ -25,6 +25,9 @@ func SinglePartQueryCreate(clauses []Visitable, aReturn Return) SinglePartQuery
 		if clause != nil && clause.GetError() != nil {
 			return SinglePartQueryError(clause.GetError())
 		}
+		if clause == nil {
+			return SinglePartQueryError(errors.New("every clause of a query is required"))
+		}
 	}
 	if aReturn.GetError() != nil {
 		return SinglePartQueryError(aReturn.GetError())
diff --git a/subquery.go b/subquery.go
index 4586c97..fea6285 100644
--- a/subquery.go
+++ b/subquery.go
@@ -15,6 +15,9 @@ func SubqueryCreate(statement Statement) Subquery {
 	if statement != nil && statement.GetError() != nil {
 		return SubqueryError(statement.GetError())
 	}
+	if statement == nil {
+		return SubqueryError(errors.New("the statement of a subquery is required"))
+	}
 	subQuery := Subquery{
 		statement: statement,
 		notNil:    true,
diff --git a/union_part.go b/union_part.go
index 2825a5b..e1f1d10 100644
--- a/union_part.go
+++ b/union_part.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type UnionPart struct {
 	all    bool
 	query  SingleQuery
@@ -12,6 +14,9 @@ func UnionPartCreate(all bool, query SingleQuery) UnionPart {
 	if query != nil && query.GetError() != nil {
 		return UnionPartError(query.GetError())
 	}
+	if query == nil {
+		return UnionPartError(errors.New("the query of an union is required"))
+	}
 	unionPart := UnionPart{
 		all:    all,
 		query:  query,
diff --git a/union_query.go b/union_query.go
index 0012ac6..89c16f0 100644
--- a/union_query.go
+++ b/union_query.go
@@ -21,6 +21,9 @@ func UnionQueryCreate(all bool, queries []SingleQuery) UnionQuery {
 		if query != nil && query.GetError() != nil {
 			return UnionQueryError(query.GetError())
 		}
+		if query == nil {
+			return UnionQueryError(errors.New("every query of an union is required"))
+		}
 	}
 	unionParts := make([]UnionPart, 0)
 	for _, query := range queries[1:] {
diff --git a/visitable_list.go b/visitable_list.go
index eb0ee93..532f5f0 100644
--- a/visitable_list.go
+++ b/visitable_list.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type FunctionArgumentList struct {
 	expressions []Visitable
 	key         string
@@ -12,6 +14,9 @@ func FunctionArgumentListCreate(visitables ...Visitable) FunctionArgumentList {
 		if visitable != nil && visitable.GetError() != nil {
 			return FunctionArgumentList{err: visitable.GetError()}
 		}
+		if visitable == nil {
+			return FunctionArgumentList{err: errors.New("every argument of a function is required")}
+		}
 	}
 	argumentList := FunctionArgumentList{expressions: visitables, notNil: true}
 	argumentList.key = getAddress(&argumentList)
-- 
2.43.0


From ca8d4faa967a06d63aa225ef082c22577da6c4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:13 +0000
Subject: [PATCH 21/26] fix: missing list conditions, duplicate map entries and
 multi-part subqueries are rejected

---
 default_statement_builder.go |  2 +-
 map_expression.go            | 13 ++++++++++---
 where.go                     |  5 +++++
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/default_statement_builder.go b/default_statement_builder.go
index ac4f158..f67bb4f 100644
--- a/default_statement_builder.go
+++ b/default_statement_builder.go
@@ -408,7 +408,7 @@ func (d DefaultStatementBuilder) AsCondition() Condition {
 	if d.err != nil {
 		return CompoundConditionError(d.err)
 	}
-	if !d.currentOngoingMatch.notNil || len(d.currentSinglePartElements) > 0 {
+	if !d.currentOngoingMatch.notNil || len(d.currentSinglePartElements) > 0 || len(d.multipartElements) > 0 {
 		return CompoundConditionError(errors.New("only simple MATCH statements can be used as existential subqueries"))
 	}
 	return ExistentialSubqueryExists(d.currentOngoingMatch.buildMatch())
diff --git a/map_expression.go b/map_expression.go
index 133a297..01c6110 100644
--- a/map_expression.go
+++ b/map_expression.go
@@ -21,11 +21,18 @@ func MapExpressionCreate(newContents []Expression) MapExpression {
 		if content == nil || !content.isNotNil() {
 			return MapExpressionError(errors.Errorf("every entry of a map is required"))
 		}
-		if entry, isEntry := content.(EntryExpression); isEntry {
-			if knownKeys[entry.Key] {
+		key, isEntry := "", false
+		switch entry := content.(type) {
+		case EntryExpression:
+			key, isEntry = entry.Key, true
+		case KeyValueMapEntry:
+			key, isEntry = entry.entryKey, true
+		}
+		if isEntry {
+			if knownKeys[key] {
 				return MapExpressionError(errors.Errorf("duplicate key"))
 			}
-			knownKeys[entry.Key] = true
+			knownKeys[key] = true
 		}
 	}
 	m := MapExpression{
diff --git a/where.go b/where.go
index 925d645..f40427c 100644
--- a/where.go
+++ b/where.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type Where struct {
 	key       string
 	condition Condition
@@ -11,6 +13,9 @@ func WhereCreate(condition Condition) Where {
 	if condition != nil && condition.GetError() != nil {
 		return WhereError(condition.GetError())
 	}
+	if condition == nil || !condition.isNotNil() {
+		return WhereError(errors.New("where: a condition is required"))
+	}
 	where := Where{
 		condition: condition,
 		notNil:    true,
-- 
2.43.0


From d646866f9d47e430fdec917108f5774513c0d9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:56 +0000
Subject: [PATCH 22/26] fix: an empty condition is not an operand

---
 comparison.go         | 6 +++---
 compound_condition.go | 6 ++++++
 list_comprehension.go | 4 ++++
 where.go              | 2 +-
 4 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/comparison.go b/comparison.go
index 03b1a7f..07e9725 100644
--- a/comparison.go
+++ b/comparison.go
@@ -27,10 +27,10 @@ func ComparisonCreate(left Expression, operator Operator, right Expression) Comp
 	if !operator.isNotNil() {
 		return ComparisonError(errors.New("operator must be not nil"))
 	}
-	if left == nil || !left.isNotNil() {
+	if left == nil || !left.isNotNil() || isEmptyCondition(left) {
 		return ComparisonError(errors.New("left expression must be not nil"))
 	}
-	if right == nil || !right.isNotNil() {
+	if right == nil || !right.isNotNil() || isEmptyCondition(right) {
 		return ComparisonError(errors.New("right expression must be not nil"))
 	}
 	comparison := Comparison{
@@ -54,7 +54,7 @@ func ComparisonCreate1(operator Operator, expression Expression) Comparison {
 	if !operator.isUnary() {
 		return ComparisonError(errors.New("comparison: operator must be unary"))
 	}
-	if expression == nil || !expression.isNotNil() {
+	if expression == nil || !expression.isNotNil() || isEmptyCondition(expression) {
 		return ComparisonError(errors.New("comparison: expression must be not nil"))
 	}
 	var comparison Comparison
diff --git a/compound_condition.go b/compound_condition.go
index 5732c43..d7a3dfa 100644
--- a/compound_condition.go
+++ b/compound_condition.go
@@ -202,6 +202,12 @@ func (c CompoundCondition) hasCondition() bool {
 		len(c.conditions) == 0)
 }
 
+// isEmptyCondition tells whether the expression is a condition that constrains nothing and has no text.
+func isEmptyCondition(expression Expression) bool {
+	compound, isCompound := expression.(CompoundCondition)
+	return isCompound && compound.GetError() == nil && !compound.hasCondition()
+}
+
 // bindsLooserThan tells whether the conditions are joined by an operator that binds looser than the given one,
 // so that they need to be nested before being joined with it.
 func (c CompoundCondition) bindsLooserThan(operator Operator) bool {
diff --git a/list_comprehension.go b/list_comprehension.go
index e58aa05..31da31f 100644
--- a/list_comprehension.go
+++ b/list_comprehension.go
@@ -150,6 +150,10 @@ func (l ListComprehensionBuilder) ReturningDefault() ListComprehension {
 }
 
 func (l ListComprehensionBuilder) Where(condition Condition) OngoingDefinitionWithoutReturn {
+	if condition != nil && isEmptyCondition(condition) {
+		l.where = Where{}
+		return l
+	}
 	l.where = WhereCreate(condition)
 	return l
 }
diff --git a/where.go b/where.go
index f40427c..9c47766 100644
--- a/where.go
+++ b/where.go
@@ -13,7 +13,7 @@ func WhereCreate(condition Condition) Where {
 	if condition != nil && condition.GetError() != nil {
 		return WhereError(condition.GetError())
 	}
-	if condition == nil || !condition.isNotNil() {
+	if condition == nil || !condition.isNotNil() || isEmptyCondition(condition) {
 		return WhereError(errors.New("where: a condition is required"))
 	}
 	where := Where{
-- 
2.43.0


From 1b6bd2963d5b0a992e7448c732c93434812a04b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:00 +0000
Subject: [PATCH 23/26] fix: errors of comprehension conditions and projected
 properties are kept

---
 map_projection.go        | 12 ++++--------
 pattern_comprehension.go |  2 +-
 2 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/map_projection.go b/map_projection.go
index fd7a8a2..66bd63d 100644
--- a/map_projection.go
+++ b/map_projection.go
@@ -22,14 +22,7 @@ func MapProjectionCreate(name SymbolicName, content ...interface{}) MapProjectio
 	if err != nil {
 		return MapProjectionError(err)
 	}
-	mapProjection := MapProjection{
-		name:          name,
-		mapExpression: MapExpressionCreate(newContent),
-		notNil:        true,
-	}
-	mapProjection.key = getAddress(&mapProjection)
-	mapProjection.ExpressionContainer = ExpressionWrap(mapProjection)
-	return mapProjection
+	return MapProjectionCreateWithMapExpression(name, MapExpressionCreate(newContent))
 }
 
 func MapProjectionCreateWithMapExpression(name SymbolicName, mapExpression MapExpression) MapProjection {
@@ -141,6 +134,9 @@ func createNewContent(content ...interface{}) ([]Expression, error) {
 		if _, isAsterisk := lastExpression.(Asterisk); isAsterisk {
 			lastExpression = PropertyLookupCreate("*")
 		}
+		if lastExpression != nil && lastExpression.GetError() != nil {
+			return nil, lastExpression.GetError()
+		}
 		var entry Expression
 		if lastKey != "" {
 			_, isDuplicateKey := knownKeys[lastKey]
diff --git a/pattern_comprehension.go b/pattern_comprehension.go
index 733306e..93c97c6 100644
--- a/pattern_comprehension.go
+++ b/pattern_comprehension.go
@@ -150,7 +150,7 @@ func (p PatternComprehensionBuilder) Returning(listDefinitions ...Expression) Pa
 	}
 	where := Where{}
 	condition := p.conditionBuilder.buildCondition()
-	if condition != nil && condition.isNotNil() {
+	if condition != nil {
 		where = WhereCreate(condition)
 	}
 	return PatternComprehensionCreate(p.pattern, where, ListOrSingleExpression(listDefinitions...))
-- 
2.43.0


From 79eb8d2e9f9cd3c12a37a5da2f18a0e272c3eb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:12 +0000
Subject: [PATCH 24/26] fix: arguments given to a call in several steps are all
 kept

---
 procedure_call.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/procedure_call.go b/procedure_call.go
index c97ea3d..a291854 100644
--- a/procedure_call.go
+++ b/procedure_call.go
@@ -252,7 +252,7 @@ func (s StandaloneCallBuilder) AsFunction() Expression {
 }
 
 func (s StandaloneCallBuilder) WithArgs(arguments ...Expression) OngoingStandaloneCallWithoutArguments {
-	s.arguments = arguments
+	s.arguments = append(s.arguments[:len(s.arguments):len(s.arguments)], arguments...)
 	return s
 }
 
-- 
2.43.0


From 4272fd74fd0054b118bb8e374e918506b71199bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:01 +0000
Subject: [PATCH 25/26] fix: a WITH clause having SKIP can be continued

---
 statement_builder.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/statement_builder.go b/statement_builder.go
index 13d39ea..644b9bd 100644
--- a/statement_builder.go
+++ b/statement_builder.go
@@ -69,6 +69,8 @@ type OngoingUpdate interface {
 }
 
 type ExposesLimitAndOngoingReadingAndWith interface {
+	ExposesLimit
+	OngoingReadingAndWith
 }
 
 type OrderableOngoingReadingAndWithWithoutWhere interface {
-- 
2.43.0


From 8768ded566e012758d8523dbc61cfd74d6d997fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:41 +0000
Subject: [PATCH 26/26] fix: an alias stands for its expression after the list
 introducing it, the latest first

---
 cypher_renderer.go | 13 +++++++++----
 expression_list.go |  3 +++
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/cypher_renderer.go b/cypher_renderer.go
index 05c30ca..9708785 100644
--- a/cypher_renderer.go
+++ b/cypher_renderer.go
@@ -10,6 +10,8 @@ import (
 type CypherRenderer struct {
 	visitableToAliased     map[string]AliasedExpression
 	introducedAliases      map[introducedAlias]bool
+	aliasesOfList          []AliasedExpression
+	openLists              int
 	separatorOnLevel       map[int]string
 	resolvedSymbolicNames  map[string]string
 	visitedNamed           map[string]int
@@ -102,11 +104,14 @@ func (renderer *CypherRenderer) leave(visitable Visitable) {
 	}
 	aliasedExpression, isAliased := (visitable).(AliasedExpression)
 	if isAliased {
-		delegateKey := aliasedExpression.delegate.getKey()
-		if _, seen := renderer.visitableToAliased[delegateKey]; !seen {
-			renderer.visitableToAliased[delegateKey] = aliasedExpression
+		renderer.introducedAliases[introducedAlias{aliasedExpression.delegate.getKey(), aliasedExpression.alias}] = true
+		renderer.aliasesOfList = append(renderer.aliasesOfList, aliasedExpression)
+	}
+	if renderer.openLists == 0 {
+		for _, aliased := range renderer.aliasesOfList {
+			renderer.visitableToAliased[aliased.delegate.getKey()] = aliased
 		}
-		renderer.introducedAliases[introducedAlias{delegateKey, aliasedExpression.alias}] = true
+		renderer.aliasesOfList = nil
 	}
 }
 
diff --git a/expression_list.go b/expression_list.go
index 027ec43..78d117c 100644
--- a/expression_list.go
+++ b/expression_list.go
@@ -66,10 +66,13 @@ func (e ExpressionList) accept(visitor *CypherRenderer) {
 	visitor.leave(e)
 }
 
+// An alias does not stand for its expression before the list that introduces it ends.
 func (e ExpressionList) enter(renderer *CypherRenderer) {
+	renderer.openLists++
 }
 
 func (e ExpressionList) leave(renderer *CypherRenderer) {
+	renderer.openLists--
 }
 
 func NewExpressionList(expression ...Expression) ExpressionList {
-- 
2.43.0

