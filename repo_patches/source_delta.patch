From 0f38d1bd28f74023893f747b100ff6aba81054a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:05 +0000
Subject: [PATCH 01/63] fix: keep the negation of a symbol after its first
 evaluation

---
 vfilter.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vfilter.go b/vfilter.go
index f64a583..fe4f7b0 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -1026,6 +1026,9 @@ type _SymbolRef struct {
 	mu           sync.Mutex
 	function     FunctionInterface
 	split_symbol []string
+
+	// Set together with split_symbol when the symbol starts with -
+	split_negated bool
 }
 
 type _Value struct {
@@ -1741,11 +1744,12 @@ func (self *_SymbolRef) getFunction(scope types.Scope) (res types.Any, negated,
 	if components == nil {
 		components = utils.SplitIdent(self.Symbol)
 		if len(components) > 0 && strings.HasPrefix(components[0], "-") {
-			negated = true
+			self.split_negated = true
 			components[0] = strings.TrimPrefix(components[0], "-")
 		}
 		self.split_symbol = components
 	}
+	negated = self.split_negated
 	self.mu.Unlock()
 
 	// Single item reference and called - call built in function.
-- 
2.43.0


From 4c3e7a05f01dd3ad4c8a8a681b9551803a816eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:08 +0000
Subject: [PATCH 02/63] fix: LIMIT 0 and negative limits emit no rows

---
 vfilter.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vfilter.go b/vfilter.go
index fe4f7b0..3da1a07 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -620,6 +620,9 @@ func (self *_Select) Eval(ctx context.Context, scope types.Scope) <-chan Row {
 			defer close(output_chan)
 
 			limit := int(*self.Limit)
+			if limit <= 0 {
+				return
+			}
 			count := 1
 
 			self_copy := *self
-- 
2.43.0


From 341c0df04967335897ce499f8cb4f19db8b02f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:09 +0000
Subject: [PATCH 03/63] fix: comparisons of booleans, 32 bit floats and mixed
 numbers agree with each other

---
 protocols/protocol_eq.go | 13 ++++++++-----
 protocols/protocol_gt.go | 33 ++++++++++++++++++++-------------
 protocols/protocol_lt.go | 37 ++++++++++++++++++++++---------------
 utils/utils.go           |  2 ++
 4 files changed, 52 insertions(+), 33 deletions(-)

diff --git a/protocols/protocol_eq.go b/protocols/protocol_eq.go
index c1b2625..2529301 100644
--- a/protocols/protocol_eq.go
+++ b/protocols/protocol_eq.go
@@ -37,16 +37,19 @@ func (self EqDispatcher) Eq(scope types.Scope, a types.Any, b types.Any) bool {
 			return t == rhs
 		}
 
-	case int, int8, int16, int32, int64, uint8, uint16, uint32, uint64:
+	case bool, int, int8, int16, int32, int64, uint8, uint16, uint32, uint64:
 		lhs, ok := utils.ToInt64(a)
 		if ok {
-			return intEq(lhs, b)
+			res, ok := intEq(lhs, b)
+			if ok {
+				return res
+			}
 		}
 
-	case bool:
-		rhs, ok := b.(bool)
+	case float32:
+		rhs, ok := utils.ToFloat(b)
 		if ok {
-			return t == rhs
+			return float64(t) == rhs
 		}
 
 	case float64:
diff --git a/protocols/protocol_gt.go b/protocols/protocol_gt.go
index 3842304..54e7b91 100644
--- a/protocols/protocol_gt.go
+++ b/protocols/protocol_gt.go
@@ -22,16 +22,17 @@ func (self GtDispatcher) Copy() GtDispatcher {
 		append([]GtProtocol{}, self.impl...)}
 }
 
-func intGt(lhs int64, b types.Any) bool {
+// Only valid if both operands are numbers (ok is false otherwise).
+func intGt(lhs int64, b types.Any) (res bool, ok bool) {
 	switch b.(type) {
-	case int, int8, int16, int32, int64, uint8, uint16, uint32, uint64:
+	case bool, int, int8, int16, int32, int64, uint8, uint16, uint32, uint64:
 		rhs, _ := utils.ToInt64(b)
-		return lhs > rhs
+		return lhs > rhs, true
 	case float64, float32:
 		rhs, _ := utils.ToFloat(b)
-		return float64(lhs) > rhs
+		return float64(lhs) > rhs, true
 	}
-	return false
+	return false, false
 }
 
 func (self GtDispatcher) Gt(scope types.Scope, a types.Any, b types.Any) bool {
@@ -58,7 +59,7 @@ func (self GtDispatcher) Gt(scope types.Scope, a types.Any, b types.Any) bool {
 		}
 
 		// If it is integer like, coerce to int.
-	case int, int8, int16, int32, int64, uint8, uint16, uint32, uint64:
+	case bool, int, int8, int16, int32, int64, uint8, uint16, uint32, uint64:
 		if isTime(b) {
 			lhs, ok := utils.ToInt64(t)
 			if ok {
@@ -71,7 +72,16 @@ func (self GtDispatcher) Gt(scope types.Scope, a types.Any, b types.Any) bool {
 
 		lhs, ok := utils.ToInt64(t)
 		if ok {
-			return intGt(lhs, b)
+			res, ok := intGt(lhs, b)
+			if ok {
+				return res
+			}
+		}
+
+	case float32:
+		rhs, ok := utils.ToFloat(b)
+		if ok {
+			return float64(t) > rhs
 		}
 
 	case float64:
@@ -107,13 +117,10 @@ func (self GtDispatcher) Gt(scope types.Scope, a types.Any, b types.Any) bool {
 	case int, int8, int16, int32, int64, uint8, uint16, uint32, uint64:
 		rhs, ok := utils.ToInt64(t)
 		if ok {
-			if intLt(rhs, a) {
-				return false
-			}
-			if intEq(rhs, a) {
-				return false
+			res, ok := intLt(rhs, a)
+			if ok {
+				return res
 			}
-			return true
 		}
 
 	case float64:
diff --git a/protocols/protocol_lt.go b/protocols/protocol_lt.go
index 5123161..83d1fbf 100644
--- a/protocols/protocol_lt.go
+++ b/protocols/protocol_lt.go
@@ -30,28 +30,29 @@ func (self LtDispatcher) Copy() LtDispatcher {
 // float int  -> lhs < float(rhs)
 // float float -> lhs < lhs
 
-func intLt(lhs int64, b types.Any) bool {
+// Only valid if both operands are numbers (ok is false otherwise).
+func intLt(lhs int64, b types.Any) (res bool, ok bool) {
 	switch b.(type) {
 	case bool, int, int8, int16, int32, int64, uint8, uint16, uint32, uint64:
 		rhs, _ := utils.ToInt64(b)
-		return lhs < rhs
+		return lhs < rhs, true
 	case float64, float32:
 		rhs, _ := utils.ToFloat(b)
-		return float64(lhs) < rhs
+		return float64(lhs) < rhs, true
 	}
-	return false
+	return false, false
 }
 
-func intEq(lhs int64, b types.Any) bool {
+func intEq(lhs int64, b types.Any) (res bool, ok bool) {
 	switch b.(type) {
 	case bool, int, int8, int16, int32, int64, uint8, uint16, uint32, uint64:
 		rhs, _ := utils.ToInt64(b)
-		return lhs == rhs
+		return lhs == rhs, true
 	case float64, float32:
 		rhs, _ := utils.ToFloat(b)
-		return float64(lhs) == rhs
+		return float64(lhs) == rhs, true
 	}
-	return false
+	return false, false
 }
 
 func (self LtDispatcher) Lt(scope types.Scope, a types.Any, b types.Any) bool {
@@ -85,7 +86,16 @@ func (self LtDispatcher) Lt(scope types.Scope, a types.Any, b types.Any) bool {
 		}
 		lhs, ok := utils.ToInt64(t)
 		if ok {
-			return intLt(lhs, b)
+			res, ok := intLt(lhs, b)
+			if ok {
+				return res
+			}
+		}
+
+	case float32:
+		rhs, ok := utils.ToFloat(b)
+		if ok {
+			return float64(t) < rhs
 		}
 
 	case float64:
@@ -115,13 +125,10 @@ func (self LtDispatcher) Lt(scope types.Scope, a types.Any, b types.Any) bool {
 	case int, int8, int16, int32, int64, uint8, uint16, uint32, uint64:
 		rhs, ok := utils.ToInt64(t)
 		if ok {
-			if intGt(rhs, a) {
-				return false
-			}
-			if intEq(rhs, a) {
-				return false
+			res, ok := intGt(rhs, a)
+			if ok {
+				return res
 			}
-			return true
 		}
 
 	case float64:
diff --git a/utils/utils.go b/utils/utils.go
index c3d8d4d..d0e12d1 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -92,6 +92,8 @@ func ToFloat(x interface{}) (float64, bool) {
 		}
 	case float64:
 		return t, true
+	case float32:
+		return float64(t), true
 	case int:
 		return float64(t), true
 	case uint:
-- 
2.43.0


From 231692305bd6fca78ac1a091dc09e015cfd504d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:35 +0000
Subject: [PATCH 04/63] fix: division by a float zero is NULL, of zero by a
 float is zero

---
 protocols/protocol_div.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/protocols/protocol_div.go b/protocols/protocol_div.go
index 71c493c..69dcd84 100644
--- a/protocols/protocol_div.go
+++ b/protocols/protocol_div.go
@@ -22,6 +22,7 @@ func (self DivDispatcher) Copy() DivDispatcher {
 
 func (self DivDispatcher) Div(scope types.Scope, a types.Any, b types.Any) types.Any {
 	a = maybeReduce(a)
+	b = maybeReduce(b)
 
 	switch t := a.(type) {
 	case types.Null, *types.Null, nil:
@@ -44,7 +45,7 @@ func (self DivDispatcher) Div(scope types.Scope, a types.Any, b types.Any) types
 	case float64:
 		a_float, ok := utils.ToFloat(a)
 		if ok {
-			if a_float == 0 {
+			if t == 0 {
 				return &types.Null{}
 			}
 			return a_float / t
-- 
2.43.0


From f0029d624095ad7d4b2b15b0b6a60761eb42b027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:40 +0000
Subject: [PATCH 05/63] fix: repeating a string a negative or overflowing
 number of times is NULL

---
 protocols/protocol_mul.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/protocols/protocol_mul.go b/protocols/protocol_mul.go
index be4d3f1..e047a4e 100644
--- a/protocols/protocol_mul.go
+++ b/protocols/protocol_mul.go
@@ -33,11 +33,15 @@ func (self MulDispatcher) Mul(scope types.Scope, a types.Any, b types.Any) types
 	case string:
 		b_int, ok := utils.ToInt64(b)
 		if ok {
-			// Estimate how much memory we will use when duplicating the string
-			memory := uint64(len(t)) * uint64(b_int)
-			if memory > 100000000 { // 100mb
-				scope.Log("Multiply Str x Int exceeded memory limits. Len Str %v * Count %v = %v",
-					len(t), int(b_int), memory)
+			if b_int < 0 {
+				return &types.Null{}
+			}
+
+			// Estimate how much memory we will use when duplicating
+			// the string (Divide so the estimate can not overflow).
+			if len(t) > 0 && b_int > 100000000/int64(len(t)) { // 100mb
+				scope.Log("Multiply Str x Int exceeded memory limits. Len Str %v * Count %v",
+					len(t), b_int)
 				return &types.Null{}
 			}
 			return strings.Repeat(t, int(b_int))
-- 
2.43.0


From 8ff17af5cc5ef5fae88b1b00fbc19097b8baeb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:08 +0000
Subject: [PATCH 06/63] fix: evaluate the <> operator

---
 vfilter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vfilter.go b/vfilter.go
index 3da1a07..b56a308 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -1587,7 +1587,7 @@ func (self *_ConditionOperand) Reduce(ctx context.Context, scope types.Scope) An
 		result = scope.Lt(lhs, rhs)
 	case "=":
 		result = scope.Eq(lhs, rhs)
-	case "!=":
+	case "!=", "<>":
 		result = !scope.Eq(lhs, rhs)
 	case "<=":
 		result = scope.Lt(lhs, rhs) || scope.Eq(lhs, rhs)
-- 
2.43.0


From 95b0b25156aae2da6ec76525484f04f3b7a11db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:11 +0000
Subject: [PATCH 07/63] fix: accept IN in any letter case

---
 vfilter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vfilter.go b/vfilter.go
index b56a308..d0347f8 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -1580,8 +1580,8 @@ func (self *_ConditionOperand) Reduce(ctx context.Context, scope types.Scope) An
 
 	var result Any = false
 
-	switch self.Right.Operator {
-	case "IN", "in", "In":
+	switch strings.ToUpper(self.Right.Operator) {
+	case "IN":
 		result = scope.Membership(lhs, rhs)
 	case "<":
 		result = scope.Lt(lhs, rhs)
-- 
2.43.0


From 9c4b017c0189d1360f05f7b3d188183b2554e20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:46 +0000
Subject: [PATCH 08/63] fix: keep the scope of a grouped row open until the row
 is materialized

---
 grouper/grouper.go | 9 ++++++---
 vfilter_group.go   | 5 ++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/grouper/grouper.go b/grouper/grouper.go
index 26cbafb..7b8ed5a 100644
--- a/grouper/grouper.go
+++ b/grouper/grouper.go
@@ -44,7 +44,7 @@ func (self *DefaultGrouper) Group(
 		// Append this row to a bin based on a unique
 		// value of the group by column.
 		for {
-			row, _, bin_idx, new_scope, err := actor.GetNextRow(ctx, new_scope)
+			row, _, bin_idx, row_scope, err := actor.GetNextRow(ctx, new_scope)
 			if err != nil {
 				break
 			}
@@ -66,14 +66,17 @@ func (self *DefaultGrouper) Group(
 
 			// The transform function receives its own unique context
 			// for the specific aggregate group.
-			new_scope.SetAggregatorCtx(aggregate_ctx.context)
+			row_scope.SetAggregatorCtx(aggregate_ctx.context)
 
 			// Update the row with the transformed columns. Note we
 			// must materialize these rows because evaluating the row
 			// may have side effects (e.g. for aggregate functions).
-			new_row := actor.MaterializeRow(ctx, row, new_scope)
+			new_row := actor.MaterializeRow(ctx, row, row_scope)
 
 			aggregate_ctx.row = new_row
+
+			// The row is materialized, release everything it used.
+			row_scope.Close()
 		}
 
 		// Emit the binned set as a new result set.
diff --git a/vfilter_group.go b/vfilter_group.go
index 4912d39..36ebd89 100644
--- a/vfilter_group.go
+++ b/vfilter_group.go
@@ -67,9 +67,8 @@ func (self *GroupbyActor) GetNextRow(ctx context.Context, scope types.Scope) (
 		gb_element := types.ToString(ctx, new_scope,
 			self.delegate.GroupBy.Reduce(ctx, new_scope))
 
-		closer()
-
-		// Emit a single row.
+		// Emit a single row. The row is not materialized yet so its
+		// scopes must remain open until the caller closes new_scope.
 		return transformed_row, row, gb_element, new_scope, nil
 	}
 
-- 
2.43.0


From fff881597466f080a86873b1cbf8717332e08b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:08 +0000
Subject: [PATCH 09/63] fix: GROUP BY keeps distinct values in distinct groups

---
 vfilter_group.go | 39 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/vfilter_group.go b/vfilter_group.go
index 36ebd89..4c423c1 100644
--- a/vfilter_group.go
+++ b/vfilter_group.go
@@ -3,6 +3,9 @@ package vfilter
 import (
 	"context"
 	"io"
+	"reflect"
+	"strconv"
+	"strings"
 
 	"github.com/Velocidex/ordereddict"
 	scope_module "www.velocidex.com/golang/vfilter/scope"
@@ -64,7 +67,7 @@ func (self *GroupbyActor) GetNextRow(ctx context.Context, scope types.Scope) (
 
 		// Materialize the group by value as much as possible - we
 		// don't want a lazy item here.
-		gb_element := types.ToString(ctx, new_scope,
+		gb_element := groupKey(ctx, new_scope,
 			self.delegate.GroupBy.Reduce(ctx, new_scope))
 
 		// Emit a single row. The row is not materialized yet so its
@@ -75,6 +78,40 @@ func (self *GroupbyActor) GetNextRow(ctx context.Context, scope types.Scope) (
 	return nil, nil, "", nil, io.EOF
 }
 
+// Build a key for the group by value such that distinct values have
+// distinct keys: strings are quoted so they can not be confused with
+// other types or run into the other members of a list.
+func groupKey(ctx context.Context, scope types.Scope, value Any) string {
+	switch t := value.(type) {
+	case nil, Null, *Null:
+		return "NULL"
+
+	case string:
+		return strconv.Quote(t)
+
+	case []byte:
+		return strconv.Quote(string(t))
+
+	case LazyExpr:
+		return groupKey(ctx, scope, t.Reduce(ctx))
+
+	case StoredQuery:
+		return groupKey(ctx, scope, types.Materialize(ctx, scope, t))
+	}
+
+	a_value := reflect.ValueOf(value)
+	if a_value.Kind() == reflect.Slice {
+		members := make([]string, 0, a_value.Len())
+		for i := 0; i < a_value.Len(); i++ {
+			members = append(members, groupKey(
+				ctx, scope, a_value.Index(i).Interface()))
+		}
+		return "[" + strings.Join(members, ", ") + "]"
+	}
+
+	return types.ToString(ctx, scope, value)
+}
+
 func (self *GroupbyActor) MaterializeRow(ctx context.Context,
 	row types.Row, scope types.Scope) *ordereddict.Dict {
 	return MaterializedLazyRow(ctx, row, scope)
-- 
2.43.0


From d2b4a3a8836812a54bec595922bd6392d305c133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:31 +0000
Subject: [PATCH 10/63] fix: ORDER BY sorts NULL and missing values lowest and
 DESC is a strict order

---
 sort/sort.go | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/sort/sort.go b/sort/sort.go
index b9ed8ee..80a4708 100644
--- a/sort/sort.go
+++ b/sort/sort.go
@@ -72,31 +72,31 @@ func (self *DefaultSorterCtx) Len() int {
 }
 
 func (self *DefaultSorterCtx) Less(i, j int) bool {
-	element1, pres1 := self.Scope.Associative(
+	element1, _ := self.Scope.Associative(
 		self.Items[i], self.OrderBy)
 
-	element2, pres2 := self.Scope.Associative(
+	element2, _ := self.Scope.Associative(
 		self.Items[j], self.OrderBy)
 
-	if !pres1 || !pres2 {
-		return false
+	if self.Desc {
+		return self.lt(element2, element1)
 	}
 
-	// Sort NULL like an empty string because normally NULL
-	// comparisons are not stable.
-	if types.IsNil(element1) {
-		element1 = ""
-	}
+	return self.lt(element1, element2)
+}
 
-	if types.IsNil(element2) {
-		element2 = ""
+// NULL and missing values sort below any other value because normally
+// NULL comparisons are not stable.
+func (self *DefaultSorterCtx) lt(a, b types.Any) bool {
+	if types.IsNil(a) {
+		return !types.IsNil(b)
 	}
 
-	if self.Desc {
-		return !self.Scope.Lt(element1, element2)
+	if types.IsNil(b) {
+		return false
 	}
 
-	return self.Scope.Lt(element1, element2)
+	return self.Scope.Lt(a, b)
 }
 
 func (self *DefaultSorterCtx) Swap(i, j int) {
-- 
2.43.0


From 5ecabbab22057526d5c591a0c31c9876e6a11751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:34 +0000
Subject: [PATCH 11/63] fix: ORDER BY does not leak its feeder when the query
 is cancelled

---
 vfilter.go       | 6 +++++-
 vfilter_group.go | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/vfilter.go b/vfilter.go
index d0347f8..247aca3 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -676,7 +676,11 @@ func (self *_Select) Eval(ctx context.Context, scope types.Scope) <-chan Row {
 			self_copy.OrderBy = nil
 
 			for row := range self_copy.Eval(ctx, scope) {
-				sorter_input_chan <- row
+				select {
+				case <-ctx.Done():
+					return
+				case sorter_input_chan <- row:
+				}
 			}
 		}()
 
diff --git a/vfilter_group.go b/vfilter_group.go
index 4c423c1..bca1c04 100644
--- a/vfilter_group.go
+++ b/vfilter_group.go
@@ -150,7 +150,11 @@ func (self *_Select) EvalGroupBy(ctx context.Context, scope types.Scope) <-chan
 		self_copy.OrderBy = nil
 
 		for row := range grouper_output_chan {
-			sorter_input_chan <- row
+			select {
+			case <-ctx.Done():
+				return
+			case sorter_input_chan <- row:
+			}
 		}
 	}()
 
-- 
2.43.0


From eac7c7e13e891796421c96f6de2390ed1e3c01e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:15 +0000
Subject: [PATCH 12/63] fix: each evaluation of a statement has its own
 aggregate state

---
 vfilter.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vfilter.go b/vfilter.go
index 247aca3..896d75b 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -493,6 +493,11 @@ func (self *VQL) Eval(ctx context.Context, scope types.Scope) <-chan Row {
 
 	} else {
 		subscope := scope.Copy()
+
+		// Each evaluation aggregates independently: aggregate
+		// functions must not continue from a previous (or a
+		// concurrent) evaluation of the same statement.
+		subscope.SetAggregatorCtx(nil)
 		subscope.AppendVars(
 			ordereddict.NewDict().Set("$Query", FormatToString(scope, self)))
 
-- 
2.43.0


From 28345ff085d064df4d1af00471f16687d993ffb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:33 +0000
Subject: [PATCH 13/63] fix: a column which replaces another of the same name
 is evaluated once per row

---
 lazy.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/lazy.go b/lazy.go
index 88da892..b24dc51 100644
--- a/lazy.go
+++ b/lazy.go
@@ -38,8 +38,20 @@ type LazyRowImpl struct {
 
 func (self *LazyRowImpl) AddColumn(
 	name string, getter func(ctx context.Context, scope types.Scope) types.Any) types.LazyRow {
-	self.getters[name] = getter
+	// Adding a column again replaces the previous one, each column is
+	// only listed (and evaluated) once.
+	_, pres := self.getters[name]
+	if pres {
+		columns := make([]string, 0, len(self.columns)+1)
+		for _, c := range self.columns {
+			if c != name {
+				columns = append(columns, c)
+			}
+		}
+		self.columns = columns
+	}
 	self.columns = append(self.columns, name)
+	self.getters[name] = getter
 	return self
 }
 
-- 
2.43.0


From 0c2de9a7c0f7e93439ca79dd1abe5a0f5c80c71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:15 +0000
Subject: [PATCH 14/63] fix: range() ends when the step is negative or
 overflows

---
 plugins/range.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/plugins/range.go b/plugins/range.go
index bf1c0a6..bd4d455 100644
--- a/plugins/range.go
+++ b/plugins/range.go
@@ -36,6 +36,11 @@ func (self RangePlugin) Call(
 			arg.Step = 1
 		}
 
+		// A negative step never reaches the end.
+		if arg.Step < 0 {
+			return
+		}
+
 		for i := arg.Start; i < arg.End; i += arg.Step {
 			select {
 			case <-ctx.Done():
@@ -43,6 +48,11 @@ func (self RangePlugin) Call(
 
 			case output_chan <- ordereddict.NewDict().Set("_value", i):
 			}
+
+			// The next step overflows so it is beyond the end.
+			if i+arg.Step < i {
+				return
+			}
 		}
 	}()
 
-- 
2.43.0


From 90c68cb258e7b59de08cfc5d573bcaaff39d73a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:18 +0000
Subject: [PATCH 15/63] fix: foreach() does not block forever when its workers
 are gone or their number is negative

---
 plugins/foreach.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/plugins/foreach.go b/plugins/foreach.go
index 6122d7a..2b31d0f 100644
--- a/plugins/foreach.go
+++ b/plugins/foreach.go
@@ -39,7 +39,7 @@ func (self _ForeachPluginImpl) Call(ctx context.Context,
 		}
 
 		// At least one worker
-		if arg.Workers == 0 {
+		if arg.Workers <= 0 {
 			arg.Workers = 1
 		}
 
@@ -90,7 +90,7 @@ func (self _ForeachPluginImpl) Call(ctx context.Context,
 				// child_scope is closed in the pool worker.
 
 				child_scope.AppendVars(row_item)
-				pool.RunScope(child_scope)
+				pool.RunScope(ctx, child_scope)
 			}
 		}
 	}()
@@ -118,8 +118,13 @@ type workerPool struct {
 	output_chan chan types.Row
 }
 
-func (self *workerPool) RunScope(scope types.Scope) {
-	self.ch <- scope
+func (self *workerPool) RunScope(ctx context.Context, scope types.Scope) {
+	select {
+	case <-ctx.Done():
+		// The workers may be gone already.
+		scope.Close()
+	case self.ch <- scope:
+	}
 }
 
 func (self *workerPool) Close() {
-- 
2.43.0


From 02e875a1a7b0bc80d335c5bf08ca981c1665aaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:02 +0000
Subject: [PATCH 16/63] fix: a call site evaluated in another scope calls the
 function of that scope

---
 vfilter.go | 56 ++++++++++++++++++++++++++++++------------------------
 1 file changed, 31 insertions(+), 25 deletions(-)

diff --git a/vfilter.go b/vfilter.go
index 896d75b..1372372 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -1035,9 +1035,10 @@ type _SymbolRef struct {
 	Called     bool     `{ @"(" `
 	Parameters []*_Args ` [ @@ { "," @@ } ] ")" } `
 
-	mu           sync.Mutex
-	function     FunctionInterface
-	split_symbol []string
+	mu            sync.Mutex
+	function      FunctionInterface
+	function_type reflect.Type
+	split_symbol  []string
 
 	// Set together with split_symbol when the symbol starts with -
 	split_negated bool
@@ -1983,7 +1984,6 @@ func (self *_SymbolRef) callFunction(
 
 	self.mu.Lock()
 	parameters := self.Parameters
-	function := self.function
 	self.mu.Unlock()
 
 	// Build up the args to pass to the function.
@@ -2006,30 +2006,10 @@ func (self *_SymbolRef) callFunction(
 		}
 	}
 
-	// If this AST node previously called a function, we use the
-	// same function copy to ensure it may store internal state.
-	if function != nil {
-		scope.GetStats().IncFunctionsCalled()
-		result := function.Call(ctx, scope, args)
-		if result == nil {
-			return &Null{}
-		}
-		return result
-	}
-
-	// Make a copy of the function and cache it for next time -
-	// this allows the function to store state since each
-	// reference in the AST is unique.
-	func_obj = CopyFunction(func_obj)
-
-	self.mu.Lock()
-	self.function = func_obj
-	self.mu.Unlock()
-
 	// Call the function now.
 	scope.GetStats().IncFunctionsCalled()
 
-	result := func_obj.Call(ctx, scope, args)
+	result := self.getFunctionCopy(func_obj).Call(ctx, scope, args)
 
 	// Do not allow nil in VQL since it is not compatible with
 	// reflect package. The VQL plugin might accidentally pass nil
@@ -2040,6 +2020,32 @@ func (self *_SymbolRef) callFunction(
 	return result
 }
 
+// Each call site has its own copy of the function - this allows the
+// function to store state since each reference in the AST is unique.
+// The same query may be evaluated in another scope where the symbol
+// is a different function, so the copy is only good for the function
+// it was made from.
+func (self *_SymbolRef) getFunctionCopy(
+	func_obj FunctionInterface) FunctionInterface {
+
+	// Generic functions have no state of their own and they all have
+	// the same type.
+	switch func_obj.(type) {
+	case GenericFunction, *GenericFunction:
+		return func_obj
+	}
+
+	self.mu.Lock()
+	defer self.mu.Unlock()
+
+	func_type := reflect.TypeOf(func_obj)
+	if self.function == nil || self.function_type != func_type {
+		self.function = CopyFunction(func_obj)
+		self.function_type = func_type
+	}
+	return self.function
+}
+
 func GetIntScope(scope_int types.Scope) *scope.Scope {
 	result, ok := scope_int.(*scope.Scope)
 	if ok {
-- 
2.43.0


From 199d9a030dcc252c9224e93a207d734b8af6f1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:14 +0000
Subject: [PATCH 17/63] fix: format() with bad arguments is NULL

---
 functions/format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/functions/format.go b/functions/format.go
index d7d4101..32fe7b0 100644
--- a/functions/format.go
+++ b/functions/format.go
@@ -24,7 +24,7 @@ func (self FormatFunction) Call(ctx context.Context,
 	err := arg_parser.ExtractArgsWithContext(ctx, scope, args, arg)
 	if err != nil {
 		scope.Log("format: %v", err)
-		return false
+		return types.Null{}
 	}
 
 	var format_args []interface{}
-- 
2.43.0


From d561dee937bf60c5d71005cdd320d7ce909a6794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:17 +0000
Subject: [PATCH 18/63] fix: len() of a nil value is zero

---
 functions/functions.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/functions/functions.go b/functions/functions.go
index 951e48b..b002180 100644
--- a/functions/functions.go
+++ b/functions/functions.go
@@ -247,6 +247,10 @@ func (self LenFunction) Call(ctx context.Context,
 		return &types.Null{}
 	}
 
+	if types.IsNil(arg.List) {
+		return 0
+	}
+
 	slice := reflect.ValueOf(arg.List)
 	// A slice of strings. Only the following are supported
 	// https://golang.org/pkg/reflect/#Value.Len
-- 
2.43.0


From 091448657e99a2d89afae048cfff742269cde1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:52 +0000
Subject: [PATCH 19/63] fix: a NULL default must not hide unknown names or
 outer defaults

Rows which are not dicts report a missing field together with a NULL value. Resolve
took this for a default: unknown names in WHERE, GROUP BY and inside such rows were
never logged, and a real default of an outer dict was masked.
---
 scope/scope.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scope/scope.go b/scope/scope.go
index 919f183..546dad5 100644
--- a/scope/scope.go
+++ b/scope/scope.go
@@ -670,8 +670,9 @@ func (self *Scope) _ResolveVars(field string, vars []types.Row) (interface{}, bo
 			return element, true
 		}
 
-		// Default value of inner most scope will prevail.
-		if element != nil && default_value == nil {
+		// Default value of inner most scope will prevail. NULL means
+		// the subscope does not specify a default.
+		if !types.IsNil(element) && default_value == nil {
 			default_value = element
 		}
 	}
-- 
2.43.0


From 27722ac8a1f15940fdd66bcff0f5b72377743718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:18 +0000
Subject: [PATCH 20/63] fix: a NULL row in the scope must not hide outer
 variables

Selecting from a list which contains NULL made every outer name resolve to NULL for that row.
---
 scope/scope.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scope/scope.go b/scope/scope.go
index 546dad5..ab66de2 100644
--- a/scope/scope.go
+++ b/scope/scope.go
@@ -653,6 +653,11 @@ func (self *Scope) _ResolveVars(field string, vars []types.Row) (interface{}, bo
 	for i := len(vars) - 1; i >= 0; i-- {
 		subscope := vars[i]
 
+		// A NULL row binds nothing - it should not hide outer names.
+		if types.IsNil(subscope) {
+			continue
+		}
+
 		// Allow each subscope to specify a default. In the
 		// end if a default was found then return Resolve as
 		// present.
-- 
2.43.0


From 15bf583e19806c43d23920d17f14c8502f07ce5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:28 +0000
Subject: [PATCH 21/63] fix: unquote the parameter names of a lambda

---
 lambda.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lambda.go b/lambda.go
index fb18e22..8b4ff16 100644
--- a/lambda.go
+++ b/lambda.go
@@ -6,6 +6,7 @@ import (
 	"github.com/Velocidex/ordereddict"
 	"github.com/alecthomas/participle/v2"
 	"www.velocidex.com/golang/vfilter/types"
+	"www.velocidex.com/golang/vfilter/utils"
 )
 
 var (
@@ -25,7 +26,7 @@ func (self *Lambda) GetParameters() []string {
 
 	var visitor func(parameters *_ParameterList)
 	visitor = func(parameters *_ParameterList) {
-		result = append(result, parameters.Left)
+		result = append(result, utils.Unquote_ident(parameters.Left))
 		if parameters.Right != nil {
 			visitor(parameters.Right.Term)
 		}
-- 
2.43.0


From a67c6b6f0f60766f97c9807029ff1f5c64b6c707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:32 +0000
Subject: [PATCH 22/63] fix: a struct field whose name is the json name of
 another field was not found

---
 protocols/protocol_associative.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/protocols/protocol_associative.go b/protocols/protocol_associative.go
index 9ee988d..c938e91 100644
--- a/protocols/protocol_associative.go
+++ b/protocols/protocol_associative.go
@@ -248,7 +248,11 @@ func (self DefaultAssociative) Associative(scope types.Scope, a types.Any, b typ
 
 		// A struct with regular exportable field.
 		if a_type.Kind() == reflect.Struct {
-			field_value := a_value.FieldByNameFunc(FieldMatchName(a_type, field_name))
+			field_value := a_value.FieldByName(field_name)
+			if !field_value.IsValid() || !field_value.CanInterface() {
+				field_value = a_value.FieldByNameFunc(
+					FieldMatchName(a_type, field_name))
+			}
 			if field_value.IsValid() && field_value.CanInterface() {
 				if field_value.Kind() == reflect.Ptr && field_value.IsNil() {
 					return &types.Null{}, true
-- 
2.43.0


From b1e41fb667206e27a129d81fea2eaba095fb6fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:53 +0000
Subject: [PATCH 23/63] fix: destructors accepted while a scope was closing
 could be lost

---
 scope/scope.go | 42 +++++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/scope/scope.go b/scope/scope.go
index ab66de2..3eff1b5 100644
--- a/scope/scope.go
+++ b/scope/scope.go
@@ -35,13 +35,6 @@ type _destructors struct {
 	wg           sync.WaitGroup
 }
 
-func (self *_destructors) SetDestroyed() {
-	self.mu.Lock()
-	defer self.mu.Unlock()
-
-	self.is_destroyed = true
-}
-
 func (self *_destructors) IsDestroyed() bool {
 	self.mu.Lock()
 	defer self.mu.Unlock()
@@ -49,19 +42,32 @@ func (self *_destructors) IsDestroyed() bool {
 	return self.is_destroyed
 }
 
-func (self *_destructors) AddDestructor(fn func()) {
+// Returns false if the destructor was not added, because no one will
+// call it any more.
+func (self *_destructors) AddDestructor(fn func()) bool {
 	self.mu.Lock()
 	defer self.mu.Unlock()
 
+	if self.is_destroyed {
+		return false
+	}
+
 	self.fn = append(self.fn, fn)
+	return true
 }
 
-func (self *_destructors) RemoveDestructors() []func() {
+// Removes all the pending destructors for the caller to run. When
+// there are none left, or this is the last time the caller is going
+// to look, new destructors are refused from now on.
+func (self *_destructors) RemoveDestructors(last bool) []func() {
 	self.mu.Lock()
 	defer self.mu.Unlock()
 
 	result := append(self.fn[:0:0], self.fn...)
 	self.fn = nil
+	if last || len(result) == 0 {
+		self.is_destroyed = true
+	}
 	return result
 }
 
@@ -467,16 +473,14 @@ func (self *Scope) AddDestructor(fn func()) error {
 	defer self.Unlock()
 
 	// Scope is already destroyed - call the destructor now.
-	if self.destructors.IsDestroyed() {
+	if !self.destructors.AddDestructor(fn) {
 		_, file, line, ok := runtime.Caller(1)
 		if ok {
 			self.Log("Scope already closed when adding destructor %v:%d", file, line)
 		}
 		return errors.New("Scope already closed")
-	} else {
-		self.destructors.AddDestructor(fn)
-		return nil
 	}
+	return nil
 }
 
 func (self *Scope) IsClosed() bool {
@@ -530,19 +534,15 @@ func (self *Scope) Close() {
 	// Now we call destructors. Because it is impossible to determine
 	// the order the destructors are called on the same scope, we
 	// sometimes need to retry the destructors. This means the
-	// destructors will reschedule themselves to be called again. At
-	// the end of this function we prevent new destructors from being
-	// added to this scope.
-
-	// Stop new destructors from appearing on this scope, once this
-	// function returns.
-	defer self.destructors.SetDestroyed()
+	// destructors will reschedule themselves to be called again. Once
+	// there are no more destructors to run (or we retried too many
+	// times) new destructors can not be added to this scope.
 
 	// Destructors are called in reverse order to their
 	// declarations.
 	for try := 0; try < 10; try++ {
 		// Remove destructors from list so they are not run again.
-		ds := self.destructors.RemoveDestructors()
+		ds := self.destructors.RemoveDestructors(try == 9)
 		if len(ds) == 0 {
 			// No more destructors left - we are done.
 			break
-- 
2.43.0


From 41a03ebb568ebf55356d9e8260896c5bd30a9f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:56 +0000
Subject: [PATCH 24/63] fix: the scope of a called query was closed while the
 query was running

---
 stored.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/stored.go b/stored.go
index 8ac8c51..b4642e8 100644
--- a/stored.go
+++ b/stored.go
@@ -98,7 +98,6 @@ func (self *_StoredQuery) Call(ctx context.Context,
 	// functions inside the stored query start fresh.
 	sub_scope := scope.Copy()
 	sub_scope.SetAggregatorCtx(nil)
-	defer sub_scope.Close()
 
 	self.checkCallingArgs(sub_scope, args)
 
@@ -120,7 +119,23 @@ func (self *_StoredQuery) Call(ctx context.Context,
 	}
 
 	sub_scope.AppendVars(vars)
-	return self.Eval(ctx, sub_scope)
+
+	// The scope must remain open until all the rows are produced.
+	output_chan := make(chan Row)
+	go func() {
+		defer close(output_chan)
+		defer sub_scope.Close()
+
+		for row := range self.Eval(ctx, sub_scope) {
+			select {
+			case <-ctx.Done():
+				return
+
+			case output_chan <- row:
+			}
+		}
+	}()
+	return output_chan
 }
 
 func (self *_StoredQuery) checkCallingArgs(scope types.Scope, args *ordereddict.Dict) {
-- 
2.43.0


From 086e200db7bdb3d247068de46e36c7e04763fe0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:16 +0000
Subject: [PATCH 25/63] fix: testing the truth of a lazy query left the query
 running

---
 protocols/stored_query.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/protocols/stored_query.go b/protocols/stored_query.go
index 3d7c933..f38dccd 100644
--- a/protocols/stored_query.go
+++ b/protocols/stored_query.go
@@ -57,6 +57,10 @@ type _StoredQueryBool struct{}
 func (self _StoredQueryBool) Bool(ctx context.Context, scope types.Scope, a types.Any) bool {
 	stored_query, ok := a.(types.StoredQuery)
 	if ok {
+		// Cancel the query when we return.
+		ctx, cancel := context.WithCancel(ctx)
+		defer cancel()
+
 		new_scope := scope.Copy()
 		defer new_scope.Close()
 
-- 
2.43.0


From 623cfc207a8451b3bcd80a5880eb3993dc519494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:34 +0000
Subject: [PATCH 26/63] fix: materializing a query of more than 10000 rows
 never ended

---
 types/stored_query.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/types/stored_query.go b/types/stored_query.go
index 05eb12c..fc3d2b1 100644
--- a/types/stored_query.go
+++ b/types/stored_query.go
@@ -2,6 +2,7 @@ package types
 
 import (
 	"context"
+	"fmt"
 )
 
 // A plugin like object which takes no arguments but may be inserted
@@ -24,10 +25,25 @@ func Materialize(ctx context.Context, scope Scope, stored_query StoredQuery) []R
 
 		if !warned && len(result) > 10000 {
 			scope.Log("WARN:During Materialize of StoredQuery %s: Expand larger than 10,000 rows!",
-				ToString(ctx, scope, stored_query))
+				describeStoredQuery(stored_query))
 			warned = true
 		}
 	}
 
 	return result
 }
+
+// Describe the query for logging. Note that ToString() materializes
+// the query again so it can not be used here.
+func describeStoredQuery(stored_query StoredQuery) string {
+	switch t := stored_query.(type) {
+	case fmt.GoStringer:
+		return t.GoString()
+
+	case fmt.Stringer:
+		return t.String()
+
+	default:
+		return fmt.Sprintf("%T", stored_query)
+	}
+}
-- 
2.43.0


From b87a45bca9e2ac0e56dc0125960cfee00fa00454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:42 +0000
Subject: [PATCH 27/63] fix: formatting a query wrote to the shared syntax
 tree, explaining one read it while it was evaluated

---
 lazy.go    | 14 ++++++++++++++
 vfilter.go |  2 --
 visitor.go |  8 ++++++--
 3 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/lazy.go b/lazy.go
index b24dc51..3f563ae 100644
--- a/lazy.go
+++ b/lazy.go
@@ -4,6 +4,7 @@ package vfilter
 
 import (
 	"context"
+	"encoding/json"
 	"sync"
 
 	"github.com/Velocidex/ordereddict"
@@ -152,6 +153,19 @@ func NewLazyExpr(ctx context.Context,
 	}
 }
 
+// The parsed expression is shared between concurrent evaluations - only
+// describe its text (e.g. when explaining a query).
+func (self *LazyExprImpl) GoString() string {
+	if self.Expr == nil {
+		return "NULL"
+	}
+	return FormatToString(self.scope, self.Expr)
+}
+
+func (self *LazyExprImpl) MarshalJSON() ([]byte, error) {
+	return json.Marshal(self.GoString())
+}
+
 func (self *LazyExprImpl) ReduceWithScope(
 	ctx context.Context, scope types.Scope) types.Any {
 	var result types.Any
diff --git a/vfilter.go b/vfilter.go
index 1372372..3226dd7 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -830,8 +830,6 @@ type _AliasedExpression struct {
 
 	As string `[ AS @Ident ]`
 
-	// The position of this column in the SELECT
-	pos                int
 	mu                 sync.Mutex
 	cache, column_name *string
 }
diff --git a/visitor.go b/visitor.go
index 1fb0077..56c5a9b 100644
--- a/visitor.go
+++ b/visitor.go
@@ -131,6 +131,9 @@ type Visitor struct {
 	// Current position along the line.
 	pos int
 
+	// The index of the select expression we are about to visit.
+	expr_idx int
+
 	opts FormatOptions
 
 	// The max width of any of the lines in this visitor
@@ -454,7 +457,8 @@ func (self *Visitor) visitAliasedExpression(node *_AliasedExpression) {
 		return
 	}
 
-	pos := node.pos
+	// The index of this expression among its siblings.
+	pos := self.expr_idx
 
 	if node.Expression != nil {
 		// We have two choices here - fit the expression on the
@@ -1003,7 +1007,7 @@ func (self *Visitor) visitSelectExpression(node *_SelectExpression) {
 	}
 
 	for idx, item := range node.Expressions {
-		item.pos = idx
+		self.expr_idx = idx
 
 		self.Visit(item)
 		// No trailing , in the last element.
-- 
2.43.0


From 83104253f04ac957b73b5b0a94c8ebb52d0b4de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:41 +0000
Subject: [PATCH 28/63] fix: evaluate parameter defaults one level deeper than
 the call

A default which refers to its own definition recursed without ever
reaching the depth limit and exhausted the stack.
---
 vfilter.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/vfilter.go b/vfilter.go
index 3226dd7..78c7ad4 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -1855,20 +1855,21 @@ func (self *_SymbolRef) Reduce(ctx context.Context, scope types.Scope) Any {
 		// it.
 		case *StoredExpression:
 			subscope := scope.Copy()
-
-			// Only create a new context for called functions.
-			if self.Called {
-				subscope.SetAggregatorCtx(nil)
-			}
 			defer subscope.Close()
 
 			if subscope.CheckForOverflow() {
 				return &Null{}
 			}
 
+			// Defaults may refer to this definition again, so they
+			// are evaluated one level deeper than the call.
 			args := self.buildArgsFromParameters(ctx, scope)
-			types.MaybeApplyDefaultArgs(t, ctx, scope, args)
+			types.MaybeApplyDefaultArgs(t, ctx, subscope, args)
 
+			// Only create a new context for called functions.
+			if self.Called {
+				subscope.SetAggregatorCtx(nil)
+			}
 			subscope.AppendVars(args)
 
 			scope.GetStats().IncFunctionsCalled()
@@ -1887,8 +1888,6 @@ func (self *_SymbolRef) Reduce(ctx context.Context, scope types.Scope) Any {
 				// context to make sure that aggregate functions
 				// inside the stored query start fresh.
 				subscope := scope.Copy()
-				subscope.SetAggregatorCtx(nil)
-
 				defer subscope.Close()
 
 				if subscope.CheckForOverflow() {
@@ -1896,8 +1895,9 @@ func (self *_SymbolRef) Reduce(ctx context.Context, scope types.Scope) Any {
 				}
 
 				vars := self.buildArgsFromParameters(ctx, scope)
-				types.MaybeApplyDefaultArgs(t, ctx, scope, vars)
+				types.MaybeApplyDefaultArgs(t, ctx, subscope, vars)
 
+				subscope.SetAggregatorCtx(nil)
 				subscope.AppendVars(vars)
 
 				scope.GetStats().IncFunctionsCalled()
-- 
2.43.0


From 7b65783e02f7a8c9265354d4b1f221c0b0909299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:45 +0000
Subject: [PATCH 29/63] fix: do not search a scope() row again for what is
 already in scope

A row of the scope() plugin is the scope itself. Each level of nesting
doubled the time taken to look up a name, so nested or recursive
queries over scope() never finished.
---
 scope/scope.go | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/scope/scope.go b/scope/scope.go
index 3eff1b5..a97bbc0 100644
--- a/scope/scope.go
+++ b/scope/scope.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"log"
+	"reflect"
 	"runtime"
 	"runtime/debug"
 	"strings"
@@ -658,6 +659,13 @@ func (self *Scope) _ResolveVars(field string, vars []types.Row) (interface{}, bo
 			continue
 		}
 
+		// A scope can be one of its own variables (a row of the
+		// scope() plugin). Everything it binds comes next anyway, and
+		// searching it twice at every level of nesting takes forever.
+		if outer, ok := subscope.(*Scope); ok && outer.binds(vars[:i]) {
+			continue
+		}
+
 		// Allow each subscope to specify a default. In the
 		// end if a default was found then return Resolve as
 		// present.
@@ -685,6 +693,28 @@ func (self *Scope) _ResolveVars(field string, vars []types.Row) (interface{}, bo
 	return default_value, default_value != nil
 }
 
+// Is this scope made up of exactly these variables?
+func (self *Scope) binds(vars []types.Row) bool {
+	self.Lock()
+	defer self.Unlock()
+
+	if len(self.vars) != len(vars) {
+		return false
+	}
+
+	for i, row := range self.vars {
+		a, b := reflect.ValueOf(row), reflect.ValueOf(vars[i])
+		if a.IsValid() != b.IsValid() {
+			return false
+		}
+		if a.IsValid() &&
+			(!a.Comparable() || !b.Comparable() || row != vars[i]) {
+			return false
+		}
+	}
+	return true
+}
+
 // Scope Associative
 type _ScopeAssociative struct{}
 
-- 
2.43.0


From b18c1c3734664219714ef30c4cb41973ee6b56db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:58 +0000
Subject: [PATCH 30/63] fix: a stored query called with no arguments was
 reported as not a function

Q() as a value must behave like Q(x=1) with every parameter taking its
default.
---
 vfilter.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/vfilter.go b/vfilter.go
index 78c7ad4..a22962b 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -1877,11 +1877,12 @@ func (self *_SymbolRef) Reduce(ctx context.Context, scope types.Scope) Any {
 			return self.maybeNegate(ctx, scope, negated, t.Reduce(ctx, subscope))
 
 		case StoredQuery:
-			// If the call site specifies parameters then
-			// we materialize the plugin at this
+			// If the symbol is called (possibly relying
+			// on defaults for all its parameters) then we
+			// materialize the plugin at this
 			// point. Otherwise pass the stored query
 			// through.
-			if self.Parameters != nil {
+			if self.Called {
 
 				// When running a stored query as a function we need
 				// to use a brand new scope with its own aggregator
-- 
2.43.0


From a141568cb33f4e3c9885fffb48eb01f195fe91e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:04 +0000
Subject: [PATCH 31/63] fix: refuse queries nested so deeply that parsing
 exhausts the stack

100000 nested brackets (200kb of text) crashed the host process.
---
 lambda.go  |  2 +-
 vfilter.go | 61 ++++++++++++++++++++++++++++++++++++++++++++++++++----
 2 files changed, 58 insertions(+), 5 deletions(-)

diff --git a/lambda.go b/lambda.go
index 8b4ff16..22b19df 100644
--- a/lambda.go
+++ b/lambda.go
@@ -11,7 +11,7 @@ import (
 
 var (
 	lambdaParser = participle.MustBuild[Lambda](
-		participle.Lexer(vqlLexer),
+		participle.Lexer(&droppingLexerDef{Definition: vqlLexer}),
 		participle.Elide("Comment", "MLineComment", "VQLComment"))
 )
 
diff --git a/vfilter.go b/vfilter.go
index a22962b..6615b94 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -202,7 +202,7 @@ var (
 	)
 
 	multiVQLParserWithComments = participle.MustBuild[MultiVQL](
-		participle.Lexer(vqlLexer),
+		participle.Lexer(&droppingLexerDef{Definition: vqlLexer}),
 		participle.Upper("IN", "DESC"),
 	)
 )
@@ -219,6 +219,8 @@ type droppingLexerDef struct {
 type droppingLexer struct {
 	lexer.Lexer
 	drop map[lexer.TokenType]bool
+
+	nesting nestingCounter
 }
 
 func (self *droppingLexerDef) Lex(filename string, r io.Reader) (lexer.Lexer, error) {
@@ -233,7 +235,11 @@ func (self *droppingLexerDef) Lex(filename string, r io.Reader) (lexer.Lexer, er
 		drop[symbols[name]] = true
 	}
 
-	return &droppingLexer{Lexer: lex, drop: drop}, nil
+	return &droppingLexer{
+		Lexer:   lex,
+		drop:    drop,
+		nesting: nestingCounter{symbols: symbols},
+	}, nil
 }
 
 func (self *droppingLexer) Next() (lexer.Token, error) {
@@ -242,10 +248,57 @@ func (self *droppingLexer) Next() (lexer.Token, error) {
 		if err != nil {
 			return t, err
 		}
-		if !self.drop[t.Type] {
-			return t, nil
+
+		if self.drop[t.Type] {
+			continue
+		}
+
+		err = self.nesting.check(t)
+		return t, err
+	}
+}
+
+const (
+	MAX_NESTING    = 10000
+	MAX_STATEMENTS = 100000
+)
+
+// The parser recurses into each level of brackets, each NOT and each
+// statement. Exhausting the stack can not be recovered from, so
+// refuse queries which would do that.
+type nestingCounter struct {
+	symbols map[string]lexer.TokenType
+
+	depth, not_depth, statements int
+}
+
+func (self *nestingCounter) check(t lexer.Token) error {
+	switch t.Value {
+	case "(", "[", "{":
+		self.depth++
+	case ")", "]", "}":
+		self.depth--
+	}
+
+	switch t.Type {
+	case self.symbols["NOT"]:
+		self.not_depth++
+	case self.symbols["LET"], self.symbols["SELECT"]:
+		self.not_depth = 0
+		if self.depth <= 0 {
+			self.statements++
 		}
+	default:
+		self.not_depth = 0
+	}
+
+	if self.depth+self.not_depth > MAX_NESTING {
+		return participle.Errorf(t.Pos, "query is nested too deeply")
 	}
+	if self.statements > MAX_STATEMENTS {
+		return participle.Errorf(t.Pos, "too many statements")
+	}
+	return nil
 }
 
 func reportError(err error, pos lexer.Position, expression string) error {
-- 
2.43.0


From c3de7e809591e0f8daacb66cd55d9e26dbfef0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:57 +0000
Subject: [PATCH 32/63] fix: storing a nil argument in a field panicked, as did
 fields of type float32 or of named strings

---
 arg_parser/args.go   | 12 ++++++++++
 arg_parser/parser.go | 53 +++++++++++++++++++++++++++++++++++++++-----
 2 files changed, 59 insertions(+), 6 deletions(-)

diff --git a/arg_parser/args.go b/arg_parser/args.go
index 45d97cc..9395beb 100644
--- a/arg_parser/args.go
+++ b/arg_parser/args.go
@@ -111,6 +111,10 @@ func _ExtractStringArray(
 		arg = lazy_arg.Reduce(ctx)
 	}
 
+	if arg == nil {
+		return nil, false
+	}
+
 	slice := reflect.ValueOf(arg)
 
 	// A slice of strings.
@@ -163,6 +167,10 @@ func _ExtractAnyArray(
 		arg = lazy_arg.Reduce(ctx)
 	}
 
+	if arg == nil {
+		return nil, false
+	}
+
 	slice := reflect.ValueOf(arg)
 
 	// A slice of strings.
@@ -201,6 +209,10 @@ func (self *StoredQueryWrapper) Eval(ctx context.Context, scope types.Scope) <-c
 	go func() {
 		defer close(output_chan)
 
+		if self.Value == nil {
+			return
+		}
+
 		slice := reflect.ValueOf(self.Value)
 		if slice.Type().Kind() == reflect.Slice {
 			for i := 0; i < slice.Len(); i++ {
diff --git a/arg_parser/parser.go b/arg_parser/parser.go
index 801b144..dc370e9 100644
--- a/arg_parser/parser.go
+++ b/arg_parser/parser.go
@@ -76,8 +76,10 @@ func (self *Parser) Parse(
 		}
 
 		// Now set the field on the struct.
-		field_value := target.Field(parser.FieldIdx)
-		field_value.Set(reflect.ValueOf(new_value))
+		err = setField(target.Field(parser.FieldIdx), new_value)
+		if err != nil {
+			return fmt.Errorf("Field %s %w", parser.Field, err)
+		}
 	}
 
 	// Something is wrong! We did not extract all the fields from
@@ -94,6 +96,43 @@ func (self *Parser) Parse(
 	return nil
 }
 
+// Store the parsed value in the field. The parsers only look at the
+// kind of the field so the value may still need converting to its
+// exact type (e.g. a float32 or a named string).
+func setField(field reflect.Value, value interface{}) error {
+	field_type := field.Type()
+
+	// A bare nil has no type.
+	if value == nil {
+		field.Set(reflect.Zero(field_type))
+		return nil
+	}
+
+	v := reflect.ValueOf(value)
+	if v.Type().AssignableTo(field_type) {
+		field.Set(v)
+		return nil
+	}
+
+	// A list of a named string type.
+	if v.Kind() == reflect.Slice && field_type.Kind() == reflect.Slice &&
+		v.Type().Elem().ConvertibleTo(field_type.Elem()) {
+		result := reflect.MakeSlice(field_type, v.Len(), v.Len())
+		for i := 0; i < v.Len(); i++ {
+			result.Index(i).Set(v.Index(i).Convert(field_type.Elem()))
+		}
+		field.Set(result)
+		return nil
+	}
+
+	if !v.Type().ConvertibleTo(field_type) {
+		return fmt.Errorf("should be a %v not %T.", field_type, value)
+	}
+
+	field.Set(v.Convert(field_type))
+	return nil
+}
+
 // Parses the args as free form args:
 // * Extract known fields into the target struct.
 // * Other fields will be returns as the kwargs dict.
@@ -121,8 +160,10 @@ func (self *Parser) ParseAsFreeForm(
 		}
 
 		// Now set the field on the struct.
-		field_value := target.Field(parser.FieldIdx)
-		field_value.Set(reflect.ValueOf(new_value))
+		err = setField(target.Field(parser.FieldIdx), new_value)
+		if err != nil {
+			return nil, fmt.Errorf("Field %s %w", parser.Field, err)
+		}
 	}
 
 	// Remaining fields are collected into the kwargs
@@ -184,7 +225,7 @@ func sliceParser(ctx context.Context, scope types.Scope,
 	if pres {
 		return new_value, nil
 	}
-	return []interface{}{}, nil
+	return []string{}, nil
 }
 
 func sliceAnyParser(ctx context.Context, scope types.Scope,
@@ -210,7 +251,7 @@ func sliceDictParser(ctx context.Context, scope types.Scope,
 
 	new_value, pres := _ExtractAnyArray(ctx, scope, arg)
 	if !pres {
-		return []interface{}{}, nil
+		return []*ordereddict.Dict{}, nil
 	}
 
 	result := []*ordereddict.Dict{}
-- 
2.43.0


From 697d49cc441919cc2498a57078eaf1f1d06326d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:21 +0000
Subject: [PATCH 33/63] fix: typed nils (e.g. a nil dict) and describing a nil
 panicked

---
 protocols/protocol_associative.go |  5 +++++
 types/introspection.go            | 12 ++++++++----
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/protocols/protocol_associative.go b/protocols/protocol_associative.go
index c938e91..8b14f39 100644
--- a/protocols/protocol_associative.go
+++ b/protocols/protocol_associative.go
@@ -121,6 +121,11 @@ func (self *AssociativeDispatcher) Associative(
 func (self *AssociativeDispatcher) GetMembers(
 	scope types.Scope, a types.Any) []string {
 
+	// Typed nils have no members.
+	if types.IsNil(a) {
+		return []string{}
+	}
+
 	switch t := a.(type) {
 	case types.Scope:
 		return []string{}
diff --git a/types/introspection.go b/types/introspection.go
index 5e8c983..db8f967 100644
--- a/types/introspection.go
+++ b/types/introspection.go
@@ -45,13 +45,17 @@ func (self *TypeMap) AddType(scope Scope, a Any) string {
 		return ""
 	}
 
+	// There is nothing to describe in a bare nil.
+	a_type := reflect.TypeOf(a)
+	if a_type == nil {
+		return ""
+	}
+
 	fields := scope.GetMembers(a)
-	v := reflect.ValueOf(a)
-	if v.Type().Kind() == reflect.Ptr {
-		v = v.Elem()
+	if a_type.Kind() == reflect.Ptr {
+		a_type = a_type.Elem()
 	}
 
-	a_type := v.Type()
 	self.addType(scope, a_type, &fields)
 
 	return canonicalTypeName(a_type)
-- 
2.43.0


From 54bb0e38961d00e2aa3bc451fbb31c62aab04167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:12 +0000
Subject: [PATCH 34/63] fix: a nil pointer in a value panicked in operators,
 flatten and conversions to text and numbers

---
 plugins/flatten.go  |  4 +--
 protocols/common.go | 15 ++++++++++-
 types/string.go     |  8 ++++++
 utils/utils.go      | 65 ++++++++++++++++++++++++++++++---------------
 4 files changed, 68 insertions(+), 24 deletions(-)

diff --git a/plugins/flatten.go b/plugins/flatten.go
index 5d6b43a..b826a18 100644
--- a/plugins/flatten.go
+++ b/plugins/flatten.go
@@ -55,7 +55,7 @@ func (self _FlattenPluginImpl) Call(ctx context.Context,
 
 func makeDict(scope types.Scope, item types.Any) *ordereddict.Dict {
 	result_dict, ok := item.(*ordereddict.Dict)
-	if ok {
+	if ok && result_dict != nil {
 		return result_dict
 	}
 
@@ -86,7 +86,7 @@ func flatten(ctx context.Context,
 	for member := range scope.Iterate(ctx, cell) {
 		count++
 		member_dict, ok := member.(*ordereddict.Dict)
-		if ok {
+		if ok && member_dict != nil {
 			real_member, ok := member_dict.Get("_value")
 			if ok {
 				member = real_member
diff --git a/protocols/common.go b/protocols/common.go
index 2421e4b..4de9259 100644
--- a/protocols/common.go
+++ b/protocols/common.go
@@ -2,6 +2,7 @@ package protocols
 
 import (
 	"context"
+	"reflect"
 
 	"www.velocidex.com/golang/vfilter/types"
 )
@@ -9,7 +10,19 @@ import (
 func maybeReduce(a types.Any) types.Any {
 	lazy_expr, ok := a.(types.LazyExpr)
 	if ok {
-		return lazy_expr.Reduce(context.Background())
+		a = lazy_expr.Reduce(context.Background())
+	}
+
+	// A nil pointer of any type is the same as NULL - protocols can
+	// not look inside it.
+	switch a.(type) {
+	case nil, string, bool, int64, float64:
+		return a
+	}
+
+	value := reflect.ValueOf(a)
+	if value.Kind() == reflect.Ptr && value.IsNil() {
+		return types.Null{}
 	}
 	return a
 }
diff --git a/types/string.go b/types/string.go
index 602ba94..2c3b423 100644
--- a/types/string.go
+++ b/types/string.go
@@ -3,6 +3,7 @@ package types
 import (
 	"context"
 	"fmt"
+	"reflect"
 )
 
 type StringProtocol interface {
@@ -12,6 +13,13 @@ type StringProtocol interface {
 // Try very hard to convert to a string
 func ToString(ctx context.Context,
 	scope Scope, x interface{}) string {
+
+	// The methods of most types can not be called on nil pointers.
+	v := reflect.ValueOf(x)
+	if v.Kind() == reflect.Ptr && v.IsNil() {
+		return Null{}.String()
+	}
+
 	switch t := x.(type) {
 	case fmt.Stringer:
 		return t.String()
diff --git a/utils/utils.go b/utils/utils.go
index d0e12d1..c4ffb2d 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -74,6 +74,9 @@ func ToString(x interface{}) (string, bool) {
 	case string:
 		return t, true
 	case *string:
+		if t == nil {
+			return "", false
+		}
 		return *t, true
 	case []byte:
 		return string(t), true
@@ -117,29 +120,29 @@ func ToFloat(x interface{}) (float64, bool) {
 	case int64:
 		return float64(t), true
 	case *float64:
-		return *t, true
+		return ptrToFloat(t)
 	case *int:
-		return float64(*t), true
+		return ptrToFloat(t)
 	case *uint:
-		return float64(*t), true
+		return ptrToFloat(t)
 
 	case *int8:
-		return float64(*t), true
+		return ptrToFloat(t)
 	case *int16:
-		return float64(*t), true
+		return ptrToFloat(t)
 	case *uint8:
-		return float64(*t), true
+		return ptrToFloat(t)
 	case *uint16:
-		return float64(*t), true
+		return ptrToFloat(t)
 
 	case *uint32:
-		return float64(*t), true
+		return ptrToFloat(t)
 	case *int32:
-		return float64(*t), true
+		return ptrToFloat(t)
 	case *uint64:
-		return float64(*t), true
+		return ptrToFloat(t)
 	case *int64:
-		return float64(*t), true
+		return ptrToFloat(t)
 
 	default:
 		return 0, false
@@ -187,27 +190,47 @@ func ToInt64(x interface{}) (int64, bool) {
 		return int64(t), true
 
 	case *int:
-		return int64(*t), true
+		return ptrToInt64(t)
 	case *uint8:
-		return int64(*t), true
+		return ptrToInt64(t)
 	case *int8:
-		return int64(*t), true
+		return ptrToInt64(t)
 	case *uint16:
-		return int64(*t), true
+		return ptrToInt64(t)
 	case *int16:
-		return int64(*t), true
+		return ptrToInt64(t)
 	case *uint32:
-		return int64(*t), true
+		return ptrToInt64(t)
 	case *int32:
-		return int64(*t), true
+		return ptrToInt64(t)
 	case *uint64:
-		return int64(*t), true
+		return ptrToInt64(t)
 	case *int64:
-		return int64(*t), true
+		return ptrToInt64(t)
 	case *float64:
-		return int64(*t), true
+		return ptrToInt64(t)
 
 	default:
 		return 0, false
 	}
 }
+
+type number interface {
+	int | uint | int8 | uint8 | int16 | uint16 |
+		int32 | uint32 | int64 | uint64 | float64
+}
+
+// Nil pointers are not numbers.
+func ptrToInt64[T number](t *T) (int64, bool) {
+	if t == nil {
+		return 0, false
+	}
+	return int64(*t), true
+}
+
+func ptrToFloat[T number](t *T) (float64, bool) {
+	if t == nil {
+		return 0, false
+	}
+	return float64(*t), true
+}
-- 
2.43.0


From 1a9909c72107c6e1ded32c7a6b2de27aeccea5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:40 +0000
Subject: [PATCH 35/63] fix: foreach started as many workers as asked for
 before there was any row, exhausting memory

---
 plugins/foreach.go | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/plugins/foreach.go b/plugins/foreach.go
index 2b31d0f..4145ff9 100644
--- a/plugins/foreach.go
+++ b/plugins/foreach.go
@@ -47,7 +47,7 @@ func (self _ForeachPluginImpl) Call(ctx context.Context,
 		if arg.Workers > 1 {
 			scope.Log("DEBUG:Creating %v workers for foreach plugin\n", arg.Workers)
 		}
-		pool := newWorkerPool(ctx, arg.Query, output_chan, int(arg.Workers))
+		pool := newWorkerPool(arg.Query, output_chan, int(arg.Workers))
 		defer pool.Close()
 
 		row_chan := scope.Iterate(ctx, arg.Row)
@@ -116,9 +116,30 @@ type workerPool struct {
 	ch          chan types.Scope
 	query       types.StoredQuery
 	output_chan chan types.Row
+
+	// How many workers were started and how many there may be.
+	started, size int
+}
+
+// Workers are only started when there is something to do for them - the
+// query may ask for any number of workers.
+func (self *workerPool) maybeStartWorker(ctx context.Context) {
+	if self.started < self.size {
+		self.started++
+		self.wg.Add(1)
+		go self.worker(ctx)
+	}
 }
 
 func (self *workerPool) RunScope(ctx context.Context, scope types.Scope) {
+	// An idle worker can take it.
+	select {
+	case self.ch <- scope:
+		return
+	default:
+		self.maybeStartWorker(ctx)
+	}
+
 	select {
 	case <-ctx.Done():
 		// The workers may be gone already.
@@ -175,18 +196,12 @@ func (self *workerPool) worker(ctx context.Context) {
 	}
 }
 
-func newWorkerPool(ctx context.Context, query types.StoredQuery,
+func newWorkerPool(query types.StoredQuery,
 	output_chan chan types.Row, size int) *workerPool {
-	self := &workerPool{
+	return &workerPool{
 		ch:          make(chan types.Scope),
 		query:       query,
 		output_chan: output_chan,
+		size:        size,
 	}
-
-	for i := 0; i < size; i++ {
-		self.wg.Add(1)
-		go self.worker(ctx)
-	}
-
-	return self
 }
-- 
2.43.0


From 8235fd41d6b5efb54e108d05c64a4ca635f1ec68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:08 +0000
Subject: [PATCH 36/63] fix: formatting LET dropped empty parameter lists and
 the quotes of parameter names, and reported the defaults in random order

---
 visitor.go | 84 ++++++++++++++++++++++++------------------------------
 1 file changed, 38 insertions(+), 46 deletions(-)

diff --git a/visitor.go b/visitor.go
index 56c5a9b..60cae65 100644
--- a/visitor.go
+++ b/visitor.go
@@ -1151,63 +1151,28 @@ func (self *Visitor) visitVQL(node *VQL) {
 
 		if node.Expression != nil || node.StoredQuery != nil {
 			self.push("LET ", node.Let)
-			parameters, defaults := node.getParameters()
+			if self.opts.CollectDefinitionSites {
+				self.Definitions = append(
+					self.Definitions, node.definitionSite())
+			}
 
-			if defaults != nil {
+			if node.Called != "" {
 				self.push("(")
-				if self.opts.CollectDefinitionSites {
-					defsite := DefinitionSite{
-						Type: "definition",
-						Name: node.Let,
-						Pos: RangePosition{
-							Pos:    node.Pos,
-							EndPos: node.EndPos,
-						},
-					}
-
-					for _, p := range parameters {
-						defsite.Args = append(defsite.Args, p)
-					}
-
-					for k := range defaults {
-						defsite.Defaults = append(defsite.Defaults,
-							utils.Unquote_ident(k))
-					}
-					self.Definitions = append(self.Definitions, defsite)
-				}
-
-				for idx, p := range parameters {
+				for idx, p := range node.LetParameters {
 					// Is it an arg with default?
-					def_value, pres := defaults[p.Name]
-					if pres {
-						self.Visit(def_value)
+					if p.DefaultArg != nil {
+						self.Visit(p.DefaultArg)
 
-					} else {
+					} else if p.Name != nil {
 						// Otherwise just emit the plain name
-						self.push(p.Name)
+						self.push(*p.Name)
 					}
 
-					if idx < len(parameters)-1 {
+					if idx < len(node.LetParameters)-1 {
 						self.push(",", " ")
 					}
 				}
 				self.push(")")
-
-			} else if self.opts.CollectDefinitionSites {
-				defsite := DefinitionSite{
-					Type: "definition",
-					Name: node.Let,
-					Pos: RangePosition{
-						Pos:    node.Pos,
-						EndPos: node.EndPos,
-					},
-				}
-
-				if node.Called != "" {
-					defsite.Args = []ArgDesc{}
-				}
-
-				self.Definitions = append(self.Definitions, defsite)
 			}
 		}
 		self.push(" ", operator, " ")
@@ -1230,6 +1195,33 @@ func (self *Visitor) visitVQL(node *VQL) {
 	}
 }
 
+// Describe the definition made by a LET statement.
+func (self *VQL) definitionSite() DefinitionSite {
+	res := DefinitionSite{
+		Type: "definition",
+		Name: self.Let,
+		Pos: RangePosition{
+			Pos:    self.Pos,
+			EndPos: self.EndPos,
+		},
+	}
+
+	if self.Called != "" {
+		res.Args = []ArgDesc{}
+	}
+
+	parameters, defaults := self.getParameters()
+	for _, p := range parameters {
+		res.Args = append(res.Args, p)
+
+		_, pres := defaults[p.Name]
+		if pres {
+			res.Defaults = append(res.Defaults, p.Name)
+		}
+	}
+	return res
+}
+
 // Try to format the node both ways and select the better one (based on is_better())
 func (self *Visitor) abTest(
 	name string,
-- 
2.43.0


From 7709d637561ec542c5ee5ef6bc65f0b53ca105d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:09 +0000
Subject: [PATCH 37/63] fix: names in backticks had escapes processed, and a
 leading - inside them negated the value

---
 utils/unquote.go | 26 ++++++++------------------
 vfilter.go       |  8 +++-----
 2 files changed, 11 insertions(+), 23 deletions(-)

diff --git a/utils/unquote.go b/utils/unquote.go
index 2007877..67d5456 100644
--- a/utils/unquote.go
+++ b/utils/unquote.go
@@ -2,7 +2,6 @@ package utils
 
 import (
 	"errors"
-	"strconv"
 	"strings"
 )
 
@@ -106,28 +105,19 @@ outer:
 	return string(out[:j])
 }
 
-// Unquote a ` delimited string.
+// Unquote a ` delimited string. There are no escapes inside backticks -
+// the name is exactly what is written between them.
 func Unquote_ident(s string) string {
-	if s == "" {
-		return ""
-	}
-
-	quote := s[0]
-	if quote != '`' {
+	if len(s) < 2 || s[0] != '`' || s[len(s)-1] != '`' {
 		return s
 	}
 
-	s = s[1 : len(s)-1]
-	out := ""
-	for s != "" {
-		value, _, tail, err := strconv.UnquoteChar(s, quote)
-		if err != nil {
-			return s
-		}
-		s = tail
-		out += string(value)
+	name := s[1 : len(s)-1]
+	// More than one quoted name.
+	if strings.Contains(name, "`") {
+		return s
 	}
-	return out
+	return name
 }
 
 // Split an identifier to a list of components taking into account
diff --git a/vfilter.go b/vfilter.go
index 6615b94..6b9d03e 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -1806,11 +1806,9 @@ func (self *_SymbolRef) getFunction(scope types.Scope) (res types.Any, negated,
 	self.mu.Lock()
 	components := self.split_symbol
 	if components == nil {
-		components = utils.SplitIdent(self.Symbol)
-		if len(components) > 0 && strings.HasPrefix(components[0], "-") {
-			self.split_negated = true
-			components[0] = strings.TrimPrefix(components[0], "-")
-		}
+		// A - inside the backticks is a part of the name.
+		self.split_negated = strings.HasPrefix(self.Symbol, "-")
+		components = utils.SplitIdent(strings.TrimPrefix(self.Symbol, "-"))
 		self.split_symbol = components
 	}
 	negated = self.split_negated
-- 
2.43.0


From 308f6f32837793b13ed6337c0199cb8df1c88bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:22 +0000
Subject: [PATCH 38/63] fix: formatting dropped AS after a star and empty
 brackets, and wrote numbers out of range as FALSE

---
 visitor.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/visitor.go b/visitor.go
index 60cae65..76b3a67 100644
--- a/visitor.go
+++ b/visitor.go
@@ -454,6 +454,9 @@ func (self *Visitor) visitAliasedExpression(node *_AliasedExpression) {
 
 	if node.Star != nil {
 		self.push("*")
+		if node.As != "" {
+			self.push(" AS ", node.As)
+		}
 		return
 	}
 
@@ -768,6 +771,13 @@ func (self *Visitor) visitValue(node *_Value) {
 		return
 	}
 
+	// A number that is out of range.
+	if node.StrNumber != nil {
+		self.push(*node.StrNumber)
+		node.mu.Unlock()
+		return
+	}
+
 	if node.Boolean != nil {
 		self.push(*node.Boolean)
 		node.mu.Unlock()
@@ -822,6 +832,9 @@ func (self *Visitor) visitMemberExpression(node *_MemberExpression) {
 			self.Visit(right.Index)
 			self.push("]")
 
+		} else if right.Term == nil {
+			self.push("[]")
+
 		} else {
 			self.push(".")
 			self.Visit(right.Term)
-- 
2.43.0


From 2d11294d1c8a516f2218b1a0a91434f362e9ea3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:33 +0000
Subject: [PATCH 39/63] fix: formatting dropped some comments, and one line
 comments swallowed the text after them

---
 visitor.go | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/visitor.go b/visitor.go
index 76b3a67..796cbc3 100644
--- a/visitor.go
+++ b/visitor.go
@@ -160,6 +160,8 @@ func NewVisitor(scope types.Scope, options FormatOptions) *Visitor {
 func (self *Visitor) merge(in *Visitor) {
 	self.Fragments = append([]string{}, in.Fragments...)
 	self.CallSites = append(self.CallSites, in.CallSites...)
+	self.Comments = append(self.Comments, in.Comments...)
+	self.Definitions = append(self.Definitions, in.Definitions...)
 	self.line_breaks = in.line_breaks
 	self.indents = append([]int{}, in.indents...)
 	self.pos = in.pos
@@ -179,6 +181,7 @@ func (self *Visitor) copy() *Visitor {
 		pos:         self.pos,
 		max_width:   self.max_width,
 		max_line:    self.max_line,
+		debug:       self.debug,
 		opts:        opts_copy,
 	}
 }
@@ -396,7 +399,7 @@ func (self *Visitor) visitComment(node *_Comment) {
 		}
 
 		self.push(*node.Comment)
-		self.line_break()
+		self.end_comment()
 	}
 
 	// VQL Comments start with -- and generally follow the thing they
@@ -408,7 +411,7 @@ func (self *Visitor) visitComment(node *_Comment) {
 		}
 
 		self.push(*node.VQLComment)
-		self.line_break()
+		self.end_comment()
 	}
 
 	// Multi line comments always start at column 0 and follow by a
@@ -418,6 +421,13 @@ func (self *Visitor) visitComment(node *_Comment) {
 			self.Comments = append(self.Comments, *node.MultiLine)
 		}
 
+		// When everything is on the one line there is no need to start
+		// a new one.
+		if !self.opts.BreakLines {
+			self.push(*node.MultiLine, " ")
+			return
+		}
+
 		self.new_line(0)
 		defer self.pop_indent()
 
@@ -426,6 +436,19 @@ func (self *Visitor) visitComment(node *_Comment) {
 	}
 }
 
+// A one line comment extends to the end of the line, so whatever follows
+// must be on the next line even when we do not otherwise break lines.
+func (self *Visitor) end_comment() {
+	if self.opts.BreakLines {
+		self.line_break()
+		return
+	}
+
+	self.pos = 0
+	self.Fragments = append(self.Fragments, "\n")
+	self.line_breaks = append(self.line_breaks, len(self.Fragments))
+}
+
 func (self *Visitor) visitLambda(node *Lambda) {
 	self.Visit(node.Parameters)
 	self.push(" => ")
@@ -433,6 +456,7 @@ func (self *Visitor) visitLambda(node *Lambda) {
 }
 
 func (self *Visitor) visitParameterList(node *_ParameterList) {
+	self.Visit(node.Comments)
 	self.push(node.Left)
 
 	if node.Right != nil {
@@ -664,6 +688,7 @@ func (self *Visitor) visitSymbolRef(node *_SymbolRef) {
 }
 
 func (self *Visitor) visitAndExpression(node *_AndExpression) {
+	self.Visit(node.Comments)
 	self.Visit(node.Left)
 
 	for _, right := range node.Right {
@@ -682,12 +707,12 @@ func (self *Visitor) visitOrExpression(node *_OrExpression) {
 
 	for _, right := range node.Right {
 		self.push(" ", right.Operator, " ")
-		self.Visit(right.Term.Comments)
 		self.Visit(right.Term)
 	}
 }
 
 func (self *Visitor) visitConditionOperand(node *_ConditionOperand) {
+	self.Visit(node.Comments)
 	if node.Not != nil {
 		self.push("NOT ")
 		self.Visit(node.Not)
@@ -1272,7 +1297,7 @@ func (self *Visitor) abTest(
 			res = test_visitor
 
 		} else if res.is_better(test_visitor) {
-			res.merge(test_visitor)
+			res = test_visitor
 		}
 	}
 
-- 
2.43.0


From 392721a9ba781589ea02c30a0cd1f84be2205ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:58 +0000
Subject: [PATCH 40/63] fix: comments at the end of the text were lost when
 reformatting

---
 vfilter.go | 6 ++++++
 visitor.go | 1 +
 2 files changed, 7 insertions(+)

diff --git a/vfilter.go b/vfilter.go
index 6b9d03e..fe45246 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -392,6 +392,9 @@ func (self *MultiVQL) GetStatements() []*VQL {
 		self.Comments2 = nil
 	}
 
+	// There is no next statement.
+	self.VQL1.TrailingComments = self.Comments2
+
 	result := []*VQL{self.VQL1}
 	if self.VQL2 != nil {
 		return append(result, self.VQL2.GetStatements()...)
@@ -429,6 +432,9 @@ type VQL struct {
 	Query         *_Select        ` @@  `
 	Comments      []*_Comment
 
+	// Comments following the last statement.
+	TrailingComments []*_Comment
+
 	// JIT Compile these for faster execution
 	mu              sync.Mutex
 	argsCache       map[string]*_Args
diff --git a/visitor.go b/visitor.go
index 796cbc3..2650043 100644
--- a/visitor.go
+++ b/visitor.go
@@ -1176,6 +1176,7 @@ func (self *Visitor) visitVQL(node *VQL) {
 	// start as each VQL statement is rendered independently.
 	defer func() {
 		self.line_break()
+		self.Visit(node.TrailingComments)
 		self.pos = 0
 		self.max_line = ""
 		self.max_width = 0
-- 
2.43.0


From 75b2aaac8f61b71c1368df80d5b2cccfdf65257d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:01 +0000
Subject: [PATCH 41/63] fix: reformatting stripped blanks at the end of lines
 inside strings

---
 reformat/visitor.go | 10 +---------
 visitor.go          | 18 ++++++++++++++++++
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/reformat/visitor.go b/reformat/visitor.go
index e472ef4..e3163de 100644
--- a/reformat/visitor.go
+++ b/reformat/visitor.go
@@ -1,8 +1,6 @@
 package reformat
 
 import (
-	"strings"
-
 	"www.velocidex.com/golang/vfilter"
 	"www.velocidex.com/golang/vfilter/types"
 )
@@ -17,11 +15,5 @@ func ReFormatVQL(scope types.Scope, query string,
 	visitor := vfilter.NewVisitor(scope, options)
 	visitor.Visit(vql)
 
-	lines := strings.Split(visitor.ToString(), "\n")
-	result := make([]string, 0, len(lines))
-	for _, l := range lines {
-		result = append(result, strings.TrimRight(l, " "))
-	}
-
-	return strings.Join(result, "\n"), nil
+	return visitor.ToTrimmedString(), nil
 }
diff --git a/visitor.go b/visitor.go
index 2650043..89c151e 100644
--- a/visitor.go
+++ b/visitor.go
@@ -278,6 +278,24 @@ func (self *Visitor) ToString() string {
 	return strings.Join(self.Fragments, "")
 }
 
+// ToTrimmedString is the same as ToString() but without blanks at the end
+// of the lines. It leaves alone the lines inside strings and comments.
+func (self *Visitor) ToTrimmedString() string {
+	lines := []string{}
+	start := 0
+	for idx, fragment := range self.Fragments {
+		if fragment == "\n" {
+			lines = append(lines, strings.TrimRight(
+				strings.Join(self.Fragments[start:idx], ""), " "))
+			start = idx + 1
+		}
+	}
+	lines = append(lines, strings.TrimRight(
+		strings.Join(self.Fragments[start:], ""), " "))
+
+	return strings.Join(lines, "\n")
+}
+
 func (self *Visitor) Visit(node interface{}) {
 	switch t := node.(type) {
 	case []*VQL:
-- 
2.43.0


From 76a22cf2b7f76ab83f7f90661e43b0ec13753f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:34 +0000
Subject: [PATCH 42/63] fix: reformatting took time exponential in the depth of
 nesting

---
 visitor.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/visitor.go b/visitor.go
index 89c151e..979801b 100644
--- a/visitor.go
+++ b/visitor.go
@@ -63,8 +63,17 @@ type FormatOptions struct {
 
 	// Set when we do a test reformat to try to lookahead.
 	test bool
+
+	// How many test reformats are we inside of.
+	test_depth int
 }
 
+const (
+	// Each level of nesting at which we compare alternatives at least
+	// doubles the work, so beyond this we settle for the first one.
+	max_test_depth = 8
+)
+
 // The CallSite describes the place where a callable is called
 // from. For example, SELECT Foo(X=45) FROM scope()
 type CallSite struct {
@@ -1294,6 +1303,7 @@ func (self *Visitor) abTest(
 	for idx, cb := range cbs {
 		test_visitor := self.copy()
 		test_visitor.opts.test = true
+		test_visitor.opts.test_depth++
 
 		cb(test_visitor)
 
@@ -1307,7 +1317,7 @@ func (self *Visitor) abTest(
 
 		// When not in reformat mode we really don't care which option
 		// we choose.
-		if !self.opts.BreakLines {
+		if !self.opts.BreakLines || self.opts.test_depth >= max_test_depth {
 			self.merge(test_visitor)
 			return
 		}
-- 
2.43.0


From 38ae01ea18fc9aa9947e8436296747df2eb62385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:25 +0000
Subject: [PATCH 43/63] fix: reformatting its own output could change the
 layout again when a comment ended in blanks

---
 visitor.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/visitor.go b/visitor.go
index 979801b..e5357f2 100644
--- a/visitor.go
+++ b/visitor.go
@@ -425,7 +425,7 @@ func (self *Visitor) visitComment(node *_Comment) {
 			self.Comments = append(self.Comments, *node.Comment)
 		}
 
-		self.push(*node.Comment)
+		self.push(strings.TrimRight(*node.Comment, " "))
 		self.end_comment()
 	}
 
@@ -437,7 +437,7 @@ func (self *Visitor) visitComment(node *_Comment) {
 			self.Comments = append(self.Comments, *node.VQLComment)
 		}
 
-		self.push(*node.VQLComment)
+		self.push(strings.TrimRight(*node.VQLComment, " "))
 		self.end_comment()
 	}
 
-- 
2.43.0


From 39d49a941dc9c00d201c9b3e21cd4df36f92f685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:48 +0000
Subject: [PATCH 44/63] fix: the end offsets of tokens counted characters
 instead of bytes

---
 tokenizer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tokenizer.go b/tokenizer.go
index eadb9bc..3362526 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -75,7 +75,9 @@ func findEndPos(start lexer.Position, value string) lexer.Position {
 		} else {
 			res.Column++
 		}
-		res.Offset++
 	}
+
+	// The offset counts bytes.
+	res.Offset += len(value)
 	return res
 }
-- 
2.43.0


From 97cf916c6d041c17353dbf54629b22b5b729985d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:51 +0000
Subject: [PATCH 45/63] fix: an invalid hex escape copied the wrong character
 of the string

---
 utils/unquote.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/unquote.go b/utils/unquote.go
index 67d5456..5f3297b 100644
--- a/utils/unquote.go
+++ b/utils/unquote.go
@@ -62,7 +62,7 @@ outer:
 				// ignore it and copy the output
 				// verbatim.
 				if err != nil {
-					out[j] = in[j]
+					out[j] = in[i]
 					i++
 					j++
 				} else {
-- 
2.43.0


From 68df87c67f8072fcc79275c31ea79b488f5c16a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:54 +0000
Subject: [PATCH 46/63] fix: a query default of a quoted parameter was not
 bound to the parameter

---
 stored.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stored.go b/stored.go
index b4642e8..82ee44c 100644
--- a/stored.go
+++ b/stored.go
@@ -212,7 +212,7 @@ func applyDefaults(ctx context.Context, scope types.Scope,
 			if arg.Right != nil {
 				args.Set(name, arg.Right.Reduce(ctx, scope))
 			} else if arg.SubSelect != nil {
-				args.Set(arg.Left, arg.SubSelect)
+				args.Set(name, arg.SubSelect)
 			} else if arg.Array != nil {
 				args.Set(name, arg.Array.Reduce(ctx, scope))
 			} else if arg.ArrayOpenBrace != "" {
-- 
2.43.0


From 8cb90ebe8cae773612557f1864a249b87b70539a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:57 +0000
Subject: [PATCH 47/63] fix: a column called `*` was taken for a star

---
 vfilter.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vfilter.go b/vfilter.go
index fe45246..c1fd67f 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -1189,7 +1189,8 @@ func (self *_SelectExpression) Transform(
 		// A copy of the expression for the lambda capture.
 		expr := expr_
 		name := expr.GetName(scope)
-		if name == "*" {
+		// Not a column which is just called `*`
+		if expr.Star != nil && expr.As == "" {
 			self.mergeStarRow(scope, new_row, row)
 			continue
 		}
-- 
2.43.0


From 57d30f43a26fd3c3d8adfb80ea08098e993ac3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:29 +0000
Subject: [PATCH 48/63] fix: repeated comparisons, indexes and list members
 were dropped silently instead of being a syntax error

---
 vfilter.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/vfilter.go b/vfilter.go
index c1fd67f..9aa88db 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -1001,9 +1001,9 @@ type _MemberExpression struct {
 }
 
 type _OpMembershipTerm struct {
-	Index    *_Value ` ( "[" {@@} `
-	Range    *string ` { @":" }`
-	RangeEnd *_Value ` { @@ } "]" |`
+	Index    *_Value ` ( "[" [ @@ ] `
+	Range    *string ` [ @":" `
+	RangeEnd *_Value ` [ @@ ] ] "]" |`
 	Term     *string `  "." @Ident )`
 }
 
@@ -1029,7 +1029,7 @@ type _OpArrayTerm struct {
 	Comments []*_Comment     ` [ @@ ] `
 	Operator string          `@","`
 	Comment2 []*_Comment     ` [ @@ ] `
-	Term     *_AndExpression `{ @@ }`
+	Term     *_AndExpression `[ @@ ]`
 }
 
 // Expressions separated by AND.
@@ -1065,7 +1065,7 @@ type _ConditionOperand struct {
 	Comments []*_Comment          ` [ @@ ] `
 	Not      *_ConditionOperand   `(NOT @@ | `
 	Left     *_AdditionExpression `@@)`
-	Right    *_OpComparison       `{ @@ }`
+	Right    *_OpComparison       `[ @@ ]`
 }
 
 type _OpComparison struct {
-- 
2.43.0


From 0d4fc2f2ffe94ad9272891295846c30481c125d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 49/63] fix: with the comment-keeping parser comments became
 part of column names

---
 vfilter.go |  5 ++++-
 visitor.go | 16 ++++++++++++++--
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/vfilter.go b/vfilter.go
index 9aa88db..d48cf90 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -907,7 +907,10 @@ func (self *_AliasedExpression) GetName(scope types.Scope) string {
 		name := utils.Unquote_ident(self.As)
 		column_name = &name
 	} else {
-		name := utils.Unquote_ident(FormatToString(scope, self))
+		// Comments are not part of the name.
+		opts := ToStringOptions
+		opts.omit_comments = true
+		name := utils.Unquote_ident(formatToString(scope, self, opts))
 		column_name = &name
 	}
 
diff --git a/visitor.go b/visitor.go
index e5357f2..319679a 100644
--- a/visitor.go
+++ b/visitor.go
@@ -61,6 +61,9 @@ type FormatOptions struct {
 	CollectDefinitionSites bool
 	CollectComments        bool
 
+	// Leave out the comments.
+	omit_comments bool
+
 	// Set when we do a test reformat to try to lookahead.
 	test bool
 
@@ -419,6 +422,10 @@ func (self *Visitor) visitStoredExpression(node *StoredExpression) {
 
 // Comments must be on their own lines
 func (self *Visitor) visitComment(node *_Comment) {
+	if self.opts.omit_comments {
+		return
+	}
+
 	// C Style comments start with // and follow the arg.
 	if node.Comment != nil {
 		if self.opts.CollectComments {
@@ -899,7 +906,7 @@ func (self *Visitor) visitArgs(node *_Args) {
 		self.line_break()
 	}
 
-	if node.Comments != nil {
+	if node.Comments != nil && !self.opts.omit_comments {
 		self.has_comments = true
 
 		// We encountered a comment - we have to break lines from now
@@ -1378,7 +1385,12 @@ func (self *Visitor) is_better(other *Visitor) bool {
 }
 
 func FormatToString(scope types.Scope, node interface{}) string {
-	visitor := NewVisitor(scope, ToStringOptions)
+	return formatToString(scope, node, ToStringOptions)
+}
+
+func formatToString(
+	scope types.Scope, node interface{}, opts FormatOptions) string {
+	visitor := NewVisitor(scope, opts)
 	debug, pres := scope.Resolve("VFILTER_DEBUG")
 	if pres {
 		visitor.debug = scope.Bool(debug)
-- 
2.43.0


From b3211042246dc4554df96b1d042ab4ec85c5ad6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 50/63] fix: dicts of one member were delivered twice in a list
 of strings

---
 arg_parser/args.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arg_parser/args.go b/arg_parser/args.go
index 9395beb..21dbe57 100644
--- a/arg_parser/args.go
+++ b/arg_parser/args.go
@@ -136,6 +136,7 @@ func _ExtractStringArray(
 					item, ok := utils.ToString(member)
 					if ok {
 						result = append(result, item)
+						continue
 					}
 				}
 			}
-- 
2.43.0


From 7ae8343cb7f8763967ce887cd3f48124595cc1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 51/63] fix: registering a parser raced with building the
 parser of a structure

---
 arg_parser/parser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arg_parser/parser.go b/arg_parser/parser.go
index dc370e9..239ad8b 100644
--- a/arg_parser/parser.go
+++ b/arg_parser/parser.go
@@ -468,7 +468,9 @@ func BuildParser(v reflect.Value) (*Parser, error) {
 		}
 
 		// Find a specialized parser for this type.
+		parser_mu.Lock()
 		parser, pres := typeDispatcher[field_types_value.Type]
+		parser_mu.Unlock()
 		if pres {
 			field_parser.Parser = parser
 			continue
-- 
2.43.0


From 4c20001101f658eea3e7dec078fc58991d049018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 52/63] fix: a query given for a string or a list was delivered
 as the dump of its syntax tree

---
 arg_parser/parser.go | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/arg_parser/parser.go b/arg_parser/parser.go
index 239ad8b..0b92413 100644
--- a/arg_parser/parser.go
+++ b/arg_parser/parser.go
@@ -214,13 +214,27 @@ func lazyAnyParser(ctx context.Context, scope types.Scope,
 	args *ordereddict.Dict, arg interface{}) (interface{}, error) {
 	return arg, nil
 }
-func sliceParser(ctx context.Context, scope types.Scope,
-	args *ordereddict.Dict, arg interface{}) (interface{}, error) {
+
+// Reduce an arg for fields which hold values: a query becomes the list
+// of its rows.
+func reduceToRows(ctx context.Context,
+	scope types.Scope, arg interface{}) interface{} {
 	lazy_arg, ok := arg.(types.LazyExpr)
 	if ok {
 		arg = lazy_arg.Reduce(ctx)
 	}
 
+	stored_query, ok := arg.(types.StoredQuery)
+	if ok {
+		return types.Materialize(ctx, scope, stored_query)
+	}
+	return arg
+}
+
+func sliceParser(ctx context.Context, scope types.Scope,
+	args *ordereddict.Dict, arg interface{}) (interface{}, error) {
+	arg = reduceToRows(ctx, scope, arg)
+
 	new_value, pres := _ExtractStringArray(ctx, scope, arg)
 	if pres {
 		return new_value, nil
@@ -230,10 +244,7 @@ func sliceParser(ctx context.Context, scope types.Scope,
 
 func sliceAnyParser(ctx context.Context, scope types.Scope,
 	args *ordereddict.Dict, arg interface{}) (interface{}, error) {
-	lazy_arg, ok := arg.(types.LazyExpr)
-	if ok {
-		arg = lazy_arg.Reduce(ctx)
-	}
+	arg = reduceToRows(ctx, scope, arg)
 
 	new_value, pres := _ExtractAnyArray(ctx, scope, arg)
 	if pres {
@@ -244,10 +255,7 @@ func sliceAnyParser(ctx context.Context, scope types.Scope,
 
 func sliceDictParser(ctx context.Context, scope types.Scope,
 	args *ordereddict.Dict, arg interface{}) (interface{}, error) {
-	lazy_arg, ok := arg.(types.LazyExpr)
-	if ok {
-		arg = lazy_arg.Reduce(ctx)
-	}
+	arg = reduceToRows(ctx, scope, arg)
 
 	new_value, pres := _ExtractAnyArray(ctx, scope, arg)
 	if !pres {
@@ -267,10 +275,7 @@ func sliceDictParser(ctx context.Context, scope types.Scope,
 
 func stringParser(ctx context.Context, scope types.Scope,
 	args *ordereddict.Dict, arg interface{}) (interface{}, error) {
-	lazy_arg, ok := arg.(types.LazyExpr)
-	if ok {
-		arg = lazy_arg.Reduce(ctx)
-	}
+	arg = reduceToRows(ctx, scope, arg)
 
 	// If we expect a string and we get an array
 	// of length 1 of strings, we just take the
-- 
2.43.0


From 4f4246d746f5375c973c5d3e12dea8da86da121b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 53/63] fix: numbers and booleans given for a dict were taken
 for an empty dict

---
 arg_parser/parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/arg_parser/parser.go b/arg_parser/parser.go
index 0b92413..873a41b 100644
--- a/arg_parser/parser.go
+++ b/arg_parser/parser.go
@@ -370,7 +370,10 @@ func dictParser(ctx context.Context, scope types.Scope,
 
 		// Trap some common types to return an error.
 		switch arg.(type) {
-		case string, int64, uint64, types.Null, *types.Null, []byte:
+		case string, []byte, bool, float64, float32,
+			int, int8, int16, int32, int64,
+			uint, uint8, uint16, uint32, uint64,
+			types.Null, *types.Null:
 			return nil, fmt.Errorf("should be a dict not %T.", arg)
 		}
 
-- 
2.43.0


From 8c243eb2ea3ee485dd28a9b514106e230cba21eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:25 +0000
Subject: [PATCH 54/63] fix: lazy values inside lists, dicts and nested queries
 of a row stayed unresolved

---
 utils/dict/dict.go | 124 +++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 121 insertions(+), 3 deletions(-)

diff --git a/utils/dict/dict.go b/utils/dict/dict.go
index 9f6c03b..8f275a4 100644
--- a/utils/dict/dict.go
+++ b/utils/dict/dict.go
@@ -31,6 +31,99 @@ func RowToDict(
 	return result
 }
 
+// Is there anything in the value that needs to be resolved before it
+// is encoded? Nested dicts are usually plain and do not need to be
+// copied then. Stored queries inside nested dicts are not run.
+func is_plain(value types.Any, depth int) bool {
+	if depth > 10 {
+		return true
+	}
+
+	switch t := value.(type) {
+	case nil, string, types.Null, *types.Null, bool, float64, int, uint,
+		int8, int16, int32, int64,
+		uint8, uint16, uint32, uint64,
+		time.Time, *time.Time, []byte, []string:
+		return true
+
+	case *ordereddict.Dict:
+		if t == nil {
+			return true
+		}
+		for _, k := range t.Keys() {
+			v, _ := t.Get(k)
+			_, is_query := v.(types.StoredQuery)
+			if !is_query && !is_plain(v, depth+1) {
+				return false
+			}
+		}
+		return true
+
+	case fmt.Stringer:
+		return true
+
+	case types.LazyExpr, types.StoredQuery, func() types.Any,
+		types.LazyRow, types.Materializer, types.Memberer:
+		return false
+	}
+
+	a_value := reflect.Indirect(reflect.ValueOf(value))
+	switch a_value.Kind() {
+	case reflect.Slice, reflect.Array:
+		if types.IsNil(value) {
+			return false
+		}
+		for i := 0; i < a_value.Len(); i++ {
+			if !is_plain(a_value.Index(i).Interface(), depth+1) {
+				return false
+			}
+		}
+
+	case reflect.Map:
+		if types.IsNil(value) {
+			return false
+		}
+		for _, key := range a_value.MapKeys() {
+			if !is_plain(a_value.MapIndex(key).Interface(), depth+1) {
+				return false
+			}
+		}
+	}
+	return true
+}
+
+// The rows of nested queries are resolved like the row itself.
+func normalize_row(ctx context.Context,
+	scope types.Scope, row types.Row, depth int) types.Any {
+	if depth > 10 {
+		return types.Null{}
+	}
+
+	switch row.(type) {
+	case nil, types.Null, *types.Null, *ordereddict.Dict:
+		return normalize_value(ctx, scope, row, depth)
+	}
+
+	switch reflect.Indirect(reflect.ValueOf(row)).Kind() {
+	case reflect.Slice, reflect.Array:
+		return normalize_value(ctx, scope, row, depth)
+	}
+
+	members := scope.GetMembers(row)
+	if len(members) == 0 {
+		return normalize_value(ctx, scope, row, depth)
+	}
+
+	result := ordereddict.NewDict()
+	for _, column := range members {
+		value, pres := scope.Associative(row, column)
+		if pres {
+			result.Set(column, normalize_value(ctx, scope, value, depth+1))
+		}
+	}
+	return result
+}
+
 // Recursively convert types in the rows to standard types to allow
 // for json encoding.
 func normalize_value(ctx context.Context,
@@ -49,10 +142,29 @@ func normalize_value(ctx context.Context,
 	case string, types.Null, *types.Null, bool, float64, int, uint,
 		int8, int16, int32, int64,
 		uint8, uint16, uint32, uint64,
-		time.Time, *time.Time,
-		*ordereddict.Dict:
+		time.Time, *time.Time:
 		return value
 
+	case *ordereddict.Dict:
+		if is_plain(t, depth) {
+			return value
+		}
+
+		result := ordereddict.NewDict()
+		for _, k := range t.Keys() {
+			v, _ := t.Get(k)
+			_, is_query := v.(types.StoredQuery)
+			if is_query {
+				result.Set(k, v)
+				continue
+			}
+			if types.IsNil(v) {
+				v = types.Null{}
+			}
+			result.Set(k, normalize_value(ctx, scope, v, depth+1))
+		}
+		return result
+
 	case fmt.Stringer:
 		return value
 
@@ -66,6 +178,9 @@ func normalize_value(ctx context.Context,
 		// Materialize stored queries into an array.
 	case types.StoredQuery:
 		result := types.Materialize(ctx, scope, t)
+		for i, row := range result {
+			result[i] = normalize_row(ctx, scope, row, depth+1)
+		}
 		return result
 
 		// A dict may expose a callable as a member - we just
@@ -74,7 +189,10 @@ func normalize_value(ctx context.Context,
 		return normalize_value(ctx, scope, t(), depth+1)
 
 	case types.Materializer:
-		return t.Materialize(ctx, scope)
+		return normalize_value(ctx, scope, t.Materialize(ctx, scope), depth+1)
+
+	case types.LazyRow:
+		return normalize_row(ctx, scope, t, depth)
 
 	case types.Memberer:
 		result := ordereddict.NewDict()
-- 
2.43.0


From d90da9fb90d82fafb945610ef9b0484319c50a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:29 +0000
Subject: [PATCH 55/63] fix: columns called @Len, @Keys and the like were taken
 for methods of the dict

---
 protocols/protocol_associative.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/protocols/protocol_associative.go b/protocols/protocol_associative.go
index 8b14f39..ed23e50 100644
--- a/protocols/protocol_associative.go
+++ b/protocols/protocol_associative.go
@@ -79,13 +79,14 @@ func (self *AssociativeDispatcher) Associative(
 			return result, true
 
 		case *ordereddict.Dict:
+			res, pres := t.Get(b_str)
+
 			// Support common dict methods
-			if exportedDictMethods[b_str] {
+			if !pres && exportedDictMethods[b_str] {
 				res, pres := DefaultAssociative{}.Associative(scope, a, b_str[1:])
 				return res, pres
 			}
 
-			res, pres := t.Get(b_str)
 			if !pres {
 				default_value := t.GetDefault()
 				if default_value != nil {
-- 
2.43.0


From b08eff13ea53a586144d0337887213b38494d9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:32 +0000
Subject: [PATCH 56/63] fix: restored values lost NULLs, integers and nested
 queries

---
 marshal/marshaller.go | 77 ++++++++++++++++++++++++++++++++++++++--
 marshal/unmarshal.go  | 81 +++++++++++++++++++++++++++++++++++++++++--
 scope/marshal.go      |  5 ++-
 3 files changed, 156 insertions(+), 7 deletions(-)

diff --git a/marshal/marshaller.go b/marshal/marshaller.go
index b62d2c9..ee0f976 100644
--- a/marshal/marshaller.go
+++ b/marshal/marshaller.go
@@ -1,11 +1,15 @@
 package marshal
 
 import (
+	"bytes"
+	"context"
 	"encoding/json"
 	"fmt"
 
 	"github.com/Velocidex/ordereddict"
+	"www.velocidex.com/golang/vfilter/materializer"
 	"www.velocidex.com/golang/vfilter/types"
+	"www.velocidex.com/golang/vfilter/utils/dict"
 )
 
 func Marshal(scope types.Scope, item interface{}) (*types.MarshalItem, error) {
@@ -16,7 +20,7 @@ func Marshal(scope types.Scope, item interface{}) (*types.MarshalItem, error) {
 		// Handle ordered dicts especially so they retain
 		// their order.
 	case *ordereddict.Dict:
-		serialized, err := json.Marshal(item)
+		serialized, err := encode(scope, item)
 		if err != nil {
 			return nil, err
 		}
@@ -29,7 +33,7 @@ func Marshal(scope types.Scope, item interface{}) (*types.MarshalItem, error) {
 	case int, int8, int16, int32, int64,
 		uint, uint8, uint16, uint32, uint64,
 		string, float32, float64:
-		serialized, err := json.Marshal(item)
+		serialized, err := encode(scope, item)
 		if err != nil {
 			return nil, err
 		}
@@ -42,7 +46,7 @@ func Marshal(scope types.Scope, item interface{}) (*types.MarshalItem, error) {
 		// JSON and hope for the best - but we let the user
 		// know we don't know how to handle it.
 	default:
-		serialized, err := json.Marshal(item)
+		serialized, err := encode(scope, item)
 		if err != nil {
 			return nil, err
 		}
@@ -53,3 +57,70 @@ func Marshal(scope types.Scope, item interface{}) (*types.MarshalItem, error) {
 		}, nil
 	}
 }
+
+// Encode the value as JSON so it can be restored to an equal value:
+// nested queries are expanded and floats remain floats.
+func encode(scope types.Scope, item interface{}) ([]byte, error) {
+	switch t := item.(type) {
+	case float32:
+		return encode(scope, float64(t))
+
+	case float64:
+		serialized, err := json.Marshal(t)
+		if err == nil && !bytes.ContainsAny(serialized, ".e") {
+			serialized = append(serialized, ".0"...)
+		}
+		return serialized, err
+
+	case *materializer.InMemoryMatrializer:
+		return encode(scope, t.Materialize(context.Background(), scope))
+
+	case []types.Row:
+		return encodeList(scope, len(t), func(i int) interface{} { return t[i] })
+
+	case []types.Any:
+		return encodeList(scope, len(t), func(i int) interface{} { return t[i] })
+
+	case *ordereddict.Dict:
+		if t == nil {
+			break
+		}
+
+		buf := &bytes.Buffer{}
+		for _, item := range dict.RowToDict(
+			context.Background(), scope, t).Items() {
+			key, err := json.Marshal(item.Key)
+			if err != nil {
+				return nil, err
+			}
+			value, err := encode(scope, item.Value)
+			if err != nil {
+				value = []byte("null")
+			}
+			if buf.Len() > 0 {
+				buf.WriteByte(',')
+			}
+			buf.Write(key)
+			buf.WriteByte(':')
+			buf.Write(value)
+		}
+		return []byte("{" + buf.String() + "}"), nil
+	}
+	return json.Marshal(item)
+}
+
+func encodeList(scope types.Scope, length int,
+	get func(i int) interface{}) ([]byte, error) {
+	buf := &bytes.Buffer{}
+	for i := 0; i < length; i++ {
+		serialized, err := encode(scope, get(i))
+		if err != nil {
+			return nil, err
+		}
+		if i > 0 {
+			buf.WriteByte(',')
+		}
+		buf.Write(serialized)
+	}
+	return []byte("[" + buf.String() + "]"), nil
+}
diff --git a/marshal/unmarshal.go b/marshal/unmarshal.go
index 974b25c..df35b6d 100644
--- a/marshal/unmarshal.go
+++ b/marshal/unmarshal.go
@@ -1,9 +1,14 @@
 package marshal
 
 import (
+	"bytes"
 	"encoding/json"
 	"errors"
+	"fmt"
+	"io"
+	"strconv"
 
+	"github.com/Velocidex/ordereddict"
 	"www.velocidex.com/golang/vfilter/types"
 )
 
@@ -21,9 +26,7 @@ func (self *Unmarshaller) Unmarshal(
 	scope types.Scope, item *types.MarshalItem) (interface{}, error) {
 	switch item.Type {
 	case "JSON":
-		var value interface{}
-		err := json.Unmarshal(item.Data, &value)
-		return value, err
+		return decode(item.Data)
 
 	default:
 		handler, pres := self.Handlers[item.Type]
@@ -40,3 +43,75 @@ func NewUnmarshaller() *Unmarshaller {
 		Handlers: make(map[string]types.Unmarshaller),
 	}
 }
+
+// Decode JSON retaining the order of columns and the precision of
+// integers.
+func decode(data []byte) (interface{}, error) {
+	decoder := json.NewDecoder(bytes.NewReader(data))
+	decoder.UseNumber()
+
+	value, err := decodeValue(decoder)
+	if err != nil {
+		return nil, err
+	}
+
+	_, err = decoder.Token()
+	if err != io.EOF {
+		return nil, errors.New("Invalid data after JSON value")
+	}
+	return value, nil
+}
+
+func decodeValue(decoder *json.Decoder) (interface{}, error) {
+	token, err := decoder.Token()
+	if err != nil {
+		return nil, err
+	}
+
+	switch t := token.(type) {
+	case nil:
+		return types.Null{}, nil
+
+	case json.Number:
+		i, err := strconv.ParseInt(t.String(), 10, 64)
+		if err == nil {
+			return i, nil
+		}
+		u, err := strconv.ParseUint(t.String(), 10, 64)
+		if err == nil {
+			return u, nil
+		}
+		return t.Float64()
+
+	case json.Delim:
+		if t == '[' {
+			result := []types.Any{}
+			for decoder.More() {
+				value, err := decodeValue(decoder)
+				if err != nil {
+					return nil, err
+				}
+				result = append(result, value)
+			}
+			_, err := decoder.Token()
+			return result, err
+		}
+
+		result := ordereddict.NewDict()
+		for decoder.More() {
+			key, err := decoder.Token()
+			if err != nil {
+				return nil, err
+			}
+			value, err := decodeValue(decoder)
+			if err != nil {
+				return nil, err
+			}
+			result.Set(fmt.Sprint(key), value)
+		}
+		_, err := decoder.Token()
+		return result, err
+	}
+
+	return token, nil
+}
diff --git a/scope/marshal.go b/scope/marshal.go
index 5140435..3c218a5 100644
--- a/scope/marshal.go
+++ b/scope/marshal.go
@@ -76,7 +76,10 @@ func (self ScopeUnmarshaller) Unmarshal(
 		unmarshalled, err := unmarshaller.Unmarshal(unmarshaller,
 			new_scope, v)
 		if err == nil {
-			if !types.IsNil(unmarshalled) {
+			// Replayed definitions have no value of their own, but a
+			// variable may well be NULL.
+			_, is_null := unmarshalled.(types.Null)
+			if is_null || !types.IsNil(unmarshalled) {
 				env.Set(k, unmarshalled)
 			}
 		} else {
-- 
2.43.0


From 1f20ccca98bd5f981d19080e626646e7dd76f803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:34 +0000
Subject: [PATCH 57/63] fix: saving a definition dropped its parameter defaults
 and the quotes of its names

---
 marshal.go | 60 ++++++++++++++++++++++++++++++++----------------------
 1 file changed, 36 insertions(+), 24 deletions(-)

diff --git a/marshal.go b/marshal.go
index 74b866d..8d5b026 100644
--- a/marshal.go
+++ b/marshal.go
@@ -19,36 +19,36 @@ type StoredQueryItem struct {
 
 func (self *_StoredQuery) Marshal(
 	scope types.Scope) (*types.MarshalItem, error) {
-
-	var query string
-	if self.parameters == nil {
-		query = fmt.Sprintf("LET `%v` = %s", self.name,
-			FormatToString(scope, self.query))
-	} else {
-		query = fmt.Sprintf("LET `%v`(%s) = %s", self.name,
-			strings.Join(self.parameters, ", "),
-			FormatToString(scope, self.query))
-	}
-
-	query_str, err := json.Marshal(query)
-	return &types.MarshalItem{
-		Type: "Replay",
-		Data: query_str,
-	}, err
+	return marshalDefinition(scope, self.name,
+		self.parameters, self.defaults, self.query)
 }
 
 func (self *StoredExpression) Marshal(
 	scope types.Scope) (*types.MarshalItem, error) {
+	return marshalDefinition(scope, self.name,
+		self.parameters, self.defaults, self.Expr)
+}
 
-	var query string
-	if self.parameters == nil {
-		query = fmt.Sprintf("LET `%v` = %s", self.name,
-			FormatToString(scope, self.Expr))
-	} else {
-		query = fmt.Sprintf("LET `%v`(%s) = %s", self.name,
-			strings.Join(self.parameters, ", "),
-			FormatToString(scope, self.Expr))
+// Definitions are stored as the text of the LET statement which
+// defines them.
+func marshalDefinition(
+	scope types.Scope, name string, parameters []string,
+	defaults map[string]*_Args, body interface{}) (*types.MarshalItem, error) {
+
+	query := fmt.Sprintf("LET `%v`", name)
+	if parameters != nil {
+		var formatted []string
+		for _, p := range parameters {
+			arg, pres := defaults[p]
+			if pres {
+				formatted = append(formatted, FormatToString(scope, arg))
+			} else {
+				formatted = append(formatted, quoteParameter(p))
+			}
+		}
+		query += "(" + strings.Join(formatted, ", ") + ")"
 	}
+	query += " = " + FormatToString(scope, body)
 
 	query_str, err := json.Marshal(query)
 	return &types.MarshalItem{
@@ -57,6 +57,18 @@ func (self *StoredExpression) Marshal(
 	}, err
 }
 
+// Some parameter names are only valid in backticks.
+func quoteParameter(name string) string {
+	vql, err := Parse("LET X(" + name + ") = 1")
+	if err == nil {
+		names, _ := vql.getParameterNames()
+		if len(names) == 1 && names[0] == name {
+			return name
+		}
+	}
+	return "`" + name + "`"
+}
+
 type ReplayUnmarshaller struct{}
 
 func (self ReplayUnmarshaller) Unmarshal(
-- 
2.43.0


From 9b0c5704078114afec63f1b3d0985450f7f94647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:47 +0000
Subject: [PATCH 58/63] fix: materialized queries in the rows of nested queries
 stayed unresolved

---
 utils/dict/dict.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/utils/dict/dict.go b/utils/dict/dict.go
index 8f275a4..fdb9b47 100644
--- a/utils/dict/dict.go
+++ b/utils/dict/dict.go
@@ -52,8 +52,7 @@ func is_plain(value types.Any, depth int) bool {
 		}
 		for _, k := range t.Keys() {
 			v, _ := t.Get(k)
-			_, is_query := v.(types.StoredQuery)
-			if !is_query && !is_plain(v, depth+1) {
+			if !is_unmaterialized(v) && !is_plain(v, depth+1) {
 				return false
 			}
 		}
@@ -92,6 +91,13 @@ func is_plain(value types.Any, depth int) bool {
 	return true
 }
 
+// A stored query which needs to run before its rows are known.
+func is_unmaterialized(value types.Any) bool {
+	_, is_query := value.(types.StoredQuery)
+	_, is_materialized := value.(types.Materializer)
+	return is_query && !is_materialized
+}
+
 // The rows of nested queries are resolved like the row itself.
 func normalize_row(ctx context.Context,
 	scope types.Scope, row types.Row, depth int) types.Any {
@@ -100,8 +106,8 @@ func normalize_row(ctx context.Context,
 	}
 
 	switch row.(type) {
-	case nil, types.Null, *types.Null, *ordereddict.Dict:
-		return normalize_value(ctx, scope, row, depth)
+	case nil, types.Null, *types.Null:
+		return types.Null{}
 	}
 
 	switch reflect.Indirect(reflect.ValueOf(row)).Kind() {
@@ -153,8 +159,7 @@ func normalize_value(ctx context.Context,
 		result := ordereddict.NewDict()
 		for _, k := range t.Keys() {
 			v, _ := t.Get(k)
-			_, is_query := v.(types.StoredQuery)
-			if is_query {
+			if is_unmaterialized(v) {
 				result.Set(k, v)
 				continue
 			}
-- 
2.43.0


From 7e570698c659ce5e166499bfaf589376c229f521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:32 +0000
Subject: [PATCH 59/63] fix: fields of lazy values and lazily evaluated
 patterns were not resolved

---
 protocols/protocol_associative.go | 6 ++++++
 protocols/protocol_regex.go       | 1 +
 2 files changed, 7 insertions(+)

diff --git a/protocols/protocol_associative.go b/protocols/protocol_associative.go
index ed23e50..6d12f3c 100644
--- a/protocols/protocol_associative.go
+++ b/protocols/protocol_associative.go
@@ -50,6 +50,10 @@ func (self *AssociativeDispatcher) Associative(
 		return types.Null{}, true
 	}
 
+	// Lazy values stand for the values they reduce to.
+	a = maybeReduce(a)
+	b = maybeReduce(b)
+
 	b_str, ok := utils.ToString(b)
 	if ok {
 		switch t := a.(type) {
@@ -127,6 +131,8 @@ func (self *AssociativeDispatcher) GetMembers(
 		return []string{}
 	}
 
+	a = maybeReduce(a)
+
 	switch t := a.(type) {
 	case types.Scope:
 		return []string{}
diff --git a/protocols/protocol_regex.go b/protocols/protocol_regex.go
index 49524fd..cb24930 100644
--- a/protocols/protocol_regex.go
+++ b/protocols/protocol_regex.go
@@ -23,6 +23,7 @@ func (self RegexDispatcher) Copy() RegexDispatcher {
 }
 
 func (self RegexDispatcher) Match(scope types.Scope, pattern types.Any, target types.Any) bool {
+	pattern = maybeReduce(pattern)
 	target = maybeReduce(target)
 
 	pattern_str, ok := pattern.(string)
-- 
2.43.0


From 99cc5491efbb01ae79ed07552170d49213f0ce33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:44 +0000
Subject: [PATCH 60/63] fix: the field of a list without such members is an
 empty list everywhere, not NULL in columns

---
 protocols/protocol_associative.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocols/protocol_associative.go b/protocols/protocol_associative.go
index 6d12f3c..b5f13da 100644
--- a/protocols/protocol_associative.go
+++ b/protocols/protocol_associative.go
@@ -301,7 +301,7 @@ func (self DefaultAssociative) Associative(scope types.Scope, a types.Any, b typ
 
 		// An array - we call Associative on each member.
 		if a_type.Kind() == reflect.Slice {
-			var result []types.Any
+			result := []types.Any{}
 
 			for i := 0; i < a_value.Len(); i++ {
 				element := a_value.Index(i).Interface()
-- 
2.43.0


From 929fae399848bf4733cac78abbdfbbdefce5f314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:41 +0000
Subject: [PATCH 61/63] fix: float32 and uint values of the host were not
 numbers in arithmetic and truth tests

---
 protocols/common.go | 8 +++++++-
 utils/utils.go      | 4 ++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/protocols/common.go b/protocols/common.go
index 4de9259..b2a6e97 100644
--- a/protocols/common.go
+++ b/protocols/common.go
@@ -15,9 +15,15 @@ func maybeReduce(a types.Any) types.Any {
 
 	// A nil pointer of any type is the same as NULL - protocols can
 	// not look inside it.
-	switch a.(type) {
+	switch t := a.(type) {
 	case nil, string, bool, int64, float64:
 		return a
+
+		// These are numbers just like their wider kinds.
+	case float32:
+		return float64(t)
+	case uint:
+		return uint64(t)
 	}
 
 	value := reflect.ValueOf(a)
diff --git a/utils/utils.go b/utils/utils.go
index c4ffb2d..6dfc4cf 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -170,6 +170,8 @@ func ToInt64(x interface{}) (int64, bool) {
 		}
 	case int:
 		return int64(t), true
+	case uint:
+		return int64(t), true
 	case uint8:
 		return int64(t), true
 	case int8:
@@ -188,6 +190,8 @@ func ToInt64(x interface{}) (int64, bool) {
 		return t, true
 	case float64:
 		return int64(t), true
+	case float32:
+		return int64(t), true
 
 	case *int:
 		return ptrToInt64(t)
-- 
2.43.0


From f22a623ccb502b79603242d074a45f0b7c0fb886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:56 +0000
Subject: [PATCH 62/63] fix: a second comparison after a negated one (NOT 1 > 2
 > 3) was dropped silently instead of being a syntax error

---
 vfilter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vfilter.go b/vfilter.go
index d48cf90..ec4a88e 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -1067,8 +1067,8 @@ type _OpOrTerm struct {
 type _ConditionOperand struct {
 	Comments []*_Comment          ` [ @@ ] `
 	Not      *_ConditionOperand   `(NOT @@ | `
-	Left     *_AdditionExpression `@@)`
-	Right    *_OpComparison       `[ @@ ]`
+	Left     *_AdditionExpression `@@`
+	Right    *_OpComparison       `[ @@ ] )`
 }
 
 type _OpComparison struct {
-- 
2.43.0


From 2c04fcb814338cff621d3f5690658c686c8da56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:26 +0000
Subject: [PATCH 63/63] fix: a number of seconds never equalled a point in time
 although the reverse held

---
 protocols/protocol_eq.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/protocols/protocol_eq.go b/protocols/protocol_eq.go
index 2529301..5365485 100644
--- a/protocols/protocol_eq.go
+++ b/protocols/protocol_eq.go
@@ -61,13 +61,22 @@ func (self EqDispatcher) Eq(scope types.Scope, a types.Any, b types.Any) bool {
 	case time.Time:
 		rhs, ok := toTime(b)
 		if ok {
-			return t.UnixNano() == rhs.UnixNano()
+			return t.Equal(*rhs)
 		}
 
 	case *time.Time:
 		rhs, ok := toTime(b)
 		if ok {
-			return t.UnixNano() == rhs.UnixNano()
+			return t.Equal(*rhs)
+		}
+	}
+
+	// Times compare with seconds since the epoch on either side.
+	if isTime(b) {
+		lhs, ok := toTime(a)
+		if ok {
+			rhs, _ := toTime(b)
+			return lhs.Equal(*rhs)
 		}
 	}
 
-- 
2.43.0

