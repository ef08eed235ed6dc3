From d537f56aca64047d5d26e5bfe985e5e79c913db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:38 +0000
Subject: [PATCH 01/20] fix: keep condition groups immutable when derived
 groups share backing array

---
 group.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/group.go b/group.go
index 1b476db..4f5637c 100644
--- a/group.go
+++ b/group.go
@@ -1,5 +1,9 @@
 package query
 
+import (
+	"slices"
+)
+
 // Group implements conditions grouping.
 type Group struct {
 	BaseCondition
@@ -133,6 +137,7 @@ func (conditionsGroup Group) addSingleCondition(condition Condition) Group {
 // addConditions adds new conditions into existing set and returns modified group.
 // Note it operates over Group copy and returns pointer to modified copy.
 func (conditionsGroup Group) addConditions(op JoinType, conditions ...Condition) Group {
+	conditionsGroup.conditions = slices.Clip(conditionsGroup.conditions) // never append into shared backing array
 	havingAnyAND := conditionsGroup.hasOne(LogicalAND)
 	havingAnyOR := conditionsGroup.hasOne(LogicalOR)
 	haveConditions := len(conditionsGroup.conditions) > 0
@@ -307,6 +312,7 @@ func (conditionsGroup Group) Values() (values []interface{}) {
 // ApplyFieldSpec makes a copy of Group with updated FieldDefinition on each child when field name matched.
 // Implements Condition.
 func (conditionsGroup Group) ApplyFieldSpec(spec FieldDefinition) Condition {
+	conditionsGroup.conditions = slices.Clone(conditionsGroup.conditions)
 	for idx := range conditionsGroup.conditions {
 		conditionsGroup.conditions[idx] = conditionsGroup.conditions[idx].ApplyFieldSpec(spec)
 	}
@@ -317,6 +323,7 @@ func (conditionsGroup Group) ApplyFieldSpec(spec FieldDefinition) Condition {
 // ApplyFieldTable makes a copy of Condition with updated FieldDefinition table name.
 // Implements Condition.
 func (conditionsGroup Group) ApplyFieldTable(table TableName) Condition {
+	conditionsGroup.conditions = slices.Clone(conditionsGroup.conditions)
 	for idx := range conditionsGroup.conditions {
 		conditionsGroup.conditions[idx] = conditionsGroup.conditions[idx].ApplyFieldTable(table)
 	}
-- 
2.43.0


From effb125614c11e8117f388904dacc787e8e7972f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:38 +0000
Subject: [PATCH 02/20] fix: keep builder joins untouched when finishing an
 incomplete join

---
 join_unfinished.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/join_unfinished.go b/join_unfinished.go
index 3568494..5d6d4e3 100644
--- a/join_unfinished.go
+++ b/join_unfinished.go
@@ -1,5 +1,9 @@
 package query
 
+import (
+	"slices"
+)
+
 // incompleteBaseJoiner is not exported implementation of IncompleteSelectJoin just for prevent manual instance building.
 // The goal is to provide chain style method to generate every clause types.
 type incompleteBaseJoiner struct {
@@ -12,6 +16,7 @@ type incompleteBaseJoiner struct {
 func (joiner incompleteBaseJoiner) On(left FieldDefinition, right FieldDefinition) (updated BaseSelectBuilder) {
 	updated = joiner.BaseSelectBuilder
 	unfinishedJoinIdx := len(updated.joins) - 1
+	updated.joins = slices.Clone(updated.joins)
 	updated.joins[unfinishedJoinIdx] = updated.joins[unfinishedJoinIdx].By(left, right)
 
 	return updated
@@ -29,6 +34,7 @@ type incompleteManyJoiner struct {
 func (joiner incompleteManyJoiner) On(left FieldDefinition, right FieldDefinition) (updated SelectManyBuilder) {
 	updated = joiner.SelectManyBuilder
 	unfinishedJoinIdx := len(updated.joins) - 1
+	updated.joins = slices.Clone(updated.joins)
 	updated.joins[unfinishedJoinIdx] = updated.joins[unfinishedJoinIdx].By(left, right)
 
 	return updated
@@ -46,6 +52,7 @@ type incompleteSingleJoiner struct {
 func (joiner incompleteSingleJoiner) On(left FieldDefinition, right FieldDefinition) (updated SelectSingleBuilder) {
 	updated = joiner.SelectSingleBuilder
 	unfinishedJoinIdx := len(updated.joins) - 1
+	updated.joins = slices.Clone(updated.joins)
 	updated.joins[unfinishedJoinIdx] = updated.joins[unfinishedJoinIdx].By(left, right)
 
 	return updated
-- 
2.43.0


From e63f1e23955d2f44b82d08796e32cdb688d8780d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:38 +0000
Subject: [PATCH 03/20] fix: keep builders immutable when appending orders,
 joins and values

---
 insert.go        | 5 +++--
 select_base.go   | 3 ++-
 select_many.go   | 5 +++--
 select_single.go | 6 +++++-
 update.go        | 5 +++--
 5 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/insert.go b/insert.go
index 90cef5a..332c0b1 100644
--- a/insert.go
+++ b/insert.go
@@ -2,6 +2,7 @@ package query
 
 import (
 	"fmt"
+	"slices"
 	"strconv"
 	"strings"
 )
@@ -20,13 +21,13 @@ func (inserter InsertBuilder) RenderFrom() string {
 
 // SetValues returns a copy of fields values attached to use in create query.
 func (inserter InsertBuilder) SetValues() []FieldValue {
-	return inserter.setValues
+	return slices.Clone(inserter.setValues)
 }
 
 // Values generates new InsertBuilder having additional field values to build insert query parameters.
 // Can be called multiple times to set as many field values as required.
 func (inserter InsertBuilder) Values(values ...FieldValue) InsertBuilder {
-	inserter.setValues = append(inserter.setValues, values...)
+	inserter.setValues = append(slices.Clip(inserter.setValues), values...)
 	return inserter
 }
 
diff --git a/select_base.go b/select_base.go
index edecf61..6c132e4 100644
--- a/select_base.go
+++ b/select_base.go
@@ -2,6 +2,7 @@ package query
 
 import (
 	"fmt"
+	"slices"
 	"strings"
 )
 
@@ -187,7 +188,7 @@ func (query BaseSelectBuilder) OrderBy(orderByFields ...FieldSorting) SelectMany
 // Call IncompleteSelectJoin.On will return updated BaseSelectBuilder with join builder data finished.
 func (query BaseSelectBuilder) joinIdent(rightTable TableIdent, joinType TableJoinType) IncompleteSelectJoin {
 	updated := query
-	updated.joins = append(updated.joins, TableJoiner{rightTable: rightTable, joinType: joinType})
+	updated.joins = append(slices.Clip(updated.joins), TableJoiner{rightTable: rightTable, joinType: joinType})
 	return incompleteBaseJoiner{BaseSelectBuilder: updated}
 }
 
diff --git a/select_many.go b/select_many.go
index 30cc574..4a9ae4f 100644
--- a/select_many.go
+++ b/select_many.go
@@ -1,6 +1,7 @@
 package query
 
 import (
+	"slices"
 	"strconv"
 )
 
@@ -104,7 +105,7 @@ func (query SelectManyBuilder) Limit(limit int) SelectManyBuilder {
 
 // OrderBy adds ordering by fields GroupAND returns modified SelectManyBuilder.
 func (query SelectManyBuilder) OrderBy(orderByFields ...FieldSorting) SelectManyBuilder {
-	query.order = append(query.order, orderByFields...)
+	query.order = append(slices.Clip(query.order), orderByFields...)
 	return query
 }
 
@@ -134,7 +135,7 @@ func (query SelectManyBuilder) Delete() DeleteBuilder {
 // Call IncompleteSelectJoin.On will return updated BaseSelectBuilder with join builder data finished.
 func (query SelectManyBuilder) joinIdent(rightTable TableIdent, joinType TableJoinType) IncompleteSelectManyJoiner {
 	updated := query
-	updated.joins = append(updated.joins, TableJoiner{rightTable: rightTable, joinType: joinType})
+	updated.joins = append(slices.Clip(updated.joins), TableJoiner{rightTable: rightTable, joinType: joinType})
 	return incompleteManyJoiner{SelectManyBuilder: updated}
 }
 
diff --git a/select_single.go b/select_single.go
index dd12af7..fb6b385 100644
--- a/select_single.go
+++ b/select_single.go
@@ -1,5 +1,9 @@
 package query
 
+import (
+	"slices"
+)
+
 // SelectSingleBuilder extends BaseSelectBuilder helps to build SQL SELECT queries to receive single row.
 type SelectSingleBuilder struct {
 	BaseSelectBuilder
@@ -54,7 +58,7 @@ func (query SelectSingleBuilder) Update(values ...FieldValue) UpdateBuilder {
 // Call IncompleteSelectJoin.On will return updated BaseSelectBuilder with join builder data finished.
 func (query SelectSingleBuilder) joinIdent(rightTable TableIdent, joinType TableJoinType) IncompleteSelectSingleJoiner {
 	updated := query
-	updated.joins = append(updated.joins, TableJoiner{rightTable: rightTable, joinType: joinType})
+	updated.joins = append(slices.Clip(updated.joins), TableJoiner{rightTable: rightTable, joinType: joinType})
 	return incompleteSingleJoiner{SelectSingleBuilder: updated}
 }
 
diff --git a/update.go b/update.go
index da0c242..e6128d5 100644
--- a/update.go
+++ b/update.go
@@ -2,6 +2,7 @@ package query
 
 import (
 	"fmt"
+	"slices"
 	"strconv"
 	"strings"
 )
@@ -21,13 +22,13 @@ func (updater UpdateBuilder) RenderFrom() string {
 
 // SetValues returns a copy of fields to update.
 func (updater UpdateBuilder) SetValues() []FieldValue {
-	return updater.setValues
+	return slices.Clone(updater.setValues)
 }
 
 // Set generates new UpdateBuilder having extended fields to update array.
 // Can be called multiple times to set as many field values as required.
 func (updater UpdateBuilder) Set(values ...FieldValue) UpdateBuilder {
-	updater.setValues = append(updater.setValues, values...)
+	updater.setValues = append(slices.Clip(updater.setValues), values...)
 	return updater
 }
 
-- 
2.43.0


From 8aa698c282e7fe9f517e727723be6646e92602ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:38 +0000
Subject: [PATCH 04/20] fix: keep table, joins and conditions in
 SelectSingleBuilder.Fields

---
 select_single.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/select_single.go b/select_single.go
index fb6b385..722dcfd 100644
--- a/select_single.go
+++ b/select_single.go
@@ -29,6 +29,7 @@ func (query SelectSingleBuilder) FieldList() string {
 // Fields returns a copy of SelectManyBuilder having mustField list to retrieve updated with a list of specified FieldDefinition`s.
 // Note all fields should be set one step as Fields call resets mustField added before.
 func (query SelectSingleBuilder) Fields(fieldSpecs ...FieldDefinition) (updated SelectSingleBuilder) {
+	updated = query
 	updated.BaseSelectBuilder = updated.BaseSelectBuilder.Fields(fieldSpecs...)
 	return updated
 }
-- 
2.43.0


From 68c7ae21054a6e550f6408c9aa0f17e59558e736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:38 +0000
Subject: [PATCH 05/20] fix: do not panic in IsNull condition Or

---
 lib_isnull.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib_isnull.go b/lib_isnull.go
index 3b7552e..d1e8e00 100644
--- a/lib_isnull.go
+++ b/lib_isnull.go
@@ -62,13 +62,13 @@ func (impl nullValue) Values() []interface{} {
 // And generates new condition which true on all conditions met.
 // Implements Condition.
 func (impl nullValue) And(conditions ...Condition) Condition {
-	return NewGroup(LogicalAND, impl).And(conditions...)
+	return And(impl, conditions...)
 }
 
 // Or generates new condition group which true on either initial condition is true or all of additional are true.
 // Implements Condition.
 func (impl nullValue) Or(conditions ...Condition) Condition {
-	return NewGroup(LogicalAND, nil).And(impl).Or(conditions...)
+	return Or(impl, conditions...)
 }
 
 // IsNull generates Condition to select rows where specified field name value IS NULL'.
-- 
2.43.0


From d56d95548db6024b3c367f6dcdfa91b245f59da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:39 +0000
Subject: [PATCH 06/20] fix: make Contains and IContains Or results join with
 OR like other conditions

---
 lib_ilike.go | 2 +-
 lib_like.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib_ilike.go b/lib_ilike.go
index 582d76f..2a4a493 100644
--- a/lib_ilike.go
+++ b/lib_ilike.go
@@ -50,7 +50,7 @@ func (impl iContains) And(conditions ...Condition) Condition {
 // Or generates new condition group which true on either initial condition is true or all of additional are true.
 // Implements Condition.
 func (impl iContains) Or(conditions ...Condition) Condition {
-	return NewGroup(LogicalOR, impl).Or(conditions...)
+	return Or(impl, conditions...)
 }
 
 // Render renders SQL SELECT clause part for current mustField.
diff --git a/lib_like.go b/lib_like.go
index ca170d9..8c34729 100644
--- a/lib_like.go
+++ b/lib_like.go
@@ -48,7 +48,7 @@ func (impl contains) And(conditions ...Condition) Condition {
 // Or generates new condition group which true on either initial condition is true or all of additional are true.
 // Implements Condition.
 func (impl contains) Or(conditions ...Condition) Condition {
-	return NewGroup(LogicalOR, impl).Or(conditions...)
+	return Or(impl, conditions...)
 }
 
 // Render renders SQL SELECT clause part for current mustField.
-- 
2.43.0


From 29c99383d17ff458c1f36df35cc418b1f9a459e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:42 +0000
Subject: [PATCH 07/20] fix: join several conditions added at once with the
 requested operator

---
 group.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/group.go b/group.go
index 4f5637c..f6ae949 100644
--- a/group.go
+++ b/group.go
@@ -151,13 +151,13 @@ func (conditionsGroup Group) addConditions(op JoinType, conditions ...Condition)
 	case len(conditions) == 1: // process single element adding in separated Group.addSingleCondition
 		return conditionsGroup.addSingleCondition(op.Join(conditions[0]))
 	case havingAnyOR && op == LogicalAND: // enclose existed OR-OR into brackets and join flat AND-AND
-		conditionsGroup.conditions = append([]Condition{conditionsGroup.WithBrackets()}, conditions...)
+		conditionsGroup.conditions = append([]Condition{conditionsGroup.WithBrackets()}, op.SetToAll(conditions...)...)
 	case havingAnyAND && op == LogicalOR: // join to existed flat AND-AND new OR(AND_AND)
-		conditionsGroup.conditions = append(conditionsGroup.conditions, op.Join(NewGroup(op, conditions...)))
+		conditionsGroup.conditions = append(conditionsGroup.conditions, op.Join(NewGroup(LogicalAND, conditions...).WithBrackets()))
 	default: // have many, adding many, enclose both sets into brackets and return new group with required join.
 		conditionsGroup.conditions = append([]Condition{
 			conditionsGroup.WithBrackets()},
-			NewGroup(LogicalAND, conditions...).WithBrackets(),
+			op.Join(NewGroup(LogicalAND, conditions...).WithBrackets()),
 		)
 	}
 
-- 
2.43.0


From eb5410eb9613906223a1f7b31cfc5e76d9b009c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:43 +0000
Subject: [PATCH 08/20] fix: keep negation of groups when combining them with
 other conditions

---
 group.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/group.go b/group.go
index f6ae949..1acc40e 100644
--- a/group.go
+++ b/group.go
@@ -116,7 +116,7 @@ func (conditionsGroup Group) addSingleCondition(condition Condition) Group {
 	op := condition.JoinType()
 
 	switch {
-	case addingGroup: // process adding groups in separate method
+	case addingGroup && !groupToAdd.IsNegate(): // process adding groups in separate method, keep negated group as single element
 		return conditionsGroup.addGroup(groupToAdd)
 	case haveNone: // current group empty, join single condition and set group join type
 		conditionsGroup.conditions = append(conditionsGroup.conditions, condition)
@@ -137,6 +137,14 @@ func (conditionsGroup Group) addSingleCondition(condition Condition) Group {
 // addConditions adds new conditions into existing set and returns modified group.
 // Note it operates over Group copy and returns pointer to modified copy.
 func (conditionsGroup Group) addConditions(op JoinType, conditions ...Condition) Group {
+	if conditionsGroup.IsNegate() && len(conditionsGroup.conditions) > 0 && len(conditions) > 0 {
+		// negation covers existed conditions only, so keep negated group as the first element of a new one.
+		conditionsGroup = Group{
+			BaseCondition: *newBaseCondition(conditionsGroup.joinType, false),
+			conditions:    []Condition{conditionsGroup},
+		}
+	}
+
 	conditionsGroup.conditions = slices.Clip(conditionsGroup.conditions) // never append into shared backing array
 	havingAnyAND := conditionsGroup.hasOne(LogicalAND)
 	havingAnyOR := conditionsGroup.hasOne(LogicalOR)
-- 
2.43.0


From 87823f47150552b8fed3cab3d8e635f4467e73ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:58 +0000
Subject: [PATCH 09/20] fix: enclose child groups into brackets when rendering
 groups

---
 group.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/group.go b/group.go
index 1acc40e..86547d8 100644
--- a/group.go
+++ b/group.go
@@ -237,6 +237,16 @@ func (conditionsGroup Group) Or(conditions ...Condition) Condition {
 	return conditionsGroup.GroupOR(conditions...)
 }
 
+// enclose returns child condition to render, enclosing child groups into brackets
+// when either joined with other conditions or group is negated.
+func (conditionsGroup Group) enclose(condition Condition) Condition {
+	if group, isGroup := condition.(Group); isGroup && (len(conditionsGroup.conditions) > 1 || conditionsGroup.IsNegate()) {
+		return group.WithBrackets()
+	}
+
+	return condition
+}
+
 // Render renders SQL SELECT clause part for current group.
 // Takes existed parameters number (0 means no parameters are defined yet)
 // Note Render renders group without brackets itself if called directly.
@@ -254,7 +264,7 @@ func (conditionsGroup Group) Render(parametersCount int) (sql string) {
 			sql += " " + joinToken + " "
 		}
 
-		sql += condition.Render(parametersCount)
+		sql += conditionsGroup.enclose(condition).Render(parametersCount)
 		parametersCount += len(condition.Values())
 	}
 
@@ -288,7 +298,7 @@ func (conditionsGroup Group) RenderSQL() (sql string) {
 			sql += " " + joinToken + " "
 		}
 
-		sql += condition.RenderSQL()
+		sql += conditionsGroup.enclose(condition).RenderSQL()
 	}
 
 	if conditionsGroup.IsNegate() && len(conditionsGroup.conditions) > 1 { // force set brackets when negate
-- 
2.43.0


From 089a834cc1a6a1d899136f3f3c3718511354abf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:59 +0000
Subject: [PATCH 10/20] fix: skip empty condition groups to never build WHERE
 clause without conditions

---
 group.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/group.go b/group.go
index 86547d8..e2b6632 100644
--- a/group.go
+++ b/group.go
@@ -34,6 +34,19 @@ func (conditionsGroup Group) FieldName() FieldName {
 	return ""
 }
 
+// skipEmptyGroups returns a copy of conditions list without empty groups as they have nothing to render.
+func skipEmptyGroups(conditions []Condition) []Condition {
+	result := make([]Condition, 0, len(conditions))
+	for _, condition := range conditions {
+		if group, isGroup := condition.(Group); isGroup && len(group.conditions) == 0 {
+			continue
+		}
+		result = append(result, condition)
+	}
+
+	return result
+}
+
 // NewGroup makes a group of conditions with default external join AND.
 // All conditions inside group joined with requested joinType.
 func NewGroup(joinType JoinType, conditions ...Condition) Group {
@@ -42,7 +55,7 @@ func NewGroup(joinType JoinType, conditions ...Condition) Group {
 	}
 	return Group{
 		BaseCondition: *newBaseCondition(LogicalAND, false),
-		conditions:    joinType.SetToAll(conditions...),
+		conditions:    joinType.SetToAll(skipEmptyGroups(conditions)...),
 		withBrackets:  false,
 	}
 }
@@ -137,6 +150,8 @@ func (conditionsGroup Group) addSingleCondition(condition Condition) Group {
 // addConditions adds new conditions into existing set and returns modified group.
 // Note it operates over Group copy and returns pointer to modified copy.
 func (conditionsGroup Group) addConditions(op JoinType, conditions ...Condition) Group {
+	conditions = skipEmptyGroups(conditions)
+
 	if conditionsGroup.IsNegate() && len(conditionsGroup.conditions) > 0 && len(conditions) > 0 {
 		// negation covers existed conditions only, so keep negated group as the first element of a new one.
 		conditionsGroup = Group{
-- 
2.43.0


From 578fd297f95ddc431e0b5dc3e0c7e6bafb1401c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:12 +0000
Subject: [PATCH 11/20] fix: keep logical meaning when unpacking groups with
 mixed join types

---
 group.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/group.go b/group.go
index e2b6632..5fa60f9 100644
--- a/group.go
+++ b/group.go
@@ -78,6 +78,11 @@ func (conditionsGroup Group) addGroup(anotherGroup Group) Group {
 
 	op := anotherGroup.joinType
 
+	if len(anotherGroup.conditions) > 0 { // first condition own join type becomes valuable when group unpacked
+		anotherGroup.conditions = slices.Clone(anotherGroup.conditions)
+		anotherGroup.conditions[0] = op.Join(anotherGroup.conditions[0])
+	}
+
 	switch {
 	case haveNone: // current group empty, reset it op and elements from another
 		conditionsGroup.conditions = anotherGroup.conditions
@@ -96,7 +101,7 @@ func (conditionsGroup Group) addGroup(anotherGroup Group) Group {
 		conditionsGroup.conditions = append(conditionsGroup.conditions, anotherGroup.conditions...)
 	case havingOnlyOR && op == LogicalOR && addingAnyAnd: // (OR) OR (AND) => OR OR (AND)
 		conditionsGroup.conditions = append(conditionsGroup.conditions, anotherGroup.WithBrackets())
-	case havingAnyOR && op == LogicalAND && addingAnyAnd: // (OR) AND (AND) => (OR) AND AND
+	case havingAnyOR && op == LogicalAND && addingAnyAnd && addingOnlyAnd: // (OR) AND (AND) => (OR) AND AND
 		conditionsGroup.conditions = append([]Condition{conditionsGroup.WithBrackets()}, anotherGroup.conditions...)
 		// check conditions on having many conditions and adding group with conjunction
 
-- 
2.43.0


From ce2c22ae0459e58109dfdc0892a1aa5d76803ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:41 +0000
Subject: [PATCH 12/20] fix: do not replace value with NULL when driver.Valuer
 fails

---
 value.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/value.go b/value.go
index d760d1f..34cbf2c 100644
--- a/value.go
+++ b/value.go
@@ -29,20 +29,29 @@ func (fieldValue FieldValue) ApplyFieldSpec(spec FieldDefinition) FieldValue {
 	return fieldValue
 }
 
+// valuerValue translates driver.Valuer into its database value.
+// If translation failed returns valuer itself to let database driver report an error instead of storing NULL silently.
+func valuerValue(valuer driver.Valuer) any {
+	value, err := valuer.Value()
+	if err != nil {
+		return valuer
+	}
+
+	return value
+}
+
 // Values returns a slice of interface{} containing single field value.
 func (fieldValue FieldValue) Values() (result []interface{}) {
 	var err error
 
 	switch typedValue := fieldValue.value.(type) {
 	case driver.Valuer:
-		singleValue, _ := typedValue.Value()
-		return []any{singleValue}
+		return []any{valuerValue(typedValue)}
 	case []driver.Valuer:
 		result = make([]any, len(typedValue))
 
 		for idx, value := range typedValue {
-			singleValue, _ := value.Value()
-			result[idx] = singleValue
+			result[idx] = valuerValue(value)
 		}
 
 		return result
-- 
2.43.0


From 4f0ea24ff56171a7c7202e366d93f3994b67fd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:42 +0000
Subject: [PATCH 13/20] fix: bind exactly one parameter per placeholder of
 comparison, insert and update values

---
 insert.go    |  2 +-
 lib_equal.go |  5 +++++
 lib_gt.go    |  5 +++++
 lib_gte.go   |  5 +++++
 lib_lt.go    |  5 +++++
 lib_lte.go   |  5 +++++
 update.go    |  2 +-
 value.go     | 13 +++++++++++++
 8 files changed, 40 insertions(+), 2 deletions(-)

diff --git a/insert.go b/insert.go
index 332c0b1..85aa9a1 100644
--- a/insert.go
+++ b/insert.go
@@ -49,7 +49,7 @@ func (inserter InsertBuilder) BuildQueryAndParams() (sql string, params []interf
 	valuePlaceholders := make([]string, 0)
 
 	for _, fieldValue := range inserter.setValues {
-		params = append(params, fieldValue.Values()...)
+		params = append(params, fieldValue.bindValue())
 
 		columns = append(columns, fieldValue.fieldName)
 		valuePlaceholders = append(valuePlaceholders, "$"+strconv.Itoa(len(params)))
diff --git a/lib_equal.go b/lib_equal.go
index 7615bcf..4d414e6 100644
--- a/lib_equal.go
+++ b/lib_equal.go
@@ -61,6 +61,11 @@ func (impl equalTo) RenderSQL() (sql string) {
 	return strings.Join(tokens, "")
 }
 
+// Values provides single value to fill the only placeholder of comparison.
+func (impl equalTo) Values() []interface{} {
+	return []interface{}{impl.bindValue()}
+}
+
 // And generates new condition which true on all conditions met.
 // Implements Condition.
 func (impl equalTo) And(conditions ...Condition) Condition {
diff --git a/lib_gt.go b/lib_gt.go
index 5e7eb4c..29675cc 100644
--- a/lib_gt.go
+++ b/lib_gt.go
@@ -61,6 +61,11 @@ func (impl greater) RenderSQL() (sql string) {
 	return strings.Join(tokens, "")
 }
 
+// Values provides single value to fill the only placeholder of comparison.
+func (impl greater) Values() []interface{} {
+	return []interface{}{impl.bindValue()}
+}
+
 // And generates new condition which true on all conditions met.
 // Implements Condition.
 func (impl greater) And(conditions ...Condition) Condition {
diff --git a/lib_gte.go b/lib_gte.go
index 74c4b74..d76e31e 100644
--- a/lib_gte.go
+++ b/lib_gte.go
@@ -62,6 +62,11 @@ func (impl greaterOrEqual) RenderSQL() (sql string) {
 	return strings.Join(tokens, "")
 }
 
+// Values provides single value to fill the only placeholder of comparison.
+func (impl greaterOrEqual) Values() []interface{} {
+	return []interface{}{impl.bindValue()}
+}
+
 // And generates new condition which true on all conditions met.
 // Implements Condition.
 func (impl greaterOrEqual) And(conditions ...Condition) Condition {
diff --git a/lib_lt.go b/lib_lt.go
index 540996d..1732aa7 100644
--- a/lib_lt.go
+++ b/lib_lt.go
@@ -65,6 +65,11 @@ func (impl less) RenderSQL() (sql string) {
 	return strings.Join(tokens, "")
 }
 
+// Values provides single value to fill the only placeholder of comparison.
+func (impl less) Values() []interface{} {
+	return []interface{}{impl.bindValue()}
+}
+
 // And generates new condition which true on all conditions met.
 // Implements Condition.
 func (impl less) And(conditions ...Condition) Condition {
diff --git a/lib_lte.go b/lib_lte.go
index 84db60c..1e3993a 100644
--- a/lib_lte.go
+++ b/lib_lte.go
@@ -66,6 +66,11 @@ func (impl lessOrEqual) RenderSQL() (sql string) {
 	return strings.Join(tokens, "")
 }
 
+// Values provides single value to fill the only placeholder of comparison.
+func (impl lessOrEqual) Values() []interface{} {
+	return []interface{}{impl.bindValue()}
+}
+
 // And generates new condition which true on all conditions met.
 // Implements Condition.
 func (impl lessOrEqual) And(conditions ...Condition) Condition {
diff --git a/update.go b/update.go
index e6128d5..7992880 100644
--- a/update.go
+++ b/update.go
@@ -43,7 +43,7 @@ func (updater UpdateBuilder) fieldsAndValues() (sql string, params []any) {
 	params = make([]any, len(updater.setValues))
 
 	for idx, fieldValue := range updater.setValues {
-		params[idx] = fieldValue.Values()[0]
+		params[idx] = fieldValue.bindValue()
 		kwPairs[idx] = fieldValue.fieldName + "=$" + strconv.Itoa(idx+1)
 	}
 
diff --git a/value.go b/value.go
index 34cbf2c..5023ee8 100644
--- a/value.go
+++ b/value.go
@@ -40,6 +40,19 @@ func valuerValue(valuer driver.Valuer) any {
 	return value
 }
 
+// bindValue returns value to bind to the single placeholder, i.e. when field is compared with value or set to value.
+// Contrary to Values it never expands lists.
+func (fieldValue FieldValue) bindValue() any {
+	switch typedValue := fieldValue.value.(type) {
+	case driver.Valuer:
+		return valuerValue(typedValue)
+	case ValueProvider:
+		return typedValue.DatabaseValue()
+	default:
+		return fieldValue.value
+	}
+}
+
 // Values returns a slice of interface{} containing single field value.
 func (fieldValue FieldValue) Values() (result []interface{}) {
 	var err error
-- 
2.43.0


From 3ede5dac09cb77a2390fcf588ef8809e6cd8d70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:43 +0000
Subject: [PATCH 14/20] fix: expand any list of values in IN condition

---
 value.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/value.go b/value.go
index 5023ee8..f718db3 100644
--- a/value.go
+++ b/value.go
@@ -113,6 +113,15 @@ func (fieldValue FieldValue) Values() (result []interface{}) {
 
 			return res
 		}
+
+		if elementsReflection.Kind() != reflect.Uint8 { // every list element is a separate value, except bytes sequence
+			res := make([]any, valueReflection.Len())
+			for idx := 0; idx < len(res); idx++ {
+				res[idx] = FieldValue{value: valueReflection.Index(idx).Interface()}.bindValue()
+			}
+
+			return res
+		}
 	}
 	return []any{fieldValue.value}
 }
-- 
2.43.0


From 6487dcf4b74cb9b6decd596f2a47c6bd9d826bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:59 +0000
Subject: [PATCH 15/20] fix: accept short table alias equal to table name

---
 table_ident.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/table_ident.go b/table_ident.go
index 64a9be3..2d228f6 100644
--- a/table_ident.go
+++ b/table_ident.go
@@ -54,6 +54,8 @@ func TableOrError[T TableNameParameter](name T) (*TableIdent, error) {
 		return &TableIdent{name: tokens[0], alias: ""}, nil
 	case len(tokens) == 2 && len(tokens[1]) > 0 && tokens[1] != tokens[0]:
 		return &TableIdent{name: tokens[0], alias: tokens[1]}, nil
+	case len(tokens) == 2 && tokens[1] == tokens[0]:
+		return &TableIdent{name: tokens[0], alias: ""}, nil
 	default:
 		return nil, fmt.Errorf("%w: unexpected table ident: `%v`", Error, name)
 	}
-- 
2.43.0


From 3b511c33c6eb7c9481f828d2fe71721671d05c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:12 +0000
Subject: [PATCH 16/20] fix: return error for malformed dotted field
 specification instead of dropping its parts

---
 field_definition.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/field_definition.go b/field_definition.go
index ff33351..8721af3 100644
--- a/field_definition.go
+++ b/field_definition.go
@@ -44,6 +44,8 @@ func FieldOrError[T FieldNameParameter](fieldName T) (field *FieldDefinition, er
 
 	tokens := strings.Fields(strName)
 	switch {
+	case len(tokens) > 0 && strings.Contains(tokens[0], ".") && !isTableField(tokens[0]):
+		return nil, fmt.Errorf("%w: unexpected field specification: %v", Error, strName)
 	case len(tokens) == 1 && !strings.Contains(tokens[0], "."):
 		return &FieldDefinition{fieldName: tokens[0], alias: "", tableName: ""}, nil
 	case len(tokens) == 1 && strings.Contains(tokens[0], "."):
@@ -59,6 +61,12 @@ func FieldOrError[T FieldNameParameter](fieldName T) (field *FieldDefinition, er
 	}
 }
 
+// isTableField checks if token has exactly "<table>.<name>" form with both parts present.
+func isTableField(token string) bool {
+	nameTokens := strings.Split(token, ".")
+	return len(nameTokens) == 2 && len(nameTokens[0]) > 0 && len(nameTokens[1]) > 0
+}
+
 func mustField[T FieldNameParameter](fieldName T) (field FieldDefinition) {
 	var (
 		err       error
-- 
2.43.0


From 71f58b3d33ea6fc4da6009f6d822924969e2f7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:13 +0000
Subject: [PATCH 17/20] fix: reject any whitespace in field names

---
 field_name.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/field_name.go b/field_name.go
index ce8eab9..cc60472 100644
--- a/field_name.go
+++ b/field_name.go
@@ -3,6 +3,7 @@ package query
 import (
 	"fmt"
 	"strings"
+	"unicode"
 )
 
 // ValueProvider implementations provides it's own values to database.
@@ -23,7 +24,7 @@ func (fn FieldName) Validate() error {
 		return fmt.Errorf("%w: field name contains quote character", Error)
 	case strings.Contains(fnStr, "\""):
 		return fmt.Errorf("%w: field name contains double quote character", Error)
-	case strings.Contains(fnStr, " "):
+	case strings.ContainsFunc(fnStr, unicode.IsSpace):
 		return fmt.Errorf("%w: field name contains space character", Error)
 	case strings.Count(fnStr, ".") > 1:
 		return fmt.Errorf("%w: too many dots inside field name", Error)
-- 
2.43.0


From 828afd58fad294a6217bdbc8eb5c9346eccd673e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:25 +0000
Subject: [PATCH 18/20] fix: do not render field alias in conditions and COUNT

---
 count.go      | 2 +-
 lib_isnull.go | 4 ++--
 value.go      | 5 +++++
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/count.go b/count.go
index 2e921dd..f64c51b 100644
--- a/count.go
+++ b/count.go
@@ -22,7 +22,7 @@ func (query CountBuilder) RenderFrom() string {
 func (query CountBuilder) BuildQueryAndParams() (sql string, params []interface{}, err error) {
 	tokens := append([]string{},
 		DoSelect.String(),
-		kwCount.String()+"("+query.countField.RenderField()+")",
+		kwCount.String()+"("+query.countField.As("").RenderField()+")",
 		kwFrom.String(),
 		query.baseBuilder.RenderFrom(),
 	)
diff --git a/lib_isnull.go b/lib_isnull.go
index d1e8e00..00c2ca8 100644
--- a/lib_isnull.go
+++ b/lib_isnull.go
@@ -47,9 +47,9 @@ func (impl nullValue) Render(_ int) string {
 func (impl nullValue) RenderSQL() (sql string) {
 	var tokens []string
 	if impl.IsNegate() {
-		tokens = []string{impl.RenderSpec(), "IS", "NOT", "NULL"}
+		tokens = []string{impl.FieldDefinition.As("").RenderSpec(), "IS", "NOT", "NULL"}
 	} else {
-		tokens = []string{impl.RenderSpec(), "IS", "NULL"}
+		tokens = []string{impl.FieldDefinition.As("").RenderSpec(), "IS", "NULL"}
 	}
 	return strings.Join(tokens, " ")
 }
diff --git a/value.go b/value.go
index f718db3..e95d869 100644
--- a/value.go
+++ b/value.go
@@ -12,6 +12,11 @@ type FieldValue struct {
 	value interface{} // untyped field value. Used to provide value into database.
 }
 
+// RenderSpec returns a field specification without alias to use in conditions, where fetch items aliases are not allowed.
+func (fieldValue FieldValue) RenderSpec() string {
+	return fieldValue.FieldDefinition.As("").RenderSpec()
+}
+
 // ApplyFieldTable makes a copy of FieldValue with updated FieldDefinition table name.
 // Implements Condition.
 func (fieldValue FieldValue) ApplyFieldTable(table TableName) FieldValue {
-- 
2.43.0


From d36e60d2c7588befc498bba47895970b928da70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:50 +0000
Subject: [PATCH 19/20] fix: render ordering, offset and limit in RenderSQL and
 Render of select builders

---
 select_many.go   | 47 +++++++++++++++++++++++++++++++++++++++++++++++
 select_single.go | 11 +++++++++++
 2 files changed, 58 insertions(+)

diff --git a/select_many.go b/select_many.go
index 4a9ae4f..093fe6f 100644
--- a/select_many.go
+++ b/select_many.go
@@ -52,6 +52,53 @@ func (query SelectManyBuilder) BuildQueryAndParams() (sql string, params []inter
 	return sql, params, nil
 }
 
+// limiter returns Limiter to render offset and limit clauses.
+func (query SelectManyBuilder) limiter() (limiter Limiter) {
+	limiter = limiter.Offset(query.offset)
+	if query.limit > 0 {
+		limiter = limiter.Limit(uint(query.limit))
+	}
+
+	return limiter
+}
+
+// renderTail adds ordering and already rendered limiter clauses to rendered base query.
+func (query SelectManyBuilder) renderTail(sql string, limiterClause string) string {
+	for idx, order := range query.order {
+		if idx == 0 {
+			sql += " ORDER BY " + order.Render()
+		} else {
+			sql += ", " + order.Render()
+		}
+	}
+
+	if len(limiterClause) > 0 {
+		sql += " " + limiterClause
+	}
+
+	return sql
+}
+
+// RenderSQL renders whole query including ordering, offset and limit using "?"(question) character for substitutions.
+// Use Values to get substituted parameters.
+func (query SelectManyBuilder) RenderSQL() (sql string) {
+	return query.renderTail(query.BaseSelectBuilder.RenderSQL(), query.limiter().RenderSQL())
+}
+
+// Render renders whole query including ordering, offset and limit using numbered parameters.
+// Takes existed parameters count (0 means no parameters are defined yet).
+func (query SelectManyBuilder) Render(parametersCount int) (sql string) {
+	return query.renderTail(
+		query.BaseSelectBuilder.Render(parametersCount),
+		query.limiter().Render(parametersCount+len(query.BaseSelectBuilder.Values())),
+	)
+}
+
+// Values returns parameters to substitute in Render or RenderSQL result.
+func (query SelectManyBuilder) Values() (params []any) {
+	return append(query.BaseSelectBuilder.Values(), query.limiter().Values()...)
+}
+
 // FieldList returns spec list string with their possible aliases to build select query.
 func (query SelectManyBuilder) FieldList() string {
 	return query.BaseSelectBuilder.fields.FieldList()
diff --git a/select_single.go b/select_single.go
index 722dcfd..38d0735 100644
--- a/select_single.go
+++ b/select_single.go
@@ -21,6 +21,17 @@ func (query SelectSingleBuilder) BuildQueryAndParams() (sql string, params []int
 	return sql + " LIMIT 1", params, nil
 }
 
+// RenderSQL renders whole query including limit using "?"(question) character for substitutions.
+func (query SelectSingleBuilder) RenderSQL() (sql string) {
+	return query.BaseSelectBuilder.RenderSQL() + " LIMIT 1"
+}
+
+// Render renders whole query including limit using numbered parameters.
+// Takes existed parameters count (0 means no parameters are defined yet).
+func (query SelectSingleBuilder) Render(parametersCount int) (sql string) {
+	return query.BaseSelectBuilder.Render(parametersCount) + " LIMIT 1"
+}
+
 // FieldList returns spec list string with their possible aliases to build select query.
 func (query SelectSingleBuilder) FieldList() string {
 	return query.BaseSelectBuilder.fields.FieldList()
-- 
2.43.0


From 810e71c0b4f2e9e8ec8c2947d2c3f60147fdbbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:14 +0000
Subject: [PATCH 20/20] fix: handle condition groups passed by pointer like
 groups passed by value

---
 group.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/group.go b/group.go
index 5fa60f9..118c4b3 100644
--- a/group.go
+++ b/group.go
@@ -38,6 +38,9 @@ func (conditionsGroup Group) FieldName() FieldName {
 func skipEmptyGroups(conditions []Condition) []Condition {
 	result := make([]Condition, 0, len(conditions))
 	for _, condition := range conditions {
+		if pointer, isPointer := condition.(*Group); isPointer { // group passed by pointer is handled as its current value
+			condition = *pointer
+		}
 		if group, isGroup := condition.(Group); isGroup && len(group.conditions) == 0 {
 			continue
 		}
-- 
2.43.0

