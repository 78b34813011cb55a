From 98ff574604d731338cd941f96e8d560e8c5a7ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:07 +0000
Subject: [PATCH 01/25] fix: resolve template paths without a package flag that
 evaluations flip

EvaluateString and EvaluateFile reset the package variable usesTemplates, so
the first string evaluation (or the first built-in error page) changed the
paths reported by later template errors, and concurrent renders raced on it.
---
 files.go    | 6 +-----
 textwire.go | 9 ---------
 2 files changed, 1 insertion(+), 14 deletions(-)

diff --git a/files.go b/files.go
index 379ee3f..bb41e4a 100644
--- a/files.go
+++ b/files.go
@@ -8,12 +8,8 @@ import (
 )
 
 func getFullPath(filename string, appendExt bool) (string, error) {
-	if usesTemplates {
-		filename = joinPaths(userConfig.TemplateDir, filename)
-	}
-
 	if appendExt {
-		filename += userConfig.TemplateExt
+		filename = joinPaths(userConfig.TemplateDir, filename) + userConfig.TemplateExt
 	}
 
 	absPath, err := filepath.Abs(filename)
diff --git a/textwire.go b/textwire.go
index d384894..8c1d828 100644
--- a/textwire.go
+++ b/textwire.go
@@ -13,9 +13,6 @@ import (
 var userConfig = config.New("templates", ".tw.html", "", false)
 var customFunc = config.NewFunc()
 
-// usesTemplates is a flag to check if user uses Textwire templates or not
-var usesTemplates = false
-
 func NewTemplate(opt *config.Config) (*Template, error) {
 	Configure(opt)
 
@@ -34,8 +31,6 @@ func NewTemplate(opt *config.Config) (*Template, error) {
 }
 
 func EvaluateString(inp string, data map[string]any) (string, error) {
-	usesTemplates = false
-
 	prog, errs := parseStr(inp)
 
 	if len(errs) != 0 {
@@ -60,8 +55,6 @@ func EvaluateString(inp string, data map[string]any) (string, error) {
 }
 
 func EvaluateFile(absPath string, data map[string]any) (string, error) {
-	usesTemplates = false
-
 	content, err := fileContent(absPath)
 	if err != nil {
 		return "", fail.FromError(err, 0, absPath, "template").Error()
@@ -126,8 +119,6 @@ func RegisterBoolFunc(name string, fn config.BoolCustomFunc) error {
 }
 
 func Configure(opt *config.Config) {
-	usesTemplates = true
-
 	if opt == nil {
 		return
 	}
-- 
2.43.0


From b0b8ec9d82d8edfc62c139d6135a2755209ca189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:32 +0000
Subject: [PATCH 02/25] fix: print and dump objects with their keys in sorted
 order

Obj.String and Obj.Dump ranged over a map, so the same template with the same
data rendered differently from one call to the next.
---
 object/obj.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/object/obj.go b/object/obj.go
index ee2dad8..a75483b 100644
--- a/object/obj.go
+++ b/object/obj.go
@@ -3,6 +3,7 @@ package object
 import (
 	"bytes"
 	"fmt"
+	"sort"
 	"strings"
 )
 
@@ -22,8 +23,8 @@ func (o *Obj) String() string {
 	idx := 0
 	last := len(o.Pairs) - 1
 
-	for key, pair := range o.Pairs {
-		out.WriteString(key + ": " + pair.String())
+	for _, key := range o.sortedKeys() {
+		out.WriteString(key + ": " + o.Pairs[key].String())
 
 		if idx != last {
 			out.WriteString(", ")
@@ -48,11 +49,11 @@ func (o *Obj) Dump(ident int) string {
 
 	insideSpaces := strings.Repeat("  ", ident)
 
-	for key, pair := range o.Pairs {
+	for _, key := range o.sortedKeys() {
 		out.WriteString(insideSpaces)
 		out.WriteString(`<span class="textwire-prop">"` + key + `"</span>`)
 		out.WriteString(": ")
-		out.WriteString(pair.Dump(ident))
+		out.WriteString(o.Pairs[key].Dump(ident))
 		out.WriteString(",\n")
 	}
 
@@ -74,3 +75,15 @@ func (o *Obj) Val() any {
 func (o *Obj) Is(t ObjectType) bool {
 	return t == o.Type()
 }
+
+func (o *Obj) sortedKeys() []string {
+	keys := make([]string, 0, len(o.Pairs))
+
+	for key := range o.Pairs {
+		keys = append(keys, key)
+	}
+
+	sort.Strings(keys)
+
+	return keys
+}
-- 
2.43.0


From 9ec0e38cf570b9709d1b102a07713bf82b3008d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:34 +0000
Subject: [PATCH 03/25] fix: evaluate object literals and component arguments
 in sorted key order

With several failing entries the reported error depended on map order.
---
 ast/object_literal.go  | 18 ++++++++++++++++--
 evaluator/evaluator.go |  8 ++++----
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/ast/object_literal.go b/ast/object_literal.go
index d32af14..2929cdb 100644
--- a/ast/object_literal.go
+++ b/ast/object_literal.go
@@ -3,6 +3,7 @@ package ast
 import (
 	"bytes"
 	"fmt"
+	"sort"
 	"strings"
 
 	"github.com/textwire/textwire/v2/token"
@@ -25,8 +26,8 @@ func (ol *ObjectLiteral) String() string {
 
 	pairs := []string{}
 
-	for key, value := range ol.Pairs {
-		k := fmt.Sprintf(`"%s": %s`, key, value.String())
+	for _, key := range ol.Keys() {
+		k := fmt.Sprintf(`"%s": %s`, key, ol.Pairs[key].String())
 		pairs = append(pairs, k)
 	}
 
@@ -38,6 +39,19 @@ func (ol *ObjectLiteral) String() string {
 
 }
 
+// Keys returns the keys of the object literal in sorted order
+func (ol *ObjectLiteral) Keys() []string {
+	keys := make([]string, 0, len(ol.Pairs))
+
+	for key := range ol.Pairs {
+		keys = append(keys, key)
+	}
+
+	sort.Strings(keys)
+
+	return keys
+}
+
 func (os *ObjectLiteral) Line() uint {
 	return os.Token.ErrorLine()
 }
diff --git a/evaluator/evaluator.go b/evaluator/evaluator.go
index b4fcc06..028286a 100644
--- a/evaluator/evaluator.go
+++ b/evaluator/evaluator.go
@@ -259,8 +259,8 @@ func (e *Evaluator) evalComponentStmt(node *ast.ComponentStmt, env *object.Env)
 	newEnv := object.NewEnclosedEnv(env)
 
 	if node.Argument != nil {
-		for key, arg := range node.Argument.Pairs {
-			val := e.Eval(arg, env)
+		for _, key := range node.Argument.Keys() {
+			val := e.Eval(node.Argument.Pairs[key], env)
 
 			if isError(val) {
 				return val
@@ -619,8 +619,8 @@ func (e *Evaluator) evalArrayLiteral(
 func (e *Evaluator) evalObjectLiteral(node *ast.ObjectLiteral, env *object.Env) object.Object {
 	pairs := make(map[string]object.Object)
 
-	for key, value := range node.Pairs {
-		valueObj := e.Eval(value, env)
+	for _, key := range node.Keys() {
+		valueObj := e.Eval(node.Pairs[key], env)
 
 		if isError(valueObj) {
 			return valueObj
-- 
2.43.0


From 149dbf535f18433f23ba16f24916dc04fdc8e539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:35 +0000
Subject: [PATCH 04/25] fix: report the first load error in a fixed order

When several inserts, slots or files were faulty at once, map order decided
which of the errors loading returned.
---
 ast/program.go  |  9 +++++++++
 ast/utils.go    |  6 ++++--
 parser_utils.go | 13 ++++++++++++-
 3 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/ast/program.go b/ast/program.go
index 22e1ec8..2f19096 100644
--- a/ast/program.go
+++ b/ast/program.go
@@ -2,6 +2,7 @@ package ast
 
 import (
 	"bytes"
+	"sort"
 
 	fail "github.com/textwire/textwire/v2/fail"
 	token "github.com/textwire/textwire/v2/token"
@@ -125,7 +126,15 @@ func (p *Program) HasUseStmt() bool {
 }
 
 func (p *Program) checkUndefinedInsert(inserts map[string]*InsertStmt) *fail.Error {
+	names := make([]string, 0, len(inserts))
+
 	for name := range inserts {
+		names = append(names, name)
+	}
+
+	sort.Strings(names)
+
+	for _, name := range names {
 		if _, ok := p.Reserves[name]; ok {
 			continue
 		}
diff --git a/ast/utils.go b/ast/utils.go
index 528b829..656d3ac 100644
--- a/ast/utils.go
+++ b/ast/utils.go
@@ -24,8 +24,10 @@ func findDuplicateSlot(slots []*SlotStmt) (string, int) {
 	}
 
 	// find the first slot name that has a count greater than 1
-	for name, times := range counts {
-		if times > 1 {
+	for _, slot := range slots {
+		name := slot.Name.Value
+
+		if times := counts[name]; times > 1 {
 			return name, times
 		}
 	}
diff --git a/parser_utils.go b/parser_utils.go
index 906b8f4..26f9af8 100644
--- a/parser_utils.go
+++ b/parser_utils.go
@@ -3,6 +3,7 @@ package textwire
 import (
 	"errors"
 	"os"
+	"sort"
 
 	"github.com/textwire/textwire/v2/ast"
 	"github.com/textwire/textwire/v2/fail"
@@ -44,7 +45,17 @@ func parseProgram(absPath string) (*ast.Program, *fail.Error, error) {
 func parsePrograms(paths map[string]string) (map[string]*ast.Program, *fail.Error) {
 	var result = map[string]*ast.Program{}
 
-	for name, absPath := range paths {
+	names := make([]string, 0, len(paths))
+
+	for name := range paths {
+		names = append(names, name)
+	}
+
+	sort.Strings(names)
+
+	for _, name := range names {
+		absPath := paths[name]
+
 		prog, failErr, parseErr := parseProgram(absPath)
 		if parseErr != nil {
 			return nil, fail.FromError(parseErr, 0, absPath, "template")
-- 
2.43.0


From d4c341059fb5cc34b34c48f27379ddf3500fa448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:37 +0000
Subject: [PATCH 05/25] fix: convert data maps independently of map order

With several unusable entries the reported error depended on map order, and
all keys of a map with non-string keys collapsed into one whose value was
whichever entry came last.
---
 object/env.go   | 12 +++++++++++-
 object/utils.go |  9 ++++++++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/object/env.go b/object/env.go
index ab23e83..0b610dd 100644
--- a/object/env.go
+++ b/object/env.go
@@ -3,6 +3,7 @@ package object
 import (
 	"errors"
 	"fmt"
+	"sort"
 
 	fail "github.com/textwire/textwire/v2/fail"
 )
@@ -26,7 +27,16 @@ func NewEnclosedEnv(outer *Env) *Env {
 func EnvFromMap(data map[string]any) (*Env, *fail.Error) {
 	env := NewEnv()
 
-	for key, val := range data {
+	keys := make([]string, 0, len(data))
+
+	for key := range data {
+		keys = append(keys, key)
+	}
+
+	sort.Strings(keys)
+
+	for _, key := range keys {
+		val := data[key]
 		obj := NativeToObject(val)
 
 		if obj == nil {
diff --git a/object/utils.go b/object/utils.go
index 0dccc70..b5e26e7 100644
--- a/object/utils.go
+++ b/object/utils.go
@@ -1,6 +1,7 @@
 package object
 
 import (
+	"fmt"
 	"reflect"
 )
 
@@ -61,7 +62,13 @@ func nativeMapToObject(val any) Object {
 	valValue := reflect.ValueOf(val)
 
 	for _, key := range valValue.MapKeys() {
-		obj.Pairs[key.String()] = NativeToObject(valValue.MapIndex(key).Interface())
+		name := key.String()
+
+		if key.Kind() != reflect.String {
+			name = fmt.Sprint(key.Interface())
+		}
+
+		obj.Pairs[name] = NativeToObject(valValue.MapIndex(key).Interface())
 	}
 
 	return obj
-- 
2.43.0


From b2c56bb2b3019af490447ac7c8c7f5ab4e762278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:15 +0000
Subject: [PATCH 06/25] fix: report modulo by zero as an error instead of
 panicking

---
 evaluator/evaluator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/evaluator/evaluator.go b/evaluator/evaluator.go
index 028286a..b5502f8 100644
--- a/evaluator/evaluator.go
+++ b/evaluator/evaluator.go
@@ -844,6 +844,10 @@ func (e *Evaluator) evalIntegerInfixExp(
 
 		return &object.Int{Value: leftVal / rightVal}
 	case "%":
+		if rightVal == 0 {
+			return e.newError(leftNode, fail.ErrDivisionByZero)
+		}
+
 		return &object.Int{Value: leftVal % rightVal}
 	case "==":
 		return nativeBoolToBooleanObject(leftVal == rightVal)
-- 
2.43.0


From 169241dec27d02b6731bdf43af54d84e7961032b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:15 +0000
Subject: [PATCH 07/25] fix: report property access on a non-object or by an
 empty name as an error

---
 evaluator/evaluator.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/evaluator/evaluator.go b/evaluator/evaluator.go
index b5502f8..5475b08 100644
--- a/evaluator/evaluator.go
+++ b/evaluator/evaluator.go
@@ -536,6 +536,10 @@ func (e *Evaluator) evalObjectIndexExp(
 		return pair
 	}
 
+	if idx == "" {
+		return e.newError(node, fail.ErrPropertyNotFound, idx, object.OBJ_OBJ)
+	}
+
 	// make first letter lowercase on idx
 	idxUpper := strings.ToUpper(idx[:1]) + idx[1:]
 
@@ -555,7 +559,12 @@ func (e *Evaluator) evalDotExp(node *ast.DotExp, env *object.Env) object.Object
 
 	key := node.Key.(*ast.Identifier)
 
-	return e.evalObjectIndexExp(left.(*object.Obj), key.Value, node)
+	obj, ok := left.(*object.Obj)
+	if !ok {
+		return e.newError(node, fail.ErrDotOperatorNotSupported, left.Type())
+	}
+
+	return e.evalObjectIndexExp(obj, key.Value, node)
 }
 
 func (e *Evaluator) evalString(node *ast.StringLiteral, _ *object.Env) object.Object {
-- 
2.43.0


From 58ebf342fca1b7b9209a8cc33c6f1ffafa3dd16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:28 +0000
Subject: [PATCH 08/25] fix: report @each over a non-array as an error instead
 of panicking

---
 evaluator/evaluator.go | 7 ++++++-
 fail/fail.go           | 1 +
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/evaluator/evaluator.go b/evaluator/evaluator.go
index 5475b08..b20bc34 100644
--- a/evaluator/evaluator.go
+++ b/evaluator/evaluator.go
@@ -367,7 +367,12 @@ func (e *Evaluator) evalEachStmt(node *ast.EachStmt, env *object.Env) object.Obj
 		return arrObj
 	}
 
-	elems := arrObj.(*object.Array).Elements
+	arr, ok := arrObj.(*object.Array)
+	if !ok {
+		return e.newError(node, fail.ErrEachRequiresArray, arrObj.Type())
+	}
+
+	elems := arr.Elements
 	elemsLen := len(elems)
 
 	// evaluate alternative block if array is empty
diff --git a/fail/fail.go b/fail/fail.go
index dd7897b..d7bcca3 100644
--- a/fail/fail.go
+++ b/fail/fail.go
@@ -42,6 +42,7 @@ const (
 	ErrVariableTypeMismatch    = "cannot assign variable '%s' of type '%s' to type '%s'"
 	ErrDotOperatorNotSupported = "the dot operator is not supported for type '%s'"
 	ErrPropertyNotFound        = "property '%s' not found in type '%s'"
+	ErrEachRequiresArray       = "'@each' directive requires an array to iterate over, got '%s' instead"
 	ErrDivisionByZero          = "division by zero error. The right-hand side of the division operator must not be zero"
 
 	// Functions
-- 
2.43.0


From 80993053949b25d7428691cfc7aac2ce24d44185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:51 +0000
Subject: [PATCH 09/25] fix: evaluate @for with absent or non-assigning clauses
 without panicking

---
 evaluator/evaluator.go | 43 ++++++++++++++++++++----------------------
 1 file changed, 20 insertions(+), 23 deletions(-)

diff --git a/evaluator/evaluator.go b/evaluator/evaluator.go
index b20bc34..60b201a 100644
--- a/evaluator/evaluator.go
+++ b/evaluator/evaluator.go
@@ -308,14 +308,17 @@ func (e *Evaluator) evalForStmt(node *ast.ForStmt, env *object.Env) object.Objec
 
 	// loop through the block until the user's condition is false
 	for {
-		cond := e.Eval(node.Condition, newEnv)
+		// an absent condition is always true
+		if node.Condition != nil {
+			cond := e.Eval(node.Condition, newEnv)
 
-		if isError(cond) {
-			return cond
-		}
+			if isError(cond) {
+				return cond
+			}
 
-		if !isTruthy(cond) {
-			break
+			if !isTruthy(cond) {
+				break
+			}
 		}
 
 		block := e.Eval(node.Block, newEnv)
@@ -326,30 +329,24 @@ func (e *Evaluator) evalForStmt(node *ast.ForStmt, env *object.Env) object.Objec
 
 		blocks.WriteString(block.String())
 
-		post := e.Eval(node.Post, newEnv)
-
-		if isError(post) {
-			return post
-		}
-
-		if node.Init == nil || node.Post == nil {
-			continue
-		}
+		if node.Post != nil {
+			post := e.Eval(node.Post, newEnv)
 
-		varName := node.Init.(*ast.AssignStmt).Name.Value
+			if isError(post) {
+				return post
+			}
 
-		err := newEnv.Set(varName, post)
-		if err != nil {
-			return e.newError(node, "%s", err.Error())
+			if init, ok := node.Init.(*ast.AssignStmt); ok {
+				err := newEnv.Set(init.Name.Value, post)
+				if err != nil {
+					return e.newError(node, "%s", err.Error())
+				}
+			}
 		}
 
 		if hasBreakStmt(block) {
 			break
 		}
-
-		if hasContinueStmt(block) {
-			continue
-		}
 	}
 
 	return &object.HTML{Value: blocks.String()}
-- 
2.43.0


From 53b0dd549ac41766b3fe99f014097e7dde017d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:07 +0000
Subject: [PATCH 10/25] fix: convert nil pointers and reject unsupported values
 nested in the data

---
 object/utils.go | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/object/utils.go b/object/utils.go
index b5e26e7..5f62248 100644
--- a/object/utils.go
+++ b/object/utils.go
@@ -5,6 +5,8 @@ import (
 	"reflect"
 )
 
+// NativeToObject converts a Go value to an object, it returns nil when
+// the value or any value nested in it has an unsupported type.
 func NativeToObject(val any) Object {
 	switch v := val.(type) {
 	case string:
@@ -50,7 +52,13 @@ func NativeToObject(val any) Object {
 		return nativeMapToObject(val)
 	case reflect.Pointer:
 		// NativeToObject is used recursively to handle pointers
-		return NativeToObject(reflect.ValueOf(val).Elem().Interface())
+		elem := reflect.ValueOf(val)
+
+		if elem.IsNil() {
+			return &Nil{}
+		}
+
+		return NativeToObject(elem.Elem().Interface())
 	}
 
 	return nil
@@ -68,7 +76,12 @@ func nativeMapToObject(val any) Object {
 			name = fmt.Sprint(key.Interface())
 		}
 
-		obj.Pairs[name] = NativeToObject(valValue.MapIndex(key).Interface())
+		value := NativeToObject(valValue.MapIndex(key).Interface())
+		if value == nil {
+			return nil
+		}
+
+		obj.Pairs[name] = value
 	}
 
 	return obj
@@ -104,17 +117,27 @@ func nativeStructToObject(val any) Object {
 
 		fieldVal := reflect.ValueOf(val).Field(i).Interface()
 
-		obj.Pairs[field.Name] = NativeToObject(fieldVal)
+		value := NativeToObject(fieldVal)
+		if value == nil {
+			return nil
+		}
+
+		obj.Pairs[field.Name] = value
 	}
 
 	return obj
 }
 
-func nativeSliceToArrayObject(slice []any) *Array {
+func nativeSliceToArrayObject(slice []any) Object {
 	arr := &Array{}
 
 	for _, val := range slice {
-		arr.Elements = append(arr.Elements, NativeToObject(val))
+		elem := NativeToObject(val)
+		if elem == nil {
+			return nil
+		}
+
+		arr.Elements = append(arr.Elements, elem)
 	}
 
 	return arr
-- 
2.43.0


From d34336a3b9c546731231d3d4ddebfe3dfafe94d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:08 +0000
Subject: [PATCH 11/25] fix: report an unsupported custom function result as an
 error

---
 evaluator/evaluator.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/evaluator/evaluator.go b/evaluator/evaluator.go
index 60b201a..016f29a 100644
--- a/evaluator/evaluator.go
+++ b/evaluator/evaluator.go
@@ -739,30 +739,40 @@ func (e *Evaluator) evalCallExp(
 		case object.STR_OBJ:
 			fun := e.ctx.CustomFunc.Str[funcName]
 			res := fun(receiverObj.String(), nativeArgs...)
-			return object.NativeToObject(res)
+			return e.customFuncResult(node, res)
 		case object.ARR_OBJ:
 			fun := e.ctx.CustomFunc.Arr[funcName]
 			nativeElems := e.objectsToNativeType(receiverObj.(*object.Array).Elements)
 			res := fun(nativeElems, nativeArgs...)
-			return object.NativeToObject(res)
+			return e.customFuncResult(node, res)
 		case object.INT_OBJ:
 			fun := e.ctx.CustomFunc.Int[funcName]
 			res := fun(int(receiverObj.(*object.Int).Value), nativeArgs...)
-			return object.NativeToObject(res)
+			return e.customFuncResult(node, res)
 		case object.FLOAT_OBJ:
 			fun := e.ctx.CustomFunc.Float[funcName]
 			res := fun(receiverObj.(*object.Float).Value, nativeArgs...)
-			return object.NativeToObject(res)
+			return e.customFuncResult(node, res)
 		case object.BOOL_OBJ:
 			fun := e.ctx.CustomFunc.Bool[funcName]
 			res := fun(receiverObj.(*object.Bool).Value, nativeArgs...)
-			return object.NativeToObject(res)
+			return e.customFuncResult(node, res)
 		}
 	}
 
 	return e.newError(node, fail.ErrNoFuncForThisType, node.Function.Value, receiverObj.Type())
 }
 
+// customFuncResult converts the value returned by a custom function
+func (e *Evaluator) customFuncResult(node *ast.CallExp, res any) object.Object {
+	obj := object.NativeToObject(res)
+	if obj == nil {
+		return e.newError(node, fail.ErrUnsupportedType, res)
+	}
+
+	return obj
+}
+
 func (e *Evaluator) objectsToNativeType(args []object.Object) []any {
 	var result []any
 
-- 
2.43.0


From 7cbd4055579658269f3bbd073d31fd1dc73021f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:38 +0000
Subject: [PATCH 12/25] fix: built-in functions do not panic on negative or
 oversized counts and indexes

---
 evaluator/array_func.go |  4 ++++
 evaluator/str_func.go   | 12 ++++++++++--
 evaluator/utils.go      | 18 ++++++++++++++++++
 fail/fail.go            | 15 ++++++++-------
 4 files changed, 40 insertions(+), 9 deletions(-)

diff --git a/evaluator/array_func.go b/evaluator/array_func.go
index e913f39..5cf78b4 100644
--- a/evaluator/array_func.go
+++ b/evaluator/array_func.go
@@ -126,6 +126,10 @@ func arraySliceFunc(_ *ctx.EvalCtx, receiver object.Object, args ...object.Objec
 		end = elemsLen
 	}
 
+	if start > end {
+		start = end
+	}
+
 	return &object.Array{Elements: elems[start:end]}, nil
 }
 
diff --git a/evaluator/str_func.go b/evaluator/str_func.go
index 7f5b215..8388262 100644
--- a/evaluator/str_func.go
+++ b/evaluator/str_func.go
@@ -151,6 +151,10 @@ func strTruncateFunc(_ *ctx.EvalCtx, receiver object.Object, args ...object.Obje
 	val := receiver.(*object.Str).Value
 	limit := int(firstArg.Value)
 
+	if limit < 0 {
+		limit = 0
+	}
+
 	if limit >= utf8.RuneCountInString(val) {
 		return &object.Str{Value: val}, nil
 	}
@@ -168,7 +172,7 @@ func strTruncateFunc(_ *ctx.EvalCtx, receiver object.Object, args ...object.Obje
 		}
 	}
 
-	newVal := val[:firstArg.Value] + ellipsis
+	newVal := val[:limit] + ellipsis
 
 	return &object.Str{Value: newVal}, nil
 }
@@ -204,7 +208,7 @@ func strAtFunc(_ *ctx.EvalCtx, receiver object.Object, args ...object.Object) (o
 		index = len(chars) + index
 	}
 
-	if index >= len(chars) {
+	if index < 0 || index >= len(chars) {
 		return &object.Nil{}, nil
 	}
 
@@ -276,6 +280,10 @@ func strRepeatFunc(_ *ctx.EvalCtx, receiver object.Object, args ...object.Object
 	}
 
 	val := receiver.(*object.Str).Value
+	if err := checkRepeatCount("repeat", object.STR_OBJ, len(val), firstArg.Value); err != nil {
+		return nil, err
+	}
+
 	repeated := strings.Repeat(val, int(firstArg.Value))
 
 	return &object.Str{Value: repeated}, nil
diff --git a/evaluator/utils.go b/evaluator/utils.go
index 4893614..f3d4cd9 100644
--- a/evaluator/utils.go
+++ b/evaluator/utils.go
@@ -129,6 +129,10 @@ func addDecimals(receiver object.Object, objType object.ObjectType, args ...obje
 			return nil, errors.New(msg)
 		}
 
+		if err := checkRepeatCount("decimal", objType, 1, decimalArg.Value); err != nil {
+			return nil, err
+		}
+
 		decimals = int(decimalArg.Value)
 	}
 
@@ -140,3 +144,17 @@ func addDecimals(receiver object.Object, objType object.ObjectType, args ...obje
 
 	return &object.Str{Value: val + separator + zeros}, nil
 }
+
+// maxRepeatedLen is the maximum length in bytes of a repeated string
+const maxRepeatedLen = 1 << 28
+
+// checkRepeatCount returns an error if a string with the given length
+// cannot be repeated count times
+func checkRepeatCount(funcName string, objType object.ObjectType, strLen int, count int64) error {
+	if count >= 0 && (strLen == 0 || count <= int64(maxRepeatedLen/strLen)) {
+		return nil
+	}
+
+	msg := fmt.Sprintf(fail.ErrFuncCountOutOfRange, count, funcName, objType)
+	return errors.New(msg)
+}
diff --git a/fail/fail.go b/fail/fail.go
index d7bcca3..c30e0c8 100644
--- a/fail/fail.go
+++ b/fail/fail.go
@@ -46,13 +46,14 @@ const (
 	ErrDivisionByZero          = "division by zero error. The right-hand side of the division operator must not be zero"
 
 	// Functions
-	ErrNoFuncForThisType  = "function '%s' doesn't exist for type '%s'"
-	ErrFuncRequiresOneArg = "function '%s' on type '%s' requires at least one argument"
-	ErrFuncFirstArgInt    = "first argument for function '%s' on type '%s' must be an INTEGER"
-	ErrFuncFirstArgStr    = "first argument for function '%s' on type '%s' must be a STRING"
-	ErrFuncSecondArgInt   = "second argument for function '%s' on type '%s' must be an INTEGER"
-	ErrFuncSecondArgStr   = "second argument for function '%s' on type '%s' must be a STRING"
-	ErrFuncMaxArgs        = "function '%s' on type '%s' accepts a maximum of '%d' arguments"
+	ErrNoFuncForThisType   = "function '%s' doesn't exist for type '%s'"
+	ErrFuncRequiresOneArg  = "function '%s' on type '%s' requires at least one argument"
+	ErrFuncFirstArgInt     = "first argument for function '%s' on type '%s' must be an INTEGER"
+	ErrFuncFirstArgStr     = "first argument for function '%s' on type '%s' must be a STRING"
+	ErrFuncSecondArgInt    = "second argument for function '%s' on type '%s' must be an INTEGER"
+	ErrFuncSecondArgStr    = "second argument for function '%s' on type '%s' must be a STRING"
+	ErrFuncCountOutOfRange = "count '%d' for function '%s' on type '%s' is out of range"
+	ErrFuncMaxArgs         = "function '%s' on type '%s' accepts a maximum of '%d' arguments"
 
 	// Template errors
 	ErrUnsupportedType   = "unsupported type '%T'"
-- 
2.43.0


From 75c0a4044c4b7e2947895d06e76c8d245f4673b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:52 +0000
Subject: [PATCH 13/25] fix: report a failing @dump argument instead of
 printing the error in the page

---
 evaluator/evaluator.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/evaluator/evaluator.go b/evaluator/evaluator.go
index 016f29a..8b4f721 100644
--- a/evaluator/evaluator.go
+++ b/evaluator/evaluator.go
@@ -468,6 +468,11 @@ func (e *Evaluator) evalDumpStmt(node *ast.DumpStmt, env *object.Env) object.Obj
 
 	for _, arg := range node.Arguments {
 		val := e.Eval(arg, env)
+
+		if isError(val) {
+			return val
+		}
+
 		values = append(values, val.Dump(0))
 	}
 
-- 
2.43.0


From f0280118a98a376cf7d33bccadb8b7ca653096d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:14 +0000
Subject: [PATCH 14/25] fix: register the files that end in the extension under
 their relative name

---
 files.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/files.go b/files.go
index bb41e4a..7aa9fd5 100644
--- a/files.go
+++ b/files.go
@@ -44,7 +44,7 @@ func findTextwireFiles() (map[string]string, error) {
 			return err
 		}
 
-		if info.IsDir() || !strings.Contains(path, userConfig.TemplateExt) {
+		if info.IsDir() || !strings.HasSuffix(path, userConfig.TemplateExt) {
 			return nil
 		}
 
@@ -54,7 +54,13 @@ func findTextwireFiles() (map[string]string, error) {
 			return err
 		}
 
-		result[nameFromPath(path)] = absPath
+		name, err := nameFromPath(path)
+
+		if err != nil {
+			return err
+		}
+
+		result[name] = absPath
 
 		return nil
 	})
@@ -66,8 +72,13 @@ func findTextwireFiles() (map[string]string, error) {
 	return result, nil
 }
 
-func nameFromPath(path string) string {
-	name := strings.Replace(path, userConfig.TemplateDir+"/", "", 1)
-	name = strings.Replace(name, userConfig.TemplateExt, "", 1)
-	return name
+// nameFromPath returns the path relative to the template directory
+// without the template extension
+func nameFromPath(path string) (string, error) {
+	name, err := filepath.Rel(userConfig.TemplateDir, path)
+	if err != nil {
+		return "", err
+	}
+
+	return strings.TrimSuffix(filepath.ToSlash(name), userConfig.TemplateExt), nil
 }
-- 
2.43.0


From 1549441458220b555920a32d537fcb84bdd72378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:27 +0000
Subject: [PATCH 15/25] fix: keep percent signs of a wrapped error in its
 message

---
 fail/fail.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fail/fail.go b/fail/fail.go
index c30e0c8..35aa56b 100644
--- a/fail/fail.go
+++ b/fail/fail.go
@@ -146,10 +146,10 @@ func (e *Error) Error() error {
 	return errors.New(e.String())
 }
 
-func FromError(err error, line uint, absPath, origin string, args ...any) *Error {
+func FromError(err error, line uint, absPath, origin string) *Error {
 	if err == nil {
 		return nil
 	}
 
-	return New(line, absPath, origin, err.Error(), args...)
+	return New(line, absPath, origin, "%s", err.Error())
 }
-- 
2.43.0


From 781943490412366c8a608ec9d1e7cc9afa1c95c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:46 +0000
Subject: [PATCH 16/25] fix: name the @each and @dump tokens in parser errors

---
 token/utils.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/token/utils.go b/token/utils.go
index cb1b181..9ae153b 100644
--- a/token/utils.go
+++ b/token/utils.go
@@ -63,6 +63,8 @@ var tokens = [...]string{
 	END:         "@end",
 	COMPONENT:   "@component",
 	SLOT:        "@slot",
+	EACH:        "@each",
+	DUMP:        "@dump",
 }
 
 func String(t TokenType) string {
-- 
2.43.0


From 5d675b5b128bf3e158ec098363e07fb12aa6799d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:14 +0000
Subject: [PATCH 17/25] fix: a NUL byte in a template is a character, not the
 end of the file

---
 lexer/lexer.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 942a59f..a0db4f1 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -101,7 +101,7 @@ func (l *Lexer) NextToken() token.Token {
 		l.skipWhitespace()
 	}
 
-	if l.char == 0 {
+	if l.isEOF() {
 		l.tokenBegins()
 		return l.newToken(token.EOF, "")
 	}
@@ -450,7 +450,7 @@ func (l *Lexer) readString() string {
 
 	pos := l.pos
 
-	for l.char != 0 {
+	for !l.isEOF() {
 		prevChar := l.char
 
 		l.readChar()
@@ -504,7 +504,7 @@ func (l *Lexer) readHTML() string {
 	var out bytes.Buffer
 	l.tokenBegins()
 
-	for l.isHTML && l.char != 0 {
+	for l.isHTML && !l.isEOF() {
 		isDirective, escapedDir := l.isDirectiveToken()
 		areBraces, escapedBraces := l.areBracesToken()
 
@@ -523,6 +523,12 @@ func (l *Lexer) readHTML() string {
 	return out.String()
 }
 
+// isEOF determines if the whole input is read. A NUL byte
+// in the input is a character like any other.
+func (l *Lexer) isEOF() bool {
+	return l.pos >= len(l.input)
+}
+
 func (l *Lexer) prevChar() byte {
 	if l.pos > 0 {
 		return l.input[l.pos-1]
@@ -574,7 +580,7 @@ func (l *Lexer) skipWhitespace() {
 }
 
 func (l *Lexer) skipComment() {
-	for l.char != 0 {
+	for !l.isEOF() {
 		if l.char != '-' || l.peekChar() != '-' {
 			l.readChar()
 			continue
-- 
2.43.0


From b7ed07d69a9d2606b0c184a6017675a509bc7c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:36 +0000
Subject: [PATCH 18/25] fix: skip comments without recursion and end them only
 at --}}

---
 lexer/lexer.go | 40 +++++++++++++++++++---------------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index a0db4f1..6f16114 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -101,20 +101,17 @@ func (l *Lexer) NextToken() token.Token {
 		l.skipWhitespace()
 	}
 
+	for l.isComment() {
+		l.skipComment()
+	}
+
 	if l.isEOF() {
 		l.tokenBegins()
 		return l.newToken(token.EOF, "")
 	}
 
 	if l.char == '{' && l.peekChar() == '{' {
-		tok := l.bracesToken(token.LBRACES, "{{")
-
-		if l.char == '-' && l.peekChar() == '-' {
-			l.skipComment()
-			return l.NextToken()
-		}
-
-		return tok
+		return l.bracesToken(token.LBRACES, "{{")
 	}
 
 	if l.char == '}' && l.peekChar() == '}' && l.countCurlyBraces == 0 {
@@ -579,23 +576,24 @@ func (l *Lexer) skipWhitespace() {
 	}
 }
 
-func (l *Lexer) skipComment() {
-	for !l.isEOF() {
-		if l.char != '-' || l.peekChar() != '-' {
-			l.readChar()
-			continue
-		}
+func (l *Lexer) isComment() bool {
+	return !l.isEOF() && strings.HasPrefix(l.input[l.pos:], "{{--")
+}
 
-		l.readChar() // skip "-"
-		l.readChar() // skip "-"
+func (l *Lexer) skipComment() {
+	l.tokenBegins()
+	l.skipChars(len("{{"))
 
-		if l.char == '}' || l.peekChar() == '}' {
-			break
-		}
+	for !l.isEOF() && !strings.HasPrefix(l.input[l.pos:], "--}}") {
+		l.readChar()
 	}
 
 	l.isHTML = true
+	l.skipChars(len("--}}"))
+}
 
-	l.readChar() // skip "}"
-	l.readChar() // skip "}"
+func (l *Lexer) skipChars(n int) {
+	for i := 0; i < n && !l.isEOF(); i++ {
+		l.readChar()
+	}
 }
-- 
2.43.0


From beae20ef9f62f77e57851fa56d1f7989423a86ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:54 +0000
Subject: [PATCH 19/25] fix: reject strings, comments and embedded code that
 are never closed

---
 fail/fail.go     |  1 +
 lexer/lexer.go   | 22 ++++++++++++++++++++++
 parser/parser.go |  4 ++++
 3 files changed, 27 insertions(+)

diff --git a/fail/fail.go b/fail/fail.go
index 35aa56b..3e92561 100644
--- a/fail/fail.go
+++ b/fail/fail.go
@@ -14,6 +14,7 @@ const (
 	ErrCouldNotParseAs           = "could not parse '%s' as '%s'"
 	ErrNoPrefixParseFunc         = "no prefix parse function for '%s'"
 	ErrIllegalToken              = "illegal token '%s' found"
+	ErrUnterminated              = "the %s is not terminated before the end of the template"
 	ErrElseifCannotFollowElse    = "'@elseif' directive cannot follow '@else'"
 	ErrExpectedIdentifier        = "expected identifier, got '%s' instead"
 	ErrExceptedComponentStmt     = "expected *ComponentStmt, got %T"
diff --git a/lexer/lexer.go b/lexer/lexer.go
index 6f16114..bf9d03b 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -81,6 +81,10 @@ type Lexer struct {
 	// We increment it when we find "{" and decrement when we find "}".
 	// It helps to determine if we are in HTML or Textwire.
 	countCurlyBraces int
+
+	// unterminated is the name of the construct that
+	// is still open at the end of the input.
+	unterminated string
 }
 
 func New(input string) *Lexer {
@@ -106,6 +110,10 @@ func (l *Lexer) NextToken() token.Token {
 	}
 
 	if l.isEOF() {
+		if !l.isHTML && l.unterminated == "" {
+			l.unterminated = "embedded code"
+		}
+
 		l.tokenBegins()
 		return l.newToken(token.EOF, "")
 	}
@@ -129,6 +137,12 @@ func (l *Lexer) NextToken() token.Token {
 	return l.newToken(token.HTML, l.readHTML())
 }
 
+// Unterminated returns the name of the construct that is still open
+// at the end of the input, or an empty string if there is none.
+func (l *Lexer) Unterminated() string {
+	return l.unterminated
+}
+
 func (l *Lexer) bracesToken(tok token.TokenType, literal string) token.Token {
 	l.isHTML = tok != token.LBRACES
 
@@ -457,6 +471,10 @@ func (l *Lexer) readString() string {
 		}
 	}
 
+	if l.isEOF() {
+		l.unterminated = "string"
+	}
+
 	result = l.input[pos:l.pos]
 
 	l.readChar() // skip the last quote
@@ -588,6 +606,10 @@ func (l *Lexer) skipComment() {
 		l.readChar()
 	}
 
+	if l.isEOF() {
+		l.unterminated = "comment"
+	}
+
 	l.isHTML = true
 	l.skipChars(len("--}}"))
 }
diff --git a/parser/parser.go b/parser/parser.go
index 61eb7f7..cd3b019 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -145,6 +145,10 @@ func (p *Parser) ParseProgram() *ast.Program {
 		p.nextToken() // skip to next token
 	}
 
+	if what := p.l.Unterminated(); what != "" {
+		p.newError(p.curToken.ErrorLine(), fail.ErrUnterminated, what)
+	}
+
 	prog.Components = p.components
 	prog.Inserts = p.inserts
 	prog.UseStmt = p.useStmt
-- 
2.43.0


From 0eb77eced0f27e1b7b9fe3d316ed6b2eedafd064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:55 +0000
Subject: [PATCH 20/25] fix: stop parsing blocks and object literals at the end
 of the file

---
 parser/parser.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index cd3b019..748c57e 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -364,10 +364,11 @@ func (p *Parser) parseObjectLiteral() ast.Expression {
 			break
 		}
 
-		if p.peekTokenIs(token.COMMA) {
-			p.nextToken() // move to ","
-			p.nextToken() // skip ","
+		if !p.expectPeek(token.COMMA) { // move to ","
+			return nil
 		}
+
+		p.nextToken() // skip ","
 	}
 
 	return obj
@@ -976,7 +977,7 @@ func (p *Parser) parseEachStmt() *ast.EachStmt {
 func (p *Parser) parseBlockStmt() *ast.BlockStmt {
 	stmt := &ast.BlockStmt{Token: p.curToken}
 
-	for !p.curTokenIs(token.END) {
+	for !p.curTokenIs(token.END) && !p.curTokenIs(token.EOF) {
 		block := p.parseStatement()
 
 		if block != nil {
-- 
2.43.0


From 224ea91cd8269c270bd13f34e2ad739d3d9b8020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:35 +0000
Subject: [PATCH 21/25] fix: report an illegal character wherever it stands and
 step over it

---
 lexer/lexer.go   |  4 +++-
 parser/parser.go | 29 ++++++++++++++++++++---------
 2 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index bf9d03b..8ef5eac 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -154,8 +154,10 @@ func (l *Lexer) bracesToken(tok token.TokenType, literal string) token.Token {
 }
 
 func (l *Lexer) illegalToken() token.Token {
+	c := l.char
 	l.tokenBegins()
-	return l.newToken(token.ILLEGAL, string(l.char))
+	l.readChar() // skip the illegal character
+	return l.newToken(token.ILLEGAL, string(c))
 }
 
 func (l *Lexer) directiveToken() token.Token {
diff --git a/parser/parser.go b/parser/parser.go
index 748c57e..1311e97 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -58,6 +58,10 @@ type Parser struct {
 	curToken  token.Token
 	peekToken token.Token
 
+	// stopped is true after an error that nothing can be parsed
+	// after, all the following tokens are EOF.
+	stopped bool
+
 	prefixParseFns map[token.TokenType]prefixParseFn
 	infixParseFns  map[token.TokenType]infixParseFn
 
@@ -126,15 +130,6 @@ func (p *Parser) ParseProgram() *ast.Program {
 	for !p.curTokenIs(token.EOF) {
 		stmt := p.parseStatement()
 
-		if p.curTokenIs(token.ILLEGAL) {
-			p.newError(
-				p.curToken.ErrorLine(),
-				fail.ErrIllegalToken,
-				p.curToken.Literal,
-			)
-			return nil
-		}
-
 		if stmt == nil {
 			p.nextToken()
 			continue
@@ -266,7 +261,23 @@ func (p *Parser) newError(line uint, msg string, args ...any) {
 
 func (p *Parser) nextToken() {
 	p.curToken = p.peekToken
+
+	if p.stopped {
+		p.peekToken = token.Token{Type: token.EOF, Pos: p.curToken.Pos}
+		return
+	}
+
 	p.peekToken = p.l.NextToken()
+
+	if p.peekTokenIs(token.ILLEGAL) {
+		p.newError(
+			p.peekToken.ErrorLine(),
+			fail.ErrIllegalToken,
+			p.peekToken.Literal,
+		)
+
+		p.stopped = true
+	}
 }
 
 func (p *Parser) parseIdentifier() ast.Expression {
-- 
2.43.0


From 579e798b738244a3f76b64bdc4437ec536eef31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:49 +0000
Subject: [PATCH 22/25] fix: require the closing parenthesis of directives and
 the @end of @insert

---
 parser/parser.go | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 1311e97..be8ff66 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -432,6 +432,10 @@ func (p *Parser) parseUseStmt() ast.Statement {
 		Value: p.parseAliasPathShortcut("layouts"),
 	}
 
+	if !p.expectPeek(token.RPAREN) { // move to ")"
+		return nil
+	}
+
 	p.useStmt = stmt
 
 	return stmt
@@ -450,6 +454,10 @@ func (p *Parser) parseBreakIfStmt() ast.Statement {
 
 	stmt.Condition = p.parseExpression(LOWEST)
 
+	if !p.expectPeek(token.RPAREN) { // move to ")"
+		return nil
+	}
+
 	return stmt
 }
 
@@ -466,6 +474,10 @@ func (p *Parser) parseContinueIfStmt() ast.Statement {
 
 	stmt.Condition = p.parseExpression(LOWEST)
 
+	if !p.expectPeek(token.RPAREN) { // move to ")"
+		return nil
+	}
+
 	return stmt
 }
 
@@ -637,6 +649,10 @@ func (p *Parser) parseReserveStmt() ast.Statement {
 		Value: p.curToken.Literal,
 	}
 
+	if !p.expectPeek(token.RPAREN) { // move to ")"
+		return nil
+	}
+
 	p.reserves[stmt.Name.Value] = stmt
 
 	return stmt
@@ -663,15 +679,16 @@ func (p *Parser) parseInsertStmt() ast.Statement {
 		return nil
 	}
 
-	hasBody := true
-
 	if p.peekTokenIs(token.COMMA) {
 		p.nextToken() // skip insert name
 		p.nextToken() // skip ","
 		stmt.Argument = p.parseExpression(LOWEST)
 
+		if !p.expectPeek(token.RPAREN) { // move to ")"
+			return nil
+		}
+
 		p.inserts[stmt.Name.Value] = stmt
-		hasBody = false
 
 		return stmt
 	}
@@ -680,9 +697,13 @@ func (p *Parser) parseInsertStmt() ast.Statement {
 		return nil
 	}
 
-	if hasBody {
-		p.nextToken() // skip ")"
-		stmt.Block = p.parseBlockStmt()
+	p.nextToken() // skip ")"
+
+	isEmpty := p.curTokenIs(token.END)
+	stmt.Block = p.parseBlockStmt()
+
+	if !isEmpty && !p.expectPeek(token.END) { // move to "@end"
+		return nil
 	}
 
 	p.inserts[stmt.Name.Value] = stmt
-- 
2.43.0


From 3ce7440084b1f57e992cbbaeb70e311a04c79349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:16 +0000
Subject: [PATCH 23/25] fix: require the @end of slots and of a component with
 slots

---
 parser/parser.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index be8ff66..96ee7f3 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -616,20 +616,31 @@ func (p *Parser) parseSlots() []*ast.SlotStmt {
 			p.nextToken() // skip ")"
 		}
 
+		isEmpty := p.curTokenIs(token.END)
+
 		slots = append(slots, &ast.SlotStmt{
 			Token: tok, // "@slot"
 			Name:  slotName,
 			Body:  p.parseBlockStmt(),
 		})
 
-		p.nextToken() // skip block statement
-		p.nextToken() // skip "@end"
+		if !isEmpty && !p.expectPeek(token.END) { // move to "@end"
+			return nil
+		}
 
-		for p.curTokenIs(token.HTML) {
+		for p.peekTokenIs(token.HTML) {
 			p.nextToken() // skip whitespace
 		}
+
+		if !p.peekTokenIs(token.SLOT) {
+			break
+		}
+
+		p.nextToken() // move to "@slot"
 	}
 
+	p.expectPeek(token.END) // move to "@end" of the component
+
 	return slots
 }
 
-- 
2.43.0


From 3a709038b51012cf1528bc99370204b275a93e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:41 +0000
Subject: [PATCH 24/25] fix: reject nesting that would exhaust the stack

---
 fail/fail.go     |  1 +
 parser/parser.go | 43 +++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 44 insertions(+)

diff --git a/fail/fail.go b/fail/fail.go
index 3e92561..b9ea993 100644
--- a/fail/fail.go
+++ b/fail/fail.go
@@ -14,6 +14,7 @@ const (
 	ErrCouldNotParseAs           = "could not parse '%s' as '%s'"
 	ErrNoPrefixParseFunc         = "no prefix parse function for '%s'"
 	ErrIllegalToken              = "illegal token '%s' found"
+	ErrNestingTooDeep            = "the nesting is too deep, the maximum is %d levels"
 	ErrUnterminated              = "the %s is not terminated before the end of the template"
 	ErrElseifCannotFollowElse    = "'@elseif' directive cannot follow '@else'"
 	ErrExpectedIdentifier        = "expected identifier, got '%s' instead"
diff --git a/parser/parser.go b/parser/parser.go
index 96ee7f3..6c5e26d 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -30,6 +30,10 @@ const (
 	POSTFIX       // X++ or X--
 )
 
+// maxDepth is the maximum nesting of statements and expressions.
+// Without a limit, deep nesting would exhaust the stack.
+const maxDepth = 10000
+
 var precedences = map[token.TokenType]int{
 	token.QUESTION: TERNARY,
 	token.EQ:       EQ,
@@ -62,6 +66,10 @@ type Parser struct {
 	// after, all the following tokens are EOF.
 	stopped bool
 
+	// depth is the number of statements and expressions
+	// that the current token is nested in.
+	depth int
+
 	prefixParseFns map[token.TokenType]prefixParseFn
 	infixParseFns  map[token.TokenType]infixParseFn
 
@@ -152,7 +160,36 @@ func (p *Parser) ParseProgram() *ast.Program {
 	return prog
 }
 
+// enter goes one nesting level deeper. It reports false and
+// stops the parsing when the nesting is too deep.
+func (p *Parser) enter() bool {
+	p.depth += 1
+
+	if p.depth <= maxDepth {
+		return true
+	}
+
+	if !p.stopped {
+		p.newError(p.curToken.ErrorLine(), fail.ErrNestingTooDeep, maxDepth)
+	}
+
+	p.stopped = true
+	p.peekToken = token.Token{Type: token.EOF, Pos: p.curToken.Pos}
+
+	return false
+}
+
+func (p *Parser) leave() {
+	p.depth -= 1
+}
+
 func (p *Parser) parseStatement() ast.Statement {
+	defer p.leave()
+
+	if !p.enter() {
+		return nil
+	}
+
 	switch p.curToken.Type {
 	case token.HTML:
 		return p.parseHTMLStmt()
@@ -1050,6 +1087,12 @@ func (p *Parser) parseExpressionStmt() ast.Statement {
 }
 
 func (p *Parser) parseExpression(precedence int) ast.Expression {
+	defer p.leave()
+
+	if !p.enter() {
+		return nil
+	}
+
 	prefix := p.prefixParseFns[p.curToken.Type]
 
 	if prefix == nil {
-- 
2.43.0


From a491bdf77420012d426110c0adb4b3ee99848431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:04 +0000
Subject: [PATCH 25/25] fix: convert maps whose keys print alike the same way
 every time

Keys of different types (1 and "1") or several NaN keys share a name;
which entry won depended on Go's random map order, and a NaN key made
reflect panic.
---
 object/utils.go | 46 ++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 38 insertions(+), 8 deletions(-)

diff --git a/object/utils.go b/object/utils.go
index 5f62248..097c8ea 100644
--- a/object/utils.go
+++ b/object/utils.go
@@ -3,6 +3,7 @@ package object
 import (
 	"fmt"
 	"reflect"
+	"sort"
 )
 
 // NativeToObject converts a Go value to an object, it returns nil when
@@ -65,23 +66,52 @@ func NativeToObject(val any) Object {
 }
 
 func nativeMapToObject(val any) Object {
-	obj := &Obj{Pairs: make(map[string]Object)}
+	type entry struct {
+		name    string
+		keyType string
+		value   Object
+	}
 
-	valValue := reflect.ValueOf(val)
+	var entries []entry
 
-	for _, key := range valValue.MapKeys() {
-		name := key.String()
+	iter := reflect.ValueOf(val).MapRange()
 
-		if key.Kind() != reflect.String {
-			name = fmt.Sprint(key.Interface())
+	for iter.Next() {
+		key := iter.Key().Interface()
+		name := iter.Key().String()
+
+		if iter.Key().Kind() != reflect.String {
+			name = fmt.Sprint(key)
 		}
 
-		value := NativeToObject(valValue.MapIndex(key).Interface())
+		value := NativeToObject(iter.Value().Interface())
 		if value == nil {
 			return nil
 		}
 
-		obj.Pairs[name] = value
+		entries = append(entries, entry{name, fmt.Sprintf("%T", key), value})
+	}
+
+	// different keys can have the same name, the last one of them
+	// must be the same one every time
+	sort.Slice(entries, func(i, j int) bool {
+		a, b := entries[i], entries[j]
+
+		if a.name != b.name {
+			return a.name < b.name
+		}
+
+		if a.keyType != b.keyType {
+			return a.keyType < b.keyType
+		}
+
+		return a.value.Dump(0) < b.value.Dump(0)
+	})
+
+	obj := &Obj{Pairs: make(map[string]Object)}
+
+	for _, e := range entries {
+		obj.Pairs[e.name] = e.value
 	}
 
 	return obj
-- 
2.43.0

