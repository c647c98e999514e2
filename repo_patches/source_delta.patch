From 4ce698b838df59e47b6ff45e18fda6e9269f53b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:43 +0000
Subject: [PATCH 01/17] fix: wait for the diagnostics writer before reporting a
 linter error

When the linter returned an error, headless mode wrote the error frame and
returned while the writer goroutine was still running: frames could
interleave on stdout and diagnostics that were already reported were lost.
---
 cmd/tsgolint/headless.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/tsgolint/headless.go b/cmd/tsgolint/headless.go
index 8ed760f..0478855 100644
--- a/cmd/tsgolint/headless.go
+++ b/cmd/tsgolint/headless.go
@@ -450,14 +450,14 @@ func runHeadless(args []string) int {
 	})
 
 	close(diagnosticsChan)
+	wg.Wait()
+
 	if err != nil {
 		log.Printf("ERROR: Linter failed: %v", err)
 		writeErrorMessage(fmt.Sprintf("error running linter: %v", err))
 		return 1
 	}
 
-	wg.Wait()
-
 	if opts.debugTimings {
 		if err := writeMessage(os.Stdout, headlessMessageTypeTiming, headlessTimingPayloadFromRecords(timingStore.Collect())); err != nil {
 			log.Printf("ERROR: failed to write timing output: %v", err)
-- 
2.43.0


From f1aa97fa39c30ab638d2a3748c2ee0aff832d756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:43 +0000
Subject: [PATCH 02/17] fix: do not drop diagnostics whose text is not valid
 UTF-8

json.Marshal rejects strings with invalid UTF-8, and the error was ignored,
so a diagnostic quoting such source text never reached the client.
---
 cmd/tsgolint/headless.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/tsgolint/headless.go b/cmd/tsgolint/headless.go
index 0478855..204b291 100644
--- a/cmd/tsgolint/headless.go
+++ b/cmd/tsgolint/headless.go
@@ -13,6 +13,7 @@ import (
 	"sync"
 
 	"github.com/go-json-experiment/json"
+	"github.com/go-json-experiment/json/jsontext"
 
 	"github.com/microsoft/typescript-go/shim/ast"
 	"github.com/microsoft/typescript-go/shim/bundled"
@@ -193,7 +194,8 @@ func internalToAny(d diagnostic.Internal) anyDiagnostic {
 }
 
 func writeMessage(w io.Writer, messageType headlessMessageType, payload any) error {
-	payloadBytes, err := json.Marshal(payload)
+	// Messages may quote source text, which is not necessarily valid UTF-8.
+	payloadBytes, err := json.Marshal(payload, jsontext.AllowInvalidUTF8(true))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 1b173847a7a342b94acab16adb4cb095e1831356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:43 +0000
Subject: [PATCH 03/17] fix: normalize the paths of source overrides

Requested file paths are normalized to forward slashes, the keys of
source_overrides were not: an override given with backslashes was ignored
and the file on disk was linted instead.
---
 cmd/tsgolint/headless.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/tsgolint/headless.go b/cmd/tsgolint/headless.go
index 204b291..4919609 100644
--- a/cmd/tsgolint/headless.go
+++ b/cmd/tsgolint/headless.go
@@ -255,7 +255,12 @@ func runHeadless(args []string) int {
 
 	baseFS := osvfs.FS()
 	if len(payload.SourceOverrides) > 0 {
-		baseFS = newOverlayFS(baseFS, payload.SourceOverrides)
+		// Files are looked up by the normalized form of the requested paths.
+		overrides := make(map[string]string, len(payload.SourceOverrides))
+		for filePath, text := range payload.SourceOverrides {
+			overrides[tspath.NormalizeSlashes(filePath)] = text
+		}
+		baseFS = newOverlayFS(baseFS, overrides)
 	}
 	fs := bundled.WrapFS(cachedvfs.From(baseFS))
 
-- 
2.43.0


From f885fd8ad718ccfb1251ca7772824450b19fbf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:31 +0000
Subject: [PATCH 04/17] fix: visit property names in destructuring assignments

In an assignment pattern only the value of a property assignment was
visited, so no rule saw the expressions of a computed key:
({ [f()]: x } = obj).
---
 internal/linter/linter.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/linter/linter.go b/internal/linter/linter.go
index 1e3a6fd..03af95d 100644
--- a/internal/linter/linter.go
+++ b/internal/linter/linter.go
@@ -426,6 +426,7 @@ func visitLintNodes(file *ast.SourceFile, runListeners func(kind ast.Kind, node
 		case ast.KindSpreadElement, ast.KindSpreadAssignment:
 			patternVisitor(node.Expression())
 		case ast.KindPropertyAssignment:
+			childVisitor(node.Name())
 			patternVisitor(node.Initializer())
 		default:
 			node.ForEachChild(childVisitor)
-- 
2.43.0


From 18208e502d7ac01198941d181f3af78c162c86e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:18 +0000
Subject: [PATCH 05/17] fix: treat for-in/of targets and targets with defaults
 as patterns

Array and object literals that are assignment targets of a for-in/of loop, or
nested targets with a default value, were announced as ordinary literals, so
no-misused-spread reported their rest elements.
---
 internal/linter/linter.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/internal/linter/linter.go b/internal/linter/linter.go
index 03af95d..6d752b5 100644
--- a/internal/linter/linter.go
+++ b/internal/linter/linter.go
@@ -429,7 +429,15 @@ func visitLintNodes(file *ast.SourceFile, runListeners func(kind ast.Kind, node
 			childVisitor(node.Name())
 			patternVisitor(node.Initializer())
 		default:
-			node.ForEachChild(childVisitor)
+			if ast.IsAssignmentExpression(node, true) {
+				// a target with a default value
+				expr := node.AsBinaryExpression()
+				patternVisitor(expr.Left)
+				childVisitor(expr.OperatorToken)
+				childVisitor(expr.Right)
+			} else {
+				node.ForEachChild(childVisitor)
+			}
 		}
 
 		runListeners(rule.ListenerOnExit(kind), node)
@@ -444,6 +452,14 @@ func visitLintNodes(file *ast.SourceFile, runListeners func(kind ast.Kind, node
 			runListeners(kind, node)
 			node.ForEachChild(childVisitor)
 			runListeners(rule.ListenerOnExit(kind), node)
+		case ast.KindForInStatement, ast.KindForOfStatement:
+			stmt := node.AsForInOrOfStatement()
+			if stmt.AwaitModifier != nil {
+				childVisitor(stmt.AwaitModifier)
+			}
+			patternVisitor(stmt.Initializer)
+			childVisitor(stmt.Expression)
+			childVisitor(stmt.Statement)
 		default:
 			if ast.IsAssignmentExpression(node, true) {
 				expr := node.AsBinaryExpression()
-- 
2.43.0


From 3511a450a37c857e75a0b8a0cc79e86c58b395de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:21 +0000
Subject: [PATCH 06/17] fix: give the inferred project its root files in a
 fixed order

---
 cmd/tsgolint/headless.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/tsgolint/headless.go b/cmd/tsgolint/headless.go
index 4919609..a14cdb2 100644
--- a/cmd/tsgolint/headless.go
+++ b/cmd/tsgolint/headless.go
@@ -298,6 +298,8 @@ func runHeadless(args []string) int {
 			workload.Programs[tsconfig] = append(workload.Programs[tsconfig], file)
 		}
 	}
+	// The order of the root files of a program decides what its global scope looks like.
+	slices.Sort(workload.UnmatchedFiles)
 
 	if logLevel == utils.LogLevelDebug {
 		for file, tsconfig := range result {
-- 
2.43.0


From 38bf226e24bdfa8e51de99111266899de803d1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:44 +0000
Subject: [PATCH 07/17] fix: apply source overrides in a fixed order

---
 cmd/tsgolint/headless.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmd/tsgolint/headless.go b/cmd/tsgolint/headless.go
index a14cdb2..f61532a 100644
--- a/cmd/tsgolint/headless.go
+++ b/cmd/tsgolint/headless.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 	"io"
 	"log"
+	"maps"
 	"os"
 	"runtime"
 	"slices"
@@ -257,8 +258,8 @@ func runHeadless(args []string) int {
 	if len(payload.SourceOverrides) > 0 {
 		// Files are looked up by the normalized form of the requested paths.
 		overrides := make(map[string]string, len(payload.SourceOverrides))
-		for filePath, text := range payload.SourceOverrides {
-			overrides[tspath.NormalizeSlashes(filePath)] = text
+		for _, filePath := range slices.Sorted(maps.Keys(payload.SourceOverrides)) {
+			overrides[tspath.NormalizeSlashes(filePath)] = payload.SourceOverrides[filePath]
 		}
 		baseFS = newOverlayFS(baseFS, overrides)
 	}
-- 
2.43.0


From ab1f28864454b8dafd86f5823fa93d957b071ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:44 +0000
Subject: [PATCH 08/17] fix: report overridden literals of a union in source
 order

---
 .../no_redundant_type_constituents.go                       | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/rules/no_redundant_type_constituents/no_redundant_type_constituents.go b/internal/rules/no_redundant_type_constituents/no_redundant_type_constituents.go
index 9425c24..4b4c121 100644
--- a/internal/rules/no_redundant_type_constituents/no_redundant_type_constituents.go
+++ b/internal/rules/no_redundant_type_constituents/no_redundant_type_constituents.go
@@ -386,7 +386,11 @@ var NoRedundantTypeConstituentsRule = rule.Rule{
 						return
 					}
 
-					for typeNode, typeFlags := range overriddenNodes {
+					for _, typeNode := range node.AsUnionTypeNode().Types.Nodes {
+						typeFlags, ok := overriddenNodes[typeNode]
+						if !ok {
+							continue
+						}
 						ctx.ReportNode(typeNode, buildLiteralOverriddenMessage(strings.Join(utils.Map(typeFlags, func(t typeFlagsWithNodeOrType) string {
 							return t.ToString(ctx.TypeChecker)
 						}), " | "), primitiveName))
-- 
2.43.0


From e5deec2a32a11d548627f82f62b4fb044efc5d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:39 +0000
Subject: [PATCH 09/17] fix: end the search for the name of a type parameter
 whose constraint is circular

---
 internal/utils/ts_eslint.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/utils/ts_eslint.go b/internal/utils/ts_eslint.go
index ef71320..39b63b5 100644
--- a/internal/utils/ts_eslint.go
+++ b/internal/utils/ts_eslint.go
@@ -116,7 +116,8 @@ func GetTypeName(
 		if decls != nil && len(decls) > 0 {
 			if ast.IsTypeParameterDeclaration(decls[0]) {
 				typeParamDecl := decls[0].AsTypeParameterDeclaration()
-				if typeParamDecl.Constraint != nil {
+				// The base constraint is nil if the constraint is circular, as in `T extends T`.
+				if typeParamDecl.Constraint != nil && checker.Checker_getBaseConstraintOfType(typeChecker, t) != nil {
 					return GetTypeName(typeChecker, checker.Checker_getTypeFromTypeNode(typeChecker, typeParamDecl.Constraint))
 				}
 			}
-- 
2.43.0


From 97c8ce26ee7b5685b547a0c3ed749134339b1aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:04 +0000
Subject: [PATCH 10/17] fix: end the check of recursive array types in
 restrict-template-expressions

---
 .../restrict_template_expressions.go                 | 12 ++++++++----
 shim/checker/extra-shim.json                         |  1 +
 shim/checker/shim.go                                 |  2 ++
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/internal/rules/restrict_template_expressions/restrict_template_expressions.go b/internal/rules/restrict_template_expressions/restrict_template_expressions.go
index cbcbe97..cd71c85 100644
--- a/internal/rules/restrict_template_expressions/restrict_template_expressions.go
+++ b/internal/rules/restrict_template_expressions/restrict_template_expressions.go
@@ -50,15 +50,19 @@ var RestrictTemplateExpressionsRule = rule.Rule{
 
 		globalRegexpType := checker.Checker_globalRegExpType(ctx.TypeChecker)
 
-		var isTypeAllowed func(innerType *checker.Type) bool
-		isTypeAllowed = func(innerType *checker.Type) bool {
+		// `arrays` are the array types that `innerType` is an element of.
+		var isTypeAllowed func(innerType *checker.Type, arrays []*checker.Type) bool
+		isTypeAllowed = func(innerType *checker.Type, arrays []*checker.Type) bool {
 			return utils.Every(utils.UnionTypeParts(innerType), func(t *checker.Type) bool {
 				return utils.Some(utils.IntersectionTypeParts(t), func(t *checker.Type) bool {
 					return utils.IsTypeFlagSet(t, allowedFlags) ||
 						utils.MatchesTypeOrBaseType(ctx.TypeChecker, t, func(t *checker.Type) bool {
 							return utils.TypeMatchesSomeSpecifier(t, opts.Allow, ctx.Program)
 						}) ||
-						(opts.AllowArray && checker.Checker_isArrayOrTupleType(ctx.TypeChecker, t) && isTypeAllowed(utils.GetNumberIndexType(ctx.TypeChecker, t))) ||
+						(opts.AllowArray && checker.Checker_isArrayOrTupleType(ctx.TypeChecker, t) &&
+							// don't report self referencing or infinitely expanding array types, such as `type T = T[]`
+							(checker.Checker_isDeeplyNestedType(ctx.TypeChecker, t, arrays, 3) ||
+								isTypeAllowed(utils.GetNumberIndexType(ctx.TypeChecker, t), append(arrays, t)))) ||
 						(opts.AllowRegExp && t == globalRegexpType)
 				})
 			})
@@ -77,7 +81,7 @@ var RestrictTemplateExpressionsRule = rule.Rule{
 						ctx.TypeChecker,
 						expression,
 					)
-					if !isTypeAllowed(expressionType) {
+					if !isTypeAllowed(expressionType, nil) {
 						diagnosticRange := utils.TrimNodeTextRange(ctx.SourceFile, expression)
 						ctx.ReportDiagnostic(buildInvalidTypeDiagnostic(
 							diagnosticRange,
diff --git a/shim/checker/extra-shim.json b/shim/checker/extra-shim.json
index 5dbd06c..57ecd96 100644
--- a/shim/checker/extra-shim.json
+++ b/shim/checker/extra-shim.json
@@ -32,6 +32,7 @@
       "getWidenedType",
       "isTypeAssignableTo",
       "isTypeIdenticalTo",
+      "isDeeplyNestedType",
       "IsDeprecatedDeclaration",
       "isDeprecatedSymbol",
       "GetShorthandAssignmentValueSymbol",
diff --git a/shim/checker/shim.go b/shim/checker/shim.go
index 3788f78..bcf049b 100644
--- a/shim/checker/shim.go
+++ b/shim/checker/shim.go
@@ -149,6 +149,8 @@ func Checker_getPropertyNameForKnownSymbolName(recv *checker.Checker, symbolName
 func Checker_isTypeIdenticalTo(recv *checker.Checker, source *checker.Type, target *checker.Type) bool
 //go:linkname Checker_isTypeAssignableTo github.com/microsoft/typescript-go/internal/checker.(*Checker).isTypeAssignableTo
 func Checker_isTypeAssignableTo(recv *checker.Checker, source *checker.Type, target *checker.Type) bool
+//go:linkname Checker_isDeeplyNestedType github.com/microsoft/typescript-go/internal/checker.(*Checker).isDeeplyNestedType
+func Checker_isDeeplyNestedType(recv *checker.Checker, t *checker.Type, stack []*checker.Type, maxDepth int) bool
 //go:linkname Checker_getTypePredicateOfSignature github.com/microsoft/typescript-go/internal/checker.(*Checker).getTypePredicateOfSignature
 func Checker_getTypePredicateOfSignature(recv *checker.Checker, sig *checker.Signature) *checker.TypePredicate
 //go:linkname Checker_GetShorthandAssignmentValueSymbol github.com/microsoft/typescript-go/internal/checker.(*Checker).GetShorthandAssignmentValueSymbol
-- 
2.43.0


From e734e9ccde3d10e7f91196486e90464d15147c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:24 +0000
Subject: [PATCH 11/17] fix: end the check of infinitely expanding array types
 in no-base-to-string

---
 internal/rules/no_base_to_string/no_base_to_string.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/rules/no_base_to_string/no_base_to_string.go b/internal/rules/no_base_to_string/no_base_to_string.go
index 525bea4..7273c14 100644
--- a/internal/rules/no_base_to_string/no_base_to_string.go
+++ b/internal/rules/no_base_to_string/no_base_to_string.go
@@ -223,6 +223,11 @@ var NoBaseToStringRule = rule.Rule{
 				return usefulnessAlways
 			}
 
+			if checker.Checker_isDeeplyNestedType(ctx.TypeChecker, t, visited, 3) {
+				// nor if it expands infinitely, such as `type T<U> = T<U[]>[]`
+				return usefulnessAlways
+			}
+
 			return toStringMemo.get(t, func() usefulness {
 				if utils.IsTypeParameter(t) {
 					constraint := checker.Checker_getBaseConstraintOfType(ctx.TypeChecker, t)
-- 
2.43.0


From efce17d4ff3d8b7b8cb573113ceb8e01760f8152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:24 +0000
Subject: [PATCH 12/17] fix: end the check of recursive types in
 prefer-readonly-parameter-types

---
 .../prefer_readonly_parameter_types.go                    | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/rules/prefer_readonly_parameter_types/prefer_readonly_parameter_types.go b/internal/rules/prefer_readonly_parameter_types/prefer_readonly_parameter_types.go
index a55c730..91c5301 100644
--- a/internal/rules/prefer_readonly_parameter_types/prefer_readonly_parameter_types.go
+++ b/internal/rules/prefer_readonly_parameter_types/prefer_readonly_parameter_types.go
@@ -26,6 +26,8 @@ const (
 type readonlynessOptions struct {
 	allow                  []utils.TypeOrValueSpecifier
 	treatMethodsAsReadonly bool
+	// The types that the one being checked is a part of.
+	outerTypes []*checker.Type
 }
 
 func isTypeReadonlyArrayOrTuple(
@@ -226,6 +228,12 @@ func isTypeReadonlyRecurser(
 ) readonlyness {
 	seenTypes[t] = struct{}{}
 
+	// A type that contains itself or expands infinitely, such as `type T = readonly T[]`.
+	if checker.Checker_isDeeplyNestedType(typeChecker, t, opts.outerTypes, 3) {
+		return readonlynessReadonly
+	}
+	opts.outerTypes = append(opts.outerTypes, t)
+
 	if utils.TypeMatchesSomeSpecifier(t, opts.allow, program) {
 		return readonlynessReadonly
 	}
-- 
2.43.0


From 2c6d28377041dde83ea3998cd4bab849e93a3452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:14 +0000
Subject: [PATCH 13/17] fix: end the search for the value of variables that are
 initialized from each other

prefer-string-starts-ends-with followed the initializer of a variable to find a
constant string, a nullish value or a regular expression. Two variables that are
initialized from each other made it overflow the stack.
---
 .../prefer_string_starts_ends_with.go         | 70 ++++++++-----------
 1 file changed, 28 insertions(+), 42 deletions(-)

diff --git a/internal/rules/prefer_string_starts_ends_with/prefer_string_starts_ends_with.go b/internal/rules/prefer_string_starts_ends_with/prefer_string_starts_ends_with.go
index 98ec941..919a5e3 100644
--- a/internal/rules/prefer_string_starts_ends_with/prefer_string_starts_ends_with.go
+++ b/internal/rules/prefer_string_starts_ends_with/prefer_string_starts_ends_with.go
@@ -180,9 +180,30 @@ var PreferStringStartsEndsWithRule = rule.Rule{
 			return 0, false
 		}
 
-		var staticString func(node *ast.Node) (string, bool)
-		staticString = func(node *ast.Node) (string, bool) {
-			node = ast.SkipParentheses(node)
+		// Follows the names of variables to their initializers. Returns nil if there
+		// is none, which includes variables that are initialized from each other.
+		followInitializers := func(node *ast.Node) *ast.Node {
+			visited := map[*ast.Symbol]struct{}{}
+			for node != nil {
+				node = ast.SkipParentheses(node)
+				if !ast.IsIdentifier(node) || utils.IsUndefinedLiteral(node) {
+					return node
+				}
+				symbol := ctx.TypeChecker.GetSymbolAtLocation(node)
+				if symbol == nil || symbol.ValueDeclaration == nil || !ast.IsVariableDeclaration(symbol.ValueDeclaration) {
+					return nil
+				}
+				if _, seen := visited[symbol]; seen {
+					return nil
+				}
+				visited[symbol] = struct{}{}
+				node = symbol.ValueDeclaration.AsVariableDeclaration().Initializer
+			}
+			return nil
+		}
+
+		staticString := func(node *ast.Node) (string, bool) {
+			node = followInitializers(node)
 			if node == nil {
 				return "", false
 			}
@@ -191,18 +212,6 @@ var PreferStringStartsEndsWithRule = rule.Rule{
 				return node.Text(), true
 			}
 
-			if ast.IsIdentifier(node) {
-				symbol := ctx.TypeChecker.GetSymbolAtLocation(node)
-				if symbol == nil || symbol.ValueDeclaration == nil || !ast.IsVariableDeclaration(symbol.ValueDeclaration) {
-					return "", false
-				}
-				decl := symbol.ValueDeclaration.AsVariableDeclaration()
-				if decl.Initializer == nil {
-					return "", false
-				}
-				return staticString(decl.Initializer)
-			}
-
 			return "", false
 		}
 
@@ -214,9 +223,8 @@ var PreferStringStartsEndsWithRule = rule.Rule{
 			return len(utf16.Encode([]rune(value))) == 1
 		}
 
-		var getNullishKind func(node *ast.Node) nullishKind
-		getNullishKind = func(node *ast.Node) nullishKind {
-			node = ast.SkipParentheses(node)
+		getNullishKind := func(node *ast.Node) nullishKind {
+			node = followInitializers(node)
 			if node == nil {
 				return nullishKindUnknown
 			}
@@ -226,17 +234,6 @@ var PreferStringStartsEndsWithRule = rule.Rule{
 			if utils.IsUndefinedLiteral(node) {
 				return nullishKindUndefined
 			}
-			if ast.IsIdentifier(node) {
-				symbol := ctx.TypeChecker.GetSymbolAtLocation(node)
-				if symbol == nil || symbol.ValueDeclaration == nil || !ast.IsVariableDeclaration(symbol.ValueDeclaration) {
-					return nullishKindUnknown
-				}
-				decl := symbol.ValueDeclaration.AsVariableDeclaration()
-				if decl.Initializer == nil {
-					return nullishKindUnknown
-				}
-				return getNullishKind(decl.Initializer)
-			}
 			return nullishKindUnknown
 		}
 
@@ -387,9 +384,8 @@ var PreferStringStartsEndsWithRule = rule.Rule{
 			return builder.String(), true
 		}
 
-		var parseRegExp func(node *ast.Node) (*parsedRegExp, bool)
-		parseRegExp = func(node *ast.Node) (*parsedRegExp, bool) {
-			node = ast.SkipParentheses(node)
+		parseRegExp := func(node *ast.Node) (*parsedRegExp, bool) {
+			node = followInitializers(node)
 			if node == nil {
 				return nil, false
 			}
@@ -421,16 +417,6 @@ var PreferStringStartsEndsWithRule = rule.Rule{
 					}
 					flags = args[1].AsStringLiteral().Text
 				}
-			case ast.IsIdentifier(node):
-				symbol := ctx.TypeChecker.GetSymbolAtLocation(node)
-				if symbol == nil || symbol.ValueDeclaration == nil || !ast.IsVariableDeclaration(symbol.ValueDeclaration) {
-					return nil, false
-				}
-				decl := symbol.ValueDeclaration.AsVariableDeclaration()
-				if decl.Initializer == nil {
-					return nil, false
-				}
-				return parseRegExp(decl.Initializer)
 			default:
 				return nil, false
 			}
-- 
2.43.0


From e2a718b8fbb2ea7e83c5e30fa17d40bef9d08c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:30 +0000
Subject: [PATCH 14/17] fix: no-mixed-enums must not crash on enums merged with
 namespaces or empty enums

---
 internal/rules/no_mixed_enums/no_mixed_enums.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/rules/no_mixed_enums/no_mixed_enums.go b/internal/rules/no_mixed_enums/no_mixed_enums.go
index c2ac6ee..7399b09 100644
--- a/internal/rules/no_mixed_enums/no_mixed_enums.go
+++ b/internal/rules/no_mixed_enums/no_mixed_enums.go
@@ -51,9 +51,14 @@ var NoMixedEnumsRule = rule.Rule{
 		getDesiredTypeForDefinition := func(node *ast.Node) allowedType {
 			symbol := ctx.TypeChecker.GetSymbolAtLocation(node.Name())
 
-			declaration := symbol.Declarations[0]
+			// The symbol can be merged with namespaces and with enums without members.
+			for _, declaration := range symbol.Declarations {
+				if ast.IsEnumDeclaration(declaration) && len(declaration.Members()) > 0 {
+					return getMemberType(declaration.Members()[0])
+				}
+			}
 
-			return getMemberType(declaration.Members()[0])
+			return getMemberType(node.Members()[0])
 		}
 		return rule.RuleListeners{
 			ast.KindEnumDeclaration: func(node *ast.Node) {
-- 
2.43.0


From c03f9ca7a409fe4892d9723914c57a367f403e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:30 +0000
Subject: [PATCH 15/17] fix: no-misused-promises must not crash on properties
 with computed names

---
 internal/rules/no_misused_promises/no_misused_promises.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/rules/no_misused_promises/no_misused_promises.go b/internal/rules/no_misused_promises/no_misused_promises.go
index 139f968..27119e7 100644
--- a/internal/rules/no_misused_promises/no_misused_promises.go
+++ b/internal/rules/no_misused_promises/no_misused_promises.go
@@ -664,7 +664,7 @@ var NoMisusedPromisesRule = rule.Rule{
 		}
 
 		localPropertyExpectation := func(propertyNode *ast.Node, t *checker.Type) *voidExpectation {
-			if propertyNode.Name() == nil || !ast.IsObjectLiteralExpression(propertyNode.Parent) {
+			if propertyNode.Name() == nil || ast.IsComputedPropertyName(propertyNode.Name()) || !ast.IsObjectLiteralExpression(propertyNode.Parent) {
 				return nil
 			}
 			objType := checker.Checker_getContextualType(ctx.TypeChecker, propertyNode.Parent, checker.ContextFlagsNone)
-- 
2.43.0


From 604315f6093a1f64f5b09d5eafa70b88818488a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:23 +0000
Subject: [PATCH 16/17] fix: unbound-method must not crash on a this parameter
 without a type

---
 internal/rules/unbound_method/unbound_method.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/rules/unbound_method/unbound_method.go b/internal/rules/unbound_method/unbound_method.go
index 38218f0..b9b8611 100644
--- a/internal/rules/unbound_method/unbound_method.go
+++ b/internal/rules/unbound_method/unbound_method.go
@@ -164,7 +164,7 @@ func checkMethod(valueDeclaration *ast.Node, ignoreStatic bool) ( /* dangerous *
 
 	firstParamIsThis := len(params) > 0 && ast.IsParameterDeclaration(params[0]) && ast.IsIdentifier(params[0].Name()) && params[0].Name().Text() == "this"
 
-	thisArgIsVoid := firstParamIsThis && params[0].Type().Kind == ast.KindVoidKeyword
+	thisArgIsVoid := firstParamIsThis && params[0].Type() != nil && params[0].Type().Kind == ast.KindVoidKeyword
 
 	dangerous := !thisArgIsVoid && (!ignoreStatic || !utils.IncludesModifier(valueDeclaration, ast.KindStaticKeyword))
 
-- 
2.43.0


From 623b9f75cab49530d575ceebab91f9997159d2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:14 +0000
Subject: [PATCH 17/17] fix: return-await crashed on returns in static blocks
 within functions without a body

---
 internal/rules/return_await/return_await.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/rules/return_await/return_await.go b/internal/rules/return_await/return_await.go
index 160e3ec..5e24549 100644
--- a/internal/rules/return_await/return_await.go
+++ b/internal/rules/return_await/return_await.go
@@ -100,7 +100,10 @@ var ReturnAwaitRule = rule.Rule{
 		}
 
 		affectsExplicitResourceManagement := func(node *ast.Node) bool {
-			if !ast.IsBlock(scope.owningFunc.Body()) {
+			// An overload or abstract method has no body, but a class static block
+			// in one of its parameters can contain return statements.
+			body := scope.owningFunc.Body()
+			if body == nil || !ast.IsBlock(body) {
 				return false
 			}
 
-- 
2.43.0

