From c6c687b7f58d3d481f7baaf36e64d64ee2a9dea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:06 +0000
Subject: [PATCH 01/48] fix: do not record the same return type twice for a
 route

---
 safePushing.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/safePushing.go b/safePushing.go
index 82cd297..62cb7a4 100644
--- a/safePushing.go
+++ b/safePushing.go
@@ -7,12 +7,16 @@ func AddReturnType(prev []ReturnType, n ...ReturnType) []ReturnType {
 		if len(prev) == 0 {
 			prev = append(prev, newReturn)
 		} else {
+			var found bool
 			for _, existingReturn := range prev {
-				if newReturn.Field.Type != existingReturn.Field.Type || newReturn.Field.Package != existingReturn.Field.Package || newReturn.StatusCode != existingReturn.StatusCode || newReturn.ContentType != existingReturn.ContentType {
-					prev = append(prev, newReturn)
+				if newReturn.Field.Type == existingReturn.Field.Type && newReturn.Field.Package == existingReturn.Field.Package && newReturn.StatusCode == existingReturn.StatusCode && newReturn.ContentType == existingReturn.ContentType {
+					found = true
 					break
 				}
 			}
+			if !found {
+				prev = append(prev, newReturn)
+			}
 		}
 	}
 
-- 
2.43.0


From 8858238e3cbc826070075ccfbc86b269ec1bb30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:06 +0000
Subject: [PATCH 02/48] fix: accept a cached Azure Functions output in the CLI

---
 cli/astra/cmd/rebind.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/astra/cmd/rebind.go b/cli/astra/cmd/rebind.go
index ec4d33a..d549c60 100644
--- a/cli/astra/cmd/rebind.go
+++ b/cli/astra/cmd/rebind.go
@@ -50,7 +50,7 @@ func rebindOutputs(s *astra.Service) error {
 		switch output.Mode {
 		case outputs.OutputModeAzureFunctions:
 			directoryPath, ok := output.Configuration[astra.IOConfigurationKeyDirectoryPath].(string)
-			if ok || directoryPath == "" {
+			if !ok || directoryPath == "" {
 				return astra.ErrOutputDirectoryPathRequired
 			}
 			outputs.WithAzureFunctionsOutput(directoryPath)(s)
-- 
2.43.0


From bdbda17f0f03ddcd611a760744d0626f4c082e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:06 +0000
Subject: [PATCH 03/48] fix: restore the custom type mapping from the cache

---
 cache.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cache.go b/cache.go
index c6865bc..2ddbd1d 100644
--- a/cache.go
+++ b/cache.go
@@ -109,6 +109,8 @@ func (s *Service) LoadCacheFromCustomPath(cachePath string) error {
 	s.Config = service.Config
 	s.Routes = service.Routes
 	s.Components = service.Components
+	s.CustomTypeMapping = service.CustomTypeMapping
+	s.fullTypeMapping = nil
 	return nil
 }
 
-- 
2.43.0


From f780d2a4e23ec8f1d05bfd90bf94f961a7550c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:06 +0000
Subject: [PATCH 04/48] fix: do not encode functions into a YAML cache

---
 input.go  | 4 ++--
 output.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/input.go b/input.go
index d74e0e1..742c4a9 100644
--- a/input.go
+++ b/input.go
@@ -3,8 +3,8 @@ package astra
 // Input is the input for the generator.
 type Input struct {
 	Mode         InputMode       `json:"mode"`
-	CreateRoutes ServiceFunction `json:"-"`
-	ParseRoutes  ServiceFunction `json:"-"`
+	CreateRoutes ServiceFunction `json:"-" yaml:"-"`
+	ParseRoutes  ServiceFunction `json:"-" yaml:"-"`
 }
 
 type InputMode string
diff --git a/output.go b/output.go
index 8f08481..8719e89 100644
--- a/output.go
+++ b/output.go
@@ -4,7 +4,7 @@ package astra
 // It takes in a configuration object to allow the caching mechanism to store the file paths for the outputs.
 type Output struct {
 	Mode          OutputMode      `json:"mode"`
-	Generate      ServiceFunction `json:"-"`
+	Generate      ServiceFunction `json:"-" yaml:"-"`
 	Configuration IOConfiguration `json:"configuration"`
 }
 
-- 
2.43.0


From bafc36f9d22468ef197ca76fdf5797ffa4a598cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:06 +0000
Subject: [PATCH 05/48] fix: close the cache and .gitignore files

---
 cache.go | 2 ++
 dir.go   | 1 +
 2 files changed, 3 insertions(+)

diff --git a/cache.go b/cache.go
index 2ddbd1d..0ea0a85 100644
--- a/cache.go
+++ b/cache.go
@@ -38,6 +38,7 @@ func (s *Service) Cache() error {
 	if err != nil {
 		return err
 	}
+	defer f.Close()
 
 	var cacheStr []byte
 	if strings.HasSuffix(cachePath, ".yaml") || strings.HasSuffix(cachePath, ".yml") {
@@ -90,6 +91,7 @@ func (s *Service) LoadCacheFromCustomPath(cachePath string) error {
 	if err != nil {
 		return err
 	}
+	defer f.Close()
 
 	var service Service
 	if strings.HasSuffix(cachePath, ".json") {
diff --git a/dir.go b/dir.go
index 3f5870f..8a48470 100644
--- a/dir.go
+++ b/dir.go
@@ -73,6 +73,7 @@ func (s *Service) setupGitIgnore() error {
 	if err != nil {
 		return err
 	}
+	defer f.Close()
 
 	_, err = f.WriteString("*\n")
 	if err != nil {
-- 
2.43.0


From d5e58c293f2cb7e6eb5f94266c0db0266b4d880f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:06 +0000
Subject: [PATCH 06/48] fix: keep the current route when a context call cannot
 be parsed

---
 contextFuncBuilder.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/contextFuncBuilder.go b/contextFuncBuilder.go
index cc14aea..d692b9b 100644
--- a/contextFuncBuilder.go
+++ b/contextFuncBuilder.go
@@ -69,13 +69,18 @@ func (c *ContextFuncBuilder) Build(mapper func(*Route, []any) (*Route, error)) (
 	for i, operation := range c.paramOperations {
 		result, err := operation()
 		if err != nil {
-			return nil, err
+			return c.Route, err
 		}
 
 		results[i] = result
 	}
 
-	return mapper(c.Route, results)
+	route, err := mapper(c.Route, results)
+	if err != nil {
+		return c.Route, err
+	}
+
+	return route, nil
 }
 
 type CustomFunc func(contextVarName string, contextFuncBuilder *ContextFuncBuilder) (*Route, error)
-- 
2.43.0


From d45894905ea2aa354be5a61b36decea89f3f8ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:06 +0000
Subject: [PATCH 07/48] fix: do not index past the end of argument, name and
 value lists

---
 astTraversal/declaration.go |  8 ++++++++
 astTraversal/expression.go  |  4 ++++
 astTraversal/function.go    |  6 +++++-
 astTraversal/type.go        |  2 +-
 contextFuncBuilder.go       | 38 ++++++++++++++++++++++++++++++++-----
 5 files changed, 51 insertions(+), 7 deletions(-)

diff --git a/astTraversal/declaration.go b/astTraversal/declaration.go
index 17aefa3..9d9d8a0 100644
--- a/astTraversal/declaration.go
+++ b/astTraversal/declaration.go
@@ -31,6 +31,10 @@ func (d *DeclarationTraverser) Value() (ast.Node, error) {
 			}
 		}
 
+		if index >= len(n.Values) {
+			return nil, ErrInvalidIndex
+		}
+
 		return n.Values[index], nil
 	case *ast.AssignStmt:
 		var index int
@@ -41,6 +45,10 @@ func (d *DeclarationTraverser) Value() (ast.Node, error) {
 			}
 		}
 
+		if index >= len(n.Rhs) {
+			return nil, ErrInvalidIndex
+		}
+
 		return n.Rhs[index], nil
 	default:
 		return nil, ErrInvalidNodeType
diff --git a/astTraversal/expression.go b/astTraversal/expression.go
index 52790b4..319bb52 100644
--- a/astTraversal/expression.go
+++ b/astTraversal/expression.go
@@ -35,6 +35,10 @@ func (e *ExpressionTraverser) BuiltInFunctions(callExpr *ast.CallExpr) (types.Ty
 		case "new":
 			fallthrough
 		case "make":
+			if len(callExpr.Args) == 0 {
+				return nil, ErrInvalidIndex
+			}
+
 			arg := callExpr.Args[0]
 			return e.Traverser.Expression(arg).Type()
 		case "len":
diff --git a/astTraversal/function.go b/astTraversal/function.go
index 8bee5cc..b117e69 100644
--- a/astTraversal/function.go
+++ b/astTraversal/function.go
@@ -52,6 +52,10 @@ func (f *FunctionTraverser) Results() []*ast.Field {
 
 func (f *FunctionTraverser) FindArgumentNameByType(typeName string, packagePath string, isPointer bool) string {
 	for _, arg := range f.Arguments() {
+		if len(arg.Names) == 0 {
+			continue
+		}
+
 		argType, err := f.File.Package.FindTypeForExpr(arg.Type)
 		if err != nil {
 			continue
@@ -65,7 +69,7 @@ func (f *FunctionTraverser) FindArgumentNameByType(typeName string, packagePath
 			}
 		}
 
-		if named, ok := argType.(*types.Named); ok && named.Obj().Pkg().Path() == packagePath && named.Obj().Name() == typeName {
+		if named, ok := argType.(*types.Named); ok && named.Obj().Pkg() != nil && named.Obj().Pkg().Path() == packagePath && named.Obj().Name() == typeName {
 			return arg.Names[0].Name
 		} else if basic, ok := argType.(*types.Basic); ok && basic.Name() == typeName {
 			return arg.Names[0].Name
diff --git a/astTraversal/type.go b/astTraversal/type.go
index aca6adf..794fe96 100644
--- a/astTraversal/type.go
+++ b/astTraversal/type.go
@@ -232,7 +232,7 @@ func (t *TypeTraverser) Result() (Result, error) {
 
 				node, err := structFieldResult.Package.ASTAtPos(pos)
 				if err == nil && node != nil {
-					if field, ok := node.(*ast.Field); ok {
+					if field, ok := node.(*ast.Field); ok && len(field.Names) > 0 {
 						t.Traverser.Log.Debug().Str("field", field.Names[0].Name).Msg("Found doc for field")
 						structFieldResult.Doc = FormatDoc(field.Doc.Text())
 					}
diff --git a/contextFuncBuilder.go b/contextFuncBuilder.go
index d692b9b..754cb14 100644
--- a/contextFuncBuilder.go
+++ b/contextFuncBuilder.go
@@ -1,6 +1,10 @@
 package astra
 
-import "github.com/ls6-events/astra/astTraversal"
+import (
+	"go/ast"
+
+	"github.com/ls6-events/astra/astTraversal"
+)
 
 type ContextFuncBuilder struct {
 	Route           *Route
@@ -21,6 +25,17 @@ func (c *ContextFuncBuilder) getCurrentParamIndex() int {
 	return len(c.paramOperations)
 }
 
+// argument returns the argument expression of the call at the given index.
+// There can be fewer expressions than parameters, e.g. if the call is spread from a function with multiple return values.
+func (c *ContextFuncBuilder) argument(index int) (ast.Expr, error) {
+	args := c.Traverser.Args()
+	if index >= len(args) {
+		return nil, astTraversal.ErrInvalidIndex
+	}
+
+	return args[index], nil
+}
+
 func (c *ContextFuncBuilder) Ignored() *ContextFuncBuilder {
 	c.paramOperations = append(c.paramOperations, func() (any, error) {
 		//nolint:nilnil // This is intentional
@@ -33,7 +48,12 @@ func (c *ContextFuncBuilder) Ignored() *ContextFuncBuilder {
 func (c *ContextFuncBuilder) StatusCode() *ContextFuncBuilder {
 	currIndex := c.getCurrentParamIndex()
 	c.paramOperations = append(c.paramOperations, func() (any, error) {
-		return c.Traverser.Traverser.ExtractStatusCode(c.Traverser.Node.Args[currIndex])
+		arg, err := c.argument(currIndex)
+		if err != nil {
+			return nil, err
+		}
+
+		return c.Traverser.Traverser.ExtractStatusCode(arg)
 	})
 
 	return c
@@ -42,7 +62,12 @@ func (c *ContextFuncBuilder) StatusCode() *ContextFuncBuilder {
 func (c *ContextFuncBuilder) ExpressionResult() *ContextFuncBuilder {
 	currIndex := c.getCurrentParamIndex()
 	c.paramOperations = append(c.paramOperations, func() (any, error) {
-		exprType, err := c.Traverser.Traverser.Expression(c.Traverser.Node.Args[currIndex]).Type()
+		arg, err := c.argument(currIndex)
+		if err != nil {
+			return nil, err
+		}
+
+		exprType, err := c.Traverser.Traverser.Expression(arg).Type()
 		if err != nil {
 			return nil, err
 		}
@@ -56,9 +81,12 @@ func (c *ContextFuncBuilder) ExpressionResult() *ContextFuncBuilder {
 func (c *ContextFuncBuilder) Value() *ContextFuncBuilder {
 	currIndex := c.getCurrentParamIndex()
 	c.paramOperations = append(c.paramOperations, func() (any, error) {
-		expr := c.Traverser.Traverser.Expression(c.Traverser.Node.Args[currIndex])
+		arg, err := c.argument(currIndex)
+		if err != nil {
+			return nil, err
+		}
 
-		return expr.Value()
+		return c.Traverser.Traverser.Expression(arg).Value()
 	})
 
 	return c
-- 
2.43.0


From bb0ec10660efe8d51f8582968d879b890fe22475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:59 +0000
Subject: [PATCH 08/48] fix: stop on types that refer to themselves

---
 astTraversal/traverser.go | 10 +++++++++-
 astTraversal/type.go      |  6 +++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/astTraversal/traverser.go b/astTraversal/traverser.go
index 846e597..162a905 100644
--- a/astTraversal/traverser.go
+++ b/astTraversal/traverser.go
@@ -3,6 +3,7 @@ package astTraversal
 import (
 	"errors"
 	"go/ast"
+	"go/types"
 
 	"github.com/rs/zerolog"
 )
@@ -14,12 +15,19 @@ type BaseTraverser struct {
 	Packages           *PackageManager
 	shouldAddComponent bool
 	addComponent       func(result Result) error
+
+	// activeTypes and activeFunctions are the named types and the function bodies that are currently being traversed.
+	// They stop the traversal of types and functions that refer to themselves.
+	activeTypes     map[*types.TypeName]bool
+	activeFunctions map[*ast.BlockStmt]bool
 }
 
 func New(workDir string) *BaseTraverser {
 	packages := NewPackageManager(workDir)
 	return &BaseTraverser{
-		Packages: packages,
+		Packages:        packages,
+		activeTypes:     make(map[*types.TypeName]bool),
+		activeFunctions: make(map[*ast.BlockStmt]bool),
 	}
 }
 
diff --git a/astTraversal/type.go b/astTraversal/type.go
index 794fe96..005dfe7 100644
--- a/astTraversal/type.go
+++ b/astTraversal/type.go
@@ -136,7 +136,11 @@ func (t *TypeTraverser) Result() (Result, error) {
 				return Result{}, err
 			}
 
-			if t.Traverser.shouldAddComponent {
+			// A type that refers to itself is already being added as a component further up
+			if t.Traverser.shouldAddComponent && !t.Traverser.activeTypes[n.Obj()] {
+				t.Traverser.activeTypes[n.Obj()] = true
+				defer delete(t.Traverser.activeTypes, n.Obj())
+
 				namedUnderlyingResult, err := t.Traverser.Type(n.Underlying(), pkg).SetName(n.Obj().Name()).Result()
 				if err != nil {
 					return Result{}, err
-- 
2.43.0


From 9e52395e1febf6a132e53ba13ee24e23aef68e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:59 +0000
Subject: [PATCH 09/48] fix: stop on handlers and helpers that call themselves

---
 astTraversal/function.go    | 16 ++++++++++++++++
 inputs/gin/parseFunction.go |  6 ++++++
 2 files changed, 22 insertions(+)

diff --git a/astTraversal/function.go b/astTraversal/function.go
index b117e69..4edf627 100644
--- a/astTraversal/function.go
+++ b/astTraversal/function.go
@@ -36,6 +36,22 @@ func (t *BaseTraverser) Function(node ast.Node) (*FunctionTraverser, error) {
 	}, nil
 }
 
+// Enter marks the function as being traversed.
+// It returns false if the function is already being traversed, i.e. it is calling itself.
+func (f *FunctionTraverser) Enter() bool {
+	if f.Traverser.activeFunctions[f.Node.Body] {
+		return false
+	}
+
+	f.Traverser.activeFunctions[f.Node.Body] = true
+	return true
+}
+
+// Leave marks the function as no longer being traversed.
+func (f *FunctionTraverser) Leave() {
+	delete(f.Traverser.activeFunctions, f.Node.Body)
+}
+
 func (f *FunctionTraverser) Arguments() []*ast.Field {
 	if f.Node.Type.Params == nil {
 		return []*ast.Field{}
diff --git a/inputs/gin/parseFunction.go b/inputs/gin/parseFunction.go
index bba2ef9..1024f9a 100644
--- a/inputs/gin/parseFunction.go
+++ b/inputs/gin/parseFunction.go
@@ -28,6 +28,12 @@ const (
 func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTraverser, currRoute *astra.Route, activeFile *astTraversal.FileNode, level int) error {
 	traverser := funcTraverser.Traverser
 
+	// A function that calls itself is already being parsed further up
+	if !funcTraverser.Enter() {
+		return nil
+	}
+	defer funcTraverser.Leave()
+
 	traverser.SetActiveFile(activeFile)
 	traverser.SetAddComponentFunction(addComponent(s))
 
-- 
2.43.0


From 45f0eee5765b10e59bc89b60ad4ec21dfd09b03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:59 +0000
Subject: [PATCH 10/48] fix: read the result of a Data response from its third
 argument

---
 inputs/gin/parseFunction.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inputs/gin/parseFunction.go b/inputs/gin/parseFunction.go
index 1024f9a..3917103 100644
--- a/inputs/gin/parseFunction.go
+++ b/inputs/gin/parseFunction.go
@@ -235,7 +235,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 							return nil, errors.New("failed to parse status code")
 						}
 
-						result, ok := params[1].(astTraversal.Result)
+						result, ok := params[2].(astTraversal.Result)
 						if !ok {
 							return nil, errors.New("failed to parse result")
 						}
-- 
2.43.0


From 8155ee8021224c05c34dc76b0b370f4dcdca69ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:59 +0000
Subject: [PATCH 11/48] fix: return to the file of the caller when a helper
 cannot be parsed

---
 inputs/gin/parseFunction.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inputs/gin/parseFunction.go b/inputs/gin/parseFunction.go
index 3917103..d53cfb1 100644
--- a/inputs/gin/parseFunction.go
+++ b/inputs/gin/parseFunction.go
@@ -97,17 +97,17 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 			var function *astTraversal.FunctionTraverser
 			function, err = callExpr.Function()
 			if err != nil {
+				traverser.SetActiveFile(activeFile)
 				traverser.Log.Error().Err(err).Msg("failed to get function")
 				return false
 			}
 
 			err = parseFunction(s, function, currRoute, function.Traverser.ActiveFile(), level+1)
+			traverser.SetActiveFile(activeFile)
 			if err != nil {
 				traverser.Log.Error().Err(err).Msg("error parsing function")
 				return false
 			}
-
-			traverser.SetActiveFile(activeFile)
 		} else {
 			var funcType *types.Func
 			funcType, err = callExpr.Type()
-- 
2.43.0


From d6d191ed4b6a18c6aa95cd8e02b461ce70055e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:59 +0000
Subject: [PATCH 12/48] fix: always resolve a name to the same object

---
 astTraversal/packageNode.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/astTraversal/packageNode.go b/astTraversal/packageNode.go
index 1266453..1c27973 100644
--- a/astTraversal/packageNode.go
+++ b/astTraversal/packageNode.go
@@ -122,11 +122,14 @@ func (p *PackageNode) FindObjectForIdentFuzzy(ident *ast.Ident) (types.Object, e
 
 	obj := p.Package.TypesInfo.ObjectOf(ident)
 	if obj == nil {
-		// Try to find the object in the package
-		for k, v := range p.Package.TypesInfo.Defs {
-			if k.Name == ident.Name {
-				obj = v
-				break
+		// Try to find the object in the package, preferring the package level
+		obj = p.Package.Types.Scope().Lookup(ident.Name)
+		if obj == nil {
+			// Otherwise use the first definition, as the order of the map is random
+			for k, v := range p.Package.TypesInfo.Defs {
+				if k.Name == ident.Name && v != nil && (obj == nil || v.Pos() < obj.Pos()) {
+					obj = v
+				}
 			}
 		}
 
-- 
2.43.0


From 46cd2578697697a10993f5732eb120a0783232f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:59 +0000
Subject: [PATCH 13/48] fix: generate the same OpenAPI document every time

---
 outputs/openapi/components.go | 16 +++++++++++++++-
 outputs/openapi/generate.go   |  5 +++--
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/outputs/openapi/components.go b/outputs/openapi/components.go
index 68405fd..d0fbc5f 100644
--- a/outputs/openapi/components.go
+++ b/outputs/openapi/components.go
@@ -132,6 +132,18 @@ func makeComponentRefName(bindingType astTraversal.BindingTagType, name, pkg str
 	return componentName, bound
 }
 
+// sortedKeys returns the keys of the map in order, to generate the same output every time.
+func sortedKeys[V any](m map[string]V) []string {
+	keys := make([]string, 0, len(m))
+	for key := range m {
+		keys = append(keys, key)
+	}
+
+	slices.Sort(keys)
+
+	return keys
+}
+
 // componentToSchema converts a component to a schema.
 func componentToSchema(service *astra.Service, component astra.Field, bindingType astTraversal.BindingTagType) (schema Schema, bound bool) {
 	if _, ok := service.GetTypeMapping(component.Name, component.Package); ok {
@@ -144,7 +156,9 @@ func componentToSchema(service *astra.Service, component astra.Field, bindingTyp
 			Type:       "object",
 			Properties: make(map[string]Schema),
 		}
-		for _, field := range component.StructFields {
+		for _, fieldName := range sortedKeys(component.StructFields) {
+			field := component.StructFields[fieldName]
+
 			// We should aim to use doc comments in the future.
 			// However https://github.com/OAI/OpenAPI-Specification/issues/1514.
 			if field.IsEmbedded {
diff --git a/outputs/openapi/generate.go b/outputs/openapi/generate.go
index 7829bbf..7b37a37 100644
--- a/outputs/openapi/generate.go
+++ b/outputs/openapi/generate.go
@@ -106,7 +106,8 @@ func Generate(filePath string) astra.ServiceFunction {
 						continue
 					}
 
-					for propertyName, propertySchema := range component.Properties {
+					for _, propertyName := range sortedKeys(component.Properties) {
+						propertySchema := component.Properties[propertyName]
 						style, explode := getQueryParamStyle(propertySchema)
 
 						parameter := Parameter{
@@ -213,7 +214,7 @@ func Generate(filePath string) astra.ServiceFunction {
 			}
 
 			// Sort parameters by name
-			sort.Slice(operation.Parameters, func(i, j int) bool {
+			sort.SliceStable(operation.Parameters, func(i, j int) bool {
 				return operation.Parameters[i].Name < operation.Parameters[j].Name
 			})
 
-- 
2.43.0


From f95734740c45191c0d7306fbfd8ac0fa8161b17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:59 +0000
Subject: [PATCH 14/48] fix: write an output to the same file when it is
 generated again

---
 outputs/json/generate.go    | 2 ++
 outputs/openapi/generate.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/outputs/json/generate.go b/outputs/json/generate.go
index a51b1f3..c4e3b45 100644
--- a/outputs/json/generate.go
+++ b/outputs/json/generate.go
@@ -20,6 +20,8 @@ type JSONOutput struct {
 // It will marshal the JSONOutput struct and write it to a file.
 func Generate(filePath string) astra.ServiceFunction {
 	return func(s *astra.Service) error {
+		filePath := filePath // The output can be generated more than once
+
 		s.Log.Info().Msg("Generating JSON output")
 		output := JSONOutput{
 			Routes:     s.Routes,
diff --git a/outputs/openapi/generate.go b/outputs/openapi/generate.go
index 7b37a37..a6d345b 100644
--- a/outputs/openapi/generate.go
+++ b/outputs/openapi/generate.go
@@ -24,6 +24,8 @@ import (
 // It will also generate the components and their schemas.
 func Generate(filePath string) astra.ServiceFunction {
 	return func(s *astra.Service) error {
+		filePath := filePath // The output can be generated more than once
+
 		s.Log.Debug().Msg("Generating OpenAPI output")
 		if s.Config == nil {
 			s.Log.Error().Msg("No config found")
-- 
2.43.0


From 95bb19270d48eb2de08a6c39c3a588e39417a6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:59 +0000
Subject: [PATCH 15/48] fix: forget the component names of previous generations

---
 outputs/openapi/components.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/outputs/openapi/components.go b/outputs/openapi/components.go
index d0fbc5f..2514441 100644
--- a/outputs/openapi/components.go
+++ b/outputs/openapi/components.go
@@ -33,6 +33,9 @@ func getPackageName(pkg string) string {
 // This needs to be run before any routes or components are generated.
 // As the makeComponentRefName function relies on the collisionSafeNames map.
 func makeCollisionSafeNamesFromComponents(components []astra.Field) {
+	// Remove the names of any previous generation, they can be of different components.
+	clear(collisionSafeNames)
+
 	// Group the components by package name.
 	packageNames := make(map[string][]astra.Field)
 	for _, component := range components {
-- 
2.43.0


From f37d6b4d11eacb6842ac520c6d5f377123340cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:59 +0000
Subject: [PATCH 16/48] fix: give the components of different packages
 different names

---
 outputs/openapi/components.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/outputs/openapi/components.go b/outputs/openapi/components.go
index 2514441..f8e95a3 100644
--- a/outputs/openapi/components.go
+++ b/outputs/openapi/components.go
@@ -54,7 +54,7 @@ func makeCollisionSafeNamesFromComponents(components []astra.Field) {
 		// Iterate over every component and see if there is ever a case where the full package path doesn't match up.
 		sameUntil := 0
 		for i := 0; i < len(components)-1; i++ {
-			for j := i + 1; j < len(components)-i; j++ {
+			for j := i + 1; j < len(components); j++ {
 				// If the packages don't match, we need to find the first point where they don't match.
 				if components[i].Package != components[j].Package {
 					// Create a slice of the package path split by "/".
@@ -66,14 +66,13 @@ func makeCollisionSafeNamesFromComponents(components []astra.Field) {
 					slices.Reverse(jComponentPackageSplit)
 
 					// Iterate over the package path slices and find the first point where they don't match.
-					for k := 0; k < len(iComponentPackageSplit) && k < len(jComponentPackageSplit); k++ {
-						if iComponentPackageSplit[k] != jComponentPackageSplit[k] {
-							// We've found the first point where they don't match, set sameUntil to k and break out of the loop.
-							sameUntil = k
-							break
-						}
+					k := 0
+					for k < len(iComponentPackageSplit) && k < len(jComponentPackageSplit) && iComponentPackageSplit[k] == jComponentPackageSplit[k] {
+						k++
 					}
-					break
+
+					// Every pair of packages has to differ, so keep the furthest point.
+					sameUntil = max(sameUntil, k)
 				}
 			}
 		}
@@ -92,7 +91,7 @@ func makeCollisionSafeNamesFromComponents(components []astra.Field) {
 					// e.g. github.com/ls6-events/astra and github.com/different/astra would give us sameUntil = 1.
 					// and split into "ls6-events" and "different".
 
-					splitPackage = splitPackage[len(splitPackage)-(sameUntil+1):]
+					splitPackage = splitPackage[max(0, len(splitPackage)-(sameUntil+1)):]
 
 					if uniqueBindings {
 						// If there are unique bindings, we need to add the binding type to the collision safe name.
-- 
2.43.0


From a767669719bf0287de95844578e18b9b2ac28e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:59 +0000
Subject: [PATCH 17/48] fix: clean the types of the headers

---
 clean.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/clean.go b/clean.go
index 35a57f3..df8374d 100644
--- a/clean.go
+++ b/clean.go
@@ -29,6 +29,12 @@ func (s *Service) Clean() error {
 		for j := 0; j < len(s.Routes[i].Body); j++ {
 			s.Routes[i].Body[j].Field = s.cleanField(s.Routes[i].Body[j].Field, mainPkg)
 		}
+		for j := 0; j < len(s.Routes[i].RequestHeaders); j++ {
+			s.Routes[i].RequestHeaders[j].Field = s.cleanField(s.Routes[i].RequestHeaders[j].Field, mainPkg)
+		}
+		for j := 0; j < len(s.Routes[i].ResponseHeaders); j++ {
+			s.Routes[i].ResponseHeaders[j].Field = s.cleanField(s.Routes[i].ResponseHeaders[j].Field, mainPkg)
+		}
 	}
 
 	s.Log.Info().Msg("Cleaning up structs complete")
-- 
2.43.0


From fd0961217e49aa7940a5612125a4b13037bb94bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:59 +0000
Subject: [PATCH 18/48] fix: add TRACE operations to the OpenAPI document

---
 outputs/openapi/generate.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/outputs/openapi/generate.go b/outputs/openapi/generate.go
index a6d345b..0482adf 100644
--- a/outputs/openapi/generate.go
+++ b/outputs/openapi/generate.go
@@ -241,6 +241,8 @@ func Generate(filePath string) astra.ServiceFunction {
 				endpointPath.Head = &operation
 			case http.MethodOptions:
 				endpointPath.Options = &operation
+			case http.MethodTrace:
+				endpointPath.Trace = &operation
 			}
 
 			paths[endpoint.Path] = endpointPath
-- 
2.43.0


From c4501bb8d10d02be22308a9d88a0fb8101ccfb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:56 +0000
Subject: [PATCH 19/48] fix: document form arrays and maps as arrays and maps

---
 outputs/openapi/generate.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/outputs/openapi/generate.go b/outputs/openapi/generate.go
index 0482adf..8c090e4 100644
--- a/outputs/openapi/generate.go
+++ b/outputs/openapi/generate.go
@@ -143,6 +143,9 @@ func Generate(filePath string) astra.ServiceFunction {
 				s.Log.Debug().Str("endpointPath", endpoint.Path).Str("method", endpoint.Method).Str("param", bodyParam.Name).Msg("Adding body parameter")
 				bindingType := astra.ContentTypeToBindingTag(bodyParam.ContentType)
 				schema, bound := mapFieldToSchema(bindingType, bodyParam.Field)
+				if bodyParam.IsArray || bodyParam.IsMap {
+					schema, bound = mapParamToSchema(bindingType, astra.Param{Field: bodyParam.Field, IsArray: bodyParam.IsArray, IsMap: bodyParam.IsMap})
+				}
 				if !bound {
 					continue
 				}
-- 
2.43.0


From dccb66b73e210a91574b610526989e7875c9eb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:56 +0000
Subject: [PATCH 20/48] fix: document every field of a form

---
 outputs/openapi/generate.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/outputs/openapi/generate.go b/outputs/openapi/generate.go
index 8c090e4..18a6a38 100644
--- a/outputs/openapi/generate.go
+++ b/outputs/openapi/generate.go
@@ -158,12 +158,15 @@ func Generate(filePath string) astra.ServiceFunction {
 
 				var mediaType MediaType
 				if bodyParam.Name != "" {
-					mediaType.Schema = Schema{
-						Type: "object",
-						Properties: map[string]Schema{
-							bodyParam.Name: schema,
-						},
+					// Keep the fields that were already added for the same content type.
+					mediaType = operation.RequestBody.Content[bodyParam.ContentType]
+					if mediaType.Schema.Properties == nil {
+						mediaType.Schema = Schema{
+							Type:       "object",
+							Properties: make(map[string]Schema),
+						}
 					}
+					mediaType.Schema.Properties[bodyParam.Name] = schema
 				} else {
 					mediaType.Schema = schema
 				}
-- 
2.43.0


From 239dbcd7cdf151551e114e6520a234de132ceb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:56 +0000
Subject: [PATCH 21/48] fix: do not add parameters without a name to the
 OpenAPI document

---
 outputs/openapi/generate.go | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/outputs/openapi/generate.go b/outputs/openapi/generate.go
index 18a6a38..29b21b1 100644
--- a/outputs/openapi/generate.go
+++ b/outputs/openapi/generate.go
@@ -64,6 +64,11 @@ func Generate(filePath string) astra.ServiceFunction {
 					continue
 				}
 
+				// OpenAPI spec requires the use of a name, and every name in the path already has its own parameter
+				if pathParam.IsBound {
+					continue
+				}
+
 				operation.Parameters = append(operation.Parameters, Parameter{
 					Name:     pathParam.Name,
 					In:       "path",
@@ -79,6 +84,30 @@ func Generate(filePath string) astra.ServiceFunction {
 					continue
 				}
 
+				// OpenAPI spec requires the use of a name, so bound headers must be spread
+				if requestHeader.IsBound {
+					field, found := findComponentByPackageAndType(s.Components, requestHeader.Field.Package, requestHeader.Field.Type)
+					if !found {
+						continue
+					}
+
+					component, bound := componentToSchema(s, field, astTraversal.HeaderBindingTag)
+					if !bound {
+						continue
+					}
+
+					for _, propertyName := range sortedKeys(component.Properties) {
+						operation.Parameters = append(operation.Parameters, Parameter{
+							Name:     propertyName,
+							In:       "header",
+							Required: requestHeader.IsRequired,
+							Schema:   component.Properties[propertyName],
+						})
+					}
+
+					continue
+				}
+
 				parameter := Parameter{
 					Name:     requestHeader.Name,
 					In:       "header",
-- 
2.43.0


From 910cce56509a4048381554719292a4f3a81e0cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:56 +0000
Subject: [PATCH 22/48] fix: do not show embedded structs that are hidden by
 their tag

---
 outputs/openapi/components.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/outputs/openapi/components.go b/outputs/openapi/components.go
index f8e95a3..1b16ea0 100644
--- a/outputs/openapi/components.go
+++ b/outputs/openapi/components.go
@@ -164,6 +164,10 @@ func componentToSchema(service *astra.Service, component astra.Field, bindingTyp
 			// We should aim to use doc comments in the future.
 			// However https://github.com/OAI/OpenAPI-Specification/issues/1514.
 			if field.IsEmbedded {
+				if field.StructFieldBindingTags[bindingType].NotShown {
+					continue
+				}
+
 				componentRef, componentBound := makeComponentRef(bindingType, field.Type, field.Package)
 				if componentBound {
 					embeddedProperties = append(embeddedProperties, Schema{
-- 
2.43.0


From 35e38fca489f5c70cb8e6a76c69513bb526f4b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:56 +0000
Subject: [PATCH 23/48] fix: start with a new temp output dir

---
 dir.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dir.go b/dir.go
index 8a48470..566f471 100644
--- a/dir.go
+++ b/dir.go
@@ -34,7 +34,13 @@ func (s *Service) setupAstraDir() error {
 func (s *Service) SetupTempOutputDir(dirPath string) (string, error) {
 	tempDir := path.Join(s.getAstraDirPath(), dirPath)
 
-	err := os.Mkdir(tempDir, 0755)
+	// A previous run could have failed before moving its temp output dir
+	err := os.RemoveAll(tempDir)
+	if err != nil {
+		return "", err
+	}
+
+	err = os.MkdirAll(tempDir, 0755)
 	if err != nil {
 		return "", err
 	}
-- 
2.43.0


From 069ead066d79ac8d82773be0a2567cb562fa5d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:56 +0000
Subject: [PATCH 24/48] fix: do not replace the working directory with the
 output directory

---
 dir.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/dir.go b/dir.go
index 566f471..919a9fa 100644
--- a/dir.go
+++ b/dir.go
@@ -5,6 +5,8 @@ import (
 	"io/fs"
 	"os"
 	"path"
+	"path/filepath"
+	"strings"
 )
 
 // This creates a new directory in the current working directory called .astra.
@@ -52,7 +54,16 @@ func (s *Service) MoveTempOutputDir(dirPath, outputDir string) error {
 	sourcePath := path.Join(s.getAstraDirPath(), dirPath)
 	destinationPath := path.Join(s.WorkDir, outputDir)
 
-	_, err := os.Stat(destinationPath)
+	// The output dir is replaced, so it can't be the working directory or any of its parents
+	relativePath, err := filepath.Rel(destinationPath, sourcePath)
+	if err != nil {
+		return err
+	}
+	if relativePath != ".." && !strings.HasPrefix(relativePath, "../") {
+		return ErrOutputDirectoryPathRequired
+	}
+
+	_, err = os.Stat(destinationPath)
 	if !errors.Is(err, fs.ErrNotExist) {
 		err := os.RemoveAll(destinationPath)
 		if err != nil {
-- 
2.43.0


From 5e78cf47e7190a59f8b44e8e41413a8e680a115e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:56 +0000
Subject: [PATCH 25/48] fix: convert only whole path parameters in Azure
 Functions routes

---
 outputs/azureFunctions/convertRoute.go | 27 +++++++++++---------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/outputs/azureFunctions/convertRoute.go b/outputs/azureFunctions/convertRoute.go
index c34d171..d0bbd87 100644
--- a/outputs/azureFunctions/convertRoute.go
+++ b/outputs/azureFunctions/convertRoute.go
@@ -1,9 +1,8 @@
 package azureFunctions
 
 import (
-	"strings"
-
 	"github.com/ls6-events/astra"
+	"github.com/ls6-events/astra/utils"
 )
 
 // Adapted from https://learn.microsoft.com/en-us/aspnet/web-api/overview/web-api-routing-and-actions/attribute-routing-in-web-api-2#route-constraints
@@ -26,21 +25,17 @@ var acceptedTypeMap = map[string]string{
 }
 
 func convertRoute(route astra.Route) string {
-	routeString := route.Path
-
-	for _, pathParams := range route.PathParams {
-		if azureType, ok := acceptedTypeMap[pathParams.Field.Type]; ok {
-			if azureType == "" {
-				return ""
-			}
-
-			if pathParams.IsRequired {
-				routeString = strings.Replace(routeString, ":"+pathParams.Name, "{"+pathParams.Name+":"+azureType+"}", 1)
-			} else {
-				routeString = strings.Replace(routeString, "*"+pathParams.Name, "{"+pathParams.Name+":"+azureType+"?}", 1)
+	return utils.MapPathParams(route.Path, func(param string) string {
+		for _, pathParams := range route.PathParams {
+			if azureType, ok := acceptedTypeMap[pathParams.Field.Type]; ok {
+				if pathParams.IsRequired && param == ":"+pathParams.Name {
+					return "{" + pathParams.Name + ":" + azureType + "}"
+				} else if !pathParams.IsRequired && param == "*"+pathParams.Name {
+					return "{" + pathParams.Name + ":" + azureType + "?}"
+				}
 			}
 		}
-	}
 
-	return routeString
+		return param
+	})
 }
-- 
2.43.0


From 6fd4292f19f322d528c0285b68f2288b558b31a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:56 +0000
Subject: [PATCH 26/48] fix: create the astra dir before the temporary main
 package

---
 mainPackage.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mainPackage.go b/mainPackage.go
index 7ca4555..f6e6f0c 100644
--- a/mainPackage.go
+++ b/mainPackage.go
@@ -24,7 +24,13 @@ func (s *Service) setupTempMainPackage() error {
 			return err
 		}
 	}
-	err := os.Mkdir(newMainPkgPath, 0755)
+	// The astra dir doesn't exist if the routes were set up somewhere else, e.g. the CLI with a committed cache file
+	err := s.setupAstraDir()
+	if err != nil {
+		return err
+	}
+
+	err = os.Mkdir(newMainPkgPath, 0755)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 70b2a7f12a49944db4af948ba67794ea6a312466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:32 +0000
Subject: [PATCH 27/48] fix: keep return types that differ in their element
 types

---
 safePushing.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/safePushing.go b/safePushing.go
index 62cb7a4..055f6b1 100644
--- a/safePushing.go
+++ b/safePushing.go
@@ -1,7 +1,9 @@
 package astra
 
+import "reflect"
+
 // AddReturnType adds a return type to a slice of return types if it doesn't already exist.
-// It uses the field type, package and status code to determine if the return type already exists.
+// It uses the field, status code and content type to determine if the return type already exists.
 func AddReturnType(prev []ReturnType, n ...ReturnType) []ReturnType {
 	for _, newReturn := range n {
 		if len(prev) == 0 {
@@ -9,7 +11,7 @@ func AddReturnType(prev []ReturnType, n ...ReturnType) []ReturnType {
 		} else {
 			var found bool
 			for _, existingReturn := range prev {
-				if newReturn.Field.Type == existingReturn.Field.Type && newReturn.Field.Package == existingReturn.Field.Package && newReturn.StatusCode == existingReturn.StatusCode && newReturn.ContentType == existingReturn.ContentType {
+				if newReturn.StatusCode == existingReturn.StatusCode && newReturn.ContentType == existingReturn.ContentType && reflect.DeepEqual(newReturn.Field, existingReturn.Field) {
 					found = true
 					break
 				}
-- 
2.43.0


From 773fbf68b3c6f956782d5e41db9f79f4b1d2bb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:32 +0000
Subject: [PATCH 28/48] fix: list every parameter of an operation once

---
 outputs/openapi/generate.go |  3 +++
 outputs/openapi/schema.go   | 16 ++++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/outputs/openapi/generate.go b/outputs/openapi/generate.go
index 29b21b1..25a1cc3 100644
--- a/outputs/openapi/generate.go
+++ b/outputs/openapi/generate.go
@@ -250,6 +250,9 @@ func Generate(filePath string) astra.ServiceFunction {
 				operation.OperationID = endpoint.OperationID
 			}
 
+			// OpenAPI spec requires the parameters to be unique by their location and name
+			operation.Parameters = uniqueParameters(operation.Parameters)
+
 			// Sort parameters by name
 			sort.SliceStable(operation.Parameters, func(i, j int) bool {
 				return operation.Parameters[i].Name < operation.Parameters[j].Name
diff --git a/outputs/openapi/schema.go b/outputs/openapi/schema.go
index 8417b96..e516697 100644
--- a/outputs/openapi/schema.go
+++ b/outputs/openapi/schema.go
@@ -1,6 +1,8 @@
 package openapi
 
 import (
+	"slices"
+
 	"github.com/ls6-events/astra"
 	"github.com/ls6-events/astra/astTraversal"
 )
@@ -126,6 +128,20 @@ func getQueryParamStyle(schema Schema) (style string, explode bool) {
 	return "form", false
 }
 
+// uniqueParameters keeps the first of the parameters with the same location and name.
+func uniqueParameters(parameters []Parameter) []Parameter {
+	var unique []Parameter
+	for _, parameter := range parameters {
+		if !slices.ContainsFunc(unique, func(other Parameter) bool {
+			return other.In == parameter.In && other.Name == parameter.Name
+		}) {
+			unique = append(unique, parameter)
+		}
+	}
+
+	return unique
+}
+
 // findComponentByPackageAndType finds the schema by the package and type.
 func findComponentByPackageAndType(fields []astra.Field, pkg string, typeName string) (astra.Field, bool) {
 	for _, field := range fields {
-- 
2.43.0


From 1a5110e2d87cec867ec2805de2b01db602feb148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:17 +0000
Subject: [PATCH 29/48] fix: limit the items of an array instead of the length
 of a string

---
 outputs/openapi/components.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/outputs/openapi/components.go b/outputs/openapi/components.go
index 1b16ea0..e766484 100644
--- a/outputs/openapi/components.go
+++ b/outputs/openapi/components.go
@@ -235,9 +235,9 @@ func componentToSchema(service *astra.Service, component astra.Field, bindingTyp
 		}
 
 		schema = Schema{
-			Type:      "array",
-			Items:     &itemSchema,
-			MaxLength: int(component.ArrayLength),
+			Type:     "array",
+			Items:    &itemSchema,
+			MaxItems: int(component.ArrayLength),
 		}
 	} else if component.Type == "map" {
 		additionalProperties := mapPredefinedTypeFormat(component.MapValueType)
-- 
2.43.0


From 71064e8e17d8031d02756122feb409c8b8f8f38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:13 +0000
Subject: [PATCH 30/48] fix: refer to components that another component is made
 of whatever they are bound to

---
 outputs/openapi/components.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/outputs/openapi/components.go b/outputs/openapi/components.go
index e766484..8d6dbd1 100644
--- a/outputs/openapi/components.go
+++ b/outputs/openapi/components.go
@@ -134,6 +134,17 @@ func makeComponentRefName(bindingType astTraversal.BindingTagType, name, pkg str
 	return componentName, bound
 }
 
+// makeNestedComponentRef creates a reference to the component from inside another component.
+// A component that is not bound to the binding type is still referred to by the first binding type that it is bound to.
+func makeNestedComponentRef(bindingType astTraversal.BindingTagType, name, pkg string) (string, bool) {
+	componentRef, bound := makeComponentRef(bindingType, name, pkg)
+	for i := 0; i < len(astTraversal.BindingTags) && !bound; i++ {
+		componentRef, bound = makeComponentRef(astTraversal.BindingTags[i], name, pkg)
+	}
+
+	return componentRef, bound
+}
+
 // sortedKeys returns the keys of the map in order, to generate the same output every time.
 func sortedKeys[V any](m map[string]V) []string {
 	keys := make([]string, 0, len(m))
@@ -168,7 +179,7 @@ func componentToSchema(service *astra.Service, component astra.Field, bindingTyp
 					continue
 				}
 
-				componentRef, componentBound := makeComponentRef(bindingType, field.Type, field.Package)
+				componentRef, componentBound := makeNestedComponentRef(bindingType, field.Type, field.Package)
 				if componentBound {
 					embeddedProperties = append(embeddedProperties, Schema{
 						Ref: componentRef,
@@ -210,7 +221,7 @@ func componentToSchema(service *astra.Service, component astra.Field, bindingTyp
 		itemSchema := mapPredefinedTypeFormat(component.SliceType)
 
 		if itemSchema.Type == "" && !astra.IsAcceptedType(component.SliceType) {
-			componentRef, componentBound := makeComponentRef(bindingType, component.SliceType, component.Package)
+			componentRef, componentBound := makeNestedComponentRef(bindingType, component.SliceType, component.Package)
 			if componentBound {
 				itemSchema = Schema{
 					Ref: componentRef,
@@ -226,7 +237,7 @@ func componentToSchema(service *astra.Service, component astra.Field, bindingTyp
 		itemSchema := mapPredefinedTypeFormat(component.ArrayType)
 
 		if itemSchema.Type == "" && !astra.IsAcceptedType(component.ArrayType) {
-			componentRef, componentBound := makeComponentRef(bindingType, component.ArrayType, component.Package)
+			componentRef, componentBound := makeNestedComponentRef(bindingType, component.ArrayType, component.Package)
 			if componentBound {
 				itemSchema = Schema{
 					Ref: componentRef,
@@ -243,7 +254,7 @@ func componentToSchema(service *astra.Service, component astra.Field, bindingTyp
 		additionalProperties := mapPredefinedTypeFormat(component.MapValueType)
 
 		if additionalProperties.Type == "" && !astra.IsAcceptedType(component.MapValueType) {
-			componentRef, ok := makeComponentRef(bindingType, component.MapValueType, component.Package)
+			componentRef, ok := makeNestedComponentRef(bindingType, component.MapValueType, component.Package)
 			if ok {
 				additionalProperties.Ref = componentRef
 			}
@@ -256,7 +267,7 @@ func componentToSchema(service *astra.Service, component astra.Field, bindingTyp
 	} else {
 		schema = mapPredefinedTypeFormat(component.Type)
 		if schema.Type == "" && !astra.IsAcceptedType(component.Type) {
-			componentRef, componentBound := makeComponentRef(bindingType, component.Type, component.Package)
+			componentRef, componentBound := makeNestedComponentRef(bindingType, component.Type, component.Package)
 			if componentBound {
 				schema = Schema{
 					Ref: componentRef,
-- 
2.43.0


From 2eea91f56f2e41676ad5bc154a7bf52f9e08e711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:10 +0000
Subject: [PATCH 31/48] fix: document structs whose fields have tags for
 different bindings

---
 outputs/openapi/components.go | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/outputs/openapi/components.go b/outputs/openapi/components.go
index 8d6dbd1..2c20167 100644
--- a/outputs/openapi/components.go
+++ b/outputs/openapi/components.go
@@ -80,7 +80,13 @@ func makeCollisionSafeNamesFromComponents(components []astra.Field) {
 		// Iterate over every component and create a collision safe name.
 		for _, component := range components {
 			bindingTags, uniqueBindings := astra.ExtractBindingTags(component.StructFields)
+			uniqueBindings = uniqueBindings || hasMixedBindings(component.StructFields, bindingTags)
 			for _, bindingType := range bindingTags {
+				// If there are unique bindings, there is no schema without a binding type.
+				if uniqueBindings && bindingType == astTraversal.NoBindingTag {
+					continue
+				}
+
 				// If sameUntil is greater than 0, we need to remove the package path up to the point where they first don't match.
 				if sameUntil > 0 {
 					// Split the package path by "/".
@@ -114,6 +120,23 @@ func makeCollisionSafeNamesFromComponents(components []astra.Field) {
 	}
 }
 
+// hasMixedBindings returns whether a field has tags, but not for all of the binding types that other fields have tags for.
+func hasMixedBindings(fields map[string]astra.Field, bindingTags []astTraversal.BindingTagType) bool {
+	for _, field := range fields {
+		if _, ok := field.StructFieldBindingTags[astTraversal.NoBindingTag]; ok {
+			continue
+		}
+
+		for _, bindingType := range bindingTags {
+			if _, ok := field.StructFieldBindingTags[bindingType]; !ok && bindingType != astTraversal.NoBindingTag {
+				return true
+			}
+		}
+	}
+
+	return false
+}
+
 // makeComponentRef creates a reference to the component in the OpenAPI specification.
 func makeComponentRef(bindingType astTraversal.BindingTagType, name, pkg string) (string, bool) {
 	componentName, bound := makeComponentRefName(bindingType, name, pkg)
@@ -164,6 +187,9 @@ func componentToSchema(service *astra.Service, component astra.Field, bindingTyp
 	}
 
 	if component.Type == "struct" {
+		bindingTags, _ := astra.ExtractBindingTags(component.StructFields)
+		structBound := slices.Contains(bindingTags, bindingType)
+
 		embeddedProperties := make([]Schema, 0)
 		schema = Schema{
 			Type:       "object",
@@ -192,7 +218,12 @@ func componentToSchema(service *astra.Service, component astra.Field, bindingTyp
 			fieldBinding := field.StructFieldBindingTags[bindingType]
 			fieldNoBinding := field.StructFieldBindingTags[astTraversal.NoBindingTag]
 			if fieldBinding == (astTraversal.BindingTag{}) && fieldNoBinding == (astTraversal.BindingTag{}) {
-				return Schema{}, false
+				if !structBound {
+					return Schema{}, false
+				}
+
+				// The field only has tags for other binding types, so this one knows it by its own name.
+				fieldBinding.Name = fieldName
 			}
 			if fieldBinding == (astTraversal.BindingTag{}) {
 				fieldBinding = fieldNoBinding
-- 
2.43.0


From b804baa14980fb0abd3b9462f32504d754bc7168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:33 +0000
Subject: [PATCH 32/48] fix: list the parameters of structs that are embedded
 in a bound struct

---
 outputs/openapi/generate.go | 20 +++++------------
 outputs/openapi/schema.go   | 45 +++++++++++++++++++++++++++++++++++++
 2 files changed, 51 insertions(+), 14 deletions(-)

diff --git a/outputs/openapi/generate.go b/outputs/openapi/generate.go
index 25a1cc3..cfd73ad 100644
--- a/outputs/openapi/generate.go
+++ b/outputs/openapi/generate.go
@@ -91,17 +91,13 @@ func Generate(filePath string) astra.ServiceFunction {
 						continue
 					}
 
-					component, bound := componentToSchema(s, field, astTraversal.HeaderBindingTag)
-					if !bound {
-						continue
-					}
-
-					for _, propertyName := range sortedKeys(component.Properties) {
+					properties := boundProperties(s, field, astTraversal.HeaderBindingTag, nil)
+					for _, propertyName := range sortedKeys(properties) {
 						operation.Parameters = append(operation.Parameters, Parameter{
 							Name:     propertyName,
 							In:       "header",
 							Required: requestHeader.IsRequired,
-							Schema:   component.Properties[propertyName],
+							Schema:   properties[propertyName],
 						})
 					}
 
@@ -132,13 +128,9 @@ func Generate(filePath string) astra.ServiceFunction {
 						continue
 					}
 
-					component, bound := componentToSchema(s, field, astTraversal.FormBindingTag)
-					if !bound {
-						continue
-					}
-
-					for _, propertyName := range sortedKeys(component.Properties) {
-						propertySchema := component.Properties[propertyName]
+					properties := boundProperties(s, field, astTraversal.FormBindingTag, nil)
+					for _, propertyName := range sortedKeys(properties) {
+						propertySchema := properties[propertyName]
 						style, explode := getQueryParamStyle(propertySchema)
 
 						parameter := Parameter{
diff --git a/outputs/openapi/schema.go b/outputs/openapi/schema.go
index e516697..b3dcdc3 100644
--- a/outputs/openapi/schema.go
+++ b/outputs/openapi/schema.go
@@ -152,3 +152,48 @@ func findComponentByPackageAndType(fields []astra.Field, pkg string, typeName st
 
 	return astra.Field{}, false
 }
+
+// boundProperties collects the properties of a bound struct, including those of the structs that are embedded in it.
+func boundProperties(service *astra.Service, component astra.Field, bindingType astTraversal.BindingTagType, parents []string) map[string]Schema {
+	properties := make(map[string]Schema)
+
+	schema, bound := componentToSchema(service, component, bindingType)
+	if !bound {
+		return properties
+	}
+
+	for name, property := range schema.Properties {
+		properties[name] = property
+	}
+	if len(schema.AllOf) == 0 {
+		return properties
+	}
+
+	// The struct's own properties are next to the references to the embedded structs.
+	for _, part := range schema.AllOf {
+		for name, property := range part.Properties {
+			properties[name] = property
+		}
+	}
+
+	parents = append(slices.Clone(parents), component.Package+"."+component.Name)
+	for _, fieldName := range sortedKeys(component.StructFields) {
+		field := component.StructFields[fieldName]
+		if !field.IsEmbedded || field.StructFieldBindingTags[bindingType].NotShown || slices.Contains(parents, field.Package+"."+field.Type) {
+			continue
+		}
+
+		embedded, found := findComponentByPackageAndType(service.Components, field.Package, field.Type)
+		if !found {
+			continue
+		}
+
+		for name, property := range boundProperties(service, embedded, bindingType, parents) {
+			if _, exists := properties[name]; !exists {
+				properties[name] = property
+			}
+		}
+	}
+
+	return properties
+}
-- 
2.43.0


From aac856f4054f37bf155d8cba3870019912e78e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:59 +0000
Subject: [PATCH 33/48] fix: keep the format of the items of a slice

---
 outputs/openapi/schema.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/outputs/openapi/schema.go b/outputs/openapi/schema.go
index b3dcdc3..c2d24ad 100644
--- a/outputs/openapi/schema.go
+++ b/outputs/openapi/schema.go
@@ -56,9 +56,7 @@ func mapFieldToSchema(bindingType astTraversal.BindingTagType, field astra.Field
 	} else {
 		schema := mapPredefinedTypeFormat(field.Type)
 		if field.Type == "slice" {
-			itemSchema := Schema{
-				Type: mapPredefinedTypeFormat(field.SliceType).Type,
-			}
+			itemSchema := mapPredefinedTypeFormat(field.SliceType)
 			if !astra.IsAcceptedType(field.SliceType) {
 				componentRef, bound := makeComponentRef(bindingType, field.SliceType, field.Package)
 				if bound {
-- 
2.43.0


From 90f51e1089ef5d4e5484c0c17b29e030e3d71d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:46 +0000
Subject: [PATCH 34/48] fix: cache packages by their working directory and path

---
 astTraversal/loadPackage.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/astTraversal/loadPackage.go b/astTraversal/loadPackage.go
index 0fe9305..31dfbbd 100644
--- a/astTraversal/loadPackage.go
+++ b/astTraversal/loadPackage.go
@@ -2,6 +2,7 @@ package astTraversal
 
 import (
 	"fmt"
+	"os"
 
 	"golang.org/x/tools/go/packages"
 )
@@ -11,7 +12,9 @@ var cachedPackages = make(map[string]*packages.Package)
 // LoadPackage loads a package from a path.
 // Because of the way the packages.Load function works, we cache the packages to avoid loading the same package multiple times.
 func LoadPackage(pkgPath string, workDir string) (*packages.Package, error) {
-	if pkg, ok := cachedPackages[pkgPath]; ok {
+	// The same path can be of a different package in another working directory.
+	cacheKey := workDir + string(os.PathListSeparator) + pkgPath
+	if pkg, ok := cachedPackages[cacheKey]; ok {
 		return pkg, nil
 	}
 
@@ -20,7 +23,7 @@ func LoadPackage(pkgPath string, workDir string) (*packages.Package, error) {
 		return nil, err
 	}
 
-	cachedPackages[pkgPath] = pkg
+	cachedPackages[cacheKey] = pkg
 
 	return pkg, nil
 }
-- 
2.43.0


From 4af1c287924dd25da036c8e016a655be9aee0395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:34 +0000
Subject: [PATCH 35/48] fix: write paths and responses of the OpenAPI document
 even if they are empty

---
 outputs/openapi/types.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/outputs/openapi/types.go b/outputs/openapi/types.go
index 3ec78d1..cea7ecc 100644
--- a/outputs/openapi/types.go
+++ b/outputs/openapi/types.go
@@ -6,7 +6,7 @@ type OpenAPISchema struct {
 	Info              Info          `json:"info" yaml:"info"`
 	JSONSchemaDialect string        `json:"jsonSchemaDialect,omitempty" yaml:"jsonSchemaDialect,omitempty"`
 	Servers           []Server      `json:"servers,omitempty" yaml:"servers,omitempty"`
-	Paths             Paths         `json:"paths,omitempty" yaml:"paths,omitempty"`
+	Paths             Paths         `json:"paths" yaml:"paths"`
 	Webhooks          Paths         `json:"webhooks,omitempty" yaml:"webhooks,omitempty"`
 	Components        Components    `json:"components,omitempty" yaml:"components,omitempty"`
 	Security          []Security    `json:"security,omitempty" yaml:"security,omitempty"`
@@ -72,7 +72,7 @@ type Operation struct {
 	OperationID  string        `json:"operationId,omitempty" yaml:"operationId,omitempty"`
 	Parameters   []Parameter   `json:"parameters,omitempty" yaml:"parameters,omitempty"`
 	RequestBody  *RequestBody  `json:"requestBody,omitempty" yaml:"requestBody,omitempty"`
-	Responses    Responses     `json:"responses,omitempty" yaml:"responses,omitempty"`
+	Responses    Responses     `json:"responses" yaml:"responses"`
 	Callbacks    Callbacks     `json:"callbacks,omitempty" yaml:"callbacks,omitempty"`
 	Deprecated   bool          `json:"deprecated,omitempty" yaml:"deprecated,omitempty"`
 	Security     []Security    `json:"security,omitempty" yaml:"security,omitempty"`
-- 
2.43.0


From 5660142b7646b341149f9e24b6cadb58d43546fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:01 +0000
Subject: [PATCH 36/48] fix: find context calls inside of calls that are not
 understood

---
 inputs/gin/parseFunction.go | 55 +++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 27 deletions(-)

diff --git a/inputs/gin/parseFunction.go b/inputs/gin/parseFunction.go
index d53cfb1..d5aa546 100644
--- a/inputs/gin/parseFunction.go
+++ b/inputs/gin/parseFunction.go
@@ -99,26 +99,27 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 			if err != nil {
 				traverser.SetActiveFile(activeFile)
 				traverser.Log.Error().Err(err).Msg("failed to get function")
-				return false
+				return true
 			}
 
 			err = parseFunction(s, function, currRoute, function.Traverser.ActiveFile(), level+1)
 			traverser.SetActiveFile(activeFile)
 			if err != nil {
 				traverser.Log.Error().Err(err).Msg("error parsing function")
-				return false
+				return true
 			}
 		} else {
 			var funcType *types.Func
 			funcType, err = callExpr.Type()
 			if err != nil {
-				return false
+				// E.g. a conversion or a builtin, but the context can be used in its arguments
+				return true
 			}
 
 			signature, ok := funcType.Type().(*types.Signature)
 			if !ok {
 				traverser.Log.Error().Err(err).Msg("error getting function signature")
-				return false
+				return true
 			}
 
 			signaturePath := GinPackagePath + "." + GinContextType
@@ -151,7 +152,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return route, nil
 					})
 					if err != nil {
-						return false
+						return true
 					}
 				case "XML":
 					currRoute, err = funcBuilder.StatusCode().ExpressionResult().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
@@ -176,7 +177,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return route, nil
 					})
 					if err != nil {
-						return false
+						return true
 					}
 				case "YAML":
 					currRoute, err = funcBuilder.StatusCode().ExpressionResult().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
@@ -201,7 +202,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return route, nil
 					})
 					if err != nil {
-						return false
+						return true
 					}
 				case "ProtoBuf":
 					currRoute, err = funcBuilder.StatusCode().ExpressionResult().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
@@ -226,7 +227,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return route, nil
 					})
 					if err != nil {
-						return false
+						return true
 					}
 				case "Data":
 					currRoute, err = funcBuilder.StatusCode().Ignored().ExpressionResult().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
@@ -250,7 +251,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return route, nil
 					})
 					if err != nil {
-						return false
+						return true
 					}
 				case "String": // c.String
 					currRoute, err = funcBuilder.StatusCode().Ignored().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
@@ -272,7 +273,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return route, nil
 					})
 					if err != nil {
-						return false
+						return true
 					}
 				case "Status": // c.Status
 					currRoute, err = funcBuilder.StatusCode().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
@@ -312,7 +313,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return route, nil
 					})
 					if err != nil {
-						return false
+						return true
 					}
 				case "GetQueryArray", "QueryArray":
 					currRoute, err = funcBuilder.Value().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
@@ -334,7 +335,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return route, nil
 					})
 					if err != nil {
-						return false
+						return true
 					}
 				case "GetQueryMap", "QueryMap":
 					currRoute, err = funcBuilder.Value().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
@@ -356,7 +357,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return route, nil
 					})
 					if err != nil {
-						return false
+						return true
 					}
 				case "ShouldBindQuery", "BindQuery":
 					currRoute, err = funcBuilder.ExpressionResult().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
@@ -375,7 +376,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return route, nil
 					})
 					if err != nil {
-						return false
+						return true
 					}
 
 				// Body Param methods
@@ -418,7 +419,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return route, nil
 					})
 					if err != nil {
-						return false
+						return true
 					}
 				case "ShouldBindJSON", "BindJSON":
 					currRoute, err = funcBuilder.ExpressionResult().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
@@ -438,7 +439,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return route, nil
 					})
 					if err != nil {
-						return false
+						return true
 					}
 				case "ShouldBindXML", "BindXML":
 					currRoute, err = funcBuilder.ExpressionResult().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
@@ -458,7 +459,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return route, nil
 					})
 					if err != nil {
-						return false
+						return true
 					}
 				case "ShouldBindYAML", "BindYAML":
 					currRoute, err = funcBuilder.ExpressionResult().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
@@ -478,7 +479,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return route, nil
 					})
 					if err != nil {
-						return false
+						return true
 					}
 				case "GetPostForm", "PostForm":
 					currRoute, err = funcBuilder.Value().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
@@ -500,7 +501,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return route, nil
 					})
 					if err != nil {
-						return false
+						return true
 					}
 				case "GetPostFormArray", "PostFormArray":
 					currRoute, err = funcBuilder.Value().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
@@ -523,7 +524,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return route, nil
 					})
 					if err != nil {
-						return false
+						return true
 					}
 				case "GetPostFormMap", "PostFormMap":
 					currRoute, err = funcBuilder.Value().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
@@ -546,7 +547,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return route, nil
 					})
 					if err != nil {
-						return false
+						return true
 					}
 				case "FormFile":
 					currRoute, err = funcBuilder.Value().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
@@ -568,7 +569,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return route, nil
 					})
 					if err != nil {
-						return false
+						return true
 					}
 				case "GetHeader":
 					currRoute, err = funcBuilder.Value().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
@@ -589,7 +590,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return route, nil
 					})
 					if err != nil {
-						return false
+						return true
 					}
 				case "ShouldBindHeader", "BindHeader":
 					currRoute, err = funcBuilder.ExpressionResult().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
@@ -608,7 +609,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return route, nil
 					})
 					if err != nil {
-						return false
+						return true
 					}
 				case "Header":
 					currRoute, err = funcBuilder.Value().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
@@ -647,7 +648,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return route, nil
 					})
 					if err != nil {
-						return false
+						return true
 					}
 				case "AbortWithStatus":
 					currRoute, err = funcBuilder.StatusCode().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
@@ -668,7 +669,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return route, nil
 					})
 					if err != nil {
-						return false
+						return true
 					}
 				case "AbortWithStatusJSON":
 					currRoute, err = funcBuilder.StatusCode().ExpressionResult().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
@@ -693,7 +694,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return route, nil
 					})
 					if err != nil {
-						return false
+						return true
 					}
 				}
 			}
-- 
2.43.0


From 85ce1a880b72131dbc0ab1cb36285a7861f8329d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:08 +0000
Subject: [PATCH 37/48] fix: read constant strings and expressions without
 their quotes

---
 astTraversal/expression.go | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/astTraversal/expression.go b/astTraversal/expression.go
index 319bb52..5c60f74 100644
--- a/astTraversal/expression.go
+++ b/astTraversal/expression.go
@@ -3,9 +3,10 @@ package astTraversal
 import (
 	"errors"
 	"go/ast"
+	"go/constant"
 	"go/token"
 	"go/types"
-	"strings"
+	"strconv"
 )
 
 type ExpressionTraverser struct {
@@ -54,7 +55,7 @@ func (e *ExpressionTraverser) Value() (string, error) {
 	case *ast.BasicLit:
 		value := n.Value
 		if n.Kind == token.STRING {
-			value = strings.Trim(value, "\"")
+			return strconv.Unquote(value)
 		}
 
 		return value, nil
@@ -64,8 +65,8 @@ func (e *ExpressionTraverser) Value() (string, error) {
 			return "", err
 		}
 
-		if constant, ok := obj.(*types.Const); ok {
-			return constant.Val().String(), nil
+		if object, ok := obj.(*types.Const); ok {
+			return constantString(object.Val()), nil
 		}
 
 		node, err := e.File.Package.ASTAtPos(obj.Pos())
@@ -106,8 +107,8 @@ func (e *ExpressionTraverser) Value() (string, error) {
 			return "", err
 		}
 
-		if constant, ok := obj.(*types.Const); ok {
-			return constant.Val().String(), nil
+		if object, ok := obj.(*types.Const); ok {
+			return constantString(object.Val()), nil
 		}
 
 		node, err := pkg.ASTAtPos(obj.Pos())
@@ -133,9 +134,25 @@ func (e *ExpressionTraverser) Value() (string, error) {
 		return e.Traverser.Expression(exprNode).Value()
 	}
 
+	// Any other constant expression, e.g. a concatenation
+	if e.File.Package.Package != nil {
+		if value := e.File.Package.Package.TypesInfo.Types[e.Node].Value; value != nil {
+			return constantString(value), nil
+		}
+	}
+
 	return "", errors.New("value not retrievable")
 }
 
+// constantString is the value of a constant, without quotes if it is a string.
+func constantString(value constant.Value) string {
+	if value.Kind() == constant.String {
+		return constant.StringVal(value)
+	}
+
+	return value.ExactString()
+}
+
 func (e *ExpressionTraverser) Type() (types.Type, error) {
 	switch n := e.Node.(type) {
 	case *ast.StarExpr:
-- 
2.43.0


From bcac7cf5bac1979e9bb12a8d5615b5fce0704e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:20 +0000
Subject: [PATCH 38/48] fix: use the type of any expression

---
 astTraversal/expression.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/astTraversal/expression.go b/astTraversal/expression.go
index 5c60f74..450edce 100644
--- a/astTraversal/expression.go
+++ b/astTraversal/expression.go
@@ -154,6 +154,18 @@ func constantString(value constant.Value) string {
 }
 
 func (e *ExpressionTraverser) Type() (types.Type, error) {
+	// The type checker knows the types of the expressions of the package, whatever they are made of
+	if e.File != nil && e.File.Package != nil {
+		exprType, err := e.File.Package.FindTypeForExpr(e.Node)
+		if err == nil {
+			if tuple, ok := exprType.(*types.Tuple); !ok {
+				return exprType, nil
+			} else if e.ReturnNum < tuple.Len() {
+				return tuple.At(e.ReturnNum).Type(), nil
+			}
+		}
+	}
+
 	switch n := e.Node.(type) {
 	case *ast.StarExpr:
 		return e.Traverser.Expression(n.X).Type()
-- 
2.43.0


From 54af29b0b1003142754df6df595a2622f0e47c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:20 +0000
Subject: [PATCH 39/48] fix: describe an untyped nil as nil

---
 astTraversal/type.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/astTraversal/type.go b/astTraversal/type.go
index 005dfe7..e11594b 100644
--- a/astTraversal/type.go
+++ b/astTraversal/type.go
@@ -38,6 +38,9 @@ func (t *TypeTraverser) Result() (Result, error) {
 			Type:    n.Name(),
 			Package: t.Package,
 		}
+		if n.Kind() == types.UntypedNil {
+			result.Type = "nil"
+		}
 
 		// If the name isn't empty, it's a named type
 		// Therefore it has the potential to be an enum
-- 
2.43.0


From c451b6499f06b540549a311ff9b8cb16562567e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:30 +0000
Subject: [PATCH 40/48] fix: find the handlers of packages with escaped paths

---
 utils/splitHandlerPath.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/utils/splitHandlerPath.go b/utils/splitHandlerPath.go
index 04f8a75..037b7ce 100644
--- a/utils/splitHandlerPath.go
+++ b/utils/splitHandlerPath.go
@@ -1,6 +1,9 @@
 package utils
 
-import "strings"
+import (
+	"net/url"
+	"strings"
+)
 
 type HandlerPath struct {
 	PathParts    []string
@@ -18,6 +21,14 @@ func SplitHandlerPath(handlerPath string) HandlerPath {
 	pathParts = pathParts[:len(pathParts)-1]
 	pathParts = append(pathParts, handlerParts[0])
 
+	// The runtime escapes some characters of the package path, e.g. the dots in its last part
+	for i, part := range pathParts {
+		unescaped, err := url.PathUnescape(part)
+		if err == nil {
+			pathParts[i] = unescaped
+		}
+	}
+
 	// Remove the first handler part from the handler parts
 	handlerParts = handlerParts[1:]
 
-- 
2.43.0


From 85d3a663b344066b1be6d824e8a36d62d3133819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:30 +0000
Subject: [PATCH 41/48] fix: find the packages of renamed and versioned imports

---
 astTraversal/fileNode.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/astTraversal/fileNode.go b/astTraversal/fileNode.go
index c9cc911..a7ec2b6 100644
--- a/astTraversal/fileNode.go
+++ b/astTraversal/fileNode.go
@@ -21,10 +21,26 @@ func (f *FileNode) IsImportedPackage(ident string) bool {
 
 func (f *FileNode) FindImport(ident string) (FileImport, bool) {
 	for _, im := range f.Imports {
-		if im.Name == ident || im.Package.Name == ident {
+		if f.importName(im) == ident {
 			return im, true
 		}
 	}
 
 	return FileImport{}, false
 }
+
+// importName is the name that the file uses for an imported package.
+// The name of the package can be different from the end of its path, e.g. for github.com/user/project/v2.
+func (f *FileNode) importName(im FileImport) string {
+	if im.Name != "" {
+		return im.Name
+	}
+
+	if f.Package != nil && f.Package.Package != nil {
+		if pkg, ok := f.Package.Package.Imports[im.Package.Path()]; ok && pkg.Name != "" {
+			return pkg.Name
+		}
+	}
+
+	return im.Package.Name
+}
-- 
2.43.0


From 96c85255998cc844a6657584f03d50f551af1bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:18 +0000
Subject: [PATCH 42/48] fix: keep the route that a custom function returns

---
 inputs/gin/parseFunction.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/inputs/gin/parseFunction.go b/inputs/gin/parseFunction.go
index d5aa546..3233c15 100644
--- a/inputs/gin/parseFunction.go
+++ b/inputs/gin/parseFunction.go
@@ -82,7 +82,8 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 				return false
 			}
 			if newRoute != nil {
-				currRoute = newRoute
+				// The route of the caller is updated, even if the custom function returns another one
+				*currRoute = *newRoute
 				shouldBreak = true
 				break
 			}
-- 
2.43.0


From a8a84b800efb68752010ec19cae6d99c5fa6b6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:51 +0000
Subject: [PATCH 43/48] fix: read the options of struct tags one by one

---
 astTraversal/tags.go | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/astTraversal/tags.go b/astTraversal/tags.go
index 4be5a0f..0207b1d 100644
--- a/astTraversal/tags.go
+++ b/astTraversal/tags.go
@@ -56,16 +56,18 @@ func ParseStructTag(field string, tag string) (BindingTagMap, ValidationTagMap)
 		tagItems := strings.Split(tagValue, ",")
 		if tagItems[0] == "" {
 			newBindingTag.Name = field
-		} else if tagItems[0] != "-" {
+		} else if tagValue != "-" {
+			// Only the exact value "-" hides a field, "-," is the name "-"
 			newBindingTag.Name = tagItems[0]
 		} else {
 			newBindingTag.NotShown = true
 		}
 
-		if len(tagItems) > 1 && tagItems[1] == "omitempty" {
-			newBindingTag.ReturnOptional = true
-		} else {
-			newBindingTag.ReturnOptional = false
+		// The options can be given in any order
+		for _, option := range tagItems[1:] {
+			if option == "omitempty" {
+				newBindingTag.ReturnOptional = true
+			}
 		}
 
 		bindingTags[bindingTag] = newBindingTag
@@ -82,9 +84,23 @@ func ParseStructTag(field string, tag string) (BindingTagMap, ValidationTagMap)
 		}
 
 		validationTags[validationTag] = ValidationTag{
-			IsRequired: strings.Contains(tagValue, "required"),
+			IsRequired: hasRequiredRule(tagValue),
 		}
 	}
 
 	return bindingTags, validationTags
 }
+
+// hasRequiredRule reports whether the rules of a validation tag require the field itself
+// Rules like required_if don't always, and the rules after dive are about its elements
+func hasRequiredRule(tagValue string) bool {
+	for _, rule := range strings.Split(tagValue, ",") {
+		if rule == "dive" {
+			return false
+		}
+		if rule == "required" {
+			return true
+		}
+	}
+	return false
+}
-- 
2.43.0


From 50c9d1d20b060028f6c78c85fbbf93005493f7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:25 +0000
Subject: [PATCH 44/48] fix: describe the types that aliases stand for

---
 astTraversal/function.go |  3 ++-
 astTraversal/type.go     | 15 ++++++++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/astTraversal/function.go b/astTraversal/function.go
index 4edf627..d9ad612 100644
--- a/astTraversal/function.go
+++ b/astTraversal/function.go
@@ -77,9 +77,10 @@ func (f *FunctionTraverser) FindArgumentNameByType(typeName string, packagePath
 			continue
 		}
 
+		argType = unalias(argType)
 		if isPointer {
 			if named, ok := argType.(*types.Pointer); ok {
-				argType = named.Elem()
+				argType = unalias(named.Elem())
 			} else {
 				continue
 			}
diff --git a/astTraversal/type.go b/astTraversal/type.go
index e11594b..e822d7f 100644
--- a/astTraversal/type.go
+++ b/astTraversal/type.go
@@ -20,11 +20,24 @@ type TypeTraverser struct {
 func (t *BaseTraverser) Type(node types.Type, packageNode *PackageNode) *TypeTraverser {
 	return &TypeTraverser{
 		Traverser: t,
-		Node:      node,
+		Node:      unalias(node),
 		Package:   packageNode,
 	}
 }
 
+// unalias is the type that an alias stands for
+// Newer versions of Go have a type for aliases, which is *types.Alias
+func unalias(node types.Type) types.Type {
+	for {
+		alias, ok := node.(interface{ Rhs() types.Type })
+		if !ok {
+			return node
+		}
+
+		node = alias.Rhs()
+	}
+}
+
 func (t *TypeTraverser) SetName(name string) *TypeTraverser {
 	t.name = name
 	return t
-- 
2.43.0


From b6ab2417ff18576b42f8e9cffe249b5be2ca4d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:29 +0000
Subject: [PATCH 45/48] fix: skip the fields of structs that cannot be
 described

---
 astTraversal/type.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/astTraversal/type.go b/astTraversal/type.go
index e822d7f..242ba96 100644
--- a/astTraversal/type.go
+++ b/astTraversal/type.go
@@ -1,6 +1,7 @@
 package astTraversal
 
 import (
+	"errors"
 	"go/ast"
 	"go/token"
 	"go/types"
@@ -238,6 +239,10 @@ func (t *TypeTraverser) Result() (Result, error) {
 			}
 
 			structFieldResult, err := t.Traverser.Type(f.Type(), t.Package).Result()
+			if errors.Is(err, ErrInvalidNodeType) {
+				// The other fields can be described without the ones that can't, e.g. functions
+				continue
+			}
 			if err != nil {
 				return Result{}, err
 			}
-- 
2.43.0


From 8fc6fc1b6c8d00eab68e3646dd8916dd4173c6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:44 +0000
Subject: [PATCH 46/48] fix: list all the constants of an enum

---
 astTraversal/type.go | 106 ++++++++++++++++++++-----------------------
 1 file changed, 49 insertions(+), 57 deletions(-)

diff --git a/astTraversal/type.go b/astTraversal/type.go
index 242ba96..913fe45 100644
--- a/astTraversal/type.go
+++ b/astTraversal/type.go
@@ -3,10 +3,9 @@ package astTraversal
 import (
 	"errors"
 	"go/ast"
+	"go/constant"
 	"go/token"
 	"go/types"
-	"strconv"
-	"strings"
 )
 
 type TypeTraverser struct {
@@ -79,62 +78,23 @@ func (t *TypeTraverser) Result() (Result, error) {
 
 						// If the declaration is a const, we iterate over every spec
 						for _, spec := range genDecl.Specs {
-							// If the spec is a ValueSpec, we check if the type is the same as the named type
+							// If the spec is a ValueSpec, we check if the type of each of its constants is the named type
+							// The type and the value don't need to be written in the spec, e.g. with iota, so we ask the type checker
 							if valueSpec, ok := spec.(*ast.ValueSpec); ok {
-								// If the type is the same as the named type, we iterate over every value
-								if valueSpec.Type != nil {
-									// We check this by comparing the name of the type to the name of the named type
-									// It must be an Ident, otherwise it's not a named type, or it's from another package, not the one we're looking for
-									if ident, ok := valueSpec.Type.(*ast.Ident); ok {
-										if ident.Name == t.name {
-											// We iterate over every value in the value spec
-											for _, value := range valueSpec.Values {
-												// If the value is a basic literal, we add it to the enum values
-												if basicLit, ok := value.(*ast.BasicLit); ok {
-													// Switch over the basic literal's kind to determine the type of the value
-													// And format it accordingly
-													switch n.Kind() {
-													case types.String:
-														result.EnumValues = append(result.EnumValues, strings.Trim(basicLit.Value, "\""))
-													case types.Int:
-														i, err := strconv.Atoi(basicLit.Value)
-														if err != nil {
-															continue
-														}
-
-														result.EnumValues = append(result.EnumValues, i)
-													case types.Float32, types.Float64:
-														f, err := strconv.ParseFloat(basicLit.Value, 64)
-														if err != nil {
-															continue
-														}
-
-														result.EnumValues = append(result.EnumValues, f)
-													case types.Bool:
-														b, err := strconv.ParseBool(basicLit.Value)
-														if err != nil {
-															continue
-														}
-
-														result.EnumValues = append(result.EnumValues, b)
-													case types.Int8, types.Int16, types.Int32, types.Int64:
-														i, err := strconv.ParseInt(basicLit.Value, 10, 64)
-														if err != nil {
-															continue
-														}
-
-														result.EnumValues = append(result.EnumValues, i)
-													case types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64:
-														i, err := strconv.ParseUint(basicLit.Value, 10, 64)
-														if err != nil {
-															continue
-														}
-
-														result.EnumValues = append(result.EnumValues, i)
-													}
-												}
-											}
-										}
+								for _, ident := range valueSpec.Names {
+									obj, err := t.Package.FindObjectForIdent(ident)
+									if err != nil || ident.Name == "_" {
+										continue
+									}
+
+									constObj, ok := obj.(*types.Const)
+									if !ok || !t.isNamed(constObj.Type()) {
+										continue
+									}
+
+									value, ok := enumValue(n.Kind(), constObj.Val())
+									if ok {
+										result.EnumValues = append(result.EnumValues, value)
 									}
 								}
 							}
@@ -311,3 +271,35 @@ func (t *TypeTraverser) Doc() (string, error) {
 
 	return "", nil
 }
+
+// isNamed reports whether a type is the named type of the package that is being traversed
+func (t *TypeTraverser) isNamed(node types.Type) bool {
+	named, ok := unalias(node).(*types.Named)
+
+	return ok && named.Obj().Name() == t.name && named.Obj().Pkg() == t.Package.Package.Types
+}
+
+// enumValue is the value of a constant of a basic type
+func enumValue(kind types.BasicKind, value constant.Value) (any, bool) {
+	switch kind {
+	case types.String:
+		return constant.StringVal(value), true
+	case types.Bool:
+		return constant.BoolVal(value), true
+	case types.Int:
+		i, exact := constant.Int64Val(constant.ToInt(value))
+		return int(i), exact
+	case types.Int8, types.Int16, types.Int32, types.Int64:
+		return constant.Int64Val(constant.ToInt(value))
+	case types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64:
+		return constant.Uint64Val(constant.ToInt(value))
+	case types.Float32:
+		f, _ := constant.Float32Val(value)
+		return f, true
+	case types.Float64:
+		f, _ := constant.Float64Val(value)
+		return f, true
+	}
+
+	return nil, false
+}
-- 
2.43.0


From 8f23010a517629247096f6e131e1f308b6657bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:04 +0000
Subject: [PATCH 47/48] fix: find the documentation of struct fields wherever
 they are declared

---
 astTraversal/loadPackage.go |  7 ++++++-
 astTraversal/packageNode.go | 40 +++++++++++++++++++++++++++++++++++++
 astTraversal/type.go        | 19 +++++++++++-------
 3 files changed, 58 insertions(+), 8 deletions(-)

diff --git a/astTraversal/loadPackage.go b/astTraversal/loadPackage.go
index 31dfbbd..f414e13 100644
--- a/astTraversal/loadPackage.go
+++ b/astTraversal/loadPackage.go
@@ -2,6 +2,7 @@ package astTraversal
 
 import (
 	"fmt"
+	"go/token"
 	"os"
 
 	"golang.org/x/tools/go/packages"
@@ -9,6 +10,9 @@ import (
 
 var cachedPackages = make(map[string]*packages.Package)
 
+// fileSet is shared by all packages, so that a position means the same for each of them, even if they were loaded separately.
+var fileSet = token.NewFileSet()
+
 // LoadPackage loads a package from a path.
 // Because of the way the packages.Load function works, we cache the packages to avoid loading the same package multiple times.
 func LoadPackage(pkgPath string, workDir string) (*packages.Package, error) {
@@ -42,7 +46,8 @@ func LoadPackageNoCache(pkgPath string, workDir string) (*packages.Package, erro
 			packages.NeedTypesInfo |
 			packages.NeedTypesSizes |
 			packages.NeedModule,
-		Dir: workDir,
+		Dir:  workDir,
+		Fset: fileSet,
 	}, pkgPath)
 	if err != nil {
 		return nil, err
diff --git a/astTraversal/packageNode.go b/astTraversal/packageNode.go
index 1c27973..b751012 100644
--- a/astTraversal/packageNode.go
+++ b/astTraversal/packageNode.go
@@ -19,6 +19,10 @@ type PackageNode struct {
 	// TypeDocMap is a map of type names to their documentation
 	// We cache this to save iterating over types every time we need to find the documentation
 	TypeDocMap map[string]string
+
+	// FieldDocMap is a map of the positions of the names of struct fields to their documentation
+	// We cache this for the same reason
+	FieldDocMap map[string]string
 }
 
 func (p *PackageNode) Path() string {
@@ -245,3 +249,39 @@ func (p *PackageNode) populateTypeDocMap() {
 		}
 	}
 }
+
+// FindDocForField finds the documentation for a field of a struct in the package.
+// The field can be of another load of the package, so it's found by the position of its name.
+func (p *PackageNode) FindDocForField(field *types.Var) (string, bool) {
+	if p.Package == nil {
+		return "", false
+	}
+
+	p.populateFieldDocMap()
+
+	doc, ok := p.FieldDocMap[p.Package.Fset.Position(field.Pos()).String()]
+	return doc, ok
+}
+
+// populateFieldDocMap populates the FieldDocMap for the package.
+func (p *PackageNode) populateFieldDocMap() {
+	// If the map is already populated, we don't need to do anything
+	if p.FieldDocMap != nil {
+		return
+	}
+
+	// Otherwise, we need to populate it
+	p.FieldDocMap = make(map[string]string)
+
+	for _, f := range p.Package.Syntax {
+		ast.Inspect(f, func(n ast.Node) bool {
+			if field, ok := n.(*ast.Field); ok && field.Doc != nil {
+				for _, name := range field.Names {
+					p.FieldDocMap[p.Package.Fset.Position(name.Pos()).String()] = field.Doc.Text()
+				}
+			}
+
+			return true
+		})
+	}
+}
diff --git a/astTraversal/type.go b/astTraversal/type.go
index 913fe45..81d44bf 100644
--- a/astTraversal/type.go
+++ b/astTraversal/type.go
@@ -212,15 +212,20 @@ func (t *TypeTraverser) Result() (Result, error) {
 				if err != nil {
 					return Result{}, err
 				}
+			}
 
-				pos := f.Pos()
+			// The field can be declared in another package than the struct, e.g. with type A b.B
+			if fieldPkg := f.Pkg(); fieldPkg != nil {
+				pkg := t.Traverser.Packages.FindOrAdd(fieldPkg.Path())
+				_, err = t.Traverser.Packages.Get(pkg)
+				if err != nil {
+					return Result{}, err
+				}
 
-				node, err := structFieldResult.Package.ASTAtPos(pos)
-				if err == nil && node != nil {
-					if field, ok := node.(*ast.Field); ok && len(field.Names) > 0 {
-						t.Traverser.Log.Debug().Str("field", field.Names[0].Name).Msg("Found doc for field")
-						structFieldResult.Doc = FormatDoc(field.Doc.Text())
-					}
+				doc, ok := pkg.FindDocForField(f)
+				if ok {
+					t.Traverser.Log.Debug().Str("field", name).Msg("Found doc for field")
+					structFieldResult.Doc = FormatDoc(doc)
 				}
 			}
 
-- 
2.43.0


From 99d00b6dbd213cdca8b359f568b00da4f3aae3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:12 +0000
Subject: [PATCH 48/48] fix: describe named collections and pointers of types
 of other packages

---
 astTraversal/type.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/astTraversal/type.go b/astTraversal/type.go
index 81d44bf..d8fcd19 100644
--- a/astTraversal/type.go
+++ b/astTraversal/type.go
@@ -123,6 +123,13 @@ func (t *TypeTraverser) Result() (Result, error) {
 					return Result{}, err
 				}
 
+				// A description has a single package, which is the one of the elements for slices, arrays and maps
+				// A type with elements of another package can't be a component of its own package, so we describe what it's made of instead
+				if namedUnderlyingResult.Package != pkg {
+					namedUnderlyingResult.Name = ""
+					return namedUnderlyingResult, nil
+				}
+
 				namedUnderlyingResult.Doc, err = t.Doc()
 				if err != nil {
 					return Result{}, err
@@ -140,7 +147,7 @@ func (t *TypeTraverser) Result() (Result, error) {
 			Package: pkg,
 		}
 	case *types.Pointer:
-		return t.Traverser.Type(n.Elem(), t.Package).Result()
+		return t.Traverser.Type(n.Elem(), t.Package).SetName(t.name).Result()
 	case *types.Slice:
 		sliceElemResult, err := t.Traverser.Type(n.Elem(), t.Package).Result()
 		if err != nil {
-- 
2.43.0

