From 8ac18a755f216b8451c9dc3ca2e5a116ab9dfa1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:31 +0000
Subject: [PATCH 01/27] fix: do not panic when the command line has no
 subcommand

'gowrap --' passes the argument count check but leaves flag.Args() empty,
so args[0] panicked instead of reporting a usage error.
---
 cmd/gowrap/gowrap.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/gowrap/gowrap.go b/cmd/gowrap/gowrap.go
index a59d991..2964628 100644
--- a/cmd/gowrap/gowrap.go
+++ b/cmd/gowrap/gowrap.go
@@ -32,6 +32,9 @@ func main() {
 
 	flag.Parse()
 	args := flag.Args()
+	if len(args) == 0 {
+		die(2, "Run 'gowrap help' for usage.")
+	}
 
 	if args[0] == "help" {
 		if err := help(args[1:], os.Stdout); err != nil {
-- 
2.43.0


From 401ade257595eefc98ae86331e8ba866d34e3521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:33 +0000
Subject: [PATCH 02/27] fix: print error messages verbatim

Error texts were used as format strings, so an error that mentions a percent
sign (a template URL, generated code) was printed garbled.
---
 cmd/gowrap/gowrap.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/gowrap/gowrap.go b/cmd/gowrap/gowrap.go
index 2964628..b467831 100644
--- a/cmd/gowrap/gowrap.go
+++ b/cmd/gowrap/gowrap.go
@@ -21,7 +21,7 @@ func init() {
 func main() {
 	if len(os.Args) < 2 {
 		if err := gowrap.Usage(os.Stderr); err != nil {
-			die(1, err.Error())
+			die(1, "%s", err.Error())
 		}
 		os.Exit(2)
 	}
@@ -38,7 +38,7 @@ func main() {
 
 	if args[0] == "help" {
 		if err := help(args[1:], os.Stdout); err != nil {
-			die(2, err.Error())
+			die(2, "%s", err.Error())
 		}
 		return
 	}
@@ -52,7 +52,7 @@ func main() {
 		if _, ok := err.(gowrap.CommandLineError); ok {
 			die(2, "%s\nRun 'gowrap help %s' for usage.\n", err.Error(), args[0])
 		}
-		die(1, err.Error())
+		die(1, "%s", err.Error())
 	}
 }
 
-- 
2.43.0


From 5593cc1f9da041d0ed963a776e497daecbbb59a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:55 +0000
Subject: [PATCH 03/27] fix: do not panic on methods with an empty result list

---
 generator/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/types.go b/generator/types.go
index 1fa0eee..629b229 100644
--- a/generator/types.go
+++ b/generator/types.go
@@ -90,7 +90,7 @@ func NewMethod(name string, fi *ast.Field, printer typePrinter, genericTypes gen
 	usedNames := map[string]bool{}
 
 	//Always name the last return parameter as an "err" if it's of type "error"
-	if f.Results != nil {
+	if f.Results != nil && len(f.Results.List) > 0 {
 		ident, ok := f.Results.List[len(f.Results.List)-1].Type.(*ast.Ident)
 		m.ReturnsError = ok && ident.Name == "error"
 		usedNames["err"] = true
-- 
2.43.0


From 745aff67bf79128e60cc0121c18a348a7bd22b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:57 +0000
Subject: [PATCH 04/27] fix: do not panic on function types used as interface
 type elements

---
 generator/generator.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/generator/generator.go b/generator/generator.go
index c94e826..6e9fc5c 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -559,6 +559,11 @@ func processInterface(it *ast.InterfaceType, targetInput targetProcessInput) (me
 
 		switch v := field.Type.(type) {
 		case *ast.FuncType:
+			if len(field.Names) == 0 {
+				//a function type that is used as a type element doesn't declare a method
+				continue
+			}
+
 			var method *Method
 
 			method, err = NewMethod(field.Names[0].Name, field, pr, targetInput.genericTypes, targetInput.genericParams)
-- 
2.43.0


From f6c6adb99e69fea0f50ff00d31f60d1fdef8193e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:00 +0000
Subject: [PATCH 05/27] fix: generate names for blank parameters and results

---
 generator/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/types.go b/generator/types.go
index 629b229..3dc0bcd 100644
--- a/generator/types.go
+++ b/generator/types.go
@@ -128,7 +128,7 @@ func NewMethod(name string, fi *ast.Field, printer typePrinter, genericTypes gen
 // NewParam returns Param struct
 func NewParam(name string, fi *ast.Field, usedNames map[string]bool, printer typePrinter, genericTypes genericTypes, genericParams genericParams) (*Param, error) {
 	typ := fi.Type
-	if name == "" || usedNames[name] {
+	if name == "" || name == "_" || usedNames[name] {
 		name = genName(typePrefix(typ), 1, usedNames)
 	}
 
-- 
2.43.0


From 813d975f1ebc1c2bf4b0e1f46fc0c2705e0ebb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:02 +0000
Subject: [PATCH 06/27] fix: do not cut multibyte type names in the middle of a
 rune

---
 generator/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/types.go b/generator/types.go
index 3dc0bcd..b27e0e4 100644
--- a/generator/types.go
+++ b/generator/types.go
@@ -212,7 +212,7 @@ func typePrefix(e ast.Expr) string {
 	case *ast.FuncType:
 		return "f"
 	case *ast.Ident:
-		return strings.ToLower(t.Name[0:1])
+		return strings.ToLower(string([]rune(t.Name)[:1]))
 	}
 
 	return "p"
-- 
2.43.0


From 5ea569f661c47eec853320f0065d02a8d3b4d886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:49 +0000
Subject: [PATCH 07/27] fix: do not drop methods of embedded error and
 interface literals

---
 generator/generator.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/generator/generator.go b/generator/generator.go
index 6e9fc5c..88526ec 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"go/ast"
 	"go/token"
+	"go/types"
 	"io"
 	"path/filepath"
 	"sort"
@@ -481,6 +482,12 @@ func getEmbeddedMethods(t ast.Expr, pr typePrinter, input targetProcessInput, ch
 	case *ast.Ident:
 		methods, err = processIdent(v, input, checkInterface)
 		return
+
+	case *ast.InterfaceType:
+		if checkInterface {
+			methods, err = processInterface(v, input)
+		}
+		return
 	}
 	return
 }
@@ -661,13 +668,32 @@ func processIdent(i *ast.Ident, input targetProcessInput, checkInterface bool) (
 	}
 
 	if embeddedInterface == nil {
-		return nil, nil
+		if !checkInterface {
+			return nil, nil
+		}
+
+		return predeclaredMethods(i.Name)
 	}
 
 	input.genericTypes = genericsTypes
 	return processInterface(embeddedInterface, input)
 }
 
+// predeclaredMethods returns methods of the predeclared type
+func predeclaredMethods(name string) (methodsList, error) {
+	if types.Universe.Lookup(name) == nil {
+		return nil, errors.Wrap(errTargetNotFound, name)
+	}
+
+	if name != "error" {
+		return nil, nil
+	}
+
+	return methodsList{
+		"Error": Method{Name: "Error", Results: ParamsSlice{{Name: "s1", Type: "string"}}},
+	}, nil
+}
+
 var errUnknownSelector = errors.New("unknown selector")
 
 func findImportPathForName(name string, imports []*ast.ImportSpec, currentPackage *packages.Package) (string, error) {
-- 
2.43.0


From 48c218ba1f1f1753fbd032b93e2fdbc80b9dfe46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:51 +0000
Subject: [PATCH 08/27] fix: resolve selectors using imports of the file with
 the interface

---
 generator/generator.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index 88526ec..6c65fd3 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -703,12 +703,24 @@ func findImportPathForName(name string, imports []*ast.ImportSpec, currentPackag
 		}
 	}
 
-	for path, pkg := range currentPackage.Imports {
-		if pkg.Name == name {
+	for _, i := range imports {
+		path := unquote(i.Path.Value)
+		if pkg, ok := currentPackage.Imports[path]; ok && i.Name == nil && pkg.Name == name {
 			return path, nil
 		}
 	}
 
+	var found string
+	for path, pkg := range currentPackage.Imports {
+		if pkg.Name == name && (found == "" || path < found) {
+			found = path
+		}
+	}
+
+	if found != "" {
+		return found, nil
+	}
+
 	return "", errors.Wrapf(errUnknownSelector, name)
 }
 
-- 
2.43.0


From d658e0d64df70bf594e0c3c1e137c08282e459c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:49 +0000
Subject: [PATCH 09/27] fix: find source package of the aliased type by its
 package name

---
 generator/generator.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/generator/generator.go b/generator/generator.go
index 6c65fd3..605c8fa 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -377,6 +377,13 @@ func findMethods(selectedType *ast.TypeSpec, input targetProcessInput) (methods
 			return
 		}
 		srcPackagePath := findSourcePackage(ident, input.imports)
+		if srcPackagePath == "" {
+			//the last element of the import path differs from the package name
+			srcPackagePath, err = findImportPathForName(ident.Name, input.imports, input.currentPackage)
+			if err != nil {
+				return nil, errors.Wrapf(err, "unable to find package %s", ident.Name)
+			}
+		}
 
 		return getMethods(t, srcPackagePath)
 	case *ast.Ident:
-- 
2.43.0


From d1f777ec7da79987125cd7dee6ef08afd3377dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:52 +0000
Subject: [PATCH 10/27] fix: substitute generic params in composite types

---
 generator/generator.go |  4 ++++
 generator/generics.go  | 43 +++++++++++++++++++++++++++++++++++++-----
 2 files changed, 42 insertions(+), 5 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index 605c8fa..39fb841 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -545,12 +545,16 @@ func processEmbedded(t ast.Expr, pr typePrinter, input targetProcessInput, check
 		x = v
 	}
 
+	outerParams := input.genericParams
 	input.genericParams = genericParams
 	genericParam, embeddedMethods, err = getEmbeddedMethods(x, pr, input, checkInterface)
 	if err != nil {
 		return
 	}
 
+	//params of the embedded generic interface may refer to the params of the embedding one
+	genericParam.Name = buildGenericParamsString(genericParam.Name, input.genericTypes, outerParams)
+
 	if hasGenericsParams {
 		genericParam.Params = genericParams
 	}
diff --git a/generator/generics.go b/generator/generics.go
index 7d22c27..a7fc4ee 100644
--- a/generator/generics.go
+++ b/generator/generics.go
@@ -2,6 +2,7 @@ package generator
 
 import (
 	"go/ast"
+	"go/parser"
 	"go/token"
 	"strings"
 )
@@ -151,17 +152,49 @@ func getPrefix(t *ast.Ident, allTypes []*ast.TypeSpec, typesPrefix string) (pref
 	return
 }
 
+// buildGenericParamsString replaces all references to the generic types with
+// the corresponding generic params
 func buildGenericParamsString(typeStr string, genericTypes genericTypes, genericParams genericParams) string {
+	args := map[string]string{}
 	i := 0
 	for _, genType := range genericTypes {
 		for _, name := range genType.Names {
-			if name == typeStr {
-				if len(genericParams) > i {
-					return genericParams[i].String()
-				}
+			if len(genericParams) > i {
+				args[name] = genericParams[i].String()
 			}
 			i++
 		}
 	}
-	return typeStr
+
+	expr, err := parser.ParseExpr(strings.TrimPrefix(typeStr, "..."))
+	if len(args) == 0 || err != nil {
+		return typeStr
+	}
+
+	//positions in the type that is parsed without a variadic prefix
+	offset := len(typeStr) - len(strings.TrimPrefix(typeStr, "...")) - int(token.Pos(1))
+
+	var result strings.Builder
+	last := 0
+
+	var visit func(n ast.Node) bool
+	visit = func(n ast.Node) bool {
+		switch t := n.(type) {
+		case *ast.SelectorExpr:
+			return false
+		case *ast.Field:
+			//names of the fields and methods are not types
+			ast.Inspect(t.Type, visit)
+			return false
+		case *ast.Ident:
+			if arg, ok := args[t.Name]; ok {
+				result.WriteString(typeStr[last:int(t.Pos())+offset] + arg)
+				last = int(t.End()) + offset
+			}
+		}
+		return true
+	}
+	ast.Inspect(expr, visit)
+
+	return result.String() + typeStr[last:]
 }
-- 
2.43.0


From 8287d894df6fbbaf85c79de283044a4d2ef4ef93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:29 +0000
Subject: [PATCH 11/27] fix: qualify types in parentheses and interface
 literals

---
 printer/printer.go | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/printer/printer.go b/printer/printer.go
index c98bf05..cdc4f5d 100644
--- a/printer/printer.go
+++ b/printer/printer.go
@@ -71,6 +71,10 @@ func (p *Printer) PrintType(node ast.Node) (string, error) {
 		return p.printGeneric(t)
 	case *ast.IndexListExpr:
 		return p.printGenericList(t)
+	case *ast.ParenExpr:
+		return p.printParen(t)
+	case *ast.InterfaceType:
+		return p.printInterface(t)
 	}
 
 	err := printer.Fprint(p.buf, p.fs, node)
@@ -192,6 +196,37 @@ func (p *Printer) printGenericList(pt *ast.IndexListExpr) (string, error) {
 	return baseStr, nil
 }
 
+func (p *Printer) printParen(pe *ast.ParenExpr) (string, error) {
+	t, err := p.PrintType(pe.X)
+	if err != nil {
+		return "", err
+	}
+
+	return "(" + t + ")", nil
+}
+
+func (p *Printer) printInterface(it *ast.InterfaceType) (string, error) {
+	if it.Methods == nil || len(it.Methods.List) == 0 {
+		return "interface{}", nil
+	}
+
+	elements := []string{}
+	for _, element := range it.Methods.List {
+		t, err := p.PrintType(element.Type)
+		if err != nil {
+			return "", err
+		}
+
+		if len(element.Names) > 0 {
+			t = element.Names[0].Name + strings.TrimPrefix(t, "func")
+		}
+
+		elements = append(elements, t)
+	}
+
+	return "interface{\n" + strings.Join(elements, "\n") + "\n}", nil
+}
+
 func (p *Printer) printPointer(pt *ast.StarExpr) (string, error) {
 	pointerTo, err := p.PrintType(pt.X)
 	if err != nil {
-- 
2.43.0


From 8f89daf7cd6733e2011181a98858cfad03db1b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:32 +0000
Subject: [PATCH 12/27] fix: do not drop tags of the struct literals

---
 printer/printer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/printer/printer.go b/printer/printer.go
index cdc4f5d..fe381a4 100644
--- a/printer/printer.go
+++ b/printer/printer.go
@@ -242,6 +242,12 @@ func (p *Printer) printStruct(s *ast.StructType) (string, error) {
 		return "", err
 	}
 
+	for i := range fields {
+		if tag := s.Fields.List[i].Tag; tag != nil {
+			fields[i] += " " + tag.Value
+		}
+	}
+
 	return "struct{\n" + strings.Join(fields, "\n") + "\n}", nil
 }
 
-- 
2.43.0


From f6b404d46213377908464747a611c9a917fc0f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:34 +0000
Subject: [PATCH 13/27] fix: do not treat HTTP URL of the template as a local
 path

---
 cmd_generate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd_generate.go b/cmd_generate.go
index 5ab5220..7aaa4c4 100644
--- a/cmd_generate.go
+++ b/cmd_generate.go
@@ -171,7 +171,7 @@ func (gc *GenerateCommand) loadTemplate(outputFileDir string) (contents, url str
 		return "", "", errors.Wrap(err, "failed to load template")
 	}
 
-	if !strings.HasPrefix(url, "https://") {
+	if !strings.HasPrefix(url, "https://") && !strings.HasPrefix(url, "http://") {
 		templatePath, err := gc.filepath.Abs(url)
 		if err != nil {
 			return "", "", err
-- 
2.43.0


From c303ae8f7e78da6e4d069a548d1c51e42a42b71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:37 +0000
Subject: [PATCH 14/27] fix: quote arguments of the go:generate directive

---
 cmd_generate.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/cmd_generate.go b/cmd_generate.go
index 7aaa4c4..8b3cfb1 100644
--- a/cmd_generate.go
+++ b/cmd_generate.go
@@ -8,6 +8,7 @@ import (
 	"os"
 	"path/filepath"
 	"regexp"
+	"strconv"
 	"strings"
 	"text/template"
 	"unicode"
@@ -130,7 +131,7 @@ func (gc *GenerateCommand) getOptions() (*generator.Options, error) {
 		HeaderTemplate: headerTemplate,
 		HeaderVars: map[string]interface{}{
 			"DisableGoGenerate": gc.noGenerate,
-			"OutputFileName":    filepath.Base(gc.outputFile),
+			"OutputFileName":    quoteArg(filepath.Base(gc.outputFile)),
 			"VarsArgs":          varsToArgs(gc.vars),
 		},
 		Vars:        gc.vars.toMap(),
@@ -255,15 +256,25 @@ func varsToArgs(v vars) string {
 	for _, vf := range v {
 		switch typedValue := vf.value.(type) {
 		case string:
-			ss = append(ss, vf.name+"="+typedValue)
+			ss = append(ss, quoteArg(vf.name+"="+typedValue))
 		case bool:
-			ss = append(ss, vf.name)
+			ss = append(ss, quoteArg(vf.name))
 		}
 	}
 
 	return " -v " + strings.Join(ss, " -v ")
 }
 
+// quoteArg quotes an argument of the go:generate directive if it can't be put there as is
+func quoteArg(arg string) string {
+	quoted := strconv.Quote(arg)
+	if strings.ContainsAny(arg, " \t") || quoted != `"`+arg+`"` {
+		return quoted
+	}
+
+	return arg
+}
+
 var helperFuncs template.FuncMap
 
 func init() {
-- 
2.43.0


From b643ad4e1006ae6abf6b115a76cd3739e549831e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:39 +0000
Subject: [PATCH 15/27] fix: do not panic on invalid UTF-8 in upFirst and
 downFirst

---
 cmd_generate.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/cmd_generate.go b/cmd_generate.go
index 8b3cfb1..912ce63 100644
--- a/cmd_generate.go
+++ b/cmd_generate.go
@@ -12,6 +12,7 @@ import (
 	"strings"
 	"text/template"
 	"unicode"
+	"unicode/utf8"
 
 	"github.com/Masterminds/sprig/v3"
 	"github.com/pkg/errors"
@@ -289,17 +290,19 @@ func init() {
 }
 
 func upFirst(s string) string {
-	for _, v := range s {
-		return string(unicode.ToUpper(v)) + s[len(string(v)):]
+	v, size := utf8.DecodeRuneInString(s)
+	if size == 0 {
+		return ""
 	}
-	return ""
+	return string(unicode.ToUpper(v)) + s[size:]
 }
 
 func downFirst(s string) string {
-	for _, v := range s {
-		return string(unicode.ToLower(v)) + s[len(string(v)):]
+	v, size := utf8.DecodeRuneInString(s)
+	if size == 0 {
+		return ""
 	}
-	return ""
+	return string(unicode.ToLower(v)) + s[size:]
 }
 
 var matchFirstCap = regexp.MustCompile("(.)([A-Z][a-z]+)")
-- 
2.43.0


From 2eb78e2e94a61df36c1fb46fd41d661c81447c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:42 +0000
Subject: [PATCH 16/27] fix: support named and blank entries in the Import
 function

---
 generator/generator.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index 39fb841..65af9e9 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -56,17 +56,17 @@ func (t TemplateInputs) Import(imports ...string) string {
 	}
 
 	for _, i := range imports {
+		i = strings.TrimSpace(i)
 		if len(i) == 0 {
 			continue
 		}
 
-		i = strings.TrimSpace(i)
-
 		if i[len(i)-1] != '"' {
 			i += `"`
 		}
 
-		if i[0] != '"' {
+		//named import has quotes on both sides of its path
+		if i[0] != '"' && strings.Count(i, `"`) < 2 {
 			i = `"` + i
 		}
 
-- 
2.43.0


From d6b6b6dc43c640488c92582b1228f3126c18a4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:45 +0000
Subject: [PATCH 17/27] fix: skip files excluded by the build constraints

---
 pkg/package.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pkg/package.go b/pkg/package.go
index 73f1548..6bd0935 100644
--- a/pkg/package.go
+++ b/pkg/package.go
@@ -5,6 +5,7 @@ import (
 	"go/ast"
 	"go/parser"
 	"go/token"
+	"io/fs"
 	"path/filepath"
 
 	"golang.org/x/tools/go/packages"
@@ -37,10 +38,20 @@ func Load(path string) (*packages.Package, error) {
 }
 
 // AST returns package's abstract syntax tree
-func AST(fs *token.FileSet, p *packages.Package) (*Package, error) {
+func AST(fset *token.FileSet, p *packages.Package) (*Package, error) {
 	dir := Dir(p)
 
-	pkgs, err := parser.ParseDir(fs, dir, nil, parser.DeclarationErrors|parser.ParseComments)
+	ignored := make(map[string]bool, len(p.IgnoredFiles))
+	for _, name := range p.IgnoredFiles {
+		ignored[filepath.Base(name)] = true
+	}
+
+	//files that are excluded by the build constraints don't belong to the package
+	filter := func(info fs.FileInfo) bool {
+		return !ignored[info.Name()]
+	}
+
+	pkgs, err := parser.ParseDir(fset, dir, filter, parser.DeclarationErrors|parser.ParseComments)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From cc1ed9e231ad73dedcd34134350654ca95a35ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:47 +0000
Subject: [PATCH 18/27] fix: do not drop composite constraints of the generic
 types

---
 generator/generics.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/generator/generics.go b/generator/generics.go
index a7fc4ee..8d3ecb0 100644
--- a/generator/generics.go
+++ b/generator/generics.go
@@ -4,7 +4,10 @@ import (
 	"go/ast"
 	"go/parser"
 	"go/token"
+	"go/types"
 	"strings"
+
+	"github.com/hexdigest/gowrap/printer"
 )
 
 const (
@@ -126,12 +129,17 @@ func parseGenericType(exprPart ast.Expr, allTypes []*ast.TypeSpec, typesPrefix s
 		part = expr.X.(*ast.Ident).Name + "." + expr.Sel.Name
 	case *ast.UnaryExpr:
 		if expr.Op == token.TILDE {
-			if id, ok := expr.X.(*ast.Ident); ok {
-				part = "~" + id.Name
-			}
+			part = "~" + parseGenericType(expr.X, allTypes, typesPrefix)
 		}
 	case *ast.BinaryExpr:
 		part = parseBinaryExpr(expr, allTypes, typesPrefix)
+	default:
+		var err error
+		part, err = printer.New(token.NewFileSet(), allTypes, typesPrefix).PrintType(expr)
+		if err != nil {
+			//constraint refers to the type that can't be used outside of its package
+			part = types.ExprString(expr)
+		}
 	}
 
 	return
-- 
2.43.0


From bdcb490316038157af273632c692fc311a6cdbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:25 +0000
Subject: [PATCH 19/27] fix: generate all methods in the elasticapm template

---
 templates/elasticapm | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/templates/elasticapm b/templates/elasticapm
index c29f78a..d971f2f 100644
--- a/templates/elasticapm
+++ b/templates/elasticapm
@@ -4,7 +4,7 @@ import (
 )
 
 {{ $decorator := (or .Vars.DecoratorName (printf "%sAPMTracing" .Interface.Name)) }}
-{{ $decorator_option := (or .Vars.DecoratorName (printf "%sAPMTracingOption" .Interface.Name)) }}
+{{ $decorator_option := (printf "%sOption" $decorator) }}
 {{ $component := (or .Vars.ComponentName (printf "%s" (down .Interface.Name))) }}
 
 // {{$decorator}} implements {{.Interface.Type}} interface with all methods wrapped
@@ -57,27 +57,25 @@ func New{{$decorator}}(base {{.Interface.Type}}, opts ...{{$decorator}}Option) {
 }
 
 {{range $method := .Interface.Methods}}
-  {{if $method.AcceptsContext}}
     {{ $span_name := (printf "%s.%s" $component $method.Name) }}
     // {{$method.Name}} implements {{$.Interface.Type}}
     func (_d {{$decorator}}) {{$method.Declaration}} {
         {{- if $method.AcceptsContext }}
-            span, ctx := _d.startSpan(ctx, "{{ $span_name }}", _d.spanType)
+            _span, ctx := _d.startSpan(ctx, "{{ $span_name }}", _d.spanType)
             defer func() {
                 {{- if $method.ReturnsError -}}
                     if err != nil {
                         _d.captureError(ctx, err)
                     }
                 {{- end }}
-                _d.endSpan(span)
+                _d.endSpan(_span)
             }()
             {{- range $param := $method.Params -}}
                 {{- if not (eq $param.Name "ctx") -}}
-                    _d.setLabel(span, "{{ (snake $param.Name) }}", {{ $param.Name }})
+                    _d.setLabel(_span, "{{ (snake $param.Name) }}", {{ $param.Name }})
                 {{- end}}
             {{ end }}
         {{ end }}
         {{$method.Pass "_d.base."}}
     }
-  {{end}}
 {{end}}
-- 
2.43.0


From 4c6f202cdfd89d3b9eea945c9fb41a999de2e659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:27 +0000
Subject: [PATCH 20/27] fix: do not lose results in the fallback template

---
 templates/fallback | 67 +++++++++++++++++++---------------------------
 1 file changed, 27 insertions(+), 40 deletions(-)

diff --git a/templates/fallback b/templates/fallback
index fbd321c..804eefc 100644
--- a/templates/fallback
+++ b/templates/fallback
@@ -23,8 +23,10 @@ func New{{$decorator}}(interval time.Duration, impls ...{{.Interface.Type}}) {{$
   // {{$method.Name}} implements {{$.Interface.Type}}
   func (_d {{$decorator}}) {{$method.Declaration}} {
       type _resultStruct {{$method.ResultsStruct}}
-      var _ch = make(chan _resultStruct, 0)
+      var _ch = make(chan _resultStruct, len(_d.implementations))
       var _next = make(chan struct{}, len(_d.implementations))
+      var _done = make(chan struct{})
+      defer close(_done)
       {{if $method.ReturnsError}}var _errorsList []string{{end}}
       var _ticker = time.NewTicker(_d.interval)
       defer _ticker.Stop()
@@ -44,63 +46,48 @@ func New{{$decorator}}(interval time.Duration, impls ...{{.Interface.Type}}) {{$
               }
             {{end}}
 
-            {{if $method.AcceptsContext}}
-              select {
-                case _ch <- _resultStruct{ {{$method.ResultsNames}} }:
-                case <-ctx.Done():
-              }
-            {{else}}
-              select {
-                case _ch <- _resultStruct{ {{$method.ResultsNames}} }:
-                default:
-              }
-            {{end}}
+            _ch <- _resultStruct{ {{$method.ResultsNames}} }
           }(_d.implementations[_i])
 
           if _i < len(_d.implementations) - 1 {
             select {
               case <-_next:
               case <-_ticker.C:
+              case <-_done:
+                return
             }
           }
         }
       }()
 
-        {{if $method.AcceptsContext}}
-          for {
-              select {
-              case {{if $method.HasResults}}_res := {{end}} <- _ch:
-                {{- if $method.ReturnsError}}
-                  if _res.err == nil {
-                    {{ $method.ReturnStruct "_res" }}
-                  }
-                  _next <- struct{}{}
-                  _errorsList = append(_errorsList, _res.err.Error())
-                  if len(_errorsList) == len(_d.implementations) {
-                    err =  errors.New(strings.Join(_errorsList, ";"))
-                    return
-                  }
-                {{else}}
-                  {{ $method.ReturnStruct "_res" }}
-                {{end -}}
-              {{if $method.AcceptsContext}}case <-ctx.Done():
-                {{if $method.ReturnsError}}
-                  err = fmt.Errorf("%w: %s", ctx.Err(), strings.Join(_errorsList, ";"))
-                {{end}}
-                return
-              {{end -}}
-              }
-          }
-        {{else}}
-          {{if $method.HasResults}}_res := {{end}} <- _ch
+      for {
+          {{- if $method.AcceptsContext}}
+            select {
+            case {{if $method.HasResults}}_res := {{end}} <- _ch:
+          {{- else}}
+            {{if $method.HasResults}}_res := {{end}} <- _ch
+          {{- end}}
           {{- if $method.ReturnsError}}
             if _res.err == nil {
               {{ $method.ReturnStruct "_res" }}
             }
+            _next <- struct{}{}
             _errorsList = append(_errorsList, _res.err.Error())
+            if len(_errorsList) == len(_d.implementations) {
+              err =  errors.New(strings.Join(_errorsList, ";"))
+              return
+            }
           {{else}}
             {{ $method.ReturnStruct "_res" }}
           {{end -}}
-        {{end}}
+          {{if $method.AcceptsContext}}
+            case <-ctx.Done():
+              {{if $method.ReturnsError}}
+                err = fmt.Errorf("%w: %s", ctx.Err(), strings.Join(_errorsList, ";"))
+              {{end}}
+              return
+            }
+          {{end -}}
+      }
   }
 {{end}}
-- 
2.43.0


From 8ca25caad499dd12deaa80239d7e267d585df8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:52 +0000
Subject: [PATCH 21/27] fix: qualify constants that declare length of an array

---
 printer/printer.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/printer/printer.go b/printer/printer.go
index fe381a4..384987e 100644
--- a/printer/printer.go
+++ b/printer/printer.go
@@ -81,6 +81,8 @@ func (p *Printer) PrintType(node ast.Node) (string, error) {
 	return p.buf.String(), err
 }
 
+var errUnexportedConstant = errors.New("unexported constant")
+
 func (p *Printer) printArray(a *ast.ArrayType) (string, error) {
 	sliceType, err := p.PrintType(a.Elt)
 	if err != nil {
@@ -92,6 +94,14 @@ func (p *Printer) printArray(a *ast.ArrayType) (string, error) {
 		return "", err
 	}
 
+	//length of the array refers to a constant declared in the source package
+	if c, ok := a.Len.(*ast.Ident); ok && len(p.typesPrefix) > 0 {
+		if !c.IsExported() {
+			return "", errors.Wrap(errUnexportedConstant, c.Name)
+		}
+		l = p.typesPrefix + "." + l
+	}
+
 	return "[" + l + "]" + sliceType, nil
 }
 
-- 
2.43.0


From 565883817985b41d82f4f078488249bb41b2908f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:27 +0000
Subject: [PATCH 22/27] fix: prefer package names to import paths when
 resolving aliased types

---
 generator/generator.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index 65af9e9..854d745 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -376,9 +376,11 @@ func findMethods(selectedType *ast.TypeSpec, input targetProcessInput) (methods
 		if !ok {
 			return
 		}
-		srcPackagePath := findSourcePackage(ident, input.imports)
-		if srcPackagePath == "" {
-			//the last element of the import path differs from the package name
+		var srcPackagePath string
+		if input.currentPackage == nil {
+			srcPackagePath = findSourcePackage(ident, input.imports)
+		} else {
+			//the last element of the import path may differ from the package name
 			srcPackagePath, err = findImportPathForName(ident.Name, input.imports, input.currentPackage)
 			if err != nil {
 				return nil, errors.Wrapf(err, "unable to find package %s", ident.Name)
-- 
2.43.0


From a84035c682fdef2f5e492733294bacd5660a6421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:15 +0000
Subject: [PATCH 23/27] fix: strip back quotes of raw string import paths

---
 generator/generator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index 854d745..7e41617 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -738,11 +738,11 @@ func findImportPathForName(name string, imports []*ast.ImportSpec, currentPackag
 }
 
 func unquote(s string) string {
-	if s[0] == '"' {
+	if s[0] == '"' || s[0] == '`' {
 		s = s[1:]
 	}
 
-	if s[len(s)-1] == '"' {
+	if s[len(s)-1] == '"' || s[len(s)-1] == '`' {
 		s = s[0 : len(s)-1]
 	}
 
-- 
2.43.0


From 99c6a55a4d37706d61a1e7f2ebdaa86f70b592c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:10 +0000
Subject: [PATCH 24/27] fix: report failures to print in the template command

---
 cmd_template.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/cmd_template.go b/cmd_template.go
index e67ddb8..ff2f8c5 100644
--- a/cmd_template.go
+++ b/cmd_template.go
@@ -72,9 +72,14 @@ func (gc *TemplateCommand) list(w io.Writer) error {
 		return errNoTemplatesFound
 	}
 
-	fmt.Fprintln(w, "List of available remote templates:")
+	if _, err := fmt.Fprintln(w, "List of available remote templates:"); err != nil {
+		return err
+	}
+
 	for _, t := range templates {
-		fmt.Fprintf(w, "  %s\n", t)
+		if _, err := fmt.Fprintf(w, "  %s\n", t); err != nil {
+			return err
+		}
 	}
 
 	return nil
@@ -96,6 +101,6 @@ func (gc *TemplateCommand) fetch(w io.Writer, wf writeFileFunc, args []string) e
 		return err
 	}
 
-	fmt.Fprintf(w, "successfully copied from %s\n", url)
-	return nil
+	_, err = fmt.Fprintf(w, "successfully copied from %s\n", url)
+	return err
 }
-- 
2.43.0


From f25555f6ed1779f74609c0d864eff5fe4da5c713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:51 +0000
Subject: [PATCH 25/27] fix: quote the template in the go:generate directive
 and keep dollar signs in its arguments

---
 cmd_generate.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/cmd_generate.go b/cmd_generate.go
index 912ce63..059fcbb 100644
--- a/cmd_generate.go
+++ b/cmd_generate.go
@@ -155,7 +155,11 @@ func (gc *GenerateCommand) getOptions() (*generator.Options, error) {
 
 	options.SourcePackage = sourcePackage.PkgPath
 	options.SourcePackageInstance = sourcePackage // Pass the loaded package
-	options.BodyTemplate, options.HeaderVars["Template"], err = gc.loadTemplate(outputFileDir)
+
+	body, url, err := gc.loadTemplate(outputFileDir)
+	options.BodyTemplate = body
+	options.HeaderVars["Template"] = url
+	options.HeaderVars["TemplateArg"] = quoteArg(url)
 
 	return &options, err
 }
@@ -268,8 +272,11 @@ func varsToArgs(v vars) string {
 
 // quoteArg quotes an argument of the go:generate directive if it can't be put there as is
 func quoteArg(arg string) string {
+	//go generate substitutes environment variables even in quoted arguments
+	arg = strings.ReplaceAll(arg, "$", "${DOLLAR}")
+
 	quoted := strconv.Quote(arg)
-	if strings.ContainsAny(arg, " \t") || quoted != `"`+arg+`"` {
+	if arg == "" || strings.ContainsAny(arg, " \t") || quoted != `"`+arg+`"` {
 		return quoted
 	}
 
@@ -321,7 +328,7 @@ const headerTemplate = `// Code generated by gowrap. DO NOT EDIT.
 package {{.Package.Name}}
 
 {{if (not .Options.HeaderVars.DisableGoGenerate)}}
-//{{"go:generate"}} gowrap gen -p {{.SourcePackage.PkgPath}} -i {{.Options.InterfaceName}} -t {{.Options.HeaderVars.Template}} -o {{.Options.HeaderVars.OutputFileName}}{{.Options.HeaderVars.VarsArgs}} -l "{{.Options.LocalPrefix}}"
+//{{"go:generate"}} gowrap gen -p {{.SourcePackage.PkgPath}} -i {{.Options.InterfaceName}} -t {{.Options.HeaderVars.TemplateArg}} -o {{.Options.HeaderVars.OutputFileName}}{{.Options.HeaderVars.VarsArgs}} -l {{printf "%q" .Options.LocalPrefix}}
 {{end}}
 import(
 {{range $import := .Options.Imports}}{{$import}}
-- 
2.43.0


From 7699a51724b5d1f2c904367363735014ca453d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:46 +0000
Subject: [PATCH 26/27] fix: report the same unexported method every time

---
 generator/generator.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/generator/generator.go b/generator/generator.go
index 7e41617..ab1b8b7 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -239,12 +239,19 @@ func NewGenerator(options Options) (*Generator, error) {
 		return nil, errEmptyInterface
 	}
 
+	var unexported []string
 	for _, m := range output.methods {
 		if srcPackageAST.Name != "" && []rune(m.Name)[0] == []rune(strings.ToLower(m.Name))[0] {
-			return nil, errors.Wrap(errUnexportedMethod, m.Name)
+			unexported = append(unexported, m.Name)
 		}
 	}
 
+	if len(unexported) > 0 {
+		//methods come in random order
+		sort.Strings(unexported)
+		return nil, errors.Wrap(errUnexportedMethod, unexported[0])
+	}
+
 	options.Imports = append(options.Imports, makeImports(output.imports)...)
 
 	genericTypes, genericParams := output.genericTypes.buildVars()
-- 
2.43.0


From cec0073bc39755b609366c7c3df163f77c486d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:43 +0000
Subject: [PATCH 27/27] fix: resolve selectors of an embedded interface through
 the imports of its own file

---
 generator/generator.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/generator/generator.go b/generator/generator.go
index ab1b8b7..00c4955 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -676,6 +676,7 @@ func processIdent(i *ast.Ident, input targetProcessInput, checkInterface bool) (
 			embeddedInterface, ok = t.Type.(*ast.InterfaceType)
 			if ok {
 				genericsTypes = buildGenericTypesFromSpec(t, input.types, input.typesPrefix)
+				input.imports = declarationImports(t, input)
 				break
 			}
 
@@ -699,6 +700,27 @@ func processIdent(i *ast.Ident, input targetProcessInput, checkInterface bool) (
 	return processInterface(embeddedInterface, input)
 }
 
+// declarationImports returns imports of the file the type is declared in
+func declarationImports(t *ast.TypeSpec, input targetProcessInput) []*ast.ImportSpec {
+	if input.astPackage == nil {
+		return input.imports
+	}
+
+	for _, f := range input.astPackage.Files {
+		if f == nil {
+			continue
+		}
+
+		for _, ts := range typeSpecs(f) {
+			if ts == t {
+				return f.Imports
+			}
+		}
+	}
+
+	return input.imports
+}
+
 // predeclaredMethods returns methods of the predeclared type
 func predeclaredMethods(name string) (methodsList, error) {
 	if types.Universe.Lookup(name) == nil {
-- 
2.43.0

