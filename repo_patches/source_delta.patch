From c857f933bf830a3560cdf9b549bc8675f22a801b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:17 +0000
Subject: [PATCH 01/18] fix: report the error of closing a generated file

WriteGoFiles discarded the error returned by Close, so a write error that
the destination reports only when it is closed was taken for success.
---
 model.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/model.go b/model.go
index 9dc510d..67142a1 100644
--- a/model.go
+++ b/model.go
@@ -231,8 +231,14 @@ func WriteGoFiles(outFn func(path string) (io.WriteCloser, error), files ...*GoF
 		if err != nil {
 			return err
 		}
-		err = func() error {
-			defer w.Close()
+		err = func() (err error) {
+			defer func() {
+				// buffered or delayed write errors may not be reported until the
+				// writer is closed
+				if closeErr := w.Close(); err == nil {
+					err = closeErr
+				}
+			}()
 			return WriteGoFile(w, file)
 		}()
 		if err != nil {
-- 
2.43.0


From df57a956afacdef7896e6c103d43ff9b8cdb668c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:18 +0000
Subject: [PATCH 02/18] fix: write to the first GOPATH entry instead of always
 failing

The check for an empty list was inverted, so WriteGoFilesToGoPath returned
an error for every value of GOPATH.
---
 model.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/model.go b/model.go
index 67142a1..96b9a8e 100644
--- a/model.go
+++ b/model.go
@@ -267,12 +267,8 @@ func WriteGoFilesToFileSystem(rootDir string, files ...*GoFile) error {
 // therein as the root directory for where files are to be written. If the
 // GOPATH environment variable is empty or unset, an error is returned.
 func WriteGoFilesToGoPath(files ...*GoFile) error {
-	gopath := os.Getenv("GOPATH")
-	if gopath == "" {
-		return errors.New("GOPATH is empty")
-	}
-	paths := strings.Split(gopath, string(filepath.ListSeparator))
-	if len(paths) != 0 {
+	paths := filepath.SplitList(os.Getenv("GOPATH"))
+	if len(paths) == 0 || paths[0] == "" {
 		return errors.New("GOPATH is empty")
 	}
 	return WriteGoFilesToFileSystem(paths[0], files...)
-- 
2.43.0


From bdd366d4ae7275cd722b238a6118e80366d046f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:53 +0000
Subject: [PATCH 03/18] fix: visit map-valued template data in a fixed order

Packages get their names and aliases in the order in which they are first
encountered, so visiting the entries of a map in Go's random order gave the
same program different output from one execution to the next.
---
 templates.go | 95 +++++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 94 insertions(+), 1 deletion(-)

diff --git a/templates.go b/templates.go
index c0f8302..415d9ac 100644
--- a/templates.go
+++ b/templates.go
@@ -3,6 +3,8 @@ package gopoet
 import (
 	"go/types"
 	"reflect"
+	"sort"
+	"strings"
 )
 
 func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, bool) {
@@ -205,7 +207,7 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 	case reflect.Map:
 		var newMap reflect.Value
 		seenKeys := make([]reflect.Value, 0, data.Len())
-		for _, k := range data.MapKeys() {
+		for _, k := range sortedMapKeys(data) {
 			newK, changedK := qualifyTemplateData(imports, k)
 			newV, changedV := qualifyTemplateData(imports, data.MapIndex(k))
 			if newMap.IsValid() {
@@ -228,3 +230,94 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 
 	return data, false
 }
+
+// sortedMapKeys returns the keys of the given map in an order that depends only
+// on their values. The order matters because packages get their names and
+// aliases in the order in which they are first encountered.
+func sortedMapKeys(data reflect.Value) []reflect.Value {
+	keys := data.MapKeys()
+	sort.SliceStable(keys, func(i, j int) bool {
+		return compareValues(keys[i], keys[j], 0) < 0
+	})
+	return keys
+}
+
+// maxCompareDepth bounds how far compareValues follows nested values, so that
+// it terminates for cyclic ones.
+const maxCompareDepth = 32
+
+// compareValues returns a negative number, zero, or a positive number depending
+// on whether a orders before, the same as, or after b, which must have the same
+// type. Pointers are ordered by what they point to, not by their addresses.
+func compareValues(a, b reflect.Value, depth int) int {
+	if depth > maxCompareDepth {
+		return 0
+	}
+	switch a.Kind() {
+	case reflect.Bool:
+		if a.Bool() != b.Bool() {
+			return compareOrdered(b.Bool(), a.Bool())
+		}
+
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		return compareOrdered(a.Int() < b.Int(), a.Int() > b.Int())
+
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
+		return compareOrdered(a.Uint() < b.Uint(), a.Uint() > b.Uint())
+
+	case reflect.Float32, reflect.Float64:
+		return compareOrdered(a.Float() < b.Float(), a.Float() > b.Float())
+
+	case reflect.Complex64, reflect.Complex128:
+		ca, cb := a.Complex(), b.Complex()
+		if c := compareOrdered(real(ca) < real(cb), real(ca) > real(cb)); c != 0 {
+			return c
+		}
+		return compareOrdered(imag(ca) < imag(cb), imag(ca) > imag(cb))
+
+	case reflect.String:
+		return strings.Compare(a.String(), b.String())
+
+	case reflect.Interface, reflect.Ptr:
+		if a.IsNil() || b.IsNil() {
+			return compareOrdered(a.IsNil() && !b.IsNil(), !a.IsNil() && b.IsNil())
+		}
+		ea, eb := a.Elem(), b.Elem()
+		if ta, tb := ea.Type(), eb.Type(); ta != tb {
+			if c := strings.Compare(ta.String(), tb.String()); c != 0 {
+				return c
+			}
+			return strings.Compare(ta.PkgPath(), tb.PkgPath())
+		}
+		if a.Kind() == reflect.Ptr && a.Pointer() == b.Pointer() {
+			return 0
+		}
+		return compareValues(ea, eb, depth+1)
+
+	case reflect.Struct:
+		for i := 0; i < a.NumField(); i++ {
+			if c := compareValues(a.Field(i), b.Field(i), depth+1); c != 0 {
+				return c
+			}
+		}
+
+	case reflect.Array, reflect.Slice:
+		for i := 0; i < a.Len() && i < b.Len(); i++ {
+			if c := compareValues(a.Index(i), b.Index(i), depth+1); c != 0 {
+				return c
+			}
+		}
+		return compareOrdered(a.Len() < b.Len(), a.Len() > b.Len())
+	}
+	return 0
+}
+
+func compareOrdered(less, greater bool) int {
+	if less {
+		return -1
+	}
+	if greater {
+		return 1
+	}
+	return 0
+}
-- 
2.43.0


From 0999b8585286bbc2f4b162e06ebab4d19b3a654c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:04 +0000
Subject: [PATCH 04/18] fix: do not modify a file's elements while rendering it

Qualification rewrote code block arguments, template data, types and
signatures in place. Code blocks, types and declarations can be shared with or
referenced from other files, so one file's aliases leaked into another file,
later renderings registered aliases as imports, and files could not be rendered
concurrently. Qualification now returns copies that are used for one rendering.
---
 code.go  | 21 ++++++++-----
 model.go | 91 +++++++++++++++++++++++++++++++++++---------------------
 2 files changed, 71 insertions(+), 41 deletions(-)

diff --git a/code.go b/code.go
index 672132a..73ca839 100644
--- a/code.go
+++ b/code.go
@@ -29,7 +29,9 @@ type CodeBlock struct {
 type codeElement interface {
 	isCodeElement()
 	writeTo(b *bytes.Buffer)
-	qualify(imports *Imports)
+	// qualify returns a copy of this element in which all references are
+	// qualified for a file with the given imports.
+	qualify(imports *Imports) codeElement
 }
 
 // Print adds the given text to the code block. It returns the code block, for
@@ -109,10 +111,12 @@ func RenderCode(template *template.Template, data interface{}) *CodeBlock {
 	return (&CodeBlock{}).RenderCode(template, data)
 }
 
-func (cb *CodeBlock) qualify(imports *Imports) {
-	for _, e := range cb.elements {
-		e.qualify(imports)
+func (cb *CodeBlock) qualify(imports *Imports) *CodeBlock {
+	ret := &CodeBlock{elements: make([]codeElement, len(cb.elements))}
+	for i, e := range cb.elements {
+		ret.elements[i] = e.qualify(imports)
 	}
+	return ret
 }
 
 func (cb *CodeBlock) writeTo(b *bytes.Buffer) {
@@ -134,7 +138,9 @@ func (l line) writeTo(b *bytes.Buffer) {
 	fmt.Fprintf(b, l.format, l.args...)
 }
 
-func (l line) qualify(imports *Imports) {
+func (l line) qualify(imports *Imports) codeElement {
+	// the code block may be shared with other files, so leave its args alone
+	l.args = append([]interface{}(nil), l.args...)
 	for i := range l.args {
 		switch a := l.args[i].(type) {
 		case Package:
@@ -212,6 +218,7 @@ func (l line) qualify(imports *Imports) {
 			l.args[i] = imports.registerPackage(p)
 		}
 	}
+	return l
 }
 
 // templ represents a template and data value, which will be rendered to a code
@@ -230,6 +237,6 @@ func (t *templ) writeTo(b *bytes.Buffer) {
 	}
 }
 
-func (t *templ) qualify(imports *Imports) {
-	t.data = imports.QualifyTemplateData(t.data)
+func (t *templ) qualify(imports *Imports) codeElement {
+	return &templ{templ: t.templ, data: imports.QualifyTemplateData(t.data)}
 }
diff --git a/model.go b/model.go
index 96b9a8e..ddcbbdd 100644
--- a/model.go
+++ b/model.go
@@ -194,14 +194,17 @@ func (e *FormatError) Error() string {
 //
 // The formatted code is then written to the given io.Writer.
 func WriteGoFile(w io.Writer, f *GoFile) error {
-	// make sure all package references are properly qualified for
+	// make sure all package references are properly qualified for this file,
+	// in copies of the elements: the originals may be shared with or referenced
+	// from other files
+	elements := make([]FileElement, len(f.elements))
 	for i := range f.elements {
-		f.elements[i].qualify(&f.Imports)
+		elements[i] = f.elements[i].qualify(&f.Imports)
 	}
 
 	// now we generate the code
 	var buf bytes.Buffer
-	if err := f.writeTo(&buf); err != nil {
+	if err := f.writeTo(&buf, elements); err != nil {
 		return err
 	}
 	// format it
@@ -342,7 +345,7 @@ func (f *GoFile) Package() Package {
 	}
 }
 
-func (f *GoFile) writeTo(w *bytes.Buffer) error {
+func (f *GoFile) writeTo(w *bytes.Buffer, elements []FileElement) error {
 	writeComment(f.FileComment, w)
 	if f.FileComment != "" {
 		// separate file comment from package doc
@@ -368,7 +371,7 @@ func (f *GoFile) writeTo(w *bytes.Buffer) error {
 	}
 
 	// now we print all of the file elements
-	for _, el := range f.elements {
+	for _, el := range elements {
 		w.WriteRune('\n')
 		el.writeTo(w)
 	}
@@ -393,7 +396,9 @@ type FileElement interface {
 	isFileElement()
 	writeTo(b *bytes.Buffer)
 	setParent(*GoFile)
-	qualify(imports *Imports)
+	// qualify returns a copy of this element in which all references are
+	// qualified for a file with the given imports.
+	qualify(imports *Imports) FileElement
 }
 
 // ConstDecl is a FileElement representing a declaration of one or more consts.
@@ -473,13 +478,17 @@ func (c *ConstDecl) setParent(f *GoFile) {
 	}
 }
 
-func (c *ConstDecl) qualify(imports *Imports) {
-	for _, cs := range c.Consts {
+func (c *ConstDecl) qualify(imports *Imports) FileElement {
+	ret := &ConstDecl{Comment: c.Comment, Consts: make([]*ConstSpec, len(c.Consts))}
+	for i, orig := range c.Consts {
+		cs := *orig
 		cs.Type = qualifyType(imports, cs.Type)
 		if cs.Initializer != nil {
-			cs.Initializer.qualify(imports)
+			cs.Initializer = cs.Initializer.qualify(imports)
 		}
+		ret.Consts[i] = &cs
 	}
+	return ret
 }
 
 func qualifyType(imports *Imports, t TypeNameOrSpec) TypeNameOrSpec {
@@ -489,8 +498,7 @@ func qualifyType(imports *Imports, t TypeNameOrSpec) TypeNameOrSpec {
 	case TypeName:
 		return imports.EnsureTypeImported(t)
 	case *TypeSpec:
-		t.qualify(imports)
-		return t
+		return t.qualify(imports)
 	default:
 		panic(fmt.Sprintf("unrecognized type %T", t))
 	}
@@ -709,13 +717,17 @@ func (v *VarDecl) setParent(f *GoFile) {
 	}
 }
 
-func (v *VarDecl) qualify(imports *Imports) {
-	for _, vs := range v.Vars {
+func (v *VarDecl) qualify(imports *Imports) FileElement {
+	ret := &VarDecl{Comment: v.Comment, Vars: make([]*VarSpec, len(v.Vars))}
+	for i, orig := range v.Vars {
+		vs := *orig
 		vs.Type = qualifyType(imports, vs.Type)
 		if vs.Initializer != nil {
-			vs.Initializer.qualify(imports)
+			vs.Initializer = vs.Initializer.qualify(imports)
 		}
+		ret.Vars[i] = &vs
 	}
+	return ret
 }
 
 // VarSpec describes a single var expression (which can actually identify more
@@ -915,10 +927,12 @@ func (t *TypeDecl) setParent(f *GoFile) {
 	}
 }
 
-func (t *TypeDecl) qualify(imports *Imports) {
-	for _, ts := range t.Types {
-		ts.qualify(imports)
+func (t *TypeDecl) qualify(imports *Imports) FileElement {
+	ret := &TypeDecl{Comment: t.Comment, Types: make([]*TypeSpec, len(t.Types))}
+	for i, ts := range t.Types {
+		ret.Types[i] = ts.qualify(imports)
 	}
+	return ret
 }
 
 // TypeSpec describes a single type. The underlying type is not optional and not
@@ -1127,19 +1141,29 @@ func (t *TypeSpec) setParent(f *GoFile) {
 
 func (t *TypeSpec) isTypeNameOrSpec() {}
 
-func (t *TypeSpec) qualify(imports *Imports) {
-	t.underlying = imports.EnsureTypeImported(t.underlying)
-	for _, fs := range t.structBody {
-		switch t := fs.Type.(type) {
-		case TypeName:
-			fs.Type = imports.EnsureTypeImported(t)
-		case *TypeSpec:
-			t.qualify(imports)
+func (t *TypeSpec) qualify(imports *Imports) *TypeSpec {
+	ret := *t
+	ret.underlying = imports.EnsureTypeImported(t.underlying)
+	ret.structBody = make([]*FieldSpec, len(t.structBody))
+	for i, orig := range t.structBody {
+		fs := *orig
+		fs.Type = qualifyType(imports, fs.Type)
+		ret.structBody[i] = &fs
+	}
+	ret.interfaceBody = make([]InterfaceElement, len(t.interfaceBody))
+	for i, orig := range t.interfaceBody {
+		switch orig := orig.(type) {
+		case *InterfaceEmbed:
+			ie := *orig
+			ie.qualify(imports)
+			ret.interfaceBody[i] = &ie
+		case *InterfaceMethod:
+			ie := *orig
+			ie.qualify(imports)
+			ret.interfaceBody[i] = &ie
 		}
 	}
-	for _, ie := range t.interfaceBody {
-		ie.qualify(imports)
-	}
+	return &ret
 }
 
 func (t *TypeSpec) writeTo(b *bytes.Buffer, includeComment bool) {
@@ -1627,12 +1651,11 @@ func (f *FuncSpec) setParent(file *GoFile) {
 	f.parent = file
 }
 
-func (f *FuncSpec) qualify(imports *Imports) {
-	newSig := imports.EnsureAllTypesImported(&f.Signature)
-	if newSig != &f.Signature {
-		f.Signature = *newSig
-	}
-	f.CodeBlock.qualify(imports)
+func (f *FuncSpec) qualify(imports *Imports) FileElement {
+	ret := *f
+	ret.Signature = *imports.EnsureAllTypesImported(&f.Signature)
+	ret.CodeBlock = *f.CodeBlock.qualify(imports)
+	return &ret
 }
 
 // ReceiverSpec describes the receiver for a method definition. Unlike an
-- 
2.43.0


From c5823cb7730c1612271995971ee72da915c4baee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:23 +0000
Subject: [PATCH 05/18] fix: qualify a named type spec that is used as a type

A named *TypeSpec as the type of a const, var or field was rendered with its
own package's name even in that package, and in other packages neither imported
nor aliased its package; instead the packages its definition refers to were
imported.
---
 model.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/model.go b/model.go
index ddcbbdd..34d5b68 100644
--- a/model.go
+++ b/model.go
@@ -498,6 +498,10 @@ func qualifyType(imports *Imports, t TypeNameOrSpec) TypeNameOrSpec {
 	case TypeName:
 		return imports.EnsureTypeImported(t)
 	case *TypeSpec:
+		if t.Name != "" && t.parent != nil {
+			// a reference to a named type, not its definition
+			return imports.EnsureTypeImported(t.ToTypeName())
+		}
 		return t.qualify(imports)
 	default:
 		panic(fmt.Sprintf("unrecognized type %T", t))
-- 
2.43.0


From 62e46c731aee533d9511d37ef0bf4573aacd4909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:03 +0000
Subject: [PATCH 06/18] fix: render a method argument the same way whatever its
 package is called

A *FuncSpec or *types.Func for a method, or an *InterfaceMethod, was only
replaced with a method reference if its package had to be renamed. Otherwise
the bare method name, or the description of the *types.Func, was rendered.
---
 code.go | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/code.go b/code.go
index 73ca839..3a048db 100644
--- a/code.go
+++ b/code.go
@@ -182,9 +182,7 @@ func (l line) qualify(imports *Imports) codeElement {
 		case *InterfaceMethod:
 			mr := a.ToMethodRef()
 			sym := imports.EnsureImported(mr.Type)
-			if sym != mr.Type {
-				l.args[i] = &MethodReference{Type: sym, Method: mr.Method}
-			}
+			l.args[i] = &MethodReference{Type: sym, Method: mr.Method}
 		case *FuncSpec:
 			symOrMr := a.ToSymbol()
 			switch sm := symOrMr.(type) {
@@ -192,9 +190,7 @@ func (l line) qualify(imports *Imports) codeElement {
 				l.args[i] = imports.EnsureImported(sm)
 			case MethodReference:
 				sym := imports.EnsureImported(sm.Type)
-				if sym != sm.Type {
-					l.args[i] = &MethodReference{Type: sym, Method: sm.Method}
-				}
+				l.args[i] = &MethodReference{Type: sym, Method: sm.Method}
 			}
 		case reflect.Type:
 			t := TypeNameForReflectType(a)
@@ -209,9 +205,7 @@ func (l line) qualify(imports *Imports) codeElement {
 				l.args[i] = imports.EnsureImported(sm)
 			case MethodReference:
 				sym := imports.EnsureImported(sm.Type)
-				if sym != sm.Type {
-					l.args[i] = &MethodReference{Type: sym, Method: sm.Method}
-				}
+				l.args[i] = &MethodReference{Type: sym, Method: sm.Method}
 			}
 		case *types.Package:
 			p := PackageForGoType(a)
-- 
2.43.0


From 1dc33b4830256dcd7eeaea97aa5b4389df216632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:04 +0000
Subject: [PATCH 07/18] fix: always replace go/types and reflect values in
 template data

They were left alone if no package had to be renamed, so the template rendered
their own string form, such as "type pkg.T struct{}" or "pkg.T" in pkg
itself, which is not a valid reference in the generated file.
---
 templates.go | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/templates.go b/templates.go
index 415d9ac..c167202 100644
--- a/templates.go
+++ b/templates.go
@@ -20,37 +20,29 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 					newRv = reflect.ValueOf(newT)
 				}
 			case reflect.Type:
+				// always replaced, even if no package needs to be renamed: the
+				// string form of d is not valid in the file being rendered
 				origT := TypeNameForReflectType(d)
 				newT := imports.EnsureTypeImported(origT)
-				if newT != origT {
-					newRv = reflect.ValueOf(newT)
-				}
+				newRv = reflect.ValueOf(newT)
 			case types.Type:
 				origT := TypeNameForGoType(d)
 				newT := imports.EnsureTypeImported(origT)
-				if newT != origT {
-					newRv = reflect.ValueOf(newT)
-				}
+				newRv = reflect.ValueOf(newT)
 			case types.Object:
 				sym := SymbolForGoObject(d)
 				switch sym := sym.(type) {
 				case Symbol:
 					newSym := imports.EnsureImported(sym)
-					if newSym != sym {
-						newRv = reflect.ValueOf(newSym)
-					}
+					newRv = reflect.ValueOf(newSym)
 				case MethodReference:
 					newSym := imports.EnsureImported(sym.Type)
-					if newSym != sym.Type {
-						newRv = reflect.ValueOf(&MethodReference{Type: newSym, Method: sym.Method})
-					}
+					newRv = reflect.ValueOf(&MethodReference{Type: newSym, Method: sym.Method})
 				}
 			case *types.Package:
 				origP := PackageForGoType(d)
 				newP := imports.registerPackage(origP)
-				if newP != origP.Name {
-					newRv = reflect.ValueOf(Package{Name: newP, ImportPath: origP.ImportPath})
-				}
+				newRv = reflect.ValueOf(Package{Name: newP, ImportPath: origP.ImportPath})
 			default:
 				qualified = false
 			}
-- 
2.43.0


From 9fc9297628de2b3ddc4004dba8e9a36e9c015719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:50 +0000
Subject: [PATCH 08/18] fix: keep the import path of elements copied into
 template data

Copies of consts, vars, types and funcs whose package was renamed no longer
knew the path of their package, so their symbols could not be used: qualifying
them imported a package with an empty path.
---
 templates.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/templates.go b/templates.go
index c167202..1dfd249 100644
--- a/templates.go
+++ b/templates.go
@@ -92,7 +92,7 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 				newPkg := imports.registerPackage(t.parent.Package())
 				if newPkg != oldPkg {
 					newCs := t
-					newCs.parent = &GoFile{PackageName: newPkg}
+					newCs.parent = renamedPackage(t.parent, newPkg)
 					return reflect.ValueOf(&newCs).Elem(), true
 				}
 			}
@@ -102,7 +102,7 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 				newPkg := imports.registerPackage(t.parent.Package())
 				if newPkg != oldPkg {
 					newVs := t
-					newVs.parent = &GoFile{PackageName: newPkg}
+					newVs.parent = renamedPackage(t.parent, newPkg)
 					return reflect.ValueOf(&newVs).Elem(), true
 				}
 			}
@@ -112,7 +112,7 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 				newPkg := imports.registerPackage(t.parent.Package())
 				if newPkg != oldPkg {
 					newTs := t
-					newTs.parent = &GoFile{PackageName: newPkg}
+					newTs.parent = renamedPackage(t.parent, newPkg)
 					return reflect.ValueOf(&newTs).Elem(), true
 				}
 			}
@@ -122,7 +122,7 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 				newPkg := imports.registerPackage(t.parent.Package())
 				if newPkg != oldPkg {
 					newFs := t
-					newFs.parent = &GoFile{PackageName: newPkg}
+					newFs.parent = renamedPackage(t.parent, newPkg)
 					return reflect.ValueOf(&newFs).Elem(), true
 				}
 			}
@@ -223,6 +223,12 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 	return data, false
 }
 
+// renamedPackage returns a file that can serve as the parent of a copied element
+// of the given file, so that references to it use the given package name.
+func renamedPackage(f *GoFile, packageName string) *GoFile {
+	return &GoFile{Imports: *NewImportsFor(f.pkgPath), PackageName: packageName}
+}
+
 // sortedMapKeys returns the keys of the given map in an order that depends only
 // on their values. The order matters because packages get their names and
 // aliases in the order in which they are first encountered.
-- 
2.43.0


From 87c08b908a8e6611e0f1c02018371d7c20a80c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:52 +0000
Subject: [PATCH 09/18] fix: do not panic on template data with unexported
 fields, arrays or pointers to interfaces

Struct values and arrays that are not addressable, unexported fields that need
to be copied or changed, and pointers to interface values could not be
rewritten.
---
 templates.go | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/templates.go b/templates.go
index 1dfd249..423a6c4 100644
--- a/templates.go
+++ b/templates.go
@@ -139,26 +139,27 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 		case Imports:
 			// intentionally do not touch these
 		default:
+			if !data.CanAddr() {
+				// unexported fields can only be accessed via their address
+				addressable := reflect.New(data.Type()).Elem()
+				addressable.Set(data)
+				data = addressable
+			}
 			var newStruct reflect.Value
 			for i := 0; i < data.NumField(); i++ {
-				var newV reflect.Value
-				var changedV bool
 				fld, ok := getField(data, i)
 				if !ok {
 					// do not recurse
-					newV = data.Field(i)
-					changedV = false
-				} else {
-					newV, changedV = qualifyTemplateData(imports, fld)
+					continue
 				}
-				if newStruct.IsValid() {
-					newStruct.Field(i).Set(newV)
-				} else if changedV {
-					newStruct = reflect.New(data.Type()).Elem()
-					for j := 0; j < i; j++ {
-						newStruct.Field(j).Set(data.Field(j))
+				newV, changedV := qualifyTemplateData(imports, fld)
+				if changedV {
+					if !newStruct.IsValid() {
+						newStruct = reflect.New(data.Type()).Elem()
+						newStruct.Set(data)
 					}
-					newStruct.Field(i).Set(newV)
+					newFld, _ := getField(newStruct, i)
+					newFld.Set(newV)
 				}
 			}
 			if newStruct.IsValid() {
@@ -168,10 +169,10 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 
 	case reflect.Ptr:
 		if newElem, changed := qualifyTemplateData(imports, data.Elem()); changed {
-			if newElem.CanAddr() {
+			if newElem.CanAddr() && newElem.Type() == data.Type().Elem() {
 				return newElem.Addr(), true
 			}
-			dest := reflect.New(newElem.Type())
+			dest := reflect.New(data.Type().Elem())
 			dest.Elem().Set(newElem)
 			return dest, true
 		}
@@ -188,7 +189,9 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 				} else {
 					newArray = reflect.MakeSlice(data.Type(), data.Len(), data.Len())
 				}
-				reflect.Copy(newArray, data.Slice(0, i))
+				for j := 0; j < i; j++ {
+					newArray.Index(j).Set(data.Index(j))
+				}
 				newArray.Index(i).Set(newV)
 			}
 		}
-- 
2.43.0


From 92744f87f01c1edecd6f99fb8dd241963d76232e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:15 +0000
Subject: [PATCH 10/18] fix: use a valid identifier as the alias of a package
 of unknown name

The alias was the last element of the import path as it is, which is not an
identifier for paths such as "gopkg.in/yaml.v2", "github.com/go-foo/go-foo"
or "example.com/type".
---
 imports.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/imports.go b/imports.go
index 6a159ae..b41ad97 100644
--- a/imports.go
+++ b/imports.go
@@ -2,10 +2,14 @@ package gopoet
 
 import (
 	"fmt"
+	"go/token"
 	"path"
 	"reflect"
 	"sort"
 	"strconv"
+	"strings"
+	"unicode"
+	"unicode/utf8"
 )
 
 // Imports accumulate a set of package imports, used for generating a Go source
@@ -81,7 +85,7 @@ func (i *Imports) prefixForPackage(importPath, packageName string, registerIfNot
 
 	p := packageName
 	if packageName == "" {
-		p = path.Base(importPath)
+		p = identifierFor(path.Base(importPath))
 	}
 	pkgBase := p
 	suffix := 1
@@ -103,6 +107,24 @@ func (i *Imports) prefixForPackage(importPath, packageName string, registerIfNot
 	}
 }
 
+// identifierFor returns a valid identifier, for use as a package alias, that
+// resembles the given last element of an import path.
+func identifierFor(base string) string {
+	id := strings.Map(func(r rune) rune {
+		if r == '_' || unicode.IsLetter(r) || unicode.IsDigit(r) {
+			return r
+		}
+		return '_'
+	}, base)
+	if first, _ := utf8.DecodeRuneInString(id); unicode.IsDigit(first) {
+		id = "_" + id
+	}
+	if strings.Trim(id, "_") == "" || token.Lookup(id).IsKeyword() {
+		id = "pkg" + id
+	}
+	return id
+}
+
 // EnsureImported ensures that the given symbol is imported and returns a new
 // symbol that has the correct package prefix (based on how the given symbol's
 // package was imported/aliased). If the symbol is already in Imports source
-- 
2.43.0


From c8966d3b56946d59fea888785427143c6e610d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:31 +0000
Subject: [PATCH 11/18] fix: convert results, maps and embedded fields of
 reflect types

The results of a function type overwrote its arguments (or were out of range),
map types were rejected, and embedded fields became ordinary ones.
---
 types.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/types.go b/types.go
index a811c6a..d4a9261 100644
--- a/types.go
+++ b/types.go
@@ -580,6 +580,9 @@ func TypeNameForReflectType(t reflect.Type) TypeName {
 	case reflect.Array:
 		return ArrayType(TypeNameForReflectType(t.Elem()), int64(t.Len()))
 
+	case reflect.Map:
+		return MapType(TypeNameForReflectType(t.Key()), TypeNameForReflectType(t.Elem()))
+
 	case reflect.Chan:
 		return ChannelType(TypeNameForReflectType(t.Elem()), t.ChanDir())
 
@@ -592,8 +595,12 @@ func TypeNameForReflectType(t reflect.Type) TypeName {
 		fields := make([]FieldType, t.NumField())
 		for i := 0; i < t.NumField(); i++ {
 			field := t.Field(i)
+			var name string
+			if !field.Anonymous {
+				name = field.Name
+			}
 			fields[i] = FieldType{
-				Name: field.Name,
+				Name: name,
 				Type: TypeNameForReflectType(field.Type),
 				Tag:  field.Tag,
 			}
@@ -624,7 +631,7 @@ func signatureFromReflectType(t reflect.Type, sig *Signature) {
 	}
 	sig.Results = make([]ArgType, t.NumOut())
 	for i := 0; i < t.NumOut(); i++ {
-		sig.Args[i] = ArgType{
+		sig.Results[i] = ArgType{
 			Type: TypeNameForReflectType(t.Out(i)),
 		}
 	}
-- 
2.43.0


From aa0eadeb853c74726199dd8033b46d1f1c10e179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:51 +0000
Subject: [PATCH 12/18] fix: convert go/types elements that have no package

Converting the error type, or an element whose type mentions it, dereferenced a
nil package. The message for unsupported basic types did the same.
---
 model.go | 4 ++++
 types.go | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/model.go b/model.go
index 34d5b68..70545bc 100644
--- a/model.go
+++ b/model.go
@@ -66,6 +66,10 @@ func (p Package) String() string {
 // PackageForGoType returns a Package for the given Go types package. This is
 // useful for converting between package representations.
 func PackageForGoType(pkg *types.Package) Package {
+	if pkg == nil {
+		// elements of the universe scope, such as the error type, have no package
+		return Package{}
+	}
 	return Package{
 		Name:       pkg.Name(),
 		ImportPath: pkg.Path(),
diff --git a/types.go b/types.go
index d4a9261..6e111ae 100644
--- a/types.go
+++ b/types.go
@@ -445,7 +445,7 @@ func TypeNameForGoType(t types.Type) TypeName {
 			return UnsafePointerType
 		default:
 			bt := types.Typ[t.Kind()]
-			if bt == nil {
+			if bt != nil {
 				panic(fmt.Sprintf("basic type %s cannot be represented as TypeName", bt.Name()))
 			} else {
 				panic(fmt.Sprintf("basic kind %d(?) cannot be represented as TypeName", t.Kind()))
-- 
2.43.0


From e0018a8356f253afce67465d7287e2c617c5dbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:05 +0000
Subject: [PATCH 13/18] fix: render nested channels, tagged struct fields and
 mixed interfaces as valid Go

A channel of receive-only channels was rendered as a send-only channel of
channels; a field of anonymous struct or interface type had its tag on the
following line, which is a syntax error; the embedded interfaces and methods of
an unnamed interface type were not separated from each other.
---
 model.go |  6 +++---
 types.go | 11 +++++++++--
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/model.go b/model.go
index 70545bc..45321ba 100644
--- a/model.go
+++ b/model.go
@@ -1184,6 +1184,7 @@ func (t *TypeSpec) writeTo(b *bytes.Buffer, includeComment bool) {
 		b.WriteString("= ")
 	}
 	t.writeUnderlying(b)
+	b.WriteRune('\n')
 }
 
 func (t *TypeSpec) writeUnderlying(b *bytes.Buffer) {
@@ -1193,17 +1194,16 @@ func (t *TypeSpec) writeUnderlying(b *bytes.Buffer) {
 		for _, f := range t.structBody {
 			f.writeTo(b)
 		}
-		b.WriteString("}\n")
+		b.WriteRune('}')
 	case KindInterface:
 		b.WriteString(" interface {\n")
 		for _, el := range t.interfaceBody {
 			el.writeTo(b)
 		}
-		b.WriteString("}\n")
+		b.WriteRune('}')
 	default:
 		b.WriteRune(' ')
 		typeNameToBuffer(t.underlying, b)
-		b.WriteRune('\n')
 	}
 }
 
diff --git a/types.go b/types.go
index 6e111ae..7dc9920 100644
--- a/types.go
+++ b/types.go
@@ -866,7 +866,14 @@ func typeNameToBuffer(tn TypeName, b *bytes.Buffer) {
 			b.WriteString("<-")
 		}
 		b.WriteRune(' ')
-		typeNameToBuffer(tn.Elem(), b)
+		if tn.Dir() == reflect.BothDir && tn.Elem().Kind() == KindChan && tn.Elem().Dir() == reflect.RecvDir {
+			// without parentheses, the arrow would belong to the outer channel
+			b.WriteRune('(')
+			typeNameToBuffer(tn.Elem(), b)
+			b.WriteRune(')')
+		} else {
+			typeNameToBuffer(tn.Elem(), b)
+		}
 	case KindFunc:
 		b.WriteString("func")
 		signatureToBuffer(tn.Signature(), b)
@@ -907,7 +914,7 @@ func typeNameToBuffer(tn TypeName, b *bytes.Buffer) {
 			b.WriteString(emb.Name)
 		}
 		for i, mtd := range tn.Methods() {
-			if i > 0 {
+			if i > 0 || len(tn.Embeds()) > 0 {
 				b.WriteString("; ")
 			}
 			b.WriteString(mtd.Name)
-- 
2.43.0


From c3882a061d01901520b3bc6105ec9bd49a21837c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:48 +0000
Subject: [PATCH 14/18] fix: do not import an empty path for an unset package
 in template data

---
 imports.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/imports.go b/imports.go
index b41ad97..b4c9518 100644
--- a/imports.go
+++ b/imports.go
@@ -47,6 +47,11 @@ func (i *Imports) RegisterImportForPackage(pkg Package) string {
 // the prefix (which includes a trailing dot if non-empty), it just returns the
 // package alias.
 func (i *Imports) registerPackage(pkg Package) string {
+	if pkg.ImportPath == "" {
+		// no package: there is nothing to import (like for symbols of the
+		// universe)
+		return ""
+	}
 	p := i.RegisterImportForPackage(pkg)
 	if len(p) > 0 && p[len(p)-1] == '.' {
 		p = p[:len(p)-1]
-- 
2.43.0


From e04642818c6f4100a66475d2abad6a2b9d83c6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:47 +0000
Subject: [PATCH 15/18] fix: do not append to the slices that declarations are
 created from

---
 model.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/model.go b/model.go
index 45321ba..759eebc 100644
--- a/model.go
+++ b/model.go
@@ -423,7 +423,8 @@ type ConstDecl struct {
 
 // NewConstDecl creates a new declaration for the given consts.
 func NewConstDecl(cs ...*ConstSpec) *ConstDecl {
-	return &ConstDecl{Consts: cs}
+	// copied so that AddConst does not write to the caller's slice
+	return &ConstDecl{Consts: append([]*ConstSpec(nil), cs...)}
 }
 
 // AddConst adds the given const to this declaration. This method returns the
@@ -666,7 +667,8 @@ type VarDecl struct {
 
 // NewVarDecl creates a new declaration for the given vars.
 func NewVarDecl(vs ...*VarSpec) *VarDecl {
-	return &VarDecl{Vars: vs}
+	// copied so that AddVar does not write to the caller's slice
+	return &VarDecl{Vars: append([]*VarSpec(nil), vs...)}
 }
 
 // AddVar adds the given var to this declaration. This method returns the var
@@ -876,7 +878,8 @@ type TypeDecl struct {
 
 // NewTypeDecl creates a new declaration for the given types.
 func NewTypeDecl(ts ...*TypeSpec) *TypeDecl {
-	return &TypeDecl{Types: ts}
+	// copied so that AddType does not write to the caller's slice
+	return &TypeDecl{Types: append([]*TypeSpec(nil), ts...)}
 }
 
 // AddType adds the given type to this declaration. This method returns the type
-- 
2.43.0


From 0da7014ee62c2af800f5f8e10fa324af78dd54e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:14 +0000
Subject: [PATCH 16/18] fix: report writers that write less than they are given
 without an error

---
 model.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/model.go b/model.go
index 759eebc..2663ab5 100644
--- a/model.go
+++ b/model.go
@@ -218,7 +218,10 @@ func WriteGoFile(w io.Writer, f *GoFile) error {
 		return &FormatError{Unformatted: unformatted, Err: err}
 	}
 	// and finally emit it
-	_, err = w.Write(formatted)
+	n, err := w.Write(formatted)
+	if err == nil && n < len(formatted) {
+		err = io.ErrShortWrite
+	}
 	return err
 }
 
-- 
2.43.0


From 7a7b4cb5a1505647578168dc88600e68bc1eabdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:10 +0000
Subject: [PATCH 17/18] fix: print unnamed type specs in code arguments and
 template data

A TypeSpec without a name stands for its definition. As an argument of a
code block it made rendering panic, and in template data its references
were neither imported nor qualified.
---
 code.go      | 6 +++++-
 templates.go | 8 +++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/code.go b/code.go
index 3a048db..d91e4da 100644
--- a/code.go
+++ b/code.go
@@ -178,7 +178,11 @@ func (l line) qualify(imports *Imports) codeElement {
 		case *VarSpec:
 			l.args[i] = imports.EnsureImported(a.ToSymbol())
 		case *TypeSpec:
-			l.args[i] = imports.EnsureImported(a.ToSymbol())
+			if a.Name == "" {
+				l.args[i] = imports.EnsureTypeImported(a.ToTypeName())
+			} else {
+				l.args[i] = imports.EnsureImported(a.ToSymbol())
+			}
 		case *InterfaceMethod:
 			mr := a.ToMethodRef()
 			sym := imports.EnsureImported(mr.Type)
diff --git a/templates.go b/templates.go
index 423a6c4..05b1838 100644
--- a/templates.go
+++ b/templates.go
@@ -107,7 +107,13 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 				}
 			}
 		case TypeSpec:
-			if t.parent != nil {
+			if t.Name == "" && t.underlying != nil {
+				// unnamed types are represented by their definition
+				newTs := t.qualify(imports)
+				if newTs.underlying != t.underlying {
+					return reflect.ValueOf(newTs).Elem(), true
+				}
+			} else if t.parent != nil {
 				oldPkg := t.parent.PackageName
 				newPkg := imports.registerPackage(t.parent.Package())
 				if newPkg != oldPkg {
-- 
2.43.0


From fedda1df20bfe7467973547181a5dffb5ddd6657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:19 +0000
Subject: [PATCH 18/18] fix: order map keys in template data by all of their
 dynamic type

Types such as *foo.T and *foo.T of two packages with the same name have the
same string and no package path, so that the order of such keys, and with it
the names of imports, was left to chance.
---
 templates.go | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/templates.go b/templates.go
index 05b1838..71d3b5a 100644
--- a/templates.go
+++ b/templates.go
@@ -291,10 +291,7 @@ func compareValues(a, b reflect.Value, depth int) int {
 		}
 		ea, eb := a.Elem(), b.Elem()
 		if ta, tb := ea.Type(), eb.Type(); ta != tb {
-			if c := strings.Compare(ta.String(), tb.String()); c != 0 {
-				return c
-			}
-			return strings.Compare(ta.PkgPath(), tb.PkgPath())
+			return compareTypes(ta, tb)
 		}
 		if a.Kind() == reflect.Ptr && a.Pointer() == b.Pointer() {
 			return 0
@@ -319,6 +316,36 @@ func compareValues(a, b reflect.Value, depth int) int {
 	return 0
 }
 
+// compareTypes is like compareValues, but for types. Two types can have the same
+// string if packages with the same name are involved.
+func compareTypes(a, b reflect.Type) int {
+	if a == b {
+		return 0
+	}
+	if c := strings.Compare(a.String(), b.String()); c != 0 {
+		return c
+	}
+	if a.Name() != "" || b.Name() != "" || a.Kind() != b.Kind() {
+		return strings.Compare(a.PkgPath(), b.PkgPath())
+	}
+	switch a.Kind() {
+	case reflect.Map:
+		if c := compareTypes(a.Key(), b.Key()); c != 0 {
+			return c
+		}
+		return compareTypes(a.Elem(), b.Elem())
+	case reflect.Array, reflect.Chan, reflect.Ptr, reflect.Slice:
+		return compareTypes(a.Elem(), b.Elem())
+	case reflect.Struct:
+		for i := 0; i < a.NumField() && i < b.NumField(); i++ {
+			if c := compareTypes(a.Field(i).Type, b.Field(i).Type); c != 0 {
+				return c
+			}
+		}
+	}
+	return 0
+}
+
 func compareOrdered(less, greater bool) int {
 	if less {
 		return -1
-- 
2.43.0

