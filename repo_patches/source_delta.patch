From 8fe427597a2a8fe97a2b748d7804dbd2b0e652f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:03 +0000
Subject: [PATCH 01/33] fix: sort errors using their actual name

The error type shadowed the name inherited from the support type with a field that was never
populated, so sorting the errors of a version with more than one error failed with a nil pointer
dereference.
---
 pkg/concepts/error.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/concepts/error.go b/pkg/concepts/error.go
index 502bc64..ceec38f 100644
--- a/pkg/concepts/error.go
+++ b/pkg/concepts/error.go
@@ -27,7 +27,6 @@ type Error struct {
 	namedSupport
 
 	owner *Version
-	name  *names.Name
 	code  int
 }
 
@@ -64,7 +63,7 @@ func (s ErrorSlice) Len() int {
 }
 
 func (s ErrorSlice) Less(i, j int) bool {
-	return names.Compare(s[i].name, s[j].name) == -1
+	return names.Compare(s[i].Name(), s[j].Name()) == -1
 }
 
 func (s ErrorSlice) Swap(i, j int) {
-- 
2.43.0


From 86392693df3aea10f5d0c8ebdb2e3838c3d6308a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:06 +0000
Subject: [PATCH 02/33] fix: generate valid setters for map request parameters

The setters of request parameters whose type is a map assigned a pointer to the field, which isn't a
pointer, so the generated code didn't compile.
---
 pkg/generators/golang/clients_generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/generators/golang/clients_generator.go b/pkg/generators/golang/clients_generator.go
index 994d78c..6f872c7 100644
--- a/pkg/generators/golang/clients_generator.go
+++ b/pkg/generators/golang/clients_generator.go
@@ -819,7 +819,7 @@ func (g *ClientsGenerator) generateRequestSource(method *concepts.Method) {
 			//
 			{{ lineComment .Doc }}
 			func (r *{{ $requestName }}) {{ $setterName }}(value {{ $setterType }}) *{{ $requestName }} {
-				{{ if or .Type.IsStruct .Type.IsList }}
+				{{ if or .Type.IsStruct .Type.IsList .Type.IsMap }}
 					r.{{ $fieldName }} = value
 				{{ else }}
 					r.{{ $fieldName }} = &value
-- 
2.43.0


From 9efdb45627d4b4a7dc04291c5f50413b7a5e50c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:06 +0000
Subject: [PATCH 03/33] fix: generate valid JSON support for structs without
 attributes

The function that writes the JSON representation of a struct without attributes declared a variable
that wasn't used, so the generated code didn't compile.
---
 pkg/generators/golang/json_generator.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/generators/golang/json_generator.go b/pkg/generators/golang/json_generator.go
index 66fac4b..753d4bd 100644
--- a/pkg/generators/golang/json_generator.go
+++ b/pkg/generators/golang/json_generator.go
@@ -605,7 +605,9 @@ func (g *JSONSupportGenerator) generateStructTypeSource(typ *concepts.Type) {
 
 		// {{ $writeTypeFunc }} writes a value of the '{{ .Type.Name }}' type to the given stream.
 		func {{ $writeTypeFunc }}(object *{{ $structName }}, stream *jsoniter.Stream) {
-			count := 0
+			{{ if or .Type.IsClass .Type.Attributes }}
+				count := 0
+			{{ end }}
 			stream.WriteObjectStart()
 			{{ if .Type.IsClass }}
 				stream.WriteObjectField("kind")
-- 
2.43.0


From 6f8792746dc58b300743c0ba59dc4613b2a9887f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:27 +0000
Subject: [PATCH 04/33] fix: parse chunks of names that aren't covered by other
 rules

When a name contained a chunk that isn't an upper case chunk followed by a lower case one, for example
a lower case prefix like in `myName`, the complete text was added as a word instead of only the chunk.
---
 pkg/names/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/names/parser.go b/pkg/names/parser.go
index 749883c..658e97d 100644
--- a/pkg/names/parser.go
+++ b/pkg/names/parser.go
@@ -110,7 +110,7 @@ func ParseUsingCase(text string) *Name {
 			}
 
 			// Anything else is a word by itself:
-			word := parseWord(text)
+			word := parseWord(current)
 			words = append(words, word)
 			i++
 		}
-- 
2.43.0


From 88708cc264dd445adb61859bb1a6652aa33a8cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:27 +0000
Subject: [PATCH 05/33] fix: avoid overflow in the mask of the last presence
 bit

The mask of the bit 63 was calculated using a signed integer, so the result was negative and the
generated code didn't compile.
---
 pkg/generators/golang/types_calculator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/generators/golang/types_calculator.go b/pkg/generators/golang/types_calculator.go
index 1e11bac..649af51 100644
--- a/pkg/generators/golang/types_calculator.go
+++ b/pkg/generators/golang/types_calculator.go
@@ -484,7 +484,7 @@ func (c *TypesCalculator) BitMask(attribute *concepts.Attribute) string {
 	}
 
 	// Calculate the mask:
-	mask := 1 << index
+	mask := uint64(1) << index
 	return fmt.Sprintf("%d", mask)
 }
 
-- 
2.43.0


From 0874b42747df85258d3d860932d0748b8496cba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:27 +0000
Subject: [PATCH 06/33] fix: reject model files that aren't completely parsed

The parser stops without an error when it finds something that can't be the beginning of a
declaration, so everything after that point in the file was silently ignored. In addition the
incomplete tree that is the result of a syntax error was processed, and that may fail with a nil
pointer dereference.
---
 pkg/language/reader.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pkg/language/reader.go b/pkg/language/reader.go
index 2972465..df28617 100644
--- a/pkg/language/reader.go
+++ b/pkg/language/reader.go
@@ -333,7 +333,23 @@ func (r *Reader) loadFile(path string) {
 	parser := NewModelParser(stream)
 	parser.RemoveErrorListeners()
 	parser.AddErrorListener(listener)
+	errors := r.reporter.Errors()
 	tree := parser.File()
+
+	// The parser stops when it finds something that can't be the beginning of a declaration, so
+	// we need to explicitly check that it consumed all the input:
+	token := stream.LT(1)
+	if token.GetTokenType() != antlr.TokenEOF {
+		r.reporter.Errorf(
+			"Line %d, column %d: unexpected input '%s'",
+			token.GetLine(), token.GetColumn(), token.GetText(),
+		)
+	}
+
+	// If there are syntax errors then the tree is incomplete and it can't be processed:
+	if r.reporter.Errors() > errors {
+		return
+	}
 	antlr.ParseTreeWalkerDefault.Walk(r, tree)
 }
 
-- 
2.43.0


From 8ee588141871a6318e833f3f05c1782fc75610be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:27 +0000
Subject: [PATCH 07/33] fix: track undefined concepts of each version
 separately

Types, resources and errors that are referenced but not defined were tracked only by name, so a
reference to an undefined concept in one version was accepted when other version defined a concept
with the same name, and duplicated definitions weren't detected when other version had an undefined
concept with that name.
---
 pkg/language/reader.go | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/pkg/language/reader.go b/pkg/language/reader.go
index df28617..c4af2db 100644
--- a/pkg/language/reader.go
+++ b/pkg/language/reader.go
@@ -1025,51 +1025,57 @@ func (r *Reader) ExitAnnotationParameter(ctx *AnnotationParameterContext) {
 	ctx.SetValue(ctx.Literal().GetResult())
 }
 
+// undefinedKey calculates the key used to store undefined concepts. It includes the names of the
+// current service and version because concepts with the same name can exist in different versions.
+func (r *Reader) undefinedKey(name *names.Name) string {
+	return fmt.Sprintf("%s/%s/%s", r.service.Name(), r.version.Name(), name)
+}
+
 func (r *Reader) isUndefinedType(typ *concepts.Type) bool {
-	key := typ.Name().String()
+	key := r.undefinedKey(typ.Name())
 	_, ok := r.undefinedTypes[key]
 	return ok
 }
 
 func (r *Reader) addUndefinedType(typ *concepts.Type) {
-	key := typ.Name().String()
+	key := r.undefinedKey(typ.Name())
 	r.undefinedTypes[key] = typ
 }
 
 func (r *Reader) removeUndefinedType(typ *concepts.Type) {
-	key := typ.Name().String()
+	key := r.undefinedKey(typ.Name())
 	delete(r.undefinedTypes, key)
 }
 
 func (r *Reader) isUndefinedResource(resource *concepts.Resource) bool {
-	key := resource.Name().String()
+	key := r.undefinedKey(resource.Name())
 	_, ok := r.undefinedResources[key]
 	return ok
 }
 
 func (r *Reader) addUndefinedResource(resource *concepts.Resource) {
-	key := resource.Name().String()
+	key := r.undefinedKey(resource.Name())
 	r.undefinedResources[key] = resource
 }
 
 func (r *Reader) removeUndefinedResource(typ *concepts.Resource) {
-	key := typ.Name().String()
+	key := r.undefinedKey(typ.Name())
 	delete(r.undefinedResources, key)
 }
 
 func (r *Reader) isUndefinedError(err *concepts.Error) bool {
-	key := err.Name().String()
+	key := r.undefinedKey(err.Name())
 	_, ok := r.undefinedErrors[key]
 	return ok
 }
 
 func (r *Reader) addUndefinedError(err *concepts.Error) {
-	key := err.Name().String()
+	key := r.undefinedKey(err.Name())
 	r.undefinedErrors[key] = err
 }
 
 func (r *Reader) removeUndefinedError(typ *concepts.Error) {
-	key := typ.Name().String()
+	key := r.undefinedKey(typ.Name())
 	delete(r.undefinedErrors, key)
 }
 
-- 
2.43.0


From 2e4b4626342f0ad64a6bb79497620c69d0bb31e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:27 +0000
Subject: [PATCH 08/33] fix: accept documentation comments that start with a
 blank line

Reading a documentation comment whose first line is blank failed with an index out of range.
---
 pkg/language/reader.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/pkg/language/reader.go b/pkg/language/reader.go
index c4af2db..79569e1 100644
--- a/pkg/language/reader.go
+++ b/pkg/language/reader.go
@@ -1109,13 +1109,20 @@ func (r *Reader) getDoc(token antlr.Token) string {
 		}
 	}
 
-	// Remove from all lines the number of leading spaces of the first line:
+	// Remove from all lines the number of leading spaces of the first line that isn't blank:
 	if len(lines) > 0 {
-		first := lines[0]
-		index := strings.IndexFunc(first, func(r rune) bool {
-			return !unicode.IsSpace(r)
-		})
-		prefix := first[0:index]
+		first := ""
+		prefix := ""
+		for _, line := range lines {
+			index := strings.IndexFunc(line, func(r rune) bool {
+				return !unicode.IsSpace(r)
+			})
+			if index >= 0 {
+				first = line
+				prefix = line[0:index]
+				break
+			}
+		}
 		for i, line := range lines {
 			if line != "" {
 				if strings.HasPrefix(line, prefix) {
-- 
2.43.0


From 8eb980cbf9834a8912c81204ede23e0238b39919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:27 +0000
Subject: [PATCH 09/33] fix: don't fail checking versions without root or
 locators without target

The lack of a root resource and the lack of the target of a locator are reported as errors, but then
checking the loops in the tree of locators failed with a nil pointer dereference.
---
 pkg/language/checks.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/language/checks.go b/pkg/language/checks.go
index 28c71b3..3973ca3 100644
--- a/pkg/language/checks.go
+++ b/pkg/language/checks.go
@@ -590,6 +590,9 @@ func (r *Reader) checkResponseParameter(method *concepts.Method, name *names.Nam
 }
 
 func (r *Reader) checkLocatorLoops(version *concepts.Version) {
+	if version.Root() == nil {
+		return
+	}
 	for _, locator := range version.Root().Locators() {
 		path := []*concepts.Locator{locator}
 		r.checkLocatorPathLoops(path)
@@ -597,6 +600,11 @@ func (r *Reader) checkLocatorLoops(version *concepts.Version) {
 }
 
 func (r *Reader) checkLocatorPathLoops(path []*concepts.Locator) {
+	// Locators without a target have already been reported, and there is nothing else to check:
+	if path[len(path)-1].Target() == nil {
+		return
+	}
+
 	// Try to find a previous locator that is defined in the same resource that is the target of
 	// the last locator. If there is such locator then there is a loop and we should not
 	// continue checking this path.
-- 
2.43.0


From c7b86a056215f0cf1fe4b2d2d9bdc2a47f47e6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:57 +0000
Subject: [PATCH 10/33] fix: honour the value passed to the link flag setter of
 builders

The setter of the flag that indicates if an object is a link ignored its argument, so the flag was
set even when the value passed was false.
---
 pkg/generators/golang/builders_generator.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/generators/golang/builders_generator.go b/pkg/generators/golang/builders_generator.go
index 643d3d1..2fc7e84 100644
--- a/pkg/generators/golang/builders_generator.go
+++ b/pkg/generators/golang/builders_generator.go
@@ -242,7 +242,11 @@ func (g *BuildersGenerator) generateStructBuilderSource(typ *concepts.Type) {
 		{{ if .Type.IsClass }}
 			// Link sets the flag that indicates if this is a link.
 			func (b *{{ $builderName }}) Link(value bool) *{{ $builderName }} {
-				b.bitmap_ |= 1
+				if value {
+					b.bitmap_ |= 1
+				} else {
+					b.bitmap_ &^= 1
+				}
 				return b
 			}
 
-- 
2.43.0


From 71c7e66a9849992cd6e87669d06f4122075fd023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:57 +0000
Subject: [PATCH 11/33] fix: don't return end of file as an error of metadata
 requests

When the response to a metadata request doesn't have a body the result was an end of file error. For
the rest of the requests an empty body isn't considered an error.
---
 pkg/generators/golang/clients_generator.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/generators/golang/clients_generator.go b/pkg/generators/golang/clients_generator.go
index 6f872c7..efa3b02 100644
--- a/pkg/generators/golang/clients_generator.go
+++ b/pkg/generators/golang/clients_generator.go
@@ -378,6 +378,7 @@ func (g *ClientsGenerator) generateVersionMetadataClientSource(version *concepts
 			reader := bufio.NewReader(response.Body)
 			_, err = reader.Peek(1)
 			if err == io.EOF {
+				err = nil
 				return
 			}
 			if result.status >= 400 {
-- 
2.43.0


From a066a9953a377e7ea353a832e96d394688e9d424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:57 +0000
Subject: [PATCH 12/33] fix: use the same field names in clients and JSON
 support

The names of the fields used to store the parameters of methods are changed if they conflict with
built-in fields, but that was only done for the clients, and not for the code that reads and writes
those fields. As a result the generated code didn't compile for models containing parameters named,
for example, `status`.
---
 pkg/generators/golang/json_generator.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/generators/golang/json_generator.go b/pkg/generators/golang/json_generator.go
index 753d4bd..a93dc5c 100644
--- a/pkg/generators/golang/json_generator.go
+++ b/pkg/generators/golang/json_generator.go
@@ -1569,7 +1569,12 @@ func (g *JSONSupportGenerator) fieldName(attribute *concepts.Attribute) string {
 }
 
 func (g *JSONSupportGenerator) parameterFieldName(parameter *concepts.Parameter) string {
-	return g.names.Private(parameter.Name())
+	name := g.names.Private(parameter.Name())
+	_, ok := builtinFields[name]
+	if ok {
+		name = name + "_"
+	}
+	return name
 }
 
 func (g *JSONSupportGenerator) clientRequestName(method *concepts.Method) string {
-- 
2.43.0


From 87ecaf548a6eaadc95419a9c10a6abc0ca735768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:57 +0000
Subject: [PATCH 13/33] fix: avoid conflicts of parameters with the fields of
 requests

Parameters named `header`, `path`, `query` or `transport` resulted in duplicated fields in the
generated request types, so the generated code didn't compile.
---
 pkg/generators/golang/clients_generator.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/generators/golang/clients_generator.go b/pkg/generators/golang/clients_generator.go
index efa3b02..4cb2e3c 100644
--- a/pkg/generators/golang/clients_generator.go
+++ b/pkg/generators/golang/clients_generator.go
@@ -1250,8 +1250,12 @@ func (g *ClientsGenerator) avoidBuiltin(name string, builtins map[string]interfa
 }
 
 var builtinFields = map[string]interface{}{
-	"err":    nil,
-	"status": nil,
+	"err":       nil,
+	"header":    nil,
+	"path":      nil,
+	"query":     nil,
+	"status":    nil,
+	"transport": nil,
 }
 
 var builtinGetters = map[string]interface{}{
-- 
2.43.0


From 85c0cd4f78898b777bda6d3dd40dacc4d5c45b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:57 +0000
Subject: [PATCH 14/33] fix: use JSON names for parameters in OpenAPI
 specifications

The JSON annotation of parameters was ignored when generating the properties of request and response
bodies, so the generated specification didn't match the names used by the clients.
---
 pkg/generators/openapi/names_calculator.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/generators/openapi/names_calculator.go b/pkg/generators/openapi/names_calculator.go
index 00ad681..ae3a9c2 100644
--- a/pkg/generators/openapi/names_calculator.go
+++ b/pkg/generators/openapi/names_calculator.go
@@ -90,5 +90,9 @@ func (c *NamesCalculator) AttributePropertyName(attribute *concepts.Attribute) s
 
 // ParameterPropertyName calculates the property name for an parameter of a method.
 func (c *NamesCalculator) ParameterPropertyName(parameter *concepts.Parameter) string {
-	return parameter.Name().Snake()
+	name := annotations.JSONName(parameter)
+	if name == "" {
+		name = parameter.Name().Snake()
+	}
+	return name
 }
-- 
2.43.0


From 878000047043e7f2dff3c26952a6b7ac19c9744c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:57 +0000
Subject: [PATCH 15/33] fix: generate only one OpenAPI path for the root
 resource

The path of the root resource is also the path of the version metadata, so when the root resource
had methods without their own URL segment that path appeared twice in the specification.
---
 pkg/generators/openapi/openapi_generator.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pkg/generators/openapi/openapi_generator.go b/pkg/generators/openapi/openapi_generator.go
index 998552e..0774941 100644
--- a/pkg/generators/openapi/openapi_generator.go
+++ b/pkg/generators/openapi/openapi_generator.go
@@ -278,6 +278,14 @@ func (g *OpenAPIGenerator) generateMetadataPath(version *concepts.Version) {
 	g.buffer.EndObject()
 	g.buffer.EndObject()
 	g.buffer.EndObject()
+
+	// Methods of the root resource that don't have their own URL segment share this path:
+	for _, method := range version.Root().Methods() {
+		if g.binding.MethodSegment(method) == "" {
+			g.generateMethod(nil, method)
+		}
+	}
+
 	g.buffer.EndObject()
 }
 
@@ -296,8 +304,9 @@ func (g *OpenAPIGenerator) generateResourcePaths(prefix string,
 		}
 	}
 
-	// Methods that don't have their own URL segment share the same path object:
-	if len(without) > 0 {
+	// Methods that don't have their own URL segment share the same path object. Those of the root
+	// resource have already been generated, because they share the path with the metadata:
+	if len(without) > 0 && !resource.IsRoot() {
 		g.buffer.StartObject(prefix)
 		for _, method := range without {
 			g.generateMethod(path, method)
-- 
2.43.0


From 0b0aa2a17fed4133de2e03b61042e7c0ff78f7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:03 +0000
Subject: [PATCH 16/33] fix: report references to things that don't exist

References with an incorrect format, or to a service or version that doesn't exist, failed with a nil
pointer dereference or an index out of range, and references to a type that doesn't exist were
silently ignored.
---
 pkg/language/reader.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pkg/language/reader.go b/pkg/language/reader.go
index 79569e1..833f1c7 100644
--- a/pkg/language/reader.go
+++ b/pkg/language/reader.go
@@ -482,6 +482,13 @@ func (r *Reader) handleClassRef(typ *concepts.Type, path string) {
 	input := r.inputs[0]
 	path = strings.TrimPrefix(path, "/")
 	components := strings.Split(path, "/")
+	if len(components) != 3 {
+		r.reporter.Errorf(
+			"Reference '%s' of type '%s' should contain the service, the version and the type",
+			path, typ.Name(),
+		)
+		return
+	}
 	referencedServiceName := components[0]
 	referencedVersion := components[1]
 	referencedTypeName := components[2]
@@ -498,11 +505,20 @@ func (r *Reader) handleClassRef(typ *concepts.Type, path string) {
 
 	// load the ad-hoc service and version referenced and find the correct type.
 	refReader.loadService(fmt.Sprintf("%s/%s", input, referencedServiceName))
+	if refReader.service == nil {
+		return
+	}
 	refVersion := refReader.service.FindVersion(names.ParseUsingSeparator(referencedVersion, "_"))
+	if refVersion == nil {
+		r.reporter.Errorf("Reference '%s' of type '%s' doesn't exist", path, typ.Name())
+		return
+	}
 	// Once loading the service, we find the reference type
 	// then recursively iterate the type tree and add the types to the current version.
 	if referencedType := refVersion.FindType(names.ParseUsingSeparator(referencedTypeName, "_")); referencedType != nil {
 		r.recursivelyAddTypeToVersion(typ, referencedType)
+	} else {
+		r.reporter.Errorf("Reference '%s' of type '%s' doesn't exist", path, typ.Name())
 	}
 }
 
-- 
2.43.0


From 1e30c6453cb82930676cfa3fae0253da2aafb4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:03 +0000
Subject: [PATCH 17/33] fix: preserve documentation of declarations that follow
 a reference

Loading a referenced type discarded the comments of the file that contains the reference, so the
documentation of all the declarations that follow it in that file was lost.
---
 pkg/language/reader.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/language/reader.go b/pkg/language/reader.go
index 833f1c7..f755f57 100644
--- a/pkg/language/reader.go
+++ b/pkg/language/reader.go
@@ -503,8 +503,12 @@ func (r *Reader) handleClassRef(typ *concepts.Type, path string) {
 	refReader.undefinedResources = make(map[string]*concepts.Resource)
 	refReader.undefinedErrors = make(map[string]*concepts.Error)
 
-	// load the ad-hoc service and version referenced and find the correct type.
+	// load the ad-hoc service and version referenced and find the correct type. Note that loading
+	// other files replaces the comments of the file that is currently being loaded, so we need
+	// to preserve them.
+	currentComments := comments
 	refReader.loadService(fmt.Sprintf("%s/%s", input, referencedServiceName))
+	comments = currentComments
 	if refReader.service == nil {
 		return
 	}
-- 
2.43.0


From 282c1507d1eb304ff47838cd3d56c186244e31a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:11 +0000
Subject: [PATCH 18/33] fix: support references to recursive types

Reading a reference to a type that contains itself, directly or indirectly, never finished.
---
 pkg/language/reader.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/pkg/language/reader.go b/pkg/language/reader.go
index f755f57..2b1b98a 100644
--- a/pkg/language/reader.go
+++ b/pkg/language/reader.go
@@ -532,6 +532,18 @@ func (r *Reader) recursivelyAddTypeToVersion(currType *concepts.Type,
 	if referencedType.IsBasicType() {
 		return
 	}
+
+	// The type needs to be added before processing the attributes, because they may refer to it
+	// directly or indirectly. If it has already been added then there is nothing else to do.
+	existingType := r.version.FindType(referencedType.Name())
+	if existingType == referencedType {
+		return
+	}
+	if existingType != nil && existingType.ExplicitDeclared() {
+		referencedType.SetExplicitDeclared(true)
+	}
+	r.version.AddType(referencedType)
+
 	for _, attribute := range referencedType.Attributes() {
 		// If attribute is explicitDeclared, it needs to change it's owner to be the same as currType
 		if attribute.Link() {
@@ -560,13 +572,6 @@ func (r *Reader) recursivelyAddTypeToVersion(currType *concepts.Type,
 			r.recursivelyAddTypeToVersion(currType, attribute.Type())
 		}
 	}
-
-	existingType := r.version.FindType(referencedType.Name())
-	if existingType != nil && existingType.ExplicitDeclared() {
-		referencedType.SetExplicitDeclared(true)
-	}
-	r.version.AddType(referencedType)
-
 }
 
 func (r *Reader) ExitStructDecl(ctx *StructDeclContext) {
-- 
2.43.0


From fe86bdf7d6abb40474dc114fd526a48fa713c799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:44 +0000
Subject: [PATCH 19/33] fix: don't use trailing comments or those of outer
 declarations as documentation

---
 pkg/language/reader.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pkg/language/reader.go b/pkg/language/reader.go
index 2b1b98a..f03d738 100644
--- a/pkg/language/reader.go
+++ b/pkg/language/reader.go
@@ -53,6 +53,9 @@ type Reader struct {
 	service *concepts.Service
 	version *concepts.Version
 
+	// The tokens of the file that is currently being loaded:
+	stream *antlr.CommonTokenStream
+
 	// Concepts that aren't completely defined yet:
 	undefinedTypes     map[string]*concepts.Type
 	undefinedResources map[string]*concepts.Resource
@@ -330,6 +333,7 @@ func (r *Reader) loadFile(path string) {
 
 	// Create the parser:
 	stream := antlr.NewCommonTokenStream(lexer, 0)
+	r.stream = stream
 	parser := NewModelParser(stream)
 	parser.RemoveErrorListeners()
 	parser.AddErrorListener(listener)
@@ -1109,9 +1113,16 @@ var comments map[int]string
 
 // getDoc tries to extract the documentation comment that may appear before the given token.
 func (r *Reader) getDoc(token antlr.Token) string {
+	// Comments that are in the same line than the previous token, or before it, aren't the
+	// documentation of this token:
+	last := -1
+	if token.GetTokenIndex() > 0 {
+		last = r.stream.Get(token.GetTokenIndex() - 1).GetLine()
+	}
+
 	// Get all the consecutive comments that are right before the token:
 	var lines []string
-	for index := token.GetLine() - 1; index >= 0; index-- {
+	for index := token.GetLine() - 1; index > last; index-- {
 		line, ok := comments[index]
 		if !ok {
 			break
-- 
2.43.0


From 754bb1c54d9a4dad9d2910f1304d6d80f7feb5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:56 +0000
Subject: [PATCH 20/33] fix: links to explicitly referenced types don't depend
 on the order of declarations

---
 pkg/language/reader.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/language/reader.go b/pkg/language/reader.go
index f03d738..b46186d 100644
--- a/pkg/language/reader.go
+++ b/pkg/language/reader.go
@@ -463,9 +463,10 @@ func (r *Reader) removeLinkedAttributes(typ *concepts.Type) {
 		for _, attribute := range types.Attributes() {
 			// It could be that the type is already in an attribute of the service
 			// It needs to add the SetExplicitDeclared to it. {
-			if attribute.Type().Name() == typ.Name() {
+			if attribute.Type().Name().Equals(typ.Name()) {
 				attribute.SetLinkOwner(nil)
 				attribute.Type().SetExplicitDeclared(true)
+				attribute.Type().SetOwner(typ.Owner())
 			}
 			if attribute.Type().IsList() || attribute.Type().IsMap() {
 				if attribute.Type().Element().Name().String() == typ.Name().String() {
-- 
2.43.0


From b1267161fd545e5d8c51121e7c69db15f97b0c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:24 +0000
Subject: [PATCH 21/33] fix: links to types that are also embedded keep
 pointing to the referenced version

---
 pkg/language/reader.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pkg/language/reader.go b/pkg/language/reader.go
index b46186d..4e40373 100644
--- a/pkg/language/reader.go
+++ b/pkg/language/reader.go
@@ -525,7 +525,7 @@ func (r *Reader) handleClassRef(typ *concepts.Type, path string) {
 	// Once loading the service, we find the reference type
 	// then recursively iterate the type tree and add the types to the current version.
 	if referencedType := refVersion.FindType(names.ParseUsingSeparator(referencedTypeName, "_")); referencedType != nil {
-		r.recursivelyAddTypeToVersion(typ, referencedType)
+		r.recursivelyAddTypeToVersion(typ, referencedType, refVersion)
 	} else {
 		r.reporter.Errorf("Reference '%s' of type '%s' doesn't exist", path, typ.Name())
 	}
@@ -533,7 +533,7 @@ func (r *Reader) handleClassRef(typ *concepts.Type, path string) {
 
 // A helper function to recursively add types to a version
 func (r *Reader) recursivelyAddTypeToVersion(currType *concepts.Type,
-	referencedType *concepts.Type) {
+	referencedType *concepts.Type, refVersion *concepts.Version) {
 	if referencedType.IsBasicType() {
 		return
 	}
@@ -570,11 +570,16 @@ func (r *Reader) recursivelyAddTypeToVersion(currType *concepts.Type,
 			}
 			// Otherwise add the setLinkOwner to the attribute
 			attribute.SetLinkOwner(attribute.Type().Owner())
+			// The owner changes when the type has also been added to this version because it
+			// is used by an attribute that isn't a link, but the link isn't to that copy:
+			if attribute.LinkOwner() == r.version {
+				attribute.SetLinkOwner(refVersion)
+			}
 		} else if attribute.Type().IsList() || attribute.Type().IsMap() {
 			r.version.AddType(attribute.Type())
-			r.recursivelyAddTypeToVersion(currType, attribute.Type().Element())
+			r.recursivelyAddTypeToVersion(currType, attribute.Type().Element(), refVersion)
 		} else {
-			r.recursivelyAddTypeToVersion(currType, attribute.Type())
+			r.recursivelyAddTypeToVersion(currType, attribute.Type(), refVersion)
 		}
 	}
 }
-- 
2.43.0


From edf823ea726640f995234b34aca31b4403cfb2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:42 +0000
Subject: [PATCH 22/33] fix: use the package selector of the version in links
 to referenced types

---
 pkg/generators/golang/builders_generator.go | 4 ++--
 pkg/generators/golang/types_generator.go    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/generators/golang/builders_generator.go b/pkg/generators/golang/builders_generator.go
index 2fc7e84..7e2d49f 100644
--- a/pkg/generators/golang/builders_generator.go
+++ b/pkg/generators/golang/builders_generator.go
@@ -648,7 +648,7 @@ func (g *BuildersGenerator) fieldType(attribute *concepts.Attribute) *TypeRefere
 	var ref *TypeReference
 	referencedVersion := ""
 	if attribute.LinkOwner() != nil {
-		referencedVersion = attribute.LinkOwner().Name().String()
+		referencedVersion = g.packages.VersionSelector(attribute.LinkOwner())
 	}
 	switch {
 	case typ.IsScalar():
@@ -716,7 +716,7 @@ func (g *BuildersGenerator) setterType(attribute *concepts.Attribute) *TypeRefer
 	var ref *TypeReference
 	referencedVersion := ""
 	if attribute.LinkOwner() != nil {
-		referencedVersion = attribute.LinkOwner().Name().String()
+		referencedVersion = g.packages.VersionSelector(attribute.LinkOwner())
 	}
 	switch {
 	case typ.IsScalar():
diff --git a/pkg/generators/golang/types_generator.go b/pkg/generators/golang/types_generator.go
index 6307fb4..ad09537 100644
--- a/pkg/generators/golang/types_generator.go
+++ b/pkg/generators/golang/types_generator.go
@@ -608,7 +608,7 @@ func (g *TypesGenerator) getterType(attribute *concepts.Attribute) *TypeReferenc
 	typ := attribute.Type()
 	referencedVersion := ""
 	if attribute.LinkOwner() != nil {
-		referencedVersion = attribute.LinkOwner().Name().String()
+		referencedVersion = g.packages.VersionSelector(attribute.LinkOwner())
 	}
 	switch {
 	case typ.IsScalar():
@@ -671,7 +671,7 @@ func (g *TypesGenerator) fieldType(attribute *concepts.Attribute) *TypeReference
 	typ := attribute.Type()
 	referencedVersion := ""
 	if attribute.LinkOwner() != nil {
-		referencedVersion = attribute.LinkOwner().Name().String()
+		referencedVersion = g.packages.VersionSelector(attribute.LinkOwner())
 	}
 	switch {
 	case typ.IsScalar():
-- 
2.43.0


From c282de6af1dfd3d7aa1df5443f7a0f6c9ce58c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:46 +0000
Subject: [PATCH 23/33] fix: lists of links to referenced types use the list
 type of the referenced version

---
 pkg/generators/golang/types_generator.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/pkg/generators/golang/types_generator.go b/pkg/generators/golang/types_generator.go
index ad09537..3828bf1 100644
--- a/pkg/generators/golang/types_generator.go
+++ b/pkg/generators/golang/types_generator.go
@@ -617,7 +617,7 @@ func (g *TypesGenerator) getterType(attribute *concepts.Attribute) *TypeReferenc
 		ref = g.types.NullableReference(typ, referencedVersion)
 	case typ.IsList():
 		if attribute.Link() {
-			ref = g.types.ListReference(typ)
+			ref = g.linkListReference(attribute)
 		} else {
 			ref = g.types.NullableReference(typ, referencedVersion)
 		}
@@ -634,6 +634,24 @@ func (g *TypesGenerator) getterType(attribute *concepts.Attribute) *TypeReferenc
 	return ref
 }
 
+// linkListReference calculates the reference to the type of the given link attribute. The list type is
+// the one of the version that the link points to, even if the element type has also been copied to
+// other version.
+func (g *TypesGenerator) linkListReference(attribute *concepts.Attribute) *TypeReference {
+	ref := g.types.ListReference(attribute.Type())
+	owner := attribute.LinkOwner()
+	if owner == nil {
+		return ref
+	}
+	selector := g.packages.VersionSelector(owner)
+	return g.types.Reference(
+		g.packages.VersionImport(owner),
+		selector,
+		ref.Name(),
+		fmt.Sprintf("*%s.%s", selector, ref.Name()),
+	)
+}
+
 func (g *TypesGenerator) objectName(typ *concepts.Type) string {
 	name := annotations.GoName(typ)
 	if name == "" {
@@ -680,7 +698,7 @@ func (g *TypesGenerator) fieldType(attribute *concepts.Attribute) *TypeReference
 		ref = g.types.NullableReference(typ, referencedVersion)
 	case typ.IsList():
 		if attribute.Link() {
-			ref = g.types.ListReference(typ)
+			ref = g.linkListReference(attribute)
 		} else {
 			ref = g.types.NullableReference(typ, referencedVersion)
 		}
-- 
2.43.0


From 8290f709232c3836421c6709bd536808c2ef891c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:54 +0000
Subject: [PATCH 24/33] fix: support references to services that have
 references, and reject loops

---
 pkg/language/reader.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/pkg/language/reader.go b/pkg/language/reader.go
index 4e40373..311ffbd 100644
--- a/pkg/language/reader.go
+++ b/pkg/language/reader.go
@@ -53,6 +53,9 @@ type Reader struct {
 	service *concepts.Service
 	version *concepts.Version
 
+	// The reader that is loading the service that refers to the one loaded by this reader:
+	referrer *Reader
+
 	// The tokens of the file that is currently being loaded:
 	stream *antlr.CommonTokenStream
 
@@ -498,9 +501,22 @@ func (r *Reader) handleClassRef(typ *concepts.Type, path string) {
 	referencedVersion := components[1]
 	referencedTypeName := components[2]
 
+	// Services can't refer to themselves, directly or indirectly:
+	for current := r; current != nil; current = current.referrer {
+		if current.service.Name().String() == referencedServiceName {
+			r.reporter.Errorf(
+				"Reference '%s' of type '%s' introduces a loop",
+				path, typ.Name(),
+			)
+			return
+		}
+	}
+
 	// Create an ad-hoc reader and model for the specific referenced service.
 	refReader := NewReader().
-		Reporter(r.reporter)
+		Reporter(r.reporter).
+		Inputs(r.inputs)
+	refReader.referrer = r
 	refReader.model = concepts.NewModel()
 
 	// Initialize the indexes of undefined concepts:
-- 
2.43.0


From 764450df6ea500de748af3d6723ece02a8b910f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:35 +0000
Subject: [PATCH 25/33] fix: copying an object with an empty map keeps the map

---
 pkg/generators/golang/builders_generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/generators/golang/builders_generator.go b/pkg/generators/golang/builders_generator.go
index 7e2d49f..c525cfd 100644
--- a/pkg/generators/golang/builders_generator.go
+++ b/pkg/generators/golang/builders_generator.go
@@ -371,7 +371,7 @@ func (g *BuildersGenerator) generateStructBuilderSource(typ *concepts.Type) {
 						b.{{ $fieldName }} = nil
 					}
 				{{ else if .Type.IsMap }}
-					if len(object.{{ $fieldName }}) > 0 {
+					if object.{{ $fieldName }} != nil {
 						{{ if .Type.Element.IsScalar }}
 							b.{{ $fieldName }} = {{ $fieldType }}{}
 							for k, v := range object.{{ $fieldName }} {
-- 
2.43.0


From 1e9644f38adef4a79d6b72a7e2573f88fd6a7703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:35 +0000
Subject: [PATCH 26/33] fix: text of errors with a nil timestamp doesn't panic

---
 pkg/generators/golang/errors_generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/generators/golang/errors_generator.go b/pkg/generators/golang/errors_generator.go
index a88ecaf..188fe17 100644
--- a/pkg/generators/golang/errors_generator.go
+++ b/pkg/generators/golang/errors_generator.go
@@ -472,7 +472,7 @@ func (g *ErrorsGenerator) generateCommonErrors() error {
 			if e.bitmap_&8 != 0 {
 				chunks = append(chunks, fmt.Sprintf("code is '%s'", e.code))
 			}
-			if e.bitmap_&128 != 0 {
+			if e.bitmap_&128 != 0 && e.timestamp != nil {
 				chunks = append(chunks, fmt.Sprintf("at '%v'", e.timestamp.Format(time.RFC3339)))
 			}
 			if e.bitmap_&32 != 0 {
-- 
2.43.0


From 1f6e3cac17e66d1b46add7038f70f699032f036c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:13 +0000
Subject: [PATCH 27/33] fix: getters of nil poll and metadata responses don't
 panic

---
 pkg/generators/golang/clients_generator.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/generators/golang/clients_generator.go b/pkg/generators/golang/clients_generator.go
index 4cb2e3c..0ccf91b 100644
--- a/pkg/generators/golang/clients_generator.go
+++ b/pkg/generators/golang/clients_generator.go
@@ -422,6 +422,9 @@ func (g *ClientsGenerator) generateVersionMetadataClientSource(version *concepts
 
 		// Body returns the response body.
 		func (r *MetadataResponse) Body() *Metadata {
+			if r == nil {
+				return nil
+			}
 			return r.body
 		}
 		`,
@@ -723,6 +726,9 @@ func (g *ClientsGenerator) generatePollMethodSource(resource *concepts.Resource,
 			//
 			{{ lineComment .Doc }}
 			func (r *{{ $responseName }}) {{ $getterName }}() {{ $getterType }} {
+				if r == nil {
+					return {{ zeroValue .Type }}
+				}
 				return r.response.{{ $getterName }}()
 			}
 
@@ -731,6 +737,9 @@ func (g *ClientsGenerator) generatePollMethodSource(resource *concepts.Resource,
 			//
 			{{ lineComment .Doc }}
 			func (r *{{ $responseName }}) Get{{ $getterName }}() (value {{ $getterType }}, ok bool) {
+				if r == nil {
+					return
+				}
 				return r.response.Get{{ $getterName }}()
 			}
 		{{ end }}
-- 
2.43.0


From aaaa1f1a31d3c3698bc103a9a2767497f82b13b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:52 +0000
Subject: [PATCH 28/33] fix: read map entries with an empty key

---
 pkg/generators/golang/json_generator.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pkg/generators/golang/json_generator.go b/pkg/generators/golang/json_generator.go
index a93dc5c..7d12337 100644
--- a/pkg/generators/golang/json_generator.go
+++ b/pkg/generators/golang/json_generator.go
@@ -1326,6 +1326,7 @@ func (g *JSONSupportGenerator) generateReadValue(variable string, typ *concepts.
 	link bool,
 	linkOwner *concepts.Version) string {
 	g.buffer.Import("time", "")
+	g.buffer.Import("github.com/json-iterator/go", "jsoniter")
 	return g.buffer.Eval(`
 		{{ if .Type.IsBoolean }}
 			{{ .Variable }} := iterator.ReadBool()
@@ -1378,14 +1379,11 @@ func (g *JSONSupportGenerator) generateReadValue(variable string, typ *concepts.
 			{{ end }}
 		{{ else if .Type.IsMap }}
 			{{ .Variable }} := {{ valueReference .Type }}{}
-			for {
-				key := iterator.ReadObject()
-				if key == "" {
-					break
-				}
+			iterator.ReadMapCB(func(iterator *jsoniter.Iterator, key string) bool {
 				{{ generateReadValue "item" .Type.Element false .LinkOwner }}
 				{{ .Variable }}[key] = item
-			}
+				return true
+			})
 		{{ else }}
 			iterator.ReadAny()
 		{{ end }}
-- 
2.43.0


From f139c6577164334fa732ff35f22d9978e9106673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:17 +0000
Subject: [PATCH 29/33] fix: write the keys of free form values always in the
 same order

---
 pkg/generators/golang/json_generator.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/generators/golang/json_generator.go b/pkg/generators/golang/json_generator.go
index 7d12337..80bd027 100644
--- a/pkg/generators/golang/json_generator.go
+++ b/pkg/generators/golang/json_generator.go
@@ -275,6 +275,7 @@ func (g *JSONSupportGenerator) generateHelpers() error {
 		func NewStream(writer io.Writer) *jsoniter.Stream {
 			config := jsoniter.Config{
 				IndentionStep: 2,
+				SortMapKeys:   true,
 			}
 			api := config.Froze()
 			return jsoniter.NewStream(api, writer, 0)
-- 
2.43.0


From 1dccb4fc5e599076706c87358b3a5a75c53764e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:56 +0000
Subject: [PATCH 30/33] fix: import the packages of links to types that are
 also embedded

---
 pkg/generators/golang/builders_generator.go | 6 ++++++
 pkg/generators/golang/types_generator.go    | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/pkg/generators/golang/builders_generator.go b/pkg/generators/golang/builders_generator.go
index c525cfd..05ae6e8 100644
--- a/pkg/generators/golang/builders_generator.go
+++ b/pkg/generators/golang/builders_generator.go
@@ -208,6 +208,12 @@ func (g *BuildersGenerator) generateStructBuilderFile(typ *concepts.Type) error
 }
 
 func (g *BuildersGenerator) generateStructBuilderSource(typ *concepts.Type) {
+	for _, attribute := range typ.Attributes() {
+		owner := attribute.LinkOwner()
+		if owner != nil {
+			g.buffer.Import(g.packages.VersionImport(owner), g.packages.VersionSelector(owner))
+		}
+	}
 	g.buffer.Emit(`
 		{{ $builderName := builderName .Type }}
 		{{ $builderCtor := builderCtor .Type }}
diff --git a/pkg/generators/golang/types_generator.go b/pkg/generators/golang/types_generator.go
index 3828bf1..20e6981 100644
--- a/pkg/generators/golang/types_generator.go
+++ b/pkg/generators/golang/types_generator.go
@@ -308,6 +308,12 @@ func (g *TypesGenerator) generateEnumTypeSource(typ *concepts.Type) {
 }
 
 func (g *TypesGenerator) generateStructTypeSource(typ *concepts.Type) {
+	for _, attribute := range typ.Attributes() {
+		owner := attribute.LinkOwner()
+		if owner != nil {
+			g.buffer.Import(g.packages.VersionImport(owner), g.packages.VersionSelector(owner))
+		}
+	}
 	g.buffer.Import("time", "")
 	g.buffer.Emit(`
 		{{ $objectName := objectName .Type }}
-- 
2.43.0


From 555d2d25142001211632e6c282258abc6a73ad4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:00 +0000
Subject: [PATCH 31/33] fix: generate OpenAPI schemas for the types of links to
 other versions

---
 pkg/generators/openapi/openapi_generator.go | 26 ++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/pkg/generators/openapi/openapi_generator.go b/pkg/generators/openapi/openapi_generator.go
index 0774941..6cd02be 100644
--- a/pkg/generators/openapi/openapi_generator.go
+++ b/pkg/generators/openapi/openapi_generator.go
@@ -447,7 +447,7 @@ func (g *OpenAPIGenerator) generateComponents(version *concepts.Version) {
 	// Schemas:
 	g.buffer.StartObject("schemas")
 	g.generateMetadataSchema()
-	for _, typ := range version.Types() {
+	for _, typ := range g.schemaTypes(version) {
 		g.generateSchema(typ)
 	}
 	g.generateErrorSchema()
@@ -465,6 +465,30 @@ func (g *OpenAPIGenerator) generateComponents(version *concepts.Version) {
 	g.buffer.EndObject()
 }
 
+// schemaTypes returns the types that need a schema: the types of the version and, if it has links to types of
+// other versions, those types and the ones that they use.
+func (g *OpenAPIGenerator) schemaTypes(version *concepts.Version) concepts.TypeSlice {
+	types := version.Types()
+	known := map[string]bool{}
+	for _, typ := range types {
+		known[g.names.SchemaName(typ)] = true
+	}
+	for i := 0; i < len(types); i++ {
+		for _, attribute := range types[i].Attributes() {
+			typ := attribute.Type()
+			if typ.IsList() || typ.IsMap() {
+				typ = typ.Element()
+			}
+			name := g.names.SchemaName(typ)
+			if (typ.IsEnum() || typ.IsStruct()) && !known[name] {
+				known[name] = true
+				types = append(types, typ)
+			}
+		}
+	}
+	return types
+}
+
 func (g *OpenAPIGenerator) generateSchema(typ *concepts.Type) {
 	switch {
 	case typ.IsEnum():
-- 
2.43.0


From 5407d0e719cbf0d9bfa405df724d3b069da1aee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:45 +0000
Subject: [PATCH 32/33] fix: don't join words of different lines in summaries
 of documentation

---
 pkg/generators/docs/docs_generator.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/generators/docs/docs_generator.go b/pkg/generators/docs/docs_generator.go
index 1b4233e..a6f85df 100644
--- a/pkg/generators/docs/docs_generator.go
+++ b/pkg/generators/docs/docs_generator.go
@@ -410,8 +410,10 @@ func (g *DocsGenerator) docSummary(object concepts.Documented) string {
 	index := strings.IndexRune(doc, '.')
 	if index != -1 {
 		doc = doc[0 : index+1]
-		doc = strings.ReplaceAll(doc, "\n", "")
 	}
 
+	// Summaries are used in tables, so they can't have multiple lines:
+	doc = strings.ReplaceAll(doc, "\n", " ")
+
 	return doc
 }
-- 
2.43.0


From f58e8fe702757be7bb42752b708f7c243790ed68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:45 +0000
Subject: [PATCH 33/33] fix: don't add to the index of the documentation links
 to pages that don't exist

---
 pkg/generators/docs/docs_generator.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/generators/docs/docs_generator.go b/pkg/generators/docs/docs_generator.go
index a6f85df..a7988f5 100644
--- a/pkg/generators/docs/docs_generator.go
+++ b/pkg/generators/docs/docs_generator.go
@@ -194,7 +194,9 @@ func (g *DocsGenerator) documentIndex() {
 		{{ range .Model.Services }}
 			{{ range .Versions }}
 				{{ range .Types }}
-					[{{ displayName . }}]({{ resourceFile . }}.md)
+					{{ if or .IsEnum .IsStruct }}
+						[{{ displayName . }}]({{ resourceFile . }}.md)
+					{{ end }}
 				{{ end }}
 			{{ end }}
 		{{ end }}
-- 
2.43.0

