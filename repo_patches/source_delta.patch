From 4b543f12daa4eedfb9527907d26a941a88831705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:55 +0000
Subject: [PATCH 01/12] fix: AddOperation detects an existing operation for a
 path pattern with regexp placeholders

The existence check used the raw path pattern while operations are stored under the sanitized one,
so adding /a/{id:[0-9]+} twice silently replaced the first operation.
---
 openapi3/helper.go  | 6 +++++-
 openapi31/helper.go | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/openapi3/helper.go b/openapi3/helper.go
index b215205..092c31c 100644
--- a/openapi3/helper.go
+++ b/openapi3/helper.go
@@ -98,7 +98,11 @@ func (s *Spec) SetupOperation(method, path string, setup ...func(*Operation) err
 //
 // It will fail if operation with method and path already exists.
 func (s *Spec) AddOperation(method, path string, operation Operation) error {
-	method = strings.ToLower(method)
+	method, path, _, err := openapi.SanitizeMethodPath(method, path)
+	if err != nil {
+		return err
+	}
+
 	pathItem := s.Paths.MapOfPathItemValues[path]
 
 	if _, found := pathItem.MapOfOperationValues[method]; found {
diff --git a/openapi31/helper.go b/openapi31/helper.go
index 533a613..cedc608 100644
--- a/openapi31/helper.go
+++ b/openapi31/helper.go
@@ -153,7 +153,10 @@ func (o *Operation) validatePathParams(pathParams map[string]bool) error {
 //
 // It will fail if operation with method and path already exists.
 func (s *Spec) AddOperation(method, path string, operation Operation) error {
-	method = strings.ToLower(method)
+	method, path, _, err := openapi.SanitizeMethodPath(method, path)
+	if err != nil {
+		return err
+	}
 
 	pathItem := s.PathsEns().MapOfPathItemValues[path]
 
-- 
2.43.0


From b10ca4d0539fa1f52c2d6e703049dcad592b4bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:53 +0000
Subject: [PATCH 02/12] fix: keep exclusive maximum and minimum values when
 converting JSON Schema to OpenAPI 3.0

---
 openapi3/jsonschema.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openapi3/jsonschema.go b/openapi3/jsonschema.go
index 1cf4b82..cff6d12 100644
--- a/openapi3/jsonschema.go
+++ b/openapi3/jsonschema.go
@@ -262,14 +262,14 @@ func (s *SchemaOrRef) FromJSONSchema(schema jsonschema.SchemaOrBool) {
 
 	if js.ExclusiveMaximum != nil {
 		os.WithExclusiveMaximum(true)
-		os.Maximum = js.Maximum
+		os.Maximum = js.ExclusiveMaximum
 	} else if js.Maximum != nil {
 		os.Maximum = js.Maximum
 	}
 
 	if js.ExclusiveMinimum != nil {
 		os.WithExclusiveMinimum(true)
-		os.Minimum = js.Minimum
+		os.Minimum = js.ExclusiveMinimum
 	} else if js.Minimum != nil {
 		os.Minimum = js.Minimum
 	}
-- 
2.43.0


From 069e633879ebe73a92ecc14677262690ed7f150f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:06 +0000
Subject: [PATCH 03/12] fix: keep the operation when the deprecated operation
 context is retrieved

---
 openapi3/reflect.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openapi3/reflect.go b/openapi3/reflect.go
index 8f9d147..a5481cc 100644
--- a/openapi3/reflect.go
+++ b/openapi3/reflect.go
@@ -235,6 +235,10 @@ func toOpCtx(c OperationContext) operationContext {
 func fromOpCtx(oc openapi.OperationContext) OperationContext {
 	c := OperationContext{}
 
+	if e, ok := oc.(OperationExposer); ok {
+		c.Operation = e.Operation()
+	}
+
 	c.HTTPMethod = oc.Method()
 
 	if req := oc.Request(); len(req) > 0 {
-- 
2.43.0


From 3d7f68d998d42ae39b14f8c12a1ac3e1edd89046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:43 +0000
Subject: [PATCH 04/12] fix: keep response headers of earlier units with the
 same status

---
 openapi3/reflect.go  | 8 +++++++-
 openapi31/reflect.go | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/openapi3/reflect.go b/openapi3/reflect.go
index a5481cc..99a1b1f 100644
--- a/openapi3/reflect.go
+++ b/openapi3/reflect.go
@@ -642,7 +642,13 @@ func (r *Reflector) parseResponseHeader(resp *Response, oc openapi.OperationCont
 		return err
 	}
 
-	resp.Headers = res
+	if resp.Headers == nil {
+		resp.Headers = res
+	} else {
+		for name, header := range res {
+			resp.Headers[name] = header
+		}
+	}
 
 	if schema.Description != nil && resp.Description == "" {
 		resp.Description = *schema.Description
diff --git a/openapi31/reflect.go b/openapi31/reflect.go
index 4be25f9..cefdbd4 100644
--- a/openapi31/reflect.go
+++ b/openapi31/reflect.go
@@ -608,7 +608,13 @@ func (r *Reflector) parseResponseHeader(resp *Response, oc openapi.OperationCont
 		return err
 	}
 
-	resp.Headers = res
+	if resp.Headers == nil {
+		resp.Headers = res
+	} else {
+		for name, header := range res {
+			resp.Headers[name] = header
+		}
+	}
 
 	if schema.Description != nil && resp.Description == "" {
 		resp.Description = *schema.Description
-- 
2.43.0


From 484bf3662a6d14ba06333460a434415a77099a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:35 +0000
Subject: [PATCH 05/12] fix: no panic on response headers whose schema is a
 reference

---
 openapi3/reflect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openapi3/reflect.go b/openapi3/reflect.go
index 99a1b1f..477195b 100644
--- a/openapi3/reflect.go
+++ b/openapi3/reflect.go
@@ -618,7 +618,7 @@ func (r *Reflector) parseResponseHeader(resp *Response, oc openapi.OperationCont
 
 			header := Header{
 				Description:   propertySchema.Description,
-				Deprecated:    s.Schema.Deprecated,
+				Deprecated:    propertySchema.Deprecated,
 				Schema:        &s,
 				Content:       nil,
 				Example:       nil,
-- 
2.43.0


From 0f84c5e766d5448a317e04b5f683c65c820963dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:27 +0000
Subject: [PATCH 06/12] fix: no endless recursion on parameters of recursive
 types

---
 openapi3/reflect.go  | 6 +++++-
 openapi31/reflect.go | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/openapi3/reflect.go b/openapi3/reflect.go
index 477195b..4b9301e 100644
--- a/openapi3/reflect.go
+++ b/openapi3/reflect.go
@@ -523,8 +523,12 @@ func (r *Reflector) parseParametersIn(
 			} else {
 				ps, err := r.Reflect(reflect.New(field.Type).Interface(),
 					openapi.WithOperationCtx(oc, false, in),
-					jsonschema.InlineRefs,
 					sanitizeDefName,
+					func(rc *jsonschema.ReflectContext) {
+						// Only the type is needed, nested references are not inlined as they may be recursive.
+						rc.RootRef = false
+						rc.CollectDefinitions = nil
+					},
 				)
 				if err != nil {
 					return err
diff --git a/openapi31/reflect.go b/openapi31/reflect.go
index cefdbd4..b723bcb 100644
--- a/openapi31/reflect.go
+++ b/openapi31/reflect.go
@@ -484,8 +484,12 @@ func (r *Reflector) parseParametersIn(
 			} else {
 				ps, err := r.Reflect(reflect.New(field.Type).Interface(),
 					openapi.WithOperationCtx(oc, false, in),
-					jsonschema.InlineRefs,
 					sanitizeDefName,
+					func(rc *jsonschema.ReflectContext) {
+						// Only the type is needed, nested references are not inlined as they may be recursive.
+						rc.RootRef = false
+						rc.CollectDefinitions = nil
+					},
 				)
 				if err != nil {
 					return err
-- 
2.43.0


From 3e2b8106c824c4298bb675290c6c1cbd98013589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:27 +0000
Subject: [PATCH 07/12] fix: report schemas of a default response, no panic on
 a reference to response

---
 openapi3/walk_schema.go  | 9 +++++++++
 openapi31/walk_schema.go | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/openapi3/walk_schema.go b/openapi3/walk_schema.go
index 877a252..3e1d556 100644
--- a/openapi3/walk_schema.go
+++ b/openapi3/walk_schema.go
@@ -38,6 +38,15 @@ func (r *Reflector) WalkResponseJSONSchemas(cu openapi.ContentUnit, cb openapi.J
 		resp = r.Response
 	}
 
+	if op.Responses.Default != nil {
+		resp = op.Responses.Default.Response
+	}
+
+	// There are no schemas to report in a reference to response.
+	if resp == nil {
+		return nil
+	}
+
 	if err := r.provideHeaderSchemas(resp, cb); err != nil {
 		return err
 	}
diff --git a/openapi31/walk_schema.go b/openapi31/walk_schema.go
index 55aa781..7ed60cb 100644
--- a/openapi31/walk_schema.go
+++ b/openapi31/walk_schema.go
@@ -38,6 +38,15 @@ func (r *Reflector) WalkResponseJSONSchemas(cu openapi.ContentUnit, cb openapi.J
 		resp = r.Response
 	}
 
+	if op.Responses.Default != nil {
+		resp = op.Responses.Default.Response
+	}
+
+	// There are no schemas to report in a reference to response.
+	if resp == nil {
+		return nil
+	}
+
 	if err := r.provideHeaderSchemas(resp, cb); err != nil {
 		return err
 	}
-- 
2.43.0


From 9d3b06075100880e438fbef07ee5275adb9540f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:27 +0000
Subject: [PATCH 08/12] fix: report schemas of a recursive form

---
 openapi3/walk_schema.go  | 23 +++++++++++++++++++++--
 openapi31/walk_schema.go | 23 +++++++++++++++++++++--
 2 files changed, 42 insertions(+), 4 deletions(-)

diff --git a/openapi3/walk_schema.go b/openapi3/walk_schema.go
index 3e1d556..2641086 100644
--- a/openapi3/walk_schema.go
+++ b/openapi3/walk_schema.go
@@ -3,6 +3,7 @@ package openapi3
 import (
 	"fmt"
 	"net/http"
+	"strings"
 
 	"github.com/swaggest/jsonschema-go"
 	"github.com/swaggest/openapi-go"
@@ -148,7 +149,9 @@ func (r *Reflector) WalkRequestJSONSchemas(
 }
 
 func provideFormDataSchemas(schema jsonschema.SchemaOrBool, cb openapi.JSONSchemaCallback) error {
-	for name, propertySchema := range schema.TypeObject.Properties {
+	form := resolveForm(schema.TypeObject)
+
+	for name, propertySchema := range form.Properties {
 		propertySchema := propertySchema
 
 		if propertySchema.TypeObject != nil && len(schema.TypeObject.ExtraProperties) > 0 {
@@ -159,7 +162,7 @@ func provideFormDataSchemas(schema jsonschema.SchemaOrBool, cb openapi.JSONSchem
 
 		isRequired := false
 
-		for _, req := range schema.TypeObject.Required {
+		for _, req := range form.Required {
 			if req == name {
 				isRequired = true
 
@@ -176,6 +179,22 @@ func provideFormDataSchemas(schema jsonschema.SchemaOrBool, cb openapi.JSONSchem
 	return nil
 }
 
+// resolveForm provides the schema a reference to a recursive form points to.
+func resolveForm(schema *jsonschema.Schema) *jsonschema.Schema {
+	if schema.Ref == nil {
+		return schema
+	}
+
+	components, _ := schema.ExtraProperties["components"].(map[string]interface{})
+	schemas, _ := components["schemas"].(map[string]jsonschema.SchemaOrBool)
+
+	if target := schemas[strings.TrimPrefix(*schema.Ref, componentsSchemas)]; target.TypeObject != nil {
+		return target.TypeObject
+	}
+
+	return schema
+}
+
 func (r *Reflector) provideParametersJSONSchemas(op *Operation, cb openapi.JSONSchemaCallback) error {
 	for _, p := range op.Parameters {
 		pp := p.Parameter
diff --git a/openapi31/walk_schema.go b/openapi31/walk_schema.go
index 7ed60cb..5b3700b 100644
--- a/openapi31/walk_schema.go
+++ b/openapi31/walk_schema.go
@@ -3,6 +3,7 @@ package openapi31
 import (
 	"fmt"
 	"net/http"
+	"strings"
 
 	"github.com/swaggest/jsonschema-go"
 	"github.com/swaggest/openapi-go"
@@ -148,7 +149,9 @@ func (r *Reflector) WalkRequestJSONSchemas(
 }
 
 func provideFormDataSchemas(schema jsonschema.SchemaOrBool, cb openapi.JSONSchemaCallback) error {
-	for name, propertySchema := range schema.TypeObject.Properties {
+	form := resolveForm(schema.TypeObject)
+
+	for name, propertySchema := range form.Properties {
 		propertySchema := propertySchema
 
 		if propertySchema.TypeObject != nil && len(schema.TypeObject.ExtraProperties) > 0 {
@@ -159,7 +162,7 @@ func provideFormDataSchemas(schema jsonschema.SchemaOrBool, cb openapi.JSONSchem
 
 		isRequired := false
 
-		for _, req := range schema.TypeObject.Required {
+		for _, req := range form.Required {
 			if req == name {
 				isRequired = true
 
@@ -176,6 +179,22 @@ func provideFormDataSchemas(schema jsonschema.SchemaOrBool, cb openapi.JSONSchem
 	return nil
 }
 
+// resolveForm provides the schema a reference to a recursive form points to.
+func resolveForm(schema *jsonschema.Schema) *jsonschema.Schema {
+	if schema.Ref == nil {
+		return schema
+	}
+
+	components, _ := schema.ExtraProperties["components"].(map[string]interface{})
+	schemas, _ := components["schemas"].(map[string]jsonschema.SchemaOrBool)
+
+	if target := schemas[strings.TrimPrefix(*schema.Ref, componentsSchemas)]; target.TypeObject != nil {
+		return target.TypeObject
+	}
+
+	return schema
+}
+
 func (r *Reflector) provideParametersJSONSchemas(op *Operation, cb openapi.JSONSchemaCallback) error {
 	for _, p := range op.Parameters {
 		pp := p.Parameter
-- 
2.43.0


From cb8dd98eca7827bd637fa515979c85ec0ba599d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:49 +0000
Subject: [PATCH 09/12] fix: decode examples of OpenAPI 3.1

---
 openapi31/entities.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/openapi31/entities.go b/openapi31/entities.go
index e84efa5..23c15f1 100644
--- a/openapi31/entities.go
+++ b/openapi31/entities.go
@@ -1884,10 +1884,15 @@ var knownKeysExample = []string{
 func (e *Example) UnmarshalJSON(data []byte) error {
 	var err error
 
-	var not interface{}
+	var not map[string]json.RawMessage
 
 	if json.Unmarshal(data, &not) == nil {
-		return errors.New("not constraint failed for Example")
+		_, hasValue := not["value"]
+		_, hasExternalValue := not["externalValue"]
+
+		if hasValue && hasExternalValue {
+			return errors.New("not constraint failed for Example")
+		}
 	}
 
 	me := marshalExample(*e)
-- 
2.43.0


From 896c5ceb07c70704ac90613da1c7b59c0621c450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:50 +0000
Subject: [PATCH 10/12] fix: decode references of OpenAPI 3.1 that match the
 referred entity too

---
 openapi31/entities.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/openapi31/entities.go b/openapi31/entities.go
index 23c15f1..febd5c8 100644
--- a/openapi31/entities.go
+++ b/openapi31/entities.go
@@ -2006,6 +2006,13 @@ func (e *ExampleOrReference) UnmarshalJSON(data []byte) error {
 		oneOfValid++
 	}
 
+	// An object with $ref is a reference, whatever else it has.
+	if e.Reference != nil {
+		e.Example = nil
+
+		return nil
+	}
+
 	err = json.Unmarshal(data, &e.Example)
 	if err != nil {
 		oneOfErrors["Example"] = err
@@ -3298,6 +3305,13 @@ func (l *LinkOrReference) UnmarshalJSON(data []byte) error {
 		oneOfValid++
 	}
 
+	// An object with $ref is a reference, whatever else it has.
+	if l.Reference != nil {
+		l.Link = nil
+
+		return nil
+	}
+
 	err = json.Unmarshal(data, &l.Link)
 	if err != nil {
 		oneOfErrors["Link"] = err
@@ -3369,6 +3383,13 @@ func (r *ResponseOrReference) UnmarshalJSON(data []byte) error {
 		oneOfValid++
 	}
 
+	// An object with $ref is a reference, whatever else it has.
+	if r.Reference != nil {
+		r.Response = nil
+
+		return nil
+	}
+
 	err = json.Unmarshal(data, &r.Response)
 	if err != nil {
 		oneOfErrors["Response"] = err
@@ -3539,6 +3560,13 @@ func (p *PathItemOrReference) UnmarshalJSON(data []byte) error {
 		oneOfValid++
 	}
 
+	// An object with $ref is a reference, whatever else it has.
+	if p.Reference != nil {
+		p.PathItem = nil
+
+		return nil
+	}
+
 	err = json.Unmarshal(data, &p.PathItem)
 	if err != nil {
 		oneOfErrors["PathItem"] = err
-- 
2.43.0


From 022de82a3ecb7540cd89e290a2aa78b4e17c3492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:41 +0000
Subject: [PATCH 11/12] fix: keep large integers when encoding to YAML

---
 openapi3/yaml.go  | 6 +++++-
 openapi31/yaml.go | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/openapi3/yaml.go b/openapi3/yaml.go
index 458e378..dd7d601 100644
--- a/openapi3/yaml.go
+++ b/openapi3/yaml.go
@@ -50,7 +50,11 @@ type orderedMap []yaml.MapItem
 func (om *orderedMap) UnmarshalJSON(data []byte) error {
 	var mapData map[string]interface{}
 
-	err := json.Unmarshal(data, &mapData)
+	// Numbers are kept as they are, float64 can not hold every integer.
+	dec := json.NewDecoder(bytes.NewReader(data))
+	dec.UseNumber()
+
+	err := dec.Decode(&mapData)
 	if err != nil {
 		return err
 	}
diff --git a/openapi31/yaml.go b/openapi31/yaml.go
index 4e9bb9e..1524ee7 100644
--- a/openapi31/yaml.go
+++ b/openapi31/yaml.go
@@ -50,7 +50,11 @@ type orderedMap []yaml.MapItem
 func (om *orderedMap) UnmarshalJSON(data []byte) error {
 	var mapData map[string]interface{}
 
-	err := json.Unmarshal(data, &mapData)
+	// Numbers are kept as they are, float64 can not hold every integer.
+	dec := json.NewDecoder(bytes.NewReader(data))
+	dec.UseNumber()
+
+	err := dec.Decode(&mapData)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 1eb5076f208acbafafa4ec3530537db55c9c0a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:58 +0000
Subject: [PATCH 12/12] fix: find references in every keyword that holds
 schemas (OpenAPI 3.1)

---
 openapi31/jsonschema.go | 57 ++++++++++++++++++++++++++++++++++++++---
 1 file changed, 53 insertions(+), 4 deletions(-)

diff --git a/openapi31/jsonschema.go b/openapi31/jsonschema.go
index 62429f7..b6f459d 100644
--- a/openapi31/jsonschema.go
+++ b/openapi31/jsonschema.go
@@ -84,12 +84,14 @@ func findReferences(js jsonschema.SchemaOrBool, ctx toJSONSchemaContext) {
 
 			ctx.refsCount[dstName]++
 		}
-
-		return
 	}
 
-	if jso.Not != nil {
-		findReferences(*jso.Not, ctx)
+	for _, sub := range []*jsonschema.SchemaOrBool{
+		jso.Not, jso.If, jso.Then, jso.Else, jso.Contains, jso.PropertyNames, jso.AdditionalItems,
+	} {
+		if sub != nil {
+			findReferences(*sub, ctx)
+		}
 	}
 
 	for _, allOf := range jso.AllOf {
@@ -118,7 +120,54 @@ func findReferences(js jsonschema.SchemaOrBool, ctx toJSONSchemaContext) {
 		findReferences(propSchema, ctx)
 	}
 
+	for _, propSchema := range jso.PatternProperties {
+		findReferences(propSchema, ctx)
+	}
+
+	for _, def := range jso.Definitions {
+		findReferences(def, ctx)
+	}
+
+	for _, dep := range jso.Dependencies {
+		if dep.SchemaOrBool != nil {
+			findReferences(*dep.SchemaOrBool, ctx)
+		}
+	}
+
 	if jso.AdditionalProperties != nil {
 		findReferences(*jso.AdditionalProperties, ctx)
 	}
+
+	// Keywords of JSON Schema 2020-12 that jsonschema.Schema keeps among extra properties.
+	for _, k := range []string{"unevaluatedItems", "unevaluatedProperties", "contentSchema"} {
+		findExtraReferences(jso.ExtraProperties[k], ctx)
+	}
+
+	if items, ok := jso.ExtraProperties["prefixItems"].([]interface{}); ok {
+		for _, item := range items {
+			findExtraReferences(item, ctx)
+		}
+	}
+
+	for _, k := range []string{"$defs", "dependentSchemas"} {
+		if defs, ok := jso.ExtraProperties[k].(map[string]interface{}); ok {
+			for _, def := range defs {
+				findExtraReferences(def, ctx)
+			}
+		}
+	}
+}
+
+func findExtraReferences(v interface{}, ctx toJSONSchemaContext) {
+	m, ok := v.(map[string]interface{})
+	if !ok {
+		return
+	}
+
+	js := jsonschema.SchemaOrBool{}
+	if err := js.FromSimpleMap(m); err != nil {
+		panic("BUG: " + err.Error())
+	}
+
+	findReferences(js, ctx)
 }
-- 
2.43.0

