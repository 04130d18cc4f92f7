From 1f6264cdcb11259f491db84804e931cca80d511c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:17 +0000
Subject: [PATCH 01/18] fix: do not panic on empty keys in documents, types and
 examples

---
 v0/gen/example-m.tpl                      | 2 +-
 v0/internal/raml/APISpec.go               | 4 ++--
 v0/internal/raml/Library.go               | 2 +-
 v0/internal/raml/in-components.go         | 2 +-
 v0/internal/raml/x-gen-ex-any.go          | 2 +-
 v0/internal/raml/x-gen-ex-array.go        | 2 +-
 v0/internal/raml/x-gen-ex-bool.go         | 2 +-
 v0/internal/raml/x-gen-ex-custom.go       | 2 +-
 v0/internal/raml/x-gen-ex-dateonly.go     | 2 +-
 v0/internal/raml/x-gen-ex-datetime.go     | 2 +-
 v0/internal/raml/x-gen-ex-datetimeonly.go | 2 +-
 v0/internal/raml/x-gen-ex-file.go         | 2 +-
 v0/internal/raml/x-gen-ex-integer.go      | 2 +-
 v0/internal/raml/x-gen-ex-number.go       | 2 +-
 v0/internal/raml/x-gen-ex-object.go       | 2 +-
 v0/internal/raml/x-gen-ex-string.go       | 2 +-
 v0/internal/raml/x-gen-ex-timeonly.go     | 2 +-
 v0/internal/raml/x-gen-ex-union.go        | 2 +-
 18 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/v0/gen/example-m.tpl b/v0/gen/example-m.tpl
index e2d59fa..58a8549 100644
--- a/v0/gen/example-m.tpl
+++ b/v0/gen/example-m.tpl
@@ -157,7 +157,7 @@ func (e *{{.Name}}Example) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if key.Value != "" && key.Value[0] == '(' {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/APISpec.go b/v0/internal/raml/APISpec.go
index c361b69..3900945 100644
--- a/v0/internal/raml/APISpec.go
+++ b/v0/internal/raml/APISpec.go
@@ -379,7 +379,7 @@ func (a *APISpec) assign(k, v *yaml.Node) error {
 		return nil
 	}
 
-	if k.Value[0] == '(' {
+	if k.Value != "" && k.Value[0] == '(' {
 		tmp := raml.NewUntypedMap(len(v.Content) / 2)
 		if err := UnmarshalUntypedMapRAML(tmp, v); err != nil {
 			return err
@@ -388,7 +388,7 @@ func (a *APISpec) assign(k, v *yaml.Node) error {
 		return nil
 	}
 
-	if k.Value[0] == '/' {
+	if k.Value != "" && k.Value[0] == '/' {
 		a.resources.Put(k.Value, v)
 		return nil
 	}
diff --git a/v0/internal/raml/Library.go b/v0/internal/raml/Library.go
index dc1be5e..a2c8417 100644
--- a/v0/internal/raml/Library.go
+++ b/v0/internal/raml/Library.go
@@ -227,7 +227,7 @@ func (l *Library) assign(k, v *yaml.Node) error {
 		return UnmarshalUntypedMapRAML(l.securitySchemes, v)
 	}
 
-	if xyml.IsString(k) && k.Value[0] == '(' {
+	if xyml.IsString(k) && k.Value != "" && k.Value[0] == '(' {
 		tmp := raml.NewUntypedMap(len(v.Content) / 2)
 		if err := UnmarshalUntypedMapRAML(tmp, v); err != nil {
 			return err
diff --git a/v0/internal/raml/in-components.go b/v0/internal/raml/in-components.go
index 62b84b1..f29819b 100644
--- a/v0/internal/raml/in-components.go
+++ b/v0/internal/raml/in-components.go
@@ -24,7 +24,7 @@ func (h *hasAnnotations) out(out raml.AnyMap) {
 }
 
 func (h *hasAnnotations) in(k string, v *yaml.Node) (bool, error) {
-	if k[0] != '(' {
+	if k == "" || k[0] != '(' {
 		return false, nil
 	}
 
diff --git a/v0/internal/raml/x-gen-ex-any.go b/v0/internal/raml/x-gen-ex-any.go
index f6f00e3..55002df 100644
--- a/v0/internal/raml/x-gen-ex-any.go
+++ b/v0/internal/raml/x-gen-ex-any.go
@@ -151,7 +151,7 @@ func (e *AnyExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if key.Value != "" && key.Value[0] == '(' {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-array.go b/v0/internal/raml/x-gen-ex-array.go
index b2b7c78..258f468 100644
--- a/v0/internal/raml/x-gen-ex-array.go
+++ b/v0/internal/raml/x-gen-ex-array.go
@@ -151,7 +151,7 @@ func (e *ArrayExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if key.Value != "" && key.Value[0] == '(' {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-bool.go b/v0/internal/raml/x-gen-ex-bool.go
index 57d54a0..fcac53a 100644
--- a/v0/internal/raml/x-gen-ex-bool.go
+++ b/v0/internal/raml/x-gen-ex-bool.go
@@ -151,7 +151,7 @@ func (e *BoolExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if key.Value != "" && key.Value[0] == '(' {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-custom.go b/v0/internal/raml/x-gen-ex-custom.go
index 1b2921e..e3ebae2 100644
--- a/v0/internal/raml/x-gen-ex-custom.go
+++ b/v0/internal/raml/x-gen-ex-custom.go
@@ -151,7 +151,7 @@ func (e *CustomExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if key.Value != "" && key.Value[0] == '(' {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-dateonly.go b/v0/internal/raml/x-gen-ex-dateonly.go
index 978a154..a664523 100644
--- a/v0/internal/raml/x-gen-ex-dateonly.go
+++ b/v0/internal/raml/x-gen-ex-dateonly.go
@@ -151,7 +151,7 @@ func (e *DateOnlyExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if key.Value != "" && key.Value[0] == '(' {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-datetime.go b/v0/internal/raml/x-gen-ex-datetime.go
index 41892ba..a7fc44b 100644
--- a/v0/internal/raml/x-gen-ex-datetime.go
+++ b/v0/internal/raml/x-gen-ex-datetime.go
@@ -151,7 +151,7 @@ func (e *DatetimeExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if key.Value != "" && key.Value[0] == '(' {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-datetimeonly.go b/v0/internal/raml/x-gen-ex-datetimeonly.go
index ea01bed..4e1db2b 100644
--- a/v0/internal/raml/x-gen-ex-datetimeonly.go
+++ b/v0/internal/raml/x-gen-ex-datetimeonly.go
@@ -151,7 +151,7 @@ func (e *DatetimeOnlyExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if key.Value != "" && key.Value[0] == '(' {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-file.go b/v0/internal/raml/x-gen-ex-file.go
index 06f99d5..922daf4 100644
--- a/v0/internal/raml/x-gen-ex-file.go
+++ b/v0/internal/raml/x-gen-ex-file.go
@@ -151,7 +151,7 @@ func (e *FileExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if key.Value != "" && key.Value[0] == '(' {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-integer.go b/v0/internal/raml/x-gen-ex-integer.go
index cd98696..a9c586d 100644
--- a/v0/internal/raml/x-gen-ex-integer.go
+++ b/v0/internal/raml/x-gen-ex-integer.go
@@ -151,7 +151,7 @@ func (e *IntegerExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if key.Value != "" && key.Value[0] == '(' {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-number.go b/v0/internal/raml/x-gen-ex-number.go
index 5c644a6..f29b951 100644
--- a/v0/internal/raml/x-gen-ex-number.go
+++ b/v0/internal/raml/x-gen-ex-number.go
@@ -151,7 +151,7 @@ func (e *NumberExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if key.Value != "" && key.Value[0] == '(' {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-object.go b/v0/internal/raml/x-gen-ex-object.go
index 28d8833..21ac87c 100644
--- a/v0/internal/raml/x-gen-ex-object.go
+++ b/v0/internal/raml/x-gen-ex-object.go
@@ -151,7 +151,7 @@ func (e *ObjectExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if key.Value != "" && key.Value[0] == '(' {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-string.go b/v0/internal/raml/x-gen-ex-string.go
index 6b7ae17..04f2941 100644
--- a/v0/internal/raml/x-gen-ex-string.go
+++ b/v0/internal/raml/x-gen-ex-string.go
@@ -151,7 +151,7 @@ func (e *StringExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if key.Value != "" && key.Value[0] == '(' {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-timeonly.go b/v0/internal/raml/x-gen-ex-timeonly.go
index c499f36..faa0e6c 100644
--- a/v0/internal/raml/x-gen-ex-timeonly.go
+++ b/v0/internal/raml/x-gen-ex-timeonly.go
@@ -151,7 +151,7 @@ func (e *TimeOnlyExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if key.Value != "" && key.Value[0] == '(' {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-union.go b/v0/internal/raml/x-gen-ex-union.go
index 6a23242..0341d3c 100644
--- a/v0/internal/raml/x-gen-ex-union.go
+++ b/v0/internal/raml/x-gen-ex-union.go
@@ -151,7 +151,7 @@ func (e *UnionExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if key.Value != "" && key.Value[0] == '(' {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
-- 
2.43.0


From 19b62617662c3b50d5e56fc11d7d19eca33c21ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:20 +0000
Subject: [PATCH 02/18] fix: accept properties of type nil or include

---
 v0/gen/type-m/base.tpl                 |  4 ++++
 v0/internal/raml/DataType.go           | 18 ++++++++++++++++--
 v0/internal/raml/type-datatype-ext.go  | 10 ----------
 v0/internal/raml/x-gen-type-include.go |  4 ++++
 4 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/v0/gen/type-m/base.tpl b/v0/gen/type-m/base.tpl
index b8f4413..cffa103 100644
--- a/v0/gen/type-m/base.tpl
+++ b/v0/gen/type-m/base.tpl
@@ -39,6 +39,10 @@ func (a {{.Name}}Type) marshal(out raml.AnyMap) error {
 	})
 	a.DataType.hasExtra.out(out)
 
+	if !a.required {
+		out.Put(rmeta.KeyRequired, a.required)
+	}
+
 	return nil
 }
 {{end}}
diff --git a/v0/internal/raml/DataType.go b/v0/internal/raml/DataType.go
index 70c3338..2f9865b 100644
--- a/v0/internal/raml/DataType.go
+++ b/v0/internal/raml/DataType.go
@@ -2,6 +2,7 @@ package raml
 
 import (
 	"errors"
+	"github.com/Foxcapades/lib-go-raml/v0/internal/util/assign"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
@@ -15,6 +16,7 @@ func NewDataType(kind rmeta.DataTypeKind, self concreteType) *DataType {
 		schema:   string(kind),
 		kind:     kind,
 		hasExtra: makeExtra(),
+		required: true,
 	}
 }
 
@@ -23,8 +25,9 @@ type DataType struct {
 
 	self concreteType
 
-	schema string
-	kind   rmeta.DataTypeKind
+	schema   string
+	kind     rmeta.DataTypeKind
+	required bool
 }
 
 func (d *DataType) Schema() string {
@@ -43,6 +46,10 @@ func (d *DataType) Kind() rmeta.DataTypeKind {
 	return d.kind
 }
 
+func (d *DataType) Required() bool {
+	return d.required
+}
+
 func (d *DataType) ToRAML() (string, error) {
 	panic("implement me")
 }
@@ -94,6 +101,11 @@ func (d *DataType) UnmarshalRAML(val *yaml.Node) error {
 func (d *DataType) marshal(out raml.AnyMap) error {
 	out.Put(rmeta.KeyType, d.schema)
 	d.hasExtra.out(out)
+
+	if !d.required {
+		out.Put(rmeta.KeyRequired, d.required)
+	}
+
 	return nil
 }
 
@@ -106,6 +118,8 @@ func (d *DataType) assign(key, val *yaml.Node) error {
 			d.schema = val.Value
 		}
 		return nil
+	case rmeta.KeyRequired:
+		return assign.AsBool(val, &d.required)
 	}
 
 	d.hasExtra.in(key, val)
diff --git a/v0/internal/raml/type-datatype-ext.go b/v0/internal/raml/type-datatype-ext.go
index 57053df..928617e 100644
--- a/v0/internal/raml/type-datatype-ext.go
+++ b/v0/internal/raml/type-datatype-ext.go
@@ -14,7 +14,6 @@ func NewExtendedDataType(kind rmeta.DataTypeKind, self concreteType) *ExtendedDa
 		DataType:       NewDataType(kind, self),
 		hasAnnotations: makeAnnotations(),
 		facets:         raml.NewFacetMap(0),
-		required:       true,
 	}
 }
 
@@ -26,7 +25,6 @@ type ExtendedDataType struct {
 	description *string
 	facets      raml.FacetMap
 	xml         raml.XML
-	required    bool
 }
 
 func (e *ExtendedDataType) DisplayName() option.String {
@@ -45,10 +43,6 @@ func (e *ExtendedDataType) XML() raml.XML {
 	return e.xml
 }
 
-func (e *ExtendedDataType) Required() bool {
-	return e.required
-}
-
 func (e *ExtendedDataType) marshal(out raml.AnyMap) error {
 	out.PutIfNotNil(rmeta.KeyDisplayName, e.displayName).
 		PutIfNotNil(rmeta.KeyDescription, e.description)
@@ -57,10 +51,6 @@ func (e *ExtendedDataType) marshal(out raml.AnyMap) error {
 		return err
 	}
 
-	if !e.required {
-		out.Put(rmeta.KeyRequired, e.required)
-	}
-
 	e.hasAnnotations.out(out)
 
 	if e.facets.Len() > 0 {
diff --git a/v0/internal/raml/x-gen-type-include.go b/v0/internal/raml/x-gen-type-include.go
index f559966..a6664ee 100644
--- a/v0/internal/raml/x-gen-type-include.go
+++ b/v0/internal/raml/x-gen-type-include.go
@@ -34,5 +34,9 @@ func (a IncludeType) marshal(out raml.AnyMap) error {
 	})
 	a.DataType.hasExtra.out(out)
 
+	if !a.required {
+		out.Put(rmeta.KeyRequired, a.required)
+	}
+
 	return nil
 }
-- 
2.43.0


From 7e8fc4692e686063c93f4e1ceeabbe8d371c13bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:45 +0000
Subject: [PATCH 03/18] fix: read an empty type declaration as a string type

---
 v0/internal/raml/fn-sorting-hat-type.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/v0/internal/raml/fn-sorting-hat-type.go b/v0/internal/raml/fn-sorting-hat-type.go
index a7b0b8b..8700d11 100644
--- a/v0/internal/raml/fn-sorting-hat-type.go
+++ b/v0/internal/raml/fn-sorting-hat-type.go
@@ -2,7 +2,6 @@ package raml
 
 import (
 	"fmt"
-	"github.com/Foxcapades/lib-go-raml/v0/internal/util"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
@@ -50,7 +49,7 @@ func TypeSortingHat(val *yaml.Node) (out raml.DataType, err error) {
 		return out, nil
 	}
 
-	if util.IsNil(val) {
+	if xyml.IsNilType(val) {
 		return NewStringType(), nil
 	}
 
-- 
2.43.0


From 25d108732620d1e9469e9248531c9473d7d149fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:47 +0000
Subject: [PATCH 04/18] fix: read expanded type declarations with an include
 expression

---
 v0/gen/type-m/base.tpl                 | 13 +++++++++++++
 v0/internal/raml/x-gen-type-include.go | 13 +++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/v0/gen/type-m/base.tpl b/v0/gen/type-m/base.tpl
index cffa103..4a7b502 100644
--- a/v0/gen/type-m/base.tpl
+++ b/v0/gen/type-m/base.tpl
@@ -5,6 +5,7 @@ package raml
 import (
 	{{if eq .Name "Include" -}}
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
+	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
 
 {{- end}}
@@ -45,5 +46,17 @@ func (a {{.Name}}Type) marshal(out raml.AnyMap) error {
 
 	return nil
 }
+
+func (a *{{.Name}}Type) assign(key, val *yaml.Node) error {
+	switch key.Value {
+	case rmeta.KeyType, rmeta.KeySchema:
+		if xyml.IsScalar(val) && val.Tag == "!include" {
+			a.schema = val.Value
+			return nil
+		}
+	}
+
+	return a.DataType.assign(key, val)
+}
 {{end}}
 {{end}}
\ No newline at end of file
diff --git a/v0/internal/raml/x-gen-type-include.go b/v0/internal/raml/x-gen-type-include.go
index a6664ee..e76d60b 100644
--- a/v0/internal/raml/x-gen-type-include.go
+++ b/v0/internal/raml/x-gen-type-include.go
@@ -3,6 +3,7 @@ package raml
 import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
+	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
 )
 
@@ -40,3 +41,15 @@ func (a IncludeType) marshal(out raml.AnyMap) error {
 
 	return nil
 }
+
+func (a *IncludeType) assign(key, val *yaml.Node) error {
+	switch key.Value {
+	case rmeta.KeyType, rmeta.KeySchema:
+		if xyml.IsScalar(val) && val.Tag == "!include" {
+			a.schema = val.Value
+			return nil
+		}
+	}
+
+	return a.DataType.assign(key, val)
+}
-- 
2.43.0


From 26ee2f8968e9ff32946750797bd7ac536d5d5255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:09 +0000
Subject: [PATCH 05/18] fix: write an include given as text as the same text

---
 v0/gen/type-m/base.tpl                 | 16 +++++++++++-----
 v0/internal/raml/x-gen-type-include.go | 16 +++++++++++-----
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/v0/gen/type-m/base.tpl b/v0/gen/type-m/base.tpl
index 4a7b502..b3b01bb 100644
--- a/v0/gen/type-m/base.tpl
+++ b/v0/gen/type-m/base.tpl
@@ -7,6 +7,7 @@ import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
+	"strings"
 
 {{- end}}
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
@@ -33,11 +34,16 @@ type {{.Name}}Type struct {
 }
 {{if eq .Name "Include"}}
 func (a {{.Name}}Type) marshal(out raml.AnyMap) error {
-	out.Put(rmeta.KeyType, &yaml.Node{
-		Kind: yaml.ScalarNode,
-		Tag: "!include",
-		Value: a.DataType.schema,
-	})
+	// an include written as plain text keeps its tag in the expression
+	if strings.HasPrefix(a.schema, "!include ") {
+		out.Put(rmeta.KeyType, a.schema)
+	} else {
+		out.Put(rmeta.KeyType, &yaml.Node{
+			Kind:  yaml.ScalarNode,
+			Tag:   "!include",
+			Value: a.DataType.schema,
+		})
+	}
 	a.DataType.hasExtra.out(out)
 
 	if !a.required {
diff --git a/v0/internal/raml/x-gen-type-include.go b/v0/internal/raml/x-gen-type-include.go
index e76d60b..f95053c 100644
--- a/v0/internal/raml/x-gen-type-include.go
+++ b/v0/internal/raml/x-gen-type-include.go
@@ -5,6 +5,7 @@ import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
+	"strings"
 )
 
 // NewIncludeType returns a new internal implementation of
@@ -28,11 +29,16 @@ type IncludeType struct {
 }
 
 func (a IncludeType) marshal(out raml.AnyMap) error {
-	out.Put(rmeta.KeyType, &yaml.Node{
-		Kind:  yaml.ScalarNode,
-		Tag:   "!include",
-		Value: a.DataType.schema,
-	})
+	// an include written as plain text keeps its tag in the expression
+	if strings.HasPrefix(a.schema, "!include ") {
+		out.Put(rmeta.KeyType, a.schema)
+	} else {
+		out.Put(rmeta.KeyType, &yaml.Node{
+			Kind:  yaml.ScalarNode,
+			Tag:   "!include",
+			Value: a.DataType.schema,
+		})
+	}
 	a.DataType.hasExtra.out(out)
 
 	if !a.required {
-- 
2.43.0


From 14c90072c16605edfdaf113796f59325a753f72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:11 +0000
Subject: [PATCH 06/18] fix: read a library's annotation types into its
 annotation types

---
 v0/internal/raml/Library.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v0/internal/raml/Library.go b/v0/internal/raml/Library.go
index a2c8417..33d3d31 100644
--- a/v0/internal/raml/Library.go
+++ b/v0/internal/raml/Library.go
@@ -212,7 +212,7 @@ func (l Library) MarshalYAML() (interface{}, error) {
 func (l *Library) assign(k, v *yaml.Node) error {
 	switch k.Value {
 	case rmeta.KeyAnnotationTypes:
-		return UnmarshalAnnotationMapRAML(l.annotations, v)
+		return UnmarshalUntypedMapRAML(l.annotationTypes, v)
 	case rmeta.KeyResourceTypes:
 		return UnmarshalUntypedMapRAML(l.resourceTypes, v)
 	case rmeta.KeyTypes, rmeta.KeySchemas:
-- 
2.43.0


From 9633038de5d811e2663cf9e8e849e1586dfc206f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:34 +0000
Subject: [PATCH 07/18] fix: accept integer literals as values of number facets

---
 v0/gen/example-m.tpl                  |  2 +-
 v0/gen/type-m/extended.tpl            |  2 +-
 v0/internal/raml/x-gen-ex-number.go   |  2 +-
 v0/internal/raml/x-gen-type-number.go |  2 +-
 v0/internal/util/assign/float64.go    | 14 +++++++++++++-
 5 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/v0/gen/example-m.tpl b/v0/gen/example-m.tpl
index 58a8549..977a43c 100644
--- a/v0/gen/example-m.tpl
+++ b/v0/gen/example-m.tpl
@@ -213,7 +213,7 @@ func (e *{{.Name}}Example) assignVal(val *yaml.Node) error {
 		e.value = &tmp
 	}
 	{{- else if eq .Type "float64" -}}
-	if tmp, err := xyml.ToFloat(val); err != nil {
+	if tmp, err := assign.ToFloat64(val); err != nil {
 		return err
 	} else {
 		e.value = &tmp
diff --git a/v0/gen/type-m/extended.tpl b/v0/gen/type-m/extended.tpl
index 221fcfd..74aa070 100644
--- a/v0/gen/type-m/extended.tpl
+++ b/v0/gen/type-m/extended.tpl
@@ -287,7 +287,7 @@ func (o *{{.Name}}Type) assign(key, val *yaml.Node) error {
 			{{else if eq .DefTypeName "Int64" -}}
 				if val, err := xyml.ToInt(cur, 10); err != nil {
 			{{else if eq .DefTypeName "Float64" -}}
-				if val, err := xyml.ToFloat(cur); err != nil {
+				if val, err := assign.ToFloat64(cur); err != nil {
 			{{- else -}}
 				if val, err := xyml.To{{.DefTypeName}}(cur); err != nil {
 			{{end}}
diff --git a/v0/internal/raml/x-gen-ex-number.go b/v0/internal/raml/x-gen-ex-number.go
index f29b951..4dd8235 100644
--- a/v0/internal/raml/x-gen-ex-number.go
+++ b/v0/internal/raml/x-gen-ex-number.go
@@ -189,7 +189,7 @@ func (e *NumberExample) expand() bool {
 }
 
 func (e *NumberExample) assignVal(val *yaml.Node) error {
-	if tmp, err := xyml.ToFloat(val); err != nil {
+	if tmp, err := assign.ToFloat64(val); err != nil {
 		return err
 	} else {
 		e.value = &tmp
diff --git a/v0/internal/raml/x-gen-type-number.go b/v0/internal/raml/x-gen-type-number.go
index 85f9df8..fcc1a38 100644
--- a/v0/internal/raml/x-gen-type-number.go
+++ b/v0/internal/raml/x-gen-type-number.go
@@ -278,7 +278,7 @@ func (o *NumberType) assign(key, val *yaml.Node) error {
 		return UnmarshalNumberExampleMapRAML(o.examples, val)
 	case rmeta.KeyEnum:
 		return xyml.SequenceForEach(val, func(cur *yaml.Node) error {
-			if val, err := xyml.ToFloat(cur); err != nil {
+			if val, err := assign.ToFloat64(cur); err != nil {
 				return err
 			} else {
 				o.enum = append(o.enum, val)
diff --git a/v0/internal/util/assign/float64.go b/v0/internal/util/assign/float64.go
index 0289d91..0ef59ed 100644
--- a/v0/internal/util/assign/float64.go
+++ b/v0/internal/util/assign/float64.go
@@ -5,8 +5,20 @@ import (
 	"gopkg.in/yaml.v3"
 )
 
+// ToFloat64 reads the given node as a number.  An integer literal is a valid
+// number value.
+func ToFloat64(v *yaml.Node) (float64, error) {
+	if xyml.IsInt(v) {
+		tmp := *v
+		tmp.Tag = xyml.TagFloat
+		return xyml.ToFloat(&tmp)
+	}
+
+	return xyml.ToFloat(v)
+}
+
 func AsFloat64Ptr(v *yaml.Node, ptr **float64) error {
-	if val, err := xyml.ToFloat(v); err != nil {
+	if val, err := ToFloat64(v); err != nil {
 		return err
 	} else {
 		*ptr = &val
-- 
2.43.0


From 9a0a075929d1f48e8657522febb21359cb52071b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:50 +0000
Subject: [PATCH 08/18] fix: reject negative values of unsigned facets

---
 v0/internal/util/assign/uint.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/v0/internal/util/assign/uint.go b/v0/internal/util/assign/uint.go
index 98a2d8c..a13d669 100644
--- a/v0/internal/util/assign/uint.go
+++ b/v0/internal/util/assign/uint.go
@@ -1,14 +1,19 @@
 package assign
 
 import (
+	"fmt"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
 )
 
+const negativeUint = "expected a non-negative integer, instead got %d at %d:%d"
+
 // Helper function for uint values in assign functions
 func ToUint(v *yaml.Node, ptr *uint) error {
 	if val, err := xyml.ToInt(v, 10); err != nil {
 		return err
+	} else if val < 0 {
+		return fmt.Errorf(negativeUint, val, v.Line, v.Column)
 	} else {
 		*ptr = uint(val)
 	}
@@ -20,6 +25,8 @@ func ToUint(v *yaml.Node, ptr *uint) error {
 func AsUintPtr(v *yaml.Node, ptr **uint) error {
 	if val, err := xyml.ToInt(v, 10); err != nil {
 		return err
+	} else if val < 0 {
+		return fmt.Errorf(negativeUint, val, v.Line, v.Column)
 	} else {
 		tmp := uint(val)
 		*ptr = &tmp
-- 
2.43.0


From 9d27ed3d08b70aa38d3a94db128fb0711873a322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:16 +0000
Subject: [PATCH 09/18] fix: write replaced and nested tables as plain mappings

---
 v0/gen/example-m.tpl                         |  2 +-
 v0/gen/type-m/extended.tpl                   |  8 ++++----
 v0/gen/type-m/object.tpl                     |  2 +-
 v0/internal/raml/APISpec.go                  | 18 +++++++++---------
 v0/internal/raml/Library.go                  | 12 ++++++------
 v0/internal/raml/annotation.go               |  2 +-
 v0/internal/raml/in-components.go            |  6 +++---
 v0/internal/raml/type-datatype-ext.go        |  2 +-
 v0/internal/raml/type-facet.go               |  2 +-
 v0/internal/raml/x-gen-ex-any.go             |  2 +-
 v0/internal/raml/x-gen-ex-array.go           |  2 +-
 v0/internal/raml/x-gen-ex-bool.go            |  2 +-
 v0/internal/raml/x-gen-ex-custom.go          |  2 +-
 v0/internal/raml/x-gen-ex-dateonly.go        |  2 +-
 v0/internal/raml/x-gen-ex-datetime.go        |  2 +-
 v0/internal/raml/x-gen-ex-datetimeonly.go    |  2 +-
 v0/internal/raml/x-gen-ex-file.go            |  2 +-
 v0/internal/raml/x-gen-ex-integer.go         |  2 +-
 v0/internal/raml/x-gen-ex-number.go          |  2 +-
 v0/internal/raml/x-gen-ex-object.go          |  2 +-
 v0/internal/raml/x-gen-ex-string.go          |  2 +-
 v0/internal/raml/x-gen-ex-timeonly.go        |  2 +-
 v0/internal/raml/x-gen-ex-union.go           |  2 +-
 v0/internal/raml/x-gen-type-any.go           |  8 ++++----
 v0/internal/raml/x-gen-type-array.go         |  8 ++++----
 v0/internal/raml/x-gen-type-bool.go          |  8 ++++----
 v0/internal/raml/x-gen-type-custom.go        |  8 ++++----
 v0/internal/raml/x-gen-type-date-only.go     |  8 ++++----
 v0/internal/raml/x-gen-type-datetime-only.go |  8 ++++----
 v0/internal/raml/x-gen-type-datetime.go      |  8 ++++----
 v0/internal/raml/x-gen-type-file.go          |  8 ++++----
 v0/internal/raml/x-gen-type-integer.go       |  8 ++++----
 v0/internal/raml/x-gen-type-number.go        |  8 ++++----
 v0/internal/raml/x-gen-type-object.go        | 10 +++++-----
 v0/internal/raml/x-gen-type-string.go        |  8 ++++----
 v0/internal/raml/x-gen-type-time-only.go     |  8 ++++----
 v0/internal/raml/x-gen-type-union.go         |  8 ++++----
 37 files changed, 98 insertions(+), 98 deletions(-)

diff --git a/v0/gen/example-m.tpl b/v0/gen/example-m.tpl
index 977a43c..17f67cc 100644
--- a/v0/gen/example-m.tpl
+++ b/v0/gen/example-m.tpl
@@ -75,7 +75,7 @@ func (e *{{.Name}}Example) SetAnnotations(ann raml.AnnotationMap) raml.{{.Name}}
 }
 
 func (e *{{.Name}}Example) UnsetAnnotations() raml.{{.Name}}Example {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/gen/type-m/extended.tpl b/v0/gen/type-m/extended.tpl
index 74aa070..8376e95 100644
--- a/v0/gen/type-m/extended.tpl
+++ b/v0/gen/type-m/extended.tpl
@@ -122,7 +122,7 @@ func (o *{{.Name}}Type) SetExamples(examples raml.{{.Name}}ExampleMap) raml.{{.N
 }
 
 func (o *{{.Name}}Type) UnsetExamples() raml.{{.Name}}Type {
-	o.examples = raml.New{{.Name}}ExampleMap(0)
+	o.examples = raml.New{{.Name}}ExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -156,7 +156,7 @@ func (o *{{.Name}}Type) SetAnnotations(annotations raml.AnnotationMap) raml.{{.N
 }
 
 func (o *{{.Name}}Type) UnsetAnnotations() raml.{{.Name}}Type {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -170,7 +170,7 @@ func (o *{{.Name}}Type) SetFacetDefinitions(facets raml.FacetMap) raml.{{.Name}}
 }
 
 func (o *{{.Name}}Type) UnsetFacetDefinitions() raml.{{.Name}}Type {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -208,7 +208,7 @@ func (o *{{.Name}}Type) SetExtraFacets(facets raml.AnyMap) raml.{{.Name}}Type {
 }
 
 func (o *{{.Name}}Type) UnsetExtraFacets() raml.{{.Name}}Type {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/gen/type-m/object.tpl b/v0/gen/type-m/object.tpl
index ea1bdaf..bbeba8a 100644
--- a/v0/gen/type-m/object.tpl
+++ b/v0/gen/type-m/object.tpl
@@ -64,7 +64,7 @@ func (o *{{.Name}}Type) SetProperties(props raml.PropertyMap) raml.{{.Name}}Type
 }
 
 func (o *{{.Name}}Type) UnsetProperties() raml.{{.Name}}Type {
-	o.properties = raml.NewPropertyMap(3)
+	o.properties = raml.NewPropertyMap(3).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/APISpec.go b/v0/internal/raml/APISpec.go
index 3900945..f7e0d16 100644
--- a/v0/internal/raml/APISpec.go
+++ b/v0/internal/raml/APISpec.go
@@ -157,7 +157,7 @@ func (a *APISpec) SetTypes(t raml.DataTypeMap) raml.APISpec {
 }
 
 func (a *APISpec) UnsetTypes() raml.APISpec {
-	a.types = raml.NewDataTypeMap(0)
+	a.types = raml.NewDataTypeMap(0).SerializeOrdered(false)
 	return a
 }
 
@@ -174,7 +174,7 @@ func (a *APISpec) SetSchemas(t raml.DataTypeMap) raml.APISpec {
 }
 
 func (a *APISpec) UnsetSchemas() raml.APISpec {
-	a.types = raml.NewDataTypeMap(0)
+	a.types = raml.NewDataTypeMap(0).SerializeOrdered(false)
 	return a
 }
 
@@ -191,7 +191,7 @@ func (a *APISpec) SetTraits(t raml.UntypedMap) raml.APISpec {
 }
 
 func (a *APISpec) UnsetTraits() raml.APISpec {
-	a.traits = raml.NewUntypedMap(0)
+	a.traits = raml.NewUntypedMap(0).SerializeOrdered(false)
 	return a
 }
 
@@ -208,7 +208,7 @@ func (a *APISpec) SetResourceTypes(t raml.UntypedMap) raml.APISpec {
 }
 
 func (a *APISpec) UnsetResourceTypes() raml.APISpec {
-	a.resourceTypes = raml.NewUntypedMap(0)
+	a.resourceTypes = raml.NewUntypedMap(0).SerializeOrdered(false)
 	return a
 }
 
@@ -225,7 +225,7 @@ func (a *APISpec) SetAnnotationTypes(t raml.UntypedMap) raml.APISpec {
 }
 
 func (a *APISpec) UnsetAnnotationTypes() raml.APISpec {
-	a.annotationTypes = raml.NewUntypedMap(0)
+	a.annotationTypes = raml.NewUntypedMap(0).SerializeOrdered(false)
 	return a
 }
 
@@ -242,7 +242,7 @@ func (a *APISpec) SetAnnotations(t raml.AnnotationMap) raml.APISpec {
 }
 
 func (a *APISpec) UnsetAnnotations() raml.APISpec {
-	a.annotations = raml.NewAnnotationMap(0)
+	a.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return a
 }
 
@@ -259,7 +259,7 @@ func (a *APISpec) SetSecuritySchemes(t raml.UntypedMap) raml.APISpec {
 }
 
 func (a *APISpec) UnsetSecuritySchemes() raml.APISpec {
-	a.securitySchemes = raml.NewUntypedMap(0)
+	a.securitySchemes = raml.NewUntypedMap(0).SerializeOrdered(false)
 	return a
 }
 
@@ -290,7 +290,7 @@ func (a *APISpec) SetUses(s raml.StringMap) raml.APISpec {
 }
 
 func (a *APISpec) UnsetUses() raml.APISpec {
-	a.uses = raml.NewStringMap(0)
+	a.uses = raml.NewStringMap(0).SerializeOrdered(false)
 	return a
 }
 
@@ -380,7 +380,7 @@ func (a *APISpec) assign(k, v *yaml.Node) error {
 	}
 
 	if k.Value != "" && k.Value[0] == '(' {
-		tmp := raml.NewUntypedMap(len(v.Content) / 2)
+		tmp := raml.NewUntypedMap(len(v.Content) / 2).SerializeOrdered(false)
 		if err := UnmarshalUntypedMapRAML(tmp, v); err != nil {
 			return err
 		}
diff --git a/v0/internal/raml/Library.go b/v0/internal/raml/Library.go
index 33d3d31..29d523f 100644
--- a/v0/internal/raml/Library.go
+++ b/v0/internal/raml/Library.go
@@ -48,7 +48,7 @@ func (l *Library) SetAnnotations(a raml.AnnotationMap) raml.Library {
 }
 
 func (l *Library) UnsetAnnotations() raml.Library {
-	l.annotations = raml.NewAnnotationMap(0)
+	l.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return l
 }
 
@@ -73,7 +73,7 @@ func (l *Library) SetUses(uses raml.StringMap) raml.Library {
 }
 
 func (l *Library) UnsetUses() raml.Library {
-	l.uses = raml.NewStringMap(0)
+	l.uses = raml.NewStringMap(0).SerializeOrdered(false)
 	return l
 }
 
@@ -90,7 +90,7 @@ func (l *Library) SetResourceTypes(resTypes raml.UntypedMap) raml.Library {
 }
 
 func (l *Library) UnsetResourceTypes() raml.Library {
-	l.resourceTypes = raml.NewUntypedMap(0)
+	l.resourceTypes = raml.NewUntypedMap(0).SerializeOrdered(false)
 	return l
 }
 
@@ -111,7 +111,7 @@ func (l *Library) SetTraits(traits raml.UntypedMap) raml.Library {
 }
 
 func (l *Library) UnsetTraits() raml.Library {
-	l.traits = raml.NewUntypedMap(0)
+	l.traits = raml.NewUntypedMap(0).SerializeOrdered(false)
 	return l
 }
 
@@ -128,7 +128,7 @@ func (l *Library) SetTypes(types raml.DataTypeMap) raml.Library {
 }
 
 func (l *Library) UnsetTypes() raml.Library {
-	l.types = raml.NewDataTypeMap(0)
+	l.types = raml.NewDataTypeMap(0).SerializeOrdered(false)
 	return l
 }
 
@@ -228,7 +228,7 @@ func (l *Library) assign(k, v *yaml.Node) error {
 	}
 
 	if xyml.IsString(k) && k.Value != "" && k.Value[0] == '(' {
-		tmp := raml.NewUntypedMap(len(v.Content) / 2)
+		tmp := raml.NewUntypedMap(len(v.Content) / 2).SerializeOrdered(false)
 		if err := UnmarshalUntypedMapRAML(tmp, v); err != nil {
 			return err
 		}
diff --git a/v0/internal/raml/annotation.go b/v0/internal/raml/annotation.go
index 9c66206..a940194 100644
--- a/v0/internal/raml/annotation.go
+++ b/v0/internal/raml/annotation.go
@@ -5,5 +5,5 @@ import (
 )
 
 func NewAnnotation() raml.Annotation {
-	return raml.Annotation(raml.NewUntypedMap(1))
+	return raml.Annotation(raml.NewUntypedMap(1).SerializeOrdered(false))
 }
diff --git a/v0/internal/raml/in-components.go b/v0/internal/raml/in-components.go
index f29819b..100ca68 100644
--- a/v0/internal/raml/in-components.go
+++ b/v0/internal/raml/in-components.go
@@ -8,7 +8,7 @@ import (
 /******************************************************************************/
 
 func makeAnnotations() hasAnnotations {
-	return hasAnnotations{raml.NewAnnotationMap(0)}
+	return hasAnnotations{raml.NewAnnotationMap(0).SerializeOrdered(false)}
 }
 
 type hasAnnotations struct {
@@ -28,7 +28,7 @@ func (h *hasAnnotations) in(k string, v *yaml.Node) (bool, error) {
 		return false, nil
 	}
 
-	tmp := raml.NewUntypedMap(0)
+	tmp := raml.NewUntypedMap(0).SerializeOrdered(false)
 
 	if err := UnmarshalUntypedMapRAML(tmp, v); err != nil {
 		return false, err
@@ -43,7 +43,7 @@ func (h *hasAnnotations) in(k string, v *yaml.Node) (bool, error) {
 
 // Deprecated: don't use this
 func makeExtra() hasExtra {
-	return hasExtra{raml.NewAnyMap(0)}
+	return hasExtra{raml.NewAnyMap(0).SerializeOrdered(false)}
 }
 
 // Deprecated: don't use this
diff --git a/v0/internal/raml/type-datatype-ext.go b/v0/internal/raml/type-datatype-ext.go
index 928617e..020337c 100644
--- a/v0/internal/raml/type-datatype-ext.go
+++ b/v0/internal/raml/type-datatype-ext.go
@@ -13,7 +13,7 @@ func NewExtendedDataType(kind rmeta.DataTypeKind, self concreteType) *ExtendedDa
 	return &ExtendedDataType{
 		DataType:       NewDataType(kind, self),
 		hasAnnotations: makeAnnotations(),
-		facets:         raml.NewFacetMap(0),
+		facets:         raml.NewFacetMap(0).SerializeOrdered(false),
 	}
 }
 
diff --git a/v0/internal/raml/type-facet.go b/v0/internal/raml/type-facet.go
index ab032bd..8de6136 100644
--- a/v0/internal/raml/type-facet.go
+++ b/v0/internal/raml/type-facet.go
@@ -5,5 +5,5 @@ import (
 )
 
 func NewFacet() raml.Facet {
-	return raml.NewDataTypeMap(0)
+	return raml.NewDataTypeMap(0).SerializeOrdered(false)
 }
diff --git a/v0/internal/raml/x-gen-ex-any.go b/v0/internal/raml/x-gen-ex-any.go
index 55002df..468512f 100644
--- a/v0/internal/raml/x-gen-ex-any.go
+++ b/v0/internal/raml/x-gen-ex-any.go
@@ -73,7 +73,7 @@ func (e *AnyExample) SetAnnotations(ann raml.AnnotationMap) raml.AnyExample {
 }
 
 func (e *AnyExample) UnsetAnnotations() raml.AnyExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-array.go b/v0/internal/raml/x-gen-ex-array.go
index 258f468..479588d 100644
--- a/v0/internal/raml/x-gen-ex-array.go
+++ b/v0/internal/raml/x-gen-ex-array.go
@@ -73,7 +73,7 @@ func (e *ArrayExample) SetAnnotations(ann raml.AnnotationMap) raml.ArrayExample
 }
 
 func (e *ArrayExample) UnsetAnnotations() raml.ArrayExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-bool.go b/v0/internal/raml/x-gen-ex-bool.go
index fcac53a..817caf7 100644
--- a/v0/internal/raml/x-gen-ex-bool.go
+++ b/v0/internal/raml/x-gen-ex-bool.go
@@ -73,7 +73,7 @@ func (e *BoolExample) SetAnnotations(ann raml.AnnotationMap) raml.BoolExample {
 }
 
 func (e *BoolExample) UnsetAnnotations() raml.BoolExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-custom.go b/v0/internal/raml/x-gen-ex-custom.go
index e3ebae2..69a0b95 100644
--- a/v0/internal/raml/x-gen-ex-custom.go
+++ b/v0/internal/raml/x-gen-ex-custom.go
@@ -73,7 +73,7 @@ func (e *CustomExample) SetAnnotations(ann raml.AnnotationMap) raml.CustomExampl
 }
 
 func (e *CustomExample) UnsetAnnotations() raml.CustomExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-dateonly.go b/v0/internal/raml/x-gen-ex-dateonly.go
index a664523..ead6fcc 100644
--- a/v0/internal/raml/x-gen-ex-dateonly.go
+++ b/v0/internal/raml/x-gen-ex-dateonly.go
@@ -73,7 +73,7 @@ func (e *DateOnlyExample) SetAnnotations(ann raml.AnnotationMap) raml.DateOnlyEx
 }
 
 func (e *DateOnlyExample) UnsetAnnotations() raml.DateOnlyExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-datetime.go b/v0/internal/raml/x-gen-ex-datetime.go
index a7fc44b..6d5c7b1 100644
--- a/v0/internal/raml/x-gen-ex-datetime.go
+++ b/v0/internal/raml/x-gen-ex-datetime.go
@@ -73,7 +73,7 @@ func (e *DatetimeExample) SetAnnotations(ann raml.AnnotationMap) raml.DatetimeEx
 }
 
 func (e *DatetimeExample) UnsetAnnotations() raml.DatetimeExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-datetimeonly.go b/v0/internal/raml/x-gen-ex-datetimeonly.go
index 4e1db2b..e6e8866 100644
--- a/v0/internal/raml/x-gen-ex-datetimeonly.go
+++ b/v0/internal/raml/x-gen-ex-datetimeonly.go
@@ -73,7 +73,7 @@ func (e *DatetimeOnlyExample) SetAnnotations(ann raml.AnnotationMap) raml.Dateti
 }
 
 func (e *DatetimeOnlyExample) UnsetAnnotations() raml.DatetimeOnlyExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-file.go b/v0/internal/raml/x-gen-ex-file.go
index 922daf4..5ee76e4 100644
--- a/v0/internal/raml/x-gen-ex-file.go
+++ b/v0/internal/raml/x-gen-ex-file.go
@@ -73,7 +73,7 @@ func (e *FileExample) SetAnnotations(ann raml.AnnotationMap) raml.FileExample {
 }
 
 func (e *FileExample) UnsetAnnotations() raml.FileExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-integer.go b/v0/internal/raml/x-gen-ex-integer.go
index a9c586d..add5c48 100644
--- a/v0/internal/raml/x-gen-ex-integer.go
+++ b/v0/internal/raml/x-gen-ex-integer.go
@@ -73,7 +73,7 @@ func (e *IntegerExample) SetAnnotations(ann raml.AnnotationMap) raml.IntegerExam
 }
 
 func (e *IntegerExample) UnsetAnnotations() raml.IntegerExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-number.go b/v0/internal/raml/x-gen-ex-number.go
index 4dd8235..852e816 100644
--- a/v0/internal/raml/x-gen-ex-number.go
+++ b/v0/internal/raml/x-gen-ex-number.go
@@ -73,7 +73,7 @@ func (e *NumberExample) SetAnnotations(ann raml.AnnotationMap) raml.NumberExampl
 }
 
 func (e *NumberExample) UnsetAnnotations() raml.NumberExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-object.go b/v0/internal/raml/x-gen-ex-object.go
index 21ac87c..7670868 100644
--- a/v0/internal/raml/x-gen-ex-object.go
+++ b/v0/internal/raml/x-gen-ex-object.go
@@ -73,7 +73,7 @@ func (e *ObjectExample) SetAnnotations(ann raml.AnnotationMap) raml.ObjectExampl
 }
 
 func (e *ObjectExample) UnsetAnnotations() raml.ObjectExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-string.go b/v0/internal/raml/x-gen-ex-string.go
index 04f2941..90ec7f2 100644
--- a/v0/internal/raml/x-gen-ex-string.go
+++ b/v0/internal/raml/x-gen-ex-string.go
@@ -73,7 +73,7 @@ func (e *StringExample) SetAnnotations(ann raml.AnnotationMap) raml.StringExampl
 }
 
 func (e *StringExample) UnsetAnnotations() raml.StringExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-timeonly.go b/v0/internal/raml/x-gen-ex-timeonly.go
index faa0e6c..0bbfcef 100644
--- a/v0/internal/raml/x-gen-ex-timeonly.go
+++ b/v0/internal/raml/x-gen-ex-timeonly.go
@@ -73,7 +73,7 @@ func (e *TimeOnlyExample) SetAnnotations(ann raml.AnnotationMap) raml.TimeOnlyEx
 }
 
 func (e *TimeOnlyExample) UnsetAnnotations() raml.TimeOnlyExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-union.go b/v0/internal/raml/x-gen-ex-union.go
index 0341d3c..4c1fa7b 100644
--- a/v0/internal/raml/x-gen-ex-union.go
+++ b/v0/internal/raml/x-gen-ex-union.go
@@ -73,7 +73,7 @@ func (e *UnionExample) SetAnnotations(ann raml.AnnotationMap) raml.UnionExample
 }
 
 func (e *UnionExample) UnsetAnnotations() raml.UnionExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-type-any.go b/v0/internal/raml/x-gen-type-any.go
index 390e11b..9c06d25 100644
--- a/v0/internal/raml/x-gen-type-any.go
+++ b/v0/internal/raml/x-gen-type-any.go
@@ -86,7 +86,7 @@ func (o *AnyType) SetExamples(examples raml.AnyExampleMap) raml.AnyType {
 }
 
 func (o *AnyType) UnsetExamples() raml.AnyType {
-	o.examples = raml.NewAnyExampleMap(0)
+	o.examples = raml.NewAnyExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -120,7 +120,7 @@ func (o *AnyType) SetAnnotations(annotations raml.AnnotationMap) raml.AnyType {
 }
 
 func (o *AnyType) UnsetAnnotations() raml.AnyType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -134,7 +134,7 @@ func (o *AnyType) SetFacetDefinitions(facets raml.FacetMap) raml.AnyType {
 }
 
 func (o *AnyType) UnsetFacetDefinitions() raml.AnyType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -172,7 +172,7 @@ func (o *AnyType) SetExtraFacets(facets raml.AnyMap) raml.AnyType {
 }
 
 func (o *AnyType) UnsetExtraFacets() raml.AnyType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-array.go b/v0/internal/raml/x-gen-type-array.go
index 7c03efb..aa686dc 100644
--- a/v0/internal/raml/x-gen-type-array.go
+++ b/v0/internal/raml/x-gen-type-array.go
@@ -93,7 +93,7 @@ func (o *ArrayType) SetExamples(examples raml.ArrayExampleMap) raml.ArrayType {
 }
 
 func (o *ArrayType) UnsetExamples() raml.ArrayType {
-	o.examples = raml.NewArrayExampleMap(0)
+	o.examples = raml.NewArrayExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -127,7 +127,7 @@ func (o *ArrayType) SetAnnotations(annotations raml.AnnotationMap) raml.ArrayTyp
 }
 
 func (o *ArrayType) UnsetAnnotations() raml.ArrayType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -141,7 +141,7 @@ func (o *ArrayType) SetFacetDefinitions(facets raml.FacetMap) raml.ArrayType {
 }
 
 func (o *ArrayType) UnsetFacetDefinitions() raml.ArrayType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -179,7 +179,7 @@ func (o *ArrayType) SetExtraFacets(facets raml.AnyMap) raml.ArrayType {
 }
 
 func (o *ArrayType) UnsetExtraFacets() raml.ArrayType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-bool.go b/v0/internal/raml/x-gen-type-bool.go
index 171755a..01c67cb 100644
--- a/v0/internal/raml/x-gen-type-bool.go
+++ b/v0/internal/raml/x-gen-type-bool.go
@@ -86,7 +86,7 @@ func (o *BoolType) SetExamples(examples raml.BoolExampleMap) raml.BoolType {
 }
 
 func (o *BoolType) UnsetExamples() raml.BoolType {
-	o.examples = raml.NewBoolExampleMap(0)
+	o.examples = raml.NewBoolExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -120,7 +120,7 @@ func (o *BoolType) SetAnnotations(annotations raml.AnnotationMap) raml.BoolType
 }
 
 func (o *BoolType) UnsetAnnotations() raml.BoolType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -134,7 +134,7 @@ func (o *BoolType) SetFacetDefinitions(facets raml.FacetMap) raml.BoolType {
 }
 
 func (o *BoolType) UnsetFacetDefinitions() raml.BoolType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -172,7 +172,7 @@ func (o *BoolType) SetExtraFacets(facets raml.AnyMap) raml.BoolType {
 }
 
 func (o *BoolType) UnsetExtraFacets() raml.BoolType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-custom.go b/v0/internal/raml/x-gen-type-custom.go
index 4a9d881..d37a22c 100644
--- a/v0/internal/raml/x-gen-type-custom.go
+++ b/v0/internal/raml/x-gen-type-custom.go
@@ -86,7 +86,7 @@ func (o *CustomType) SetExamples(examples raml.CustomExampleMap) raml.CustomType
 }
 
 func (o *CustomType) UnsetExamples() raml.CustomType {
-	o.examples = raml.NewCustomExampleMap(0)
+	o.examples = raml.NewCustomExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -120,7 +120,7 @@ func (o *CustomType) SetAnnotations(annotations raml.AnnotationMap) raml.CustomT
 }
 
 func (o *CustomType) UnsetAnnotations() raml.CustomType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -134,7 +134,7 @@ func (o *CustomType) SetFacetDefinitions(facets raml.FacetMap) raml.CustomType {
 }
 
 func (o *CustomType) UnsetFacetDefinitions() raml.CustomType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -172,7 +172,7 @@ func (o *CustomType) SetExtraFacets(facets raml.AnyMap) raml.CustomType {
 }
 
 func (o *CustomType) UnsetExtraFacets() raml.CustomType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-date-only.go b/v0/internal/raml/x-gen-type-date-only.go
index 4475886..2e16e06 100644
--- a/v0/internal/raml/x-gen-type-date-only.go
+++ b/v0/internal/raml/x-gen-type-date-only.go
@@ -86,7 +86,7 @@ func (o *DateOnlyType) SetExamples(examples raml.DateOnlyExampleMap) raml.DateOn
 }
 
 func (o *DateOnlyType) UnsetExamples() raml.DateOnlyType {
-	o.examples = raml.NewDateOnlyExampleMap(0)
+	o.examples = raml.NewDateOnlyExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -120,7 +120,7 @@ func (o *DateOnlyType) SetAnnotations(annotations raml.AnnotationMap) raml.DateO
 }
 
 func (o *DateOnlyType) UnsetAnnotations() raml.DateOnlyType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -134,7 +134,7 @@ func (o *DateOnlyType) SetFacetDefinitions(facets raml.FacetMap) raml.DateOnlyTy
 }
 
 func (o *DateOnlyType) UnsetFacetDefinitions() raml.DateOnlyType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -172,7 +172,7 @@ func (o *DateOnlyType) SetExtraFacets(facets raml.AnyMap) raml.DateOnlyType {
 }
 
 func (o *DateOnlyType) UnsetExtraFacets() raml.DateOnlyType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-datetime-only.go b/v0/internal/raml/x-gen-type-datetime-only.go
index 201b68a..6acefcc 100644
--- a/v0/internal/raml/x-gen-type-datetime-only.go
+++ b/v0/internal/raml/x-gen-type-datetime-only.go
@@ -86,7 +86,7 @@ func (o *DatetimeOnlyType) SetExamples(examples raml.DatetimeOnlyExampleMap) ram
 }
 
 func (o *DatetimeOnlyType) UnsetExamples() raml.DatetimeOnlyType {
-	o.examples = raml.NewDatetimeOnlyExampleMap(0)
+	o.examples = raml.NewDatetimeOnlyExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -120,7 +120,7 @@ func (o *DatetimeOnlyType) SetAnnotations(annotations raml.AnnotationMap) raml.D
 }
 
 func (o *DatetimeOnlyType) UnsetAnnotations() raml.DatetimeOnlyType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -134,7 +134,7 @@ func (o *DatetimeOnlyType) SetFacetDefinitions(facets raml.FacetMap) raml.Dateti
 }
 
 func (o *DatetimeOnlyType) UnsetFacetDefinitions() raml.DatetimeOnlyType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -172,7 +172,7 @@ func (o *DatetimeOnlyType) SetExtraFacets(facets raml.AnyMap) raml.DatetimeOnlyT
 }
 
 func (o *DatetimeOnlyType) UnsetExtraFacets() raml.DatetimeOnlyType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-datetime.go b/v0/internal/raml/x-gen-type-datetime.go
index 4b4e9b0..7b5eb42 100644
--- a/v0/internal/raml/x-gen-type-datetime.go
+++ b/v0/internal/raml/x-gen-type-datetime.go
@@ -87,7 +87,7 @@ func (o *DatetimeType) SetExamples(examples raml.DatetimeExampleMap) raml.Dateti
 }
 
 func (o *DatetimeType) UnsetExamples() raml.DatetimeType {
-	o.examples = raml.NewDatetimeExampleMap(0)
+	o.examples = raml.NewDatetimeExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -121,7 +121,7 @@ func (o *DatetimeType) SetAnnotations(annotations raml.AnnotationMap) raml.Datet
 }
 
 func (o *DatetimeType) UnsetAnnotations() raml.DatetimeType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -135,7 +135,7 @@ func (o *DatetimeType) SetFacetDefinitions(facets raml.FacetMap) raml.DatetimeTy
 }
 
 func (o *DatetimeType) UnsetFacetDefinitions() raml.DatetimeType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -173,7 +173,7 @@ func (o *DatetimeType) SetExtraFacets(facets raml.AnyMap) raml.DatetimeType {
 }
 
 func (o *DatetimeType) UnsetExtraFacets() raml.DatetimeType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-file.go b/v0/internal/raml/x-gen-type-file.go
index f5faa94..b509697 100644
--- a/v0/internal/raml/x-gen-type-file.go
+++ b/v0/internal/raml/x-gen-type-file.go
@@ -92,7 +92,7 @@ func (o *FileType) SetExamples(examples raml.FileExampleMap) raml.FileType {
 }
 
 func (o *FileType) UnsetExamples() raml.FileType {
-	o.examples = raml.NewFileExampleMap(0)
+	o.examples = raml.NewFileExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -126,7 +126,7 @@ func (o *FileType) SetAnnotations(annotations raml.AnnotationMap) raml.FileType
 }
 
 func (o *FileType) UnsetAnnotations() raml.FileType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -140,7 +140,7 @@ func (o *FileType) SetFacetDefinitions(facets raml.FacetMap) raml.FileType {
 }
 
 func (o *FileType) UnsetFacetDefinitions() raml.FileType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -178,7 +178,7 @@ func (o *FileType) SetExtraFacets(facets raml.AnyMap) raml.FileType {
 }
 
 func (o *FileType) UnsetExtraFacets() raml.FileType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-integer.go b/v0/internal/raml/x-gen-type-integer.go
index a0e6346..5eca6bd 100644
--- a/v0/internal/raml/x-gen-type-integer.go
+++ b/v0/internal/raml/x-gen-type-integer.go
@@ -90,7 +90,7 @@ func (o *IntegerType) SetExamples(examples raml.IntegerExampleMap) raml.IntegerT
 }
 
 func (o *IntegerType) UnsetExamples() raml.IntegerType {
-	o.examples = raml.NewIntegerExampleMap(0)
+	o.examples = raml.NewIntegerExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -124,7 +124,7 @@ func (o *IntegerType) SetAnnotations(annotations raml.AnnotationMap) raml.Intege
 }
 
 func (o *IntegerType) UnsetAnnotations() raml.IntegerType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -138,7 +138,7 @@ func (o *IntegerType) SetFacetDefinitions(facets raml.FacetMap) raml.IntegerType
 }
 
 func (o *IntegerType) UnsetFacetDefinitions() raml.IntegerType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -176,7 +176,7 @@ func (o *IntegerType) SetExtraFacets(facets raml.AnyMap) raml.IntegerType {
 }
 
 func (o *IntegerType) UnsetExtraFacets() raml.IntegerType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-number.go b/v0/internal/raml/x-gen-type-number.go
index fcc1a38..5d12ebe 100644
--- a/v0/internal/raml/x-gen-type-number.go
+++ b/v0/internal/raml/x-gen-type-number.go
@@ -90,7 +90,7 @@ func (o *NumberType) SetExamples(examples raml.NumberExampleMap) raml.NumberType
 }
 
 func (o *NumberType) UnsetExamples() raml.NumberType {
-	o.examples = raml.NewNumberExampleMap(0)
+	o.examples = raml.NewNumberExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -124,7 +124,7 @@ func (o *NumberType) SetAnnotations(annotations raml.AnnotationMap) raml.NumberT
 }
 
 func (o *NumberType) UnsetAnnotations() raml.NumberType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -138,7 +138,7 @@ func (o *NumberType) SetFacetDefinitions(facets raml.FacetMap) raml.NumberType {
 }
 
 func (o *NumberType) UnsetFacetDefinitions() raml.NumberType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -176,7 +176,7 @@ func (o *NumberType) SetExtraFacets(facets raml.AnyMap) raml.NumberType {
 }
 
 func (o *NumberType) UnsetExtraFacets() raml.NumberType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-object.go b/v0/internal/raml/x-gen-type-object.go
index 2f0f0c6..203b5ce 100644
--- a/v0/internal/raml/x-gen-type-object.go
+++ b/v0/internal/raml/x-gen-type-object.go
@@ -95,7 +95,7 @@ func (o *ObjectType) SetExamples(examples raml.ObjectExampleMap) raml.ObjectType
 }
 
 func (o *ObjectType) UnsetExamples() raml.ObjectType {
-	o.examples = raml.NewObjectExampleMap(0)
+	o.examples = raml.NewObjectExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -129,7 +129,7 @@ func (o *ObjectType) SetAnnotations(annotations raml.AnnotationMap) raml.ObjectT
 }
 
 func (o *ObjectType) UnsetAnnotations() raml.ObjectType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -143,7 +143,7 @@ func (o *ObjectType) SetFacetDefinitions(facets raml.FacetMap) raml.ObjectType {
 }
 
 func (o *ObjectType) UnsetFacetDefinitions() raml.ObjectType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -181,7 +181,7 @@ func (o *ObjectType) SetExtraFacets(facets raml.AnyMap) raml.ObjectType {
 }
 
 func (o *ObjectType) UnsetExtraFacets() raml.ObjectType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -204,7 +204,7 @@ func (o *ObjectType) SetProperties(props raml.PropertyMap) raml.ObjectType {
 }
 
 func (o *ObjectType) UnsetProperties() raml.ObjectType {
-	o.properties = raml.NewPropertyMap(3)
+	o.properties = raml.NewPropertyMap(3).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-string.go b/v0/internal/raml/x-gen-type-string.go
index 20554a2..6611bb6 100644
--- a/v0/internal/raml/x-gen-type-string.go
+++ b/v0/internal/raml/x-gen-type-string.go
@@ -91,7 +91,7 @@ func (o *StringType) SetExamples(examples raml.StringExampleMap) raml.StringType
 }
 
 func (o *StringType) UnsetExamples() raml.StringType {
-	o.examples = raml.NewStringExampleMap(0)
+	o.examples = raml.NewStringExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -125,7 +125,7 @@ func (o *StringType) SetAnnotations(annotations raml.AnnotationMap) raml.StringT
 }
 
 func (o *StringType) UnsetAnnotations() raml.StringType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -139,7 +139,7 @@ func (o *StringType) SetFacetDefinitions(facets raml.FacetMap) raml.StringType {
 }
 
 func (o *StringType) UnsetFacetDefinitions() raml.StringType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -177,7 +177,7 @@ func (o *StringType) SetExtraFacets(facets raml.AnyMap) raml.StringType {
 }
 
 func (o *StringType) UnsetExtraFacets() raml.StringType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-time-only.go b/v0/internal/raml/x-gen-type-time-only.go
index 8cf5323..83e337c 100644
--- a/v0/internal/raml/x-gen-type-time-only.go
+++ b/v0/internal/raml/x-gen-type-time-only.go
@@ -86,7 +86,7 @@ func (o *TimeOnlyType) SetExamples(examples raml.TimeOnlyExampleMap) raml.TimeOn
 }
 
 func (o *TimeOnlyType) UnsetExamples() raml.TimeOnlyType {
-	o.examples = raml.NewTimeOnlyExampleMap(0)
+	o.examples = raml.NewTimeOnlyExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -120,7 +120,7 @@ func (o *TimeOnlyType) SetAnnotations(annotations raml.AnnotationMap) raml.TimeO
 }
 
 func (o *TimeOnlyType) UnsetAnnotations() raml.TimeOnlyType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -134,7 +134,7 @@ func (o *TimeOnlyType) SetFacetDefinitions(facets raml.FacetMap) raml.TimeOnlyTy
 }
 
 func (o *TimeOnlyType) UnsetFacetDefinitions() raml.TimeOnlyType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -172,7 +172,7 @@ func (o *TimeOnlyType) SetExtraFacets(facets raml.AnyMap) raml.TimeOnlyType {
 }
 
 func (o *TimeOnlyType) UnsetExtraFacets() raml.TimeOnlyType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-union.go b/v0/internal/raml/x-gen-type-union.go
index db1a389..7b0527c 100644
--- a/v0/internal/raml/x-gen-type-union.go
+++ b/v0/internal/raml/x-gen-type-union.go
@@ -86,7 +86,7 @@ func (o *UnionType) SetExamples(examples raml.UnionExampleMap) raml.UnionType {
 }
 
 func (o *UnionType) UnsetExamples() raml.UnionType {
-	o.examples = raml.NewUnionExampleMap(0)
+	o.examples = raml.NewUnionExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -120,7 +120,7 @@ func (o *UnionType) SetAnnotations(annotations raml.AnnotationMap) raml.UnionTyp
 }
 
 func (o *UnionType) UnsetAnnotations() raml.UnionType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -134,7 +134,7 @@ func (o *UnionType) SetFacetDefinitions(facets raml.FacetMap) raml.UnionType {
 }
 
 func (o *UnionType) UnsetFacetDefinitions() raml.UnionType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -172,7 +172,7 @@ func (o *UnionType) SetExtraFacets(facets raml.AnyMap) raml.UnionType {
 }
 
 func (o *UnionType) UnsetExtraFacets() raml.UnionType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
-- 
2.43.0


From a3bc2d8a562e1b5051690495e837a3783aa5cfd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:50 +0000
Subject: [PATCH 10/18] fix: write documentation items

---
 v0/internal/raml/Documentation.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/v0/internal/raml/Documentation.go b/v0/internal/raml/Documentation.go
index f4e5858..795eda8 100644
--- a/v0/internal/raml/Documentation.go
+++ b/v0/internal/raml/Documentation.go
@@ -46,6 +46,14 @@ func (d *Documentation) MarshalRAML(out raml.AnyMap) (simple bool, err error) {
 	return false, nil
 }
 
+func (d *Documentation) ToYAML() (*yaml.Node, error) {
+	out := raml.NewAnyMap(2 + d.extra.Len()).SerializeOrdered(false)
+	if _, err := d.MarshalRAML(out); err != nil {
+		return nil, err
+	}
+	return out.ToYAML()
+}
+
 func (d *Documentation) UnmarshalRAML(val *yaml.Node) error {
 	return xyml.MapForEach(val, func(k, v *yaml.Node) error {
 		switch k.Value {
-- 
2.43.0


From 441a95850345a6801becd9092ce22748aebcb699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:50 +0000
Subject: [PATCH 11/18] fix: write XML settings, keeping unknown entries in
 order

---
 v0/internal/raml/type-xml.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/v0/internal/raml/type-xml.go b/v0/internal/raml/type-xml.go
index 869366c..78a0e8b 100644
--- a/v0/internal/raml/type-xml.go
+++ b/v0/internal/raml/type-xml.go
@@ -11,7 +11,7 @@ import (
 
 func NewXML() *XML {
 	return &XML{
-		extra: make(map[interface{}]interface{}),
+		extra: raml.NewAnyMap(0).SerializeOrdered(false),
 	}
 }
 
@@ -21,7 +21,7 @@ type XML struct {
 	name   *string
 	ns     *string
 	pref   *string
-	extra  map[interface{}]interface{}
+	extra  raml.AnyMap
 }
 
 func (x *XML) IsAttribute() option.Bool {
@@ -105,9 +105,19 @@ func (x XML) MarshalRAML(out raml.AnyMap) (bool, error) {
 		PutIfNotNil(rmeta.KeyNamespace, x.ns).
 		PutIfNotNil(rmeta.KeyPrefix, x.pref)
 
+	x.extra.ForEach(func(k, v interface{}) { out.Put(k, v) })
+
 	return false, nil
 }
 
+func (x XML) ToYAML() (*yaml.Node, error) {
+	out := raml.NewAnyMap(5 + x.extra.Len()).SerializeOrdered(false)
+	if _, err := x.MarshalRAML(out); err != nil {
+		return nil, err
+	}
+	return out.ToYAML()
+}
+
 func (x *XML) assign(key, val *yaml.Node) error {
 	switch key.Value {
 	case rmeta.KeyAttribute:
@@ -124,7 +134,7 @@ func (x *XML) assign(key, val *yaml.Node) error {
 		if k, err := xyml.ToScalarValue(key); err != nil {
 			return err
 		} else {
-			x.extra[k] = val
+			x.extra.Put(k, val)
 		}
 	}
 
-- 
2.43.0


From 2ef59d4483af122273646e40c640d2f301f93d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:25 +0000
Subject: [PATCH 12/18] fix: write short examples as their bare value

---
 v0/gen/example-m.tpl                      | 8 ++++++--
 v0/internal/raml/x-gen-ex-any.go          | 8 ++++++--
 v0/internal/raml/x-gen-ex-array.go        | 8 ++++++--
 v0/internal/raml/x-gen-ex-bool.go         | 8 ++++++--
 v0/internal/raml/x-gen-ex-custom.go       | 8 ++++++--
 v0/internal/raml/x-gen-ex-dateonly.go     | 8 ++++++--
 v0/internal/raml/x-gen-ex-datetime.go     | 8 ++++++--
 v0/internal/raml/x-gen-ex-datetimeonly.go | 8 ++++++--
 v0/internal/raml/x-gen-ex-file.go         | 8 ++++++--
 v0/internal/raml/x-gen-ex-integer.go      | 8 ++++++--
 v0/internal/raml/x-gen-ex-number.go       | 8 ++++++--
 v0/internal/raml/x-gen-ex-object.go       | 8 ++++++--
 v0/internal/raml/x-gen-ex-string.go       | 8 ++++++--
 v0/internal/raml/x-gen-ex-timeonly.go     | 8 ++++++--
 v0/internal/raml/x-gen-ex-union.go        | 8 ++++++--
 15 files changed, 90 insertions(+), 30 deletions(-)

diff --git a/v0/gen/example-m.tpl b/v0/gen/example-m.tpl
index 17f67cc..0ef8528 100644
--- a/v0/gen/example-m.tpl
+++ b/v0/gen/example-m.tpl
@@ -112,8 +112,11 @@ func (e *{{.Name}}Example) ExtraFacets() raml.AnyMap {
 
 func (e {{.Name}}Example) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if short, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if short {
+		val, _ := out.Get("")
+		return xyml.ToYamlNode(val)
 	}
 	return out.ToYAML()
 }
@@ -187,7 +190,8 @@ func (e *{{.Name}}Example) assign(key, val *yaml.Node) error {
 }
 
 func (e *{{.Name}}Example) expand() bool {
-	return e.displayName != nil ||
+	return e.value == nil ||
+		e.displayName != nil ||
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
 		e.extra.Len() > 0 ||
diff --git a/v0/internal/raml/x-gen-ex-any.go b/v0/internal/raml/x-gen-ex-any.go
index 468512f..c1468cf 100644
--- a/v0/internal/raml/x-gen-ex-any.go
+++ b/v0/internal/raml/x-gen-ex-any.go
@@ -106,8 +106,11 @@ func (e *AnyExample) ExtraFacets() raml.AnyMap {
 
 func (e AnyExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if short, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if short {
+		val, _ := out.Get("")
+		return xyml.ToYamlNode(val)
 	}
 	return out.ToYAML()
 }
@@ -181,7 +184,8 @@ func (e *AnyExample) assign(key, val *yaml.Node) error {
 }
 
 func (e *AnyExample) expand() bool {
-	return e.displayName != nil ||
+	return e.value == nil ||
+		e.displayName != nil ||
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
 		e.extra.Len() > 0 ||
diff --git a/v0/internal/raml/x-gen-ex-array.go b/v0/internal/raml/x-gen-ex-array.go
index 479588d..44adaf1 100644
--- a/v0/internal/raml/x-gen-ex-array.go
+++ b/v0/internal/raml/x-gen-ex-array.go
@@ -106,8 +106,11 @@ func (e *ArrayExample) ExtraFacets() raml.AnyMap {
 
 func (e ArrayExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if short, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if short {
+		val, _ := out.Get("")
+		return xyml.ToYamlNode(val)
 	}
 	return out.ToYAML()
 }
@@ -181,7 +184,8 @@ func (e *ArrayExample) assign(key, val *yaml.Node) error {
 }
 
 func (e *ArrayExample) expand() bool {
-	return e.displayName != nil ||
+	return e.value == nil ||
+		e.displayName != nil ||
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
 		e.extra.Len() > 0 ||
diff --git a/v0/internal/raml/x-gen-ex-bool.go b/v0/internal/raml/x-gen-ex-bool.go
index 817caf7..909d168 100644
--- a/v0/internal/raml/x-gen-ex-bool.go
+++ b/v0/internal/raml/x-gen-ex-bool.go
@@ -106,8 +106,11 @@ func (e *BoolExample) ExtraFacets() raml.AnyMap {
 
 func (e BoolExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if short, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if short {
+		val, _ := out.Get("")
+		return xyml.ToYamlNode(val)
 	}
 	return out.ToYAML()
 }
@@ -181,7 +184,8 @@ func (e *BoolExample) assign(key, val *yaml.Node) error {
 }
 
 func (e *BoolExample) expand() bool {
-	return e.displayName != nil ||
+	return e.value == nil ||
+		e.displayName != nil ||
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
 		e.extra.Len() > 0 ||
diff --git a/v0/internal/raml/x-gen-ex-custom.go b/v0/internal/raml/x-gen-ex-custom.go
index 69a0b95..c1ce555 100644
--- a/v0/internal/raml/x-gen-ex-custom.go
+++ b/v0/internal/raml/x-gen-ex-custom.go
@@ -106,8 +106,11 @@ func (e *CustomExample) ExtraFacets() raml.AnyMap {
 
 func (e CustomExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if short, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if short {
+		val, _ := out.Get("")
+		return xyml.ToYamlNode(val)
 	}
 	return out.ToYAML()
 }
@@ -181,7 +184,8 @@ func (e *CustomExample) assign(key, val *yaml.Node) error {
 }
 
 func (e *CustomExample) expand() bool {
-	return e.displayName != nil ||
+	return e.value == nil ||
+		e.displayName != nil ||
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
 		e.extra.Len() > 0 ||
diff --git a/v0/internal/raml/x-gen-ex-dateonly.go b/v0/internal/raml/x-gen-ex-dateonly.go
index ead6fcc..fec9834 100644
--- a/v0/internal/raml/x-gen-ex-dateonly.go
+++ b/v0/internal/raml/x-gen-ex-dateonly.go
@@ -106,8 +106,11 @@ func (e *DateOnlyExample) ExtraFacets() raml.AnyMap {
 
 func (e DateOnlyExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if short, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if short {
+		val, _ := out.Get("")
+		return xyml.ToYamlNode(val)
 	}
 	return out.ToYAML()
 }
@@ -181,7 +184,8 @@ func (e *DateOnlyExample) assign(key, val *yaml.Node) error {
 }
 
 func (e *DateOnlyExample) expand() bool {
-	return e.displayName != nil ||
+	return e.value == nil ||
+		e.displayName != nil ||
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
 		e.extra.Len() > 0 ||
diff --git a/v0/internal/raml/x-gen-ex-datetime.go b/v0/internal/raml/x-gen-ex-datetime.go
index 6d5c7b1..8e22f19 100644
--- a/v0/internal/raml/x-gen-ex-datetime.go
+++ b/v0/internal/raml/x-gen-ex-datetime.go
@@ -106,8 +106,11 @@ func (e *DatetimeExample) ExtraFacets() raml.AnyMap {
 
 func (e DatetimeExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if short, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if short {
+		val, _ := out.Get("")
+		return xyml.ToYamlNode(val)
 	}
 	return out.ToYAML()
 }
@@ -181,7 +184,8 @@ func (e *DatetimeExample) assign(key, val *yaml.Node) error {
 }
 
 func (e *DatetimeExample) expand() bool {
-	return e.displayName != nil ||
+	return e.value == nil ||
+		e.displayName != nil ||
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
 		e.extra.Len() > 0 ||
diff --git a/v0/internal/raml/x-gen-ex-datetimeonly.go b/v0/internal/raml/x-gen-ex-datetimeonly.go
index e6e8866..03eebf5 100644
--- a/v0/internal/raml/x-gen-ex-datetimeonly.go
+++ b/v0/internal/raml/x-gen-ex-datetimeonly.go
@@ -106,8 +106,11 @@ func (e *DatetimeOnlyExample) ExtraFacets() raml.AnyMap {
 
 func (e DatetimeOnlyExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if short, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if short {
+		val, _ := out.Get("")
+		return xyml.ToYamlNode(val)
 	}
 	return out.ToYAML()
 }
@@ -181,7 +184,8 @@ func (e *DatetimeOnlyExample) assign(key, val *yaml.Node) error {
 }
 
 func (e *DatetimeOnlyExample) expand() bool {
-	return e.displayName != nil ||
+	return e.value == nil ||
+		e.displayName != nil ||
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
 		e.extra.Len() > 0 ||
diff --git a/v0/internal/raml/x-gen-ex-file.go b/v0/internal/raml/x-gen-ex-file.go
index 5ee76e4..5a62606 100644
--- a/v0/internal/raml/x-gen-ex-file.go
+++ b/v0/internal/raml/x-gen-ex-file.go
@@ -106,8 +106,11 @@ func (e *FileExample) ExtraFacets() raml.AnyMap {
 
 func (e FileExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if short, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if short {
+		val, _ := out.Get("")
+		return xyml.ToYamlNode(val)
 	}
 	return out.ToYAML()
 }
@@ -181,7 +184,8 @@ func (e *FileExample) assign(key, val *yaml.Node) error {
 }
 
 func (e *FileExample) expand() bool {
-	return e.displayName != nil ||
+	return e.value == nil ||
+		e.displayName != nil ||
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
 		e.extra.Len() > 0 ||
diff --git a/v0/internal/raml/x-gen-ex-integer.go b/v0/internal/raml/x-gen-ex-integer.go
index add5c48..0e41b24 100644
--- a/v0/internal/raml/x-gen-ex-integer.go
+++ b/v0/internal/raml/x-gen-ex-integer.go
@@ -106,8 +106,11 @@ func (e *IntegerExample) ExtraFacets() raml.AnyMap {
 
 func (e IntegerExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if short, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if short {
+		val, _ := out.Get("")
+		return xyml.ToYamlNode(val)
 	}
 	return out.ToYAML()
 }
@@ -181,7 +184,8 @@ func (e *IntegerExample) assign(key, val *yaml.Node) error {
 }
 
 func (e *IntegerExample) expand() bool {
-	return e.displayName != nil ||
+	return e.value == nil ||
+		e.displayName != nil ||
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
 		e.extra.Len() > 0 ||
diff --git a/v0/internal/raml/x-gen-ex-number.go b/v0/internal/raml/x-gen-ex-number.go
index 852e816..aa5374f 100644
--- a/v0/internal/raml/x-gen-ex-number.go
+++ b/v0/internal/raml/x-gen-ex-number.go
@@ -106,8 +106,11 @@ func (e *NumberExample) ExtraFacets() raml.AnyMap {
 
 func (e NumberExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if short, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if short {
+		val, _ := out.Get("")
+		return xyml.ToYamlNode(val)
 	}
 	return out.ToYAML()
 }
@@ -181,7 +184,8 @@ func (e *NumberExample) assign(key, val *yaml.Node) error {
 }
 
 func (e *NumberExample) expand() bool {
-	return e.displayName != nil ||
+	return e.value == nil ||
+		e.displayName != nil ||
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
 		e.extra.Len() > 0 ||
diff --git a/v0/internal/raml/x-gen-ex-object.go b/v0/internal/raml/x-gen-ex-object.go
index 7670868..7af780a 100644
--- a/v0/internal/raml/x-gen-ex-object.go
+++ b/v0/internal/raml/x-gen-ex-object.go
@@ -106,8 +106,11 @@ func (e *ObjectExample) ExtraFacets() raml.AnyMap {
 
 func (e ObjectExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if short, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if short {
+		val, _ := out.Get("")
+		return xyml.ToYamlNode(val)
 	}
 	return out.ToYAML()
 }
@@ -181,7 +184,8 @@ func (e *ObjectExample) assign(key, val *yaml.Node) error {
 }
 
 func (e *ObjectExample) expand() bool {
-	return e.displayName != nil ||
+	return e.value == nil ||
+		e.displayName != nil ||
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
 		e.extra.Len() > 0 ||
diff --git a/v0/internal/raml/x-gen-ex-string.go b/v0/internal/raml/x-gen-ex-string.go
index 90ec7f2..bcd3eb2 100644
--- a/v0/internal/raml/x-gen-ex-string.go
+++ b/v0/internal/raml/x-gen-ex-string.go
@@ -106,8 +106,11 @@ func (e *StringExample) ExtraFacets() raml.AnyMap {
 
 func (e StringExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if short, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if short {
+		val, _ := out.Get("")
+		return xyml.ToYamlNode(val)
 	}
 	return out.ToYAML()
 }
@@ -181,7 +184,8 @@ func (e *StringExample) assign(key, val *yaml.Node) error {
 }
 
 func (e *StringExample) expand() bool {
-	return e.displayName != nil ||
+	return e.value == nil ||
+		e.displayName != nil ||
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
 		e.extra.Len() > 0 ||
diff --git a/v0/internal/raml/x-gen-ex-timeonly.go b/v0/internal/raml/x-gen-ex-timeonly.go
index 0bbfcef..9cbca75 100644
--- a/v0/internal/raml/x-gen-ex-timeonly.go
+++ b/v0/internal/raml/x-gen-ex-timeonly.go
@@ -106,8 +106,11 @@ func (e *TimeOnlyExample) ExtraFacets() raml.AnyMap {
 
 func (e TimeOnlyExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if short, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if short {
+		val, _ := out.Get("")
+		return xyml.ToYamlNode(val)
 	}
 	return out.ToYAML()
 }
@@ -181,7 +184,8 @@ func (e *TimeOnlyExample) assign(key, val *yaml.Node) error {
 }
 
 func (e *TimeOnlyExample) expand() bool {
-	return e.displayName != nil ||
+	return e.value == nil ||
+		e.displayName != nil ||
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
 		e.extra.Len() > 0 ||
diff --git a/v0/internal/raml/x-gen-ex-union.go b/v0/internal/raml/x-gen-ex-union.go
index 4c1fa7b..5b783be 100644
--- a/v0/internal/raml/x-gen-ex-union.go
+++ b/v0/internal/raml/x-gen-ex-union.go
@@ -106,8 +106,11 @@ func (e *UnionExample) ExtraFacets() raml.AnyMap {
 
 func (e UnionExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if short, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if short {
+		val, _ := out.Get("")
+		return xyml.ToYamlNode(val)
 	}
 	return out.ToYAML()
 }
@@ -181,7 +184,8 @@ func (e *UnionExample) assign(key, val *yaml.Node) error {
 }
 
 func (e *UnionExample) expand() bool {
-	return e.displayName != nil ||
+	return e.value == nil ||
+		e.displayName != nil ||
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
 		e.extra.Len() > 0 ||
-- 
2.43.0


From 49cccfcd88bdb4df85348bbc2fb29741d3f09426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:27 +0000
Subject: [PATCH 13/18] fix: keep untyped example values as nodes that can be
 written

---
 v0/gen/example-m.tpl                | 2 +-
 v0/internal/raml/x-gen-ex-any.go    | 2 +-
 v0/internal/raml/x-gen-ex-custom.go | 2 +-
 v0/internal/raml/x-gen-ex-file.go   | 2 +-
 v0/internal/raml/x-gen-ex-object.go | 2 +-
 v0/internal/raml/x-gen-ex-union.go  | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/v0/gen/example-m.tpl b/v0/gen/example-m.tpl
index 0ef8528..bc4c0d8 100644
--- a/v0/gen/example-m.tpl
+++ b/v0/gen/example-m.tpl
@@ -229,7 +229,7 @@ func (e *{{.Name}}Example) assignVal(val *yaml.Node) error {
 		return nil
 	})
 	{{- else -}}
-	var tmp interface{} = *val
+	var tmp interface{} = val
 	e.value = &tmp
 	{{- end}}
 
diff --git a/v0/internal/raml/x-gen-ex-any.go b/v0/internal/raml/x-gen-ex-any.go
index c1468cf..fe94c09 100644
--- a/v0/internal/raml/x-gen-ex-any.go
+++ b/v0/internal/raml/x-gen-ex-any.go
@@ -193,7 +193,7 @@ func (e *AnyExample) expand() bool {
 }
 
 func (e *AnyExample) assignVal(val *yaml.Node) error {
-	var tmp interface{} = *val
+	var tmp interface{} = val
 	e.value = &tmp
 
 	return nil
diff --git a/v0/internal/raml/x-gen-ex-custom.go b/v0/internal/raml/x-gen-ex-custom.go
index c1ce555..e382b8f 100644
--- a/v0/internal/raml/x-gen-ex-custom.go
+++ b/v0/internal/raml/x-gen-ex-custom.go
@@ -193,7 +193,7 @@ func (e *CustomExample) expand() bool {
 }
 
 func (e *CustomExample) assignVal(val *yaml.Node) error {
-	var tmp interface{} = *val
+	var tmp interface{} = val
 	e.value = &tmp
 
 	return nil
diff --git a/v0/internal/raml/x-gen-ex-file.go b/v0/internal/raml/x-gen-ex-file.go
index 5a62606..0710ace 100644
--- a/v0/internal/raml/x-gen-ex-file.go
+++ b/v0/internal/raml/x-gen-ex-file.go
@@ -193,7 +193,7 @@ func (e *FileExample) expand() bool {
 }
 
 func (e *FileExample) assignVal(val *yaml.Node) error {
-	var tmp interface{} = *val
+	var tmp interface{} = val
 	e.value = &tmp
 
 	return nil
diff --git a/v0/internal/raml/x-gen-ex-object.go b/v0/internal/raml/x-gen-ex-object.go
index 7af780a..b359c08 100644
--- a/v0/internal/raml/x-gen-ex-object.go
+++ b/v0/internal/raml/x-gen-ex-object.go
@@ -193,7 +193,7 @@ func (e *ObjectExample) expand() bool {
 }
 
 func (e *ObjectExample) assignVal(val *yaml.Node) error {
-	var tmp interface{} = *val
+	var tmp interface{} = val
 	e.value = &tmp
 
 	return nil
diff --git a/v0/internal/raml/x-gen-ex-union.go b/v0/internal/raml/x-gen-ex-union.go
index 5b783be..973323e 100644
--- a/v0/internal/raml/x-gen-ex-union.go
+++ b/v0/internal/raml/x-gen-ex-union.go
@@ -193,7 +193,7 @@ func (e *UnionExample) expand() bool {
 }
 
 func (e *UnionExample) assignVal(val *yaml.Node) error {
-	var tmp interface{} = *val
+	var tmp interface{} = val
 	e.value = &tmp
 
 	return nil
-- 
2.43.0


From df44b6a3493f4ddb5376ea89ee5a2ed73a7c52d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:29 +0000
Subject: [PATCH 14/18] fix: accept examples of any-typed declarations

---
 v0/internal/raml/fn-sorting-hat-example.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/v0/internal/raml/fn-sorting-hat-example.go b/v0/internal/raml/fn-sorting-hat-example.go
index 7c85223..ecc6054 100644
--- a/v0/internal/raml/fn-sorting-hat-example.go
+++ b/v0/internal/raml/fn-sorting-hat-example.go
@@ -13,6 +13,8 @@ func ExampleSortingHat(kind rmeta.DataTypeKind) (raml.Example, error) {
 	logrus.Trace("internal.ExampleSortingHat")
 
 	switch kind {
+	case rmeta.TypeAny:
+		return NewAnyExample(), nil
 	case rmeta.TypeString:
 		return NewStringExample(), nil
 	case rmeta.TypeObject:
-- 
2.43.0


From e34a4ce37b5b9f6cac76f41c9564bb6280d2fa50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:25 +0000
Subject: [PATCH 15/18] fix: report entries without a value as absent in
 optional lookups

---
 v0/pkg/raml/AnyExampleMap.go | 2 +-
 v0/pkg/raml/AnyMap.go        | 2 +-
 v0/pkg/raml/UntypedMap.go    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/v0/pkg/raml/AnyExampleMap.go b/v0/pkg/raml/AnyExampleMap.go
index 9fcc3c4..9e3f4f1 100644
--- a/v0/pkg/raml/AnyExampleMap.go
+++ b/v0/pkg/raml/AnyExampleMap.go
@@ -196,7 +196,7 @@ func (i *implAnyExampleMap) Get(k string) (value interface{}, exists bool) {
 }
 
 func (i *implAnyExampleMap) GetOpt(k string) option.Untyped {
-	if v, ok := i.index[k]; ok {
+	if v, ok := i.index[k]; ok && !gomp.IsNil(v) {
 		return option.NewUntyped(v)
 	}
 
diff --git a/v0/pkg/raml/AnyMap.go b/v0/pkg/raml/AnyMap.go
index 660c472..01e59ef 100644
--- a/v0/pkg/raml/AnyMap.go
+++ b/v0/pkg/raml/AnyMap.go
@@ -196,7 +196,7 @@ func (i *implAnyMap) Get(k interface{}) (value interface{}, exists bool) {
 }
 
 func (i *implAnyMap) GetOpt(k interface{}) option.Untyped {
-	if v, ok := i.index[k]; ok {
+	if v, ok := i.index[k]; ok && !gomp.IsNil(v) {
 		return option.NewUntyped(v)
 	}
 
diff --git a/v0/pkg/raml/UntypedMap.go b/v0/pkg/raml/UntypedMap.go
index ca9844f..62e4ad7 100644
--- a/v0/pkg/raml/UntypedMap.go
+++ b/v0/pkg/raml/UntypedMap.go
@@ -196,7 +196,7 @@ func (i *implUntypedMap) Get(k string) (value interface{}, exists bool) {
 }
 
 func (i *implUntypedMap) GetOpt(k string) option.Untyped {
-	if v, ok := i.index[k]; ok {
+	if v, ok := i.index[k]; ok && !gomp.IsNil(v) {
 		return option.NewUntyped(v)
 	}
 
-- 
2.43.0


From 97d3aa9dc7214fd9178a3de3a47d21721077b91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:49 +0000
Subject: [PATCH 16/18] fix: read the default facet of types

---
 v0/gen/type-m/extended.tpl                   | 18 ++++++++++++++++++
 v0/internal/raml/x-gen-type-any.go           |  4 ++++
 v0/internal/raml/x-gen-type-array.go         | 10 ++++++++++
 v0/internal/raml/x-gen-type-bool.go          |  2 ++
 v0/internal/raml/x-gen-type-custom.go        |  4 ++++
 v0/internal/raml/x-gen-type-date-only.go     |  2 ++
 v0/internal/raml/x-gen-type-datetime-only.go |  2 ++
 v0/internal/raml/x-gen-type-datetime.go      |  2 ++
 v0/internal/raml/x-gen-type-file.go          |  4 ++++
 v0/internal/raml/x-gen-type-integer.go       |  2 ++
 v0/internal/raml/x-gen-type-number.go        |  2 ++
 v0/internal/raml/x-gen-type-object.go        |  4 ++++
 v0/internal/raml/x-gen-type-string.go        |  2 ++
 v0/internal/raml/x-gen-type-time-only.go     |  2 ++
 v0/internal/raml/x-gen-type-union.go         |  4 ++++
 15 files changed, 64 insertions(+)

diff --git a/v0/gen/type-m/extended.tpl b/v0/gen/type-m/extended.tpl
index 8376e95..d7e3d7e 100644
--- a/v0/gen/type-m/extended.tpl
+++ b/v0/gen/type-m/extended.tpl
@@ -267,6 +267,24 @@ func (o *{{.Name}}Type) marshal(out raml.AnyMap) error {
 
 func (o *{{.Name}}Type) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		{{if eq .DefTypeName "Bool" "Float64" "Int64" "String" -}}
+		return assign.As{{.DefTypeName}}Ptr(val, &o.def)
+		{{- else if eq .Name "Array" -}}
+		def := make([]interface{}, 0, len(val.Content))
+		if err := xyml.SequenceForEach(val, func(cur *yaml.Node) error {
+			def = append(def, cur)
+			return nil
+		}); err != nil {
+			return err
+		}
+		o.def = def
+		return nil
+		{{- else -}}
+		var def interface{} = val
+		o.def = &def
+		return nil
+		{{- end}}
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-type-any.go b/v0/internal/raml/x-gen-type-any.go
index 9c06d25..8d33f8d 100644
--- a/v0/internal/raml/x-gen-type-any.go
+++ b/v0/internal/raml/x-gen-type-any.go
@@ -201,6 +201,10 @@ func (o *AnyType) marshal(out raml.AnyMap) error {
 
 func (o *AnyType) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		var def interface{} = val
+		o.def = &def
+		return nil
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-type-array.go b/v0/internal/raml/x-gen-type-array.go
index aa686dc..eb8f287 100644
--- a/v0/internal/raml/x-gen-type-array.go
+++ b/v0/internal/raml/x-gen-type-array.go
@@ -263,6 +263,16 @@ func (o *ArrayType) marshal(out raml.AnyMap) error {
 
 func (o *ArrayType) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		def := make([]interface{}, 0, len(val.Content))
+		if err := xyml.SequenceForEach(val, func(cur *yaml.Node) error {
+			def = append(def, cur)
+			return nil
+		}); err != nil {
+			return err
+		}
+		o.def = def
+		return nil
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-type-bool.go b/v0/internal/raml/x-gen-type-bool.go
index 01c67cb..d0bd813 100644
--- a/v0/internal/raml/x-gen-type-bool.go
+++ b/v0/internal/raml/x-gen-type-bool.go
@@ -201,6 +201,8 @@ func (o *BoolType) marshal(out raml.AnyMap) error {
 
 func (o *BoolType) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		return assign.AsBoolPtr(val, &o.def)
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-type-custom.go b/v0/internal/raml/x-gen-type-custom.go
index d37a22c..fe1510a 100644
--- a/v0/internal/raml/x-gen-type-custom.go
+++ b/v0/internal/raml/x-gen-type-custom.go
@@ -201,6 +201,10 @@ func (o *CustomType) marshal(out raml.AnyMap) error {
 
 func (o *CustomType) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		var def interface{} = val
+		o.def = &def
+		return nil
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-type-date-only.go b/v0/internal/raml/x-gen-type-date-only.go
index 2e16e06..7447535 100644
--- a/v0/internal/raml/x-gen-type-date-only.go
+++ b/v0/internal/raml/x-gen-type-date-only.go
@@ -201,6 +201,8 @@ func (o *DateOnlyType) marshal(out raml.AnyMap) error {
 
 func (o *DateOnlyType) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		return assign.AsStringPtr(val, &o.def)
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-type-datetime-only.go b/v0/internal/raml/x-gen-type-datetime-only.go
index 6acefcc..8dbb993 100644
--- a/v0/internal/raml/x-gen-type-datetime-only.go
+++ b/v0/internal/raml/x-gen-type-datetime-only.go
@@ -201,6 +201,8 @@ func (o *DatetimeOnlyType) marshal(out raml.AnyMap) error {
 
 func (o *DatetimeOnlyType) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		return assign.AsStringPtr(val, &o.def)
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-type-datetime.go b/v0/internal/raml/x-gen-type-datetime.go
index 7b5eb42..e39031f 100644
--- a/v0/internal/raml/x-gen-type-datetime.go
+++ b/v0/internal/raml/x-gen-type-datetime.go
@@ -216,6 +216,8 @@ func (o *DatetimeType) marshal(out raml.AnyMap) error {
 
 func (o *DatetimeType) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		return assign.AsStringPtr(val, &o.def)
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-type-file.go b/v0/internal/raml/x-gen-type-file.go
index b509697..79a3bea 100644
--- a/v0/internal/raml/x-gen-type-file.go
+++ b/v0/internal/raml/x-gen-type-file.go
@@ -247,6 +247,10 @@ func (o *FileType) marshal(out raml.AnyMap) error {
 
 func (o *FileType) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		var def interface{} = val
+		o.def = &def
+		return nil
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-type-integer.go b/v0/internal/raml/x-gen-type-integer.go
index 5eca6bd..067a548 100644
--- a/v0/internal/raml/x-gen-type-integer.go
+++ b/v0/internal/raml/x-gen-type-integer.go
@@ -264,6 +264,8 @@ func (o *IntegerType) marshal(out raml.AnyMap) error {
 
 func (o *IntegerType) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		return assign.AsInt64Ptr(val, &o.def)
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-type-number.go b/v0/internal/raml/x-gen-type-number.go
index 5d12ebe..79bc389 100644
--- a/v0/internal/raml/x-gen-type-number.go
+++ b/v0/internal/raml/x-gen-type-number.go
@@ -264,6 +264,8 @@ func (o *NumberType) marshal(out raml.AnyMap) error {
 
 func (o *NumberType) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		return assign.AsFloat64Ptr(val, &o.def)
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-type-object.go b/v0/internal/raml/x-gen-type-object.go
index 203b5ce..09277db 100644
--- a/v0/internal/raml/x-gen-type-object.go
+++ b/v0/internal/raml/x-gen-type-object.go
@@ -304,6 +304,10 @@ func (o *ObjectType) marshal(out raml.AnyMap) error {
 
 func (o *ObjectType) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		var def interface{} = val
+		o.def = &def
+		return nil
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-type-string.go b/v0/internal/raml/x-gen-type-string.go
index 6611bb6..c0c0866 100644
--- a/v0/internal/raml/x-gen-type-string.go
+++ b/v0/internal/raml/x-gen-type-string.go
@@ -247,6 +247,8 @@ func (o *StringType) marshal(out raml.AnyMap) error {
 
 func (o *StringType) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		return assign.AsStringPtr(val, &o.def)
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-type-time-only.go b/v0/internal/raml/x-gen-type-time-only.go
index 83e337c..188c978 100644
--- a/v0/internal/raml/x-gen-type-time-only.go
+++ b/v0/internal/raml/x-gen-type-time-only.go
@@ -201,6 +201,8 @@ func (o *TimeOnlyType) marshal(out raml.AnyMap) error {
 
 func (o *TimeOnlyType) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		return assign.AsStringPtr(val, &o.def)
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-type-union.go b/v0/internal/raml/x-gen-type-union.go
index 7b0527c..bfd4195 100644
--- a/v0/internal/raml/x-gen-type-union.go
+++ b/v0/internal/raml/x-gen-type-union.go
@@ -201,6 +201,10 @@ func (o *UnionType) marshal(out raml.AnyMap) error {
 
 func (o *UnionType) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		var def interface{} = val
+		o.def = &def
+		return nil
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
-- 
2.43.0


From caf319ceb77a975bf56d3ed27a8d2855a1b60b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:50 +0000
Subject: [PATCH 17/18] fix: accept unquoted dates as values of date types

---
 v0/gen/example-m.tpl                         |  6 ++++-
 v0/gen/type-m/extended.tpl                   |  6 ++++-
 v0/internal/raml/x-gen-ex-dateonly.go        |  3 +--
 v0/internal/raml/x-gen-ex-datetime.go        |  3 +--
 v0/internal/raml/x-gen-ex-datetimeonly.go    |  3 +--
 v0/internal/raml/x-gen-ex-timeonly.go        |  3 +--
 v0/internal/raml/x-gen-type-date-only.go     |  4 +--
 v0/internal/raml/x-gen-type-datetime-only.go |  4 +--
 v0/internal/raml/x-gen-type-datetime.go      |  4 +--
 v0/internal/raml/x-gen-type-time-only.go     |  4 +--
 v0/internal/util/assign/date.go              | 28 ++++++++++++++++++++
 11 files changed, 50 insertions(+), 18 deletions(-)
 create mode 100644 v0/internal/util/assign/date.go

diff --git a/v0/gen/example-m.tpl b/v0/gen/example-m.tpl
index bc4c0d8..eb03522 100644
--- a/v0/gen/example-m.tpl
+++ b/v0/gen/example-m.tpl
@@ -199,7 +199,11 @@ func (e *{{.Name}}Example) expand() bool {
 }
 
 func (e *{{.Name}}Example) assignVal(val *yaml.Node) error {
-	{{if eq .Type "string" -}}
+	{{if eq .Name "DateOnly" "DatetimeOnly" "Datetime" "TimeOnly" -}}
+	if err := assign.AsDateTextPtr(val, &e.value); err != nil {
+		return err
+	}
+	{{- else if eq .Type "string" -}}
 	if err := xyml.RequireString(val); err != nil {
 		return err
 	}
diff --git a/v0/gen/type-m/extended.tpl b/v0/gen/type-m/extended.tpl
index d7e3d7e..9a74217 100644
--- a/v0/gen/type-m/extended.tpl
+++ b/v0/gen/type-m/extended.tpl
@@ -268,7 +268,9 @@ func (o *{{.Name}}Type) marshal(out raml.AnyMap) error {
 func (o *{{.Name}}Type) assign(key, val *yaml.Node) error {
 	switch key.Value {
 	case rmeta.KeyDefault:
-		{{if eq .DefTypeName "Bool" "Float64" "Int64" "String" -}}
+		{{if eq .Name "DateOnly" "DatetimeOnly" "Datetime" "TimeOnly" -}}
+		return assign.AsDateTextPtr(val, &o.def)
+		{{- else if eq .DefTypeName "Bool" "Float64" "Int64" "String" -}}
 		return assign.As{{.DefTypeName}}Ptr(val, &o.def)
 		{{- else if eq .Name "Array" -}}
 		def := make([]interface{}, 0, len(val.Content))
@@ -306,6 +308,8 @@ func (o *{{.Name}}Type) assign(key, val *yaml.Node) error {
 				if val, err := xyml.ToInt(cur, 10); err != nil {
 			{{else if eq .DefTypeName "Float64" -}}
 				if val, err := assign.ToFloat64(cur); err != nil {
+			{{else if eq .Name "DateOnly" "DatetimeOnly" "Datetime" "TimeOnly" -}}
+				if val, err := assign.ToDateText(cur); err != nil {
 			{{- else -}}
 				if val, err := xyml.To{{.DefTypeName}}(cur); err != nil {
 			{{end}}
diff --git a/v0/internal/raml/x-gen-ex-dateonly.go b/v0/internal/raml/x-gen-ex-dateonly.go
index fec9834..1885c69 100644
--- a/v0/internal/raml/x-gen-ex-dateonly.go
+++ b/v0/internal/raml/x-gen-ex-dateonly.go
@@ -193,10 +193,9 @@ func (e *DateOnlyExample) expand() bool {
 }
 
 func (e *DateOnlyExample) assignVal(val *yaml.Node) error {
-	if err := xyml.RequireString(val); err != nil {
+	if err := assign.AsDateTextPtr(val, &e.value); err != nil {
 		return err
 	}
-	e.value = &val.Value
 
 	return nil
 }
diff --git a/v0/internal/raml/x-gen-ex-datetime.go b/v0/internal/raml/x-gen-ex-datetime.go
index 8e22f19..78ff490 100644
--- a/v0/internal/raml/x-gen-ex-datetime.go
+++ b/v0/internal/raml/x-gen-ex-datetime.go
@@ -193,10 +193,9 @@ func (e *DatetimeExample) expand() bool {
 }
 
 func (e *DatetimeExample) assignVal(val *yaml.Node) error {
-	if err := xyml.RequireString(val); err != nil {
+	if err := assign.AsDateTextPtr(val, &e.value); err != nil {
 		return err
 	}
-	e.value = &val.Value
 
 	return nil
 }
diff --git a/v0/internal/raml/x-gen-ex-datetimeonly.go b/v0/internal/raml/x-gen-ex-datetimeonly.go
index 03eebf5..6e10499 100644
--- a/v0/internal/raml/x-gen-ex-datetimeonly.go
+++ b/v0/internal/raml/x-gen-ex-datetimeonly.go
@@ -193,10 +193,9 @@ func (e *DatetimeOnlyExample) expand() bool {
 }
 
 func (e *DatetimeOnlyExample) assignVal(val *yaml.Node) error {
-	if err := xyml.RequireString(val); err != nil {
+	if err := assign.AsDateTextPtr(val, &e.value); err != nil {
 		return err
 	}
-	e.value = &val.Value
 
 	return nil
 }
diff --git a/v0/internal/raml/x-gen-ex-timeonly.go b/v0/internal/raml/x-gen-ex-timeonly.go
index 9cbca75..3ab9f13 100644
--- a/v0/internal/raml/x-gen-ex-timeonly.go
+++ b/v0/internal/raml/x-gen-ex-timeonly.go
@@ -193,10 +193,9 @@ func (e *TimeOnlyExample) expand() bool {
 }
 
 func (e *TimeOnlyExample) assignVal(val *yaml.Node) error {
-	if err := xyml.RequireString(val); err != nil {
+	if err := assign.AsDateTextPtr(val, &e.value); err != nil {
 		return err
 	}
-	e.value = &val.Value
 
 	return nil
 }
diff --git a/v0/internal/raml/x-gen-type-date-only.go b/v0/internal/raml/x-gen-type-date-only.go
index 7447535..76727e8 100644
--- a/v0/internal/raml/x-gen-type-date-only.go
+++ b/v0/internal/raml/x-gen-type-date-only.go
@@ -202,7 +202,7 @@ func (o *DateOnlyType) marshal(out raml.AnyMap) error {
 func (o *DateOnlyType) assign(key, val *yaml.Node) error {
 	switch key.Value {
 	case rmeta.KeyDefault:
-		return assign.AsStringPtr(val, &o.def)
+		return assign.AsDateTextPtr(val, &o.def)
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
@@ -217,7 +217,7 @@ func (o *DateOnlyType) assign(key, val *yaml.Node) error {
 		return UnmarshalDateOnlyExampleMapRAML(o.examples, val)
 	case rmeta.KeyEnum:
 		return xyml.SequenceForEach(val, func(cur *yaml.Node) error {
-			if val, err := xyml.ToString(cur); err != nil {
+			if val, err := assign.ToDateText(cur); err != nil {
 
 				return err
 			} else {
diff --git a/v0/internal/raml/x-gen-type-datetime-only.go b/v0/internal/raml/x-gen-type-datetime-only.go
index 8dbb993..85c9a95 100644
--- a/v0/internal/raml/x-gen-type-datetime-only.go
+++ b/v0/internal/raml/x-gen-type-datetime-only.go
@@ -202,7 +202,7 @@ func (o *DatetimeOnlyType) marshal(out raml.AnyMap) error {
 func (o *DatetimeOnlyType) assign(key, val *yaml.Node) error {
 	switch key.Value {
 	case rmeta.KeyDefault:
-		return assign.AsStringPtr(val, &o.def)
+		return assign.AsDateTextPtr(val, &o.def)
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
@@ -217,7 +217,7 @@ func (o *DatetimeOnlyType) assign(key, val *yaml.Node) error {
 		return UnmarshalDatetimeOnlyExampleMapRAML(o.examples, val)
 	case rmeta.KeyEnum:
 		return xyml.SequenceForEach(val, func(cur *yaml.Node) error {
-			if val, err := xyml.ToString(cur); err != nil {
+			if val, err := assign.ToDateText(cur); err != nil {
 
 				return err
 			} else {
diff --git a/v0/internal/raml/x-gen-type-datetime.go b/v0/internal/raml/x-gen-type-datetime.go
index e39031f..bc7b199 100644
--- a/v0/internal/raml/x-gen-type-datetime.go
+++ b/v0/internal/raml/x-gen-type-datetime.go
@@ -217,7 +217,7 @@ func (o *DatetimeType) marshal(out raml.AnyMap) error {
 func (o *DatetimeType) assign(key, val *yaml.Node) error {
 	switch key.Value {
 	case rmeta.KeyDefault:
-		return assign.AsStringPtr(val, &o.def)
+		return assign.AsDateTextPtr(val, &o.def)
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
@@ -232,7 +232,7 @@ func (o *DatetimeType) assign(key, val *yaml.Node) error {
 		return UnmarshalDatetimeExampleMapRAML(o.examples, val)
 	case rmeta.KeyEnum:
 		return xyml.SequenceForEach(val, func(cur *yaml.Node) error {
-			if val, err := xyml.ToString(cur); err != nil {
+			if val, err := assign.ToDateText(cur); err != nil {
 
 				return err
 			} else {
diff --git a/v0/internal/raml/x-gen-type-time-only.go b/v0/internal/raml/x-gen-type-time-only.go
index 188c978..0f84b25 100644
--- a/v0/internal/raml/x-gen-type-time-only.go
+++ b/v0/internal/raml/x-gen-type-time-only.go
@@ -202,7 +202,7 @@ func (o *TimeOnlyType) marshal(out raml.AnyMap) error {
 func (o *TimeOnlyType) assign(key, val *yaml.Node) error {
 	switch key.Value {
 	case rmeta.KeyDefault:
-		return assign.AsStringPtr(val, &o.def)
+		return assign.AsDateTextPtr(val, &o.def)
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
@@ -217,7 +217,7 @@ func (o *TimeOnlyType) assign(key, val *yaml.Node) error {
 		return UnmarshalTimeOnlyExampleMapRAML(o.examples, val)
 	case rmeta.KeyEnum:
 		return xyml.SequenceForEach(val, func(cur *yaml.Node) error {
-			if val, err := xyml.ToString(cur); err != nil {
+			if val, err := assign.ToDateText(cur); err != nil {
 
 				return err
 			} else {
diff --git a/v0/internal/util/assign/date.go b/v0/internal/util/assign/date.go
new file mode 100644
index 0000000..0871cc6
--- /dev/null
+++ b/v0/internal/util/assign/date.go
@@ -0,0 +1,28 @@
+package assign
+
+import (
+	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
+	"gopkg.in/yaml.v3"
+)
+
+// ToDateText reads the given node as the text of a date or time.  YAML readers
+// recognise unquoted dates as timestamps, so these are accepted as well as
+// strings.
+func ToDateText(v *yaml.Node) (string, error) {
+	if xyml.IsTimestamp(v) {
+		return v.Value, nil
+	}
+
+	return xyml.ToString(v)
+}
+
+// Helper function for date and time values in assign functions
+func AsDateTextPtr(v *yaml.Node, ptr **string) error {
+	if val, err := ToDateText(v); err != nil {
+		return err
+	} else {
+		*ptr = &val
+	}
+
+	return nil
+}
-- 
2.43.0


From 7e775d9237eb2a12b84b5445ee392397fde23a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:13 +0000
Subject: [PATCH 18/18] fix: write a type declaration as RAML text instead of
 panicking

---
 v0/internal/raml/DataType.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/v0/internal/raml/DataType.go b/v0/internal/raml/DataType.go
index 2f9865b..da32135 100644
--- a/v0/internal/raml/DataType.go
+++ b/v0/internal/raml/DataType.go
@@ -51,7 +51,11 @@ func (d *DataType) Required() bool {
 }
 
 func (d *DataType) ToRAML() (string, error) {
-	panic("implement me")
+	out, err := yaml.Marshal(d)
+	if err != nil {
+		return "", err
+	}
+	return string(out), nil
 }
 
 func (d DataType) ToYAML() (*yaml.Node, error) {
-- 
2.43.0

