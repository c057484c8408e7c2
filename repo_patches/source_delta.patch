From ddb4034f6c4cd6538004942ed851e2b04671aafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:33 +0000
Subject: [PATCH 01/45] fix: integer type must accept all integer kinds and
 reject non-integral floats

---
 scalars.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/scalars.go b/scalars.go
index 2d39039..898f5d0 100644
--- a/scalars.go
+++ b/scalars.go
@@ -2,6 +2,7 @@ package raml
 
 import (
 	"fmt"
+	"math"
 	"math/big"
 	"regexp"
 	"time"
@@ -113,13 +114,21 @@ func (s *IntegerShape) validate(v interface{}, _ string) error {
 	switch v := v.(type) {
 	case int:
 		val.SetInt64(int64(v))
+	case int64:
+		val.SetInt64(v)
 	case uint:
 		val.SetUint64(uint64(v))
+	// go-yaml unmarshals integers that do not fit int as uint64
+	case uint64:
+		val.SetUint64(v)
 	// json unmarshals numbers as float64
 	case float64:
-		val.SetInt64(int64(v))
+		if math.IsInf(v, 0) || v != math.Trunc(v) {
+			return fmt.Errorf("invalid value, got %v, expected integer", v)
+		}
+		big.NewFloat(v).Int(&val)
 	default:
-		return fmt.Errorf("invalid type, got %T, expected int, uint or float64", v)
+		return fmt.Errorf("invalid type, got %T, expected int, int64, uint, uint64 or float64", v)
 	}
 
 	if s.Minimum != nil && val.Cmp(s.Minimum) < 0 {
-- 
2.43.0


From 0b9ab27e0da409230373113e3eeb9f2e6539789e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:53 +0000
Subject: [PATCH 02/45] fix: compare numeric enum values by value and accept
 all integer kinds in number type

---
 scalars.go | 65 ++++++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 51 insertions(+), 14 deletions(-)

diff --git a/scalars.go b/scalars.go
index 898f5d0..b6051e7 100644
--- a/scalars.go
+++ b/scalars.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"math"
 	"math/big"
+	"reflect"
 	"regexp"
 	"time"
 
@@ -37,12 +38,51 @@ func (r *RAML) MakeEnum(v *yaml.Node, location string) (Nodes, error) {
 	return enums, nil
 }
 
+// normalizeNumber converts a number to a canonical representation, so that numbers that are equal by value
+// are equal as interfaces. Returns false if the value is not a number.
+func normalizeNumber(v any) (any, bool) {
+	switch v := v.(type) {
+	case int:
+		return int64(v), true
+	case int64:
+		return v, true
+	case uint:
+		return normalizeNumber(uint64(v))
+	case uint64:
+		if v <= math.MaxInt64 {
+			return int64(v), true
+		}
+		return v, true
+	case float64:
+		if v == math.Trunc(v) {
+			if v >= math.MinInt64 && v < math.MaxInt64 {
+				return int64(v), true
+			}
+			if v > 0 && v < math.MaxUint64 {
+				return uint64(v), true
+			}
+		}
+		return v, true
+	}
+	return nil, false
+}
+
+// isEqualEnumValue compares enum values. Numbers are compared by value, regardless of their Go type.
+func isEqualEnumValue(a, b any) bool {
+	an, aok := normalizeNumber(a)
+	bn, bok := normalizeNumber(b)
+	if aok && bok {
+		return an == bn
+	}
+	return reflect.DeepEqual(a, b)
+}
+
 func isCompatibleEnum(source Nodes, target Nodes) bool {
 	// Target enum must be a subset of source enum
 	for _, v := range target {
 		found := false
 		for _, e := range source {
-			if v.Value == e.Value {
+			if isEqualEnumValue(v.Value, e.Value) {
 				found = true
 				break
 			}
@@ -140,16 +180,9 @@ func (s *IntegerShape) validate(v interface{}, _ string) error {
 	// TODO: Implement multipleOf validation
 	// TODO: Implement format validation
 	if s.Enum != nil {
-		// TODO: Probably enum values should be stored as big.Int to simplify validation
-		var num any
-		if val.IsInt64() {
-			num = int(val.Int64())
-		} else if val.IsUint64() {
-			num = uint(val.Uint64())
-		}
 		found := false
 		for _, e := range s.Enum {
-			if e.Value == num {
+			if isEqualEnumValue(e.Value, v) {
 				found = true
 				break
 			}
@@ -218,7 +251,7 @@ func (s *IntegerShape) check() error {
 	if s.Enum != nil {
 		for _, e := range s.Enum {
 			switch e.Value.(type) {
-			case int, uint:
+			case int, int64, uint, uint64:
 			default:
 				return StacktraceNew("enum value must be int or uint", s.Location,
 					stacktrace.WithPosition(&e.Position))
@@ -345,15 +378,19 @@ func (s *NumberShape) alias(source Shape) (Shape, error) {
 func (s *NumberShape) validate(v interface{}, _ string) error {
 	var val float64
 	switch v := v.(type) {
-	// go-yaml unmarshals integers as int
+	// go-yaml unmarshals integers as int, or as uint64 if they do not fit int
 	case int:
 		val = float64(v)
+	case int64:
+		val = float64(v)
 	case uint:
 		val = float64(v)
+	case uint64:
+		val = float64(v)
 	case float64:
 		val = v
 	default:
-		return fmt.Errorf("invalid type, got %T, expected int, uint, float64", v)
+		return fmt.Errorf("invalid type, got %T, expected int, int64, uint, uint64 or float64", v)
 	}
 
 	if s.Minimum != nil && val < *s.Minimum {
@@ -367,7 +404,7 @@ func (s *NumberShape) validate(v interface{}, _ string) error {
 	if s.Enum != nil {
 		found := false
 		for _, e := range s.Enum {
-			if e.Value == val {
+			if isEqualEnumValue(e.Value, v) {
 				found = true
 				break
 			}
@@ -436,7 +473,7 @@ func (s *NumberShape) check() error {
 	if s.Enum != nil {
 		for _, e := range s.Enum {
 			switch e.Value.(type) {
-			case int, uint, float64:
+			case int, int64, uint, uint64, float64:
 			default:
 				return StacktraceNew("enum value must be int, uint, float64", s.Location,
 					stacktrace.WithPosition(&e.Position))
-- 
2.43.0


From c3acdad47f7cb75e5e392395854c70f7c09b7077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:59 +0000
Subject: [PATCH 03/45] fix: minLength and maxLength of a string count
 characters

---
 scalars.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scalars.go b/scalars.go
index b6051e7..97b388b 100644
--- a/scalars.go
+++ b/scalars.go
@@ -7,6 +7,7 @@ import (
 	"reflect"
 	"regexp"
 	"time"
+	"unicode/utf8"
 
 	"gopkg.in/yaml.v3"
 
@@ -581,7 +582,8 @@ func (s *StringShape) validate(v interface{}, _ string) error {
 		return fmt.Errorf("invalid type, got %T, expected string", v)
 	}
 
-	strLen := uint64(len(i))
+	// String length is defined in characters, not in bytes.
+	strLen := uint64(utf8.RuneCountInString(i))
 	if s.MinLength != nil && strLen < *s.MinLength {
 		return fmt.Errorf("length must be greater than %d", *s.MinLength)
 	}
-- 
2.43.0


From 0b918683dfd0c3c53c8aa2d52a63fe9bcc9e4878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:44 +0000
Subject: [PATCH 04/45] fix: alias of a boolean type keeps the enum

---
 scalars.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scalars.go b/scalars.go
index 97b388b..000b03f 100644
--- a/scalars.go
+++ b/scalars.go
@@ -884,13 +884,14 @@ func (s *BooleanShape) clone(base *BaseShape, _ map[int64]*BaseShape) Shape {
 }
 
 func (s *BooleanShape) alias(source Shape) (Shape, error) {
-	_, ok := source.(*BooleanShape)
+	ss, ok := source.(*BooleanShape)
 	if !ok {
 		return nil, StacktraceNew("cannot make alias from different type", s.Location,
 			stacktrace.WithPosition(&s.Position),
 			stacktrace.WithInfo("source", source.Base().Type),
 			stacktrace.WithInfo("target", s.Base().Type))
 	}
+	s.Enum = ss.Enum
 	return s, nil
 }
 
-- 
2.43.0


From 527cfaed1937f0c959384d7d7f9947b25bf66075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:48 +0000
Subject: [PATCH 05/45] fix: number type keeps its own multipleOf when
 inheriting

---
 scalars.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scalars.go b/scalars.go
index 000b03f..4329768 100644
--- a/scalars.go
+++ b/scalars.go
@@ -443,7 +443,7 @@ func (s *NumberShape) inherit(source Shape) (Shape, error) {
 			stacktrace.WithInfo("target", *s.Maximum))
 	}
 	// TODO: multipleOf validation
-	if ss.MultipleOf != nil {
+	if s.MultipleOf == nil {
 		// TODO: Disallow multipleOf 0 to avoid division by zero during validation
 		s.MultipleOf = ss.MultipleOf
 	}
-- 
2.43.0


From 93b96e516fd693d29787278aa41329aa4606c92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:48 +0000
Subject: [PATCH 06/45] fix: inheriting from any, a union or with an error must
 not block further inheritance from the same type

---
 shape.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shape.go b/shape.go
index 09e7252..9671351 100644
--- a/shape.go
+++ b/shape.go
@@ -131,9 +131,10 @@ func (s *BaseShape) Inherit(sourceBase *BaseShape) (*BaseShape, error) {
 	// Avoid recursion caused by inheritance chain
 	if sourceBase.ShapeVisited {
 		// NOTE: We do not mark any recursions here. External code must handle this case.
-		return sourceBase, nil
+		return s, nil
 	}
 	sourceBase.ShapeVisited = true
+	defer func() { sourceBase.ShapeVisited = false }()
 
 	source := sourceBase.Shape
 	target := s.Shape
@@ -175,7 +176,6 @@ func (s *BaseShape) Inherit(sourceBase *BaseShape) (*BaseShape, error) {
 		return nil, StacktraceNewWrapped("merge shapes", err, target.Base().Location,
 			stacktrace.WithPosition(&target.Base().Position))
 	}
-	sourceBase.ShapeVisited = false
 	return s, nil
 }
 
-- 
2.43.0


From 5f1a940f5f5bd016427d88ad1c5ce7fcff2a8958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:30 +0000
Subject: [PATCH 07/45] fix: inheritance must not change parents and types of
 overriding properties and items

---
 complex.go | 11 ++++++++---
 shape.go   | 30 ++++++++++++++++++++++++++++++
 unwrap.go  |  8 ++++++--
 3 files changed, 44 insertions(+), 5 deletions(-)

diff --git a/complex.go b/complex.go
index d1537b8..ced70a2 100644
--- a/complex.go
+++ b/complex.go
@@ -130,11 +130,12 @@ func (s *ArrayShape) inherit(source Shape) (Shape, error) {
 	if s.Items == nil {
 		s.Items = ss.Items
 	} else if ss.Items != nil {
-		_, err := s.Items.Inherit(ss.Items)
+		is, err := s.Items.copyForInheritance().Inherit(ss.Items)
 		if err != nil {
 			return nil, StacktraceNewWrapped("merge array items", err, s.Location,
 				stacktrace.WithPosition(&s.Items.Position))
 		}
+		s.Items = is
 	}
 	if s.MinItems == nil {
 		s.MinItems = ss.MinItems
@@ -552,13 +553,15 @@ func (s *ObjectShape) inheritProperties(source *ObjectShape) error {
 					stacktrace.WithInfo("target", targetProp.Required),
 					stacktrace.WithType(StacktraceTypeUnwrapping))
 			}
-			_, err := targetProp.Base.Inherit(sourceProp.Base)
+			is, err := targetProp.Base.copyForInheritance().Inherit(sourceProp.Base)
 			if err != nil {
 				return StacktraceNewWrapped("inherit property", err, s.Location,
 					stacktrace.WithPosition(&targetProp.Base.Position),
 					stacktrace.WithInfo("property", k),
 					stacktrace.WithType(StacktraceTypeUnwrapping))
 			}
+			targetProp.Base = is
+			s.Properties.Set(k, targetProp)
 		} else {
 			s.Properties.Set(k, sourceProp)
 		}
@@ -575,13 +578,15 @@ func (s *ObjectShape) inheritPatternProperties(source *ObjectShape) error {
 		for pair := source.PatternProperties.Oldest(); pair != nil; pair = pair.Next() {
 			k, sourceProp := pair.Key, pair.Value
 			if targetProp, present := s.PatternProperties.Get(k); present {
-				_, err := targetProp.Base.Inherit(sourceProp.Base)
+				is, err := targetProp.Base.copyForInheritance().Inherit(sourceProp.Base)
 				if err != nil {
 					return StacktraceNewWrapped("inherit pattern property", err, s.Location,
 						stacktrace.WithPosition(&targetProp.Base.Position),
 						stacktrace.WithInfo("property", k),
 						stacktrace.WithType(StacktraceTypeUnwrapping))
 				}
+				targetProp.Base = is
+				s.PatternProperties.Set(k, targetProp)
 			} else {
 				s.PatternProperties.Set(k, sourceProp)
 			}
diff --git a/shape.go b/shape.go
index 9671351..5af3c2e 100644
--- a/shape.go
+++ b/shape.go
@@ -308,6 +308,36 @@ func (s *BaseShape) CloneShallow() *BaseShape {
 	return ptr
 }
 
+// copyForInheritance copies the shape to let it inherit from another shape in-place without affecting the types
+// that share their facets with it (for example, the type it is an alias of).
+func (s *BaseShape) copyForInheritance() *BaseShape {
+	c := s.CloneShallow()
+	c.ShapeVisited = false
+	if s.raml != nil {
+		c.ID = s.raml.generateShapeID()
+	}
+	switch t := c.Shape.(type) {
+	case *ObjectShape:
+		if t.Properties != nil {
+			props := orderedmap.New[string, Property](t.Properties.Len())
+			for pair := t.Properties.Oldest(); pair != nil; pair = pair.Next() {
+				props.Set(pair.Key, pair.Value)
+			}
+			t.Properties = props
+		}
+		if t.PatternProperties != nil {
+			props := orderedmap.New[string, PatternProperty](t.PatternProperties.Len())
+			for pair := t.PatternProperties.Oldest(); pair != nil; pair = pair.Next() {
+				props.Set(pair.Key, pair.Value)
+			}
+			t.PatternProperties = props
+		}
+	case *UnionShape:
+		t.AnyOf = append([]*BaseShape(nil), t.AnyOf...)
+	}
+	return c
+}
+
 // Clone creates a deep copy of the shape.
 //
 // Use this method to make a deep copy of the shape while preserving the relationships between shapes.
diff --git a/unwrap.go b/unwrap.go
index 13c6410..267167b 100644
--- a/unwrap.go
+++ b/unwrap.go
@@ -356,17 +356,21 @@ func (r *RAML) unwrapParents(base *BaseShape) (*BaseShape, error) {
 				stacktrace.WithPosition(&base.Position), stacktrace.WithType(StacktraceTypeUnwrapping))
 		}
 		inherits[0] = ss
+		if len(inherits) > 1 {
+			// Parents are merged into a copy to leave the first parent intact.
+			ss = ss.copyForInheritance()
+		}
 		for i := 1; i < len(inherits); i++ {
 			us, errUnwrap := r.UnwrapShape(inherits[i])
 			if errUnwrap != nil {
 				return nil, errUnwrap
 			}
-			us, errUnwrap = ss.Inherit(us)
+			inherits[i] = us
+			ss, errUnwrap = ss.Inherit(us)
 			if errUnwrap != nil {
 				return nil, StacktraceNewWrapped("multiple parents unwrap", errUnwrap, base.Location,
 					stacktrace.WithPosition(&base.Position), stacktrace.WithType(StacktraceTypeUnwrapping))
 			}
-			inherits[i] = us
 		}
 		source = ss
 	}
-- 
2.43.0


From 7170da519a4c713dd3676175dd879af210fc8bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:31 +0000
Subject: [PATCH 08/45] fix: members of an overriding union must be compatible
 with the overridden type

---
 shape.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/shape.go b/shape.go
index 5af3c2e..17f0e7e 100644
--- a/shape.go
+++ b/shape.go
@@ -168,7 +168,9 @@ func (s *BaseShape) Inherit(sourceBase *BaseShape) (*BaseShape, error) {
 		return s.inheritUnionSource(sourceUnion)
 
 	case isTargetUnion && !isSourceUnion:
-		return s.inheritUnionTarget(targetUnion)
+		// Each of the union members inherits from the same source.
+		sourceBase.ShapeVisited = false
+		return sourceBase.inheritUnionTarget(targetUnion)
 	}
 	// Homogenous types produce same type
 	_, err := target.inherit(source)
@@ -243,9 +245,9 @@ func (s *BaseShape) inheritUnionTarget(targetUnion *UnionShape) (*BaseShape, err
 		return nil, err
 	}
 	var st *stacktrace.StackTrace
-	for _, item := range targetUnion.AnyOf {
+	for i, item := range targetUnion.AnyOf {
 		// Merge will raise an error in case any of union members has incompatible type
-		_, err := item.Inherit(s)
+		is, err := item.copyForInheritance().Inherit(s)
 		if err != nil {
 			se := StacktraceNewWrapped("merge shapes", err, targetUnion.Base().Location,
 				stacktrace.WithPosition(&targetUnion.Base().Position))
@@ -256,6 +258,7 @@ func (s *BaseShape) inheritUnionTarget(targetUnion *UnionShape) (*BaseShape, err
 			}
 			continue
 		}
+		targetUnion.AnyOf[i] = is
 	}
 	if st != nil {
 		return nil, st
-- 
2.43.0


From fd507dd889f5718a1713b2e014237894634e8f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:17 +0000
Subject: [PATCH 09/45] fix: a clone of a recursive shape refers to the cloned
 head

---
 complex.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/complex.go b/complex.go
index ced70a2..ab82572 100644
--- a/complex.go
+++ b/complex.go
@@ -1059,9 +1059,12 @@ func (s *RecursiveShape) cloneShallow(base *BaseShape) Shape {
 	return &c
 }
 
-func (s *RecursiveShape) clone(base *BaseShape, _ map[int64]*BaseShape) Shape {
+func (s *RecursiveShape) clone(base *BaseShape, clonedMap map[int64]*BaseShape) Shape {
 	c := *s
 	c.BaseShape = base
+	if c.Head != nil {
+		c.Head = c.Head.clone(clonedMap)
+	}
 	return &c
 }
 
-- 
2.43.0


From 6a65cd8f91dbdd200683b72c123e35401ebda253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:29 +0000
Subject: [PATCH 10/45] fix: times must have a two-digit hour and a point
 before the fraction

---
 scalars.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/scalars.go b/scalars.go
index 4329768..595bb78 100644
--- a/scalars.go
+++ b/scalars.go
@@ -6,6 +6,7 @@ import (
 	"math/big"
 	"reflect"
 	"regexp"
+	"strings"
 	"time"
 	"unicode/utf8"
 
@@ -20,6 +21,19 @@ const (
 	DateTime = "2006-01-02T15:04:05"
 )
 
+// parseTime parses a value strictly. Unlike the rest of the fields, time.Parse accepts an hour without the leading zero
+// and a comma as the separator of fractional seconds.
+func parseTime(layout, value string) error {
+	if _, err := time.Parse(layout, value); err != nil {
+		return fmt.Errorf("parse time: %w", err)
+	}
+	if strings.IndexByte(value, ':') != strings.IndexByte(layout, ':') ||
+		strings.Count(value, ",") != strings.Count(layout, ",") {
+		return fmt.Errorf("value must match format %s", layout)
+	}
+	return nil
+}
+
 type EnumFacets struct {
 	Enum Nodes
 }
@@ -1009,18 +1023,18 @@ func (s *DateTimeShape) validate(v interface{}, _ string) error {
 	}
 
 	if s.Format == nil {
-		if _, err := time.Parse(time.RFC3339, i); err != nil {
+		if err := parseTime(time.RFC3339, i); err != nil {
 			return fmt.Errorf("value must match format %s", time.RFC3339)
 		}
 	} else {
 		switch *s.Format {
 		case DateTimeFormatRFC3339:
-			if _, err := time.Parse(time.RFC3339, i); err != nil {
+			if err := parseTime(time.RFC3339, i); err != nil {
 				return fmt.Errorf("value must match format %s", time.RFC3339)
 			}
 		// TODO: https://www.rfc-editor.org/rfc/rfc7231#section-7.1.1.1
 		case DateTimeFormatRFC2616:
-			if _, err := time.Parse(RFC2616, i); err != nil {
+			if err := parseTime(RFC2616, i); err != nil {
 				return fmt.Errorf("value must match format %s", RFC2616)
 			}
 		}
@@ -1112,7 +1126,7 @@ func (s *DateTimeOnlyShape) validate(v interface{}, _ string) error {
 		return fmt.Errorf("invalid type, got %T, expected string", v)
 	}
 
-	if _, err := time.Parse(DateTime, i); err != nil {
+	if err := parseTime(DateTime, i); err != nil {
 		return fmt.Errorf("value must match format %s", DateTime)
 	}
 
@@ -1258,7 +1272,7 @@ func (s *TimeOnlyShape) validate(v interface{}, _ string) error {
 		return fmt.Errorf("invalid type, got %T, expected string", v)
 	}
 
-	if _, err := time.Parse(time.TimeOnly, i); err != nil {
+	if err := parseTime(time.TimeOnly, i); err != nil {
 		return fmt.Errorf("value must match format %s", time.TimeOnly)
 	}
 
-- 
2.43.0


From 051cdaa0e280c4b5908d6beacfd98b249875aab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:39 +0000
Subject: [PATCH 11/45] fix: check the facets of custom facet definitions

---
 validate.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/validate.go b/validate.go
index 9275a5e..07b3d2b 100644
--- a/validate.go
+++ b/validate.go
@@ -289,6 +289,10 @@ func (r *RAML) validateShapeCommons(s *BaseShape) error {
 	// Validate trait definition shapes
 	for pair := s.CustomShapeFacetDefinitions.Oldest(); pair != nil; pair = pair.Next() {
 		facetDef := pair.Value
+		if err := facetDef.Base.Check(); err != nil {
+			return StacktraceNewWrapped("check custom facet definition", err, facetDef.Base.Location,
+				stacktrace.WithPosition(&facetDef.Base.Position), stacktrace.WithInfo("facet", pair.Key))
+		}
 		if err := r.validateShapeCommons(facetDef.Base); err != nil {
 			return StacktraceNewWrapped("validate custom facet definition", err, facetDef.Base.Location,
 				stacktrace.WithPosition(&facetDef.Base.Position), stacktrace.WithInfo("facet", pair.Key))
-- 
2.43.0


From e3c6d417e5f641cd3a360c636270982793ddf5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:19 +0000
Subject: [PATCH 12/45] fix: examples of an included NamedExample are part of
 the type

---
 shape.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shape.go b/shape.go
index 17f0e7e..15d36b4 100644
--- a/shape.go
+++ b/shape.go
@@ -813,7 +813,7 @@ func (s *BaseShape) decodeExamples(valueNode *yaml.Node) error {
 			return StacktraceNewWrapped("parse named example", err, s.Location,
 				WithNodePosition(valueNode))
 		}
-		s.Examples = &Examples{Link: n, Location: s.Location}
+		s.Examples = &Examples{Link: n, Map: n.Map, Location: s.Location}
 		return nil
 	} else if valueNode.Kind != yaml.MappingNode {
 		return StacktraceNew("examples must be map", s.Location,
-- 
2.43.0


From 539d85ec10f8f58a88e23e60b88f212541c59477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:19 +0000
Subject: [PATCH 13/45] fix: custom facets are validated against the
 definitions of every parent and of a linked data type

---
 unwrap.go   |  2 ++
 validate.go | 44 ++++++++++++++++++++++++--------------------
 2 files changed, 26 insertions(+), 20 deletions(-)

diff --git a/unwrap.go b/unwrap.go
index 267167b..9214b76 100644
--- a/unwrap.go
+++ b/unwrap.go
@@ -347,6 +347,8 @@ func (r *RAML) unwrapParents(base *BaseShape) (*BaseShape, error) {
 		}
 		source = us
 		base.Link = nil
+		// Custom facets are validated against the definitions of the linked type.
+		base.Inherits = []*BaseShape{us}
 	case len(base.Inherits) > 0:
 		inherits := base.Inherits
 		// FIXME: Multiple inheritance members must be checked for compatibility with each other before unwrapping.
diff --git a/validate.go b/validate.go
index 07b3d2b..2c44b47 100644
--- a/validate.go
+++ b/validate.go
@@ -338,40 +338,44 @@ func (r *RAML) validateShapeFacets(base *BaseShape) error {
 	if err := r.callHooks(HookBeforeValidateShapeFacets, base); err != nil {
 		return err
 	}
-	// TODO: Doesn't support multiple inheritance.
-	inherits := base.Inherits
 	shapeFacetDefs := base.CustomShapeFacetDefinitions
-	validationFacetDefs := make(map[string]Property)
-	for {
-		if len(inherits) == 0 {
-			break
+	validationFacetDefs := make(map[string][]Property)
+	visited := make(map[*BaseShape]struct{})
+	parents := append([]*BaseShape(nil), base.Inherits...)
+	for len(parents) > 0 {
+		parent := parents[0]
+		parents = parents[1:]
+		if _, ok := visited[parent]; ok {
+			continue
 		}
-		parent := inherits[0]
+		visited[parent] = struct{}{}
 		for pair := parent.CustomShapeFacetDefinitions.Oldest(); pair != nil; pair = pair.Next() {
 			f := pair.Value
 			if _, ok := shapeFacetDefs.Get(f.Name); ok {
 				return StacktraceNew("duplicate custom facet", f.Base.Location,
 					stacktrace.WithPosition(&f.Base.Position), stacktrace.WithInfo("facet", f.Name))
 			}
-			validationFacetDefs[f.Name] = f
+			validationFacetDefs[f.Name] = append(validationFacetDefs[f.Name], f)
 		}
-		inherits = parent.Inherits
+		parents = append(parents, parent.Inherits...)
 	}
 
 	// Validate all unknown facets against facet definitions
 	shapeFacets := base.CustomShapeFacets
-	for k, facetDef := range validationFacetDefs {
-		f, ok := shapeFacets.Get(k)
-		if !ok {
-			if facetDef.Required {
-				return StacktraceNew("required custom facet is missing", base.Location,
-					stacktrace.WithPosition(&base.Position), stacktrace.WithInfo("facet", k))
+	for k, facetDefs := range validationFacetDefs {
+		for _, facetDef := range facetDefs {
+			f, ok := shapeFacets.Get(k)
+			if !ok {
+				if facetDef.Required {
+					return StacktraceNew("required custom facet is missing", base.Location,
+						stacktrace.WithPosition(&base.Position), stacktrace.WithInfo("facet", k))
+				}
+				continue
+			}
+			if err := facetDef.Base.Validate(f.Value); err != nil {
+				return StacktraceNewWrapped("validate custom facet", err, f.Location,
+					stacktrace.WithPosition(&f.Position), stacktrace.WithInfo("facet", k))
 			}
-			continue
-		}
-		if err := facetDef.Base.Validate(f.Value); err != nil {
-			return StacktraceNewWrapped("validate custom facet", err, f.Location,
-				stacktrace.WithPosition(&f.Position), stacktrace.WithInfo("facet", k))
 		}
 	}
 
-- 
2.43.0


From f87cf8ebb25f17798cc6d7bc2cdf5271eaae5219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:00 +0000
Subject: [PATCH 14/45] fix: a custom facet inherited by an overriding property
 or item is not unknown

---
 shape.go    | 7 +++++++
 validate.go | 5 +++++
 2 files changed, 12 insertions(+)

diff --git a/shape.go b/shape.go
index 15d36b4..1e85314 100644
--- a/shape.go
+++ b/shape.go
@@ -63,6 +63,8 @@ type BaseShape struct {
 	CustomShapeFacets *orderedmap.OrderedMap[string, *Node]
 	// CustomShapeFacetDefinitions is an object properties share the same syntax with custom shape facets.
 	CustomShapeFacetDefinitions *orderedmap.OrderedMap[string, Property]
+	// inheritedShapeFacets are names of custom shape facets that come from the shapes this shape inherits from.
+	inheritedShapeFacets []string
 	// CustomDomainProperties is a map of custom annotations
 	CustomDomainProperties *orderedmap.OrderedMap[string, *DomainExtension]
 
@@ -144,6 +146,7 @@ func (s *BaseShape) Inherit(sourceBase *BaseShape) (*BaseShape, error) {
 	}
 
 	// Inherit custom shape facets
+	inherited := append([]string(nil), s.inheritedShapeFacets...)
 	if s.CustomShapeFacets == nil {
 		s.CustomShapeFacets = sourceBase.CustomShapeFacets
 	} else if sourceBase.CustomShapeFacets != nil {
@@ -151,10 +154,13 @@ func (s *BaseShape) Inherit(sourceBase *BaseShape) (*BaseShape, error) {
 			k, sourceNode := pair.Key, pair.Value
 			if _, present := s.CustomShapeFacets.Get(k); !present {
 				s.CustomShapeFacets.Set(k, sourceNode)
+				inherited = append(inherited, k)
 			}
 		}
 	}
 
+	s.inheritedShapeFacets = inherited
+
 	// If source type is any, return target as is
 	if _, ok := source.(*AnyShape); ok {
 		return s, nil
@@ -281,6 +287,7 @@ func (s *BaseShape) AliasTo(source *BaseShape) (*BaseShape, error) {
 	s.Default = source.Default
 	s.Required = source.Required
 	s.CustomShapeFacets = source.CustomShapeFacets
+	s.inheritedShapeFacets = source.inheritedShapeFacets
 	s.CustomShapeFacetDefinitions = source.CustomShapeFacetDefinitions
 	s.CustomDomainProperties = source.CustomDomainProperties
 	return s, nil
diff --git a/validate.go b/validate.go
index 2c44b47..affa676 100644
--- a/validate.go
+++ b/validate.go
@@ -379,6 +379,11 @@ func (r *RAML) validateShapeFacets(base *BaseShape) error {
 		}
 	}
 
+	// Inherited facets are validated where they are declared.
+	for _, k := range base.inheritedShapeFacets {
+		validationFacetDefs[k] = nil
+	}
+
 	// If we encounter an undefined facet - it's an error.
 	for pair := shapeFacets.Oldest(); pair != nil; pair = pair.Next() {
 		k, f := pair.Key, pair.Value
-- 
2.43.0


From fe47fea54664f70c779a5ff758022bec11efbe9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:38 +0000
Subject: [PATCH 15/45] fix: check and validate types that are reachable only
 through recursion

---
 validate.go | 90 +++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 64 insertions(+), 26 deletions(-)

diff --git a/validate.go b/validate.go
index affa676..105c391 100644
--- a/validate.go
+++ b/validate.go
@@ -28,6 +28,68 @@ func (r *RAML) unwrapShape(shape *BaseShape, unwrapCache map[int64]*BaseShape) (
 	return shape, nil
 }
 
+// recursionHeads returns the shapes that are reachable from the given shape only through recursive shapes.
+func recursionHeads(base *BaseShape) []*BaseShape {
+	var heads, queue []*BaseShape
+	visited := make(map[*BaseShape]struct{})
+	var walk func(s *BaseShape)
+	walk = func(s *BaseShape) {
+		if _, ok := visited[s]; ok {
+			return
+		}
+		visited[s] = struct{}{}
+		switch shape := s.Shape.(type) {
+		case *RecursiveShape:
+			queue = append(queue, shape.Head)
+		case *ObjectShape:
+			for pair := shape.Properties.Oldest(); pair != nil; pair = pair.Next() {
+				walk(pair.Value.Base)
+			}
+			for pair := shape.PatternProperties.Oldest(); pair != nil; pair = pair.Next() {
+				walk(pair.Value.Base)
+			}
+		case *ArrayShape:
+			if shape.Items != nil {
+				walk(shape.Items)
+			}
+		case *UnionShape:
+			for _, item := range shape.AnyOf {
+				walk(item)
+			}
+		}
+		for pair := s.CustomShapeFacetDefinitions.Oldest(); pair != nil; pair = pair.Next() {
+			walk(pair.Value.Base)
+		}
+	}
+	walk(base)
+	for len(queue) > 0 {
+		head := queue[0]
+		queue = queue[1:]
+		if _, ok := visited[head]; !ok {
+			heads = append(heads, head)
+			walk(head)
+		}
+	}
+	return heads
+}
+
+// checkShape checks the facets of the shape, its examples, default value and custom facets.
+func (r *RAML) checkShape(shape *BaseShape) *stacktrace.StackTrace {
+	for _, s := range append([]*BaseShape{shape}, recursionHeads(shape)...) {
+		if err := s.Check(); err != nil {
+			return StacktraceNewWrapped("check type", err, s.Location,
+				stacktrace.WithPosition(&s.Position),
+				stacktrace.WithType(StacktraceTypeValidating))
+		}
+		if err := r.validateShapeCommons(s); err != nil {
+			return StacktraceNewWrapped("validate shape commons", err, s.Location,
+				stacktrace.WithPosition(&s.Position),
+				stacktrace.WithType(StacktraceTypeValidating))
+		}
+	}
+	return nil
+}
+
 const HookBeforeValidateTypes HookKey = "RAML.validateTypes"
 
 func (r *RAML) validateTypes(
@@ -48,21 +110,7 @@ func (r *RAML) validateTypes(
 			}
 			continue
 		}
-		if err := shape.Check(); err != nil {
-			se = StacktraceNewWrapped("check type", err, shape.Location,
-				stacktrace.WithPosition(&shape.Position),
-				stacktrace.WithType(StacktraceTypeValidating))
-			if st == nil {
-				st = se
-			} else {
-				st = st.Append(se)
-			}
-			continue
-		}
-		if err := r.validateShapeCommons(shape); err != nil {
-			se = StacktraceNewWrapped("validate shape commons", err, shape.Location,
-				stacktrace.WithPosition(&shape.Position),
-				stacktrace.WithType(StacktraceTypeValidating))
+		if se = r.checkShape(shape); se != nil {
 			if st == nil {
 				st = se
 			} else {
@@ -116,17 +164,7 @@ func (r *RAML) validateDataType(f *DataType, unwrapCache map[int64]*BaseShape) *
 		unwrapCache[s.ID] = us
 		s = us
 	}
-	if err := s.Check(); err != nil {
-		return StacktraceNewWrapped("check data type", err, s.Location,
-			stacktrace.WithPosition(&s.Position),
-			stacktrace.WithType(StacktraceTypeValidating))
-	}
-	if err := r.validateShapeCommons(s); err != nil {
-		return StacktraceNewWrapped("validate shape commons", err, s.Location,
-			stacktrace.WithPosition(&s.Position),
-			stacktrace.WithType(StacktraceTypeValidating))
-	}
-	return nil
+	return r.checkShape(s)
 }
 
 const HookBeforeValidateFragments HookKey = "RAML.validateFragments"
-- 
2.43.0


From 98643522b75d3df056021f8cf53068a537688d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:51 +0000
Subject: [PATCH 16/45] fix: malformed fragments and mismatched includes are
 errors instead of panics

An empty uses/facets map or parent list of another kind, a null document, and a
file that is used as two kinds of fragments made the parser panic.
---
 fragment.go |  4 ++++
 parse.go    | 24 +++++++++++++++++++++---
 resolve.go  |  4 ++++
 shape.go    |  6 ++++++
 4 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/fragment.go b/fragment.go
index 05e1a1d..05750a4 100644
--- a/fragment.go
+++ b/fragment.go
@@ -345,6 +345,10 @@ func (dt *DataType) UnmarshalYAML(value *yaml.Node) error {
 				break
 			}
 
+			if valueNode.Kind != yaml.MappingNode {
+				return StacktraceNew("uses must be map", dt.Location, WithNodePosition(valueNode))
+			}
+
 			dt.Uses = orderedmap.New[string, *LibraryLink](len(valueNode.Content) / 2)
 			// Map nodes come in pairs in order [key, value]
 			for j := 0; j != len(valueNode.Content); j += 2 {
diff --git a/parse.go b/parse.go
index a50be10..76d5185 100644
--- a/parse.go
+++ b/parse.go
@@ -131,7 +131,11 @@ func (r *RAML) parseDataType(path string) (*DataType, error) {
 
 	if dt := r.GetFragment(path); dt != nil {
 		// log.Printf("reusing fragment %s", path)
-		return dt.(*DataType), nil
+		dataType, ok := dt.(*DataType)
+		if !ok {
+			return nil, StacktraceNew("fragment is not a data type", path, stacktrace.WithType(StacktraceTypeParsing))
+		}
+		return dataType, nil
 	}
 
 	f, err := openFragmentFile(path)
@@ -186,6 +190,9 @@ func (r *RAML) decodeLibrary(f io.Reader, path string) (*Library, error) {
 		return nil, StacktraceNewWrapped("decode fragment", err, path,
 			stacktrace.WithType(StacktraceTypeParsing))
 	}
+	if lib == nil {
+		return nil, StacktraceNew("must be map", path, stacktrace.WithType(StacktraceTypeParsing))
+	}
 
 	var st *stacktrace.StackTrace
 
@@ -224,7 +231,11 @@ func (r *RAML) parseLibrary(path string) (*Library, error) {
 
 	if lib := r.GetFragment(path); lib != nil {
 		// slog.Debug("reusing fragment", slog.String("path", path))
-		return lib.(*Library), nil
+		library, ok := lib.(*Library)
+		if !ok {
+			return nil, StacktraceNew("fragment is not a library", path, stacktrace.WithType(StacktraceTypeParsing))
+		}
+		return library, nil
 	}
 
 	f, err := openFragmentFile(path)
@@ -262,6 +273,9 @@ func (r *RAML) decodeNamedExample(f io.Reader, path string) (*NamedExample, erro
 		return nil, StacktraceNewWrapped("decode fragment", err, path,
 			stacktrace.WithType(StacktraceTypeParsing))
 	}
+	if ne == nil {
+		return nil, StacktraceNew("must be map", path, stacktrace.WithType(StacktraceTypeParsing))
+	}
 
 	r.PutFragment(path, ne)
 
@@ -274,7 +288,11 @@ func (r *RAML) parseNamedExample(path string) (*NamedExample, error) {
 
 	if lib := r.GetFragment(path); lib != nil {
 		// slog.Debug("reusing fragment", slog.String("path", path))
-		return lib.(*NamedExample), nil
+		namedExample, ok := lib.(*NamedExample)
+		if !ok {
+			return nil, StacktraceNew("fragment is not a named example", path, stacktrace.WithType(StacktraceTypeParsing))
+		}
+		return namedExample, nil
 	}
 
 	f, err := openFragmentFile(path)
diff --git a/resolve.go b/resolve.go
index 7a5869a..a91b27c 100644
--- a/resolve.go
+++ b/resolve.go
@@ -86,6 +86,10 @@ func (r *RAML) resolveDomainExtension(de *DomainExtension) error {
 
 func (r *RAML) resolveMultipleInheritance(base *BaseShape, shape *UnknownShape) error {
 	inherits := base.Inherits
+	if len(inherits) == 0 {
+		return StacktraceNew("list of parent types must not be empty", base.Location,
+			stacktrace.WithPosition(&base.Position), stacktrace.WithType(StacktraceTypeResolving))
+	}
 	for _, inherit := range inherits {
 		if err := r.resolveShape(inherit); err != nil {
 			return fmt.Errorf("resolve inherit: %w", err)
diff --git a/shape.go b/shape.go
index 1e85314..af8eeb2 100644
--- a/shape.go
+++ b/shape.go
@@ -843,6 +843,12 @@ func (s *BaseShape) decodeExamples(valueNode *yaml.Node) error {
 
 // decodeFacets decodes the facet: "facets" from the YAML node.
 func (s *BaseShape) decodeFacets(valueNode *yaml.Node) error {
+	if valueNode.Tag == TagNull {
+		return nil
+	}
+	if valueNode.Kind != yaml.MappingNode {
+		return StacktraceNew("facets must be map", s.Location, WithNodePosition(valueNode))
+	}
 	s.CustomShapeFacetDefinitions = orderedmap.New[string, Property](len(valueNode.Content) / 2)
 	for j := 0; j != len(valueNode.Content); j += 2 {
 		nodeName := valueNode.Content[j].Value
-- 
2.43.0


From 5d71adde784389e9ec91de31148e5931c26dfb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:51 +0000
Subject: [PATCH 17/45] fix: a data type may include itself

The data type is registered before it is decoded, which also turns a null
document into an error instead of a panic.
---
 parse.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index 76d5185..27bf500 100644
--- a/parse.go
+++ b/parse.go
@@ -78,12 +78,17 @@ func (r *RAML) decodeDataType(f io.Reader, path string) (*DataType, error) {
 	decoder := yaml.NewDecoder(f)
 
 	dt := r.MakeDataType(path)
+	// The data type may include itself.
+	r.PutFragment(path, dt)
 	if err := decoder.Decode(&dt); err != nil {
+		delete(r.fragmentsCache, path)
 		return nil, StacktraceNewWrapped("decode fragment", err, path,
 			stacktrace.WithType(StacktraceTypeParsing))
 	}
-
-	r.PutFragment(path, dt)
+	if dt == nil {
+		delete(r.fragmentsCache, path)
+		return nil, StacktraceNew("must be map", path, stacktrace.WithType(StacktraceTypeParsing))
+	}
 
 	baseDir := filepath.Dir(dt.Location)
 	for pair := dt.Uses.Oldest(); pair != nil; pair = pair.Next() {
-- 
2.43.0


From b73a2a741991467aebc256054bbcaed6340fef3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:55 +0000
Subject: [PATCH 18/45] fix: a type that needs itself to be resolved is an
 error

Aliases, parents or includes that form a cycle made the resolver recurse
without end.
---
 raml.go    |  2 ++
 resolve.go | 11 +++++++++++
 2 files changed, 13 insertions(+)

diff --git a/raml.go b/raml.go
index 683fc5e..32c8739 100644
--- a/raml.go
+++ b/raml.go
@@ -25,6 +25,8 @@ type RAML struct {
 	shapes []*BaseShape
 	// Temporary storage for unresolved shapes.
 	unresolvedShapes list.List
+	// Shapes that are currently being resolved.
+	resolving map[*BaseShape]struct{}
 
 	// idCounter is a counter for generating unique IDs per raml
 	idCounter int64
diff --git a/resolve.go b/resolve.go
index a91b27c..c2163af 100644
--- a/resolve.go
+++ b/resolve.go
@@ -156,6 +156,17 @@ func (r *RAML) resolveShape(base *BaseShape) error {
 		return nil
 	}
 
+	// A shape that needs itself to be resolved has no type.
+	if _, ok = r.resolving[base]; ok {
+		return StacktraceNew("type refers to itself", base.Location,
+			stacktrace.WithPosition(&base.Position), stacktrace.WithType(StacktraceTypeResolving))
+	}
+	if r.resolving == nil {
+		r.resolving = make(map[*BaseShape]struct{})
+	}
+	r.resolving[base] = struct{}{}
+	defer delete(r.resolving, base)
+
 	if base.Link != nil {
 		err := r.resolveLink(base, unknownShape)
 		if err != nil {
-- 
2.43.0


From c677013cfc424e353413ecb53d35e8fd890a903d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:06 +0000
Subject: [PATCH 19/45] fix: a union that is a member of itself is an error

Validating a value against it recursed without end.
---
 unwrap.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/unwrap.go b/unwrap.go
index 9214b76..2a3c830 100644
--- a/unwrap.go
+++ b/unwrap.go
@@ -277,12 +277,34 @@ func (r *RAML) findAndMarkRecursionInUnionShape(t *UnionShape) error {
 			return fmt.Errorf("find and mark recursion: %w", err)
 		}
 		if rs != nil {
+			if item.isUnionOf(t, make(map[*BaseShape]struct{})) {
+				return StacktraceNew("union type is a member of itself", t.Location,
+					stacktrace.WithPosition(&t.Position), stacktrace.WithType(StacktraceTypeUnwrapping))
+			}
 			t.AnyOf[i] = rs
 		}
 	}
 	return nil
 }
 
+// isUnionOf tells if the shape is the union or a union that has it as a member at any level.
+func (s *BaseShape) isUnionOf(union *UnionShape, visited map[*BaseShape]struct{}) bool {
+	t, ok := s.Shape.(*UnionShape)
+	if _, seen := visited[s]; !ok || seen {
+		return false
+	}
+	if t == union {
+		return true
+	}
+	visited[s] = struct{}{}
+	for _, item := range t.AnyOf {
+		if item.isUnionOf(union, visited) {
+			return true
+		}
+	}
+	return false
+}
+
 func (r *RAML) unwrapObjShape(objShape *ObjectShape) error {
 	if objShape.Properties != nil {
 		for pair := objShape.Properties.Oldest(); pair != nil; pair = pair.Next() {
-- 
2.43.0


From a7bc3cdeca2e9138c557f5a19b8e58d9e7149790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:09 +0000
Subject: [PATCH 20/45] fix: recursive types keep the facets they inherit

A reference to a type that is still being unwrapped copied its facets before it
had inherited them, so that nested values were validated against a part of the
type.
---
 complex.go |   8 +++-
 raml.go    |   3 ++
 unwrap.go  | 110 +++++++++++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 120 insertions(+), 1 deletion(-)

diff --git a/complex.go b/complex.go
index ab82572..941fd7a 100644
--- a/complex.go
+++ b/complex.go
@@ -129,7 +129,7 @@ func (s *ArrayShape) inherit(source Shape) (Shape, error) {
 	}
 	if s.Items == nil {
 		s.Items = ss.Items
-	} else if ss.Items != nil {
+	} else if ss.Items != nil && s.Items != ss.Items {
 		is, err := s.Items.copyForInheritance().Inherit(ss.Items)
 		if err != nil {
 			return nil, StacktraceNewWrapped("merge array items", err, s.Location,
@@ -553,6 +553,9 @@ func (s *ObjectShape) inheritProperties(source *ObjectShape) error {
 					stacktrace.WithInfo("target", targetProp.Required),
 					stacktrace.WithType(StacktraceTypeUnwrapping))
 			}
+			if targetProp.Base == sourceProp.Base {
+				continue
+			}
 			is, err := targetProp.Base.copyForInheritance().Inherit(sourceProp.Base)
 			if err != nil {
 				return StacktraceNewWrapped("inherit property", err, s.Location,
@@ -578,6 +581,9 @@ func (s *ObjectShape) inheritPatternProperties(source *ObjectShape) error {
 		for pair := source.PatternProperties.Oldest(); pair != nil; pair = pair.Next() {
 			k, sourceProp := pair.Key, pair.Value
 			if targetProp, present := s.PatternProperties.Get(k); present {
+				if targetProp.Base == sourceProp.Base {
+					continue
+				}
 				is, err := targetProp.Base.copyForInheritance().Inherit(sourceProp.Base)
 				if err != nil {
 					return StacktraceNewWrapped("inherit pattern property", err, s.Location,
diff --git a/raml.go b/raml.go
index 32c8739..858d789 100644
--- a/raml.go
+++ b/raml.go
@@ -27,6 +27,9 @@ type RAML struct {
 	unresolvedShapes list.List
 	// Shapes that are currently being resolved.
 	resolving map[*BaseShape]struct{}
+	// Shapes that are currently being unwrapped and shapes that depend on them.
+	unwrapping    []*BaseShape
+	partialShapes []*partialShape
 
 	// idCounter is a counter for generating unique IDs per raml
 	idCounter int64
diff --git a/unwrap.go b/unwrap.go
index 2a3c830..7756119 100644
--- a/unwrap.go
+++ b/unwrap.go
@@ -419,6 +419,25 @@ func (r *RAML) UnwrapTarget(target Shape) error {
 	return nil
 }
 
+// inheritPartialSource inherits from the parents again after they were completely unwrapped.
+func (r *RAML) inheritPartialSource(base *BaseShape) error {
+	if _, ok := base.Shape.(*UnionShape); ok {
+		return nil
+	}
+	source, err := r.unwrapParents(base)
+	if err != nil {
+		return err
+	}
+	if _, ok := source.Shape.(*UnionShape); ok {
+		return nil
+	}
+	if _, err = base.Inherit(source); err != nil {
+		return StacktraceNewWrapped("merge shapes", err, base.Location,
+			stacktrace.WithPosition(&base.Position), stacktrace.WithType(StacktraceTypeUnwrapping))
+	}
+	return nil
+}
+
 const HookBeforeUnwrapShape HookKey = "RAML.UnwrapShape"
 
 // UnwrapShape recursively copies and unwraps a shape in-place. Use Clone() to create a copy of a shape if necessary.
@@ -438,6 +457,86 @@ func (r *RAML) UnwrapShape(base *BaseShape) (*BaseShape, error) {
 	}
 	base.SetUnwrapped()
 
+	r.unwrapping = append(r.unwrapping, base)
+	us, err := r.unwrapBaseShape(base)
+	r.unwrapping = r.unwrapping[:len(r.unwrapping)-1]
+	if err == nil && len(r.unwrapping) == 0 {
+		err = r.completePartialShapes()
+	}
+	if len(r.unwrapping) == 0 {
+		r.partialShapes = nil
+	}
+	if err != nil {
+		return nil, err
+	}
+	return us, nil
+}
+
+// partialShape is a shape that took over facets of the sources before the sources were completely unwrapped.
+type partialShape struct {
+	base     *BaseShape
+	sources  []*BaseShape
+	takeOver func() error
+	done     bool
+}
+
+// isPartial tells if the shape is still being unwrapped or depends on a shape that is.
+func (r *RAML) isPartial(base *BaseShape) bool {
+	for _, b := range r.unwrapping {
+		if b == base {
+			return true
+		}
+	}
+	for _, p := range r.partialShapes {
+		if p.base == base {
+			return true
+		}
+	}
+	return false
+}
+
+// putPartialShape remembers to take over the facets once more if any of the sources is not completely unwrapped yet,
+// which happens when a type refers to itself.
+func (r *RAML) putPartialShape(base *BaseShape, sources []*BaseShape, takeOver func() error) {
+	for _, source := range sources {
+		if r.isPartial(source) {
+			r.partialShapes = append(r.partialShapes, &partialShape{base: base, sources: sources, takeOver: takeOver})
+			return
+		}
+	}
+}
+
+// completePartialShapes takes over the facets for all partial shapes, sources first.
+func (r *RAML) completePartialShapes() error {
+	for _, p := range r.partialShapes {
+		if err := r.completePartialShape(p); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
+func (r *RAML) completePartialShape(p *partialShape) error {
+	if p.done {
+		return nil
+	}
+	p.done = true
+	for _, source := range p.sources {
+		for _, sp := range r.partialShapes {
+			if sp.base != source {
+				continue
+			}
+			if err := r.completePartialShape(sp); err != nil {
+				return err
+			}
+		}
+	}
+	return p.takeOver()
+}
+
+func (r *RAML) unwrapBaseShape(base *BaseShape) (*BaseShape, error) {
+	s := base.Shape
+
 	// NOTE: Type aliasing is not inheritance and is not used as a source. It must be unwrapped and returned as is.
 	if base.Alias != nil {
 		us, err := r.UnwrapShape(base.Alias)
@@ -446,6 +545,16 @@ func (r *RAML) UnwrapShape(base *BaseShape) (*BaseShape, error) {
 				stacktrace.WithPosition(&base.Position), stacktrace.WithType(StacktraceTypeUnwrapping))
 		}
 		r.PutShape(base)
+		definitions := us.CustomShapeFacetDefinitions
+		r.putPartialShape(base, []*BaseShape{us}, func() error {
+			current := base.CustomShapeFacetDefinitions
+			_, errAlias := base.AliasTo(us)
+			if current != definitions {
+				// The definitions were reset since the shape is a custom shape facet definition.
+				base.CustomShapeFacetDefinitions = current
+			}
+			return errAlias
+		})
 		return base.AliasTo(us)
 	}
 
@@ -475,6 +584,7 @@ func (r *RAML) UnwrapShape(base *BaseShape) (*BaseShape, error) {
 
 	if source != nil {
 		// Base shape inherits properties of the source shape in-place.
+		r.putPartialShape(base, base.Inherits, func() error { return r.inheritPartialSource(base) })
 		is, errInherit := base.Inherit(source)
 		if errInherit != nil {
 			return nil, StacktraceNewWrapped("merge shapes", errInherit, base.Location,
-- 
2.43.0


From cd0436278f2e3a39eb4ae5a5bada162bf2d0f11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:00 +0000
Subject: [PATCH 21/45] fix: types that refer to themselves below an alias,
 parent or include resolve once

The cycle check rejected an alias of an array of itself, and a shape resolved by
one of its own references was built twice. A union that inherits from a union
which is still being unwrapped stayed empty.
---
 raml.go        |  2 +-
 rdt_visitor.go |  4 ++++
 resolve.go     | 37 ++++++++++++++++++++++++++++++-------
 unwrap.go      |  7 +++----
 4 files changed, 38 insertions(+), 12 deletions(-)

diff --git a/raml.go b/raml.go
index 858d789..53b6485 100644
--- a/raml.go
+++ b/raml.go
@@ -26,7 +26,7 @@ type RAML struct {
 	// Temporary storage for unresolved shapes.
 	unresolvedShapes list.List
 	// Shapes that are currently being resolved.
-	resolving map[*BaseShape]struct{}
+	resolving []*BaseShape
 	// Shapes that are currently being unwrapped and shapes that depend on them.
 	unwrapping    []*BaseShape
 	partialShapes []*partialShape
diff --git a/rdt_visitor.go b/rdt_visitor.go
index 9d235e8..9b4de32 100644
--- a/rdt_visitor.go
+++ b/rdt_visitor.go
@@ -169,6 +169,10 @@ func (visitor *RdtVisitor) VisitReference(ctx *rdt.ReferenceContext, target *Unk
 	if errResolveShape := visitor.raml.resolveShape(ref); errResolveShape != nil {
 		return nil, fmt.Errorf("resolve: %w", errResolveShape)
 	}
+	// The target may refer to itself below and be resolved by the reference.
+	if base := target.Base(); !base.isUnknown() {
+		return base.Shape, nil
+	}
 	s, err := visitor.raml.MakeConcreteShapeYAML(target.Base(), ref.Type, target.facets)
 	if err != nil {
 		return nil, fmt.Errorf("make concrete shape: %w", err)
diff --git a/resolve.go b/resolve.go
index c2163af..34b74df 100644
--- a/resolve.go
+++ b/resolve.go
@@ -95,6 +95,10 @@ func (r *RAML) resolveMultipleInheritance(base *BaseShape, shape *UnknownShape)
 			return fmt.Errorf("resolve inherit: %w", err)
 		}
 	}
+	// The shape may refer to itself below and be resolved by its parents.
+	if !base.isUnknown() {
+		return nil
+	}
 	// Multiple inheritance validation to be performed in a separate validation stage
 	_, err := r.MakeConcreteShapeYAML(base, inherits[0].Type, shape.facets)
 	if err != nil {
@@ -108,6 +112,10 @@ func (r *RAML) resolveLink(base *BaseShape, shape *UnknownShape) error {
 	if err := r.resolveShape(linkShape); err != nil {
 		return fmt.Errorf("resolve link shape: %w", err)
 	}
+	// The shape may refer to itself below and be resolved by the linked shape.
+	if !base.isUnknown() {
+		return nil
+	}
 	_, err := r.MakeConcreteShapeYAML(base, linkShape.Type, shape.facets)
 	if err != nil {
 		return fmt.Errorf("make concrete shape: %w", err)
@@ -142,6 +150,25 @@ func (c *CustomErrorListener) SyntaxError(
 	c.Stacktrace = c.Stacktrace.Append(StacktraceNew(msg, c.location, posOpt, symbolInfoOpt))
 }
 
+// isDefinedByItself tells if the shape is being resolved and none of the shapes that led back to it has a type yet.
+func (r *RAML) isDefinedByItself(base *BaseShape) bool {
+	for i := len(r.resolving) - 1; i >= 0; i-- {
+		if !r.resolving[i].isUnknown() {
+			return false
+		}
+		if r.resolving[i] == base {
+			return true
+		}
+	}
+	return false
+}
+
+// isUnknown tells if the shape is not resolved yet.
+func (s *BaseShape) isUnknown() bool {
+	_, ok := s.Shape.(*UnknownShape)
+	return ok
+}
+
 // resolveShape resolves an unknown shape in-place.
 // NOTE: This function is not thread-safe. Use Clone() to create a copy of the shape before resolving if necessary.
 func (r *RAML) resolveShape(base *BaseShape) error {
@@ -156,16 +183,12 @@ func (r *RAML) resolveShape(base *BaseShape) error {
 		return nil
 	}
 
-	// A shape that needs itself to be resolved has no type.
-	if _, ok = r.resolving[base]; ok {
+	if r.isDefinedByItself(base) {
 		return StacktraceNew("type refers to itself", base.Location,
 			stacktrace.WithPosition(&base.Position), stacktrace.WithType(StacktraceTypeResolving))
 	}
-	if r.resolving == nil {
-		r.resolving = make(map[*BaseShape]struct{})
-	}
-	r.resolving[base] = struct{}{}
-	defer delete(r.resolving, base)
+	r.resolving = append(r.resolving, base)
+	defer func() { r.resolving = r.resolving[:len(r.resolving)-1] }()
 
 	if base.Link != nil {
 		err := r.resolveLink(base, unknownShape)
diff --git a/unwrap.go b/unwrap.go
index 7756119..6d691f5 100644
--- a/unwrap.go
+++ b/unwrap.go
@@ -421,14 +421,13 @@ func (r *RAML) UnwrapTarget(target Shape) error {
 
 // inheritPartialSource inherits from the parents again after they were completely unwrapped.
 func (r *RAML) inheritPartialSource(base *BaseShape) error {
-	if _, ok := base.Shape.(*UnionShape); ok {
-		return nil
-	}
 	source, err := r.unwrapParents(base)
 	if err != nil {
 		return err
 	}
-	if _, ok := source.Shape.(*UnionShape); ok {
+	target, isTargetUnion := base.Shape.(*UnionShape)
+	_, isSourceUnion := source.Shape.(*UnionShape)
+	if isTargetUnion != isSourceUnion || isTargetUnion && len(target.AnyOf) > 0 {
 		return nil
 	}
 	if _, err = base.Inherit(source); err != nil {
-- 
2.43.0


From 0b44d99dd7fd93d92c2a8787026780307df1c350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:00 +0000
Subject: [PATCH 22/45] fix: a library is registered before it is decoded

A data type included by the library that uses the library itself parsed it a
second time, and the entry point was left without unwrapping.
---
 parse.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index 27bf500..a1e4d83 100644
--- a/parse.go
+++ b/parse.go
@@ -191,18 +191,20 @@ func (r *RAML) decodeLibrary(f io.Reader, path string) (*Library, error) {
 	decoder := yaml.NewDecoder(f)
 
 	lib := r.MakeLibrary(path)
+	// Fragments that the library includes may use the library.
+	r.PutFragment(path, lib)
 	if err := decoder.Decode(&lib); err != nil {
+		delete(r.fragmentsCache, path)
 		return nil, StacktraceNewWrapped("decode fragment", err, path,
 			stacktrace.WithType(StacktraceTypeParsing))
 	}
 	if lib == nil {
+		delete(r.fragmentsCache, path)
 		return nil, StacktraceNew("must be map", path, stacktrace.WithType(StacktraceTypeParsing))
 	}
 
 	var st *stacktrace.StackTrace
 
-	r.PutFragment(path, lib)
-
 	// Resolve included libraries in a separate stage.
 	baseDir := filepath.Dir(lib.Location)
 	for pair := lib.Uses.Oldest(); pair != nil; pair = pair.Next() {
-- 
2.43.0


From e512b274b904bf020158e54fd6f18e5d839df935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:35 +0000
Subject: [PATCH 23/45] fix: definitions of a JSON schema have unique names and
 escaped references

---
 jsonschemaconv.go | 56 +++++++++++++++++++++++++++++++++--------------
 1 file changed, 40 insertions(+), 16 deletions(-)

diff --git a/jsonschemaconv.go b/jsonschemaconv.go
index 97f747a..852eca9 100644
--- a/jsonschemaconv.go
+++ b/jsonschemaconv.go
@@ -4,7 +4,9 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
+	"net/url"
 	"strconv"
+	"strings"
 
 	orderedmap "github.com/wk8/go-ordered-map/v2"
 )
@@ -42,6 +44,9 @@ type JSONSchemaConverter[T jsonSchemaWrapper[T]] struct {
 
 	definitions map[string]T
 
+	// definitionNames holds the names of the definitions by the shapes they describe. Shape names are not unique.
+	definitionNames map[*BaseShape]string
+
 	opts JSONSchemaConverterOptions[T]
 }
 
@@ -65,15 +70,13 @@ func (c *JSONSchemaConverter[T]) Convert(s Shape) (T, error) {
 		return zero, fmt.Errorf("entrypoint shape must be unwrapped")
 	}
 
-	entrypointName := s.Base().Name
 	c.definitions = make(map[string]T)
-	// NOTE: Assign empty schema before traversing to definitions to occupy the name.
-	c.definitions[entrypointName] = zero
-	c.definitions[entrypointName] = c.Visit(s)
+	c.definitionNames = make(map[*BaseShape]string)
+	entrypointName := c.define(s)
 
 	core := &JSONSchemaGeneric[T]{
 		Version:     JSONSchemaVersion,
-		Ref:         "#/definitions/" + entrypointName,
+		Ref:         definitionRef(entrypointName),
 		Definitions: c.definitions,
 	}
 
@@ -342,21 +345,42 @@ func (c *JSONSchemaConverter[T]) VisitRecursiveShape(s *RecursiveShape) T {
 	node := c.makeEmptySchema()
 	schema := node.Generic()
 
-	head := s.Head.Shape
-	baseHead := head.Base()
-	// TODO: Type name is not unique, need pretty naming to avoid collisions.
-	definition := baseHead.Name
-	if _, ok := c.definitions[definition]; !ok {
-		// NOTE: Assign empty schema to definitions to occupy the name before traversing.
-		var placeholder T
-		c.definitions[definition] = placeholder
-		c.definitions[definition] = c.Visit(head)
-	}
-	schema.Ref = "#/definitions/" + definition
+	schema.Ref = definitionRef(c.define(s.Head.Shape))
 
 	return node
 }
 
+// define makes sure that the shape has a definition and returns its name.
+// The definition is called after the shape unless another shape took the name.
+func (c *JSONSchemaConverter[T]) define(s Shape) string {
+	base := s.Base()
+	if name, ok := c.definitionNames[base]; ok {
+		return name
+	}
+	name := base.Name
+	for i := 2; ; i++ {
+		if _, taken := c.definitions[name]; !taken {
+			break
+		}
+		name = fmt.Sprintf("%s_%d", base.Name, i)
+	}
+	if c.definitionNames == nil {
+		c.definitionNames = make(map[*BaseShape]string)
+	}
+	c.definitionNames[base] = name
+	// NOTE: Assign empty schema to definitions to occupy the name before traversing.
+	var placeholder T
+	c.definitions[name] = placeholder
+	c.definitions[name] = c.Visit(s)
+	return name
+}
+
+// definitionRef returns the reference to a definition: a JSON pointer in a URI fragment.
+func definitionRef(name string) string {
+	token := strings.NewReplacer("~", "~0", "/", "~1").Replace(name)
+	return (&url.URL{Fragment: "/definitions/" + token}).String()
+}
+
 func (c *JSONSchemaConverter[T]) VisitJSONShape(s *JSONShape) T {
 	// Base RAML meta (annotations, facets) first …
 	node := c.makeSchemaFromBaseShape(s.Base())
-- 
2.43.0


From 5b0d49d2754d4bc91ec2fde8549cb65cb16c4a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:44 +0000
Subject: [PATCH 24/45] fix: plain JSON schemas are converted without a
 wrapper, file types without media types too

---
 jsonschemaconv.go | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/jsonschemaconv.go b/jsonschemaconv.go
index 852eca9..ea4deac 100644
--- a/jsonschemaconv.go
+++ b/jsonschemaconv.go
@@ -80,11 +80,7 @@ func (c *JSONSchemaConverter[T]) Convert(s Shape) (T, error) {
 		Definitions: c.definitions,
 	}
 
-	if c.opts.wrap != nil {
-		return c.opts.wrap(c, core, nil), nil
-	}
-
-	return any(core).(T), nil
+	return c.wrap(core, nil), nil
 }
 
 func (c *JSONSchemaConverter[T]) Visit(s Shape) T {
@@ -256,7 +252,7 @@ func (c *JSONSchemaConverter[T]) VisitFileShape(s *FileShape) T {
 	schema.ContentEncoding = "base64"
 
 	// TODO: JSON Schema allows for only one content media type
-	if s.FileTypes != nil {
+	if len(s.FileTypes) > 0 {
 		maybeStr, ok := s.FileTypes[0].Value.(string)
 		if !ok {
 			panic("file type must be a string")
@@ -497,18 +493,12 @@ func (c *JSONSchemaConverter[T]) recast(src *JSONSchema) T {
 			core.Definitions[k] = c.recast(v)
 		}
 	}
-	if c.opts.wrap != nil {
-		return c.opts.wrap(c, core, nil)
-	}
-	return any(core).(T)
+	return c.wrap(core, nil)
 }
 
 func (c *JSONSchemaConverter[T]) makeEmptySchema() T {
 	core := &JSONSchemaGeneric[T]{}
-	if c.opts.wrap != nil {
-		return c.opts.wrap(c, core, nil)
-	}
-	return any(core).(T)
+	return c.wrap(core, nil)
 }
 
 func (c *JSONSchemaConverter[T]) makeSchemaFromBaseShape(base *BaseShape) T {
@@ -531,8 +521,14 @@ func (c *JSONSchemaConverter[T]) makeSchemaFromBaseShape(base *BaseShape) T {
 	if base.Example != nil {
 		core.Examples = []any{base.Example.Data.Value}
 	}
+	return c.wrap(core, base)
+}
+
+// wrap makes a schema of the converter's flavour. Plain schemas do not need a wrapper.
+func (c *JSONSchemaConverter[T]) wrap(core *JSONSchemaGeneric[T], base *BaseShape) T {
 	if c.opts.wrap != nil {
 		return c.opts.wrap(c, core, base)
 	}
-	return any(core).(T)
+	plain, _ := any(core).(*JSONSchemaGeneric[*JSONSchema])
+	return any(&JSONSchema{JSONSchemaGeneric: *plain}).(T)
 }
-- 
2.43.0


From 9d77f7cc98befb4872d092f961b2f78b6ecf8826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:01 +0000
Subject: [PATCH 25/45] fix: custom facets of union types are recorded and
 validated

---
 complex.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/complex.go b/complex.go
index 941fd7a..2ee77ba 100644
--- a/complex.go
+++ b/complex.go
@@ -817,7 +817,29 @@ type UnionShape struct {
 }
 
 // UnmarshalYAMLNodes unmarshals the union shape from YAML nodes.
-func (s *UnionShape) unmarshalYAMLNodes(_ []*yaml.Node) error {
+func (s *UnionShape) unmarshalYAMLNodes(v []*yaml.Node) error {
+	if len(v)%2 != 0 {
+		return StacktraceNew("odd number of nodes", s.Location, stacktrace.WithPosition(&s.Position))
+	}
+	for i := 0; i != len(v); i += 2 {
+		node := v[i]
+		valueNode := v[i+1]
+
+		switch node.Value {
+		case FacetFormat, FacetEnum, FacetMinimum, FacetMaximum, FacetMultipleOf,
+			FacetMinLength, FacetMaxLength, FacetPattern, FacetFileTypes,
+			FacetAdditionalProperties, FacetProperties, FacetMinProperties, FacetMaxProperties,
+			FacetItems, FacetMinItems, FacetMaxItems, FacetUniqueItems,
+			FacetDiscriminator, FacetDiscriminatorValue:
+			// NOTE: Facets of union members are not supported on the union itself.
+		default:
+			n, err := s.raml.makeRootNode(valueNode, s.Location)
+			if err != nil {
+				return StacktraceNewWrapped("make node", err, s.Location, WithNodePosition(valueNode))
+			}
+			s.CustomShapeFacets.Set(node.Value, n)
+		}
+	}
 	return nil
 }
 
-- 
2.43.0


From 11bf5c7ef396b5fd9d012e605f40bc2c280f6d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:28 +0000
Subject: [PATCH 26/45] fix: a deep copy of a JSON schema does not share facets

---
 schema.go | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/schema.go b/schema.go
index f0d4b2c..8818dfa 100644
--- a/schema.go
+++ b/schema.go
@@ -98,6 +98,17 @@ func (js *JSONSchemaGeneric[T]) DeepCopy() *JSONSchemaGeneric[T] {
 	}
 	newJs := js.ShallowCopy()
 
+	newJs.MaxLength = copyPtr(js.MaxLength)
+	newJs.MinLength = copyPtr(js.MinLength)
+	newJs.MaxItems = copyPtr(js.MaxItems)
+	newJs.MinItems = copyPtr(js.MinItems)
+	newJs.UniqueItems = copyPtr(js.UniqueItems)
+	newJs.MaxContains = copyPtr(js.MaxContains)
+	newJs.MinContains = copyPtr(js.MinContains)
+	newJs.MaxProperties = copyPtr(js.MaxProperties)
+	newJs.MinProperties = copyPtr(js.MinProperties)
+	newJs.AdditionalProperties = copyPtr(js.AdditionalProperties)
+
 	if len(js.Required) > 0 {
 		newJs.Required = make([]string, len(js.Required))
 		copy(newJs.Required, js.Required)
@@ -141,21 +152,21 @@ func (js *JSONSchemaGeneric[T]) DeepCopy() *JSONSchemaGeneric[T] {
 	newJs.Items = js.Items.DeepCopy()
 	newJs.PropertyNames = js.PropertyNames.DeepCopy()
 
-	if js.Properties.Len() > 0 {
+	if js.Properties != nil {
 		newJs.Properties = orderedmap.New[string, T](js.Properties.Len())
 		for p := js.Properties.Oldest(); p != nil; p = p.Next() {
 			newJs.Properties.Set(p.Key, p.Value.DeepCopy())
 		}
 	}
 
-	if js.PatternProperties.Len() > 0 {
+	if js.PatternProperties != nil {
 		newJs.PatternProperties = orderedmap.New[string, T](js.PatternProperties.Len())
 		for p := js.PatternProperties.Oldest(); p != nil; p = p.Next() {
 			newJs.PatternProperties.Set(p.Key, p.Value.DeepCopy())
 		}
 	}
 
-	if len(js.Definitions) > 0 {
+	if js.Definitions != nil {
 		newJs.Definitions = make(map[string]T, len(js.Definitions))
 		for k, v := range js.Definitions {
 			newJs.Definitions[k] = v.DeepCopy()
@@ -511,6 +522,14 @@ func uint64PtrToNumber(p *uint64) json.Number {
 	return json.Number(strconv.FormatUint(*p, 10))
 }
 
+func copyPtr[V any](p *V) *V {
+	if p == nil {
+		return nil
+	}
+	v := *p
+	return &v
+}
+
 func boolPtr(p *bool) any {
 	if p == nil {
 		return nil
-- 
2.43.0


From a8217fd321a53e44e0e7b59fb5d6249cc6e5ed43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:29 +0000
Subject: [PATCH 27/45] fix: references inside a JSON schema type resolve in
 the converted schema

---
 jsonschemaconv.go | 63 ++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 62 insertions(+), 1 deletion(-)

diff --git a/jsonschemaconv.go b/jsonschemaconv.go
index ea4deac..b425173 100644
--- a/jsonschemaconv.go
+++ b/jsonschemaconv.go
@@ -47,6 +47,9 @@ type JSONSchemaConverter[T jsonSchemaWrapper[T]] struct {
 	// definitionNames holds the names of the definitions by the shapes they describe. Shape names are not unique.
 	definitionNames map[*BaseShape]string
 
+	// localRef is the reference to the root of the JSON schema that is being recast.
+	localRef string
+
 	opts JSONSchemaConverterOptions[T]
 }
 
@@ -382,8 +385,21 @@ func (c *JSONSchemaConverter[T]) VisitJSONShape(s *JSONShape) T {
 	node := c.makeSchemaFromBaseShape(s.Base())
 	dst := node.Generic()
 
+	name, isDefined := c.definitionNames[s.Base()]
+	if !isDefined && hasLocalRefs(s.Schema) {
+		// References of the JSON schema to itself need a known root.
+		dst.Ref = definitionRef(c.define(s))
+		return node
+	}
+
 	// Recast the plain schema to T
+	outerRef := c.localRef
+	c.localRef = ""
+	if isDefined {
+		c.localRef = definitionRef(name)
+	}
 	recasted := c.recast(s.Schema)
+	c.localRef = outerRef
 	src := recasted.Generic()
 
 	// NOTE: RAML type may override common properties like title, description, etc.
@@ -409,16 +425,61 @@ func (c *JSONSchemaConverter[T]) VisitJSONShape(s *JSONShape) T {
 	return node
 }
 
+// isLocalRef tells if the reference is relative to the root of the schema.
+func isLocalRef(ref string) bool {
+	return ref == "#" || strings.HasPrefix(ref, "#/")
+}
+
+// hasLocalRefs tells if the schema refers to its own parts.
+func hasLocalRefs(src *JSONSchema) bool {
+	if src == nil || src.ID != "" {
+		// References below an identifier are relative to it.
+		return false
+	}
+	if isLocalRef(src.Ref) {
+		return true
+	}
+	subs := []*JSONSchema{src.If, src.Then, src.Else, src.Not, src.Items, src.PropertyNames}
+	subs = append(subs, src.AnyOf...)
+	subs = append(subs, src.AllOf...)
+	subs = append(subs, src.OneOf...)
+	for p := src.Properties.Oldest(); p != nil; p = p.Next() {
+		subs = append(subs, p.Value)
+	}
+	for p := src.PatternProperties.Oldest(); p != nil; p = p.Next() {
+		subs = append(subs, p.Value)
+	}
+	for _, v := range src.Definitions {
+		subs = append(subs, v)
+	}
+	for _, sub := range subs {
+		if hasLocalRefs(sub) {
+			return true
+		}
+	}
+	return false
+}
+
 func (c *JSONSchemaConverter[T]) recast(src *JSONSchema) T {
 	var zero T
 	if src == nil {
 		return zero
 	}
 
+	ref := src.Ref
+	if src.ID != "" {
+		// References below an identifier are relative to it.
+		outerRef := c.localRef
+		c.localRef = ""
+		defer func() { c.localRef = outerRef }()
+	} else if c.localRef != "" && isLocalRef(ref) {
+		ref = c.localRef + strings.TrimPrefix(ref, "#")
+	}
+
 	core := &JSONSchemaGeneric[T]{
 		Version: src.Version,
 		ID:      src.ID,
-		Ref:     src.Ref,
+		Ref:     ref,
 		Comment: src.Comment,
 
 		If:   c.recast(src.If),
-- 
2.43.0


From 0084dea1f6195daefd5f17a626e37d3083ab92ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:20 +0000
Subject: [PATCH 28/45] fix: facets given to a parenthesised built-in type are
 kept

---
 rdt_visitor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdt_visitor.go b/rdt_visitor.go
index 9b4de32..012709c 100644
--- a/rdt_visitor.go
+++ b/rdt_visitor.go
@@ -77,7 +77,7 @@ func (visitor *RdtVisitor) VisitType(ctx *rdt.TypeContext, target *UnknownShape)
 }
 
 func (visitor *RdtVisitor) VisitPrimitive(ctx *rdt.PrimitiveContext, target *UnknownShape) (Shape, error) {
-	s, err := visitor.raml.MakeConcreteShapeYAML(target.Base(), ctx.GetText(), nil)
+	s, err := visitor.raml.MakeConcreteShapeYAML(target.Base(), ctx.GetText(), target.facets)
 	if err != nil {
 		return nil, fmt.Errorf("make concrete shape: %w", err)
 	}
-- 
2.43.0


From aadd2d50876756b2cec1afad1c69b6ae00e88e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:20 +0000
Subject: [PATCH 29/45] fix: integer bounds are read as YAML integers in every
 base

---
 scalars.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scalars.go b/scalars.go
index 595bb78..841a5b0 100644
--- a/scalars.go
+++ b/scalars.go
@@ -288,7 +288,7 @@ func (s *IntegerShape) unmarshalYAMLNode(node, valueNode *yaml.Node) error {
 		if valueNode.Tag != TagInt {
 			return StacktraceNew("minimum must be integer", s.Location, WithNodePosition(valueNode))
 		}
-		num, ok := big.NewInt(0).SetString(valueNode.Value, 10)
+		num, ok := big.NewInt(0).SetString(valueNode.Value, 0)
 		if !ok {
 			return StacktraceNew("invalid minimum value", s.Location, WithNodePosition(valueNode))
 		}
@@ -297,7 +297,7 @@ func (s *IntegerShape) unmarshalYAMLNode(node, valueNode *yaml.Node) error {
 		if valueNode.Tag != TagInt {
 			return StacktraceNew("maximum must be integer", s.Location, WithNodePosition(valueNode))
 		}
-		num, ok := big.NewInt(0).SetString(valueNode.Value, 10)
+		num, ok := big.NewInt(0).SetString(valueNode.Value, 0)
 		if !ok {
 			return StacktraceNew("invalid maximum value", s.Location, WithNodePosition(valueNode))
 		}
-- 
2.43.0


From 6798b56d4a5be616b64fbde0bcb708d1109b45e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:20 +0000
Subject: [PATCH 30/45] fix: properties that are not a map are rejected

---
 complex.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/complex.go b/complex.go
index 2ee77ba..f1dd9bc 100644
--- a/complex.go
+++ b/complex.go
@@ -306,6 +306,12 @@ func (s *ObjectShape) unmarshalYAMLNode(node, valueNode *yaml.Node) error {
 				stacktrace.WithInfo("facet", FacetMaxProperties))
 		}
 	case FacetProperties:
+		if valueNode.Tag == TagNull {
+			return nil
+		}
+		if valueNode.Kind != yaml.MappingNode {
+			return StacktraceNew("properties must be map", s.Location, WithNodePosition(valueNode))
+		}
 		if len(valueNode.Content)%2 != 0 {
 			return StacktraceNew("odd number of nodes", s.Location, stacktrace.WithPosition(&s.Position))
 		}
-- 
2.43.0


From daedbf167b493ae611a9ceb21632ef00207a1720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:20 +0000
Subject: [PATCH 31/45] fix: json and composite can name declared types

---
 shape.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/shape.go b/shape.go
index af8eeb2..d7c997b 100644
--- a/shape.go
+++ b/shape.go
@@ -709,6 +709,9 @@ func (r *RAML) makeShapeType(
 						WithNodePosition(shapeTypeNode))
 				}
 				return shapeType, s, nil
+			} else if shapeType == TypeJSON || shapeType == TypeComposite {
+				// Internal type names cannot be used in RAML, so it is a reference to a declared type.
+				shapeType = "(" + shapeType + ")"
 			}
 		case TagInclude:
 			baseDir := filepath.Dir(location)
-- 
2.43.0


From 3e83fdd44e999c941f2574e3bc9c54aeb7feb30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:07 +0000
Subject: [PATCH 32/45] fix: fractional and out of range counts are rejected

---
 complex.go |  8 ++++----
 scalars.go | 25 +++++++++++++++++++++----
 2 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/complex.go b/complex.go
index f1dd9bc..1d122e8 100644
--- a/complex.go
+++ b/complex.go
@@ -186,13 +186,13 @@ func (s *ArrayShape) unmarshalYAMLNodes(v []*yaml.Node) error {
 
 		switch node.Value {
 		case FacetMinItems:
-			if err := valueNode.Decode(&s.MinItems); err != nil {
+			if err := decodeCount(valueNode, &s.MinItems); err != nil {
 				return StacktraceNewWrapped("decode", err, s.Location,
 					WithNodePosition(valueNode),
 					stacktrace.WithInfo("facet", FacetMinItems))
 			}
 		case FacetMaxItems:
-			if err := valueNode.Decode(&s.MaxItems); err != nil {
+			if err := decodeCount(valueNode, &s.MaxItems); err != nil {
 				return StacktraceNewWrapped("decode", err, s.Location,
 					WithNodePosition(valueNode),
 					stacktrace.WithInfo("facet", FacetMaxItems))
@@ -294,13 +294,13 @@ func (s *ObjectShape) unmarshalYAMLNode(node, valueNode *yaml.Node) error {
 				stacktrace.WithInfo("facet", FacetDiscriminatorValue))
 		}
 	case FacetMinProperties:
-		if err := valueNode.Decode(&s.MinProperties); err != nil {
+		if err := decodeCount(valueNode, &s.MinProperties); err != nil {
 			return StacktraceNewWrapped("decode", err, s.Location,
 				WithNodePosition(valueNode),
 				stacktrace.WithInfo("facet", FacetMinProperties))
 		}
 	case FacetMaxProperties:
-		if err := valueNode.Decode(&s.MaxProperties); err != nil {
+		if err := decodeCount(valueNode, &s.MaxProperties); err != nil {
 			return StacktraceNewWrapped("decode", err, s.Location,
 				WithNodePosition(valueNode),
 				stacktrace.WithInfo("facet", FacetMaxProperties))
diff --git a/scalars.go b/scalars.go
index 841a5b0..79eb76f 100644
--- a/scalars.go
+++ b/scalars.go
@@ -38,6 +38,23 @@ type EnumFacets struct {
 	Enum Nodes
 }
 
+// decodeCount decodes a non-negative integer facet. The YAML decoder would otherwise truncate fractions.
+func decodeCount(valueNode *yaml.Node, target **uint64) error {
+	if valueNode.ShortTag() == "!!float" {
+		var f float64
+		if err := valueNode.Decode(&f); err != nil {
+			return fmt.Errorf("decode float: %w", err)
+		}
+		if f < 0 || f >= math.MaxUint64 || f != math.Trunc(f) {
+			return fmt.Errorf("must be a non-negative integer: %s", valueNode.Value)
+		}
+	}
+	if err := valueNode.Decode(target); err != nil {
+		return fmt.Errorf("decode integer: %w", err)
+	}
+	return nil
+}
+
 func (r *RAML) MakeEnum(v *yaml.Node, location string) (Nodes, error) {
 	if v.Kind != yaml.SequenceNode {
 		return nil, StacktraceNew("enum must be sequence node", location, WithNodePosition(v))
@@ -688,11 +705,11 @@ func (s *StringShape) unmarshalYAMLNodes(v []*yaml.Node) error {
 
 		switch node.Value {
 		case FacetMinLength:
-			if err := valueNode.Decode(&s.MinLength); err != nil {
+			if err := decodeCount(valueNode, &s.MinLength); err != nil {
 				return StacktraceNewWrapped("decode minLength", err, s.Location, WithNodePosition(valueNode))
 			}
 		case FacetMaxLength:
-			if err := valueNode.Decode(&s.MaxLength); err != nil {
+			if err := decodeCount(valueNode, &s.MaxLength); err != nil {
 				return StacktraceNewWrapped("decode maxLength", err, s.Location, WithNodePosition(valueNode))
 			}
 		case FacetPattern:
@@ -842,11 +859,11 @@ func (s *FileShape) unmarshalYAMLNodes(v []*yaml.Node) error {
 
 		switch node.Value {
 		case FacetMinLength:
-			if err := valueNode.Decode(&s.MinLength); err != nil {
+			if err := decodeCount(valueNode, &s.MinLength); err != nil {
 				return StacktraceNewWrapped("decode minLength", err, s.Location, WithNodePosition(valueNode))
 			}
 		case FacetMaxLength:
-			if err := valueNode.Decode(&s.MaxLength); err != nil {
+			if err := decodeCount(valueNode, &s.MaxLength); err != nil {
 				return StacktraceNewWrapped("decode maxLength", err, s.Location, WithNodePosition(valueNode))
 			}
 		case FacetFileTypes:
-- 
2.43.0


From dee95be644db687bc3c07f78225b97bbb9b1fb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:22 +0000
Subject: [PATCH 33/45] fix: changing hooks affects neither a running step nor
 another RAML

---
 raml.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/raml.go b/raml.go
index 53b6485..4bf9858 100644
--- a/raml.go
+++ b/raml.go
@@ -62,7 +62,8 @@ func (r *RAML) setHooks(key HookKey, hooks []HookFunc) {
 
 func (r *RAML) AppendHook(key HookKey, hook HookFunc) {
 	hooks := r.getHooks(key)
-	hooks = append(hooks, hook)
+	// NOTE: The registered hooks may be running and may be shared with another RAML, so they are never changed in place.
+	hooks = append(hooks[:len(hooks):len(hooks)], hook)
 	r.setHooks(key, hooks)
 }
 
@@ -76,7 +77,7 @@ func (r *RAML) RemoveHook(key HookKey, hook HookFunc) {
 	hooks := r.getHooks(key)
 	for i, h := range hooks {
 		if reflect.ValueOf(h).Pointer() == reflect.ValueOf(hook).Pointer() {
-			hooks = append(hooks[:i], hooks[i+1:]...)
+			hooks = append(hooks[:i:i], hooks[i+1:]...)
 			break
 		}
 	}
-- 
2.43.0


From b957ead6b77e629ab52bf70165847d79da15debd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:18 +0000
Subject: [PATCH 34/45] fix: a failing hook cannot panic the type expression
 visitor

---
 rdt_visitor.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/rdt_visitor.go b/rdt_visitor.go
index 012709c..ac28334 100644
--- a/rdt_visitor.go
+++ b/rdt_visitor.go
@@ -52,7 +52,10 @@ func (visitor *RdtVisitor) VisitUnionMembers(node antlr.RuleNode, target *Unknow
 	// ^     ^ ^     ^ ^
 	// 0     1 2     3 4
 	for i := 0; i < len(children); i += 2 {
-		baseResolved, implicitAnonShape, _ := visitor.raml.MakeNewShape("", "", target.Location, target.Position)
+		baseResolved, implicitAnonShape, err := visitor.raml.MakeNewShape("", "", target.Location, target.Position)
+		if err != nil {
+			return nil, fmt.Errorf("make union member shape: %w", err)
+		}
 		s, err := visitor.Visit(children[i].(antlr.ParseTree), implicitAnonShape.(*UnknownShape))
 		if err != nil {
 			return nil, fmt.Errorf("visit children: %w", err)
@@ -94,7 +97,10 @@ func (visitor *RdtVisitor) VisitOptional(ctx *rdt.OptionalContext, target *Unkno
 	unionShape := shape.(*UnionShape)
 
 	// Create new anonymous shape for union member and continue resolving the expression for it.
-	baseResolved, anonResolvedShape, _ := visitor.raml.MakeNewShape("", "", target.Location, target.Position)
+	baseResolved, anonResolvedShape, err := visitor.raml.MakeNewShape("", "", target.Location, target.Position)
+	if err != nil {
+		return nil, fmt.Errorf("make optional shape: %w", err)
+	}
 	s, err := visitor.Visit(ctx.GetChildren()[0].(antlr.ParseTree), anonResolvedShape.(*UnknownShape))
 	if err != nil {
 		return nil, fmt.Errorf("visit: %w", err)
@@ -103,7 +109,10 @@ func (visitor *RdtVisitor) VisitOptional(ctx *rdt.OptionalContext, target *Unkno
 	baseResolved.SetShape(s)
 
 	// Nil shape is also anonymous here and doesn't share the base shape with the target.
-	baseNil, _, _ := visitor.raml.MakeNewShape("", TypeNil, target.Location, target.Position)
+	baseNil, _, err := visitor.raml.MakeNewShape("", TypeNil, target.Location, target.Position)
+	if err != nil {
+		return nil, fmt.Errorf("make nil shape: %w", err)
+	}
 
 	unionShape.UnionFacets.AnyOf = []*BaseShape{baseResolved, baseNil}
 	return unionShape, nil
@@ -119,7 +128,10 @@ func (visitor *RdtVisitor) VisitArray(ctx *rdt.ArrayContext, target *UnknownShap
 	arrayShape := shape.(*ArrayShape)
 
 	// Create new anonymous shape for items and continue resolving the expression for it.
-	itemsBase, itemsShape, _ := visitor.raml.MakeNewShape("", "", target.Location, target.Position)
+	itemsBase, itemsShape, err := visitor.raml.MakeNewShape("", "", target.Location, target.Position)
+	if err != nil {
+		return nil, fmt.Errorf("make items shape: %w", err)
+	}
 	itemsShape, err = visitor.Visit(ctx.GetChildren()[0].(antlr.ParseTree), itemsShape.(*UnknownShape))
 	if err != nil {
 		return nil, fmt.Errorf("visit: %w", err)
-- 
2.43.0


From f06f42456842990e6a909c348f4ab81eb02a33f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:24 +0000
Subject: [PATCH 35/45] fix: text after the value of an included JSON file is
 an error

---
 node.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/node.go b/node.go
index 728ab77..7530ed9 100644
--- a/node.go
+++ b/node.go
@@ -63,12 +63,14 @@ func (r *RAML) makeIncludedNode(node *yaml.Node, location string) (*Node, error)
 		}
 		value = string(v)
 	case ".json":
-		var data any
-		d := json.NewDecoder(rdr)
-		if errDecode := d.Decode(&data); errDecode != nil {
+		// The whole file must be one JSON value.
+		data, errRead := io.ReadAll(rdr)
+		if errRead != nil {
+			return nil, StacktraceNewWrapped("include: read all", errRead, fragmentPath, WithNodePosition(node))
+		}
+		if errDecode := json.Unmarshal(data, &value); errDecode != nil {
 			return nil, StacktraceNewWrapped("include: json decode", errDecode, fragmentPath, WithNodePosition(node))
 		}
-		value = data
 	case ".yaml", ".yml":
 		var data yaml.Node
 		d := yaml.NewDecoder(rdr)
-- 
2.43.0


From 5dd1475cfd83e3dc9b57d658cffadaa1401f00d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:03 +0000
Subject: [PATCH 36/45] fix: collections and aliases as mapping keys of a value
 are an error

---
 node.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/node.go b/node.go
index 7530ed9..d180d63 100644
--- a/node.go
+++ b/node.go
@@ -199,6 +199,10 @@ func yamlNodeToDataNode(node *yaml.Node, location string, isInclude bool) (any,
 				WithNodePosition(node))
 		}
 		for i := 0; i != len(node.Content); i += 2 {
+			switch node.Content[i].Kind {
+			case yaml.MappingNode, yaml.SequenceNode, yaml.AliasNode:
+				return nil, StacktraceNew("mapping key must be scalar", location, WithNodePosition(node.Content[i]))
+			}
 			key := node.Content[i].Value
 			value := node.Content[i+1]
 			data, err := yamlNodeToDataNode(value, location, isInclude)
-- 
2.43.0


From 802a3de545d75886e6303dfb2bb98ea815c54b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:03 +0000
Subject: [PATCH 37/45] fix: a discriminator value that looks like a date stays
 text

---
 complex.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/complex.go b/complex.go
index 1d122e8..8302f8b 100644
--- a/complex.go
+++ b/complex.go
@@ -288,11 +288,14 @@ func (s *ObjectShape) unmarshalYAMLNode(node, valueNode *yaml.Node) error {
 				stacktrace.WithInfo("facet", FacetDiscriminator))
 		}
 	case FacetDiscriminatorValue:
-		if err := valueNode.Decode(&s.DiscriminatorValue); err != nil {
+		// Like any other value; dates and times must stay text.
+		value, err := yamlNodeToDataNode(valueNode, s.Location, false)
+		if err != nil {
 			return StacktraceNewWrapped("decode", err, s.Location,
 				WithNodePosition(valueNode),
 				stacktrace.WithInfo("facet", FacetDiscriminatorValue))
 		}
+		s.DiscriminatorValue = value
 	case FacetMinProperties:
 		if err := decodeCount(valueNode, &s.MinProperties); err != nil {
 			return StacktraceNewWrapped("decode", err, s.Location,
-- 
2.43.0


From 47a87ccb9cb37108dc18ac48cfa2aa97839eee4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:07 +0000
Subject: [PATCH 38/45] fix: errors and values name places that exist in
 included files and data types

---
 fragment.go |  4 +++-
 node.go     | 26 +++++++++++++++-----------
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/fragment.go b/fragment.go
index 05750a4..4d52699 100644
--- a/fragment.go
+++ b/fragment.go
@@ -332,7 +332,9 @@ func (dt *DataType) UnmarshalYAML(value *yaml.Node) error {
 	}
 
 	shapeValue := &yaml.Node{
-		Kind: yaml.MappingNode,
+		Kind:   yaml.MappingNode,
+		Line:   value.Line,
+		Column: value.Column,
 	}
 	for i := 0; i != len(value.Content); i += 2 {
 		node := value.Content[i]
diff --git a/node.go b/node.go
index d180d63..f4f1aaf 100644
--- a/node.go
+++ b/node.go
@@ -59,34 +59,38 @@ func (r *RAML) makeIncludedNode(node *yaml.Node, location string) (*Node, error)
 	default:
 		v, errDecode := io.ReadAll(rdr)
 		if errDecode != nil {
-			return nil, StacktraceNewWrapped("include: read all", errDecode, fragmentPath, WithNodePosition(node))
+			return nil, StacktraceNewWrapped("include: read all", errDecode, location, WithNodePosition(node),
+				stacktrace.WithInfo("path", fragmentPath))
 		}
 		value = string(v)
 	case ".json":
 		// The whole file must be one JSON value.
 		data, errRead := io.ReadAll(rdr)
 		if errRead != nil {
-			return nil, StacktraceNewWrapped("include: read all", errRead, fragmentPath, WithNodePosition(node))
+			return nil, StacktraceNewWrapped("include: read all", errRead, location, WithNodePosition(node),
+				stacktrace.WithInfo("path", fragmentPath))
 		}
 		if errDecode := json.Unmarshal(data, &value); errDecode != nil {
-			return nil, StacktraceNewWrapped("include: json decode", errDecode, fragmentPath, WithNodePosition(node))
+			return nil, StacktraceNewWrapped("include: json decode", errDecode, location, WithNodePosition(node),
+				stacktrace.WithInfo("path", fragmentPath))
 		}
 	case ".yaml", ".yml":
 		var data yaml.Node
 		d := yaml.NewDecoder(rdr)
 		if errDecode := d.Decode(&data); errDecode != nil {
-			return nil, StacktraceNewWrapped("include: yaml decode", errDecode, fragmentPath, WithNodePosition(node))
+			return nil, StacktraceNewWrapped("include: yaml decode", errDecode, location, WithNodePosition(node),
+				stacktrace.WithInfo("path", fragmentPath))
 		}
 		value, err = yamlNodeToDataNode(&data, fragmentPath, false)
 		if err != nil {
-			return nil, StacktraceNewWrapped("include: yaml node to data node", err, fragmentPath,
-				WithNodePosition(node))
+			return nil, StacktraceNewWrapped("include: yaml node to data node", err, location, WithNodePosition(node),
+				stacktrace.WithInfo("path", fragmentPath))
 		}
 	}
 	return &Node{
 		Value:    value,
 		Location: fragmentPath,
-		Position: stacktrace.Position{Line: node.Line, Column: node.Column},
+		Position: stacktrace.Position{Line: 1, Column: 1},
 		raml:     r,
 	}, nil
 }
@@ -165,16 +169,16 @@ func scalarNodeToDataNode(node *yaml.Node, location string, isInclude bool) (any
 		default:
 			v, errRead := io.ReadAll(r)
 			if errRead != nil {
-				return nil, StacktraceNewWrapped("include: read all", errRead, fragmentPath,
-					WithNodePosition(node))
+				return nil, StacktraceNewWrapped("include: read all", errRead, location, WithNodePosition(node),
+					stacktrace.WithInfo("path", fragmentPath))
 			}
 			return string(v), nil
 		case ".yaml", ".yml":
 			var data yaml.Node
 			d := yaml.NewDecoder(r)
 			if errDecode := d.Decode(&data); errDecode != nil {
-				return nil, StacktraceNewWrapped("include: yaml decode", errDecode, fragmentPath,
-					WithNodePosition(node))
+				return nil, StacktraceNewWrapped("include: yaml decode", errDecode, location, WithNodePosition(node),
+					stacktrace.WithInfo("path", fragmentPath))
 			}
 			return yamlNodeToDataNode(&data, fragmentPath, true)
 		}
-- 
2.43.0


From 90e0725a8dc31a9209b2b78535c22ac01e9e086f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:30 +0000
Subject: [PATCH 39/45] fix: a library that a data type cannot use is reported
 where it is used

---
 parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index a1e4d83..e3d66f0 100644
--- a/parse.go
+++ b/parse.go
@@ -96,7 +96,7 @@ func (r *RAML) decodeDataType(f io.Reader, path string) (*DataType, error) {
 		sublib, err := r.parseLibrary(filepath.Join(baseDir, include.Value))
 		if err != nil {
 			return nil, StacktraceNewWrapped("parse library", err, dt.Location,
-				stacktrace.WithType(StacktraceTypeParsing))
+				stacktrace.WithType(StacktraceTypeParsing), stacktrace.WithPosition(&include.Position))
 		}
 		include.Link = sublib
 	}
-- 
2.43.0


From 7b0cf8b165e7198331ef688a88eb6f734d741ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:55 +0000
Subject: [PATCH 40/45] fix: a parser that has read a document before can parse
 it again

---
 parse.go | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/parse.go b/parse.go
index e3d66f0..f6d18a2 100644
--- a/parse.go
+++ b/parse.go
@@ -10,6 +10,7 @@ import (
 	"path/filepath"
 	"strings"
 
+	orderedmap "github.com/wk8/go-ordered-map/v2"
 	"gopkg.in/yaml.v3"
 
 	"github.com/acronis/go-stacktrace"
@@ -364,6 +365,40 @@ func (r *RAML) ParseFromString(content string, fileName string, baseDir string,
 	return r.parseFragment(f, filepath.Join(baseDir, fileName), pOpts)
 }
 
+// forgetFragment drops what is known of a fragment that is read anew and tells whether there was anything.
+func (r *RAML) forgetFragment(location string) bool {
+	if _, ok := r.fragmentsCache[location]; !ok {
+		return false
+	}
+	delete(r.fragmentsCache, location)
+	domainExtensions := make([]*DomainExtension, 0, len(r.domainExtensions))
+	for _, de := range r.domainExtensions {
+		if de.Location != location {
+			domainExtensions = append(domainExtensions, de)
+		}
+	}
+	r.domainExtensions = domainExtensions
+	return true
+}
+
+// relinkLibrary makes the fragments that were read before use the given library in place of an earlier reading of it.
+func (r *RAML) relinkLibrary(lib *Library) {
+	for _, frag := range r.fragmentsCache {
+		var uses *orderedmap.OrderedMap[string, *LibraryLink]
+		switch f := frag.(type) {
+		case *Library:
+			uses = f.Uses
+		case *DataType:
+			uses = f.Uses
+		}
+		for pair := uses.Oldest(); pair != nil; pair = pair.Next() {
+			if link := pair.Value; link.Link != nil && link.Link.Location == lib.Location {
+				link.Link = lib
+			}
+		}
+	}
+}
+
 func (r *RAML) parseFragment(f io.ReadSeeker, fragmentPath string, pOpts *parserOptions) error {
 	head, err := ReadHead(f)
 	if err != nil {
@@ -375,6 +410,7 @@ func (r *RAML) parseFragment(f io.ReadSeeker, fragmentPath string, pOpts *parser
 		return StacktraceNewWrapped("identify fragment", err, fragmentPath,
 			stacktrace.WithType(StacktraceTypeParsing))
 	}
+	known := r.forgetFragment(fragmentPath)
 	switch frag {
 	case FragmentUnknown:
 		return StacktraceNew("unknown fragment kind", fragmentPath,
@@ -385,6 +421,9 @@ func (r *RAML) parseFragment(f io.ReadSeeker, fragmentPath string, pOpts *parser
 			return StacktraceNewWrapped("parse library", errDecode, fragmentPath,
 				stacktrace.WithType(StacktraceTypeParsing))
 		}
+		if known {
+			r.relinkLibrary(lib)
+		}
 		r.SetEntryPoint(lib)
 	case FragmentDataType:
 		dt, errDecode := r.decodeDataType(f, fragmentPath)
-- 
2.43.0


From c3435bea61356c9809e7327fc4ef1a611d76a16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:40 +0000
Subject: [PATCH 41/45] fix: validation leaves no copies of shapes in the list
 of shapes

---
 validate.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/validate.go b/validate.go
index 105c391..5a255b7 100644
--- a/validate.go
+++ b/validate.go
@@ -247,6 +247,10 @@ func (r *RAML) ValidateShapes() error {
 	// to ensure the original references (aliases and links) match.
 	unwrapCache := make(map[int64]*BaseShape)
 
+	// Shapes that are copied and unwrapped for the validation are not a part of the RAML.
+	shapes := r.shapes
+	defer func() { r.shapes = shapes }()
+
 	st := r.validateFragments(unwrapCache)
 
 	if se := r.validateDomainExtensions(unwrapCache); se != nil {
-- 
2.43.0


From 95be3e5311c075548b17117c1a815b1927dd0ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:19 +0000
Subject: [PATCH 42/45] fix: unwrapping or parsing again keeps the list of
 shapes complete

---
 parse.go  |  5 ++++
 unwrap.go | 76 ++++++++++++++++++++++++++++++++++++++++++++++---------
 2 files changed, 69 insertions(+), 12 deletions(-)

diff --git a/parse.go b/parse.go
index f6d18a2..6dc9f3f 100644
--- a/parse.go
+++ b/parse.go
@@ -371,6 +371,8 @@ func (r *RAML) forgetFragment(location string) bool {
 		return false
 	}
 	delete(r.fragmentsCache, location)
+	delete(r.fragmentTypes, location)
+	delete(r.fragmentAnnotationTypes, location)
 	domainExtensions := make([]*DomainExtension, 0, len(r.domainExtensions))
 	for _, de := range r.domainExtensions {
 		if de.Location != location {
@@ -454,6 +456,9 @@ func (r *RAML) parseFragment(f io.ReadSeeker, fragmentPath string, pOpts *parser
 		return StacktraceNewWrapped("resolve domain extensions", err, fragmentPath,
 			stacktrace.WithType(StacktraceTypeParsing))
 	}
+	if known {
+		r.resetShapes(r.fragmentShapes())
+	}
 
 	if pOpts.withUnwrapOpt {
 		err = r.UnwrapShapes()
diff --git a/unwrap.go b/unwrap.go
index 6d691f5..cf58a4c 100644
--- a/unwrap.go
+++ b/unwrap.go
@@ -143,28 +143,80 @@ func (r *RAML) UnwrapShapes() error {
 	return nil
 }
 
-// markShapeRecursions marks recursive shapes by replacing the beginning of recursion with RecursiveShape in the RAML.
-func (r *RAML) markShapeRecursions() error {
-	// TODO: Maybe count shapes here?
+// resetShapes makes the list of shapes hold the given shapes and those that they consist of, each one once.
+func (r *RAML) resetShapes(shapes []*BaseShape) {
+	r.shapes = make([]*BaseShape, 0, len(r.shapes))
+	visited := make(map[*BaseShape]struct{})
+	for _, base := range shapes {
+		r.putShapesOf(base, visited)
+	}
+}
+
+// putShapesOf puts a shape and the shapes that it consists of, except for those that are visited.
+func (r *RAML) putShapesOf(base *BaseShape, visited map[*BaseShape]struct{}) {
+	if base == nil {
+		return
+	}
+	if _, ok := visited[base]; ok {
+		return
+	}
+	visited[base] = struct{}{}
+	r.PutShape(base)
+	switch t := base.Shape.(type) {
+	case *ArrayShape:
+		r.putShapesOf(t.Items, visited)
+	case *ObjectShape:
+		for pair := t.Properties.Oldest(); pair != nil; pair = pair.Next() {
+			r.putShapesOf(pair.Value.Base, visited)
+		}
+		for pair := t.PatternProperties.Oldest(); pair != nil; pair = pair.Next() {
+			r.putShapesOf(pair.Value.Base, visited)
+		}
+	case *UnionShape:
+		for _, item := range t.AnyOf {
+			r.putShapesOf(item, visited)
+		}
+	case *RecursiveShape:
+		r.putShapesOf(t.Head, visited)
+	}
+	for _, parent := range base.Inherits {
+		r.putShapesOf(parent, visited)
+	}
+	for pair := base.CustomShapeFacetDefinitions.Oldest(); pair != nil; pair = pair.Next() {
+		r.putShapesOf(pair.Value.Base, visited)
+	}
+}
+
+// fragmentShapes returns the shapes that the fragments declare.
+func (r *RAML) fragmentShapes() []*BaseShape {
+	var shapes []*BaseShape
 	for _, frag := range r.fragmentsCache {
 		switch f := frag.(type) {
 		case *Library:
 			for pair := f.AnnotationTypes.Oldest(); pair != nil; pair = pair.Next() {
-				if _, err := r.FindAndMarkRecursion(pair.Value); err != nil {
-					return err
-				}
+				shapes = append(shapes, pair.Value)
 			}
 			for pair := f.Types.Oldest(); pair != nil; pair = pair.Next() {
-				if _, err := r.FindAndMarkRecursion(pair.Value); err != nil {
-					return err
-				}
+				shapes = append(shapes, pair.Value)
 			}
 		case *DataType:
-			if _, err := r.FindAndMarkRecursion(f.Shape); err != nil {
-				return err
-			}
+			shapes = append(shapes, f.Shape)
+		}
+	}
+	return shapes
+}
+
+// markShapeRecursions marks recursive shapes by replacing the beginning of recursion with RecursiveShape in the RAML.
+func (r *RAML) markShapeRecursions() error {
+	// TODO: Maybe count shapes here?
+	shapes := r.fragmentShapes()
+	for _, base := range shapes {
+		if _, err := r.FindAndMarkRecursion(base); err != nil {
+			return err
 		}
 	}
+	// Shapes that were unwrapped before have not been put again.
+	r.resetShapes(shapes)
 	return nil
 }
 
-- 
2.43.0


From 43b2f899f8f4f6e00beb0b82e47b829934fba683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:30 +0000
Subject: [PATCH 43/45] fix: a type that inherits from a union can be aliased

---
 shape.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/shape.go b/shape.go
index d7c997b..35dd2c0 100644
--- a/shape.go
+++ b/shape.go
@@ -273,6 +273,12 @@ func (s *BaseShape) inheritUnionTarget(targetUnion *UnionShape) (*BaseShape, err
 }
 
 func (s *BaseShape) AliasTo(source *BaseShape) (*BaseShape, error) {
+	_, isTargetUnion := s.Shape.(*UnionShape)
+	if _, ok := source.Shape.(*UnionShape); ok && !isTargetUnion {
+		// The source became a union when it inherited from one.
+		s.Type = TypeUnion
+		s.SetShape(&UnionShape{BaseShape: s})
+	}
 	_, err := s.Shape.alias(source.Shape)
 	if err != nil {
 		return nil, StacktraceNewWrapped("alias shape", err, s.Location,
-- 
2.43.0


From 67ff5df8b787ad3246ba3289881d2d5639f393f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:30 +0000
Subject: [PATCH 44/45] fix: types that refer to a type narrowed to one member
 of a union see what it inherits

---
 shape.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/shape.go b/shape.go
index 35dd2c0..0ca1a60 100644
--- a/shape.go
+++ b/shape.go
@@ -194,6 +194,7 @@ func (s *BaseShape) inheritUnionSource(sourceUnion *UnionShape) (*BaseShape, err
 		return nil, err
 	}
 	var filtered []*BaseShape
+	var compatible *BaseShape
 	var st *stacktrace.StackTrace
 	for _, source := range sourceUnion.AnyOf {
 		// If at least one union member has any type, the whole union is considered as any type.
@@ -219,6 +220,7 @@ func (s *BaseShape) inheritUnionSource(sourceUnion *UnionShape) (*BaseShape, err
 				continue
 			}
 			filtered = append(filtered, is)
+			compatible = source
 		}
 	}
 	if len(filtered) == 0 {
@@ -229,9 +231,9 @@ func (s *BaseShape) inheritUnionSource(sourceUnion *UnionShape) (*BaseShape, err
 		}
 		return nil, se
 	}
-	// If only one union member remains - simplify to target type
+	// If only one union member remains - simplify to target type, which inherits in-place since others may refer to it
 	if len(filtered) == 1 {
-		return filtered[0], nil
+		return s.Inherit(compatible)
 	}
 	// Convert target to union
 	s.Type = TypeUnion
-- 
2.43.0


From b1459e5c24371e5b1961628a33fef311ae1425a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:18 +0000
Subject: [PATCH 45/45] fix: copies that become members of a union have
 identifiers of their own

---
 complex.go |  4 +---
 shape.go   | 47 +++++++++++++++++++++++++++++++++++++++++++----
 unwrap.go  | 37 +------------------------------------
 3 files changed, 45 insertions(+), 43 deletions(-)

diff --git a/complex.go b/complex.go
index 8302f8b..1eef91f 100644
--- a/complex.go
+++ b/complex.go
@@ -931,9 +931,7 @@ func (s *UnionShape) inherit(source Shape) (Shape, error) {
 		for _, targetMember := range s.AnyOf {
 			if sourceMember.Type == targetMember.Type {
 				// Clone is required to avoid modifying the original target member shape.
-				cs := targetMember.CloneDetached()
-				// TODO: Probably all copied shapes must change IDs since these are actually new shapes.
-				cs.ID = s.raml.generateShapeID()
+				cs := s.raml.copyDetached(targetMember)
 				ms, err := cs.Inherit(sourceMember)
 				if err != nil {
 					// TODO: Collect errors
diff --git a/shape.go b/shape.go
index 0ca1a60..6d8734b 100644
--- a/shape.go
+++ b/shape.go
@@ -203,10 +203,7 @@ func (s *BaseShape) inheritUnionSource(sourceUnion *UnionShape) (*BaseShape, err
 		}
 		if source.Type == s.Type {
 			// Deep copy with ID change is required since we create new union members from source members
-			tc := s.CloneDetached()
-			tc.ID = s.raml.generateShapeID()
-			// TODO: Probably all copied shapes must change IDs since these are actually new shapes.
-			// tc.ID = generateShapeID()
+			tc := s.raml.copyDetached(s)
 			is, err := tc.Inherit(source)
 			if err != nil {
 				se := StacktraceNewWrapped("merge shapes", err, s.Location,
@@ -377,6 +374,48 @@ func (s *BaseShape) CloneDetached() *BaseShape {
 	return s.clone(make(map[int64]*BaseShape))
 }
 
+// copyDetached creates a detached deep copy that consists of new shapes, with IDs of their own.
+func (r *RAML) copyDetached(s *BaseShape) *BaseShape {
+	c := s.CloneDetached()
+	c.forEach(make(map[*BaseShape]struct{}), func(base *BaseShape) { base.ID = r.generateShapeID() })
+	return c
+}
+
+// forEach calls the function for a shape and the shapes that it consists of, except for those that are visited.
+func (s *BaseShape) forEach(visited map[*BaseShape]struct{}, f func(*BaseShape)) {
+	if s == nil {
+		return
+	}
+	if _, ok := visited[s]; ok {
+		return
+	}
+	visited[s] = struct{}{}
+	f(s)
+	switch t := s.Shape.(type) {
+	case *ArrayShape:
+		t.Items.forEach(visited, f)
+	case *ObjectShape:
+		for pair := t.Properties.Oldest(); pair != nil; pair = pair.Next() {
+			pair.Value.Base.forEach(visited, f)
+		}
+		for pair := t.PatternProperties.Oldest(); pair != nil; pair = pair.Next() {
+			pair.Value.Base.forEach(visited, f)
+		}
+	case *UnionShape:
+		for _, item := range t.AnyOf {
+			item.forEach(visited, f)
+		}
+	case *RecursiveShape:
+		t.Head.forEach(visited, f)
+	}
+	for _, parent := range s.Inherits {
+		parent.forEach(visited, f)
+	}
+	for pair := s.CustomShapeFacetDefinitions.Oldest(); pair != nil; pair = pair.Next() {
+		pair.Value.Base.forEach(visited, f)
+	}
+}
+
 func (s *BaseShape) clone(clonedMap map[int64]*BaseShape) *BaseShape {
 	if shape, ok := clonedMap[s.ID]; ok {
 		return shape
diff --git a/unwrap.go b/unwrap.go
index cf58a4c..60e1a33 100644
--- a/unwrap.go
+++ b/unwrap.go
@@ -148,42 +148,7 @@ func (r *RAML) resetShapes(shapes []*BaseShape) {
 	r.shapes = make([]*BaseShape, 0, len(r.shapes))
 	visited := make(map[*BaseShape]struct{})
 	for _, base := range shapes {
-		r.putShapesOf(base, visited)
-	}
-}
-
-// putShapesOf puts a shape and the shapes that it consists of, except for those that are visited.
-func (r *RAML) putShapesOf(base *BaseShape, visited map[*BaseShape]struct{}) {
-	if base == nil {
-		return
-	}
-	if _, ok := visited[base]; ok {
-		return
-	}
-	visited[base] = struct{}{}
-	r.PutShape(base)
-	switch t := base.Shape.(type) {
-	case *ArrayShape:
-		r.putShapesOf(t.Items, visited)
-	case *ObjectShape:
-		for pair := t.Properties.Oldest(); pair != nil; pair = pair.Next() {
-			r.putShapesOf(pair.Value.Base, visited)
-		}
-		for pair := t.PatternProperties.Oldest(); pair != nil; pair = pair.Next() {
-			r.putShapesOf(pair.Value.Base, visited)
-		}
-	case *UnionShape:
-		for _, item := range t.AnyOf {
-			r.putShapesOf(item, visited)
-		}
-	case *RecursiveShape:
-		r.putShapesOf(t.Head, visited)
-	}
-	for _, parent := range base.Inherits {
-		r.putShapesOf(parent, visited)
-	}
-	for pair := base.CustomShapeFacetDefinitions.Oldest(); pair != nil; pair = pair.Next() {
-		r.putShapesOf(pair.Value.Base, visited)
+		base.forEach(visited, r.PutShape)
 	}
 }
 
-- 
2.43.0

