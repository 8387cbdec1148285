From c07fd4d74a08ca679403acb89d64f602f18852f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:55 +0000
Subject: [PATCH 01/39] fix: measure string length in characters, not bytes

---
 string.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/string.go b/string.go
index 9ef1d78..9a37282 100644
--- a/string.go
+++ b/string.go
@@ -9,6 +9,7 @@ import (
 	"regexp"
 	"strconv"
 	"time"
+	"unicode/utf8"
 
 	"github.com/lestrrat-go/pdebug"
 )
@@ -51,7 +52,7 @@ func (sc *StringConstraint) Validate(v interface{}) (err error) {
 	}
 
 	str := rv.String()
-	ls := len(str)
+	ls := utf8.RuneCountInString(str)
 	if sc.maxLength > -1 {
 		if pdebug.Enabled {
 			pdebug.Printf("Checking MaxLength (%d)", sc.maxLength)
-- 
2.43.0


From 5c508147d210e628d7f94beb8e7f229a0f6cd201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:55 +0000
Subject: [PATCH 02/39] fix: enforce the "date-time" format

---
 string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string.go b/string.go
index 9a37282..1e8937c 100644
--- a/string.go
+++ b/string.go
@@ -72,7 +72,7 @@ func (sc *StringConstraint) Validate(v interface{}) (err error) {
 	}
 
 	switch sc.format {
-	case "datetime":
+	case "date-time", "datetime":
 		if _, err = time.Parse(time.RFC3339, str); err != nil {
 			return errors.New("invalid datetime")
 		}
-- 
2.43.0


From 248657a5d00db3f838db03c81300d04772f0acfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:55 +0000
Subject: [PATCH 03/39] fix: allow hexadecimal digits in the "ipv6" format

---
 string.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/string.go b/string.go
index 1e8937c..b7b0879 100644
--- a/string.go
+++ b/string.go
@@ -97,10 +97,10 @@ func (sc *StringConstraint) Validate(v interface{}) (err error) {
 			return errors.New("invalid IPv4 address")
 		}
 	case "ipv6":
-		// Should only contain numbers and ":"
+		// Should only contain hexadecimal digits and ":"
 		for _, r := range str {
 			switch {
-			case r == 0x3A || 0x30 <= r && r <= 0x39:
+			case r == 0x3A || 0x30 <= r && r <= 0x39 || 0x41 <= r && r <= 0x46 || 0x61 <= r && r <= 0x66:
 			default:
 				return errors.New("invalid IPv6 address")
 			}
-- 
2.43.0


From fb2c4d59c11ba72af005ab7efbf540fea673f3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:51 +0000
Subject: [PATCH 04/39] fix: apply additionalItems only to the items after the
 positional ones

---
 array.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/array.go b/array.go
index d77e593..42475c9 100644
--- a/array.go
+++ b/array.go
@@ -103,7 +103,7 @@ pdebug.Printf("unique? -> %s", kv)
 			if cadd == nil { // you can't have additionalItems!
 				return errors.New("additional elements found in array")
 			}
-			for i := lp - 1; i < l; i++ {
+			for i := lp; i < l; i++ {
 				iv := rv.Index(i).Interface()
 				if err := cadd.Validate(iv); err != nil {
 					return err
-- 
2.43.0


From 64162a287c162c46ba5b5796cdd4738d6afb88c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:51 +0000
Subject: [PATCH 05/39] fix: tell different items apart when checking
 uniqueItems

---
 array.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/array.go b/array.go
index 42475c9..70a6aa6 100644
--- a/array.go
+++ b/array.go
@@ -59,7 +59,7 @@ func (c *ArrayConstraint) Validate(v interface{}) (err error) {
 		uitems = make(map[string]struct{})
 		for i := 0; i < l; i++ {
 			iv := rv.Index(i).Interface()
-			kv := fmt.Sprintf("%s", iv)
+			kv := fmt.Sprintf("%#v", iv)
 pdebug.Printf("unique? -> %s", kv)
 			if _, ok := uitems[kv]; ok {
 				return errors.New("duplicate element found")
-- 
2.43.0


From 696f974b5dffaf928d4da8fd26045d97a90239af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:38 +0000
Subject: [PATCH 06/39] fix: validate a property against every
 patternProperties entry it matches

---
 object.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/object.go b/object.go
index 478ffb8..4382513 100644
--- a/object.go
+++ b/object.go
@@ -434,6 +434,9 @@ func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 		}
 	}
 
+	// A property may match several patterns, in which case it must be valid
+	// against each of them
+	pmatched := map[string]struct{}{}
 	for pat, c := range o.patternProperties {
 		if pdebug.Enabled {
 			pdebug.Printf("Checking patternProperty '%s'", pat.String())
@@ -452,13 +455,16 @@ func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 			// this from "premain"
 			pval := o.getProp(rv, pname)
 
-			delete(premain, pname)
+			pmatched[pname] = struct{}{}
 			pseen[pname] = struct{}{}
 			if err := c.Validate(pval.Interface()); err != nil {
 				return errors.New("object property '" + pname + "' validation failed: " + err.Error())
 			}
 		}
 	}
+	for pname := range pmatched {
+		delete(premain, pname)
+	}
 
 	if len(premain) > 0 {
 		c := o.additionalProperties
-- 
2.43.0


From 2c295424ee02a9635de7343b272f9782ee9c3388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:38 +0000
Subject: [PATCH 07/39] fix: count additional properties as present when
 checking dependencies

---
 object.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/object.go b/object.go
index 4382513..1c7368e 100644
--- a/object.go
+++ b/object.go
@@ -473,6 +473,7 @@ func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 		}
 
 		for pname := range premain {
+			pseen[pname] = struct{}{}
 			pval := o.getProp(rv, pname)
 			if err := c.Validate(pval.Interface()); err != nil {
 				return errors.New("object property for '" + pname + "' validation failed: " + err.Error())
-- 
2.43.0


From 9358d4ee0da6a16aa058c3ba08af6fd3410f5678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:39 +0000
Subject: [PATCH 08/39] fix: enforce required properties that are not listed
 under properties

---
 object.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/object.go b/object.go
index 1c7368e..d90ba98 100644
--- a/object.go
+++ b/object.go
@@ -434,6 +434,18 @@ func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 		}
 	}
 
+	// Properties can be required without being listed under properties
+	o.reqlock.Lock()
+	for pname := range o.required {
+		_, known := propdefs[pname]
+		_, found := premain[pname]
+		if !known && !found {
+			o.reqlock.Unlock()
+			return errors.New("object property '" + pname + "' is required")
+		}
+	}
+	o.reqlock.Unlock()
+
 	// A property may match several patterns, in which case it must be valid
 	// against each of them
 	pmatched := map[string]struct{}{}
-- 
2.43.0


From 5126f907443fac41f2b6bdb643774006845782ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:14 +0000
Subject: [PATCH 09/39] fix: look inside of Maybe values that are pattern or
 additional properties

---
 object.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/object.go b/object.go
index d90ba98..d6bc090 100644
--- a/object.go
+++ b/object.go
@@ -320,6 +320,18 @@ func (o *ObjectConstraint) getProp(rv reflect.Value, pname string) reflect.Value
 	}
 }
 
+// unwrapMaybe returns the value held by an initialized Maybe value. Other
+// values are returned as they are
+func unwrapMaybe(pval reflect.Value) reflect.Value {
+	if pval == zeroval {
+		return pval
+	}
+	if pval.Type().Implements(maybeif) || reflect.PtrTo(pval.Type()).Implements(maybeif) {
+		return pval.MethodByName("Value").Call(nil)[0]
+	}
+	return pval
+}
+
 // Validate validates the given value against this ObjectConstraint
 func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 	if pdebug.Enabled {
@@ -465,7 +477,7 @@ func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 			}
 			// No need to check if this pname exists, as we're taking
 			// this from "premain"
-			pval := o.getProp(rv, pname)
+			pval := unwrapMaybe(o.getProp(rv, pname))
 
 			pmatched[pname] = struct{}{}
 			pseen[pname] = struct{}{}
@@ -486,7 +498,7 @@ func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 
 		for pname := range premain {
 			pseen[pname] = struct{}{}
-			pval := o.getProp(rv, pname)
+			pval := unwrapMaybe(o.getProp(rv, pname))
 			if err := c.Validate(pval.Interface()); err != nil {
 				return errors.New("object property for '" + pname + "' validation failed: " + err.Error())
 			}
-- 
2.43.0


From dfe43823f6ab06d4d83cba540c9385b9a7c78563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:33 +0000
Subject: [PATCH 10/39] fix: report default values that cannot be applied
 instead of panicking

---
 object.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/object.go b/object.go
index d6bc090..af1920c 100644
--- a/object.go
+++ b/object.go
@@ -210,6 +210,8 @@ func coerceValue(v interface{}, t reflect.Type) reflect.Value {
 	switch vv.Kind() {
 	case reflect.Interface:
 		vv = vv.Elem()
+	case reflect.Invalid: // null
+		return reflect.Zero(t)
 	}
 
 	// For known Maybe types, we should do our best, too
@@ -220,6 +222,11 @@ func coerceValue(v interface{}, t reflect.Type) reflect.Value {
 		t = intT
 	}
 
+	// a number is convertible to a string in Go, but it's not what it looks like
+	if t.Kind() == reflect.String && vv.Kind() != reflect.String {
+		return vv
+	}
+
 	if vv.Type().ConvertibleTo(t) {
 		return vv.Convert(t)
 	}
@@ -240,7 +247,15 @@ func (o *ObjectConstraint) setProp(rv reflect.Value, pname string, val interface
 
 	switch rv.Kind() {
 	case reflect.Map:
-		rv.SetMapIndex(reflect.ValueOf(pname), reflect.ValueOf(val))
+		if rv.IsNil() {
+			return errors.New("setProp: cannot set property on a nil map")
+		}
+		t := rv.Type()
+		dv := coerceValue(val, t.Elem())
+		if !dv.Type().AssignableTo(t.Elem()) {
+			return errors.New("setProp: cannot store '" + dv.Type().String() + "' in a '" + t.String() + "'")
+		}
+		rv.SetMapIndex(reflect.ValueOf(pname).Convert(t.Key()), dv)
 		return nil
 	case reflect.Struct:
 		spvm := rv.MethodByName("SetPropValue")
@@ -270,6 +285,9 @@ func (o *ObjectConstraint) setProp(rv reflect.Value, pname string, val interface
 		case f.CanAddr() && f.Addr().Type().Implements(maybeif):
 			mv = f.Addr().MethodByName("Set")
 		default:
+			if !f.CanSet() || !dv.Type().AssignableTo(f.Type()) {
+				return errors.New("setProp: cannot set field for '" + pname + "' to '" + dv.Type().String() + "'")
+			}
 			f.Set(dv)
 			return nil
 		}
-- 
2.43.0


From c2536263b394964a3fc1941d10b6388a95f8333a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:34 +0000
Subject: [PATCH 11/39] fix: accept maps whose key type is a named string type
 and reject other key types

---
 object.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/object.go b/object.go
index af1920c..acf60e8 100644
--- a/object.go
+++ b/object.go
@@ -169,12 +169,12 @@ func (o *ObjectConstraint) getPropNames(rv reflect.Value) ([]string, error) {
 	var keys []string
 	switch rv.Kind() {
 	case reflect.Map:
+		if rv.Type().Key().Kind() != reflect.String {
+			return nil, errors.New("panic: can only handle maps with string keys")
+		}
 		vk := rv.MapKeys()
 		keys = make([]string, len(vk))
 		for i, v := range vk {
-			if v.Kind() != reflect.String {
-				return nil, errors.New("panic: can only handle maps with string keys")
-			}
 			keys[i] = v.String()
 		}
 	case reflect.Struct:
@@ -309,7 +309,7 @@ func (o *ObjectConstraint) setProp(rv reflect.Value, pname string, val interface
 func (o *ObjectConstraint) getProp(rv reflect.Value, pname string) reflect.Value {
 	switch rv.Kind() {
 	case reflect.Map:
-		pv := reflect.ValueOf(pname)
+		pv := reflect.ValueOf(pname).Convert(rv.Type().Key())
 		return rv.MapIndex(pv)
 	case reflect.Struct:
 		// This guy knows how to grab the value, given a name. Use that
-- 
2.43.0


From 874292db3635df403a1766ed844bdf5db1360fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:35 +0000
Subject: [PATCH 12/39] fix: apply integer default values to MaybeUint fields

---
 object.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/object.go b/object.go
index acf60e8..0006ca8 100644
--- a/object.go
+++ b/object.go
@@ -201,7 +201,9 @@ func (o *ObjectConstraint) getPropNames(rv reflect.Value) ([]string, error) {
 var (
 	maybefloatT = reflect.TypeOf(MaybeFloat{})
 	maybeintT   = reflect.TypeOf(MaybeInt{})
+	maybeuintT  = reflect.TypeOf(MaybeUint{})
 	intT        = reflect.TypeOf(int64(0))
+	uintT       = reflect.TypeOf(uint64(0))
 	floatT      = reflect.TypeOf(float64(0))
 )
 
@@ -220,6 +222,8 @@ func coerceValue(v interface{}, t reflect.Type) reflect.Value {
 		t = floatT
 	case t == maybeintT:
 		t = intT
+	case t == maybeuintT:
+		t = uintT
 	}
 
 	// a number is convertible to a string in Go, but it's not what it looks like
-- 
2.43.0


From 1571bb5419d81a346299704eb9858d432a695392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:51 +0000
Subject: [PATCH 13/39] fix: mark MaybeTime as valid when it is decoded from
 JSON

---
 internal/cmd/genmaybe/genmaybe.go | 3 +--
 maybe.go                          | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/internal/cmd/genmaybe/genmaybe.go b/internal/cmd/genmaybe/genmaybe.go
index 679237b..bdab972 100644
--- a/internal/cmd/genmaybe/genmaybe.go
+++ b/internal/cmd/genmaybe/genmaybe.go
@@ -225,8 +225,7 @@ func genMaybe(types map[string]string, typenames []string, fn string) {
 			buf.WriteString("\nif err != nil {")
 			buf.WriteString("\n	return err")
 			buf.WriteString("\n}")
-			buf.WriteString("\nv.Time = t")
-			buf.WriteString("\nreturn nil")
+			buf.WriteString("\nreturn v.Set(t)")
 			buf.WriteString("\n}")
 		} else {
 			fmt.Fprintf(&buf, "\n\nfunc (v Maybe%s) MarshalJSON() ([]byte, error) {", t)
diff --git a/maybe.go b/maybe.go
index 6006278..a187011 100644
--- a/maybe.go
+++ b/maybe.go
@@ -242,8 +242,7 @@ func (v *MaybeTime) UnmarshalJSON(data []byte) error {
 	if err != nil {
 		return err
 	}
-	v.Time = t
-	return nil
+	return v.Set(t)
 }
 
 type MaybeUint struct {
-- 
2.43.0


From cbac98fa888224d2b6441ff0685bb37e2a445eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:52 +0000
Subject: [PATCH 14/39] fix: lock the reference map while counting its entries

---
 reference.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/reference.go b/reference.go
index 937eb9a..100e8ba 100644
--- a/reference.go
+++ b/reference.go
@@ -21,7 +21,10 @@ type ConstraintMap struct {
 }
 
 // Len returns the number of references stored in this ConstraintMap
-func (cm ConstraintMap) Len() int {
+func (cm *ConstraintMap) Len() int {
+	cm.lock.Lock()
+	defer cm.lock.Unlock()
+
 	return len(cm.refmap())
 }
 
-- 
2.43.0


From a2ab57d9bf0b31414680ba8cd66dc33c8b3a2ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:55 +0000
Subject: [PATCH 15/39] fix: honour not, allOf, anyOf and oneOf that appear in
 the same schema

---
 builder/builder.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/builder/builder.go b/builder/builder.go
index 2172597..a5aec05 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -165,8 +165,7 @@ func buildFromSchema(ctx *buildctx, s *schema.Schema) (jsval.Constraint, error)
 
 	ct := jsval.All()
 
-	switch {
-	case s.Not != nil:
+	if s.Not != nil {
 		if pdebug.Enabled {
 			pdebug.Printf("Not constraint")
 		}
@@ -175,7 +174,9 @@ func buildFromSchema(ctx *buildctx, s *schema.Schema) (jsval.Constraint, error)
 			return nil, err
 		}
 		ct.Add(jsval.Not(c1))
-	case len(s.AllOf) > 0:
+	}
+
+	if len(s.AllOf) > 0 {
 		if pdebug.Enabled {
 			pdebug.Printf("AllOf constraint")
 		}
@@ -188,7 +189,9 @@ func buildFromSchema(ctx *buildctx, s *schema.Schema) (jsval.Constraint, error)
 			ac.Add(c1)
 		}
 		ct.Add(ac.Reduce())
-	case len(s.AnyOf) > 0:
+	}
+
+	if len(s.AnyOf) > 0 {
 		if pdebug.Enabled {
 			pdebug.Printf("AnyOf constraint")
 		}
@@ -201,7 +204,9 @@ func buildFromSchema(ctx *buildctx, s *schema.Schema) (jsval.Constraint, error)
 			ac.Add(c1)
 		}
 		ct.Add(ac.Reduce())
-	case len(s.OneOf) > 0:
+	}
+
+	if len(s.OneOf) > 0 {
 		if pdebug.Enabled {
 			pdebug.Printf("OneOf constraint")
 		}
-- 
2.43.0


From d6d5f4acae5af008f6571206b86fcf53aee366ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:55 +0000
Subject: [PATCH 16/39] fix: compare numbers with the values of an enumeration,
 not with the list

---
 builder/number.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/builder/number.go b/builder/number.go
index 6dedb57..cb455ac 100644
--- a/builder/number.go
+++ b/builder/number.go
@@ -69,7 +69,7 @@ func buildNumberConstraint(ctx *buildctx, nc *jsval.NumberConstraint, s *schema.
 	}
 
 	if lst := s.Enum; len(lst) > 0 {
-		nc.Enum(lst)
+		nc.Enum(lst...)
 	}
 
 	if v := s.Default; v != nil {
-- 
2.43.0


From fd924a4c5cf75f819b68de3dbd9592797410badf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:56 +0000
Subject: [PATCH 17/39] fix: compare values that are lists or objects with an
 enumeration without panicking

---
 enum.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/enum.go b/enum.go
index 097fefd..7ea2065 100644
--- a/enum.go
+++ b/enum.go
@@ -2,6 +2,7 @@ package jsval
 
 import (
 	"errors"
+	"reflect"
 
 	"github.com/lestrrat-go/pdebug"
 )
@@ -24,7 +25,7 @@ func (c *EnumConstraint) Validate(v interface{}) (err error) {
 		defer g.End()
 	}
 	for _, e := range c.enums {
-		if e == v {
+		if reflect.DeepEqual(e, v) {
 			return nil
 		}
 	}
-- 
2.43.0


From 0e8829076aba0a8f24cc0cb4e68b5df1e1d96e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:56 +0000
Subject: [PATCH 18/39] fix: enforce enumerations of booleans, lists, objects
 and null

---
 builder/builder.go | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/builder/builder.go b/builder/builder.go
index a5aec05..0db1e32 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -279,6 +279,14 @@ func buildFromSchema(ctx *buildctx, s *schema.Schema) (jsval.Constraint, error)
 			default:
 				return nil, errors.New("unknown type: " + st.String())
 			}
+
+			// String and number constraints have enumerations of their own
+			switch st {
+			case schema.BooleanType, schema.ArrayType, schema.ObjectType, schema.NullType:
+				if len(s.Enum) > 0 {
+					c = jsval.All().Add(c).Add(jsval.Enum(s.Enum...))
+				}
+			}
 			tct.Add(c)
 		}
 		ct.Add(tct.Reduce())
@@ -335,6 +343,13 @@ func guessSchemaType(s *schema.Schema) schema.PrimitiveTypes {
 		sts = append(sts, schema.BooleanType)
 	}
 
+	if len(sts) > 0 && schemaLooksLikeNull(s) {
+		if pdebug.Enabled {
+			pdebug.Printf("Looks like it could be null...")
+		}
+		sts = append(sts, schema.NullType)
+	}
+
 	if pdebug.Enabled {
 		pdebug.Printf("Guessed types: %#v", sts)
 	}
@@ -508,4 +523,14 @@ func schemaLooksLikeBool(s *schema.Schema) bool {
 	}
 
 	return false
-}
\ No newline at end of file
+}
+
+func schemaLooksLikeNull(s *schema.Schema) bool {
+	for _, v := range s.Enum {
+		if v == nil {
+			return true
+		}
+	}
+
+	return false
+}
-- 
2.43.0


From a2615083c09b3b843ca7439a616b7d13b790ff6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:09 +0000
Subject: [PATCH 19/39] fix: report references that do not refer to a schema
 instead of panicking

---
 builder/builder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/builder/builder.go b/builder/builder.go
index 0db1e32..88ebf44 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -139,6 +139,10 @@ func compileReferences(ctx *buildctx, r *jsref.Resolver, v *jsval.JSVal, ref str
 		}
 	}
 
+	if s1 == nil {
+		return errors.New("reference '" + ref + "' does not refer to a schema")
+	}
+
 	c1, err := buildFromSchema(ctx, s1)
 	if err != nil {
 		return err
-- 
2.43.0


From 84e1b18c138fd4da10b95115bdb813b38fb65eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:36 +0000
Subject: [PATCH 20/39] fix: write generated code verbatim, without treating it
 as a format string

---
 generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator.go b/generator.go
index 47d5e17..ac47b1c 100644
--- a/generator.go
+++ b/generator.go
@@ -228,7 +228,7 @@ func generateCode(ctx *genctx, out io.Writer, c interface {
 
 	s := buf.String()
 	s = strings.TrimSuffix(s, ".\n")
-	fmt.Fprintf(out, s)
+	fmt.Fprint(out, s)
 
 	return nil
 }
-- 
2.43.0


From 96d654146588d172de7c0ca34f2948a65f875611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:38 +0000
Subject: [PATCH 21/39] fix: generate code that compiles for "not" constraints

---
 generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator.go b/generator.go
index ac47b1c..12c7bb4 100644
--- a/generator.go
+++ b/generator.go
@@ -521,6 +521,6 @@ func generateNotCode(ctx *genctx, out io.Writer, c *NotConstraint) error {
 	if err := generateCode(ctx, out, c.child); err != nil {
 		return err
 	}
-	fmt.Fprint(out, "\n)")
+	fmt.Fprint(out, ",\n)")
 	return nil
 }
-- 
2.43.0


From b356d675a31a935c5d4090b40830407993c39b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:39 +0000
Subject: [PATCH 22/39] fix: report errors of the writer that generated code is
 written to

---
 generator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/generator.go b/generator.go
index 12c7bb4..2378144 100644
--- a/generator.go
+++ b/generator.go
@@ -113,8 +113,8 @@ func (g *Generator) Process(out io.Writer, validators ...*JSVal) error {
 		os.Stderr.Write(buf.Bytes())
 		return err
 	}
-	out.Write(fsrc)
-	return nil
+	_, err = out.Write(fsrc)
+	return err
 }
 
 type genctx struct {
-- 
2.43.0


From 0e4a4c5ea2376840d6e5ad5249085f6e40bd165c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:40 +0000
Subject: [PATCH 23/39] fix: do not sort the list of validators that belongs to
 the caller

---
 generator.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/generator.go b/generator.go
index 2378144..e3ddd7a 100644
--- a/generator.go
+++ b/generator.go
@@ -99,6 +99,7 @@ func (g *Generator) Process(out io.Writer, validators ...*JSVal) error {
 	}
 
 	// Now dump the validators
+	validators = append([]*JSVal(nil), validators...)
 	sort.Sort(JSValSlice(validators))
 	for _, v := range validators {
 		fmt.Fprintf(&buf, "\n%s = ", v.Name)
-- 
2.43.0


From db830ce61b8a49e88bd21e9c79738472f0e46b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:41 +0000
Subject: [PATCH 24/39] fix: pick the reference used for a root constraint in a
 fixed order

---
 generator.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/generator.go b/generator.go
index e3ddd7a..48b807e 100644
--- a/generator.go
+++ b/generator.go
@@ -144,8 +144,13 @@ func generateValidatorCode(ctx *genctx, out io.Writer, v *JSVal) error {
 		fmt.Fprintf(out, ".\nSetConstraintMap(%s)", cmname)
 	}
 
-	for rname, rc := range ctx.refs {
-		if v.root == rc {
+	rnames := make([]string, 0, len(ctx.refs))
+	for rname := range ctx.refs {
+		rnames = append(rnames, rname)
+	}
+	sort.Strings(rnames)
+	for _, rname := range rnames {
+		if v.root == ctx.refs[rname] {
 			fmt.Fprintf(out, ".\nSetRoot(%s)", ctx.refnames[rname])
 			found = true
 			break
-- 
2.43.0


From 57f0a0aa896d5afb18214943e8568596097c9ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:42 +0000
Subject: [PATCH 25/39] fix: keep the meaning of anyOf and oneOf without
 members in generated code

---
 generator.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/generator.go b/generator.go
index 48b807e..f53d173 100644
--- a/generator.go
+++ b/generator.go
@@ -246,9 +246,6 @@ func generateReferenceCode(ctx *genctx, out io.Writer, c *ReferenceConstraint) e
 }
 
 func generateComboCode(ctx *genctx, out io.Writer, name string, clist []Constraint) error {
-	if len(clist) == 0 {
-		return generateEmptyCode(ctx, out, EmptyConstraint)
-	}
 	fmt.Fprintf(out, "%s.%s()", ctx.pkgname, name)
 	for _, c1 := range clist {
 		fmt.Fprint(out, ".\nAdd(\n")
-- 
2.43.0


From c9612355ab53c119bd7c5bd7e4425cb07cbc4c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:44 +0000
Subject: [PATCH 26/39] fix: report constraints that code cannot be generated
 for

---
 generator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generator.go b/generator.go
index f53d173..4497ec1 100644
--- a/generator.go
+++ b/generator.go
@@ -230,6 +230,8 @@ func generateCode(ctx *genctx, out io.Writer, c interface {
 		if err := generateStringCode(ctx, buf, c.(*StringConstraint)); err != nil {
 			return err
 		}
+	default:
+		return fmt.Errorf("cannot generate code for %T", c)
 	}
 
 	s := buf.String()
@@ -494,6 +496,7 @@ func generateArrayCode(ctx *genctx, out io.Writer, c *ArrayConstraint) error {
 		fmt.Fprintf(out, ".\nPositionalItems([]%s.Constraint{\n", ctx.pkgname)
 		for _, ccc := range cc {
 			if err := generateCode(ctx, out, ccc); err != nil {
+				return err
 			}
 			fmt.Fprintf(out, ",\n")
 		}
-- 
2.43.0


From b03a4c8547d16f5cc9abdae20168ce75b8c3fa54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:45 +0000
Subject: [PATCH 27/39] fix: do not allow additional items in generated code
 when the constraint forbids them

---
 generator.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/generator.go b/generator.go
index 4497ec1..2b28d53 100644
--- a/generator.go
+++ b/generator.go
@@ -490,6 +490,8 @@ func generateArrayCode(ctx *genctx, out io.Writer, c *ArrayConstraint) error {
 			return err
 		}
 		fmt.Fprintf(out, ",\n)")
+	} else {
+		fmt.Fprint(out, ".\nAdditionalItems(nil)")
 	}
 
 	if cc := c.positionalItems; len(cc) > 0 {
-- 
2.43.0


From 3037fa83b98d8be14aa3945663f4a42eedda99b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:46 +0000
Subject: [PATCH 28/39] fix: generate code for minProperties, maxProperties and
 schema dependencies

---
 generator.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/generator.go b/generator.go
index 2b28d53..ab53238 100644
--- a/generator.go
+++ b/generator.go
@@ -470,6 +470,29 @@ func generateObjectCode(ctx *genctx, out io.Writer, c *ObjectConstraint) error {
 		}
 	}
 
+	if m := c.schemadeps; len(m) > 0 {
+		keys := make([]string, 0, len(m))
+		for from := range m {
+			keys = append(keys, from)
+		}
+		sort.Strings(keys)
+
+		for _, from := range keys {
+			fmt.Fprintf(out, ".\nSchemaDependency(\n%s,\n", strconv.Quote(from))
+			if err := generateCode(ctx, out, m[from]); err != nil {
+				return err
+			}
+			fmt.Fprint(out, ",\n)")
+		}
+	}
+
+	if c.minProperties > -1 {
+		fmt.Fprintf(out, ".\nMinProperties(%d)", c.minProperties)
+	}
+	if c.maxProperties > -1 {
+		fmt.Fprintf(out, ".\nMaxProperties(%d)", c.maxProperties)
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 96150b1b818431de68aa284294ede9d35edf8a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:48 +0000
Subject: [PATCH 29/39] fix: keep the integer check when multipleOf or enum is
 set on an integer constraint

---
 number.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/number.go b/number.go
index 872d3c2..63ebf29 100644
--- a/number.go
+++ b/number.go
@@ -176,6 +176,19 @@ func (ic *IntegerConstraint) Minimum(n float64) *IntegerConstraint {
 	return ic
 }
 
+// MultipleOf specifies the number that the given value must be
+// divisible by.
+func (ic *IntegerConstraint) MultipleOf(n float64) *IntegerConstraint {
+	ic.NumberConstraint.MultipleOf(n)
+	return ic
+}
+
+// Enum specifies the values that this constraint can have
+func (ic *IntegerConstraint) Enum(l ...interface{}) *IntegerConstraint {
+	ic.NumberConstraint.Enum(l...)
+	return ic
+}
+
 // ExclusiveMinimum specifies if the minimum value should be considered
 // a valid value
 func (ic *IntegerConstraint) ExclusiveMinimum(b bool) *IntegerConstraint {
-- 
2.43.0


From 481dd1d8bc5d8fa4b5965d6d878d10aaabc503f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:49 +0000
Subject: [PATCH 30/39] fix: do not round numeric bounds in generated code

---
 generator.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/generator.go b/generator.go
index ab53238..ee9df3d 100644
--- a/generator.go
+++ b/generator.go
@@ -275,7 +275,7 @@ func generateIntegerCode(ctx *genctx, out io.Writer, c *IntegerConstraint) error
 	fmt.Fprintf(out, "%s.Integer()", ctx.pkgname)
 
 	if c.applyMinimum {
-		fmt.Fprintf(out, ".Minimum(%d)", int(c.minimum))
+		fmt.Fprintf(out, ".Minimum(%v)", c.minimum)
 	}
 
 	if c.exclusiveMinimum {
@@ -283,7 +283,7 @@ func generateIntegerCode(ctx *genctx, out io.Writer, c *IntegerConstraint) error
 	}
 
 	if c.applyMaximum {
-		fmt.Fprintf(out, ".Maximum(%d)", int(c.maximum))
+		fmt.Fprintf(out, ".Maximum(%v)", c.maximum)
 	}
 
 	if c.exclusiveMaximum {
@@ -301,7 +301,7 @@ func generateNumberCode(ctx *genctx, out io.Writer, c *NumberConstraint) error {
 	fmt.Fprintf(out, "%s.Number()", ctx.pkgname)
 
 	if c.applyMinimum {
-		fmt.Fprintf(out, ".Minimum(%f)", c.minimum)
+		fmt.Fprintf(out, ".Minimum(%v)", c.minimum)
 	}
 
 	if c.exclusiveMinimum {
@@ -309,7 +309,7 @@ func generateNumberCode(ctx *genctx, out io.Writer, c *NumberConstraint) error {
 	}
 
 	if c.applyMaximum {
-		fmt.Fprintf(out, ".Maximum(%f)", c.maximum)
+		fmt.Fprintf(out, ".Maximum(%v)", c.maximum)
 	}
 
 	if c.exclusiveMaximum {
-- 
2.43.0


From 6306c48ea999c69af41bf95cf95910efd915f61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:51 +0000
Subject: [PATCH 31/39] fix: generate code for every kind of enumerated value,
 without changing its type

---
 generator.go | 65 ++++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 53 insertions(+), 12 deletions(-)

diff --git a/generator.go b/generator.go
index ee9df3d..485b3bb 100644
--- a/generator.go
+++ b/generator.go
@@ -7,7 +7,6 @@ import (
 	"go/format"
 	"io"
 	"os"
-	"reflect"
 	"sort"
 	"strconv"
 	"strings"
@@ -230,6 +229,12 @@ func generateCode(ctx *genctx, out io.Writer, c interface {
 		if err := generateStringCode(ctx, buf, c.(*StringConstraint)); err != nil {
 			return err
 		}
+	case *EnumConstraint:
+		fmt.Fprintf(buf, "%s.Enum(", ctx.pkgname)
+		if err := generateEnumCode(ctx, buf, c.(*EnumConstraint)); err != nil {
+			return err
+		}
+		fmt.Fprint(buf, ")")
 	default:
 		return fmt.Errorf("cannot generate code for %T", c)
 	}
@@ -327,16 +332,8 @@ func generateEnumCode(ctx *genctx, out io.Writer, c *EnumConstraint) error {
 	fmt.Fprintf(out, "")
 	l := len(c.enums)
 	for i, v := range c.enums {
-		rv := reflect.ValueOf(v)
-		switch rv.Kind() {
-		case reflect.String:
-			fmt.Fprintf(out, "%s", strconv.Quote(rv.String()))
-		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-			fmt.Fprintf(out, "%d", rv.Int())
-		case reflect.Float32, reflect.Float64:
-			fmt.Fprintf(out, "%f", rv.Float())
-		default:
-			return fmt.Errorf("failed to stringify enum value %#v", rv.Interface())
+		if err := generateValueCode(out, v); err != nil {
+			return err
 		}
 		if i < l-1 {
 			fmt.Fprintf(out, ", ")
@@ -346,6 +343,50 @@ func generateEnumCode(ctx *genctx, out io.Writer, c *EnumConstraint) error {
 	return nil
 }
 
+// generateValueCode writes an expression whose value and type are those of v
+func generateValueCode(out io.Writer, v interface{}) error {
+	switch v := v.(type) {
+	case nil:
+		fmt.Fprint(out, "nil")
+	case bool:
+		fmt.Fprintf(out, "%t", v)
+	case string:
+		fmt.Fprint(out, strconv.Quote(v))
+	case float32, float64:
+		fmt.Fprintf(out, "%T(%v)", v, v)
+	case int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64:
+		fmt.Fprintf(out, "%T(%d)", v, v)
+	case []interface{}:
+		fmt.Fprint(out, "[]interface{}{")
+		for _, e := range v {
+			if err := generateValueCode(out, e); err != nil {
+				return err
+			}
+			fmt.Fprint(out, ", ")
+		}
+		fmt.Fprint(out, "}")
+	case map[string]interface{}:
+		keys := make([]string, 0, len(v))
+		for k := range v {
+			keys = append(keys, k)
+		}
+		sort.Strings(keys)
+
+		fmt.Fprint(out, "map[string]interface{}{")
+		for _, k := range keys {
+			fmt.Fprintf(out, "%s: ", strconv.Quote(k))
+			if err := generateValueCode(out, v[k]); err != nil {
+				return err
+			}
+			fmt.Fprint(out, ", ")
+		}
+		fmt.Fprint(out, "}")
+	default:
+		return fmt.Errorf("failed to stringify value %#v", v)
+	}
+	return nil
+}
+
 func generateStringCode(ctx *genctx, out io.Writer, c *StringConstraint) error {
 	fmt.Fprintf(out, "%s.String()", ctx.pkgname)
 
@@ -370,7 +411,7 @@ func generateStringCode(ctx *genctx, out io.Writer, c *StringConstraint) error {
 		if err := generateEnumCode(ctx, out, enum); err != nil {
 			return err
 		}
-		fmt.Fprintf(out, ",)")
+		fmt.Fprintf(out, ")")
 	}
 
 	if c.HasDefault() {
-- 
2.43.0


From a88b11bb338124ba7f470911cf5b31a71d31a7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:52 +0000
Subject: [PATCH 32/39] fix: keep the value and the type of defaults in
 generated code

---
 generator.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/generator.go b/generator.go
index 485b3bb..9710152 100644
--- a/generator.go
+++ b/generator.go
@@ -296,7 +296,11 @@ func generateIntegerCode(ctx *genctx, out io.Writer, c *IntegerConstraint) error
 	}
 
 	if c.HasDefault() {
-		fmt.Fprintf(out, ".Default(%d)", int(c.DefaultValue().(float64)))
+		fmt.Fprint(out, ".Default(")
+		if err := generateValueCode(out, c.DefaultValue()); err != nil {
+			return err
+		}
+		fmt.Fprint(out, ")")
 	}
 
 	return nil
@@ -322,7 +326,11 @@ func generateNumberCode(ctx *genctx, out io.Writer, c *NumberConstraint) error {
 	}
 
 	if c.HasDefault() {
-		fmt.Fprintf(out, ".Default(%f)", c.DefaultValue())
+		fmt.Fprint(out, ".Default(")
+		if err := generateValueCode(out, c.DefaultValue()); err != nil {
+			return err
+		}
+		fmt.Fprint(out, ")")
 	}
 
 	return nil
@@ -583,7 +591,11 @@ func generateArrayCode(ctx *genctx, out io.Writer, c *ArrayConstraint) error {
 func generateBooleanCode(ctx *genctx, out io.Writer, c *BooleanConstraint) error {
 	fmt.Fprintf(out, "%s.Boolean()", ctx.pkgname)
 	if c.HasDefault() {
-		fmt.Fprintf(out, ".Default(%t)", c.DefaultValue())
+		fmt.Fprint(out, ".Default(")
+		if err := generateValueCode(out, c.DefaultValue()); err != nil {
+			return err
+		}
+		fmt.Fprint(out, ")")
 	}
 	return nil
 }
-- 
2.43.0


From 2a23fa1f5aa6e181038b9e4e5e2ef8028686920c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:53 +0000
Subject: [PATCH 33/39] fix: generate code for multipleOf and enum of numeric
 constraints

---
 generator.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/generator.go b/generator.go
index 9710152..9332396 100644
--- a/generator.go
+++ b/generator.go
@@ -295,6 +295,18 @@ func generateIntegerCode(ctx *genctx, out io.Writer, c *IntegerConstraint) error
 		fmt.Fprintf(out, ".ExclusiveMaximum(true)")
 	}
 
+	if c.applyMultipleOf {
+		fmt.Fprintf(out, ".MultipleOf(%v)", c.multipleOf)
+	}
+
+	if enum := c.enums; enum != nil {
+		fmt.Fprintf(out, ".Enum(")
+		if err := generateEnumCode(ctx, out, enum); err != nil {
+			return err
+		}
+		fmt.Fprintf(out, ")")
+	}
+
 	if c.HasDefault() {
 		fmt.Fprint(out, ".Default(")
 		if err := generateValueCode(out, c.DefaultValue()); err != nil {
@@ -325,6 +337,18 @@ func generateNumberCode(ctx *genctx, out io.Writer, c *NumberConstraint) error {
 		fmt.Fprintf(out, ".ExclusiveMaximum(true)")
 	}
 
+	if c.applyMultipleOf {
+		fmt.Fprintf(out, ".MultipleOf(%v)", c.multipleOf)
+	}
+
+	if enum := c.enums; enum != nil {
+		fmt.Fprintf(out, ".Enum(")
+		if err := generateEnumCode(ctx, out, enum); err != nil {
+			return err
+		}
+		fmt.Fprintf(out, ")")
+	}
+
 	if c.HasDefault() {
 		fmt.Fprint(out, ".Default(")
 		if err := generateValueCode(out, c.DefaultValue()); err != nil {
-- 
2.43.0


From dc2b63fa6393c8e25e5b7e777e79d2f4e861662a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:38 +0000
Subject: [PATCH 34/39] fix: do not read patternProperties while they are being
 modified

---
 object.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/object.go b/object.go
index 0006ca8..3e21930 100644
--- a/object.go
+++ b/object.go
@@ -483,7 +483,14 @@ func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 	// A property may match several patterns, in which case it must be valid
 	// against each of them
 	pmatched := map[string]struct{}{}
+	patdefs := make(map[*regexp.Regexp]Constraint)
+	o.proplock.Lock()
 	for pat, c := range o.patternProperties {
+		patdefs[pat] = c
+	}
+	o.proplock.Unlock()
+
+	for pat, c := range patdefs {
 		if pdebug.Enabled {
 			pdebug.Printf("Checking patternProperty '%s'", pat.String())
 		}
-- 
2.43.0


From cdc635413f67467dbf74908105e5762439ac7c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:13 +0000
Subject: [PATCH 35/39] fix: report a request body that cannot be read

---
 server/server.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/server/server.go b/server/server.go
index e0e96b4..a25aa90 100644
--- a/server/server.go
+++ b/server/server.go
@@ -163,7 +163,12 @@ func (s *Server) httpGenerateValidator(ctx context.Context, w http.ResponseWrite
 	resp := make(map[string]interface{})
 
 	buf := bytes.Buffer{}
-	io.Copy(&buf, r.Body)
+	if _, err := io.Copy(&buf, r.Body); err != nil {
+		resp["success"] = false
+		resp["message"] = err.Error()
+		json.NewEncoder(w).Encode(resp)
+		return
+	}
 
 	sc, err := schema.Read(bytes.NewReader(buf.Bytes()))
 	if err != nil {
-- 
2.43.0


From 992e78ce6cc44095fdb8b9f4af08cd140bcd1f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:41 +0000
Subject: [PATCH 36/39] fix: keep the default of a schema that has an
 enumeration or combinations next to its type

---
 combinations.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/combinations.go b/combinations.go
index e2cc34a..b55cb30 100644
--- a/combinations.go
+++ b/combinations.go
@@ -76,6 +76,28 @@ func (c *AllConstraint) Add(c2 Constraint) *AllConstraint {
 	return c
 }
 
+// HasDefault returns true if one of the child Constraints
+// has a default value
+func (c *AllConstraint) HasDefault() bool {
+	for _, celem := range c.constraints {
+		if celem.HasDefault() {
+			return true
+		}
+	}
+	return false
+}
+
+// DefaultValue returns the default value of the first child
+// Constraint that has one
+func (c *AllConstraint) DefaultValue() interface{} {
+	for _, celem := range c.constraints {
+		if celem.HasDefault() {
+			return celem.DefaultValue()
+		}
+	}
+	return nil
+}
+
 // Validate validates the value against the input value.
 // For AllConstraints, it will only return success if
 // all of the child Constraints succeeded.
-- 
2.43.0


From 4128a147c19a411ceab34fd22f7d404499367dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:42 +0000
Subject: [PATCH 37/39] fix: judge a null that GetPropValue returns for a
 pattern or additional property instead of panicking

---
 object.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/object.go b/object.go
index 3e21930..edb332a 100644
--- a/object.go
+++ b/object.go
@@ -344,14 +344,14 @@ func (o *ObjectConstraint) getProp(rv reflect.Value, pname string) reflect.Value
 
 // unwrapMaybe returns the value held by an initialized Maybe value. Other
 // values are returned as they are
-func unwrapMaybe(pval reflect.Value) reflect.Value {
-	if pval == zeroval {
-		return pval
+func unwrapMaybe(pval reflect.Value) interface{} {
+	if pval == zeroval { // null, from a GetPropValue method
+		return nil
 	}
 	if pval.Type().Implements(maybeif) || reflect.PtrTo(pval.Type()).Implements(maybeif) {
-		return pval.MethodByName("Value").Call(nil)[0]
+		return pval.MethodByName("Value").Call(nil)[0].Interface()
 	}
-	return pval
+	return pval.Interface()
 }
 
 // Validate validates the given value against this ObjectConstraint
@@ -510,7 +510,7 @@ func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 
 			pmatched[pname] = struct{}{}
 			pseen[pname] = struct{}{}
-			if err := c.Validate(pval.Interface()); err != nil {
+			if err := c.Validate(pval); err != nil {
 				return errors.New("object property '" + pname + "' validation failed: " + err.Error())
 			}
 		}
@@ -528,7 +528,7 @@ func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 		for pname := range premain {
 			pseen[pname] = struct{}{}
 			pval := unwrapMaybe(o.getProp(rv, pname))
-			if err := c.Validate(pval.Interface()); err != nil {
+			if err := c.Validate(pval); err != nil {
 				return errors.New("object property for '" + pname + "' validation failed: " + err.Error())
 			}
 		}
-- 
2.43.0


From 66fe7d8afeef4ccfe7d394c73291ae431a923a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:23 +0000
Subject: [PATCH 38/39] fix: treat embedded fields that are no structs as
 ordinary fields instead of panicking

---
 structinfo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structinfo.go b/structinfo.go
index e6e40dc..83441b1 100644
--- a/structinfo.go
+++ b/structinfo.go
@@ -115,7 +115,7 @@ func extract(t reflect.Type) map[string]PropInfo {
 	props := make(map[string]PropInfo)
 	for i := 0; i < t.NumField(); i++ {
 		fv := t.Field(i)
-		if fv.Anonymous {
+		if fv.Anonymous && fv.Type.Kind() == reflect.Struct {
 			info := extract(fv.Type)
 			for k, v := range info {
 				props[k] = v
-- 
2.43.0


From 27fecf893c5b1e7c387b027ee07c804182f091cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:29 +0000
Subject: [PATCH 39/39] fix: enforce dependencies of schemas that declare no
 type

---
 builder/builder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/builder/builder.go b/builder/builder.go
index 88ebf44..eaa30b2 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -390,6 +390,10 @@ func schemaLooksLikeObject(s *schema.Schema) bool {
 		return true
 	}
 
+	if len(s.Dependencies.Names) > 0 || len(s.Dependencies.Schemas) > 0 {
+		return true
+	}
+
 	for _, v := range s.Enum {
 		rv := reflect.ValueOf(v)
 		switch rv.Kind() {
-- 
2.43.0

