From 4dd3fcad4539b2c0d3108a57e06bbe79a2de2df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:27 +0000
Subject: [PATCH 01/42] fix: handle null values in the TSON parser, writer and
 conversions

---
 internal/tson/serialization.go | 4 ++++
 internal/tson/tson.go          | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/internal/tson/serialization.go b/internal/tson/serialization.go
index 9f7f10d..715e5a2 100644
--- a/internal/tson/serialization.go
+++ b/internal/tson/serialization.go
@@ -48,6 +48,8 @@ func Marshal(t Tson) ([]byte, error) {
 // array: 	element inside an array (timestamp is printed before the primitive).
 func marshalTson(v Value, ctx int) (string, error) {
 	switch val := v.(type) {
+	case nil:
+		return "null", nil
 	case Object:
 		return marshalObject(val)
 	case Array:
@@ -449,6 +451,8 @@ func Unmarshal(data []byte, t *Tson) (err error) {
 // wrapIfPrimitive wraps a raw primitive with a timestamp.
 func wrapIfPrimitive(v any, timestamp int64) Value {
 	switch val := v.(type) {
+	case nil:
+		return nil
 	case string:
 		return Leaf[string]{Value: val, Timestamp: timestamp}
 	case float64:
diff --git a/internal/tson/tson.go b/internal/tson/tson.go
index d41dc9a..2014b0e 100644
--- a/internal/tson/tson.go
+++ b/internal/tson/tson.go
@@ -153,6 +153,8 @@ func GetLatestTimestamp(t Tson) int64 {
 	}
 
 	switch v := t.(type) {
+	case nil: // null has no timestamp
+		return DefaultTimestamp
 	case Leaf[string]:
 		return v.Timestamp
 	case Leaf[float64]:
@@ -217,6 +219,8 @@ func FromCompatibleTsonBytes(data []byte, t *Tson) error {
 	var convert func(v any) Value
 	convert = func(v any) Value {
 		switch t := v.(type) {
+		case nil:
+			return nil
 		case map[string]any:
 			if isLeaf, leafVal, ts := checkLeaf(t); isLeaf {
 				switch leafVal.(type) {
@@ -491,6 +495,8 @@ func ToCompatibleTsonBytesSorted(t Tson) ([]byte, error) {
 // toSortedInterface recursively converts TSON -> map/slice with sorted keys.
 func toSortedInterface(t Tson) (any, error) {
 	switch val := t.(type) {
+	case nil:
+		return nil, nil
 	case Leaf[string]:
 		return map[string]any{"value": val.Value, "timestamp": val.Timestamp}, nil
 	case Leaf[float64]:
-- 
2.43.0


From 0c4af4a13acb33ff97f1d8b62d3befd7d6e217ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:29 +0000
Subject: [PATCH 02/42] fix: write strings with JSON escapes and parse \uXXXX,
 so strings survive a round trip

---
 internal/tson/serialization.go | 71 +++++++++++++++++++++++++++-------
 1 file changed, 57 insertions(+), 14 deletions(-)

diff --git a/internal/tson/serialization.go b/internal/tson/serialization.go
index 715e5a2..523c064 100644
--- a/internal/tson/serialization.go
+++ b/internal/tson/serialization.go
@@ -10,10 +10,13 @@
 package tson
 
 import (
+	"bytes"
 	"encoding/json"
 	"fmt"
 	"strconv"
 	"strings"
+	"unicode/utf16"
+	"unicode/utf8"
 )
 
 // ToCompatibleTsonString converts TSON to a string.
@@ -58,17 +61,17 @@ func marshalTson(v Value, ctx int) (string, error) {
 		if ctx == array {
 			// In array, prefix timestamp before primitive.
 			if val.Timestamp >= 0 { // Timestamp is positive (exists)
-				return fmt.Sprintf("<%d> %q", val.Timestamp, val.Value), nil
+				return fmt.Sprintf("<%d> %s", val.Timestamp, quote(val.Value)), nil
 			}
-			return fmt.Sprintf("<> %q", val.Value), nil // No timestamp
+			return fmt.Sprintf("<> %s", quote(val.Value)), nil // No timestamp
 		} else if ctx == object {
 			// In object, the timestamp is printed with the key.
-			return fmt.Sprintf("%q", val.Value), nil
+			return quote(val.Value), nil
 		} else { // top-level
 			if val.Timestamp >= 0 {
-				return fmt.Sprintf("%q <%d>", val.Value, val.Timestamp), nil
+				return fmt.Sprintf("%s <%d>", quote(val.Value), val.Timestamp), nil
 			}
-			return fmt.Sprintf("%q <>", val.Value), nil
+			return fmt.Sprintf("%s <>", quote(val.Value)), nil
 		}
 	case Leaf[float64]:
 		if ctx == array {
@@ -116,7 +119,7 @@ func marshalObject(obj Object) (string, error) {
 		} else {
 			first = false
 		}
-		s.WriteString(fmt.Sprintf("%q", key))
+		s.WriteString(quote(key))
 		switch leaf := value.(type) {
 		case Leaf[string]:
 			if leaf.Timestamp >= 0 {
@@ -194,7 +197,7 @@ func marshalIndentValue(v any, currentIndent, indent string, ctx int) (string, e
 	case float64:
 		return fmt.Sprintf("%.f", t), nil
 	case string:
-		return strconv.Quote(t), nil
+		return quote(t), nil
 
 	case map[string]any:
 		if isLeaf, leafVal, ts := checkLeaf(t); isLeaf {
@@ -230,7 +233,7 @@ func marshalIndentValue(v any, currentIndent, indent string, ctx int) (string, e
 				s.WriteString(",\n")
 			}
 			first = false
-			keyStr := strconv.Quote(key)
+			keyStr := quote(key)
 			if m, ok := val.(map[string]any); ok {
 				if isLeaf, leafVal, ts := checkLeaf(m); isLeaf {
 					primStr, err := formatPrimitive(leafVal)
@@ -296,7 +299,7 @@ func marshalIndentValue(v any, currentIndent, indent string, ctx int) (string, e
 				s.WriteString(",\n")
 			}
 			first = false
-			keyStr := strconv.Quote(key)
+			keyStr := quote(key)
 			// Tson의 값이 Leaf라면, key 뒤에 timestamp를 붙여 출력
 			switch leaf := val.(type) {
 			case Leaf[string]:
@@ -304,7 +307,7 @@ func marshalIndentValue(v any, currentIndent, indent string, ctx int) (string, e
 				if leaf.Timestamp >= 0 {
 					s.WriteString(strconv.FormatInt(leaf.Timestamp, 10))
 				}
-				s.WriteString(">: " + strconv.Quote(leaf.Value))
+				s.WriteString(">: " + quote(leaf.Value))
 			case Leaf[float64]:
 				s.WriteString(currentIndent + indent + keyStr + " <")
 				if leaf.Timestamp >= 0 {
@@ -341,9 +344,9 @@ func marshalIndentValue(v any, currentIndent, indent string, ctx int) (string, e
 			case Leaf[string]:
 				s.WriteString(currentIndent + indent)
 				if leaf.Timestamp >= 0 {
-					s.WriteString(fmt.Sprintf("<%d> %s", leaf.Timestamp, strconv.Quote(leaf.Value)))
+					s.WriteString(fmt.Sprintf("<%d> %s", leaf.Timestamp, quote(leaf.Value)))
 				} else {
-					s.WriteString(fmt.Sprintf("<> %s", strconv.Quote(leaf.Value)))
+					s.WriteString(fmt.Sprintf("<> %s", quote(leaf.Value)))
 				}
 			case Leaf[float64]:
 				s.WriteString(currentIndent + indent)
@@ -371,7 +374,7 @@ func marshalIndentValue(v any, currentIndent, indent string, ctx int) (string, e
 		return s.String(), nil
 
 	case Leaf[string]:
-		primStr := strconv.Quote(t.Value)
+		primStr := quote(t.Value)
 		if ctx == array {
 			if t.Timestamp >= 0 {
 				return fmt.Sprintf("<%d> %s", t.Timestamp, primStr), nil
@@ -422,7 +425,7 @@ func marshalIndentValue(v any, currentIndent, indent string, ctx int) (string, e
 func formatPrimitive(v any) (string, error) {
 	switch t := v.(type) {
 	case string:
-		return strconv.Quote(t), nil
+		return quote(t), nil
 	case float64, int, int64, uint, uint64:
 		return fmt.Sprintf("%v", t), nil
 	case bool:
@@ -432,6 +435,16 @@ func formatPrimitive(v any) (string, error) {
 	}
 }
 
+// quote returns s as a JSON string literal. Unlike strconv.Quote, it only
+// uses escape sequences which parseString understands.
+func quote(s string) string {
+	var buf bytes.Buffer
+	enc := json.NewEncoder(&buf)
+	enc.SetEscapeHTML(false)
+	enc.Encode(s) // encoding a string to a buffer cannot fail
+	return strings.TrimSuffix(buf.String(), "\n")
+}
+
 // <<<<<<<<< Unmarshalling
 
 // Parser struct maintains the parsing state.
@@ -639,6 +652,23 @@ func (p *Parser) parseString() (string, error) {
 				result = append(result, '\r')
 			case 't':
 				result = append(result, '\t')
+			case 'u':
+				r, err := p.parseHex4()
+				if err != nil {
+					return "", err
+				}
+				if utf16.IsSurrogate(r) && p.startsWith(`\u`) { // surrogate pair
+					mark := p.pos
+					p.pos += 2
+					low, err := p.parseHex4()
+					if err != nil {
+						return "", err
+					}
+					if r = utf16.DecodeRune(r, low); r == utf8.RuneError {
+						p.pos = mark // not a pair; keep the second escape
+					}
+				}
+				result = utf8.AppendRune(result, r)
 			default:
 				return "", fmt.Errorf("invalid escape character: %c", esc)
 			}
@@ -651,6 +681,19 @@ func (p *Parser) parseString() (string, error) {
 	return "", fmt.Errorf("unterminated string")
 }
 
+// parseHex4 parses the four hexadecimal digits of a \uXXXX escape.
+func (p *Parser) parseHex4() (rune, error) {
+	if p.pos+4 > len(p.input) {
+		return 0, fmt.Errorf("unterminated escape sequence")
+	}
+	n, err := strconv.ParseUint(string(p.input[p.pos:p.pos+4]), 16, 16)
+	if err != nil {
+		return 0, fmt.Errorf("invalid unicode escape at pos %d", p.pos)
+	}
+	p.pos += 4
+	return rune(n), nil
+}
+
 // parseNumber parses a number.
 func (p *Parser) parseNumber() (float64, error) {
 	start := p.pos
-- 
2.43.0


From c6c19b35cc3289ecdc7341b081aaf0904f7e0ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:45 +0000
Subject: [PATCH 03/42] fix: parse number exponents and keep fractions of plain
 numbers when writing

---
 internal/tson/serialization.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/tson/serialization.go b/internal/tson/serialization.go
index 523c064..479ed46 100644
--- a/internal/tson/serialization.go
+++ b/internal/tson/serialization.go
@@ -195,7 +195,7 @@ func marshalIndentValue(v any, currentIndent, indent string, ctx int) (string, e
 	case bool:
 		return fmt.Sprintf("%v", t), nil
 	case float64:
-		return fmt.Sprintf("%.f", t), nil
+		return fmt.Sprintf("%v", t), nil
 	case string:
 		return quote(t), nil
 
@@ -709,6 +709,15 @@ func (p *Parser) parseNumber() (float64, error) {
 			p.pos++
 		}
 	}
+	if p.peek() == 'e' || p.peek() == 'E' { // exponent, as written for very large or small numbers
+		p.pos++
+		if p.peek() == '+' || p.peek() == '-' {
+			p.pos++
+		}
+		for p.pos < len(p.input) && p.input[p.pos] >= '0' && p.input[p.pos] <= '9' {
+			p.pos++
+		}
+	}
 	numStr := string(p.input[start:p.pos])
 	return strconv.ParseFloat(numStr, 64)
 }
-- 
2.43.0


From 5989900a0fbf46cfd67a94f8a19133a06f276442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:47 +0000
Subject: [PATCH 04/42] fix: keep the timestamp written after a value inside an
 object or array

---
 internal/tson/serialization.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tson/serialization.go b/internal/tson/serialization.go
index 479ed46..8d71a1a 100644
--- a/internal/tson/serialization.go
+++ b/internal/tson/serialization.go
@@ -771,7 +771,7 @@ func (p *Parser) parseObject() (Value, error) {
 		}
 		p.skipWhitespace()
 		// optional timestamp after key
-		var ts int64 = 0
+		var ts = DefaultTimestamp
 		if p.peek() == '<' {
 			ts, err = p.parseTimestamp()
 			if err != nil {
@@ -815,7 +815,7 @@ func (p *Parser) parseArray() (Value, error) {
 	}
 	for {
 		p.skipWhitespace()
-		var ts int64 = 0
+		var ts = DefaultTimestamp
 		if p.peek() == '<' {
 			var err error
 			ts, err = p.parseTimestamp()
-- 
2.43.0


From 8615a971b1f255923d57b589b3ca3c30b96f5778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:49 +0000
Subject: [PATCH 05/42] fix: reject trailing data after a TSON document

---
 internal/tson/serialization.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/tson/serialization.go b/internal/tson/serialization.go
index 8d71a1a..29ef5d0 100644
--- a/internal/tson/serialization.go
+++ b/internal/tson/serialization.go
@@ -457,8 +457,14 @@ type Parser struct {
 // and stores the result in the value pointed to by t.
 func Unmarshal(data []byte, t *Tson) (err error) {
 	p := &Parser{input: data, pos: 0}
-	*t, err = p.parseTson()
-	return err
+	if *t, err = p.parseTson(); err != nil {
+		return err
+	}
+	if p.skipWhitespace(); p.pos < len(p.input) {
+		*t = nil
+		return fmt.Errorf("unexpected character '%c' after the document at pos %d", p.peek(), p.pos)
+	}
+	return nil
 }
 
 // wrapIfPrimitive wraps a raw primitive with a timestamp.
-- 
2.43.0


From dd8e2e8b6b16eb945a96b0e144e59aa6316071f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:17 +0000
Subject: [PATCH 06/42] fix: limit the nesting depth of parsed documents
 instead of overflowing the stack

---
 internal/tson/serialization.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/tson/serialization.go b/internal/tson/serialization.go
index 29ef5d0..d49d036 100644
--- a/internal/tson/serialization.go
+++ b/internal/tson/serialization.go
@@ -451,8 +451,13 @@ func quote(s string) string {
 type Parser struct {
 	input []byte
 	pos   int
+	depth int // current nesting depth
 }
 
+// maxDepth limits the nesting of a document (as encoding/json does), so that
+// a hostile input cannot overflow the stack, which would end the process.
+const maxDepth = 10000
+
 // Unmarshal parses the TSON bytes with '<>' timestamp
 // and stores the result in the value pointed to by t.
 func Unmarshal(data []byte, t *Tson) (err error) {
@@ -538,6 +543,11 @@ func (p *Parser) parseTson() (Value, error) {
 
 // parseVal parses a <value> as defined in the BNF.
 func (p *Parser) parseVal() (Value, error) {
+	if p.depth++; p.depth > maxDepth {
+		return nil, fmt.Errorf("exceeded max depth at pos %d", p.pos)
+	}
+	defer func() { p.depth-- }()
+
 	p.skipWhitespace()
 	// timestamp can appear at the beginning of a value
 	// when it is an array element.
-- 
2.43.0


From fbdde728791f08218b4952d09002616101d92aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:32 +0000
Subject: [PATCH 07/42] fix: look up JSON pointers with escaped slashes, the
 empty path and dotted paths

---
 internal/tson/tson.go | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/internal/tson/tson.go b/internal/tson/tson.go
index 2014b0e..5541229 100644
--- a/internal/tson/tson.go
+++ b/internal/tson/tson.go
@@ -55,6 +55,27 @@ const DefaultTimestamp int64 = -1
 ///////// OPERATIONS
 //////////////////////////////////
 
+// Note: http://tools.ietf.org/html/rfc6901#section-4 :
+var rfc6901Decoder = strings.NewReplacer("~1", "/", "~0", "~")
+
+// SplitPath splits a path into its (decoded) segments.
+// A path beginning with "/" is a JSON pointer (RFC 6901), and the empty path
+// is the whole document. Any other path is in the dotted notation of VSS.
+func SplitPath(path string) (parts []string) {
+	if path == "" {
+		return nil
+	}
+	if strings.HasPrefix(path, "/") {
+		parts = strings.Split(path[1:], "/")
+	} else {
+		parts = strings.Split(strings.ReplaceAll(path, ".", "/"), "/")
+	}
+	for i := range parts { // Decode after splitting, so that "~1" is no separator
+		parts[i] = rfc6901Decoder.Replace(parts[i])
+	}
+	return parts
+}
+
 // GetValue returns the value of the given key from the TSON object.
 func GetValue(t Tson, path string) (v Value, err error) {
 	var getValue func(t Tson, parts []string) (Value, error)
@@ -100,10 +121,10 @@ func GetValue(t Tson, path string) (v Value, err error) {
 		}
 	}
 
-	rfc6901Decoder := strings.NewReplacer("~1", "/", "~0", "~")
-	path = rfc6901Decoder.Replace(path)
-	parts := strings.Split(path, "/")[1:]
-
+	parts := SplitPath(path)
+	if len(parts) == 0 { // The whole document
+		return t, nil
+	}
 	return getValue(t, parts)
 }
 
-- 
2.43.0


From 9501d823eaf7ab897eac7a5fd2f7783a8bb2ac22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:25 +0000
Subject: [PATCH 08/42] fix: leave the given JSON value unmodified and accept
 primitives in FromJson

---
 internal/tson/tson.go | 46 ++++++++++++++++++++-----------------------
 1 file changed, 21 insertions(+), 25 deletions(-)

diff --git a/internal/tson/tson.go b/internal/tson/tson.go
index 5541229..d9e35a2 100644
--- a/internal/tson/tson.go
+++ b/internal/tson/tson.go
@@ -351,42 +351,38 @@ func ToJson(t Tson, j *any) (err error) {
 // FromJson converts the given JSON object to a TSON.
 // NOTE: The timestamp field is added with the default(< 0) value.
 func FromJson(o any, t *Tson) (err error) {
-	var addTimestamp func(o any)
-	addTimestamp = func(o any) {
+	// addTimestamp builds a copy, as o belongs to the caller.
+	var addTimestamp func(o any) any
+	addTimestamp = func(o any) any {
 		switch value := o.(type) {
+		case string:
+			return Leaf[string]{Value: value, Timestamp: DefaultTimestamp}
+		case float64:
+			return Leaf[float64]{Value: value, Timestamp: DefaultTimestamp}
+		case bool:
+			return Leaf[bool]{Value: value, Timestamp: DefaultTimestamp}
 		case map[string]any:
+			obj := make(map[string]any, len(value))
 			for k, v := range value {
-				switch leaf := v.(type) {
-				case string:
-					value[k] = Leaf[string]{Value: leaf, Timestamp: DefaultTimestamp}
-				case float64:
-					value[k] = Leaf[float64]{Value: leaf, Timestamp: DefaultTimestamp}
-				case bool:
-					value[k] = Leaf[bool]{Value: leaf, Timestamp: DefaultTimestamp}
-				default:
-					addTimestamp(v)
-				}
+				obj[k] = addTimestamp(v)
 			}
+			return obj
 		case []any:
+			arr := make([]any, len(value))
 			for i, v := range value {
-				switch leaf := v.(type) {
-				case string:
-					value[i] = Leaf[string]{Value: leaf, Timestamp: DefaultTimestamp}
-				case float64:
-					value[i] = Leaf[float64]{Value: leaf, Timestamp: DefaultTimestamp}
-				case bool:
-					value[i] = Leaf[bool]{Value: leaf, Timestamp: DefaultTimestamp}
-				default:
-					addTimestamp(v)
-				}
+				arr[i] = addTimestamp(v)
 			}
+			return arr
+		default:
+			return o
 		}
 	}
 
-	addTimestamp(o)
-
 	// Step 1: Convert TSON(any) to CompatibleTSON(JSON with timestamp)
-	str, err := json.Marshal(o)
+	str, err := json.Marshal(addTimestamp(o))
+	if err != nil {
+		return err
+	}
 
 	// Step 2: Convert CompatibleTSON to TSON
 	return FromCompatibleTsonBytes(str, t)
-- 
2.43.0


From dfc7197237a8d0c57b909899669c878c388cc250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:27 +0000
Subject: [PATCH 09/42] fix: read 64-bit timestamps of compatible TSON exactly
 and report bad data as an error

---
 internal/tson/tson.go | 65 ++++++++++++++++++++++++++++++-------------
 1 file changed, 46 insertions(+), 19 deletions(-)

diff --git a/internal/tson/tson.go b/internal/tson/tson.go
index d9e35a2..8249331 100644
--- a/internal/tson/tson.go
+++ b/internal/tson/tson.go
@@ -13,6 +13,7 @@
 package tson
 
 import (
+	"bytes"
 	"encoding/json"
 	"fmt"
 	"reflect"
@@ -131,16 +132,16 @@ func GetValue(t Tson, path string) (v Value, err error) {
 // Equal checks if two TSONs are equal, including timestamps.
 func Equal(t1, t2 Tson) (ret bool, err error) {
 	var (
-		o1, o2 any
+		o1, o2 Tson
 		b1, _  = ToCompatibleTsonBytes(t1)
 		b2, _  = ToCompatibleTsonBytes(t2)
 	)
 
 	// Check if the given TSONs are valid
-	if err = json.Unmarshal(b1, &o1); err != nil {
+	if err = FromCompatibleTsonBytes(b1, &o1); err != nil {
 		return false, err
 	}
-	if err = json.Unmarshal(b2, &o2); err != nil {
+	if err = FromCompatibleTsonBytes(b2, &o2); err != nil {
 		return false, err
 	}
 	return reflect.DeepEqual(o1, o2), nil
@@ -237,45 +238,64 @@ func ToCompatibleTsonBytes(t Tson) (j []byte, err error) {
 // FromCompatibleTsonBytes converts a JSON byte array (with leaf nodes as { "value": ..., "timestamp": ... })
 // into a Tson object.
 func FromCompatibleTsonBytes(data []byte, t *Tson) error {
-	var convert func(v any) Value
-	convert = func(v any) Value {
+	var convert func(v any) (Value, error)
+	convert = func(v any) (Value, error) {
 		switch t := v.(type) {
 		case nil:
-			return nil
+			return nil, nil
 		case map[string]any:
 			if isLeaf, leafVal, ts := checkLeaf(t); isLeaf {
-				switch leafVal.(type) {
+				switch leafVal := leafVal.(type) {
 				case string:
-					return Leaf[string]{Value: leafVal.(string), Timestamp: ts}
-				case float64:
-					return Leaf[float64]{Value: leafVal.(float64), Timestamp: ts}
+					return Leaf[string]{Value: leafVal, Timestamp: ts}, nil
+				case json.Number:
+					num, err := leafVal.Float64()
+					return Leaf[float64]{Value: num, Timestamp: ts}, err
 				case bool:
-					return Leaf[bool]{Value: leafVal.(bool), Timestamp: ts}
+					return Leaf[bool]{Value: leafVal, Timestamp: ts}, nil
 				default:
-					return nil // NOT supported
+					return nil, nil // NOT supported
 				}
 			}
 			obj := Object{}
 			for key, val := range t {
-				obj[key] = convert(val)
+				child, err := convert(val)
+				if err != nil {
+					return nil, err
+				}
+				obj[key] = child
 			}
-			return obj
+			return obj, nil
 		case []any:
 			arr := Array{}
 			for _, elem := range t {
-				arr = append(arr, convert(elem))
+				child, err := convert(elem)
+				if err != nil {
+					return nil, err
+				}
+				arr = append(arr, child)
 			}
-			return arr
+			return arr, nil
 		default:
-			panic("FromCompatibleTsonBytes: Not a compatible TSON data")
+			return nil, fmt.Errorf("FromCompatibleTsonBytes: Not a compatible TSON data")
 		}
 	}
 
+	// Keep the numbers as they are written: float64 cannot hold every timestamp.
 	var intermediate any
-	if err := json.Unmarshal(data, &intermediate); err != nil {
+	if !json.Valid(data) {
+		return json.Unmarshal(data, &intermediate)
+	}
+	dec := json.NewDecoder(bytes.NewReader(data))
+	dec.UseNumber()
+	if err := dec.Decode(&intermediate); err != nil {
+		return err
+	}
+	res, err := convert(intermediate)
+	if err != nil {
 		return err
 	}
-	*t = convert(intermediate)
+	*t = res
 	return nil
 }
 
@@ -493,6 +513,13 @@ func checkLeaf(m map[string]any) (bool, any, int64) {
 				return true, val, int64(t)
 			case int64:
 				return true, val, t
+			case json.Number:
+				if ts, err := t.Int64(); err == nil {
+					return true, val, ts
+				}
+				if ts, err := t.Float64(); err == nil {
+					return true, val, int64(ts)
+				}
 			}
 		}
 	}
-- 
2.43.0


From f62f214099cb9e103d1d6a4d731da87174908994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:37 +0000
Subject: [PATCH 10/42] fix: drop the timestamp of a document which is a single
 leaf in ToJson

---
 internal/tson/tson.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/tson/tson.go b/internal/tson/tson.go
index 8249331..5a4e585 100644
--- a/internal/tson/tson.go
+++ b/internal/tson/tson.go
@@ -362,7 +362,15 @@ func ToJson(t Tson, j *any) (err error) {
 		}
 	}
 
-	ToCompatibleTson(t, j)
+	if err = ToCompatibleTson(t, j); err != nil {
+		return err
+	}
+	if m, ok := (*j).(map[string]any); ok { // The document itself is a leaf
+		if isLeaf, leafVal, _ := checkLeaf(m); isLeaf {
+			*j = leafVal
+			return nil
+		}
+	}
 	removeTimestamp(*j)
 
 	return nil
-- 
2.43.0


From 78c39745b9a38280f598bf789c69aebe09ea1de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:00 +0000
Subject: [PATCH 11/42] fix: apply patch operations whose path is a JSON
 pointer at the location it names

---
 internal/tsonpatch/tsonpatch.go | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/internal/tsonpatch/tsonpatch.go b/internal/tsonpatch/tsonpatch.go
index df2802b..2fc6e51 100644
--- a/internal/tsonpatch/tsonpatch.go
+++ b/internal/tsonpatch/tsonpatch.go
@@ -149,11 +149,8 @@ func ApplyPatch(doc tson.Tson, patch Patch) (t tson.Tson, err error) {
 }
 
 func ApplyOperation(doc tson.Tson, op Operation) (t tson.Tson, err error) {
-	path := rfc6901Decoder.Replace(op.Path)
-
-	// Split the path into parts, ignoring the first empty string
-	path = strings.ReplaceAll(path, ".", "/")
-	parts := strings.Split(path, "/")
+	// Split the path into parts
+	parts := tson.SplitPath(op.Path)
 
 	// Traverse the TSON document
 	if t, err = applyTraverse(doc, parts, op); err != nil {
@@ -432,19 +429,10 @@ func getIndex(part string) (idx int, err error) {
 }
 
 // Note: http://tools.ietf.org/html/rfc6901#section-4 :
-var (
-	rfc6901Encoder = strings.NewReplacer("~", "~0", "/", "~1")
-	rfc6901Decoder = strings.NewReplacer("~1", "/", "~0", "~")
-)
+var rfc6901Encoder = strings.NewReplacer("~", "~0", "/", "~1")
 
 func makePath(path string, newPart any) string {
 	key := rfc6901Encoder.Replace(fmt.Sprintf("%v", newPart))
-	if path == "" {
-		return "/" + key
-	}
-	if strings.HasSuffix(path, "/") {
-		return path + key
-	}
 	return path + "/" + key
 }
 
-- 
2.43.0


From 600614e78f76a03b28c14c547c294e8d050652a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:32 +0000
Subject: [PATCH 12/42] fix: apply patch operations to a copy, reach into
 arrays, and report bad paths as errors

---
 internal/tsonpatch/tsonpatch.go | 119 ++++++++++----------------------
 1 file changed, 38 insertions(+), 81 deletions(-)

diff --git a/internal/tsonpatch/tsonpatch.go b/internal/tsonpatch/tsonpatch.go
index 2fc6e51..9e0b183 100644
--- a/internal/tsonpatch/tsonpatch.go
+++ b/internal/tsonpatch/tsonpatch.go
@@ -20,7 +20,9 @@ import (
 	"bytes"
 	"encoding/json"
 	"fmt"
+	"maps"
 	"reflect"
+	"slices"
 	"strconv"
 	"strings"
 
@@ -161,17 +163,39 @@ func ApplyOperation(doc tson.Tson, op Operation) (t tson.Tson, err error) {
 
 // applyTraverse 함수 수정
 func applyTraverse(doc tson.Tson, parts []string, op Operation) (t tson.Tson, err error) {
-	if len(parts) == 0 { // If the path is empty, return
-		return doc, nil
+	if len(parts) == 0 { // The operation targets doc itself
+		if op.Op != OpAdd && op.Op != OpReplace {
+			return nil, fmt.Errorf("applyTraverse(): Cannot %s the whole document", op.Op)
+		}
+		switch value := op.Value.(type) {
+		case string:
+			return tson.Leaf[string]{Value: value, Timestamp: op.Timestamp}, nil
+		case float64:
+			return tson.Leaf[float64]{Value: value, Timestamp: op.Timestamp}, nil
+		case int:
+			return tson.Leaf[float64]{Value: float64(value), Timestamp: op.Timestamp}, nil
+		case bool:
+			return tson.Leaf[bool]{Value: value, Timestamp: op.Timestamp}, nil
+		default:
+			return nil, fmt.Errorf("applyTraverse(): Unsupported value type %T: %v", op.Value, op.Value)
+		}
 	}
 
-	switch doc.(type) { // If doc is a leaf node, return
-	case tson.Leaf[string], tson.Leaf[float64], tson.Leaf[bool]:
-		return doc, nil
+	if doc == nil { // 경로가 없는 경우 새로 생성
+		if op.Op != OpAdd && op.Op != OpReplace {
+			return nil, fmt.Errorf("applyTraverse(): Cannot %s on nil value at %s", op.Op, parts[0])
+		}
+		// 다음 부분이 숫자면 배열, 아니면 객체 생성
+		if _, err := getIndex(parts[0]); err == nil {
+			doc = make(tson.Array, 0)
+		} else {
+			doc = make(tson.Object)
+		}
 	}
 
 	switch part := parts[0]; j := doc.(type) {
 	case tson.Object:
+		j = maps.Clone(j) // The given document must not change
 		if len(parts) == 1 { // Only a single part of path left
 			switch op.Op { // switch by operation type
 			case OpAdd, OpReplace:
@@ -197,88 +221,16 @@ func applyTraverse(doc tson.Tson, parts []string, op Operation) (t tson.Tson, er
 			case OpRemove:
 				delete(j, part)
 			case OpMove, OpCopy, OpTest:
-				panic(fmt.Sprintf("applyTraverse(): Operation %s not implemented", op.Op))
+				return nil, fmt.Errorf("applyTraverse(): Operation %s not implemented", op.Op)
 			default:
 				return nil, fmt.Errorf("applyTraverse(): Unknown operation %s", op.Op)
 			}
 			return j, nil
 		}
 
-		switch value := j[part].(type) { // Recursively traverse the TSON document
-		case tson.Leaf[string], tson.Leaf[float64], tson.Leaf[bool]:
-			panic("applyTraverse(): Leaf[T] should not be here")
-		case tson.Object:
-			if j[part], err = applyTraverse(value, parts[1:], op); err != nil {
-				return nil, err
-			}
-		case tson.Array:
-			idx, err := getIndex(parts[1])
-			if err != nil {
-				return nil, err
-			}
-
-			switch op.Op {
-			case OpAdd, OpReplace:
-				if idx >= len(value) {
-					// 배열 크기가 충분하지 않은 경우 확장
-					newArray := make(tson.Array, idx+1)
-					copy(newArray, value)
-					value = newArray
-					j[part] = value
-				}
-
-				// 타입 변환 로직 개선
-				switch opValue := op.Value.(type) {
-				case string:
-					value[idx] = tson.Leaf[string]{Value: opValue, Timestamp: op.Timestamp}
-				case float64:
-					value[idx] = tson.Leaf[float64]{Value: opValue, Timestamp: op.Timestamp}
-				case int:
-					value[idx] = tson.Leaf[float64]{Value: float64(opValue), Timestamp: op.Timestamp}
-				case bool:
-					value[idx] = tson.Leaf[bool]{Value: opValue, Timestamp: op.Timestamp}
-				case nil:
-					return nil, fmt.Errorf("applyTraverse(): Nil value not supported for array element")
-				default:
-					if elem, ok := value[idx].(tson.Object); ok || elem == nil {
-						// 객체나 nil인 경우 재귀적으로 처리
-						if j[part], err = applyTraverse(value[idx], parts[1:], op); err != nil {
-							return nil, err
-						}
-					} else {
-						return nil, fmt.Errorf("applyTraverse(): Unsupported array element type %T", op.Value)
-					}
-				}
-			case OpRemove:
-				j[part] = append(value[:idx], value[idx+1:]...)
-			default:
-				return nil, fmt.Errorf("applyTraverse(): Unknown operation %s", op.Op)
-			}
-		case nil:
-			// 경로가 없는 경우 새로 생성
-			if op.Op == OpAdd || op.Op == OpReplace {
-				// 다음 부분이 숫자면 배열, 아니면 객체 생성
-				_, err := getIndex(parts[1])
-				if err == nil {
-					// 배열 생성
-					newArray := make(tson.Array, 0)
-					j[part] = newArray
-					if j[part], err = applyTraverse(newArray, parts[1:], op); err != nil {
-						return nil, err
-					}
-				} else {
-					// 객체 생성
-					newObj := make(tson.Object)
-					j[part] = newObj
-					if j[part], err = applyTraverse(newObj, parts[1:], op); err != nil {
-						return nil, err
-					}
-				}
-			} else {
-				return nil, fmt.Errorf("applyTraverse(): Cannot %s on nil value at %s", op.Op, part)
-			}
-		default:
-			return nil, fmt.Errorf("traverse(): Unknown type %T for value", value)
+		// Recursively traverse the TSON document
+		if j[part], err = applyTraverse(j[part], parts[1:], op); err != nil {
+			return nil, err
 		}
 
 		return j, nil
@@ -289,6 +241,8 @@ func applyTraverse(doc tson.Tson, parts []string, op Operation) (t tson.Tson, er
 			return nil, err
 		}
 
+		j = slices.Clone(j) // The given document must not change
+
 		// 배열 인덱스 범위 체크 및 확장
 		if idx >= len(j) {
 			if op.Op == OpAdd || op.Op == OpReplace {
@@ -425,6 +379,9 @@ func getIndex(part string) (idx int, err error) {
 	if idx, err = strconv.Atoi(part); err != nil {
 		return -1, fmt.Errorf("getIndex(): Invalid index %s", part)
 	}
+	if idx < 0 {
+		return -1, fmt.Errorf("getIndex(): Negative index %s", part)
+	}
 	return idx, nil
 }
 
-- 
2.43.0


From 7d9fdce9c7a0af69dddb831b720fe6bbd095b6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:34 +0000
Subject: [PATCH 13/42] fix: apply every operation of a patch, not just the
 last one, and accept an empty patch

---
 internal/tsonpatch/tsonpatch.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/tsonpatch/tsonpatch.go b/internal/tsonpatch/tsonpatch.go
index 9e0b183..2a5ed76 100644
--- a/internal/tsonpatch/tsonpatch.go
+++ b/internal/tsonpatch/tsonpatch.go
@@ -142,8 +142,9 @@ func GeneratePatchWithTimestamp(origin, modified tson.Tson) (Patch, error) {
 
 // ApplyPatch applies a JSON patch to a TSON document
 func ApplyPatch(doc tson.Tson, patch Patch) (t tson.Tson, err error) {
+	t = doc // Each operation applies to the result of the previous one
 	for _, op := range patch {
-		if t, err = ApplyOperation(doc, op); err != nil {
+		if t, err = ApplyOperation(t, op); err != nil {
 			return nil, err
 		}
 	}
-- 
2.43.0


From 5066454b1f97e69604c645c8e65e25d2eda91406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:20 +0000
Subject: [PATCH 14/42] fix: generate patches which reproduce arrays of another
 length and values of another type

---
 internal/tsonpatch/tsonpatch.go | 187 +++++++++-----------------------
 1 file changed, 51 insertions(+), 136 deletions(-)

diff --git a/internal/tsonpatch/tsonpatch.go b/internal/tsonpatch/tsonpatch.go
index 2a5ed76..4343825 100644
--- a/internal/tsonpatch/tsonpatch.go
+++ b/internal/tsonpatch/tsonpatch.go
@@ -454,7 +454,7 @@ func diff(origin, modified tson.Object, path string, patch Patch, withTimestamp
 			case tson.Object:
 				// TODO: is there a way to calculate the timestamp?
 				patch = append(patch, NewOperation(OpRemove, p, nil, 0))
-			case tson.Array:
+			case tson.Array, nil:
 				patch = append(patch, NewOperation(OpRemove, p, nil, 0))
 			default:
 				panic(fmt.Sprintf("diff(): Unknown type %T for origValue", origValue))
@@ -466,6 +466,11 @@ func diff(origin, modified tson.Object, path string, patch Patch, withTimestamp
 
 func handleValues(origValue, modValue tson.Value, path string, patch Patch) (Patch, error) {
 	var err error
+
+	if typeChanged(origValue, modValue) {
+		return appendLeaf(patch, OpReplace, path, modValue)
+	}
+
 	switch origin := origValue.(type) {
 	case tson.Leaf[string]:
 		if !matchesValue(origValue, modValue) {
@@ -488,28 +493,9 @@ func handleValues(origValue, modValue tson.Value, path string, patch Patch) (Pat
 			return nil, err
 		}
 	case tson.Array:
-		modified, ok := modValue.(tson.Array)
-		if !ok { // tson.Array replaced by non-Array
-			var mod any = modValue
-			switch modLeaf := mod.(type) {
-			case tson.Leaf[string]:
-				patch = append(patch, NewOperation(OpReplace, path, modLeaf.Value, modLeaf.Timestamp))
-			case tson.Leaf[float64]:
-				patch = append(patch, NewOperation(OpReplace, path, modLeaf.Value, modLeaf.Timestamp))
-			case tson.Leaf[bool]:
-				patch = append(patch, NewOperation(OpReplace, path, modLeaf.Value, modLeaf.Timestamp))
-			default:
-				return nil, fmt.Errorf("handleValues(): Unknown type %T for modValue", modValue)
-			}
-		} else if len(origin) != len(modified) { // Different array lengths
-			patch = append(patch, compareArray(origin, modified, path)...)
-		} else { // Same length, compare elements
-			for i := range modified {
-				patch, err = handleValues(origin[i], modified[i], makePath(path, i), patch)
-				if err != nil {
-					return nil, err
-				}
-			}
+		modified := modValue.(tson.Array)
+		if patch, err = compareArray(origin, modified, path, patch, false); err != nil {
+			return nil, err
 		}
 	case nil:
 		switch modValue.(type) {
@@ -539,6 +525,10 @@ func handleValues(origValue, modValue tson.Value, path string, patch Patch) (Pat
 func handleValuesWithTimestamp(origValue, modValue tson.Value, path string, patch Patch) (Patch, error) {
 	var err error
 
+	if typeChanged(origValue, modValue) {
+		return appendLeaf(patch, OpReplace, path, modValue)
+	}
+
 	// 타임스탬프 변경 감지
 	timestampChanged := !matchTimestamp(origValue, modValue)
 
@@ -575,28 +565,9 @@ func handleValuesWithTimestamp(origValue, modValue tson.Value, path string, patc
 		}
 
 	case tson.Array:
-		modified, ok := modValue.(tson.Array)
-		if !ok { // tson.Array replaced by non-Array
-			var mod any = modValue
-			switch modLeaf := mod.(type) {
-			case tson.Leaf[string]:
-				patch = append(patch, NewOperation(OpReplace, path, modLeaf.Value, modLeaf.Timestamp))
-			case tson.Leaf[float64]:
-				patch = append(patch, NewOperation(OpReplace, path, modLeaf.Value, modLeaf.Timestamp))
-			case tson.Leaf[bool]:
-				patch = append(patch, NewOperation(OpReplace, path, modLeaf.Value, modLeaf.Timestamp))
-			default:
-				return nil, fmt.Errorf("handleValuesWithTimestamp(): Unknown type %T for modValue", modValue)
-			}
-		} else if len(origin) != len(modified) { // Different array lengths
-			patch = append(patch, compareArrayWithTimestamp(origin, modified, path)...)
-		} else { // Same length, compare elements
-			for i := range modified {
-				patch, err = handleValuesWithTimestamp(origin[i], modified[i], makePath(path, i), patch)
-				if err != nil {
-					return nil, err
-				}
-			}
+		modified := modValue.(tson.Array)
+		if patch, err = compareArray(origin, modified, path, patch, true); err != nil {
+			return nil, err
 		}
 
 	case nil:
@@ -725,106 +696,50 @@ func matchTimestamp(origin, modified tson.Value) bool {
 	return false
 }
 
-// compareArray generates remove and add operations
-func compareArray(origArr, modArr tson.Array, p string) (patch Patch) {
-	// Find elements that need to be removed
-	processArray(origArr, modArr, func(i int, _ any) {
-		// TODO: is there a way to calculate the timestamp?
-		patch = append(patch, NewOperation(OpRemove, makePath(p, i), nil, 0))
-	})
+// typeChanged tells whether a (non-null) value is replaced by one of another type.
+func typeChanged(origin, modified tson.Value) bool {
+	return origin != nil && reflect.TypeOf(origin) != reflect.TypeOf(modified)
+}
 
-	reversed := make(Patch, len(patch))
-	for i := 0; i < len(patch); i++ {
-		reversed[len(patch)-1-i] = patch[i]
+// appendLeaf appends an operation which sets the value at path.
+func appendLeaf(patch Patch, op OpType, path string, value tson.Value) (Patch, error) {
+	switch leaf := value.(type) {
+	case tson.Leaf[string]:
+		return append(patch, NewOperation(op, path, leaf.Value, leaf.Timestamp)), nil
+	case tson.Leaf[float64]:
+		return append(patch, NewOperation(op, path, leaf.Value, leaf.Timestamp)), nil
+	case tson.Leaf[bool]:
+		return append(patch, NewOperation(op, path, leaf.Value, leaf.Timestamp)), nil
+	default:
+		return nil, fmt.Errorf("appendLeaf(): Unknown type %T for value", value)
 	}
-	patch = reversed
-
-	// Find elements that need to be added.
-	processArray(modArr, origArr, func(i int, value any) {
-		switch leaf := value.(type) {
-		case tson.Leaf[string]:
-			patch = append(patch, NewOperation(OpAdd, makePath(p, i), leaf.Value, leaf.Timestamp))
-		case tson.Leaf[float64]:
-			patch = append(patch, NewOperation(OpAdd, makePath(p, i), leaf.Value, leaf.Timestamp))
-		case tson.Leaf[bool]:
-			patch = append(patch, NewOperation(OpAdd, makePath(p, i), leaf.Value, leaf.Timestamp))
-		default:
-			panic(fmt.Sprintf("compareArray(): Unknown type %T for value", value))
-		}
-	})
-	return patch
 }
 
-// compareArrayWithTimestamp는 두 배열을 비교하여 패치를 생성합니다. 타임스탬프 변경도 감지합니다.
-func compareArrayWithTimestamp(origArr, modArr tson.Array, p string) (patch Patch) {
-	// Find elements that need to be removed
-	processArray(origArr, modArr, func(i int, _ any) {
-		// TODO: is there a way to calculate the timestamp?
-		patch = append(patch, NewOperation(OpRemove, makePath(p, i), nil, 0))
-	})
-
-	reversed := make(Patch, len(patch))
-	for i := 0; i < len(patch); i++ {
-		reversed[len(patch)-1-i] = patch[i]
-	}
-	patch = reversed
-
-	// Find elements that need to be added, or have changed values or timestamps
-	for i, value := range modArr {
-		// 원래 배열과 수정된 배열의 같은 인덱스에서 값 또는 타임스탬프 변경 확인
-		if i < len(origArr) {
-			valuesEqual := matchesValue(origArr[i], value)
-			timestampEqual := matchTimestamp(origArr[i], value)
-
-			if !valuesEqual || !timestampEqual {
-				switch leaf := value.(type) {
-				case tson.Leaf[string]:
-					patch = append(patch, NewOperation(OpReplace, makePath(p, i), leaf.Value, leaf.Timestamp))
-				case tson.Leaf[float64]:
-					patch = append(patch, NewOperation(OpReplace, makePath(p, i), leaf.Value, leaf.Timestamp))
-				case tson.Leaf[bool]:
-					patch = append(patch, NewOperation(OpReplace, makePath(p, i), leaf.Value, leaf.Timestamp))
-				}
-			}
+// compareArray compares two arrays index by index, then generates
+// the operations which remove or add the elements at the end.
+func compareArray(origArr, modArr tson.Array, p string, patch Patch, withTimestamp bool) (_ Patch, err error) {
+	common := min(len(origArr), len(modArr))
+	for i := 0; i < common; i++ {
+		if withTimestamp {
+			patch, err = handleValuesWithTimestamp(origArr[i], modArr[i], makePath(p, i), patch)
 		} else {
-			// 새로 추가된 요소
-			switch leaf := value.(type) {
-			case tson.Leaf[string]:
-				patch = append(patch, NewOperation(OpAdd, makePath(p, i), leaf.Value, leaf.Timestamp))
-			case tson.Leaf[float64]:
-				patch = append(patch, NewOperation(OpAdd, makePath(p, i), leaf.Value, leaf.Timestamp))
-			case tson.Leaf[bool]:
-				patch = append(patch, NewOperation(OpAdd, makePath(p, i), leaf.Value, leaf.Timestamp))
-			default:
-				panic(fmt.Sprintf("compareArrayWithTimestamp(): Unknown type %T for value", value))
-			}
+			patch, err = handleValues(origArr[i], modArr[i], makePath(p, i), patch)
+		}
+		if err != nil {
+			return nil, err
 		}
 	}
 
-	return patch
-}
+	// Remove from the back, so that the other indexes stay valid
+	for i := len(origArr) - 1; i >= common; i-- {
+		// TODO: is there a way to calculate the timestamp?
+		patch = append(patch, NewOperation(OpRemove, makePath(p, i), nil, 0))
+	}
 
-// processArray processes two arrays calling applyOp whenever a value is absent.
-func processArray(origArr, modArr tson.Array, applyOp func(i int, value any)) {
-	// Note: map[T]struct{} is used to simulate a set.
-	foundIndexes := make(map[int]struct{}, len(origArr))
-	reverseFoundIndexes := make(map[int]struct{}, len(origArr))
-
-	for idx1, value1 := range origArr {
-		for idx2, value2 := range modArr {
-			if _, ok := reverseFoundIndexes[idx2]; ok {
-				// This one is already found.
-				continue
-			}
-			if reflect.DeepEqual(value1, value2) {
-				// Mark this as found
-				foundIndexes[idx1] = struct{}{}
-				reverseFoundIndexes[idx2] = struct{}{}
-				break
-			}
-		}
-		if _, ok := foundIndexes[idx1]; !ok {
-			applyOp(idx1, value1)
+	for i := common; i < len(modArr); i++ {
+		if patch, err = appendLeaf(patch, OpAdd, makePath(p, i), modArr[i]); err != nil {
+			return nil, err
 		}
 	}
+	return patch, nil
 }
-- 
2.43.0


From 7ca298081f1872be7e606a4c1af7a61adae62e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:33 +0000
Subject: [PATCH 15/42] fix: escape the path when writing a patch operation as
 JSON

---
 internal/tsonpatch/tsonpatch.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/internal/tsonpatch/tsonpatch.go b/internal/tsonpatch/tsonpatch.go
index 4343825..4eb16e2 100644
--- a/internal/tsonpatch/tsonpatch.go
+++ b/internal/tsonpatch/tsonpatch.go
@@ -91,13 +91,13 @@ type Operation struct {
 func (p *Operation) String() string {
 	var ( // Using vanila JSON here
 		op        = p.Op
-		path      = p.Path
+		path, _   = json.Marshal(p.Path)
 		value, _  = json.Marshal(p.Value)
 		timestamp = p.Timestamp
 		buf       bytes.Buffer
 	)
 	fmt.Fprintf(&buf,
-		`{ "op": "%s", "path": "%s", "value": %s, "timestamp": %d }`,
+		`{ "op": "%s", "path": %s, "value": %s, "timestamp": %d }`,
 		op, path, value, timestamp)
 	return buf.String()
 }
@@ -105,7 +105,11 @@ func (p *Operation) String() string {
 // Marshal converts the Operation to a JSON byte Array.
 func (p *Operation) Marshal() (b []byte, err error) {
 	var buf bytes.Buffer
-	fmt.Fprintf(&buf, `{ "op": "%s", "path": "%s"`, p.Op, p.Path)
+	path, err := json.Marshal(p.Path)
+	if err != nil {
+		return nil, err
+	}
+	fmt.Fprintf(&buf, `{ "op": "%s", "path": %s`, p.Op, path)
 	if p.Value != nil || p.Op == OpReplace || p.Op == OpAdd || p.Op == OpTest {
 		if v, err := json.Marshal(p.Value); err != nil {
 			return nil, err
-- 
2.43.0


From 0e8797e3677686fdb02392b87109d131b51fafb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:50 +0000
Subject: [PATCH 16/42] fix: apply the patches of every version between the
 nearest snapshot and the target

---
 internal/logument/logument.go | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index 98dda3b..c477700 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -219,19 +219,15 @@ func (lgm *Logument) Snapshot(vk uint64) tsonSnapshot {
 		panic(err)
 	}
 
-	var timedSnapshot tsonSnapshot
-
-	if latestVersion != vk {
-		// Apply patches from the latest version to the target version
-		for i := latestVersion + 1; i <= vk; i++ {
-			var err error
-			timedSnapshot, err = tsonpatch.ApplyPatch(latestSnapshot, lgm.Patches[i])
-			if err != nil {
-				panic("Failed to make a snapshot with the given version. Error: " + err.Error())
-			}
+	timedSnapshot := latestSnapshot
+
+	// Apply patches from the latest version to the target version
+	for i := latestVersion + 1; i <= vk; i++ {
+		var err error
+		timedSnapshot, err = tsonpatch.ApplyPatch(timedSnapshot, lgm.Patches[i])
+		if err != nil {
+			panic("Failed to make a snapshot with the given version. Error: " + err.Error())
 		}
-	} else {
-		timedSnapshot = latestSnapshot
 	}
 
 	if _, exists := lgm.Snapshots[vk]; !exists {
-- 
2.43.0


From e7d0599c2962401e757a78a5a054b7f99ec00b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:52 +0000
Subject: [PATCH 17/42] fix: do not share the patch pool with the caller's
 slice

---
 internal/logument/logument.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index c477700..94c50b4 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -2,6 +2,7 @@ package logument
 
 import (
 	"fmt"
+	"slices"
 	"sort"
 	"strconv"
 	"strings"
@@ -160,7 +161,7 @@ func (lgm *Logument) Store(inputPatches any) {
 	}
 
 	if lgm.PatchPool == nil {
-		lgm.PatchPool = patches
+		lgm.PatchPool = slices.Clone(patches) // The slice belongs to the caller
 	} else {
 		lgm.PatchPool = append(lgm.PatchPool, patches...)
 	}
-- 
2.43.0


From 2e0336e505f7c5c42a039bd6cea92b769786d203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:53 +0000
Subject: [PATCH 18/42] fix: compare TestSet with the current value, which
 includes queued and appended patches

---
 internal/logument/logument.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index 94c50b4..2674fe4 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -160,6 +160,13 @@ func (lgm *Logument) Store(inputPatches any) {
 		panic("Invalid type for initialPatches. Must be Patch or []Patch.")
 	}
 
+	// Keep the current state in step with the queued patches
+	state, err := tsonpatch.ApplyPatch(lgm.CurrentState, patches)
+	if err != nil {
+		panic(fmt.Sprintf("failed to apply patch: %v", err))
+	}
+	lgm.CurrentState = state
+
 	if lgm.PatchPool == nil {
 		lgm.PatchPool = slices.Clone(patches) // The slice belongs to the caller
 	} else {
@@ -549,13 +556,7 @@ func (lgm *Logument) TestSet(vk uint64, patch tsonpatch.Operation) {
 		return
 	}
 
-	latesetSnapshot := lgm.Snapshots[lgm.Version[len(lgm.Version)-1]]
-	// if _, exists := lgm.Snapshots[vk]; !exists {
-	// 	s := lgm.Snapshot(vk)
-	// 	lgm.Snapshots[vk] = s
-	// }
-
-	exist_value, err := tson.GetValue(latesetSnapshot, patch.Path)
+	exist_value, err := tson.GetValue(lgm.CurrentState, patch.Path)
 	if err != nil {
 		lgm.Set(vk,
 			tsonpatch.Operation{
@@ -579,8 +580,11 @@ func leafCompareValue(leafValue tson.Value, value any) bool {
 			return leaf.Value == strVal
 		}
 	case tson.Leaf[float64]:
-		if floatVal, ok := value.(float64); ok {
-			return leaf.Value == floatVal
+		switch numVal := value.(type) {
+		case float64:
+			return leaf.Value == numVal
+		case int: // stored as float64
+			return leaf.Value == float64(numVal)
 		}
 	case tson.Leaf[bool]:
 		if boolVal, ok := value.(bool); ok {
-- 
2.43.0


From 6a9863db13331c31bc6f155ff9d8d5a7e28609ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:40 +0000
Subject: [PATCH 19/42] fix: let Track return only value changes, and keep
 operations after a removal in Track, TemporalTrack and Compact

---
 internal/logument/logument.go | 128 +++++++++++++++++++---------------
 1 file changed, 73 insertions(+), 55 deletions(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index 2674fe4..1a9d0fe 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -14,7 +14,7 @@ import (
 
 // Note: http://tools.ietf.org/html/rfc6901#section-4 :
 var (
-	// rfc6901Encoder = strings.NewReplacer("~", "~0", "/", "~1")
+	rfc6901Encoder = strings.NewReplacer("~", "~0", "/", "~1")
 	rfc6901Decoder = strings.NewReplacer("~1", "/", "~0", "~")
 )
 
@@ -419,6 +419,63 @@ func (lgm *Logument) TemporalSlice(tsi, tsj int64) *Logument {
 	return slicedLgm
 }
 
+// canonicalPath returns the JSON pointer (RFC 6901) of a path.
+func canonicalPath(path string) string {
+	var s strings.Builder
+	for _, part := range tson.SplitPath(path) {
+		s.WriteString("/" + rfc6901Encoder.Replace(part))
+	}
+	return s.String()
+}
+
+// isUnder tells whether path is the target path or lies below it.
+func isUnder(path, targetPath string) bool {
+	path, targetPath = canonicalPath(path), canonicalPath(strings.TrimSuffix(targetPath, "/"))
+	return path == targetPath || strings.HasPrefix(path, targetPath+"/")
+}
+
+// changeFilter stores the latest known value of each (canonical) path,
+// to find the operations which change no value.
+type changeFilter map[string]any
+
+// keep tells whether an operation changes a value (or may do so),
+// given all the operations before it.
+func (f changeFilter) keep(op tsonpatch.Operation) bool {
+	key, value := canonicalPath(op.Path), op.Value
+	if num, ok := value.(int); ok { // stored as float64
+		value = float64(num)
+	}
+
+	prev, exists := f[key]
+	if op.Op != tsonpatch.OpRemove {
+		if exists && prev == value {
+			return false // Skip if value is the same
+		}
+		if exists {
+			f[key] = value
+			return true
+		}
+	}
+
+	// Whatever was below this path is gone. When an element of
+	// an array is removed, the following elements move as well.
+	scope := key
+	if parent := strings.LastIndex(key, "/"); op.Op == tsonpatch.OpRemove && parent >= 0 {
+		if _, err := strconv.Atoi(key[parent+1:]); err == nil {
+			scope = key[:parent]
+		}
+	}
+	for path := range f {
+		if path == scope || strings.HasPrefix(path, scope+"/") {
+			delete(f, path)
+		}
+	}
+	if op.Op != tsonpatch.OpRemove {
+		f[key] = value
+	}
+	return true
+}
+
 func (lgm *Logument) Track(vi, vj uint64) map[uint64]tsonPatches {
 	// Track the Logument document to make a patch that contains all the changes
 	// from the version vi to the version vj
@@ -447,33 +504,21 @@ func (lgm *Logument) Track(vi, vj uint64) map[uint64]tsonPatches {
 		}
 	}
 
-	latestValues := make(map[string]any)
+	changes := make(changeFilter)
 
-	paths := make([]uint64, 0, len(packedPatches))
-	for path := range packedPatches {
-		paths = append(paths, path)
-	}
-	sort.Slice(paths, func(i, j int) bool { return paths[i] < paths[j] })
-
-	for _, path := range paths {
-		patches := packedPatches[path]
+	// versions are sorted
+	for _, version := range versions {
+		patches, exists := packedPatches[version]
+		if !exists {
+			continue
+		}
 		compactPatches := make(tsonPatches, 0, len(patches))
 		for _, patch := range patches {
-			// Compare to previous value if it exists at the same path
-			if prev, exists := latestValues[patch.Path]; exists {
-				// If value has changed, keep the patch and update the status bool { return paths[i] < paths[j] })
-				if prev != patch.Value {
-					compactPatches = append(compactPatches, patch)
-					latestValues[patch.Path] = patch.Value
-				}
-				// Skip if value is the same
-			} else {
-				// Always keep the patch when it appears for the first time
+			if changes.keep(patch) {
 				compactPatches = append(compactPatches, patch)
-				latestValues[patch.Path] = patch.Value
 			}
 		}
-		lgm.Patches[path] = compactPatches
+		packedPatches[version] = compactPatches
 	}
 
 	return packedPatches
@@ -491,27 +536,15 @@ func (lgm *Logument) TemporalTrack(tsi, tsj int64) map[uint64]tsonPatches {
 	}
 
 	trackedPatches := make(map[uint64]tsonPatches)
-	latestValues := make(map[string]any)
+	changes := make(changeFilter)
 
 	versions := lgm.getSortedVersions("patch")
 	for _, version := range versions {
 		ps := lgm.Patches[version]
 		compactPatches := make(tsonPatches, 0, len(ps))
 		for _, p := range ps {
-			if p.Timestamp >= tsi && p.Timestamp <= tsj {
-				// Compare to previous value if it exists at the same path
-				if prev, exists := latestValues[p.Path]; exists {
-					// If value has changed, keep the patch and update the status
-					if prev != p.Value {
-						compactPatches = append(compactPatches, p)
-						latestValues[p.Path] = p.Value
-					}
-					// Skip if value is the same
-				} else {
-					// Always keep the patch when it appears for the first time
-					compactPatches = append(compactPatches, p)
-					latestValues[p.Path] = p.Value
-				}
+			if p.Timestamp >= tsi && p.Timestamp <= tsj && changes.keep(p) {
+				compactPatches = append(compactPatches, p)
 			}
 		}
 		if len(compactPatches) > 0 {
@@ -601,30 +634,15 @@ func (lgm *Logument) Compact(targetPath string) {
 		panic("Versions are not continuous.")
 	}
 
-	latestValues := make(map[string]any)
+	changes := make(changeFilter)
 
 	versions := lgm.getSortedVersions("patch")
 	for _, version := range versions {
 		ps := lgm.Patches[version]
 		compactPatches := make(tsonPatches, 0, len(ps))
 		for _, p := range ps {
-			pt := rfc6901Decoder.Replace(p.Path)
-			if strings.HasPrefix(pt, targetPath) {
-				// Compare to previous value if it exists at the same path
-				if prev, exists := latestValues[p.Path]; exists {
-					// If value has changed, keep the patch and update the status
-					if prev != p.Value {
-						compactPatches = append(compactPatches, p)
-						latestValues[p.Path] = p.Value
-					}
-					// Skip if value is the same
-				} else {
-					// Always keep the patch when it appears for the first time
-					compactPatches = append(compactPatches, p)
-					latestValues[p.Path] = p.Value
-				}
-			} else {
-				// Keep patches that do not match the targetPath
+			// Keep patches that do not match the targetPath
+			if changes.keep(p) || !isUnder(p.Path, targetPath) {
 				compactPatches = append(compactPatches, p)
 			}
 		}
-- 
2.43.0


From 60371e8d8c875da6334e303a3b1f510ca8c99ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:08 +0000
Subject: [PATCH 20/42] fix: let History read without compacting the document,
 in order, and for paths added later

---
 internal/logument/logument.go | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index 1a9d0fe..6b49fda 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -13,10 +13,7 @@ import (
 )
 
 // Note: http://tools.ietf.org/html/rfc6901#section-4 :
-var (
-	rfc6901Encoder = strings.NewReplacer("~", "~0", "/", "~1")
-	rfc6901Decoder = strings.NewReplacer("~1", "/", "~0", "~")
-)
+var rfc6901Encoder = strings.NewReplacer("~", "~0", "/", "~1")
 
 type tsonSnapshot = tson.Tson
 type tsonPatches = tsonpatch.Patch // []jsonpatch.Operation
@@ -658,23 +655,24 @@ func (lgm *Logument) History(targetPath string) map[string]tsonPatches {
 		panic("Versions are not continuous.")
 	}
 
-	lgm.Compact(targetPath)
+	changes := make(changeFilter)
 
 	historyPatches := make(map[string]tsonPatches)
-	for _, patches := range lgm.Patches {
-		for _, patch := range patches {
-			path := rfc6901Decoder.Replace(patch.Path)
-			if strings.HasPrefix(path, targetPath) {
+	for _, version := range lgm.getSortedVersions("patch") {
+		for _, patch := range lgm.Patches[version] {
+			if changes.keep(patch) && isUnder(patch.Path, targetPath) {
 				historyPatches[patch.Path] = append(historyPatches[patch.Path], patch)
 			}
 		}
 	}
 
 	// Add the initial value to the history
-	for key := range historyPatches {
-		val, err := tson.GetValue(lgm.Snapshots[0], key)
+	for key, patches := range historyPatches {
+		sort.SliceStable(patches, func(i, j int) bool { return patches[i].Timestamp < patches[j].Timestamp })
+
+		val, err := tson.GetValue(lgm.Snapshots[lgm.Version[0]], key)
 		if err != nil {
-			panic("Failed to get the value from the snapshot. Error: " + err.Error())
+			continue // The path did not exist yet
 		}
 		if val != nil {
 			historyPatches[key] = append([]tsonpatch.Operation{{
-- 
2.43.0


From a3ef028ca70079a93dd7704cfad248d5b524347e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:10 +0000
Subject: [PATCH 21/42] fix: apply all patches up to the timestamp, in order,
 in TemporalSnapshot

---
 internal/logument/logument.go | 57 ++++++++++-------------------------
 1 file changed, 16 insertions(+), 41 deletions(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index 6b49fda..e41c83a 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -243,56 +243,31 @@ func (lgm *Logument) Snapshot(vk uint64) tsonSnapshot {
 }
 
 func (lgm *Logument) TemporalSnapshot(tsk int64) tsonSnapshot {
-	versions := lgm.getSortedVersions("snapshot")
-
-	// Find the latest timestamp before the target timestamp
-	latestVersion := lgm.Version[0]
-	for _, version := range versions {
-		s := lgm.Snapshots[version]
-		lts := tson.GetLatestTimestamp(s)
-		if lts <= tsk {
-			latestVersion = version
-		} else {
-			break
-		}
+	// Pending patches are part of the history, too
+	if lgm.PatchPool != nil {
+		lgm.Append()
 	}
 
-	// Get the latest snapshot
-	latestSnapshot := lgm.Snapshots[latestVersion]
-
-	if latestVersion >= lgm.Version[len(lgm.Version)-1] {
-		if lgm.PatchPool != nil {
-			lgm.Append()
-		} else {
-			return latestSnapshot
+	// Collect the patches up to the target timestamp, of all versions after the first snapshot
+	var latestPatches tsonpatch.Patch
+	for _, version := range lgm.getSortedVersions("patch") {
+		if version <= lgm.Version[0] {
+			continue
 		}
-	}
-
-	// Create a map to store the most recent patch for each path
-	latestPatchMap := make(map[string]tsonpatch.Operation)
-
-	// Iterate through the patches and keep only the most recent one for each path
-	sort.Slice(lgm.Patches[latestVersion+1], func(i, j int) bool {
-		return lgm.Patches[latestVersion+1][i].Timestamp < lgm.Patches[latestVersion+1][j].Timestamp
-	})
-
-	for _, p := range lgm.Patches[latestVersion+1] {
-		if p.Timestamp <= tsk {
-			// Check if we've seen this path before and if this patch is more recent
-			if existing, exists := latestPatchMap[p.Path]; !exists || p.Timestamp > existing.Timestamp {
-				latestPatchMap[p.Path] = p
+		for _, p := range lgm.Patches[version] {
+			if p.Timestamp <= tsk {
+				latestPatches = append(latestPatches, p)
 			}
 		}
 	}
 
-	// Convert the map to a slice
-	var latestPatches tsonpatch.Patch
-	for _, patch := range latestPatchMap {
-		latestPatches = append(latestPatches, patch)
-	}
+	// The more recent patch wins; patches with the same timestamp keep their order
+	sort.SliceStable(latestPatches, func(i, j int) bool {
+		return latestPatches[i].Timestamp < latestPatches[j].Timestamp
+	})
 
 	// Apply patches
-	timedSnapshot, err := tsonpatch.ApplyPatch(latestSnapshot, latestPatches)
+	timedSnapshot, err := tsonpatch.ApplyPatch(lgm.Snapshots[lgm.Version[0]], latestPatches)
 	if err != nil {
 		panic("Failed to make a snapshot with the given version. Error: " + err.Error())
 	}
-- 
2.43.0


From c7c6fd6d0d48b43f67f7e0c85b3c4d82891ff833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:36 +0000
Subject: [PATCH 22/42] fix: let Slice include its first version and snapshot,
 and the current state

---
 internal/logument/logument.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index e41c83a..66d677e 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -298,6 +298,11 @@ func (lgm *Logument) Slice(vi, vj uint64) *Logument {
 	}
 
 	var SlicedVersions []uint64
+	for _, version := range lgm.Version {
+		if version >= vi && version <= vj {
+			SlicedVersions = append(SlicedVersions, version)
+		}
+	}
 
 	versionsFromSnapshot := lgm.getSortedVersions("snapshot")
 	SlicedSnapshots := make(map[uint64]tsonSnapshot)
@@ -311,25 +316,21 @@ func (lgm *Logument) Slice(vi, vj uint64) *Logument {
 	SlicedPatches := make(map[uint64]tsonPatches)
 	for _, version := range versionsFromPatch {
 		if version >= vi && version <= vj {
-			// SlicedVersions always includes all versions between the start and end versions
-			// because lgm.Version and lgm.PatchMap are continuous.
-			// However, lgm.Snapshots may not be continuous,
-			// so the following line works correctly only in this loop.
-			SlicedVersions = append(SlicedVersions, version)
 			SlicedPatches[version] = lgm.Patches[version]
 		}
 	}
 
 	// Add the snapshot at the start version if it does not exist
-	if len(SlicedSnapshots) == 0 {
+	if _, exists := SlicedSnapshots[vi]; !exists {
 		SlicedSnapshots[vi] = lgm.Snapshot(vi)
 	}
 
 	slicedLgm := &Logument{
-		Version:   SlicedVersions,
-		Snapshots: SlicedSnapshots,
-		Patches:   SlicedPatches,
-		PatchPool: nil,
+		Version:      SlicedVersions,
+		CurrentState: lgm.Snapshot(vj),
+		Snapshots:    SlicedSnapshots,
+		Patches:      SlicedPatches,
+		PatchPool:    nil,
 	}
 
 	return slicedLgm
-- 
2.43.0


From f8ae69bea8293dbd84052cdeb5a45921548ca87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:54 +0000
Subject: [PATCH 23/42] fix: let TemporalSlice return continuous versions which
 replay to the state at each time

---
 internal/logument/logument.go | 67 +++++++++++++++++++++--------------
 1 file changed, 40 insertions(+), 27 deletions(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index 66d677e..ba6a703 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -2,6 +2,7 @@ package logument
 
 import (
 	"fmt"
+	"math"
 	"slices"
 	"sort"
 	"strconv"
@@ -348,45 +349,57 @@ func (lgm *Logument) TemporalSlice(tsi, tsj int64) *Logument {
 			"\nEnd time: " + strconv.FormatInt(tsj, 10))
 	}
 
-	var SlicedVersions []uint64
+	CurrentState := lgm.TemporalSnapshot(tsj) // Includes pending patches in the history
 
-	versionsFromSnapshot := lgm.getSortedVersions("snapshot")
-	SlicedSnapshots := make(map[uint64]tsonSnapshot)
-	for _, version := range versionsFromSnapshot {
-		snapshot := lgm.Snapshots[version]
-		latestTimestamp := tson.GetLatestTimestamp(snapshot)
-		if latestTimestamp >= tsi && latestTimestamp <= tsj {
-			SlicedSnapshots[version] = snapshot
-		}
-	}
+	// The slice starts at the version before its first patch
+	startVersion := lgm.Version[0]
+	endVersion := startVersion
+	lateVersion := uint64(math.MaxUint64) // The first version with a patch after the end time
 
-	versionsFromPatch := lgm.getSortedVersions("patch")
 	SlicedPatches := make(map[uint64]tsonPatches)
-	for _, version := range versionsFromPatch {
-		patches := lgm.Patches[version]
-		for _, patch := range patches {
+	for _, version := range lgm.getSortedVersions("patch") {
+		if version <= lgm.Version[0] {
+			continue
+		}
+		for _, patch := range lgm.Patches[version] {
 			if patch.Timestamp >= tsi && patch.Timestamp <= tsj {
-				// SlicedVersions always includes all versions between the start and end times
-				// because lgm.Version and lgm.PatchMap are continuous.
-				// However, lgm.Snapshots may not be continuous,
-				// so the following line works correctly only in this loop.
-				SlicedVersions = append(SlicedVersions, version)
+				if len(SlicedPatches) == 0 {
+					startVersion = version - 1
+				}
+				endVersion = version
 				SlicedPatches[version] = append(SlicedPatches[version], patch)
+			} else if patch.Timestamp < tsi && len(SlicedPatches) == 0 {
+				startVersion, endVersion = version, version
+			} else if patch.Timestamp > tsj {
+				lateVersion = min(lateVersion, version)
 			}
 		}
 	}
 
-	// Add the snapshot at the start version if it does not exist
-	if len(SlicedSnapshots) == 0 {
-		startVersion := SlicedVersions[0]
-		SlicedSnapshots[startVersion] = lgm.TemporalSnapshot(tsi)
+	var SlicedVersions []uint64
+	for version := startVersion; version <= endVersion; version++ {
+		SlicedVersions = append(SlicedVersions, version)
+	}
+
+	SlicedSnapshots := make(map[uint64]tsonSnapshot)
+	for _, version := range lgm.getSortedVersions("snapshot") {
+		if version > startVersion && version <= endVersion && version < lateVersion {
+			SlicedSnapshots[version] = lgm.Snapshots[version]
+		}
+	}
+
+	// Add the snapshot right before the start time
+	SlicedSnapshots[startVersion] = lgm.Snapshots[lgm.Version[0]]
+	if tsi > math.MinInt64 {
+		SlicedSnapshots[startVersion] = lgm.TemporalSnapshot(tsi - 1)
 	}
 
 	slicedLgm := &Logument{
-		Version:   SlicedVersions,
-		Snapshots: SlicedSnapshots,
-		Patches:   SlicedPatches,
-		PatchPool: nil,
+		Version:      SlicedVersions,
+		CurrentState: CurrentState,
+		Snapshots:    SlicedSnapshots,
+		Patches:      SlicedPatches,
+		PatchPool:    nil,
 	}
 
 	return slicedLgm
-- 
2.43.0


From 7890b98f9ccfbfbf6d8b97a1a9a96671e266e54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:59 +0000
Subject: [PATCH 24/42] fix: generate each dataset patch against the previous
 file instead of the first one

---
 internal/vssgen/args.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/vssgen/args.go b/internal/vssgen/args.go
index 427a634..b278d3d 100644
--- a/internal/vssgen/args.go
+++ b/internal/vssgen/args.go
@@ -99,6 +99,7 @@ func Generate(metadata map[string]any, dataFolder string) {
 		}
 
 		// Generate first JSON files
+		var patch *VssJson
 		data := vss.Generate(size, i)
 		data.Save(filepath.Join(carDir, fmt.Sprintf("%d_1.tson", i)))
 		data.Save(filepath.Join(patchDir, fmt.Sprintf("%d_1.json", i)))
@@ -106,7 +107,7 @@ func Generate(metadata map[string]any, dataFolder string) {
 
 		// Generate the rest of the JSON files
 		for j := 2; j <= files; j++ {
-			data, patch := data.GenerateNext(changeRate, maintainRate, i, j)
+			data, patch = data.GenerateNext(changeRate, maintainRate, i, j)
 			data.Save(filepath.Join(carDir, fmt.Sprintf("%d_%d.tson", i, j)))
 			patch.Save(filepath.Join(patchDir, fmt.Sprintf("%d_%d.json", i, j)))
 			bar.Add(1)
-- 
2.43.0


From 8b0921d3a42a82c498cb0964be1e364d340fdb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:00 +0000
Subject: [PATCH 25/42] fix: generate a dataset when no maintain rate is given,
 as from the command line and the web demo

---
 internal/vssgen/args.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/internal/vssgen/args.go b/internal/vssgen/args.go
index b278d3d..1280940 100644
--- a/internal/vssgen/args.go
+++ b/internal/vssgen/args.go
@@ -72,12 +72,12 @@ func SaveMetadata(metadata map[string]any, dataFolder string) {
 // Generate generates the VSS dataset as TSON & JSON patch
 func Generate(metadata map[string]any, dataFolder string) {
 	var (
-		dataset      = metadata["dataset"].(string)
-		cars         = metadata["cars"].(int)
-		files        = metadata["files"].(int)
-		changeRate   = metadata["change_rate"].(float64)
-		maintainRate = metadata["maintain_rate"].(float64)
-		size         = metadata["size"].(float64)
+		dataset         = metadata["dataset"].(string)
+		cars            = metadata["cars"].(int)
+		files           = metadata["files"].(int)
+		changeRate      = metadata["change_rate"].(float64)
+		maintainRate, _ = metadata["maintain_rate"].(float64) // optional; zero by default
+		size            = metadata["size"].(float64)
 	)
 
 	fmt.Printf("Generating %d cars with %d files each...\n", cars, files)
-- 
2.43.0


From a58fb150500b0394493613f3dda6766b9945ba39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:02 +0000
Subject: [PATCH 26/42] fix: keep nanosecond timestamps and JSON values in
 saved dataset patches

---
 internal/vssgen/vss.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/internal/vssgen/vss.go b/internal/vssgen/vss.go
index 6225caf..2661085 100644
--- a/internal/vssgen/vss.go
+++ b/internal/vssgen/vss.go
@@ -366,11 +366,14 @@ func (vss VssJson) GenerateNext(changeRate, maintainRate float64, id int, fileNo
 	ops, _ := tsonpatch.GeneratePatchWithTimestamp(origin, modified)
 
 	// Step 2. Convert the patch object to a []byte
-	bytes, _ := json.Marshal(ops)
+	b, _ = json.Marshal(ops)
 
 	// Step 3. Unmarshal the []byte to a JSON object
+	// (Keep the numbers as written: float64 cannot hold a timestamp in nanoseconds)
 	var patch any
-	json.Unmarshal(bytes, &patch)
+	dec := json.NewDecoder(bytes.NewReader(b))
+	dec.UseNumber()
+	dec.Decode(&patch)
 
 	// Step 4. Return the new dataset and the patch
 	return &VssJson{initialized: true, data: result}, &VssJson{initialized: true, data: patch}
@@ -392,10 +395,12 @@ func (vss *VssJson) Save(file string) {
 		for _, item := range vss.data.([]any) {
 			var buf bytes.Buffer
 			d := item.(map[string]any)
+			path, _ := json.Marshal(d["path"])
+			value, _ := json.Marshal(d[tsonValue])
 
 			fmt.Fprintf(&buf,
-				`{ "op": "%s", "path": "%s", "value": %#v, "timestamp": %d }`,
-				d["op"], d["path"], d[tsonValue], int64(d[tsonTimestamp].(float64)))
+				`{ "op": "%s", "path": %s, "value": %s, "timestamp": %v }`,
+				d["op"], path, value, d[tsonTimestamp])
 			lines = append(lines, "    "+buf.String())
 		}
 
-- 
2.43.0


From 3eae2258d93803eebb208cfaeca4eaf1e744218e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:03 +0000
Subject: [PATCH 27/42] fix: convert VSS data to a map through JSON, which TSON
 text is not

---
 internal/vssgen/extension.go | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/internal/vssgen/extension.go b/internal/vssgen/extension.go
index 72c6543..a24bdca 100644
--- a/internal/vssgen/extension.go
+++ b/internal/vssgen/extension.go
@@ -3,8 +3,6 @@ package vssgen
 import (
 	"encoding/json"
 	"fmt"
-	"os"
-	"path/filepath"
 	"strconv"
 	"strings"
 )
@@ -16,20 +14,10 @@ func (vss *VssJson) GetData() interface{} {
 
 // ToMapStringInterface 메서드는 VSS 데이터를 map[string]interface{} 형식으로 변환합니다
 func (vss *VssJson) ToMapStringInterface() (map[string]interface{}, error) {
-	// 임시 파일에 저장하고 다시 읽어오기
-	tempDir, err := os.MkdirTemp("", "vssgen")
+	// JSON으로 변환하고 다시 읽어오기 (복사본 생성)
+	jsonBytes, err := json.Marshal(vss.data)
 	if err != nil {
-		return nil, fmt.Errorf("임시 디렉토리 생성 실패: %v", err)
-	}
-	defer os.RemoveAll(tempDir)
-
-	tempFile := filepath.Join(tempDir, "temp_data.json")
-	vss.Save(tempFile)
-
-	// 파일에서 데이터 읽기
-	jsonBytes, err := os.ReadFile(tempFile)
-	if err != nil {
-		return nil, fmt.Errorf("임시 파일 읽기 실패: %v", err)
+		return nil, fmt.Errorf("JSON 변환 실패: %v", err)
 	}
 
 	var result map[string]interface{}
-- 
2.43.0


From 577f87e3b8af66f5c07dc38e8ece89ed5619f7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:04 +0000
Subject: [PATCH 28/42] fix: serve the original TSON when no patch is requested
 in the web demo

---
 web_demo.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/web_demo.go b/web_demo.go
index 0745eb6..4a6275c 100644
--- a/web_demo.go
+++ b/web_demo.go
@@ -103,8 +103,8 @@ func patchHandler(w http.ResponseWriter, r *http.Request) {
 	// Apply the pathes and make a snapshot
 	lgm.Append()
 
-	// Take the snapshot
-	snapshot := lgm.Snapshot(1)
+	// Take the latest snapshot, which is the original one if there are no patches
+	snapshot := lgm.Snapshot(lgm.Version[len(lgm.Version)-1])
 	result, _ := tson.MarshalIndent(snapshot, "", "  ")
 
 	// Send the result
-- 
2.43.0


From 1e9ad90f9e3fafdd72a8af2201b1366295df3db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:55 +0000
Subject: [PATCH 29/42] fix: keep the values of top-level items in temporal
 JSON documents

---
 exp/tjson.go          | 19 +++++++------------
 exp/utils_temporal.go | 27 ---------------------------
 2 files changed, 7 insertions(+), 39 deletions(-)

diff --git a/exp/tjson.go b/exp/tjson.go
index f0fd5e8..cedc32e 100644
--- a/exp/tjson.go
+++ b/exp/tjson.go
@@ -61,9 +61,7 @@ func (doc *TJSONDocument) AddItem(path string, startTime, endTime int64, value i
 
 	currentItem := rootItem
 	// Navigate through the path
-	for i := 1; i < len(parts); i++ {
-		key := parts[i]
-
+	for _, key := range parts[1:] {
 		// 모든 경로 부분에 대해 Children 항목 생성
 		childItem, exists := currentItem.Children[key]
 		if !exists {
@@ -75,17 +73,14 @@ func (doc *TJSONDocument) AddItem(path string, startTime, endTime int64, value i
 			currentItem.Children[key] = childItem
 		}
 		currentItem = childItem
-
-		// 마지막 부분일 경우 값도 설정
-		if i == len(parts)-1 {
-			version := &TJSONVersion{
-				Timestamp: timestamp,
-				Data:      value,
-			}
-			currentItem.Versions = append(currentItem.Versions, version)
-		}
 	}
 
+	// 마지막 부분에 값 설정
+	currentItem.Versions = append(currentItem.Versions, &TJSONVersion{
+		Timestamp: timestamp,
+		Data:      value,
+	})
+
 	return nil
 }
 
diff --git a/exp/utils_temporal.go b/exp/utils_temporal.go
index 5c19c99..498c094 100644
--- a/exp/utils_temporal.go
+++ b/exp/utils_temporal.go
@@ -540,33 +540,6 @@ func generateInitialPatches(path string, data interface{}, patches *[]TsonPatch)
 				newPath = path + "." + key
 			}
 
-			// Create add patch for the nested object itself (if it has primitive values)
-			hasPrimitives := false
-			for _, fieldValue := range v {
-				if isPrimitive(fieldValue) {
-					hasPrimitives = true
-					break
-				}
-			}
-
-			if hasPrimitives {
-				primitiveValues := make(map[string]interface{})
-				for fieldKey, fieldValue := range v {
-					if isPrimitive(fieldValue) {
-						primitiveValues[fieldKey] = fieldValue
-					}
-				}
-
-				if len(primitiveValues) > 0 {
-					*patches = append(*patches, TsonPatch{
-						Op:        "add",
-						Path:      path,
-						Value:     primitiveValues,
-						Timestamp: int64(0),
-					})
-				}
-			}
-
 			// Recursively process nested structures
 			generateInitialPatches(newPath, value, patches)
 		}
-- 
2.43.0


From d20dee1cd61c61922d7a592f8f3aeae1a4fbd45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:56 +0000
Subject: [PATCH 30/42] fix: leave values out of temporal JSON snapshots before
 they exist and after their removal

---
 exp/tjson.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/exp/tjson.go b/exp/tjson.go
index cedc32e..65202db 100644
--- a/exp/tjson.go
+++ b/exp/tjson.go
@@ -2,11 +2,11 @@ package exp
 
 import (
 	"fmt"
+	"math"
 	"reflect"
 	"sort"
 	"strconv"
 	"strings"
-	"time"
 
 	"github.com/davecgh/go-spew/spew"
 )
@@ -112,7 +112,7 @@ func getSnapshotForItem(item *TJSONItem, timestamp int64) interface{} {
 	var versionData interface{}
 	var versionFound bool
 
-	// 버전에서 데이터 찾기 (시간 범위 내의 가장 마지막 버전 사용)
+	// 버전에서 데이터 찾기
 	for i := 0; i < len(item.Versions); i++ {
 		version := item.Versions[i]
 		if isTimeInRange(timestamp, version.Timestamp) {
@@ -120,9 +120,6 @@ func getSnapshotForItem(item *TJSONItem, timestamp int64) interface{} {
 			versionFound = true
 			break
 		}
-
-		versionData = version.Data
-		versionFound = true
 	}
 
 	// 버전 데이터가 맵인 경우
@@ -325,9 +322,8 @@ func FromTSONPatches(patches []TsonPatch) (*TJSONDocument, error) {
 	}
 
 	// Close time ranges for values that still exist at the end
-	currentTime := time.Now().Unix()
 	for path, value := range lastValues {
-		err := doc.AddItem(path, lastTimes[path], currentTime, value)
+		err := doc.AddItem(path, lastTimes[path], math.MaxInt64, value)
 		if err != nil {
 			fmt.Printf("Warning: Failed to add final item for %s: %v\n", path, err)
 		}
-- 
2.43.0


From 623202fbe85efaef7e75eef7bbab0bae117723eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:57 +0000
Subject: [PATCH 31/42] fix: keep the order of patches with the same timestamp
 in temporal JSON documents

---
 exp/tjson.go          | 8 +++++---
 exp/utils_temporal.go | 4 ++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/exp/tjson.go b/exp/tjson.go
index 65202db..2d2e967 100644
--- a/exp/tjson.go
+++ b/exp/tjson.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"math"
 	"reflect"
+	"slices"
 	"sort"
 	"strconv"
 	"strings"
@@ -215,7 +216,7 @@ func (doc *TJSONDocument) TemporalTrack(path string, startTime, endTime int64) (
 	}
 
 	// 타임스탬프 기준으로 결과 정렬
-	sort.Slice(results, func(i, j int) bool {
+	sort.SliceStable(results, func(i, j int) bool {
 		iStart, _ := parseTimeRange(results[i]["timestamp"].(string))
 		jStart, _ := parseTimeRange(results[j]["timestamp"].(string))
 		return iStart < jStart
@@ -269,8 +270,9 @@ func parseTimeRange(timeRange string) (int64, int64) {
 func FromTSONPatches(patches []TsonPatch) (*TJSONDocument, error) {
 	doc := NewTJSONDocument()
 
-	// Sort patches by timestamp
-	sort.Slice(patches, func(i, j int) bool {
+	// Sort patches by timestamp (patches with the same timestamp keep their order)
+	patches = slices.Clone(patches)
+	sort.SliceStable(patches, func(i, j int) bool {
 		return patches[i].Timestamp < patches[j].Timestamp
 	})
 
diff --git a/exp/utils_temporal.go b/exp/utils_temporal.go
index 498c094..bf82d9f 100644
--- a/exp/utils_temporal.go
+++ b/exp/utils_temporal.go
@@ -73,8 +73,8 @@ func NewTemporalQueryExperiment(inputDir, baseOutDir, scenario string, tsonPatch
 	allPatches = append(allPatches, initialPatches...)
 	allPatches = append(allPatches, tsonPatches...)
 
-	// Sort by timestamp
-	sort.Slice(allPatches, func(i, j int) bool {
+	// Sort by timestamp (patches with the same timestamp keep their order)
+	sort.SliceStable(allPatches, func(i, j int) bool {
 		return allPatches[i].Timestamp < allPatches[j].Timestamp
 	})
 
-- 
2.43.0


From dab4726610c264f454ca16c137d54f9044753c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:09 +0000
Subject: [PATCH 32/42] fix: report containers as leaf values of compatible
 TSON instead of dropping them

---
 internal/tson/tson.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/tson/tson.go b/internal/tson/tson.go
index 5a4e585..764c43c 100644
--- a/internal/tson/tson.go
+++ b/internal/tson/tson.go
@@ -253,8 +253,10 @@ func FromCompatibleTsonBytes(data []byte, t *Tson) error {
 					return Leaf[float64]{Value: num, Timestamp: ts}, err
 				case bool:
 					return Leaf[bool]{Value: leafVal, Timestamp: ts}, nil
+				case nil:
+					return nil, nil // null has no timestamp
 				default:
-					return nil, nil // NOT supported
+					return nil, fmt.Errorf("FromCompatibleTsonBytes: Unsupported leaf value of type %T", leafVal)
 				}
 			}
 			obj := Object{}
-- 
2.43.0


From cfcb2d7c640979cbe03c615477d78d676b80d94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:52 +0000
Subject: [PATCH 33/42] fix: keep the current state when a refused Set panics

---
 internal/logument/logument.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index ba6a703..14be147 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -551,11 +551,11 @@ func (lgm *Logument) Set(vk uint64, patch tsonpatch.Operation) {
 		return
 	}
 
-	var err error
-	lgm.CurrentState, err = tsonpatch.ApplyOperation(lgm.CurrentState, patch)
+	state, err := tsonpatch.ApplyOperation(lgm.CurrentState, patch)
 	if err != nil {
 		panic(fmt.Sprintf("failed to apply patch: %v", err))
 	}
+	lgm.CurrentState = state
 
 	if lgm.PatchPool == nil {
 		lgm.PatchPool = tsonpatch.Patch{patch}
-- 
2.43.0


From 390222fc1bfa350a1547e5d1afacdee5817debac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:19 +0000
Subject: [PATCH 34/42] fix: write leaves with a null value in indented TSON

---
 internal/tson/serialization.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/tson/serialization.go b/internal/tson/serialization.go
index d49d036..693999f 100644
--- a/internal/tson/serialization.go
+++ b/internal/tson/serialization.go
@@ -424,6 +424,8 @@ func marshalIndentValue(v any, currentIndent, indent string, ctx int) (string, e
 // formatPrimitive converts a primitive value (string, float64, bool) into its string representation.
 func formatPrimitive(v any) (string, error) {
 	switch t := v.(type) {
+	case nil:
+		return "null", nil
 	case string:
 		return quote(t), nil
 	case float64, int, int64, uint, uint64:
-- 
2.43.0


From 7c7d5c82e48320bfc449b1bd58e16822c2daaddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:21 +0000
Subject: [PATCH 35/42] fix: keep signals without value in the next dataset

---
 internal/vssgen/vss.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/vssgen/vss.go b/internal/vssgen/vss.go
index 2661085..d5aea4c 100644
--- a/internal/vssgen/vss.go
+++ b/internal/vssgen/vss.go
@@ -327,6 +327,11 @@ func (vss VssJson) GenerateNext(changeRate, maintainRate float64, id int, fileNo
 						tsonValue:     rand.Float64() * 100,
 						tsonTimestamp: timestamp,
 					}
+				case nil: // no other value is known
+					new[node] = map[string]any{
+						tsonValue:     nil,
+						tsonTimestamp: timestamp,
+					}
 				}
 			} else if r < (changeRate + maintainRate) {
 				// 값은 변하지 않고 타임스탬프만 변경되는 패치 생성
-- 
2.43.0


From b95ed53000501c1b9ef521ec27d8e7901cb4cf5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:49 +0000
Subject: [PATCH 36/42] fix: read the empty period of a value replaced at time
 0 in temporal JSON documents

---
 exp/tjson.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/exp/tjson.go b/exp/tjson.go
index 2d2e967..35da833 100644
--- a/exp/tjson.go
+++ b/exp/tjson.go
@@ -256,7 +256,8 @@ func isTimeInRange(timestamp int64, timeRange string) bool {
 
 // Helper function to parse a time range string like "2015-2018"
 func parseTimeRange(timeRange string) (int64, int64) {
-	parts := strings.Split(timeRange, "-")
+	// The end may be negative: a value replaced at time 0 was alive during "0--1"
+	parts := strings.SplitN(timeRange, "-", 2)
 	if len(parts) != 2 {
 		return 0, 0
 	}
-- 
2.43.0


From a44d8f0b825990ef520cd8a445498bc4b830db94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:50 +0000
Subject: [PATCH 37/42] fix: append the patches of a temporal query experiment
 before its first query

---
 exp/utils_temporal.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/exp/utils_temporal.go b/exp/utils_temporal.go
index bf82d9f..8665340 100644
--- a/exp/utils_temporal.go
+++ b/exp/utils_temporal.go
@@ -386,6 +386,9 @@ func createLogumentFromPatches(path string, patches []TsonPatch) *logument.Logum
 
 	// Create the Logument
 	lgm := logument.NewLogument(initialTson, tsonPatches)
+	if err := lgm.Append(); err != nil { // queries do not see pending patches
+		panic(err)
+	}
 	return lgm
 }
 
-- 
2.43.0


From 2fb350ac05cc11e8767c8619e86b265451396c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:29 +0000
Subject: [PATCH 38/42] fix: leave the changes of the first version of a slice
 out of its history, they are part of the initial value

---
 internal/logument/logument.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index 14be147..61464d9 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -648,6 +648,9 @@ func (lgm *Logument) History(targetPath string) map[string]tsonPatches {
 
 	historyPatches := make(map[string]tsonPatches)
 	for _, version := range lgm.getSortedVersions("patch") {
+		if version <= lgm.Version[0] {
+			continue // A part of the initial value (in a slice)
+		}
 		for _, patch := range lgm.Patches[version] {
 			if changes.keep(patch) && isUnder(patch.Path, targetPath) {
 				historyPatches[patch.Path] = append(historyPatches[patch.Path], patch)
-- 
2.43.0


From b0f409930a82f72fb1f35c3ab3373b162b430092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:37 +0000
Subject: [PATCH 39/42] fix: compare timestamps leaf by leaf, so that patches
 of deep documents are generated in linear time

---
 internal/tsonpatch/tsonpatch.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/internal/tsonpatch/tsonpatch.go b/internal/tsonpatch/tsonpatch.go
index 4eb16e2..e8b9f11 100644
--- a/internal/tsonpatch/tsonpatch.go
+++ b/internal/tsonpatch/tsonpatch.go
@@ -533,16 +533,13 @@ func handleValuesWithTimestamp(origValue, modValue tson.Value, path string, patc
 		return appendLeaf(patch, OpReplace, path, modValue)
 	}
 
-	// 타임스탬프 변경 감지
-	timestampChanged := !matchTimestamp(origValue, modValue)
-
 	switch origin := origValue.(type) {
 	case tson.Leaf[string]:
 		valuesEqual := matchesValue(origValue, modValue)
 		modified := modValue.(tson.Leaf[string])
 
 		// 값이 다르거나 타임스탬프가 다르면 패치 생성
-		if !valuesEqual || timestampChanged {
+		if !valuesEqual || !matchTimestamp(origValue, modValue) {
 			patch = append(patch, NewOperation(OpReplace, path, modified.Value, modified.Timestamp))
 		}
 
@@ -550,7 +547,7 @@ func handleValuesWithTimestamp(origValue, modValue tson.Value, path string, patc
 		valuesEqual := matchesValue(origValue, modValue)
 		modified := modValue.(tson.Leaf[float64])
 
-		if !valuesEqual || timestampChanged {
+		if !valuesEqual || !matchTimestamp(origValue, modValue) {
 			patch = append(patch, NewOperation(OpReplace, path, modified.Value, modified.Timestamp))
 		}
 
@@ -558,7 +555,7 @@ func handleValuesWithTimestamp(origValue, modValue tson.Value, path string, patc
 		valuesEqual := matchesValue(origValue, modValue)
 		modified := modValue.(tson.Leaf[bool])
 
-		if !valuesEqual || timestampChanged {
+		if !valuesEqual || !matchTimestamp(origValue, modValue) {
 			patch = append(patch, NewOperation(OpReplace, path, modified.Value, modified.Timestamp))
 		}
 
-- 
2.43.0


From 79e29eb6c8e28ada83e65feaf31a981605401660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:03 +0000
Subject: [PATCH 40/42] fix: show every digit of the numbers on the demo page

---
 index.html | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/index.html b/index.html
index cb28f79..5a604cd 100644
--- a/index.html
+++ b/index.html
@@ -264,7 +264,9 @@ Demo web page: Sunghwan Park; Karu (@karu-rress)
         function setCodeBlockContent(elementId, textData) {
             const codeBlock = document.getElementById(elementId);
             try {
-                const parsed = JSON.parse(textData);
+                // Keep the numbers as written: a double cannot hold a timestamp in nanoseconds
+                const parsed = JSON.parse(textData, (key, value, context) =>
+                    typeof value === "number" && JSON.rawJSON ? JSON.rawJSON(context.source) : value);
                 const pretty = JSON.stringify(parsed, null, 2);
                 codeBlock.innerHTML = syntaxHighlight(pretty);
             } catch (e) {
-- 
2.43.0


From 696e3e8369d90e96b0bc0ff735008270084374dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:04 +0000
Subject: [PATCH 41/42] fix: show the answer for the latest selection on the
 demo page, whatever order the answers arrive in

---
 index.html | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/index.html b/index.html
index 5a604cd..5515445 100644
--- a/index.html
+++ b/index.html
@@ -275,21 +275,31 @@ Demo web page: Sunghwan Park; Karu (@karu-rress)
             }
         }
 
+        const requests = {}; // The number of requests made for each code block
+
+        // Fetch the url and show the answer, unless the code block shall show another one by then
+        async function showAnswer(elementId, url) {
+            const request = requests[elementId] = (requests[elementId] ?? 0) + 1;
+            const res = await fetch(url);
+            const data = await res.text();
+            if (request !== requests[elementId]) {
+                return false;
+            }
+            setCodeBlockContent(elementId, data);
+            return true;
+        }
+
         // If car changes, fetch the original TSON of the car
         async function updateVehicle() {
             const car = document.getElementById("carSelect").value;
-            const res = await fetch(`/update?car=${car}`);
-            const data = await res.text();
-            setCodeBlockContent("view", data);
+            await showAnswer("view", `/update?car=${car}`);
             await updatePatch();
         }
 
         async function updatePatch() {
             const car = document.getElementById("carSelect").value;
             const patch = document.getElementById("patchSelect").value;
-            const res = await fetch(`/update?car=${car}&patch=${patch}`);
-            const data = await res.text();
-            setCodeBlockContent("patch", data);
+            await showAnswer("patch", `/update?car=${car}&patch=${patch}`);
         }
 
         async function updateVehicleAndReset() {
@@ -309,9 +319,7 @@ Demo web page: Sunghwan Park; Karu (@karu-rress)
             const patch = document.getElementById("patchSelect").value;
             /* patch=1 -> original TSON
             patch>=2 -> patch applied TSON */
-            const res = await fetch(`/patch?car=${car}&patch=${patch}`);
-            const data = await res.text();
-            setCodeBlockContent("result", data);
+            return await showAnswer("result", `/patch?car=${car}&patch=${patch}`);
         }
 
         const snapshots = {};
-- 
2.43.0


From a8ddcd6ca6a6c2470712d6ee23f7064d80f18658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:07 +0000
Subject: [PATCH 42/42] fix: save a snapshot of the result for the selected car
 and patch on the demo page

---
 index.html | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/index.html b/index.html
index 5515445..8867a95 100644
--- a/index.html
+++ b/index.html
@@ -166,7 +166,7 @@ Demo web page: Sunghwan Park; Karu (@karu-rress)
                 <div class="box-header">
                     <div class="title-text">Vehicle State</div>
                     <!-- Car selection -->
-                    <select id="carSelect" onchange="updateVehicle()">
+                    <select id="carSelect" onchange="updateVehicleAndReset()">
                         <option value="1">Car 1</option>
                         <option value="2">Car 2</option>
                         <option value="3">Car 3</option>
@@ -185,7 +185,7 @@ Demo web page: Sunghwan Park; Karu (@karu-rress)
                 <div class="box-header">
                     <div class="title-text">Patches</div>
                     <!-- Patch Selection -->
-                    <select id="patchSelect" onchange="updatePatch()">
+                    <select id="patchSelect" onchange="updatePatchAndReset()">
                         <!-- 2 <= patchIdx <= 9 -->
                         <option value="2">Patch 1</option>
                         <option value="3">Patch 2</option>
@@ -302,14 +302,19 @@ Demo web page: Sunghwan Park; Karu (@karu-rress)
             await showAnswer("patch", `/update?car=${car}&patch=${patch}`);
         }
 
-        async function updateVehicleAndReset() {
+        // The result on display does not belong to the new selection
+        function resetAppended() {
             isAppended = false;
             document.getElementById("appendSnapshotBtn").textContent = "Append";
+            requests["result"] = (requests["result"] ?? 0) + 1; // Drop an answer on its way
+        }
+
+        async function updateVehicleAndReset() {
+            resetAppended();
             await updateVehicle();
         }
         async function updatePatchAndReset() {
-            isAppended = false;
-            document.getElementById("appendSnapshotBtn").textContent = "Append";
+            resetAppended();
             await updatePatch();
         }
 
@@ -352,12 +357,14 @@ Demo web page: Sunghwan Park; Karu (@karu-rress)
             }
         }
 
-        function onAppendSnapshotClicked() {
+        async function onAppendSnapshotClicked() {
             const btn = document.getElementById("appendSnapshotBtn");
             if (!isAppended) {
-                applyPatches();
-                isAppended = true;
-                btn.textContent = "Snapshot";
+                // There is nothing to save before the result is there
+                if (await applyPatches()) {
+                    isAppended = true;
+                    btn.textContent = "Snapshot";
+                }
             } else {
                 saveSnapshot();
                 isAppended = false;
-- 
2.43.0

