From 8a008a1e602a915a1c7c6379df2a12a39839a48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:20 +0000
Subject: [PATCH 01/43] fix: Dataset.Assign copies components so merging never
 writes to a source dataset

---
 dataset.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/dataset.go b/dataset.go
index b33a799..8bd5c42 100644
--- a/dataset.go
+++ b/dataset.go
@@ -370,7 +370,8 @@ func (ds *Dataset) Assign(datasets ...*Dataset) {
 		}
 
 		if ds.Commit == nil && d.Commit != nil {
-			ds.Commit = d.Commit
+			cm := *d.Commit
+			ds.Commit = &cm
 		} else if ds.Commit != nil {
 			ds.Commit.Assign(d.Commit)
 		}
@@ -378,7 +379,8 @@ func (ds *Dataset) Assign(datasets ...*Dataset) {
 			ds.ID = d.ID
 		}
 		if ds.Meta == nil && d.Meta != nil {
-			ds.Meta = d.Meta
+			md := *d.Meta
+			ds.Meta = &md
 		} else if ds.Meta != nil {
 			ds.Meta.Assign(d.Meta)
 		}
@@ -398,27 +400,33 @@ func (ds *Dataset) Assign(datasets ...*Dataset) {
 			ds.ProfileID = d.ProfileID
 		}
 		if ds.Stats == nil && d.Stats != nil {
-			ds.Stats = d.Stats
+			sa := *d.Stats
+			ds.Stats = &sa
 		} else if ds.Stats != nil {
 			ds.Stats.Assign(d.Stats)
 		}
 		if ds.Structure == nil && d.Structure != nil {
-			ds.Structure = d.Structure
+			st := *d.Structure
+			ds.Structure = &st
 		} else if ds.Structure != nil {
 			ds.Structure.Assign(d.Structure)
 		}
 		if ds.Transform == nil && d.Transform != nil {
-			ds.Transform = d.Transform
+			// Assign copies map entries, leaving maps of d.Transform untouched by later merges
+			ds.Transform = &Transform{}
+			ds.Transform.Assign(d.Transform)
 		} else if ds.Transform != nil {
 			ds.Transform.Assign(d.Transform)
 		}
 		if ds.Viz == nil && d.Viz != nil {
-			ds.Viz = d.Viz
+			vz := *d.Viz
+			ds.Viz = &vz
 		} else if ds.Viz != nil {
 			ds.Viz.Assign(d.Viz)
 		}
 		if ds.Readme == nil && d.Readme != nil {
-			ds.Readme = d.Readme
+			rm := *d.Readme
+			ds.Readme = &rm
 		} else if ds.Readme != nil {
 			ds.Readme.Assign(d.Readme)
 		}
-- 
2.43.0


From d3bb6e1acc1f957401b7f65c419497b6a24a36ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:24 +0000
Subject: [PATCH 02/43] fix: Meta with only arbitrary fields set is not empty

---
 meta.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/meta.go b/meta.go
index e648efc..a1ff232 100644
--- a/meta.go
+++ b/meta.go
@@ -87,6 +87,7 @@ func (md *Meta) IsEmpty() bool {
 		md.Identifier == "" &&
 		md.Keywords == nil &&
 		md.Language == nil &&
+		len(md.meta) == 0 &&
 		md.License == nil &&
 		md.ReadmeURL == "" &&
 		md.Title == "" &&
-- 
2.43.0


From efd94c36c380e54d2b1614f7545732a70112a007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:27 +0000
Subject: [PATCH 03/43] fix: Structure only encodes to a path reference when it
 is empty

---
 structure.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structure.go b/structure.go
index f441ebf..257695a 100644
--- a/structure.go
+++ b/structure.go
@@ -189,7 +189,7 @@ type _structure Structure
 
 // MarshalJSON satisfies the json.Marshaler interface
 func (s Structure) MarshalJSON() (data []byte, err error) {
-	if s.Path != "" && s.Encoding == "" && s.Schema == nil {
+	if s.Path != "" && s.IsEmpty() {
 		return json.Marshal(s.Path)
 	}
 
-- 
2.43.0


From 2c75f5903991d73836a7a4a0896f38dd4b1eacc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:47 +0000
Subject: [PATCH 04/43] fix: AbstractColumnName gives every column index a
 distinct name

---
 structure.go | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/structure.go b/structure.go
index 257695a..d8bdb97 100644
--- a/structure.go
+++ b/structure.go
@@ -342,23 +342,11 @@ const b26chars = "abcdefghijklmnopqrstuvwxyz"
 
 // base26 maps the set of natural numbers
 // to letters, using repeating characters to handle values
-// greater than 26
+// greater than 26. Each number has exactly one name
 func base26(d int) (s string) {
-	var cols []int
-	if d == 0 {
-		return "a"
-	}
-
-	for d != 0 {
-		cols = append(cols, d%26)
-		d = d / 26
-	}
-	for i := len(cols) - 1; i >= 0; i-- {
-		if i != 0 && cols[i] > 0 {
-			s += string(b26chars[cols[i]-1])
-		} else {
-			s += string(b26chars[cols[i]])
-		}
+	for d >= 0 {
+		s = string(b26chars[d%26]) + s
+		d = d/26 - 1
 	}
 	return s
 }
-- 
2.43.0


From 5dd5bb8dcabb4b094f8a48cbe43b0921cf265215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:58 +0000
Subject: [PATCH 05/43] fix: Meta decoding keeps arbitrary fields and drops the
 keywords duplicate

---
 meta.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/meta.go b/meta.go
index a1ff232..86aa785 100644
--- a/meta.go
+++ b/meta.go
@@ -400,21 +400,17 @@ func (md *Meta) UnmarshalJSON(data []byte) error {
 		"accrualPeriodicity",
 		"citations",
 		"contributors",
-		"data",
 		"description",
 		"downloadURL",
 		"homeURL",
 		"identifier",
-		"image",
-		"keyword",
+		"keywords",
 		"path",
 		"qri",
 		"language",
-		"length",
 		"license",
 		"readmeURL",
 		"theme",
-		"timestamp",
 		"title",
 		"version",
 	} {
-- 
2.43.0


From 35f14472209a4ef6df859569d00523352afb59b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:22 +0000
Subject: [PATCH 06/43] fix: CSVOptions.Map writes the separator in the form
 NewCSVOptions reads

---
 data_format_config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data_format_config.go b/data_format_config.go
index 0256bc6..ae265ef 100644
--- a/data_format_config.go
+++ b/data_format_config.go
@@ -111,7 +111,7 @@ func (o *CSVOptions) Map() map[string]interface{} {
 		opt["variadicFields"] = o.VariadicFields
 	}
 	if o.Separator != rune(0) {
-		opt["separator"] = o.Separator
+		opt["separator"] = string(o.Separator)
 	}
 	return opt
 }
-- 
2.43.0


From 90b6ac89c69ace29df3c0606fdcccf753c76dfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:26 +0000
Subject: [PATCH 07/43] fix: accept any single character as a CSV separator

---
 data_format_config.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/data_format_config.go b/data_format_config.go
index ae265ef..4a3cb86 100644
--- a/data_format_config.go
+++ b/data_format_config.go
@@ -2,6 +2,7 @@ package dataset
 
 import (
 	"fmt"
+	"unicode/utf8"
 )
 
 // FormatConfig is the interface for data format configurations
@@ -52,10 +53,11 @@ func NewCSVOptions(opts map[string]interface{}) (*CSVOptions, error) {
 
 	if opts["separator"] != nil {
 		if sep, ok := opts["separator"].(string); ok {
-			if len(sep) != 1 {
+			r, size := utf8.DecodeRuneInString(sep)
+			if size != len(sep) || r == utf8.RuneError {
 				return nil, fmt.Errorf("separator must be a single character")
 			}
-			o.Separator = rune(sep[0])
+			o.Separator = r
 		} else {
 			return nil, fmt.Errorf("invalid separator value: %v", opts["separator"])
 		}
-- 
2.43.0


From 6b9e503b66c8c98bcfa23a51218279ad2fd9589d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:44 +0000
Subject: [PATCH 08/43] fix: ConvertFile reports an error reading or writing
 entries

---
 dsio/dsio.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsio/dsio.go b/dsio/dsio.go
index 6c72e9a..18b38e7 100644
--- a/dsio/dsio.go
+++ b/dsio/dsio.go
@@ -220,7 +220,9 @@ func ConvertFile(file qfs.File, in, out *dataset.Structure, limit, offset int, a
 			Offset: offset,
 		}
 	}
-	err = Copy(rr, w)
+	if err = Copy(rr, w); err != nil {
+		return nil, err
+	}
 
 	if err := w.Close(); err != nil {
 		return nil, fmt.Errorf("error closing row buffer: %s", err.Error())
-- 
2.43.0


From eb3a1edfa6e2a7aefe0665f888a87e0abb1b19f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:49 +0000
Subject: [PATCH 09/43] fix: NDJSONReader reads a final line without a trailing
 newline

---
 dsio/ndjson.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsio/ndjson.go b/dsio/ndjson.go
index 90252e1..af13a58 100644
--- a/dsio/ndjson.go
+++ b/dsio/ndjson.go
@@ -2,6 +2,7 @@ package dsio
 
 import (
 	"bufio"
+	"bytes"
 	"encoding/json"
 	"fmt"
 	"io"
@@ -57,7 +58,8 @@ func (r *NDJSONReader) Structure() *dataset.Structure {
 // ReadEntry reads one JSON record from the reader
 func (r *NDJSONReader) ReadEntry() (Entry, error) {
 	line, err := r.buf.ReadBytes('\n')
-	if err != nil {
+	// the final line needn't end with a newline
+	if err != nil && (err != io.EOF || len(bytes.TrimSpace(line)) == 0) {
 		return Entry{}, err
 	}
 
-- 
2.43.0


From 0f8114a420b249ac2153240c9f1ca57ca0479404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:27 +0000
Subject: [PATCH 10/43] fix: CBORReader reads strings and bytes longer than its
 buffer, and returns bytes it owns

---
 dsio/cbor.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/dsio/cbor.go b/dsio/cbor.go
index b5d918a..0b56a67 100644
--- a/dsio/cbor.go
+++ b/dsio/cbor.go
@@ -6,6 +6,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
+	"io/ioutil"
 	"math"
 
 	"github.com/qri-io/dataset"
@@ -430,14 +431,17 @@ func (r *CBORReader) readFloatBytes(num int) (float64, error) {
 
 // readBytes reads a number of bytes from the input stream
 func (r *CBORReader) readBytes(num int) ([]byte, error) {
-	buff, err := r.rdr.Peek(num)
-	if err != nil {
-		return nil, err
+	if num < 0 {
+		return nil, fmt.Errorf("invalid length: %d", num)
 	}
-	_, err = r.rdr.Discard(num)
+	// read incrementally, allocating no more than the input actually holds
+	buff, err := ioutil.ReadAll(io.LimitReader(r.rdr, int64(num)))
 	if err != nil {
 		return nil, err
 	}
+	if len(buff) < num {
+		return nil, io.ErrUnexpectedEOF
+	}
 	return buff, nil
 }
 
-- 
2.43.0


From 81ef628fefc67def537af8124bca35ce39191d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:46 +0000
Subject: [PATCH 11/43] fix: CBORReader reads negative integers below -24

---
 dsio/cbor.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dsio/cbor.go b/dsio/cbor.go
index 0b56a67..520bc36 100644
--- a/dsio/cbor.go
+++ b/dsio/cbor.go
@@ -206,6 +206,15 @@ func (r *CBORReader) readValue() (interface{}, error) {
 		return r.getVarLenInt(b)
 	} else if b >= 0x20 && b < 0x38 {
 		return -int64(b - 0x1f), nil
+	} else if b >= 0x38 && b < 0x3c {
+		n, err := r.getVarLenInt(b)
+		if err != nil {
+			return nil, err
+		}
+		if n < 0 {
+			return nil, fmt.Errorf("negative integer is out of range")
+		}
+		return -1 - n, nil
 	}
 
 	switch b {
-- 
2.43.0


From 43cab5455cc7e00e4b57ea3b8e4e7308c0de4b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:50 +0000
Subject: [PATCH 12/43] fix: CBORReader doesn't allocate an array's declared
 length up front

---
 dsio/cbor.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dsio/cbor.go b/dsio/cbor.go
index 520bc36..ffae2ff 100644
--- a/dsio/cbor.go
+++ b/dsio/cbor.go
@@ -353,7 +353,12 @@ func (r *CBORReader) readLengthPrefixedBytes(b byte) ([]byte, error) {
 func (r *CBORReader) readArray(length int) ([]interface{}, error) {
 	var array []interface{}
 	if length > 0 {
-		array = make([]interface{}, 0, length)
+		// the declared length is untrusted input, only use it as a hint
+		hint := length
+		if hint > 1024 {
+			hint = 1024
+		}
+		array = make([]interface{}, 0, hint)
 	} else {
 		array = make([]interface{}, 0)
 	}
-- 
2.43.0


From fac78a9e08a69b6e465a220df42754a05cb20774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:53 +0000
Subject: [PATCH 13/43] fix: CBORReader decodes half- and single-precision
 floats

---
 dsio/cbor.go | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/dsio/cbor.go b/dsio/cbor.go
index ffae2ff..59706be 100644
--- a/dsio/cbor.go
+++ b/dsio/cbor.go
@@ -437,12 +437,36 @@ func (r *CBORReader) readFloatBytes(num int) (float64, error) {
 	if err != nil {
 		return 0.0, err
 	}
-	if num < 8 {
-		data = bytes.Join([][]byte{bytes.Repeat([]byte{0}, 8-len(data)), data}, []byte{})
+	switch num {
+	case 2:
+		return float16(binary.BigEndian.Uint16(data)), nil
+	case 4:
+		return float64(math.Float32frombits(binary.BigEndian.Uint32(data))), nil
 	}
 	return math.Float64frombits(binary.BigEndian.Uint64(data)), nil
 }
 
+// float16 converts the bits of an IEEE 754 half-precision float
+func float16(h uint16) float64 {
+	exp, mant := int(h>>10)&0x1f, float64(h&0x3ff)
+	var f float64
+	switch exp {
+	case 0:
+		f = math.Ldexp(mant, -24)
+	case 0x1f:
+		if mant != 0 {
+			return math.NaN()
+		}
+		f = math.Inf(1)
+	default:
+		f = math.Ldexp(mant+1024, exp-25)
+	}
+	if h&0x8000 != 0 {
+		f = -f
+	}
+	return f
+}
+
 // readBytes reads a number of bytes from the input stream
 func (r *CBORReader) readBytes(num int) ([]byte, error) {
 	if num < 0 {
-- 
2.43.0


From 1f90aa24154d1282e73b2af467c5e8db5bc9cccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:56 +0000
Subject: [PATCH 14/43] fix: CBORReader reads the value that follows a tag

---
 dsio/cbor.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dsio/cbor.go b/dsio/cbor.go
index 59706be..7193460 100644
--- a/dsio/cbor.go
+++ b/dsio/cbor.go
@@ -312,8 +312,11 @@ func (r *CBORReader) readValue() (interface{}, error) {
 			}
 			return assoc, nil
 		case cborBaseTag:
-			// TODO: Implement me
-			return nil, nil
+			// tags annotate the value that follows, read past them
+			if _, err := r.getVarLenInt(b); err != nil {
+				return nil, err
+			}
+			return r.readValue()
 		case cborBaseSimple:
 			// TODO: Implement me
 			return nil, nil
-- 
2.43.0


From 78fb0da50e05d827df24a0fffce1079e2ac56e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:15 +0000
Subject: [PATCH 15/43] fix: CBORReader rejects lengths that overflow instead
 of misreading them

---
 dsio/cbor.go | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/dsio/cbor.go b/dsio/cbor.go
index 7193460..f504d66 100644
--- a/dsio/cbor.go
+++ b/dsio/cbor.go
@@ -163,12 +163,12 @@ func (r *CBORReader) readTopLevel() (byte, int, error) {
 		return t, indefiniteLength, err
 	}
 
-	length, err := r.getVarLenInt(b)
+	length, err := r.readLength(b)
 	if err != nil {
 		return 0, 0, err
 	}
 
-	return t, int(length), nil
+	return t, length, nil
 }
 
 // readStringKey reads a key for a map from the input stream
@@ -182,12 +182,12 @@ func (r *CBORReader) readStringKey() (string, error) {
 		return "", fmt.Errorf("expected string for key")
 	}
 
-	length, err := r.getVarLenInt(b)
+	length, err := r.readLength(b)
 	if err != nil {
 		return "", err
 	}
 
-	buff, err := r.readBytes(int(length))
+	buff, err := r.readBytes(length)
 	if err != nil {
 		return "", err
 	}
@@ -292,21 +292,21 @@ func (r *CBORReader) readValue() (interface{}, error) {
 			}
 			return buff, nil
 		case cborBaseArray:
-			length, err := r.getVarLenInt(b)
+			length, err := r.readLength(b)
 			if err != nil {
 				return nil, err
 			}
-			array, err := r.readArray(int(length))
+			array, err := r.readArray(length)
 			if err != nil {
 				return nil, err
 			}
 			return array, nil
 		case cborBaseMap:
-			length, err := r.getVarLenInt(b)
+			length, err := r.readLength(b)
 			if err != nil {
 				return nil, err
 			}
-			assoc, err := r.readMap(int(length))
+			assoc, err := r.readMap(length)
 			if err != nil {
 				return nil, err
 			}
@@ -341,11 +341,11 @@ func (r *CBORReader) readIndefiniteSequenceBreak() bool {
 
 // readLengthPrefixedBytes returns a number of bytes prefixed by the number of bytes to read
 func (r *CBORReader) readLengthPrefixedBytes(b byte) ([]byte, error) {
-	length, err := r.getVarLenInt(b)
+	length, err := r.readLength(b)
 	if err != nil {
 		return nil, err
 	}
-	buff, err := r.readBytes(int(length))
+	buff, err := r.readBytes(length)
 	if err != nil {
 		return nil, err
 	}
@@ -404,6 +404,18 @@ func (r *CBORReader) readMap(length int) (map[string]interface{}, error) {
 	return assoc, nil
 }
 
+// readLength reads a definite length, which must fit in an int
+func (r *CBORReader) readLength(b byte) (int, error) {
+	length, err := r.getVarLenInt(b)
+	if err != nil {
+		return 0, err
+	}
+	if length < 0 || length != int64(int(length)) {
+		return 0, fmt.Errorf("length is out of range")
+	}
+	return int(length), nil
+}
+
 // getVarLenInt handles the byte most recently read, and possibly reads more bytes, to get an int
 func (r *CBORReader) getVarLenInt(b byte) (int64, error) {
 	b = b & 0x1f
@@ -472,9 +484,6 @@ func float16(h uint16) float64 {
 
 // readBytes reads a number of bytes from the input stream
 func (r *CBORReader) readBytes(num int) ([]byte, error) {
-	if num < 0 {
-		return nil, fmt.Errorf("invalid length: %d", num)
-	}
 	// read incrementally, allocating no more than the input actually holds
 	buff, err := ioutil.ReadAll(io.LimitReader(r.rdr, int64(num)))
 	if err != nil {
-- 
2.43.0


From 17f6d2373f4b38ffbcc1c68fa84b1c2ec7073f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:19 +0000
Subject: [PATCH 16/43] fix: CBORReader keeps unsigned integers above the int64
 range

---
 dsio/cbor.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/dsio/cbor.go b/dsio/cbor.go
index f504d66..7bb2371 100644
--- a/dsio/cbor.go
+++ b/dsio/cbor.go
@@ -203,7 +203,15 @@ func (r *CBORReader) readValue() (interface{}, error) {
 	}
 
 	if b < 0x1c {
-		return r.getVarLenInt(b)
+		n, err := r.getVarLenInt(b)
+		if err != nil {
+			return nil, err
+		}
+		if n < 0 {
+			// values that overflow int64 remain unsigned
+			return uint64(n), nil
+		}
+		return n, nil
 	} else if b >= 0x20 && b < 0x38 {
 		return -int64(b - 0x1f), nil
 	} else if b >= 0x38 && b < 0x3c {
-- 
2.43.0


From edc5ec78128949d5b7fe448f6be768d9a19633d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:02 +0000
Subject: [PATCH 17/43] fix: CBORReader reports truncated input

---
 dsio/cbor.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/dsio/cbor.go b/dsio/cbor.go
index 7bb2371..7556141 100644
--- a/dsio/cbor.go
+++ b/dsio/cbor.go
@@ -77,15 +77,23 @@ func (r *CBORReader) ReadEntry() (ent Entry, err error) {
 		if top != r.topLevel {
 			return ent, fmt.Errorf("Top-level type did not match")
 		}
-		// TODO(dustmop): Length is not used right now, except for handling indefinite length
-		// streams. In the future, it should be used to check that max(r.rowsRead) == r.length
+		// TODO(dustmop): Length is only used to detect missing entries and for handling indefinite
+		// length streams. In the future, it should be used to check that max(r.rowsRead) == r.length
 		r.length = length
 	}
 
 	if r.length == indefiniteLength && r.readIndefiniteSequenceBreak() {
+		r.length = r.rowsRead
 		return ent, io.EOF
 	}
 
+	// running out of input before the top level value ends is an error
+	defer func() {
+		if err == io.EOF && (r.length == indefiniteLength || r.rowsRead < r.length) {
+			err = io.ErrUnexpectedEOF
+		}
+	}()
+
 	if r.topLevel == cborBaseMap {
 		ent.Key, err = r.readStringKey()
 		if err != nil {
-- 
2.43.0


From 825365014455a58d80b3481b87f15168d1cfbf57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:56 +0000
Subject: [PATCH 18/43] fix: JSONReader reads integers larger than 64 bits as
 floats

---
 dsio/json.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dsio/json.go b/dsio/json.go
index e31f1d6..7b2fcbd 100644
--- a/dsio/json.go
+++ b/dsio/json.go
@@ -5,6 +5,7 @@ import (
 	"bytes"
 	"encoding/hex"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"io"
 	"strconv"
@@ -402,11 +403,16 @@ func (r *JSONReader) readNumber() (interface{}, error) {
 		if isFloat {
 			return strconv.ParseFloat(r.extractFromBuffer(buff, i), 64)
 		}
-		num, err := strconv.Atoi(r.extractFromBuffer(buff, i))
+		text := r.extractFromBuffer(buff, i)
+		num, err := strconv.ParseInt(text, 10, 64)
+		if errors.Is(err, strconv.ErrRange) {
+			// integers that don't fit in 64 bits are read as floats
+			return strconv.ParseFloat(text, 64)
+		}
 		if err != nil {
 			return nil, err
 		}
-		return int64(num), nil
+		return num, nil
 	}
 	return 0, fmt.Errorf("Expected: number")
 }
-- 
2.43.0


From 07960174780f251b398d9f1fe074997808fb18ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:00 +0000
Subject: [PATCH 19/43] fix: JSONReader reports an error in the first element
 of an array

---
 dsio/json.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsio/json.go b/dsio/json.go
index 7b2fcbd..1ae83f7 100644
--- a/dsio/json.go
+++ b/dsio/json.go
@@ -458,7 +458,7 @@ func (r *JSONReader) readArray() ([]interface{}, error) {
 	// Read first element.
 	val, err := r.readValue()
 	if err != nil {
-		return array, nil
+		return array, err
 	}
 	array = append(array, val)
 	// Read the rest of the elements.
-- 
2.43.0


From 9009072f49b5f49a5ba2548a53687170858eb8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:04 +0000
Subject: [PATCH 20/43] fix: JSONReader doesn't read past a buffer ending in an
 escape character

---
 dsio/json.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsio/json.go b/dsio/json.go
index 1ae83f7..97b7275 100644
--- a/dsio/json.go
+++ b/dsio/json.go
@@ -353,11 +353,12 @@ func (r *JSONReader) readString() (string, error) {
 	}
 
 	for {
-		if i >= len(buff) {
+		// an escape sequence can step past the end of the buffer
+		for i >= len(buff) {
 			var more bool
 			buff, more = r.extendBuffer(buff)
 			if !more {
-				break
+				return "", fmt.Errorf("Expected: closing '\"' for string")
 			}
 		}
 		if buff[i] == '\\' {
@@ -373,7 +374,6 @@ func (r *JSONReader) readString() (string, error) {
 		}
 		i++
 	}
-	return "", fmt.Errorf("Expected: closing '\"' for string")
 }
 
 func (r *JSONReader) readNumber() (interface{}, error) {
-- 
2.43.0


From 88b7d618937d5ed342fe82b15f7a5368567de594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:08 +0000
Subject: [PATCH 21/43] fix: JSONReader doesn't panic on a cut off escape
 sequence

---
 dsio/json.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dsio/json.go b/dsio/json.go
index 97b7275..729d29f 100644
--- a/dsio/json.go
+++ b/dsio/json.go
@@ -303,6 +303,11 @@ func unquoteJSONString(srcBuff []byte) string {
 				// Technically this is out of spec, but we handle it
 				// because some apps incorrectly output json with
 				// \xAA character sequences
+				if s+3 > limit {
+					dstBuff[d] = '?'
+					d++
+					break
+				}
 				hexChars := srcBuff[s+1 : s+3]
 				s += 3
 				bs, err := hex.DecodeString(string(hexChars))
@@ -315,6 +320,11 @@ func unquoteJSONString(srcBuff []byte) string {
 				continue
 			} else if ch == 'u' {
 				// A unicode code-point escape sequence
+				if s+5 > limit {
+					dstBuff[d] = '?'
+					d++
+					break
+				}
 				hexChars := srcBuff[s+1 : s+5]
 				s += 5
 				res, err := strconv.Unquote(fmt.Sprintf("'\\u%s'", hexChars))
-- 
2.43.0


From 77590cbee8826665d2399c7db1bb2b864755033d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:12 +0000
Subject: [PATCH 22/43] fix: JSONReader decodes surrogate pair escapes

---
 dsio/json.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/dsio/json.go b/dsio/json.go
index 729d29f..ceab6b5 100644
--- a/dsio/json.go
+++ b/dsio/json.go
@@ -9,6 +9,8 @@ import (
 	"fmt"
 	"io"
 	"strconv"
+	"unicode/utf16"
+	"unicode/utf8"
 
 	"github.com/qri-io/dataset"
 )
@@ -327,6 +329,18 @@ func unquoteJSONString(srcBuff []byte) string {
 				}
 				hexChars := srcBuff[s+1 : s+5]
 				s += 5
+				if s+6 <= limit && srcBuff[s] == '\\' && srcBuff[s+1] == 'u' {
+					// code points outside the basic plane are escaped as a surrogate pair
+					hi, hiErr := strconv.ParseUint(string(hexChars), 16, 16)
+					lo, loErr := strconv.ParseUint(string(srcBuff[s+2:s+6]), 16, 16)
+					if hiErr == nil && loErr == nil {
+						if r := utf16.DecodeRune(rune(hi), rune(lo)); r != utf8.RuneError {
+							d += utf8.EncodeRune(dstBuff[d:], r)
+							s += 6
+							continue
+						}
+					}
+				}
 				res, err := strconv.Unquote(fmt.Sprintf("'\\u%s'", hexChars))
 				if err == nil {
 					for _, b := range []byte(res) {
-- 
2.43.0


From cff62d04a482e77b525ba4ac0d75e20fa738bdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:16 +0000
Subject: [PATCH 23/43] fix: JSONWriter output stays valid after an entry that
 cannot be encoded

---
 dsio/json.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/dsio/json.go b/dsio/json.go
index ceab6b5..ee17fcd 100644
--- a/dsio/json.go
+++ b/dsio/json.go
@@ -578,6 +578,13 @@ func (w *JSONWriter) Structure() *dataset.Structure {
 
 // WriteEntry writes one JSON record to the writer
 func (w *JSONWriter) WriteEntry(ent Entry) error {
+	// encode first, an entry that cannot be encoded must not affect what's written
+	data, err := w.valBytes(ent)
+	if err != nil {
+		log.Debug(err.Error())
+		return err
+	}
+
 	defer func() {
 		w.rowsWritten++
 	}()
@@ -592,12 +599,6 @@ func (w *JSONWriter) WriteEntry(ent Entry) error {
 		}
 	}
 
-	data, err := w.valBytes(ent)
-	if err != nil {
-		log.Debug(err.Error())
-		return err
-	}
-
 	// If between elems, put a comma. If pretty, newline as well.
 	enc := []byte{','}
 	if w.rowsWritten == 0 {
-- 
2.43.0


From bc3ae3178f6703b6bfc87be9d289ee144a69a339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:05 +0000
Subject: [PATCH 24/43] fix: replacecr expands a carriage return in the last
 byte of the read buffer

---
 dsio/replacecr/replace_cr.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/dsio/replacecr/replace_cr.go b/dsio/replacecr/replace_cr.go
index b7b301c..98b10eb 100644
--- a/dsio/replacecr/replace_cr.go
+++ b/dsio/replacecr/replace_cr.go
@@ -17,14 +17,14 @@ import (
 // if read from directly. This can cause issues with checksums and byte counts.
 // Use with caution.
 func Reader(data io.Reader) io.Reader {
-	return crlfReplaceReader{
+	return &crlfReplaceReader{
 		rdr: bufio.NewReader(data),
 	}
 }
 
 // ReaderWithSize instaties a reader with a given buffer size
 func ReaderWithSize(data io.Reader, size int) io.Reader {
-	return crlfReplaceReader{
+	return &crlfReplaceReader{
 		rdr: bufio.NewReaderSize(data, size),
 	}
 }
@@ -32,10 +32,12 @@ func ReaderWithSize(data io.Reader, size int) io.Reader {
 // crlfReplaceReader wraps a reader
 type crlfReplaceReader struct {
 	rdr *bufio.Reader
+	// addLF is true when the last byte delivered is a lonely \r
+	addLF bool
 }
 
 // Read implements io.Reader for crlfReplaceReader
-func (c crlfReplaceReader) Read(p []byte) (n int, err error) {
+func (c *crlfReplaceReader) Read(p []byte) (n int, err error) {
 	lenP := len(p)
 	if lenP == 0 {
 		return
@@ -46,17 +48,23 @@ func (c crlfReplaceReader) Read(p []byte) (n int, err error) {
 			return
 		}
 
+		if c.addLF {
+			p[n] = '\n'
+			c.addLF = false
+			n++
+			continue
+		}
+
 		p[n], err = c.rdr.ReadByte()
 		if err != nil {
 			return
 		}
 
-		// any time we encounter \r & still have space, check to see if \n follows
-		// ff next char is not \n, add it in manually
-		if p[n] == '\r' && n < lenP-1 {
+		// any time we encounter \r, check to see if \n follows
+		// if next char is not \n, add it in manually, on the next read if p is full
+		if p[n] == '\r' {
 			if pk, err := c.rdr.Peek(1); (err == nil && pk[0] != '\n') || (err != nil && err.Error() == "EOF") {
-				n++
-				p[n] = '\n'
+				c.addLF = true
 			}
 		}
 
-- 
2.43.0


From 88c2137630631fbd1b67a5f40e775359823778dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:09 +0000
Subject: [PATCH 25/43] fix: CSVWriter.Close reports a failed write

---
 dsio/csv.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsio/csv.go b/dsio/csv.go
index 9573504..c6742ad 100644
--- a/dsio/csv.go
+++ b/dsio/csv.go
@@ -286,6 +286,9 @@ func encode(vs []interface{}) ([]string, error) {
 // will be written
 func (w *CSVWriter) Close() error {
 	w.w.Flush()
+	if err := w.w.Error(); err != nil {
+		return err
+	}
 	if w.close != nil {
 		return w.close()
 	}
-- 
2.43.0


From dbb0249340fd4f485e268703a0570ea2ffaca7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:13 +0000
Subject: [PATCH 26/43] fix: CSVWriter reports values it cannot encode instead
 of dropping them

---
 dsio/csv.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/dsio/csv.go b/dsio/csv.go
index c6742ad..5b6b72d 100644
--- a/dsio/csv.go
+++ b/dsio/csv.go
@@ -261,13 +261,17 @@ func encode(vs []interface{}) ([]string, error) {
 		case float64:
 			strings[i] = strconv.FormatFloat(t, 'f', -1, 64)
 		case []interface{}:
-			if data, err := json.Marshal(t); err == nil {
-				strings[i] = string(data)
+			data, err := json.Marshal(t)
+			if err != nil {
+				return nil, fmt.Errorf("column %d: %s", i, err)
 			}
+			strings[i] = string(data)
 		case map[string]interface{}:
-			if data, err := json.Marshal(t); err == nil {
-				strings[i] = string(data)
+			data, err := json.Marshal(t)
+			if err != nil {
+				return nil, fmt.Errorf("column %d: %s", i, err)
 			}
+			strings[i] = string(data)
 		case bool:
 			if t {
 				strings[i] = "true"
@@ -276,6 +280,8 @@ func encode(vs []interface{}) ([]string, error) {
 			}
 		case nil:
 			strings[i] = ""
+		default:
+			return nil, fmt.Errorf("column %d: unsupported type %T", i, v)
 		}
 	}
 
-- 
2.43.0


From 8fcde04dde558f2a2c4fa6f1d9eff2f5303af608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:17 +0000
Subject: [PATCH 27/43] fix: CSVWriter keeps rows made of a single empty cell

---
 dsio/csv.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/dsio/csv.go b/dsio/csv.go
index 5b6b72d..6d6ca13 100644
--- a/dsio/csv.go
+++ b/dsio/csv.go
@@ -177,6 +177,7 @@ func HasHeaderRow(st *dataset.Structure) bool {
 type CSVWriter struct {
 	rowsWritten int
 	w           *csv.Writer
+	wr          io.Writer // destination of w
 	st          *dataset.Structure
 	close       func() error
 
@@ -214,6 +215,7 @@ func NewCSVWriter(st *dataset.Structure, w io.Writer) (*CSVWriter, error) {
 	wr := &CSVWriter{
 		st:    st,
 		w:     writer,
+		wr:    cw,
 		types: types,
 		close: close,
 	}
@@ -240,6 +242,15 @@ func (w *CSVWriter) WriteEntry(ent Entry) error {
 			log.Debug(err.Error())
 			return fmt.Errorf("error encoding entry: %s", err.Error())
 		}
+		if len(strs) == 1 && strs[0] == "" {
+			// csv.Writer writes this record as a blank line, which readers skip
+			w.w.Flush()
+			if err := w.w.Error(); err != nil {
+				return err
+			}
+			_, err := io.WriteString(w.wr, "\"\"\n")
+			return err
+		}
 		return w.w.Write(strs)
 	}
 	return fmt.Errorf("expected array value to write csv row. got: %v", ent)
-- 
2.43.0


From 8fdae621f905e68f3ffed4a0954c76d30331746f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:30 +0000
Subject: [PATCH 28/43] fix: columns with no usable type default to string

---
 tabular/tabular.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tabular/tabular.go b/tabular/tabular.go
index f25ea4e..4627d53 100644
--- a/tabular/tabular.go
+++ b/tabular/tabular.go
@@ -175,9 +175,9 @@ func arrayWrapperColumns(sch map[string]interface{}) (Columns, []string, error)
 					cols[i].Title = title
 				}
 			case "type":
-				setType = true
 				switch x := val.(type) {
 				case string:
+					setType = true
 					cols[i].Type = &ColType{x}
 				case []interface{}:
 					types := ColType{}
@@ -186,7 +186,10 @@ func arrayWrapperColumns(sch map[string]interface{}) (Columns, []string, error)
 							types = append(types, t)
 						}
 					}
-					cols[i].Type = &types
+					if len(types) > 0 {
+						setType = true
+						cols[i].Type = &types
+					}
 				}
 			case "description":
 				if d, ok := val.(string); ok {
-- 
2.43.0


From a00b5c3be6e0ef1dda27da34ed2aaaf675985a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:50 +0000
Subject: [PATCH 29/43] fix: JSON schema detection only examines bytes it has
 read

---
 detect/json.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/detect/json.go b/detect/json.go
index e94d5e9..83a4e12 100644
--- a/detect/json.go
+++ b/detect/json.go
@@ -37,7 +37,7 @@ func JSONSchema(resource *dataset.Structure, data io.Reader) (schema map[string]
 			}
 		}
 
-		for _, b := range buf {
+		for _, b := range buf[:count] {
 			switch b {
 			case '[':
 				return dataset.BaseSchemaArray, n, nil
-- 
2.43.0


From c7518eae3678afeef2e5db023eef03d602406aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:53 +0000
Subject: [PATCH 30/43] fix: stepfile.Write reports a failed separator write

---
 stepfile/stepfile.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stepfile/stepfile.go b/stepfile/stepfile.go
index c0261dc..9a1711f 100644
--- a/stepfile/stepfile.go
+++ b/stepfile/stepfile.go
@@ -55,7 +55,9 @@ func Write(steps []*dataset.TransformStep, w io.Writer) error {
 			return err
 		}
 		if i != len(steps)-1 {
-			w.Write([]byte("\n---\n"))
+			if _, err := w.Write([]byte("\n---\n")); err != nil {
+				return err
+			}
 		}
 	}
 	return nil
-- 
2.43.0


From f5264e40398c455942925ea4e804efad0f67faa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:56 +0000
Subject: [PATCH 31/43] fix: generated booleans are a coin flip

---
 generate/value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generate/value.go b/generate/value.go
index 33df384..bada811 100644
--- a/generate/value.go
+++ b/generate/value.go
@@ -75,7 +75,7 @@ func (g *ValueGenerator) Int() int {
 
 // Bool yields a random coin flip
 func (g *ValueGenerator) Bool() bool {
-	return g.Rand.Intn(1)%2 == 0
+	return g.Rand.Intn(2) == 0
 }
 
 // Object creates an empty object
-- 
2.43.0


From 5ee97bc65cd4b1b69252121fe395c49cf263d720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:14 +0000
Subject: [PATCH 32/43] fix: comparisons drop transient values of both sides

---
 dstest/compare.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dstest/compare.go b/dstest/compare.go
index 4ff1529..3401c7d 100644
--- a/dstest/compare.go
+++ b/dstest/compare.go
@@ -27,7 +27,7 @@ func CompareDatasets(expect, got *dataset.Dataset, opts ...CompareOpts) string {
 
 	if cfg.dropTransients {
 		a.DropTransientValues()
-		a.DropTransientValues()
+		b.DropTransientValues()
 	}
 
 	return cmp.Diff(a, b, cmpopts.IgnoreUnexported(
@@ -75,7 +75,7 @@ func CompareCommits(expect, got *dataset.Commit, opts ...CompareOpts) string {
 
 	if cfg.dropTransients {
 		a.DropTransientValues()
-		a.DropTransientValues()
+		b.DropTransientValues()
 	}
 
 	return cmp.Diff(a, b, cmpopts.IgnoreUnexported(
@@ -98,7 +98,7 @@ func CompareMetas(expect, got *dataset.Meta, opts ...CompareOpts) string {
 
 	if cfg.dropTransients {
 		a.DropTransientValues()
-		a.DropTransientValues()
+		b.DropTransientValues()
 	}
 
 	return cmp.Diff(a, b, cmpopts.IgnoreUnexported(
@@ -121,7 +121,7 @@ func CompareStructures(expect, got *dataset.Structure, opts ...CompareOpts) stri
 
 	if cfg.dropTransients {
 		a.DropTransientValues()
-		a.DropTransientValues()
+		b.DropTransientValues()
 	}
 
 	return cmp.Diff(a, b, cmpopts.IgnoreUnexported(
-- 
2.43.0


From 322a80ba2a8b323f8059ed42c05d723e15aa1d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:17 +0000
Subject: [PATCH 33/43] fix: rendering leaves the whole body readable

---
 dsviz/render.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/dsviz/render.go b/dsviz/render.go
index 8a37a70..ea094ad 100644
--- a/dsviz/render.go
+++ b/dsviz/render.go
@@ -161,8 +161,17 @@ func bodyEntries(ds *dataset.Dataset, offset, limit int) (interface{}, error) {
 
 	// load all body data
 	bodyFile := ds.BodyFile()
+	if bodyFile == nil {
+		return nil, fmt.Errorf("can't get_body. dataset has no body file")
+	}
 	bodyBytesBuf := &bytes.Buffer{}
 	tr := io.TeeReader(bodyFile, bodyBytesBuf)
+
+	defer func() {
+		// restore body file, gluing bytes that are read onto any that aren't
+		ds.SetBodyFile(qfs.NewMemfileReader(bodyFile.FileName(), io.MultiReader(bodyBytesBuf, bodyFile)))
+	}()
+
 	rr, err := dsio.NewEntryReader(ds.Structure, tr)
 	if err != nil {
 		return nil, fmt.Errorf("error allocating data reader: %s", err)
@@ -181,11 +190,6 @@ func bodyEntries(ds *dataset.Dataset, offset, limit int) (interface{}, error) {
 		return nil, err
 	}
 
-	defer func() {
-		// restore body file
-		ds.SetBodyFile(qfs.NewMemfileReader(bodyFile.FileName(), bodyBytesBuf))
-	}()
-
 	return bodyEntries, nil
 }
 
-- 
2.43.0


From 540a012ac69c75584faf917e6d8386f4659584ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:34 +0000
Subject: [PATCH 34/43] fix: numeric stats report min & max of values outside
 the 64 bit integer range

---
 dsstats/stats.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dsstats/stats.go b/dsstats/stats.go
index f774c78..c3ab674 100644
--- a/dsstats/stats.go
+++ b/dsstats/stats.go
@@ -3,6 +3,7 @@ package dsstats
 
 import (
 	"fmt"
+	"math"
 	"sort"
 
 	"github.com/axiomhq/hyperloglog"
@@ -313,8 +314,8 @@ var _ accumulator = (*numericAcc)(nil)
 func newNumericAcc(typ string) *numericAcc {
 	return &numericAcc{
 		typ:    typ,
-		max:    float64(minInt),
-		min:    float64(maxInt),
+		max:    math.Inf(-1),
+		min:    math.Inf(1),
 		median: maxFloat,
 		// use histogram to accumulate values
 		histogram: []float64{},
-- 
2.43.0


From b14150a7cbddf0ec05f8cbc81298e456bfc90276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:37 +0000
Subject: [PATCH 35/43] fix: preview of a body without structure is an error,
 not a panic

---
 preview/preview.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/preview/preview.go b/preview/preview.go
index 328ba45..26914b6 100644
--- a/preview/preview.go
+++ b/preview/preview.go
@@ -77,6 +77,10 @@ func Create(ctx context.Context, ds *dataset.Dataset) (*dataset.Dataset, error)
 	}
 
 	if ds.BodyFile() != nil {
+		if ds.Structure == nil {
+			log.Debug("Create: body without structure")
+			return nil, fmt.Errorf("structure is required to preview a body")
+		}
 		st := &dataset.Structure{
 			Format: "json",
 			Schema: ds.Structure.Schema,
-- 
2.43.0


From 50a381de9b569b8e8e00ef1e8b4d4a8b863c15ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:40 +0000
Subject: [PATCH 36/43] fix: rendering a viz without a script file is an error,
 not a panic

---
 dsviz/render.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsviz/render.go b/dsviz/render.go
index ea094ad..52b917f 100644
--- a/dsviz/render.go
+++ b/dsviz/render.go
@@ -37,6 +37,9 @@ var PredefinedHTMLTemplates map[string]string
 
 func renderHTML(ds *dataset.Dataset) (qfs.File, error) {
 	script := ds.Viz.ScriptFile()
+	if script == nil {
+		return nil, fmt.Errorf("viz component has no script file")
+	}
 	// tee the viz file to avoid losing script data
 	vizScriptBuf := &bytes.Buffer{}
 	tr := io.TeeReader(script, vizScriptBuf)
-- 
2.43.0


From f9b9ff4fd05b65a3c1e1d33e7c307ea9d4bb4460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:58 +0000
Subject: [PATCH 37/43] fix: decoded histogram sketches count merged centroids

---
 dsstats/histosketch/histosketch.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsstats/histosketch/histosketch.go b/dsstats/histosketch/histosketch.go
index 260fb0c..159caee 100644
--- a/dsstats/histosketch/histosketch.go
+++ b/dsstats/histosketch/histosketch.go
@@ -272,7 +272,8 @@ func (h *Sketch) UnmarshalBinary(data []byte) error {
 			return err
 		}
 		h.cs = append(h.cs, c)
-		h.count += c.m
+		// merged centroids have a negative m
+		h.count += math.Abs(c.m)
 	}
 	// Read min and max.
 	_, err = fmt.Fscanln(b, &h.min, &h.max)
-- 
2.43.0


From 57548a0477daa0e5368fa677ea05623f10c454b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:01 +0000
Subject: [PATCH 38/43] fix: histogram frequencies are never negative

---
 dsstats/histosketch/histosketch.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsstats/histosketch/histosketch.go b/dsstats/histosketch/histosketch.go
index 159caee..d2a9750 100644
--- a/dsstats/histosketch/histosketch.go
+++ b/dsstats/histosketch/histosketch.go
@@ -404,7 +404,8 @@ func (h *Sketch) Read() ([]float64, []float64) {
 	histogram := make([]float64, len(h.cs))
 	for i := 0; i < len(h.cs); i++ {
 		bins[i] = h.cs[i].p
-		histogram[i] = h.cs[i].m
+		// merged centroids have a negative m
+		histogram[i] = math.Abs(h.cs[i].m)
 	}
 	bins[len(h.cs)] = h.max + 1
 	return bins, histogram
-- 
2.43.0


From d9433c5e0c19475f6a77f8dba5a324b237aa1fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:16 +0000
Subject: [PATCH 39/43] fix: IdentityReader signals the end of its entries by
 closing its channel

---
 dsio/identity.go | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/dsio/identity.go b/dsio/identity.go
index f3c5fe6..233093a 100644
--- a/dsio/identity.go
+++ b/dsio/identity.go
@@ -26,7 +26,6 @@ func NewIdentityReader(st *dataset.Structure, data interface{}) (*IdentityReader
 // IdentityReader is a dsio.EntryReader that works with native go types
 type IdentityReader struct {
 	st      *dataset.Structure
-	done    bool
 	entries chan Entry
 }
 
@@ -39,20 +38,18 @@ func (r *IdentityReader) Structure() *dataset.Structure {
 
 // ReadEntry reads one row of structured data from the reader
 func (r *IdentityReader) ReadEntry() (Entry, error) {
-	if r.done {
+	ent, ok := <-r.entries
+	if !ok {
 		return Entry{}, io.EOF
 	}
 
-	return <-r.entries, nil
+	return ent, nil
 }
 
 // Close finalizes the reader
 func (r *IdentityReader) Close() error {
-	if !r.done {
-		// drain channel to prevent leaking goroutine
-		for !r.done {
-			<-r.entries
-		}
+	// drain channel to prevent leaking goroutine
+	for range r.entries {
 	}
 	return nil
 }
@@ -64,7 +61,7 @@ func (r *IdentityReader) iterateMap(data map[string]interface{}) chan Entry {
 		for key, val := range data {
 			res <- Entry{Key: key, Value: val}
 		}
-		r.done = true
+		close(res)
 	}()
 
 	return res
@@ -77,7 +74,7 @@ func (r *IdentityReader) iterateSlice(data []interface{}) chan Entry {
 		for i, val := range data {
 			res <- Entry{Index: i, Value: val}
 		}
-		r.done = true
+		close(res)
 	}()
 
 	return res
-- 
2.43.0


From 23d0ea0de1384c66aad1fdb0576d39b2599e0930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:44 +0000
Subject: [PATCH 40/43] fix: an object entry that cannot be encoded as JSON
 doesn't take its key

---
 dsio/json.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsio/json.go b/dsio/json.go
index ee17fcd..a3d4831 100644
--- a/dsio/json.go
+++ b/dsio/json.go
@@ -630,7 +630,6 @@ func (w *JSONWriter) valBytes(ent Entry) (data []byte, err error) {
 		log.Debugf(`key already written: "%s"`, ent.Key)
 		return nil, fmt.Errorf(`key already written: "%s"`, ent.Key)
 	}
-	w.keysWritten[ent.Key] = true
 
 	// Write the key
 	if w.indent != "" {
@@ -658,6 +657,7 @@ func (w *JSONWriter) valBytes(ent Entry) (data []byte, err error) {
 		return data, err
 	}
 	data = append(data, val...)
+	w.keysWritten[ent.Key] = true
 	return data, nil
 }
 
-- 
2.43.0


From 320de2a3289d37d27c32da7273a79d47dda51800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:40 +0000
Subject: [PATCH 41/43] fix: validation errors past the first batch of rows
 name their row in the body

---
 validate/data.go | 37 +++++++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/validate/data.go b/validate/data.go
index f4071cc..2ad6936 100644
--- a/validate/data.go
+++ b/validate/data.go
@@ -4,6 +4,8 @@ import (
 	"context"
 	"encoding/json"
 	"fmt"
+	"strconv"
+	"strings"
 
 	"github.com/qri-io/dataset"
 	"github.com/qri-io/dataset/dsio"
@@ -12,7 +14,7 @@ import (
 
 const batchSize = 5000
 
-func flushBatch(ctx context.Context, buf *dsio.EntryBuffer, st *dataset.Structure, jsch *jsonschema.Schema, errs *[]jsonschema.KeyError) error {
+func flushBatch(ctx context.Context, buf *dsio.EntryBuffer, st *dataset.Structure, jsch *jsonschema.Schema, start int, errs *[]jsonschema.KeyError) error {
 	if len(buf.Bytes()) == 0 {
 		return nil
 	}
@@ -26,11 +28,34 @@ func flushBatch(ctx context.Context, buf *dsio.EntryBuffer, st *dataset.Structur
 		return fmt.Errorf("error parsing JSON bytes: %s", err.Error())
 	}
 	validationState := jsch.Validate(ctx, doc)
-	*errs = append(*errs, *validationState.Errs...)
+	_, isArray := doc.([]interface{})
+	for _, keyErr := range *validationState.Errs {
+		if isArray {
+			keyErr.PropertyPath = offsetPath(keyErr.PropertyPath, start)
+		}
+		*errs = append(*errs, keyErr)
+	}
 
 	return nil
 }
 
+// offsetPath adds start to the row index that leads a property path, turning a
+// path into a batch of rows into a path into the entire body
+func offsetPath(path string, start int) string {
+	if !strings.HasPrefix(path, "/") {
+		return path
+	}
+	row, rest := path[1:], ""
+	if i := strings.Index(row, "/"); i >= 0 {
+		row, rest = row[:i], row[i:]
+	}
+	idx, err := strconv.Atoi(row)
+	if err != nil {
+		return path
+	}
+	return "/" + strconv.Itoa(start+idx) + rest
+}
+
 // EntryReader consumes a reader & returns any validation errors present
 // TODO - refactor this to wrap a reader & return a struct that gives an
 // error or nil on each entry read.
@@ -53,13 +78,16 @@ func EntryReader(r dsio.EntryReader) ([]jsonschema.KeyError, error) {
 		return nil, fmt.Errorf("error allocating data buffer: %s", err.Error())
 	}
 
+	// index of the first row in buf
+	start := 0
+
 	err = dsio.EachEntry(r, func(i int, ent dsio.Entry, err error) error {
 		if err != nil {
 			return fmt.Errorf("error reading row %d: %s", i, err.Error())
 		}
 
 		if i%batchSize == 0 {
-			flushErr := flushBatch(ctx, buf, st, jsch, &valErrors)
+			flushErr := flushBatch(ctx, buf, st, jsch, start, &valErrors)
 			if flushErr != nil {
 				return flushErr
 			}
@@ -71,6 +99,7 @@ func EntryReader(r dsio.EntryReader) ([]jsonschema.KeyError, error) {
 			if bufErr != nil {
 				return fmt.Errorf("error allocating data buffer: %s", bufErr.Error())
 			}
+			start = i
 		}
 
 		err = buf.WriteEntry(ent)
@@ -85,7 +114,7 @@ func EntryReader(r dsio.EntryReader) ([]jsonschema.KeyError, error) {
 		return nil, fmt.Errorf("error reading values: %s", err.Error())
 	}
 
-	if err := flushBatch(ctx, buf, st, jsch, &valErrors); err != nil {
+	if err := flushBatch(ctx, buf, st, jsch, start, &valErrors); err != nil {
 		return nil, err
 	}
 
-- 
2.43.0


From 2a6fe4435336546aa683c06fbf632aa6616f8bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:33 +0000
Subject: [PATCH 42/43] fix: keep the extremes of both sketches when merging
 histogram sketches

---
 dsstats/histosketch/histosketch.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dsstats/histosketch/histosketch.go b/dsstats/histosketch/histosketch.go
index d2a9750..96a2a2a 100644
--- a/dsstats/histosketch/histosketch.go
+++ b/dsstats/histosketch/histosketch.go
@@ -141,6 +141,13 @@ func (h *Sketch) Merge(x Sketch) {
 	for _, c := range x.cs {
 		h.AddMany(c.p, int64(math.Abs(c.m)))
 	}
+	// merged centroids of x lie between the extremes of the values they stand for
+	if x.min < h.min {
+		h.min = x.min
+	}
+	if x.max > h.max {
+		h.max = x.max
+	}
 }
 
 // Gets the (i-1)-st and ith centroids. If i is 0, fake out the (i-1)-st with
-- 
2.43.0


From 3d472d50b1387853f5160d2626cd8b1643c65c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:20 +0000
Subject: [PATCH 43/43] fix: detect the structure of a compressed body from its
 decompressed bytes

---
 detect/detect.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/detect/detect.go b/detect/detect.go
index 77deb4f..129283e 100644
--- a/detect/detect.go
+++ b/detect/detect.go
@@ -127,12 +127,20 @@ func FromFile(path string) (st *dataset.Structure, err error) {
 }
 
 // FromReader detects a dataset structure from a reader and data format, returning a detected dataset
-// structure, the number of bytes read from the reader, and any error
+// structure, the number of (decompressed) bytes read from the reader, and any error
 func FromReader(format dataset.DataFormat, comp compression.Format, data io.Reader) (st *dataset.Structure, n int, err error) {
 	st = &dataset.Structure{
 		Format:      format.String(),
 		Compression: comp.String(),
 	}
+	if comp != compression.FmtNone {
+		rc, err := compression.Decompressor(comp.String(), data)
+		if err != nil {
+			return nil, 0, fmt.Errorf("decompressing data: %w", err)
+		}
+		defer rc.Close()
+		data = rc
+	}
 	st.Schema, n, err = Schema(st, data)
 	return
 }
-- 
2.43.0

