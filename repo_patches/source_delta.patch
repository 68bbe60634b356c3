From 2fbcbfb6da45c0781a70affd262abf499b244e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:40 +0000
Subject: [PATCH 01/29] fix: do not dereference the unset Verbose flag when
 used as a library

---
 pdf/logger.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf/logger.go b/pdf/logger.go
index 3349f53..ac20be5 100644
--- a/pdf/logger.go
+++ b/pdf/logger.go
@@ -8,7 +8,7 @@ import (
 var Verbose *bool
 
 func Debug(format string, a ...interface{}) {
-	if *Verbose {
+	if Verbose != nil && *Verbose {
 		if len(a) > 0 {
 			fmt.Fprintf(os.Stderr, format, a...)
 			fmt.Fprintln(os.Stderr, "")
-- 
2.43.0


From 686df4b84346f96b34c2ac74071168c58cc16d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:41 +0000
Subject: [PATCH 02/29] fix: close errors.txt instead of closing files.txt
 twice

---
 pdf/output.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf/output.go b/pdf/output.go
index d8b0066..fe1f173 100644
--- a/pdf/output.go
+++ b/pdf/output.go
@@ -71,7 +71,7 @@ func (output *Output) Close() {
 		output.Commands.Close()
 	}
 	if output.Errors != nil {
-		output.Files.Close()
+		output.Errors.Close()
 	}
 	if output.Files != nil {
 		output.Files.Close()
-- 
2.43.0


From 8ecd23e170a01ec8cc22aa40ca8f5c824964eec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:43 +0000
Subject: [PATCH 03/29] fix: keep valid xref entries when repairing the xref

---
 pdf/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf/parser.go b/pdf/parser.go
index e65b326..7cea254 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -60,7 +60,7 @@ func (parser *Parser) Load(password string) error {
 		if xref_entry, ok := parser.Xref[object_number]; ok {
 			// replace xref entry if it does not point to an object or points to the wrong object
 			parser.Seek(xref_entry.Offset, io.SeekStart)
-			if n, _, ok := parser.ReadObjectHeader(); ok || n != object_number {
+			if n, _, ok := parser.ReadObjectHeader(); !ok || n != object_number {
 				xref_entry.Offset = object.Offset
 			}
 		} else {
-- 
2.43.0


From f09ee74f82d83dbfc1e035d96986d970150632c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:44 +0000
Subject: [PATCH 04/29] fix: reject integer widths that can not be read from an
 xref stream

---
 pdf/utility.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdf/utility.go b/pdf/utility.go
index a1fe09f..bbf1c44 100644
--- a/pdf/utility.go
+++ b/pdf/utility.go
@@ -12,6 +12,9 @@ func ReadInt(reader io.Reader, width int) (int, bool) {
 
 // ReadInt reads width bytes from reader and returns the int64 value
 func ReadInt64(reader io.Reader, width int) (int64, bool) {
+	if width < 0 || width > 8 {
+		return 0, false
+	}
 	data := make([]byte, width)
 	bytes_read, _ := reader.Read(data)
 	if bytes_read != width {
-- 
2.43.0


From 3232277ff5da99f4c1ede0d5589d914a954fa82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:45 +0000
Subject: [PATCH 05/29] fix: do not loop over empty xref stream entries

---
 pdf/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pdf/parser.go b/pdf/parser.go
index 7cea254..0b7460a 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -326,6 +326,11 @@ func (parser *Parser) loadXrefStream(n int, offsets map[int64]interface{}) {
 		return
 	}
 
+	// entries without an offset field are useless and may never exhaust the stream
+	if offset_width <= 0 {
+		return
+	}
+
 	// parse xref subsections
 	data_reader := bytes.NewReader(object.Stream)
 	for i := 0; i < len(index) - 1; i += 2 {
-- 
2.43.0


From 4779845bd7710deeb795105a725f6fb1bb4131ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:46 +0000
Subject: [PATCH 06/29] fix: default xref stream entries without a type field
 to in use

---
 pdf/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pdf/parser.go b/pdf/parser.go
index 0b7460a..c553870 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -350,6 +350,10 @@ func (parser *Parser) loadXrefStream(n int, offsets map[int64]interface{}) {
 			if !ok {
 				return
 			}
+			if type_width == 0 {
+				// type defaults to in use when the type field is not present
+				xref_type = XrefTypeIndirectObject
+			}
 			offset, ok := ReadInt64(data_reader, offset_width)
 			if !ok {
 				return
-- 
2.43.0


From d3a9a00deef596aa0eb12866eda7262f08219225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:47 +0000
Subject: [PATCH 07/29] fix: limit crypt filter key length to the supported
 range

---
 pdf/encryption.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pdf/encryption.go b/pdf/encryption.go
index 7aa55c4..f9736f5 100644
--- a/pdf/encryption.go
+++ b/pdf/encryption.go
@@ -296,6 +296,14 @@ func (sh *SecurityHandler) Init(password []byte, trailer Dictionary) error {
 					length, ok := cfd.GetInt("Length")
 					if !ok {
 						length = sh.length
+					} else if length > 16 {
+						// length is in bits instead of bytes
+						length = length/8
+					}
+					if length < 5 {
+						length = 5
+					} else if length > 16 {
+						length = 16
 					}
 
 					// create filter entry
-- 
2.43.0


From bb9d3c848ec450fd9090a46d2c2c2aaeb927c726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:48 +0000
Subject: [PATCH 08/29] fix: report U entries that are too short instead of
 crashing

---
 pdf/encryption.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdf/encryption.go b/pdf/encryption.go
index f9736f5..a69d723 100644
--- a/pdf/encryption.go
+++ b/pdf/encryption.go
@@ -274,6 +274,9 @@ func (sh *SecurityHandler) Init(password []byte, trailer Dictionary) error {
 		}
 
 		// compare to first 16 bytes of U entry
+		if len(sh.u) < 16 {
+			return EncryptionError
+		}
 		if string(u) != string(sh.u[:16]) {
 			return EncryptionPasswordError
 		}
-- 
2.43.0


From 344efa8d3cd96e737208202f621fe82ae62d44b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:49 +0000
Subject: [PATCH 09/29] fix: load crypt filters that are indirect objects

---
 pdf/encryption.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdf/encryption.go b/pdf/encryption.go
index a69d723..e2039da 100644
--- a/pdf/encryption.go
+++ b/pdf/encryption.go
@@ -292,8 +292,8 @@ func (sh *SecurityHandler) Init(password []byte, trailer Dictionary) error {
 	// load additional crypt filters
 	if sh.r == 4 {
 		cf, _ := encrypt.GetDictionary("CF")
-		for k, entry := range cf {
-			if cfd, isDictionary := entry.(Dictionary); isDictionary {
+		for k := range cf {
+			if cfd, isDictionary := cf.GetDictionary(k); isDictionary {
 				if method, ok := cfd.GetName("CFM"); ok {
 					// get optional length
 					length, ok := cfd.GetInt("Length")
-- 
2.43.0


From 068f7800d0a19ea9b8a11ec1e228983570f0c7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:50 +0000
Subject: [PATCH 10/29] fix: use the stream filter for embedded files when
 there is no EEF entry

---
 pdf/encryption.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pdf/encryption.go b/pdf/encryption.go
index e2039da..bbd9453 100644
--- a/pdf/encryption.go
+++ b/pdf/encryption.go
@@ -332,6 +332,7 @@ func (sh *SecurityHandler) Init(password []byte, trailer Dictionary) error {
 				sh.string_filter = filter
 			}
 		}
+		sh.file_filter = sh.stream_filter
 		if name, ok := encrypt.GetName("EEF"); ok {
 			if filter, exists := sh.crypt_filters[name]; exists {
 				sh.file_filter = filter
-- 
2.43.0


From 8b364f26604b43d4c1052b625a274a5497722e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:52 +0000
Subject: [PATCH 11/29] fix: do not lose dictionaries and streams that straddle
 the read buffer

---
 pdf/parser.go  | 6 +++---
 pdf/utility.go | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pdf/parser.go b/pdf/parser.go
index c553870..1fad882 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -166,7 +166,7 @@ func (parser *Parser) getStartXrefOffset() (int64, bool) {
 	// read in buffer at offset
 	buffer := make([]byte, start_xref_scan_buffer_size)
 	parser.Seek(offset, io.SeekStart)
-	parser.Read(buffer)
+	io.ReadFull(parser, buffer)
 
 	// check for start xref
 	matches := start_xref_regexp.FindAllSubmatch(buffer, -1)
@@ -635,7 +635,7 @@ func (parser *Parser) ReadDictionary(decryptor Decryptor) Dictionary {
 
 	// read start of dictionary markers
 	b := make([]byte, 2)
-	_, err := parser.Read(b)
+	_, err := io.ReadFull(parser, b)
 	if err != nil || string(b) != "<<" {
 		return dictionary
 	}
@@ -946,7 +946,7 @@ func (parser *Parser) ReadStream(decryptor Decryptor, filter_list Array, decode_
 	// read first 9 bytes to get started
 	end_buff := bytes.NewBuffer([]byte{})
 	buff := make([]byte, 9)
-	bytes_read, _ := parser.Read(buff)
+	bytes_read, _ := io.ReadFull(parser, buff)
 	if bytes_read > 0 {
 		end_buff.Write(buff[:bytes_read])
 	}
diff --git a/pdf/utility.go b/pdf/utility.go
index bbf1c44..6db2dbe 100644
--- a/pdf/utility.go
+++ b/pdf/utility.go
@@ -16,7 +16,7 @@ func ReadInt64(reader io.Reader, width int) (int64, bool) {
 		return 0, false
 	}
 	data := make([]byte, width)
-	bytes_read, _ := reader.Read(data)
+	bytes_read, _ := io.ReadFull(reader, data)
 	if bytes_read != width {
 		return 0, false
 	}
-- 
2.43.0


From 53e9727c5278f7588191239b2ac66af48c57bee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:53 +0000
Subject: [PATCH 12/29] fix: prevent infinite recursion when a stream
 dictionary references its own object

---
 pdf/parser.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pdf/parser.go b/pdf/parser.go
index 1fad882..dcf68cd 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -10,6 +10,8 @@ import (
 	"strings"
 )
 
+const max_active_objects = 8
+
 var start_xref_scan_buffer_size int64 = 256
 var start_xref_regexp = regexp.MustCompile(`startxref\s*(\d+)\s*%%EOF`)
 var start_obj_regexp = regexp.MustCompile(`\d+([\s\x00]|(%[^\r\n]*))+\d+([\s\x00]|(%[^\r\n]*))+obj`)
@@ -24,10 +26,11 @@ type Parser struct {
 	trailer Dictionary
 	security_handler *SecurityHandler
 	output *Output
+	active map[int]interface{}
 }
 
 func NewParser(readSeeker io.ReadSeeker, output *Output) *Parser {
-	return &Parser{bufio.NewReader(readSeeker), readSeeker, map[int]*XrefEntry{}, Dictionary{}, NewSecurityHandler(), output}
+	return &Parser{bufio.NewReader(readSeeker), readSeeker, map[int]*XrefEntry{}, Dictionary{}, NewSecurityHandler(), output, map[int]interface{}{}}
 }
 
 func (parser *Parser) Load(password string) error {
@@ -379,6 +382,13 @@ func (parser *Parser) loadXrefStream(n int, offsets map[int64]interface{}) {
 func (parser *Parser) GetObject(number int) *IndirectObject {
 	object := NewIndirectObject(number)
 
+	// objects that are required to read themselves are null, limit depth of objects required to read other objects
+	if _, ok := parser.active[number]; ok || len(parser.active) >= max_active_objects {
+		return object
+	}
+	parser.active[number] = nil
+	defer delete(parser.active, number)
+
 	if xref_entry, ok := parser.Xref[number]; ok {
 		if xref_entry.Type == XrefTypeIndirectObject {
 			// set generation number
-- 
2.43.0


From 3c7893ffeff30fcf0d85fc99e51649a11d6e6001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:54 +0000
Subject: [PATCH 13/29] fix: prevent infinite recursion when a name tree kids
 array contains itself

---
 pdf/dictionary.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pdf/dictionary.go b/pdf/dictionary.go
index 6e0e78c..9cfe520 100644
--- a/pdf/dictionary.go
+++ b/pdf/dictionary.go
@@ -87,6 +87,13 @@ func (d Dictionary) getNameTreeMap(resolved_kids map[int]interface{}) Array {
 		// append names to name tree map
 		nameTreeMap = append(nameTreeMap, names...)
 	}
+	if r, ok := d.GetReference("Kids"); ok {
+		// prevent infinite kids array reference loop
+		if _, resolved := resolved_kids[r.Number]; resolved {
+			return nameTreeMap
+		}
+		resolved_kids[r.Number] = nil
+	}
 	if kids, ok := d.GetArray("Kids"); ok {
 		for i := range kids {
 			// prevent infinite resolve reference loop
-- 
2.43.0


From e13250fd7eaac63f6d42f937891511e5babe5ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:55 +0000
Subject: [PATCH 14/29] fix: limit nesting depth of arrays and dictionaries to
 prevent stack overflow

---
 pdf/parser.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pdf/parser.go b/pdf/parser.go
index dcf68cd..6ead2d6 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -11,6 +11,7 @@ import (
 )
 
 const max_active_objects = 8
+const max_nesting_depth = 1000
 
 var start_xref_scan_buffer_size int64 = 256
 var start_xref_regexp = regexp.MustCompile(`startxref\s*(\d+)\s*%%EOF`)
@@ -27,10 +28,11 @@ type Parser struct {
 	security_handler *SecurityHandler
 	output *Output
 	active map[int]interface{}
+	depth int
 }
 
 func NewParser(readSeeker io.ReadSeeker, output *Output) *Parser {
-	return &Parser{bufio.NewReader(readSeeker), readSeeker, map[int]*XrefEntry{}, Dictionary{}, NewSecurityHandler(), output, map[int]interface{}{}}
+	return &Parser{bufio.NewReader(readSeeker), readSeeker, map[int]*XrefEntry{}, Dictionary{}, NewSecurityHandler(), output, map[int]interface{}{}, 0}
 }
 
 func (parser *Parser) Load(password string) error {
@@ -522,6 +524,16 @@ func (parser *Parser) ReadObject(decryptor Decryptor) (Object, error) {
 		return KEYWORD_NULL, ReadError
 	}
 
+	// limit nesting depth to prevent stack overflow
+	if b[0] == '[' || string(b) == "<<" {
+		if parser.depth >= max_nesting_depth {
+			parser.Discard(1)
+			return KEYWORD_NULL, nil
+		}
+		parser.depth++
+		defer func() { parser.depth-- }()
+	}
+
 	// handle names
 	if b[0] == '/' {
 		return parser.ReadName(), nil
-- 
2.43.0


From d95dca92ceb626a249e2dfce32b2a09de7d03acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:57 +0000
Subject: [PATCH 15/29] fix: limit the number of codes in a cmap range

---
 pdf/font.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdf/font.go b/pdf/font.go
index 6f911f1..6fcd417 100644
--- a/pdf/font.go
+++ b/pdf/font.go
@@ -5,6 +5,8 @@ import (
 	"strings"
 )
 
+const max_cmap_size = 65536
+
 var FontDefault *Font = &Font{map[int]string{}, 1}
 
 type Font struct {
@@ -50,7 +52,7 @@ func NewFont(d Dictionary) *Font {
 					break
 				}
 
-				for j := start; j <= end; j++ {
+				for j := start; j <= end && j - start < max_cmap_size && len(font.Cmap) < max_cmap_size; j++ {
 					font.Cmap[j] = string(value)
 				}
 			}
-- 
2.43.0


From 2d6b524f7c310c8e88a530094a9af2080ac58148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:58 +0000
Subject: [PATCH 16/29] fix: map each code of a cmap range to its own value

---
 pdf/font.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pdf/font.go b/pdf/font.go
index 6fcd417..1841dcf 100644
--- a/pdf/font.go
+++ b/pdf/font.go
@@ -53,7 +53,7 @@ func NewFont(d Dictionary) *Font {
 				}
 
 				for j := start; j <= end && j - start < max_cmap_size && len(font.Cmap) < max_cmap_size; j++ {
-					font.Cmap[j] = string(value)
+					font.Cmap[j] = incrementString(value, j - start)
 				}
 			}
 		} else if command == KEYWORD_BEGIN_BF_CHAR {
@@ -79,6 +79,17 @@ func NewFont(d Dictionary) *Font {
 	return font
 }
 
+// incrementString adds n to the big endian value of s
+func incrementString(s String, n int) string {
+	b := []byte(s)
+	for i := len(b) - 1; i >= 0 && n > 0; i-- {
+		n += int(b[i])
+		b[i] = byte(n % 256)
+		n /= 256
+	}
+	return string(b)
+}
+
 func (font *Font) Decode(b []byte) string {
 	var s strings.Builder
 	for i := 0; i + font.Width <= len(b); i += font.Width {
-- 
2.43.0


From c2db4430564557724682e7093d872ee1883e68ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:59 +0000
Subject: [PATCH 17/29] fix: extract all strings of positioned text

---
 pdf/page.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf/page.go b/pdf/page.go
index f1abfaa..b94cd2d 100644
--- a/pdf/page.go
+++ b/pdf/page.go
@@ -72,7 +72,7 @@ func (page Page) extract(output *Output, font_map map[string]*Font, contents []b
 					// decode positioned text with current font
 					var sb strings.Builder
 					a, _ := operands.GetArray(len(operands) - 1)
-					for i := 0; i < len(a); i += 2 {
+					for i := range a {
 						s, _ := a.GetString(i)
 						sb.WriteString(string(s))
 					}
-- 
2.43.0


From 8c6a1a382d70ba8a54f59d344f381c719ad4abd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:00 +0000
Subject: [PATCH 18/29] fix: do not treat indirect arrays of streams as streams

---
 pdf/array.go      | 3 ++-
 pdf/dictionary.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pdf/array.go b/pdf/array.go
index 966d3b0..4f42588 100644
--- a/pdf/array.go
+++ b/pdf/array.go
@@ -97,7 +97,8 @@ func (a Array) GetObject(index int) (Object, bool) {
 func (a Array) GetStream(index int) ([]byte, bool) {
 	if index >= 0 && index < len(a) {
 		if reference, ok := a[index].(*Reference); ok {
-			return reference.ResolveStream(), true
+			stream := reference.ResolveStream()
+			return stream, stream != nil
 		}
 	}
 	return []byte{}, false
diff --git a/pdf/dictionary.go b/pdf/dictionary.go
index 9cfe520..486ed9e 100644
--- a/pdf/dictionary.go
+++ b/pdf/dictionary.go
@@ -173,7 +173,8 @@ func (d Dictionary) GetReference(key string) (*Reference, bool) {
 func (d Dictionary) GetStream(key string) ([]byte, bool) {
 	if object, ok := d[key]; ok {
 		if reference, ok := object.(*Reference); ok {
-			return reference.ResolveStream(), true
+			stream := reference.ResolveStream()
+			return stream, stream != nil
 		}
 	}
 	return []byte{}, false
-- 
2.43.0


From 628703cba6fbced6d30854623af03c441f117666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:01 +0000
Subject: [PATCH 19/29] fix: extract contents of indirect arrays

---
 pdf/object.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pdf/object.go b/pdf/object.go
index bda1c2d..72645c3 100644
--- a/pdf/object.go
+++ b/pdf/object.go
@@ -31,10 +31,7 @@ func (object *IndirectObject) String() string {
 }
 
 func (object *IndirectObject) Extract(output *Output) {
-	// get object dictionary
-	if d, ok := object.Value.(Dictionary); ok {
-		extract(d, output)
-	}
+	extract(object.Value, output)
 }
 
 func extract(o Object, output *Output) {
-- 
2.43.0


From 63772a8ebc60d8614aa04f9f0a273db7a67ff6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:02 +0000
Subject: [PATCH 20/29] fix: log commands of launch actions that use a simple
 file specification

---
 pdf/action.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdf/action.go b/pdf/action.go
index 0bcfdfb..8e5e9c6 100644
--- a/pdf/action.go
+++ b/pdf/action.go
@@ -16,6 +16,9 @@ func (a Action) Extract(output *Output) {
 
 	// filespecification can be in either F or Win[F]
 	if f, ok := d.GetString("F"); ok {
+		if isCommand {
+			fmt.Fprintf(output.Commands, "%s\n", f)
+		}
 		fmt.Fprintf(output.Files, "%s:%s\n", unknownHash, f)
 	} else if f, ok := d.GetDictionary("F"); ok {
 		File(f).Extract(output, isCommand)
-- 
2.43.0


From 498bd15be43bc045f1fd907692613839f3d0d8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:03 +0000
Subject: [PATCH 21/29] fix: reject predictor parameters that overflow the row
 width

---
 pdf/filters.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pdf/filters.go b/pdf/filters.go
index a67f300..53f6ba2 100644
--- a/pdf/filters.go
+++ b/pdf/filters.go
@@ -11,6 +11,9 @@ import (
 	tiff_lzw "golang.org/x/image/tiff/lzw"
 )
 
+const max_colors = 1 << 10
+const max_columns = 1 << 31
+
 func DecodeStream(filter string, data []byte, decode_parms Dictionary) []byte {
 	// do nothing if data is empty
 	if len(data) == 0 {
@@ -276,6 +279,11 @@ func ReversePredictor(data []byte, decode_parms Dictionary) []byte {
 		return data
 	}
 
+	// make sure row width is positive and can not overflow
+	if colors <= 0 || colors > max_colors || columns <= 0 || columns > max_columns {
+		return data
+	}
+
 	// determine row widths in bytes
 	row_width := (bits_per_component * colors * columns) / 8
 	if (bits_per_component * colors * columns) % 8 > 0 {
-- 
2.43.0


From 2248163b4a2dea8d49bfc48a3763f451fad83d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:04 +0000
Subject: [PATCH 22/29] fix: decode the last partial group of ascii85 data
 correctly

---
 pdf/filters.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdf/filters.go b/pdf/filters.go
index 53f6ba2..e853eb1 100644
--- a/pdf/filters.go
+++ b/pdf/filters.go
@@ -109,10 +109,10 @@ func ASCII85Decode(data []byte) []byte {
 	for {
 		b, err := reader.ReadByte()
 		if err != nil || b == '~' {
-			// finish partial group by adding zeros
+			// finish partial group by adding the largest digit
 			if n > 1 {
 				for m := n; m < 5; m++ {
-					v *= 85
+					v = v * 85 + 84
 				}
 
 				// write result in big endian order
-- 
2.43.0


From 0ec197e20c91879a34c7308217c3f2eb0e9044a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:05 +0000
Subject: [PATCH 23/29] fix: use the algorithm tag of each row for all png
 predictors

---
 pdf/filters.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/pdf/filters.go b/pdf/filters.go
index e853eb1..42b44d9 100644
--- a/pdf/filters.go
+++ b/pdf/filters.go
@@ -326,15 +326,10 @@ func ReversePredictor(data []byte, decode_parms Dictionary) []byte {
 		d_row_width := row_width
 		row_width++
 
-		// determine the method
-		method := predictor - 10
-
 		// for each row
 		for r := 0; r < len(data); r += row_width {
-			// optimum predictor allows the method to change each row based on algorithm tag
-			if predictor == 15 {
-				method = int(data[r])
-			}
+			// the method can change each row based on algorithm tag
+			method := int(data[r])
 
 			// calculate start of row in decoded buffer
 			dr := (r / row_width) * (row_width - 1)
-- 
2.43.0


From 6c07580c9417b48536141449a14406c425ed74c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:06 +0000
Subject: [PATCH 24/29] fix: weigh fraction digits of real numbers by powers of
 ten

---
 pdf/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdf/parser.go b/pdf/parser.go
index 6ead2d6..ed993e0 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"bytes"
 	"io"
+	"math"
 	"regexp"
 	"sort"
 	"strconv"
@@ -918,7 +919,7 @@ func (parser *Parser) ReadNumber() Number {
 			}
 
 			if b >= '0' && b <= '9' {
-				number = Number(float64(number) + float64(b - '0') / (10 * float64(i)))
+				number = Number(float64(number) + float64(b - '0') / math.Pow10(i))
 			} else {
 				parser.UnreadByte()
 				break
-- 
2.43.0


From dae6614af0b84eb6d120e99203de56f419a03541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:28 +0000
Subject: [PATCH 25/29] fix: remove the initialization vector and padding of
 aes encrypted data

---
 pdf/encryption.go | 21 +++++++++++++++++----
 pdf/parser.go     | 13 ++++++-------
 2 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/pdf/encryption.go b/pdf/encryption.go
index bbd9453..43721c9 100644
--- a/pdf/encryption.go
+++ b/pdf/encryption.go
@@ -16,7 +16,7 @@ type CryptFilter interface {
 }
 
 type Decryptor interface {
-	Decrypt([]byte)
+	Decrypt([]byte) []byte
 }
 
 // No encryption
@@ -28,7 +28,9 @@ func (c *CryptFilterNone) NewDecryptor(n int, g int) Decryptor {
 
 type DecryptorNone struct {}
 
-func (d *DecryptorNone) Decrypt(data []byte) {}
+func (d *DecryptorNone) Decrypt(data []byte) []byte {
+	return data
+}
 
 // AES
 type CryptFilterAES struct {
@@ -73,7 +75,10 @@ type DecryptorAES struct {
 	encryption_key []byte
 }
 
-func (d *DecryptorAES) Decrypt(data []byte) {
+func (d *DecryptorAES) Decrypt(data []byte) (decrypted []byte) {
+	// data that can not be decrypted is returned as is
+	decrypted = data
+
 	// catch crypt block panic
 	defer func() {
 		if err := recover(); err != nil {
@@ -94,6 +99,13 @@ func (d *DecryptorAES) Decrypt(data []byte) {
 	data = data[aes.BlockSize:]
 	cbc := cipher.NewCBCDecrypter(block, iv)
 	cbc.CryptBlocks(data, data)
+
+	// remove initialization vector and padding
+	padding := int(data[len(data)-1])
+	if padding < 1 || padding > aes.BlockSize {
+		padding = 0
+	}
+	return data[:len(data)-padding]
 }
 
 // RC4
@@ -136,9 +148,10 @@ type DecryptorRC4 struct {
 	encryption_key []byte
 }
 
-func (d *DecryptorRC4) Decrypt(data []byte) {
+func (d *DecryptorRC4) Decrypt(data []byte) []byte {
 	cipher, _ := rc4.NewCipher(d.encryption_key)
 	cipher.XORKeyStream(data, data)
+	return data
 }
 
 type SecurityHandler struct {
diff --git a/pdf/parser.go b/pdf/parser.go
index ed993e0..540d048 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -723,7 +723,7 @@ func (parser *Parser) ReadHexString(decryptor Decryptor) String {
 					s.WriteByte(byte(val))
 				}
 				s_data := []byte(s.String())
-				decryptor.Decrypt(s_data)
+				s_data = decryptor.Decrypt(s_data)
 				return String(s_data)
 			}
 			if !IsHex(b) {
@@ -1009,8 +1009,7 @@ func (parser *Parser) ReadStream(decryptor Decryptor, filter_list Array, decode_
 	}
 
 	// decrypt stream
-	stream_data_bytes := stream_data.Bytes()
-	decryptor.Decrypt(stream_data_bytes)
+	stream_data_bytes := decryptor.Decrypt(stream_data.Bytes())
 
 	// decode stream
 	for i := 0; i < len(filter_list); i++ {
@@ -1046,7 +1045,7 @@ func (parser *Parser) ReadString(decryptor Decryptor) String {
 		if err != nil {
 			parser.log_error(UnclosedString)
 			s_data := []byte(s.String())
-			decryptor.Decrypt(s_data)
+			s_data = decryptor.Decrypt(s_data)
 			return String(s_data)
 		}
 
@@ -1058,7 +1057,7 @@ func (parser *Parser) ReadString(decryptor Decryptor) String {
 				parser.log_error(UnclosedStringEscape)
 				s.WriteByte('\\')
 				s_data := []byte(s.String())
-				decryptor.Decrypt(s_data)
+				s_data = decryptor.Decrypt(s_data)
 				return String(s_data)
 			}
 
@@ -1072,7 +1071,7 @@ func (parser *Parser) ReadString(decryptor Decryptor) String {
 				if err != nil {
 					parser.log_error(UnclosedStringEscape)
 					s_data := []byte(s.String())
-					decryptor.Decrypt(s_data)
+					s_data = decryptor.Decrypt(s_data)
 					return String(s_data)
 				}
 				// if byte is not a new line then unread it
@@ -1159,7 +1158,7 @@ func (parser *Parser) ReadString(decryptor Decryptor) String {
 
 	// return string
 	s_data := []byte(s.String())
-	decryptor.Decrypt(s_data)
+	s_data = decryptor.Decrypt(s_data)
 	return String(s_data)
 }
 
-- 
2.43.0


From 70f9ff9c411378201d37edac31e9e11735f9a6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:29 +0000
Subject: [PATCH 26/29] fix: log unclosed streams that end before any stream
 data

---
 pdf/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdf/parser.go b/pdf/parser.go
index 540d048..95c7994 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -944,6 +944,7 @@ func (parser *Parser) ReadStream(decryptor Decryptor, filter_list Array, decode_
 	for {
 		b, err := parser.ReadByte()
 		if err != nil {
+			parser.log_error(UnclosedStream)
 			return stream_data.Bytes()
 		}
 
@@ -956,6 +957,7 @@ func (parser *Parser) ReadStream(decryptor Decryptor, filter_list Array, decode_
 		if b == '\r' {
 			b, err := parser.ReadByte()
 			if err != nil {
+				parser.log_error(UnclosedStream)
 				return stream_data.Bytes()
 			}
 			// if not new line then put it back cause it is part of the stream data
@@ -994,6 +996,7 @@ func (parser *Parser) ReadStream(decryptor Decryptor, filter_list Array, decode_
 		// add first byte of end_buff to stream_data
 		b, err := end_buff.ReadByte()
 		if err != nil {
+			parser.log_error(UnclosedStream)
 			break
 		}
 		stream_data.WriteByte(b)
-- 
2.43.0


From 85caa9ef951fbe7172b946dbf6c2d4c61b6d9cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:47 +0000
Subject: [PATCH 27/29] fix: make the order of the output independent of map
 iteration order

---
 pdf/dictionary.go | 15 +++++++++++++--
 pdf/encryption.go |  2 +-
 pdf/object.go     |  4 ++--
 pdf/page.go       |  2 +-
 pdf/pdf.go        | 12 ++++++++++--
 5 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/pdf/dictionary.go b/pdf/dictionary.go
index 486ed9e..9f24ada 100644
--- a/pdf/dictionary.go
+++ b/pdf/dictionary.go
@@ -1,6 +1,7 @@
 package pdf
 
 import (
+	"sort"
 	"strings"
 )
 
@@ -9,16 +10,26 @@ type Dictionary map[string]Object
 func (d Dictionary) String() string {
 	var s strings.Builder
 	s.WriteString("<<")
-	for key, value := range d {
+	for _, key := range d.keys() {
 		s.WriteString("/")
 		s.WriteString(key)
 		s.WriteString(" ")
-		s.WriteString(value.String())
+		s.WriteString(d[key].String())
 	}
 	s.WriteString(">>")
 	return s.String()
 }
 
+// keys returns the keys of the dictionary in sorted order
+func (d Dictionary) keys() []string {
+	keys := make([]string, 0, len(d))
+	for key := range d {
+		keys = append(keys, key)
+	}
+	sort.Strings(keys)
+	return keys
+}
+
 func (d Dictionary) GetArray(key string) (Array, bool) {
 	if object, ok := d.GetObject(key); ok {
 		if array, ok := object.(Array); ok {
diff --git a/pdf/encryption.go b/pdf/encryption.go
index 43721c9..e93a043 100644
--- a/pdf/encryption.go
+++ b/pdf/encryption.go
@@ -305,7 +305,7 @@ func (sh *SecurityHandler) Init(password []byte, trailer Dictionary) error {
 	// load additional crypt filters
 	if sh.r == 4 {
 		cf, _ := encrypt.GetDictionary("CF")
-		for k := range cf {
+		for _, k := range cf.keys() {
 			if cfd, isDictionary := cf.GetDictionary(k); isDictionary {
 				if method, ok := cfd.GetName("CFM"); ok {
 					// get optional length
diff --git a/pdf/object.go b/pdf/object.go
index 72645c3..713f543 100644
--- a/pdf/object.go
+++ b/pdf/object.go
@@ -48,7 +48,7 @@ func extract(o Object, output *Output) {
 
 		// dump additional actions
 		if aa, ok := d.GetDictionary("AA"); ok {
-			for key := range aa {
+			for _, key := range aa.keys() {
 				if a, ok := aa.GetDictionary(key); ok {
 					Action(a).Extract(output)
 				}
@@ -109,7 +109,7 @@ func extract(o Object, output *Output) {
 			}
 		}
 
-		for key := range d {
+		for _, key := range d.keys() {
 			extract(d[key], output)
 		}
 	} else if a, ok := o.(Array); ok {
diff --git a/pdf/page.go b/pdf/page.go
index b94cd2d..a99bf75 100644
--- a/pdf/page.go
+++ b/pdf/page.go
@@ -15,7 +15,7 @@ func (page Page) Extract(output *Output) {
 	font_map := map[string]*Font{}
 	resources, _ := d.GetDictionary("Resources")
 	fonts, _ := resources.GetDictionary("Font")
-	for font := range fonts {
+	for _, font := range fonts.keys() {
 		font_info, _ := fonts.GetDictionary(font)
 		font_map[font] = NewFont(font_info)
 	}
diff --git a/pdf/pdf.go b/pdf/pdf.go
index 628aa41..e86596f 100644
--- a/pdf/pdf.go
+++ b/pdf/pdf.go
@@ -3,6 +3,7 @@ package pdf
 import (
 	"fmt"
 	"os"
+	"sort"
 )
 
 func Parse(file_path string, password string, output_dir string) error {
@@ -29,9 +30,16 @@ func Parse(file_path string, password string, output_dir string) error {
 		return err
 	}
 
+	// sort objects so that output does not depend on map order
+	object_numbers := make([]int, 0, len(parser.Xref))
+	for object_number := range parser.Xref {
+		object_numbers = append(object_numbers, object_number)
+	}
+	sort.Ints(object_numbers)
+
 	// extract and dump all objects
-	for object_number, xref_entry := range parser.Xref {
-		if xref_entry.Type == XrefTypeIndirectObject {
+	for _, object_number := range object_numbers {
+		if xref_entry, ok := parser.Xref[object_number]; ok && xref_entry.Type == XrefTypeIndirectObject {
 			Debug("Extracting object %d", object_number)
 			object := parser.GetObject(object_number)
 			object.Extract(output)
-- 
2.43.0


From 6b8d8cd821ab0e42481544a1805a54945f2b2b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:16 +0000
Subject: [PATCH 28/29] fix: never decrypt cross-reference streams that another
 section lists as ordinary objects

---
 pdf/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pdf/parser.go b/pdf/parser.go
index 95c7994..68c01ef 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -69,6 +69,11 @@ func (parser *Parser) Load(password string) error {
 			if n, _, ok := parser.ReadObjectHeader(); !ok || n != object_number {
 				xref_entry.Offset = object.Offset
 			}
+
+			// dont decrypt xref streams
+			if object.IsXrefStream && xref_entry.Offset == object.Offset {
+				xref_entry.IsEncrypted = false
+			}
 		} else {
 			// add missing object to xref
 			parser.Xref[object_number] = object
-- 
2.43.0


From f8a7d5d5b680c35a81835fbdb031da17e6423109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:30 +0000
Subject: [PATCH 29/29] fix: use the pixel width as distance to left neighbours
 in png predictors

---
 pdf/filters.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/pdf/filters.go b/pdf/filters.go
index 42b44d9..a0d3708 100644
--- a/pdf/filters.go
+++ b/pdf/filters.go
@@ -322,6 +322,9 @@ func ReversePredictor(data []byte, decode_parms Dictionary) []byte {
 		// allocate buffer for decoded data
 		decoded_data := make([]byte, 0, len(data))
 
+		// left neighbours are one pixel, and at least one byte, away
+		pixel_width := (bits_per_component * colors + 7) / 8
+
 		// png row includes an algorithm tag as first byte of each row
 		d_row_width := row_width
 		row_width++
@@ -345,8 +348,8 @@ func ReversePredictor(data []byte, decode_parms Dictionary) []byte {
 				} else if method == 1 {
 					// sub predictor
 					left := 0
-					if dc > 0 {
-						left = int(decoded_data[dr + dc - 1])
+					if dc >= pixel_width {
+						left = int(decoded_data[dr + dc - pixel_width])
 					}
 					decoded_data = append(decoded_data, byte((int(data[r + c]) + left) % 256))
 				} else if method == 2 {
@@ -359,8 +362,8 @@ func ReversePredictor(data []byte, decode_parms Dictionary) []byte {
 				} else if method == 3 {
 					// avg predictor
 					left := 0
-					if dc > 0 {
-						left = int(decoded_data[dr + dc - 1])
+					if dc >= pixel_width {
+						left = int(decoded_data[dr + dc - pixel_width])
 					}
 					up := 0
 					if dr + dc - d_row_width >= 0 {
@@ -371,16 +374,16 @@ func ReversePredictor(data []byte, decode_parms Dictionary) []byte {
 				} else if method == 4 {
 					//paeth predictor
 					left := 0
-					if dc > 0 {
-						left = int(decoded_data[dr + dc - 1])
+					if dc >= pixel_width {
+						left = int(decoded_data[dr + dc - pixel_width])
 					}
 					up := 0
 					if dr + dc - d_row_width >= 0 {
 						up = int(decoded_data[dr + dc - d_row_width])
 					}
 					up_left := 0
-					if dr + dc - d_row_width - 1 >= 0 && dc > 0 {
-						up_left = int(decoded_data[dr + dc - d_row_width - 1])
+					if dr + dc - d_row_width - pixel_width >= 0 && dc >= pixel_width {
+						up_left = int(decoded_data[dr + dc - d_row_width - pixel_width])
 					}
 					p := left + up - up_left
 					p_left := int(math.Abs(float64(p - left)))
-- 
2.43.0

