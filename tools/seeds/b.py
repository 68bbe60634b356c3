exec(open("/verif/tools/seeds/prelude.py").read())
ENC = PRE + '''
// zzHandler makes the encryption dictionary and trailer of a document whose password is empty.
func zzTrailer(v, r int, extra Dictionary) Dictionary {
	sh := NewSecurityHandler()
	sh.v, sh.r, sh.length = v, r, 5
	sh.o = bytes.Repeat([]byte("o"), 32)
	sh.p = []byte{0, 0, 0, 0}
	sh.id = []byte("0123456789abcdef")
	sh.encrypt_meta_data = true
	key := sh.computeEncryptionKey([]byte{}, 5)
	u := make([]byte, 32)
	if r == 2 {
		c, _ := rc4.NewCipher(key)
		c.XORKeyStream(u, padding_string)
	} else {
		h := md5.New()
		h.Write(padding_string)
		h.Write(sh.id)
		s := h.Sum(nil)
		k := make([]byte, len(key))
		for i := 0; i < 20; i++ {
			for j := range key {
				k[j] = key[j] ^ byte(i)
			}
			c, _ := rc4.NewCipher(k)
			c.XORKeyStream(s, s)
		}
		copy(u, s)
	}
	e := Dictionary{"Filter": Name("Standard"), "V": Number(v), "R": Number(r), "O": String(sh.o), "U": String(u), "P": Number(0)}
	for k, v := range extra {
		e[k] = v
	}
	return Dictionary{"Encrypt": e, "ID": Array{String(sh.id)}}
}

'''
ENC = ENC.replace('import (\n\t"bytes"', 'import (\n\t"bytes"\n\t"crypto/md5"\n\t"crypto/rc4"')
def P(s): return PRE + "func TestZZDemo(t *testing.T) {\n" + s + "}\n"
def E(s): return ENC + "func TestZZDemo(t *testing.T) {\n" + s + "}\n"
bugs = [
dict(id="S13-freed-object", prop="C17", needs="an update section that frees an object an older section has in use",
 breaks="a free entry in a newer cross-reference table no longer replaces the older in-use entry",
 edits=[("pdf/parser.go", "\t// merge xrefs\n\tfor key, value := range xrefs {\n\t\tparser.Xref[key] = value\n", "\t// merge xrefs\n\tfor key, value := range xrefs {\n\t\tif _, known := parser.Xref[key]; known && value.Type == XrefTypeFreeObject {\n\t\t\tcontinue\n\t\t}\n\t\tparser.Xref[key] = value\n")],
 demo=P('''	doc := "%PDF-1.7\\n"
	a := len(doc)
	doc += "xref\\n0 2\\n0000000000 65535 f \\n0000000300 00000 n \\ntrailer\\n<</Size 2>>\\n"
	b := len(doc)
	doc += fmt.Sprintf("xref\\n1 1\\n0000000000 00001 f \\ntrailer\\n<</Size 2 /Prev %d>>\\nstartxref\\n%d\\n%%%%EOF\\n", a, b)
	p := NewParser(strings.NewReader(doc), nil)
	p.Load("")
	if x := p.Xref[1]; x == nil || x.Type != XrefTypeFreeObject {
		t.Fatalf("object 1 was freed by the newer section: %v", x)
	}
''')),
dict(id="S14-subsection-reset", prop="C32", needs="a cross-reference stream with an Index of several subsections",
 breaks="entries of later subsections of a cross-reference stream get the wrong object numbers",
 edits=[("pdf/parser.go", "\tfor i := 0; i < len(index) - 1; i += 2 {\n\t\t// get subsection start and length\n\t\tsubsection_start, ok := index.GetInt(i)", "\tfirst, _ := index.GetInt(0)\n\tfor i := 0; i < len(index) - 1; i += 2 {\n\t\t// get subsection start and length\n\t\tsubsection_start, ok := index.GetInt(i)"),
   ("pdf/parser.go", "\t\t\tobject_number := subsection_start + j\n", "\t\t\tobject_number := subsection_start + j\n\t\t\tif i == 0 {\n\t\t\t\tfirst++\n\t\t\t} else if first == subsection_start-1 {\n\t\t\t\tobject_number = first + j\n\t\t\t}\n")],
 demo=P('''	data := string([]byte{1, 1, 0, 1, 2, 0, 1, 3, 0})
	doc := "%PDF-1.7\\n"
	x := len(doc)
	doc += fmt.Sprintf("9 0 obj\\n<</Type /XRef /Size 10 /W [1 1 1] /Index [1 2 4 1] /Length 9>>\\nstream\\n%s\\nendstream\\nendobj\\nstartxref\\n%d\\n%%%%EOF\\n", data, x)
	p := NewParser(strings.NewReader(doc), nil)
	p.Load("")
	if e := p.Xref[4]; e == nil || e.Offset != 3 {
		t.Fatalf("entry of object 4: %v", e)
	}
''')),
dict(id="S15-empty-mapping", prop="C29", needs="a font with two-byte codes and a text with an unmapped code before its last code",
 breaks="after the first unmapped code of a text the remaining codes are copied without being mapped",
 edits=[("pdf/font.go", "\t\t} else {\n\t\t\ts.WriteString(string(bs))\n\t\t}\n\t}\n\treturn s.String()", "\t\t} else if i + 2 * font.Width > len(b) || font.Width == 1 {\n\t\t\ts.WriteString(string(bs))\n\t\t} else {\n\t\t\ts.WriteString(string(b[i:]))\n\t\t\tbreak\n\t\t}\n\t}\n\treturn s.String()")],
 demo=P('''	f := &Font{map[int]string{0x0102: "x"}, 2}
	if s := f.Decode([]byte("\\x01\\x02\\x09\\x09\\x01\\x02")); s != "x\\x09\\x09x" {
		t.Fatalf("%q", s)
	}
''')),
dict(id="S16-unknown-font", prop="C28", needs="a page that selects a font missing from its resources after a known one",
 breaks="selecting a font that the page does not have leaves the previous font in effect",
 edits=[("pdf/page.go", "\t\t\t\t\t} else {\n\t\t\t\t\t\tcurrent_font = FontDefault\n\t\t\t\t\t}\n", "\t\t\t\t\t} else if len(operands) < 2 {\n\t\t\t\t\t\tcurrent_font = FontDefault\n\t\t\t\t\t}\n")],
 demo=P('''	o, err := NewOutput(filepath.Join(t.TempDir(), "o"))
	if err != nil {
		t.Fatal(err)
	}
	fonts := map[string]*Font{"A": &Font{map[int]string{'x': "mapped"}, 1}}
	Page(Dictionary{}).extract(o, fonts, []byte("BT /A 1 Tf (x) Tj /B 1 Tf (x) Tj ET "))
	dir := o.Directory
	o.Close()
	if s := zzRead(t, dir, "contents.txt"); s != "mapped\\nx\\n" {
		t.Fatalf("%q", s)
	}
''')),
dict(id="S17-identity-strings", prop="C13", needs="a V4 document that leaves strings unencrypted with StrF Identity",
 breaks="strings are decrypted although their crypt filter is Identity",
 edits=[("pdf/encryption.go", "if name, ok := encrypt.GetName(\"StrF\"); ok {", "if name, ok := encrypt.GetName(\"StrF\"); ok && name != \"Identity\" {")],
 demo=E('''	sh := NewSecurityHandler()
	if err := sh.Init([]byte{}, zzTrailer(4, 4, Dictionary{"StrF": Name("Identity")})); err != nil {
		t.Fatal(err)
	}
	if s := sh.string_filter.NewDecryptor(1, 0).Decrypt([]byte("plain")); string(s) != "plain" {
		t.Fatalf("%q", s)
	}
''')),
dict(id="S18-metadata-r3", prop="C14", needs="a revision 3 document that has EncryptMetadata false",
 breaks="the file key of revision 3 documents with EncryptMetadata false includes the bytes meant for revision 4",
 edits=[("pdf/encryption.go", "if sh.r >= 4 && !sh.encrypt_meta_data {", "if sh.r >= 3 && !sh.encrypt_meta_data {")],
 demo=E('''	sh := NewSecurityHandler()
	if err := sh.Init([]byte{}, zzTrailer(2, 3, Dictionary{"EncryptMetadata": KEYWORD_FALSE})); err != nil {
		t.Fatal(err)
	}
''')),
dict(id="S19-v3", prop="C10", needs="a document that declares the unpublished algorithm V 3",
 breaks="documents with V 3 are treated as if their scheme was supported",
 edits=[("pdf/encryption.go", "if sh.v != 1 && sh.v != 2 && sh.v != 4 {", "if sh.v < 1 || sh.v > 4 {")],
 demo=E('''	if err := NewSecurityHandler().Init([]byte{}, zzTrailer(3, 3, nil)); err != EncryptionUnsupported {
		t.Fatal(err)
	}
''')),
dict(id="S20-octal-limit", prop="C22", needs="an octal code above 377 such as \\400 followed by more text",
 breaks="the last digit of an octal code that is too large is dropped instead of being read as text",
 edits=[("pdf/parser.go", "\t\t\t\t\tparser.log_error(InvalidOctal)\n\t\t\t\t\tparser.UnreadByte()\n", "\t\t\t\t\tparser.log_error(InvalidOctal)\n\t\t\t\t\tif b != '0' {\n\t\t\t\t\t\tparser.UnreadByte()\n\t\t\t\t\t}\n")],
 demo=P('''	p := NewParser(strings.NewReader("(\\\\500a)"), nil)
	if s := p.ReadString(noDecryptor); s != "(0a" {
		t.Fatalf("%q", s)
	}
''')),
dict(id="S21-unclosed-escape-log", prop="C21", needs="a string that ends after a backslash and a carriage return",
 breaks="a string cut off inside an escaped line break is not logged",
 edits=[("pdf/parser.go", "\t\t\t\tb, err = parser.ReadByte()\n\t\t\t\tif err != nil {\n\t\t\t\t\tparser.log_error(UnclosedStringEscape)\n\t\t\t\t\ts_data := []byte(s.String())", "\t\t\t\tb, err = parser.ReadByte()\n\t\t\t\tif err != nil {\n\t\t\t\t\tif s.Len() == 0 {\n\t\t\t\t\t\tparser.log_error(UnclosedStringEscape)\n\t\t\t\t\t}\n\t\t\t\t\ts_data := []byte(s.String())")],
 demo=P('''	o, err := NewOutput(filepath.Join(t.TempDir(), "o"))
	if err != nil {
		t.Fatal(err)
	}
	NewParser(strings.NewReader("(abc\\\\\\r"), o).ReadString(noDecryptor)
	dir := o.Directory
	o.Close()
	if s := zzRead(t, dir, "errors.txt"); !strings.Contains(s, UnclosedStringEscape) {
		t.Fatalf("%q", s)
	}
''')),
dict(id="S22-octal-eof-decrypt", prop="C11", needs="an encrypted string that is cut off by the end of the file after an escape",
 breaks="an encrypted string that ends with a lone backslash at the end of the file is returned without being decrypted",
 edits=[("pdf/parser.go", "\t\t\t\ts.WriteByte('\\\\')\n\t\t\t\ts_data := []byte(s.String())\n\t\t\t\ts_data = decryptor.Decrypt(s_data)\n\t\t\t\treturn String(s_data)\n", "\t\t\t\ts.WriteByte('\\\\')\n\t\t\t\treturn String(s.String())\n")],
 demo=P('''	d := (&CryptFilterRC4{[]byte("12345")}).NewDecryptor(1, 0)
	s := NewParser(strings.NewReader("(abc\\\\"), nil).ReadString(d)
	if s == "abc\\\\" {
		t.Fatal("not decrypted")
	}
''')),
dict(id="S23-lone-cr", prop="C33", needs="a stream whose data ends with a carriage return and whose endstream follows two line ends",
 breaks="all line feeds before endstream are removed instead of one line end",
 edits=[("pdf/parser.go", "\t\t\t} else if l-1 >= 0 && stream_data.Bytes()[l-1] == '\\r' {\n\t\t\t\tstream_data.Truncate(l-1)\n\t\t\t}\n\t\t\tbreak\n", "\t\t\t} else if l-1 >= 0 && stream_data.Bytes()[l-1] == '\\r' {\n\t\t\t\tstream_data.Truncate(l-1)\n\t\t\t}\n\t\t\tif l > 2 && stream_data.Len() == l-1 && stream_data.Bytes()[l-2] == '\\n' {\n\t\t\t\tstream_data.Truncate(l-2)\n\t\t\t}\n\t\t\tbreak\n")],
 demo=P('''	p := NewParser(strings.NewReader("\\nab\\n\\nendstream"), nil)
	if s := p.ReadStream(noDecryptor, Array{}, Array{}); string(s) != "ab\\n" {
		t.Fatalf("%q", s)
	}
''')),
dict(id="S25-parms-position", prop="C15", needs="a stream with two filters of which only the second has parameters",
 breaks="when the first filter has no parameters the second one's are ignored",
 edits=[("pdf/parser.go", "\t\tdecode_parms, _ := decode_parms_list.GetDictionary(i)\n\t\tstream_data_bytes", "\t\tdecode_parms, ok := decode_parms_list.GetDictionary(i)\n\t\tif !ok {\n\t\t\tdecode_parms_list = Array{}\n\t\t}\n\t\tstream_data_bytes")],
 demo=P('''	data := []byte("\\x01\\x01\\x01\\x01") // TIFF predictor: 1 2 3 4
	var z bytes.Buffer
	w := zlib.NewWriter(&z)
	w.Write(data)
	w.Close()
	in := "\\n" + fmt.Sprintf("%x>", z.Bytes()) + "\\nendstream"
	p := NewParser(strings.NewReader(in), nil)
	s := p.ReadStream(noDecryptor, Array{Name("ASCIIHexDecode"), Name("FlateDecode")}, Array{KEYWORD_NULL, Dictionary{"Predictor": Number(2), "Columns": Number(4)}})
	if string(s) != "\\x01\\x02\\x03\\x04" {
		t.Fatalf("%q", s)
	}
''').replace('import (\n\t"bytes"', 'import (\n\t"bytes"\n\t"compress/zlib"')),
dict(id="S26-paeth-tie", prop="C16", needs="a Paeth row where the upper and upper-left neighbours are equally good",
 breaks="Paeth ties between up and upper-left are resolved for the wrong neighbour",
 edits=[("pdf/filters.go", "} else if p_up <= p_up_left {", "} else if p_up < p_up_left {")],
 demo=P('''	// left 0, up 20, upper left 10 in the second column: p = left + up - upper left = 10, 10 from both left and up
	// with left 10, up 4, upper left 6: p = 8, distances 2, 4, 2; with left 30, up 10, upper left 16: p = 24, 6, 14, 8
	// with left 9, up 5, upper left 8: p = 6, distances 3, 1, 2; up and upper left tie for left 9, up 4, upper left 6: p = 7: 2 3 1
	for l := 0; l < 40; l++ {
		for u := 0; u < 40; u++ {
			for c := 0; c < 40; c++ {
				p := l + u - c
				a, b, d := zzAbs(p-l), zzAbs(p-u), zzAbs(p-c)
				want := c
				if a <= b && a <= d {
					want = l
				} else if b <= d {
					want = u
				}
				first := l - zzPaeth(0, c, 0)
				data := []byte{0, byte(c), byte(u), 4, byte(first), 1}
				out := ReversePredictor(data, Dictionary{"Predictor": Number(15), "Columns": Number(2)})
				if int(out[3]) != want+1 {
					t.Fatalf("left %d up %d upper left %d: %d", l, u, c, out[3])
				}
			}
		}
	}
}

func zzAbs(v int) int {
	if v < 0 {
		return -v
	}
	return v
}

func zzPaeth(l, u, c int) int {
	p := l + u - c
	a, b, d := zzAbs(p-l), zzAbs(p-u), zzAbs(p-c)
	if a <= b && a <= d {
		return l
	} else if b <= d {
		return u
	}
	return c
''')),
dict(id="S27-xfa-break", prop="C27", needs="a form whose XFA array has its packets after an entry that is no stream",
 breaks="parts of a form after the first entry that is not a stream are lost once something was found",
 edits=[("pdf/object.go", "\t\t\t\t\tform_data.WriteString(string(s))\n\t\t\t\t}\n", "\t\t\t\t\tform_data.WriteString(string(s))\n\t\t\t\t} else if form_data.Len() > 4 {\n\t\t\t\t\tbreak\n\t\t\t\t}\n")],
 demo=P('''	dir, err := zzParse(t, zzDoc("", "<</XFA [(a) 2 0 R (b) 3 0 R]>>", "<<>>\\nstream\\nfirst\\nendstream", "<<>>\\nstream\\nsecond\\nendstream"), "")
	if err != nil {
		t.Fatal(err)
	}
	fs, _ := ioutil.ReadDir(dir)
	for _, f := range fs {
		if zzRead(t, dir, f.Name()) == "firstsecond" {
			return
		}
	}
	t.Fatal("form incomplete")
''')),
dict(id="S28-duplicate-key", prop="C23", needs="a dictionary that has the same name twice",
 breaks="the first of several entries for the same name wins",
 edits=[("pdf/parser.go", "\t\tdictionary[string(key)] = value\n", "\t\tif _, duplicate := dictionary[string(key)]; !duplicate || value != Object(KEYWORD_NULL) {\n\t\t\tdictionary[string(key)] = value\n\t\t}\n")],
 demo=P('''	d := NewParser(strings.NewReader("<</A 1 /A null>>"), nil).ReadDictionary(noDecryptor)
	if d["A"] != Object(KEYWORD_NULL) {
		t.Fatal(d["A"])
	}
''')),
dict(id="S29-resolved-kids", prop="C03", needs="a page tree of several kids, the last of which contains itself",
 breaks="a page tree that contains itself is followed for ever once two kids have been visited",
 edits=[("pdf/dictionary.go", "\t\t\t\tresolved_kids[r.Number] = nil\n\n\t\t\t\t// resolve\n", "\t\t\t\tif len(resolved_kids) < 2 {\n\t\t\t\t\tresolved_kids[r.Number] = nil\n\t\t\t\t}\n\n\t\t\t\t// resolve\n")],
 demo=P('''	p := NewParser(bytes.NewReader(zzDoc("", "<</Kids [2 0 R 3 0 R 4 0 R]>>", "<<>>", "<<>>", "<</Kids [5 0 R]>>", "<</Kids [4 0 R]>>")), nil)
	p.Load("")
	done := make(chan int)
	go func() {
		defer func() { recover(); close(done) }()
		d := Dictionary{"Pages": NewReference(p, 1, 0)}
		pages, _ := d.GetPageTree("Pages")
		done <- len(pages)
	}()
	select {
	case n := <-done:
		if n != 5 {
			t.Fatal(n)
		}
	case <-time.After(2 * time.Second):
		t.Fatal("does not end")
	}
''').replace('\t"testing"', '\t"testing"\n\t"time"')),
dict(id="S30-comment-eof", prop="C04", needs="a comment inside an array that is cut off by the end of the file",
 breaks="a comment inside an array that reaches the end of the file is read for ever",
 edits=[("pdf/parser.go", "\t\tb, err := parser.ReadByte()\n\t\tif err != nil {\n\t\t\treturn\n\t\t}\n\n\t\t// stop on line feed\n", "\t\tb, err := parser.ReadByte()\n\t\tif err != nil && b == 0 && parser.depth == 0 {\n\t\t\treturn\n\t\t}\n\n\t\t// stop on line feed\n")],
 demo=P('''	done := make(chan bool)
	go func() {
		NewParser(strings.NewReader("[1 %comment"), nil).ReadObject(noDecryptor)
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(2 * time.Second):
		t.Fatal("does not end")
	}
''').replace('\t"testing"', '\t"testing"\n\t"time"')),
]
