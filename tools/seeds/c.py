exec(open("/verif/tools/seeds/prelude.py").read())
_b = {}; exec(open("/verif/tools/seeds/b.py").read().split("bugs = [")[0], _b)
P = _b["P"]; E = _b["E"]
bugs = [
dict(id="S31-encrypt-generation", prop="C12", needs="an encryption dictionary referenced with another generation than its cross-reference entry has",
 breaks="the encryption dictionary is decrypted when the generations of its reference and its entry differ",
 edits=[("pdf/parser.go", "\t\t\tif xref_entry, ok := parser.Xref[ref.Number]; ok {\n\t\t\t\txref_entry.IsEncrypted = false", "\t\t\tif xref_entry, ok := parser.Xref[ref.Number]; ok && xref_entry.Generation == ref.Generation {\n\t\t\t\txref_entry.IsEncrypted = false")],
 demo=P('''	p := NewParser(bytes.NewReader(zzDoc("/Encrypt 1 3 R", "<</Filter/Standard>>")), nil)
	p.Load("")
	if x := p.Xref[1]; x == nil || x.IsEncrypted {
		t.Fatal("the encryption dictionary would be decrypted")
	}
''')),
dict(id="S32-repair-earlier", prop="C18", needs="a wrong entry that points past the object",
 breaks="an entry that points at another object is kept when the right object lies before it",
 edits=[("pdf/parser.go", "\t\t\t\txref_entry.Offset = object.Offset\n", "\t\t\t\tif !ok || object.Offset > xref_entry.Offset {\n\t\t\t\t\txref_entry.Offset = object.Offset\n\t\t\t\t}\n")],
 demo=P('''	doc := string(zzDoc("", "<</A 1>>", "<</B 2>>"))
	a, b := strings.Index(doc, "1 0 obj"), strings.Index(doc, "2 0 obj")
	doc = strings.Replace(doc, fmt.Sprintf("%010d", a), fmt.Sprintf("%010d", b), 1)
	p := NewParser(strings.NewReader(doc), nil)
	p.Load("")
	if x := p.Xref[1]; x == nil || x.Offset != int64(a) {
		t.Fatalf("entry not repaired: %v", x)
	}
''')),
dict(id="S33-missing-stream-object", prop="C18", needs="an object with a generation other than 0 that no cross-reference section lists",
 breaks="an object of a later generation that no section lists is not added",
 edits=[("pdf/parser.go", "\t\t} else {\n\t\t\t// add missing object to xref\n", "\t\t} else if object.Generation == 0 {\n\t\t\t// add missing object to xref\n")],
 demo=P('''	p := NewParser(strings.NewReader("%PDF-1.4\\n7 2 obj\\n<</A 1>>\\nendobj\\n"), nil)
	p.Load("")
	if p.Xref[7] == nil {
		t.Fatal("object 7 is missing")
	}
''')),
dict(id="S34-short-user-entry", prop="C01", needs="a revision 2 document with a U entry of fewer than 32 bytes",
 breaks="a short U entry of a revision 2 document makes Parse panic",
 edits=[("pdf/encryption.go", "\t\tif string(u) != string(sh.u) {", "\t\tif string(u) != string(sh.u[:32]) {")],
 demo=E('''	d := zzTrailer(1, 2, Dictionary{"U": String("short")})
	if err := NewSecurityHandler().Init([]byte{}, d); err == nil {
		t.Fatal("opened")
	}
''')),
dict(id="S35-flate-dictionary", prop="C02", needs="Flate data whose header asks for a preset dictionary",
 breaks="Flate data with a preset dictionary makes the decoder use a nil reader",
 edits=[("pdf/filters.go", "\tzlib_reader, err := zlib.NewReader(byte_reader)\n\tif err != nil {", "\tzlib_reader, err := zlib.NewReader(byte_reader)\n\tif err == zlib.ErrHeader || err == io.EOF || err == io.ErrUnexpectedEOF {")],
 demo=P('''	in := []byte{0x78, 0xbb, 1, 2, 3, 4, 5}
	if out := FlateDecode(in, Dictionary{}); !bytes.Equal(in, out) {
		t.Fatal(out)
	}
''')),
dict(id="S36-trailer-order", prop="C17", needs="an update whose cross-reference stream changes a trailer entry of the section before it",
 breaks="trailer entries of older sections replace those of newer cross-reference streams",
 edits=[("pdf/parser.go", '''	// load previous xref section if it exists
	if prev, ok := trailer.GetInt64("Prev"); ok {
		parser.loadXref(prev, offsets)
	}

	// merge trailer
	for key, value := range trailer {
		parser.trailer[key] = value
	}

	// get the index and width arrays
''', '''	// merge trailer
	for key, value := range trailer {
		parser.trailer[key] = value
	}

	// load previous xref section if it exists
	if prev, ok := trailer.GetInt64("Prev"); ok {
		parser.loadXref(prev, offsets)
	}

	// get the index and width arrays
''')],
 demo=P('''	doc := "%PDF-1.5\\n"
	a := len(doc)
	doc += "xref\\n0 1\\n0000000000 65535 f \\ntrailer\\n<</Size 2 /Info /old>>\\n"
	b := len(doc)
	doc += fmt.Sprintf("9 0 obj\\n<</Type/XRef/Size 1/W[1 2 1]/Info /new /Prev %d>>\\nstream\\n\\x00\\x00\\x00\\x00\\nendstream\\nendobj\\nstartxref\\n%d\\n%%%%EOF\\n", a, b)
	p := NewParser(strings.NewReader(doc), nil)
	p.Load("")
	if i, _ := p.trailer.GetName("Info"); i != "new" {
		t.Fatal(i)
	}
''')),
dict(id="S38-font-operand", prop="C28", needs="a Tf operator with an operand left over before its own two",
 breaks="a font selected after a stray operand is not found",
 edits=[("pdf/page.go", "font_name, _ := operands.GetName(len(operands) - 2)", "font_name, _ := operands.GetName(0)")],
 demo=P('''	doc := zzDoc("/Root 1 0 R", "<</Type/Catalog/Pages 2 0 R>>", "<</Kids[3 0 R]/Count 1>>", "<</Contents 4 0 R/Resources<</Font<</F1 5 0 R>>>>>>",
		"<</Length 0>>\\nstream\\nBT 7 /F1 12 Tf (a) Tj ET\\nendstream", "<</ToUnicode 6 0 R>>", "<</Length 0>>\\nstream\\n1 beginbfchar <61> <7a> endbfchar\\nendstream")
	dir, err := zzParse(t, doc, "")
	if err != nil {
		t.Fatal(err)
	}
	if s := zzRead(t, dir, "contents.txt"); s != "z\\n" {
		t.Fatalf("%q", s)
	}
''')),
dict(id="S39-verify-prefix", prop="C10", needs="a wrong password, or a document, whose computed U agrees with the stored one only in its first bytes",
 breaks="only as many bytes of the U entry are compared as the key is long",
 edits=[("pdf/encryption.go", "\t\tif string(u) != string(sh.u[:16]) {", "\t\tif string(u[:sh.length]) != string(sh.u[:sh.length]) {")],
 demo=E('''	d := zzTrailer(2, 3, Dictionary{})
	e := d["Encrypt"].(Dictionary)
	u := []byte(string(e["U"].(String)))
	u[10] ^= 1
	e["U"] = String(u)
	if err := NewSecurityHandler().Init([]byte{}, d); err == nil {
		t.Fatal("opened")
	}
''')),
dict(id="S40-one-xref-stream", prop="C31", needs="a document with several cross-reference streams",
 breaks="only the first cross-reference stream that the map iteration happens to visit is loaded",
 edits=[("pdf/parser.go", "\t\t\txref_offsets = append(xref_offsets, object.Offset)\n\t\t}", "\t\t\txref_offsets = append(xref_offsets, object.Offset)\n\t\t\tbreak\n\t\t}")],
 demo=P('''	doc := "%PDF-1.5\\n"
	for i := 10; i < 18; i++ {
		doc += fmt.Sprintf("%d 0 obj\\n<</Type/XRef/Size 1/W[1 1 1]/K%d 1>>\\nstream\\n\\x00\\x00\\x00\\nendstream\\nendobj\\n", i, i)
	}
	for i := 0; i < 40; i++ {
		p := NewParser(strings.NewReader(doc), nil)
		p.Load("")
		for n := 10; n < 18; n++ {
			if _, ok := p.trailer[fmt.Sprintf("K%d", n)]; !ok {
				t.Fatal("section missing", n)
			}
		}
	}
''')),
dict(id="S41-array-nested-decrypt", prop="C11", needs="an encrypted string inside an array inside an array",
 breaks="strings in nested arrays are not decrypted",
 edits=[("pdf/parser.go", "\t\telement, err := parser.ReadObject(decryptor)\n", "\t\tif parser.depth > 2 {\n\t\t\tdecryptor = noDecryptor\n\t\t}\n\t\telement, err := parser.ReadObject(decryptor)\n")],
 demo=P('''	f := &CryptFilterRC4{[]byte("01234")}
	enc := f.NewDecryptor(1, 0).Decrypt([]byte("secret"))
	o, _ := NewParser(strings.NewReader(fmt.Sprintf("[[[<%x>]]]", enc)), nil).ReadObject(f.NewDecryptor(1, 0))
	if s := o.(Array)[0].(Array)[0].(Array)[0]; s != Object(String("secret")) {
		t.Fatalf("%q", s)
	}
''')),
dict(id="S42-aa-break", prop="C24", needs="an additional-actions dictionary with an entry that is not an action before a launch action",
 breaks="launch actions after an entry that is not a dictionary are not recorded",
 edits=[("pdf/object.go", "\t\t\t\tif a, ok := aa.GetDictionary(key); ok {\n\t\t\t\t\tAction(a).Extract(output)\n\t\t\t\t}\n", "\t\t\t\ta, ok := aa.GetDictionary(key)\n\t\t\t\tif !ok {\n\t\t\t\t\tbreak\n\t\t\t\t}\n\t\t\t\tAction(a).Extract(output)\n")],
 demo=P('''	dir, err := zzParse(t, zzDoc("", "<</AA <</A null /O <</S/Launch/F(run.exe)>>>>>>"), "")
	if err != nil {
		t.Fatal(err)
	}
	if s := zzRead(t, dir, "commands.txt"); s != "run.exe\\n" {
		t.Fatalf("%q", s)
	}
''')),
]
