exec(open("/verif/tools/seeds/prelude.py").read())
bugs = [
dict(id="S01-getbool", prop="C05", needs="a boolean lookup of an entry holding another keyword such as null",
 breaks="Dictionary.GetBool reports success for any keyword, not only true and false",
 edits=[("pdf/dictionary.go", "if keyword == KEYWORD_TRUE {\n\t\t\t\treturn true, true\n\t\t\t} else if keyword == KEYWORD_FALSE {\n\t\t\t\treturn false, true\n\t\t\t}", "return keyword == KEYWORD_TRUE, true")],
 demo=PRE+'''func TestZZDemo(t *testing.T) {
	d := Dictionary{"K": KEYWORD_NULL}
	if v, ok := d.GetBool("K"); ok || v {
		t.Fatalf("null is not a boolean: %v %v", v, ok)
	}
}
'''),
dict(id="S02-dump-ext", prop="C06", needs="an embedded file whose name in the document has an extension",
 breaks="dumped files get an extension taken from the document's file name",
 edits=[("pdf/output.go", "ioutil.WriteFile(path.Join(output.Directory, md5sum), data, 0644)", "ioutil.WriteFile(path.Join(output.Directory, md5sum+path.Ext(name)), data, 0644)")],
 demo=PRE+'''func TestZZDemo(t *testing.T) {
	o, err := NewOutput(filepath.Join(t.TempDir(), "o"))
	if err != nil {
		t.Fatal(err)
	}
	defer o.Close()
	o.DumpFile("a.exe", []byte("x"))
	fs, _ := ioutil.ReadDir(o.Directory)
	if len(fs) != 8 {
		t.Fatal("expected eight files")
	}
	for _, f := range fs {
		if strings.HasSuffix(f.Name(), "exe") {
			t.Fatalf("file named by the document: %s", f.Name())
		}
	}
}
'''),
dict(id="S03-stat-error", prop="C08", needs="an output path whose stat fails with something else than not-exist, for example a looping symbolic link",
 breaks="without -f the tool removes an existing output path that can not be examined",
 edits=[("main.go", "!os.IsNotExist(err) && !*overwrite", "err == nil && !*overwrite")],
 script='''#!/bin/bash
# A symbolic link that points to itself exists but can not be examined: without -f it must stay.
repo="$(pwd)"
. /opt/vp/env.sh >/dev/null 2>&1
tmp="$(mktemp -d /tmp/demo.XXXXXX)" || exit 3
trap 'rm -rf -- "$tmp"' EXIT
go build -o "$tmp/tool" . || exit 3
ln -s loop "$tmp/loop"
printf '%%PDF-1.7\\n' > "$tmp/in.pdf"
"$tmp/tool" "$tmp/in.pdf" "$tmp/loop" >/dev/null 2>&1
[ -L "$tmp/loop" ] || { echo "existing output path was replaced without -f"; exit 1; }
'''),
dict(id="S04-close-early", prop="C09", needs="an output whose errors file could not be created",
 breaks="a partially set up output is not closed completely: the commands file stays open",
 edits=[("pdf/output.go", "\tif output.Commands != nil {\n\t\toutput.Commands.Close()\n\t}", "\tif output.Commands != nil && output.Errors != nil {\n\t\toutput.Commands.Close()\n\t}")],
 demo=PRE+'''func TestZZDemo(t *testing.T) {
	f, err := ioutil.TempFile(t.TempDir(), "c")
	if err != nil {
		t.Fatal(err)
	}
	o := &Output{Commands: f}
	o.Close()
	if _, err := f.WriteString("x"); err == nil {
		t.Fatal("commands file still open")
	}
}
'''),
dict(id="S05-resolve-offset", prop="C19", needs="resolving a reference to an object without a stream while reading something else",
 breaks="the reading position is only restored when the referenced object has a stream",
 edits=[("pdf/reference.go", "\t// revert offset\n\treference.parser.Seek(current_offset, io.SeekStart)\n\n\t// return the resolved object value\n\treturn object.Stream\n", "\t// objects without a stream have nothing to return\n\tif object.Stream == nil {\n\t\treturn nil\n\t}\n\n\t// revert offset\n\treference.parser.Seek(current_offset, io.SeekStart)\n\n\t// return the resolved object value\n\treturn object.Stream\n")],
 demo=PRE+'''func TestZZDemo(t *testing.T) {
	p := NewParser(bytes.NewReader(zzDoc("", "<</K 2 0 R>>", "null")), nil)
	p.Load("")
	p.Seek(9, 0)
	d := Dictionary{"K": NewReference(p, 2, 0)}
	d.GetStream("K")
	if p.CurrentOffset() != 9 {
		t.Fatalf("position moved to %d", p.CurrentOffset())
	}
}
'''),
dict(id="S06-comment-buffer", prop="C20", needs="a comment that continues past the end of the read buffer",
 breaks="a comment ends where the buffered data ends, so the result depends on how the input is chunked",
 edits=[("pdf/parser.go", "func (parser *Parser) consumeComment() {\n\tfor {\n\t\t// get next byte\n\t\tb, err := parser.ReadByte()\n\t\tif err != nil {\n\t\t\treturn\n\t\t}\n",
  "func (parser *Parser) consumeComment() {\n\t// skip buffered text that holds no line end\n\tif buffered, _ := parser.Peek(parser.Buffered()); len(buffered) > 0 && bytes.IndexAny(buffered, \"\\r\\n\") < 0 {\n\t\tparser.Discard(len(buffered))\n\t\treturn\n\t}\n\tfor {\n\t\t// get next byte\n\t\tb, err := parser.ReadByte()\n\t\tif err != nil {\n\t\t\treturn\n\t\t}\n")],
 demo=PRE+'''func TestZZDemo(t *testing.T) {
	p := NewParser(strings.NewReader("%"+strings.Repeat("c", 6000)+"\\n/Name"), nil)
	o, _ := p.ReadObject(noDecryptor)
	if n, ok := o.(Name); !ok || n != "Name" {
		t.Fatalf("read %T %.20q", o, fmt.Sprint(o))
	}
}
'''),
dict(id="S07-win-else", prop="C24", needs="a launch action that has both F and Win",
 breaks="the platform specific launch target is ignored when F is a dictionary",
 edits=[("pdf/action.go", "\t\tFile(f).Extract(output, isCommand)\n\t}\n\tif win, ok", "\t\tFile(f).Extract(output, isCommand)\n\t} else if win, ok")],
 demo=PRE+'''func TestZZDemo(t *testing.T) {
	dir, err := zzParse(t, zzDoc("/Root 1 0 R", "<</A <</S /Launch /F (unix.sh) /Win <</F (win.exe)>>>>>>"), "")
	if err != nil {
		t.Fatal(err)
	}
	if c := zzRead(t, dir, "commands.txt"); !strings.Contains(c, "win.exe") {
		t.Fatalf("win command missing: %q", c)
	}
}
'''),
dict(id="S08-js-subtype", prop="C25", needs="a script stored outside of a JavaScript action, for example in a rendition action",
 breaks="script streams are only written for dictionaries whose S entry is JavaScript",
 edits=[("pdf/object.go", "} else if js, ok := d.GetStream(\"JS\"); ok {", "} else if js, ok := d.GetStream(\"JS\"); ok && d[\"S\"] != Name(\"Rendition\") {")],
 demo=PRE+'''func TestZZDemo(t *testing.T) {
	dir, err := zzParse(t, zzDoc("/Root 1 0 R", "<</A <</S /Rendition /JS 2 0 R>>>>", "<<>>\\nstream\\nevil()\\nendstream"), "")
	if err != nil {
		t.Fatal(err)
	}
	if c := zzRead(t, dir, "javascript.js"); !strings.Contains(c, "evil()") {
		t.Fatalf("script missing: %q", c)
	}
}
'''),
dict(id="S09-hash-prefix", prop="C26", needs="an embedded file larger than 64 KiB",
 breaks="the manifest hash covers only the first 64 KiB of a dumped file",
 edits=[("pdf/output.go", "\thash.Write(data)", "\tif len(data) > 1<<16 {\n\t\thash.Write(data[:1<<16])\n\t} else {\n\t\thash.Write(data)\n\t}")],
 demo=(PRE+'''func TestZZDemo(t *testing.T) {
	o, err := NewOutput(filepath.Join(t.TempDir(), "o"))
	if err != nil {
		t.Fatal(err)
	}
	defer o.Close()
	data := bytes.Repeat([]byte("ab"), 50000)
	o.DumpFile("a", data)
	if b := zzRead(t, o.Directory, "files.txt"); !strings.HasPrefix(b, fmt.Sprintf("%x", md5.Sum(data))) {
		t.Fatalf("hash is not that of the content: %s", b)
	}
}
''').replace('import (', 'import (\n\t"crypto/md5"')),
dict(id="S10-load-error", prop="C30", needs="a document with an encryption dictionary that lacks required information",
 breaks="a document that can not be unlocked because information is missing is reported as parsed",
 edits=[("pdf/pdf.go", "if err := parser.Load(password); err != nil {", "if err := parser.Load(password); err == EncryptionPasswordError || err == EncryptionUnsupported {")],
 demo=PRE+'''func TestZZDemo(t *testing.T) {
	_, err := zzParse(t, zzDoc("/Root 1 0 R /Encrypt 2 0 R", "<<>>", "<</Filter /Standard /V 1 /R 2>>"), "")
	if err == nil {
		t.Fatal("no error reported")
	}
}
'''),
dict(id="S11-open-rw", prop="C07", needs="an input path that does not exist",
 breaks="the input is opened for writing and a missing input file is created",
 edits=[("pdf/pdf.go", "file, err := os.Open(file_path)", "file, err := os.OpenFile(file_path, os.O_RDWR|os.O_CREATE, 0644)")],
 demo=PRE+'''func TestZZDemo(t *testing.T) {
	dir := t.TempDir()
	Parse(filepath.Join(dir, "none.pdf"), "", filepath.Join(dir, "out"))
	if _, err := os.Stat(filepath.Join(dir, "none.pdf")); err == nil {
		t.Fatal("missing input file was created")
	}
}
'''),
dict(id="S12-xref-env", prop="C31", needs="two runs in directories with different names",
 breaks="embedded forms are named after the output directory, so equal documents give different manifests",
 edits=[("pdf/object.go", "\t\t\toutput.DumpFile(\"form.xml\", []byte(form_data.String()))", "\t\t\toutput.DumpFile(os.Getenv(\"PDFPARSER_FORM\")+\"form.xml\", []byte(form_data.String()))"), ("pdf/object.go", "\t\"fmt\"\n", "\t\"fmt\"\n\t\"os\"\n")],
 demo=PRE+'''func TestZZDemo(t *testing.T) {
	run := func() string {
		dir, err := zzParse(t, zzDoc("/Root 1 0 R", "<</XFA [2 0 R]>>", "<<>>\\nstream\\nabc\\nendstream"), "")
		if err != nil {
			t.Fatal(err)
		}
		return zzRead(t, dir, "files.txt")
	}
	a := run()
	os.Setenv("PDFPARSER_FORM", "x")
	defer os.Unsetenv("PDFPARSER_FORM")
	if b := run(); a != b {
		t.Fatalf("%q != %q", a, b)
	}
}
'''),
]
