PRE = '''package pdf

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"
	"testing"
)

var _ = bytes.NewReader
var _ = fmt.Sprintf
var _ = filepath.Join
var _ = strings.Contains
var _ = os.Stat

// zzDoc builds a document with a classic cross-reference table from numbered object bodies.
func zzDoc(trailer string, bodies ...string) []byte {
	var b bytes.Buffer
	b.WriteString("%PDF-1.7\\n")
	offsets := []int{}
	for i, body := range bodies {
		offsets = append(offsets, b.Len())
		fmt.Fprintf(&b, "%d 0 obj\\n%s\\nendobj\\n", i+1, body)
	}
	x := b.Len()
	fmt.Fprintf(&b, "xref\\n0 %d\\n0000000000 65535 f \\n", len(bodies)+1)
	for _, o := range offsets {
		fmt.Fprintf(&b, "%010d 00000 n \\n", o)
	}
	fmt.Fprintf(&b, "trailer\\n<</Size %d %s>>\\nstartxref\\n%d\\n%%%%EOF\\n", len(bodies)+1, trailer, x)
	return b.Bytes()
}

// zzParse parses data into a fresh directory and returns that directory.
func zzParse(t *testing.T, data []byte, password string) (string, error) {
	if Verbose == nil {
		v := false
		Verbose = &v
	}
	dir := t.TempDir()
	in := filepath.Join(dir, "in.pdf")
	if err := ioutil.WriteFile(in, data, 0644); err != nil {
		t.Fatal(err)
	}
	out := filepath.Join(dir, "out")
	return out, Parse(in, password, out)
}

func zzRead(t *testing.T, dir string, name string) string {
	b, err := ioutil.ReadFile(filepath.Join(dir, name))
	if err != nil {
		t.Fatal(err)
	}
	return string(b)
}

'''
