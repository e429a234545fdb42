// C22: control characters are shown escaped, one-to-one.
package main

import (
	"bytes"
	"fmt"
	"strings"
	"unicode/utf8"

	"verif/ref"
	"verif/vf"

	"github.com/zellyn/diskii/basic"
	"github.com/zellyn/diskii/basic/applesoft"
	"github.com/zellyn/diskii/basic/integer"
)

var impls = []struct {
	name string
	fn   func(string) string
}{
	{"basic.ChevronControlCodes", basic.ChevronControlCodes},
	{"integer.ChevronControlCodes", integer.ChevronControlCodes},
}

func isCtrl(c byte) bool { return c < 0x20 && c != '\n' && c != '\t' || c == 0x7f }

// learn returns the code of every control character as the implementation
// prints it alone, after checking that it is a proper, distinct code.
func learn(t *vf.T, name string, fn func(string) string) (codes [128]string) {
	seen := map[string]int{}
	for c := 0; c < 128; c++ {
		if c >= 0x20 && c != 0x7f {
			codes[c] = string([]byte{byte(c)})
			if s := fn(codes[c]); s != codes[c] {
				t.Fail("%s shows %#x as %q", name, c, s)
			}
			continue
		}
		s := fn(string([]byte{byte(c)}))
		codes[c] = s
		if !isCtrl(byte(c)) {
			if s != string([]byte{byte(c)}) {
				t.Fail("%s shows newline or tab (%#x) as %q", name, c, s)
			}
			continue
		}
		if !strings.HasPrefix(s, "«") || !strings.HasSuffix(s, "»") || len(s) <= len("«»") || !utf8.ValidString(s) {
			t.Fail("%s shows %#x as %q, which is not a chevron code", name, c, s)
		}
		in := strings.TrimSuffix(strings.TrimPrefix(s, "«"), "»")
		if strings.ContainsAny(in, "«»") {
			t.Fail("%s shows %#x as %q: nested chevrons", name, c, s)
		}
		for i := 0; i < len(s); i++ {
			if s[i] < 0x20 || s[i] == 0x7f {
				t.Fail("%s shows %#x as %q, which contains a control character", name, c, s)
			}
		}
		if c >= 1 && c <= 26 && s != "«ctrl-"+string([]byte{byte('A' + c - 1)})+"»" {
			t.Fail("%s shows ctrl-%c as %q", name, 'A'+c-1, s)
		}
		if o, dup := seen[s]; dup {
			t.Fail("%s shows both %#x and %#x as %q", name, o, c, s)
		}
		seen[s] = c
		t.Event("control characters", 1)
	}
	return codes
}

func expect(codes [128]string, s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] < 0x80 {
			b.WriteString(codes[s[i]])
		} else {
			b.WriteByte(s[i])
		}
	}
	return b.String()
}

func randText(t *vf.T) string {
	n := t.Intn(60)
	if t.Intn(20) == 0 {
		n = t.Intn(5000)
	}
	kind := t.Intn(6)
	var b []byte
	for len(b) < n {
		switch kind {
		case 0: // all bytes
			b = append(b, byte(t.Intn(256)))
		case 1: // controls only
			b = append(b, []byte{byte(t.Intn(32)), 0x7f}[t.Intn(40)/39])
		case 2: // runes
			r := rune(t.Intn(0x3000))
			if t.Intn(3) == 0 {
				r = []rune{0, 1, 4, 0x1b, 0x1f, 0x20, 0x7f, '«', '»', 0x85, 0xa0, 0x2028, 0x1f600, 0xfffd, 0xad}[t.Intn(15)]
			}
			b = append(b, string(r)...)
		case 3: // broken UTF-8 around controls
			b = append(b, []byte{0xc2, 0xe2, 0x80, 0xff, 0xf0, 0x9f, 4, 0, 0x1b, 0x7f}[t.Intn(10)])
		case 4: // text that looks like codes
			b = append(b, []string{"«ctrl-A»", "\x01", "«", "»", "ctrl-", "?", "NUL", "\x00", "\x1b", "%s", "\\x04", "^D", "$1"}[t.Intn(13)]...)
		default: // a listing
			b = append(b, []string{"10  PRINT \"", "\x04", "CATALOG\"\n", "\t", "\n", "\r", "\x07\x07", " REM ", "A\x08B"}[t.Intn(9)]...)
		}
	}
	return string(b)
}

func lib(t *vf.T) {
	for _, im := range impls {
		codes := learn(t, im.name, im.fn)
		for j := 0; j < 20; j++ {
			s := randText(t)
			got := im.fn(s)
			t.Eval(1)
			if want := expect(codes, s); got != want {
				t.Fail("%s(%q) = %q, want %q", im.name, s, got, want)
			}
			if i := strings.IndexFunc(got, func(r rune) bool { return r == 127 || r < 32 && r != '\n' && r != '\t' }); i >= 0 {
				t.Fail("%s(%q) contains a control character", im.name, s)
			}
			if im.fn(got) != got {
				t.Fail("%s changes escaped text %q", im.name, got)
			}
			t.Event("texts escaped", 1)
			t.Distinct(im.name, s)
		}
	}
}

// every checks every byte value between every kind of neighbour.
func every(t *vf.T) {
	for _, im := range impls {
		codes := learn(t, im.name, im.fn)
		for a := 0; a < 256; a++ {
			for _, b := range []int{0, 1, 4, 9, 10, 13, 0x1a, 0x1b, 0x1c, 0x1f, 0x20, 0x7f, 'A', 0x80, 0xc2, 0xff, t.I % 256} {
				for _, s := range []string{string([]byte{byte(a), byte(b)}), string([]byte{byte(b), byte(a)}), string([]byte{byte(b), byte(a), byte(b), byte(a)})} {
					if got, want := im.fn(s), expect(codes, s); got != want {
						t.Fail("%s(%q) = %q, want %q", im.name, s, got, want)
					}
					t.Eval(1)
				}
			}
		}
	}
	t.Event("byte pair tables", 1)
}

func command(t *vf.T) {
	lines := ref.RandApplesoft(t.Rand, t.Intn(5) > 0)
	if t.I < 31 || t.Intn(4) == 0 {
		c := byte(1 + t.I%31)
		lines = append(lines, ref.ALine{Num: 7, Bytes: []byte{0xba, '"', c, 'X', c, c, '"', ':', 0xb2, c, ' ', c}})
	}
	if t.I == 31 || t.Intn(5) == 0 {
		l := ref.ALine{Num: 9, Bytes: []byte{0xb2}}
		for c := 1; c < 128; c++ {
			l.Bytes = append(l.Bytes, byte(c))
		}
		lines = append(lines, l)
	}
	b := ref.EncodeApplesoft(lines, 0x801)
	if ref.LooksHeadered(b) || t.Intn(2) == 0 {
		b = ref.Header(b)
	}
	dir := t.Fresh()
	t.Put(dir, "p", b)
	t.Note("program %x", b)
	raw := t.Run(vf.RunOpts{Dir: dir}, "applesoft", "decode", []string{"-r", "--raw"}[t.Intn(2)], "p")
	esc := t.Run(vf.RunOpts{Dir: dir}, "applesoft", "decode", "p")
	if raw.Exit != 0 || esc.Exit != 0 {
		t.Fail("%v; %v", raw, esc)
	}
	if err := ref.MatchListing(raw.Stdout, ref.ApplesoftEls(lines)); err != nil {
		t.Fail("raw listing %q: %v", raw.Stdout, err)
	}
	codes := learn(t, impls[0].name, impls[0].fn)
	if want := expect(codes, string(raw.Stdout)); string(esc.Stdout) != want {
		t.Fail("escaped listing: %s\nraw listing %q\nescaped %q", vf.FirstDiff(esc.Stdout, []byte(want)), raw.Stdout, esc.Stdout)
	}
	l, err := applesoft.Decode(b, 0x801)
	if err != nil || l.String() != string(raw.Stdout) {
		t.Fail("the raw listing differs from the library's: %v, %s", err, vf.FirstDiff(raw.Stdout, []byte(l.String())))
	}
	for c := byte(0); c < 128; c++ {
		if isCtrl(c) && bytes.IndexByte(esc.Stdout, c) >= 0 {
			t.Fail("escaped listing contains %#x", c)
		}
		if isCtrl(c) && bytes.IndexByte(raw.Stdout, c) >= 0 {
			t.Event(fmt.Sprintf("listings with %02x", c), 1)
		}
	}
	t.Event("listings compared", 1)
	t.Distinct(b)
}

func main() {
	vf.Main(vf.Spec{
		ID:   "C22",
		Rule: "the escaped text is the concatenation of the codes of its control characters and everything else unchanged; codes are distinct; the raw listing holds the control characters themselves",
		Assumptions: []string{
			"control characters are 00 to 1f and 7f (DEL); the codes 80 to 9f are text",
			"the text between the chevrons is only fixed for the letters; for the others any distinct code is accepted",
		},
		Require: []string{"control characters", "texts escaped", "byte pair tables", "listings compared", "listings with 04", "listings with 7f"},
	}, func(s *vf.Suite) {
		s.Section("library", 8000, 40000, lib)
		s.Section("every-byte", 64, 256, every)
		s.Section("command", 2400, 12000, command)
	})
}
