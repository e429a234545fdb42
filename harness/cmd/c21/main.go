// C21: file type names are unambiguous.
package main

import (
	"bytes"
	"fmt"
	"strings"

	"verif/ref"
	"verif/vf"

	"github.com/zellyn/diskii/types"
)

// entry is a row of the ProDOS, SOS and DOS 3.3 type tables.
type entry struct {
	code             int
	name, three, one string
}

var table = func() []entry {
	t := []entry{
		{0x00, "Typeless", "", ""}, {0x01, "BadBlocks", "", ""}, {0x02, "SOSPascalCode", "", ""}, {0x03, "SOSPascalText", "", ""},
		{0x04, "ASCIIText", "TXT", "T"}, {0x05, "SOSPascalText2", "", ""}, {0x06, "Binary", "BIN", "B"}, {0x07, "Font", "", ""},
		{0x08, "GraphicsScreen", "", ""}, {0x09, "BusinessBASIC", "", ""}, {0x0a, "BusinessBASICData", "", ""}, {0x0b, "SOSWordProcessor", "", ""},
		{0x0c, "SOSSystem", "", ""}, {0x0f, "Directory", "DIR", "D"}, {0x10, "RPSData", "", ""}, {0x11, "RPSIndex", "", ""},
		{0x19, "AppleWorksDatabase", "ADB", ""}, {0x1a, "AppleWorksWordProcessor", "AWP", ""}, {0x1b, "AppleWorksSpreadsheet", "ASP", ""},
		{0xef, "Pascal", "PAS", ""}, {0xf0, "Command", "CMD", ""},
		{0xfa, "IntegerBASIC", "INT", "I"}, {0xfb, "IntegerBASICVariables", "IVR", ""}, {0xfc, "ApplesoftBASIC", "BAS", "A"},
		{0xfd, "ApplesoftBASICVariables", "VAR", ""}, {0xfe, "Relocatable", "REL", "R"}, {0xff, "System", "SYS", ""},
		{0x100, "S", "", "S"}, {0x101, "NewA", "", "A"}, {0x102, "NewB", "", "B"},
	}
	for c := 0xf1; c <= 0xf8; c++ {
		t = append(t, entry{c, fmt.Sprintf("UserDefined%02X", c), "", ""})
	}
	for c := 0x0d; c < 0xc0; c++ {
		if c <= 0x0e || c >= 0x12 && c <= 0x18 || c >= 0x1c {
			t = append(t, entry{c, fmt.Sprintf("SOSReserved%02X", c), "", ""})
		}
	}
	for c := 0xc0; c < 0xef; c++ {
		t = append(t, entry{c, fmt.Sprintf("ProDOSReserved%02X", c), "", ""})
	}
	return t
}()

// accepted maps every string that names a type to its code.
var accepted = func() map[string]int {
	m := map[string]int{}
	for _, e := range table {
		m[e.name] = e.code
	}
	for _, e := range table {
		for _, a := range []string{e.three, e.one} {
			// the letters A and B belong to the older types
			if _, dup := m[a]; !dup && a != "" {
				m[a] = e.code
			}
		}
	}
	return m
}()

var byCode = func() map[int]entry {
	m := map[int]entry{}
	for _, e := range table {
		m[e.code] = e
	}
	return m
}()

func list(t *vf.T) {
	infos := types.FiletypeInfos(true)
	codes, names := map[types.Filetype]bool{}, map[string]bool{}
	printed := map[string]types.Filetype{}
	for _, in := range infos {
		t.Eval(1)
		if codes[in.Type] {
			t.Fail("code %#x is listed twice", int(in.Type))
		}
		if names[in.Name] || in.Name == "" {
			t.Fail("name %q is listed twice or empty", in.Name)
		}
		codes[in.Type], names[in.Name] = true, true
		e, ok := byCode[int(in.Type)]
		if !ok {
			t.Fail("code %#x (%s) is not one of ProDOS or DOS 3.3", int(in.Type), in.Name)
		}
		if in.Name != e.name || in.ThreeLetter != e.three || in.OneLetter != e.one {
			t.Fail("code %#x is listed as %q %q %q, want %q %q %q", e.code, in.Name, in.ThreeLetter, in.OneLetter, e.name, e.three, e.one)
		}
		if got, err := types.FiletypeForName(in.Name); err != nil || got != in.Type {
			t.Fail("full name %q resolves to %#x, %v; want %#x", in.Name, int(got), err, int(in.Type))
		}
		adv := strings.Split(in.NamesString, "|")
		if adv[0] != in.Name {
			t.Fail("the names of %s are given as %q", in.Name, in.NamesString)
		}
		for _, n := range adv {
			got, err := types.FiletypeForName(n)
			if err != nil || got != in.Type {
				t.Fail("%q, advertised for %s (%#x), resolves to %#x, %v", n, in.Name, int(in.Type), int(got), err)
			}
			if c, ok := accepted[n]; !ok || c != e.code {
				t.Fail("%q is advertised for %s", n, in.Name)
			}
			t.Event("advertised names resolved", 1)
		}
		// everything that resolves to this type is advertised for it
		for n, c := range accepted {
			if c != e.code {
				continue
			}
			ok := false
			for _, a := range adv {
				ok = ok || a == n
			}
			if !ok {
				t.Fail("%q is not advertised for %s (%q)", n, in.Name, in.NamesString)
			}
		}
		s := in.Type.String()
		if s != in.Stringified || !strings.HasPrefix(s, in.Desc) || in.Desc == "" || !strings.Contains(s, in.Name) {
			t.Fail("code %#x prints as %q; its description is %q and its name %q", e.code, s, in.Desc, in.Name)
		}
		if s != in.Desc+" ("+in.NamesString+")" {
			t.Fail("code %#x prints as %q, its description is %q and its names are %q", e.code, s, in.Desc, in.NamesString)
		}
		if o, dup := printed[s]; dup {
			t.Fail("codes %#x and %#x both print as %q", int(o), e.code, s)
		}
		printed[s] = in.Type
		t.Event("types", 1)
		t.Distinct(e.code)
	}
	if len(infos) != len(table) {
		for c := range byCode {
			if !codes[types.Filetype(c)] {
				t.Fail("code %#x is not listed", c)
			}
		}
	}
	// the short list
	short := map[types.Filetype]bool{}
	for _, in := range types.FiletypeInfos(false) {
		if in.Extra || !codes[in.Type] || short[in.Type] {
			t.Fail("type %s in the short list is marked extra, unknown or repeated", in.Name)
		}
		short[in.Type] = true
	}
	for _, in := range infos {
		if !in.Extra && !short[in.Type] {
			t.Fail("type %s is missing from the short list", in.Name)
		}
	}
	// codes that do not exist
	for _, c := range []int{-1, -256, 0x103, 0x104, 0x106, 0x200, 0x1ff, 0xffff, 1 << 20} {
		if o, dup := printed[types.Filetype(c).String()]; dup {
			t.Fail("code %#x, which does not exist, prints like %#x", c, int(o))
		}
	}
}

func names(t *vf.T) {
	for n, c := range accepted {
		got, err := types.FiletypeForName(n)
		if err != nil || int(got) != c {
			t.Fail("%q resolves to %#x, %v; want %#x", n, int(got), err, c)
		}
		t.Event("names resolved", 1)
	}
}

var keys = func() []string {
	var k []string
	for _, e := range table {
		k = append(k, e.name)
		if e.three != "" {
			k = append(k, e.three)
		}
		if e.one != "" {
			k = append(k, e.one)
		}
	}
	return k
}()

func other(t *vf.T) string {
	k := keys[t.Intn(len(keys))]
	switch t.Intn(16) {
	case 0:
		return strings.ToLower(k)
	case 1:
		return strings.ToUpper(k)
	case 2:
		return k + " "
	case 3:
		return " " + k
	case 4:
		return k[:t.Intn(len(k))]
	case 5:
		return k[t.Intn(len(k)):]
	case 6:
		return k + string(rune('A'+t.Intn(26)))
	case 7:
		return k + "|" + keys[t.Intn(len(keys))]
	case 8:
		return fmt.Sprintf([]string{"%02X", "%d", "$%02X", "0x%02x", "%x"}[t.Intn(5)], t.Intn(0x110))
	case 9:
		b := []byte(k)
		b[t.Intn(len(b))] ^= byte(1 << uint(t.Intn(7)))
		return string(b)
	case 10:
		in := types.FiletypeInfos(true)
		x := in[t.Intn(len(in))]
		return []string{x.Desc, x.Stringified, x.NamesString, "Filetype" + x.Name}[t.Intn(4)]
	case 11:
		return string(rune(t.Intn(0x180)))
	case 12:
		return string([]byte{byte('A' + t.Intn(26)), byte('A' + t.Intn(26)), byte('A' + t.Intn(26))})
	case 13:
		return fmt.Sprintf([]string{"SOSReserved%02X", "ProDOSReserved%02X", "UserDefined%02X", "SOSReserved%02x", "UserDefined%d"}[t.Intn(5)], t.Intn(256))
	case 14:
		return []string{"", "|", " ", "\x00", "-", "*", "%s", "Unknown", "Text", "Integer", "Applesoft", "New", "TX", "TXTT"}[t.Intn(14)]
	}
	b := make([]byte, t.Intn(20))
	t.Read(b)
	return string(b)
}

func strangers(t *vf.T) {
	for j := 0; j < 200; j++ {
		n := other(t)
		got, err := types.FiletypeForName(n)
		if c, ok := accepted[n]; ok {
			if err != nil || int(got) != c {
				t.Fail("%q resolves to %#x, %v; want %#x", n, int(got), err, c)
			}
			continue
		}
		t.Eval(1)
		if err == nil {
			t.Fail("%q, the name of no type, resolves to %#x (%v)", n, int(got), got)
		}
		t.Event("other strings rejected", 1)
		t.Distinct(n)
	}
}

// short tries every text of up to two characters and every three letters.
func short(t *vf.T) {
	try := func(n string) {
		got, err := types.FiletypeForName(n)
		c, ok := accepted[n]
		if ok != (err == nil) || ok && int(got) != c {
			t.Fail("%q resolves to %#x, %v; is it a name: %v (%#x)", n, int(got), err, ok, c)
		}
		t.Eval(1)
	}
	a := byte(t.I)
	try(string([]byte{a}))
	for b := 0; b < 256; b++ {
		try(string([]byte{a, byte(b)}))
	}
	if a >= '0' && a <= 'z' {
		for b := '0'; b <= 'z'; b++ {
			for c := '0'; c <= 'z'; c++ {
				try(string([]byte{a, byte(b), byte(c)}))
			}
		}
	}
	t.Event("first characters of short names tried", 1)
}

func squeeze(s string) string { return strings.Join(strings.Fields(s), " ") }

func cli(t *vf.T) {
	all := t.I%2 == 0
	args := []string{"filetypes"}
	if all {
		args = append(args, "--all")
	}
	r := t.Run(vf.RunOpts{}, args...)
	if r.Exit != 0 {
		t.Fail("%v: %v", args, r)
	}
	rows := map[string]int{}
	for _, l := range strings.Split(string(r.Stdout), "\n") {
		rows[squeeze(l)]++
	}
	for _, in := range types.FiletypeInfos(all) {
		e := byCode[int(in.Type)]
		row := squeeze(strings.Join([]string{in.Desc, e.name, e.three, e.one}, " "))
		if rows[row] != 1 {
			t.Note("output:\n%s", r.Stdout)
			t.Fail("%v: the row %q appears %d times", args, row, rows[row])
		}
		t.Event("rows of the printed list", 1)
	}
	// nothing else is listed: heading, underline and the rows
	n := len(strings.Split(strings.TrimSpace(string(r.Stdout)), "\n"))
	if n != len(types.FiletypeInfos(all))+2 {
		t.Fail("%v: %d lines for %d types", args, n, len(types.FiletypeInfos(all)))
	}
}

// put names a type on the command line.
func put(t *vf.T) {
	n := ref.BuildNaked(t.Rand, ref.NakedOpts{Files: 1 + t.Intn(5), MaxSec: 9, FreeLeft: -1})
	img := ref.Conv(n.Img, "raw", "do")
	dir := t.Fresh()
	t.Put(dir, "d.dsk", img)
	t.Put(dir, "data", ref.RandBytes(t.Rand, 1+t.Intn(300)))
	name := keys[t.Intn(len(keys))]
	if t.I%4 == 2 {
		name = []string{"B", "BIN", "Binary"}[t.Intn(3)]
	}
	if t.I%2 == 1 {
		name = other(t)
	}
	if strings.ContainsRune(name, 0) {
		return
	}
	if n.Free() < 2 || len(n.Sectors(0x77)) > 0 {
		return
	}
	r := t.Run(vf.RunOpts{Dir: dir}, "put", "--filetype-name="+name, "d.dsk", "DF77", "data")
	c, ok := accepted[name]
	ok = ok && c == 6 // NakedOS stores binary files only
	after := t.Get(dir, "d.dsk")
	switch {
	case ok && r.Exit != 0:
		t.Fail("put with type %q: %v", name, r)
	case ok && bytes.Equal(after, img):
		t.Fail("put with type %q changed nothing", name)
	case !ok && !r.Err():
		t.Fail("put with type %q, which names no type or not the binary type: %v", name, r)
	case !ok && !bytes.Equal(after, img):
		t.Fail("refused put with type %q changed the image", name)
	}
	if ok {
		t.Event("types accepted by put", 1)
	} else {
		t.Event("types refused by put", 1)
	}
	t.Distinct("put", name)
}

func main() {
	vf.Main(vf.Spec{
		ID:   "C21",
		Rule: "codes and names are unique and those of the table; advertised names resolve to their own type; everything else is rejected",
		Assumptions: []string{
			"the table of codes, names and abbreviations is the harness's own, from the ProDOS technical reference and DOS 3.3",
			"the letters A and B name the Applesoft and binary types, not the DOS 3.3 types that are shown with the same letter",
		},
		Require: []string{"types", "advertised names resolved", "other strings rejected", "rows of the printed list", "types accepted by put", "types refused by put"},
	}, func(s *vf.Suite) {
		s.Section("list", 2, 2, list)
		s.Section("names", 2, 2, names)
		s.Section("short", 256, 256, short)
		s.Section("strangers", 2400, 20000, strangers)
		s.Section("cli", 2, 2, cli)
		s.Section("put", 2400, 12000, put)
	})
}
