// C28: questions about a NakedOS disk have consistent answers.
package main

import (
	"fmt"
	"strconv"
	"strings"

	"verif/lib"
	"verif/nk"
	"verif/ref"
	"verif/vf"

	"github.com/zellyn/diskii/disk"
	"github.com/zellyn/diskii/supermon"
)

var real = lib.Real()

// ask compares all answers about a map with the 560 bytes it stands for.
func ask(t *vf.T, sm supermon.SectorMap, owner []byte, when string) {
	by := map[byte][]disk.TrackSector{}
	for i, f := range owner {
		by[f] = append(by[f], disk.TrackSector{Track: byte(i / 16), Sector: byte(i % 16)})
	}
	for tr := 0; tr < 40; tr++ {
		for s := 0; s < 20; s++ {
			want := byte(0)
			if tr < 35 && s < 16 {
				want = owner[tr*16+s]
			}
			if got := sm.FileForSector(byte(tr), byte(s)); got != want {
				t.Fail("%s: track %d sector %d belongs to %02X, want %02X", when, tr, s, got, want)
			}
		}
	}
	for _, a := range [][2]byte{{255, 0}, {0, 255}, {35, 0}, {34, 16}, {128, 3}, {34, 128}, {255, 255}} {
		if got := sm.FileForSector(a[0], a[1]); got != 0 {
			t.Fail("%s: track %d sector %d, outside the disk, belongs to %02X", when, a[0], a[1], got)
		}
	}
	same := func(f byte, got []disk.TrackSector) {
		if fmt.Sprint(got) != fmt.Sprint(by[f]) {
			t.Fail("%s: file %02X has the sectors %v, want %v", when, f, got, by[f])
		}
	}
	all := sm.SectorsByFile()
	first := byte(0)
	files := 0
	for f := 1; f < 0xfe; f++ {
		same(byte(f), sm.SectorsForFile(byte(f)))
		same(byte(f), all[byte(f)])
		if len(by[byte(f)]) > 0 {
			files++
		} else if first == 0 {
			first = byte(f)
		}
	}
	same(0xff, sm.SectorsForFile(0xff))
	same(0xfe, sm.SectorsForFile(0xfe))
	same(0, sm.SectorsForFile(0))
	if len(all) != files {
		t.Fail("%s: the map of all files has %d entries, want %d", when, len(all), files)
	}
	if got := sm.FirstFreeFile(); got != first {
		t.Fail("%s: the first unused number is %02X, want %02X", when, got, first)
	}
	if first == 0 {
		t.Event("maps without an unused number", 1)
	}
	if got := sm.FreeSectors(); got != len(by[0xff]) {
		t.Fail("%s: %d free sectors, want %d", when, got, len(by[0xff]))
	}
	sound := true
	for i, f := range owner {
		sound = sound && f != 0 && (i > 11 || f == 0xfe)
	}
	if err := sm.Verify(); (err == nil) != sound {
		t.Fail("%s: verification gives %v, but the map is sound: %v", when, err, sound)
	}
	if sound {
		t.Event("sound maps", 1)
	} else {
		t.Event("unsound maps", 1)
	}
	t.Event("maps asked", 1)
	t.Distinct(owner)
}

func maps(t *vf.T) {
	owner := make([]byte, 560)
	switch t.Intn(5) {
	case 0:
		t.Read(owner)
	case 1: // few files
		for i := range owner {
			owner[i] = []byte{0xff, 0xff, 1, 2, 5, 0xfd, 0xfe, byte(t.Intn(256))}[t.Intn(8)]
		}
	case 2: // every number used, but perhaps for one
		for i := range owner {
			owner[i] = byte(1 + i%253)
		}
		t.Shuffle(560, func(i, j int) { owner[i], owner[j] = owner[j], owner[i] })
		if t.Intn(3) > 0 {
			gone := byte(1 + t.Intn(253))
			if t.Intn(3) == 0 {
				gone = []byte{1, 2, 0xfc, 0xfd}[t.Intn(4)]
			}
			for i := range owner {
				if owner[i] == gone {
					owner[i] = 0xff
				}
			}
		}
	case 3: // contiguous files, numbered from 1
		f, i := 1+t.Intn(2), 0
		for i < 560 {
			n := 1 + t.Intn(12)
			for ; n > 0 && i < 560; n-- {
				owner[i] = byte(f)
				i++
			}
			if f++; f >= 0xfe || t.Intn(60) == 0 {
				f = 0xff
			}
		}
	default:
		src, _ := nk.Source(t, real)
		copy(owner, src.Map())
	}
	if t.Intn(3) > 0 {
		for i := 0; i < 12; i++ {
			owner[i] = 0xfe
		}
		for i := range owner {
			if owner[i] == 0 {
				owner[i] = 0xff
			}
		}
		switch t.Intn(4) { // one flaw
		case 0:
			owner[[]int{0, 1, 10, 11, t.Intn(12)}[t.Intn(5)]] = []byte{0, 1, 0xfd, 0xff, byte(t.Intn(256))}[t.Intn(5)]
		case 1:
			owner[[]int{12, 15, 16, 559, 544, 12 + t.Intn(548)}[t.Intn(6)]] = 0
		}
	}
	sm := supermon.SectorMap(append([]byte{}, owner...))
	ask(t, sm, owner, "map")
	for j := 0; j < 12; j++ {
		tr, s, f := t.Intn(35), t.Intn(16), byte(1+t.Intn(0xfd))
		switch t.Intn(8) {
		case 0:
			tr = []int{35, 36, 40, 128, 255}[t.Intn(5)]
		case 1:
			s = []int{16, 17, 32, 128, 255}[t.Intn(5)]
		case 2:
			f = []byte{0, 0xfe, 0xff}[t.Intn(3)]
		case 3:
			f = []byte{1, 2, 0xfc, 0xfd}[t.Intn(4)]
		case 4:
			// Delete frees the sectors of one file
			if t.Intn(2) == 0 {
				f = owner[t.Intn(560)]
			}
			if f == 0 || f >= 0xfe {
				continue
			}
			sm.Delete(f)
			for i := range owner {
				if owner[i] == f {
					owner[i] = 0xff
				}
			}
			t.Event("files deleted from a map", 1)
			if string(sm) != string(owner) {
				t.Fail("after deleting %02X: %s", f, vf.FirstDiff(sm, owner))
			}
			continue
		}
		ok := tr < 35 && s < 16 && f != 0 && f != 0xfe && f != 0xff
		err := sm.SetFileForSector(byte(tr), byte(s), f)
		if (err == nil) != ok {
			t.Fail("giving track %d sector %d to file %02X: %v", tr, s, f, err)
		}
		if ok {
			owner[tr*16+s] = f
			t.Event("owners set", 1)
		} else {
			t.Event("owners refused", 1)
		}
		if string(sm) != string(owner) {
			t.Fail("after giving track %d sector %d to %02X: %s", tr, s, f, vf.FirstDiff(sm, owner))
		}
	}
	ask(t, sm, owner, "changed map")
	// stored and loaded, the map is the same and nothing else changed
	img := make([]byte, 143360)
	t.Read(img)
	want := append([]byte{}, img...)
	n := ref.Naked{Img: want}
	for i := range owner {
		*n.Owner(i) = owner[i]
	}
	if err := sm.Persist(img); err != nil || string(img) != string(want) {
		t.Fail("storing a map: %v, %s", err, vf.FirstDiff(img, want))
	}
	back, err := supermon.LoadSectorMap(img)
	if err != nil || string(back) != string(owner) {
		t.Fail("loading a map: %v, %s", err, vf.FirstDiff(back, owner))
	}
	if string(img) != string(want) {
		t.Fail("loading a map changed the disk")
	}
	t.Event("maps stored and loaded", 1)
}

// names: a file's name leads back to the file; compounds are understood as
// documented.
func names(t *vf.T) {
	src, desc := nk.Source(t, real)
	if t.Intn(4) == 0 {
		for k := 0; k < 3; k++ {
			nk.NumberSym(t, src)
		}
	}
	m := nk.FromDisk(src)
	if !m.HasST || m.Dup {
		return
	}
	t.Note("symbols of %s", desc)
	sm, err := supermon.LoadSectorMap(src.Img)
	if err != nil {
		t.Fail("the map cannot be loaded: %v", err)
	}
	st, err := sm.ReadSymbolTable(src.Img)
	if err != nil {
		t.Fail("the symbol table cannot be read: %v", err)
	}
	byFile := map[byte][]string{}
	var syms []string
	for i, s := range st {
		if s.Address == 0 {
			continue
		}
		syms = append(syms, s.Name)
		if s.Address > 0xdf00 && s.Address < 0xdffe {
			byFile[byte(s.Address)] = append(byFile[byte(s.Address)], s.Name)
		}
		if got, ok := m.Syms[strings.ToUpper(s.Name)]; !ok || got != s.Address {
			t.Fail("slot %d holds %v, which is not on the disk", i, s)
		}
	}
	for f := 1; f < 0xfe; f++ {
		f := byte(f)
		n, full := supermon.NameForFile(f, st), supermon.FullnameForFile(f, st)
		num := fmt.Sprintf("DF%02X", f)
		if len(byFile[f]) == 0 {
			if n != num || full != num {
				t.Fail("file %02X without a symbol is called %q and %q", f, n, full)
			}
		} else {
			ok := false
			for _, s := range byFile[f] {
				ok = ok || n == s
			}
			if !ok || full != num+":"+n {
				t.Fail("file %02X, which has the symbols %v, is called %q and %q", f, byFile[f], n, full)
			}
		}
		if len(byFile[f]) == 0 || ref.FileNumber(n) == 0 {
			got, err := st.FileForName(n)
			if err != nil || got != f {
				t.Fail("file %02X is called %q, which is understood as %02X (%v)", f, n, got, err)
			}
			if !strings.Contains(full, ":") {
				continue
			}
			a, b, s, err := st.FilesForCompoundName(full)
			if err != nil || a != f || b != f || !strings.EqualFold(s, n) {
				t.Fail("the full name %q of file %02X is understood as %02X, %02X, %q (%v)", full, f, a, b, s, err)
			}
			t.Event("names traced back", 1)
		}
	}
	mix := func(s string) string {
		switch t.Intn(4) {
		case 0:
			return strings.ToLower(s)
		case 1:
			return strings.ToUpper(s)
		}
		return s
	}
	sym := func() string {
		if len(syms) > 0 && t.Intn(2) == 0 {
			return mix(syms[t.Intn(len(syms))])
		}
		switch t.Intn(6) {
		case 0:
			return ""
		case 1:
			return []string{"A", "AB", "TOOLONGNAME", "A.B", "NO-NAME", "SP ACE", "1234567890", "999999999", "99999999", "ABCDEFGHI"}[t.Intn(10)]
		case 2:
			return fmt.Sprintf("%X", t.Intn(65536))
		}
		return mix(ref.RandSymName(t.Rand))
	}
	num := func() string {
		v := t.Intn(65536)
		switch t.Intn(5) {
		case 0:
			v = []int{0, 1, 0xfc, 0xfd, 0xfe, 0xff, 0x100, 0xdeff, 0xdf00, 0xdf01, 0xdffd, 0xdffe, 0xdfff, 0xe000, 0xffff, 0x10000, 0x1df05, 0x10005}[t.Intn(18)]
		case 1:
			v = 0xdf00 + t.Intn(256)
		case 2:
			v = t.Intn(256)
		}
		s := fmt.Sprintf([]string{"%X", "%04X", "%02x", "%06X", "%x"}[t.Intn(5)], v)
		switch t.Intn(25) {
		case 0:
			s = "$" + s
		case 1:
			s = "0x" + s
		case 2:
			s = ""
		case 3:
			s += "G"
		case 4:
			s = "+" + s
		case 5:
			s = "-" + s
		}
		return s
	}
	for j := 0; j < 60; j++ {
		var q string
		switch t.Intn(6) {
		case 0:
			q = sym()
		case 1:
			q = num()
		case 2:
			q = num() + ":" + sym() + ":" + sym()
		case 3:
			q = sym() + ":" + sym()
		default:
			q = num() + ":" + sym()
		}
		question(t, st, m, q)
	}
}

func question(t *vf.T, st supermon.SymbolTable, m *nk.Model, q string) {
	parts := strings.Split(q, ":")
	addr := func(s string) (uint16, bool) {
		v, err := strconv.ParseUint(s, 16, 16)
		return uint16(v), err == nil
	}
	// names that cannot be encoded may still be in a table as it was read
	{ // ParseCompoundSymbol
		a, b, s, err := st.ParseCompoundSymbol(q)
		var wa, wb uint16
		var ws string
		fail := false
		switch {
		case q == "" || len(parts) > 2:
			fail = true
		case len(parts) == 1:
			if x := m.Syms[strings.ToUpper(q)]; x != 0 {
				wb, ws = x, q
			} else if x, ok := addr(q); ok {
				wa = x
			} else if ref.ValidName(q) {
				ws = q
			} else {
				fail = true
			}
		default:
			x, ok := addr(parts[0])
			if !ok || !ref.ValidName(parts[1]) {
				fail = true
			} else {
				wa, wb, ws = x, m.Syms[strings.ToUpper(parts[1])], parts[1]
			}
		}
		if (err != nil) != fail || !fail && (a != wa || b != wb || !strings.EqualFold(s, ws)) {
			t.Fail("the symbol %q is understood as %04X, %04X, %q (%v), want %04X, %04X, %q, error %v", q, a, b, s, err, wa, wb, ws, fail)
		}
		if fail {
			t.Event("symbols refused", 1)
		} else {
			t.Event("symbols understood", 1)
		}
	}
	{ // FilesForCompoundName
		a, b, s, err := st.FilesForCompoundName(q)
		var wa, wb byte
		var ws string
		fail := false
		switch {
		case len(parts) > 2:
			fail = true
		case len(parts) == 1:
			if f, bySym := m.Resolve(q); f != 0 && !bySym {
				wa = f
			} else if f != 0 {
				wa, wb, ws = f, f, q
			} else {
				ws = q
			}
		default:
			f := ref.FileNumber(parts[0])
			if f == 0 || ref.FileNumber(parts[1]) != 0 {
				fail = true
			} else {
				wa, ws = f, parts[1]
				wb, _ = m.Resolve(parts[1])
			}
		}
		if (err != nil) != fail || !fail && (a != wa || b != wb || !strings.EqualFold(s, ws)) {
			t.Fail("the file name %q is understood as %02X, %02X, %q (%v), want %02X, %02X, %q, error %v", q, a, b, s, err, wa, wb, ws, fail)
		}
		if fail {
			t.Event("file names refused", 1)
		} else {
			t.Event("file names understood", 1)
		}
	}
	{ // FileForName
		f, err := st.FileForName(q)
		w, _ := m.Resolve(q)
		if f != w || (err == nil) != (w != 0) {
			t.Fail("the name %q is understood as file %02X (%v), want %02X", q, f, err, w)
		}
	}
}

func main() {
	vf.Main(vf.Spec{
		ID:   "C28",
		Rule: "maps: sector maps of random bytes, of few or all file numbers, contiguous, of generated and real disks, sound or with one flaw; every question is asked before and after owners are set, refused and deleted, and compared with the 560 bytes. names: symbol tables of generated and real disks; the name of every file number is looked up again, and numbers, names and compounds, well formed and not, are parsed and compared with a reading of the documented forms. Distinct = distinct maps.",
		Assumptions: []string{
			"tables with two symbols of one name are left out",
			"names are ASCII",
		},
		Require: []string{"maps asked", "sound maps", "unsound maps", "maps without an unused number", "owners set", "owners refused", "files deleted from a map", "maps stored and loaded", "names traced back", "symbols understood", "symbols refused", "file names understood", "file names refused"},
	}, func(s *vf.Suite) {
		s.Section("maps", 24000, 120000, maps)
		s.Section("names", 12000, 60000, names)
	})
}
