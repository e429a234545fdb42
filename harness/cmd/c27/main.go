// C27: validation reports exactly the rules that are broken.
package main

import (
	"fmt"
	"strings"

	"verif/lib"
	"verif/ref"
	"verif/vf"

	"github.com/zellyn/diskii/disk"
	"github.com/zellyn/diskii/dos3"
	"github.com/zellyn/diskii/prodos"
)

// problem is a broken rule, found by reading the bytes of a block; hint is
// text that its report has to contain.
type problem struct{ what, hint string }

// date checks the four bytes of a timestamp: the time is a little-endian
// word, minute first.
func date(b []byte, what, hint string) (p []problem) {
	if b[2] >= 60 {
		p = append(p, problem{fmt.Sprintf("%s: minute %d", what, b[2]), hint})
	}
	if b[3] >= 24 {
		p = append(p, problem{fmt.Sprintf("%s: hour %d", what, b[3]), hint})
	}
	return p
}

// expected lists the rules that a directory block breaks. kind is one of
// volume-key, volume, subdir-key, subdir.
func expected(b []byte, kind string) (p []problem) {
	first := 0
	name := func(e []byte) string { return fmt.Sprintf("%q", string(e[1:1+e[0]&15])) }
	if strings.HasSuffix(kind, "-key") {
		first = 1
		if b[0] != 0 || b[1] != 0 {
			p = append(p, problem{"previous pointer", fmt.Sprintf("%04x", int(b[0])|int(b[1])<<8)})
		}
		h := b[4:43]
		if kind == "subdir-key" {
			if h[16] != 0x75 {
				p = append(p, problem{"marker", name(h)})
			}
			p = append(p, date(h[0x18:0x1c], "header creation", name(h))...)
		} else {
			p = append(p, date(h[0x18:0x1c], "header creation", "")...)
		}
	}
	for i := first; i < 13; i++ {
		e := b[4+39*i : 43+39*i]
		p = append(p, date(e[0x18:0x1c], fmt.Sprintf("creation of entry %d", i), name(e))...)
		p = append(p, date(e[0x21:0x25], fmt.Sprintf("modification of entry %d", i), name(e))...)
	}
	if b[511] != 0 {
		p = append(p, problem{"last byte", ""})
	}
	return p
}

// read parses, then validates.
func read(t *vf.T, b disk.Block, kind string) []error {
	var errs []error
	var err error
	switch kind {
	case "volume-key":
		k := &prodos.VolumeDirectoryKeyBlock{}
		if err = k.FromBlock(b); err == nil {
			errs = k.Validate()
		}
	case "volume":
		k := &prodos.VolumeDirectoryBlock{}
		if err = k.FromBlock(b); err == nil {
			errs = k.Validate()
		}
	case "subdir-key":
		k := &prodos.SubdirectoryKeyBlock{}
		if err = k.FromBlock(b); err == nil {
			errs = k.Validate()
		}
	case "subdir":
		k := &prodos.SubdirectoryBlock{}
		if err = k.FromBlock(b); err == nil {
			errs = k.Validate()
		}
	}
	if err != nil {
		t.Fail("%s block cannot be read: %v", kind, err)
	}
	return errs
}

func compare(t *vf.T, b []byte, kind string) {
	var blk disk.Block
	copy(blk[:], b)
	want := expected(b, kind)
	errs := read(t, blk, kind)
	if len(errs) != len(want) {
		t.Fail("%s block %x: %d problems reported %q, want %d: %v", kind, b, len(errs), errs, len(want), want)
	}
	for _, w := range want {
		ok := false
		for _, e := range errs {
			ok = ok || strings.Contains(e.Error(), w.hint)
		}
		if !ok {
			t.Fail("%s block %x: no report of %v among %q", kind, b, w, errs)
		}
	}
	t.Event("blocks validated", 1)
	t.Event("problems due", len(want))
	if len(want) == 0 {
		t.Event("blocks without a problem", 1)
	}
	t.Distinct(kind, fmt.Sprint(want))
}

var kinds = []string{"volume-key", "volume", "subdir-key", "subdir"}

var hours = []byte{0, 1, 12, 22, 23, 24, 25, 32, 59, 60, 128, 255}
var minutes = []byte{0, 1, 22, 23, 24, 25, 58, 59, 60, 61, 64, 128, 255}

// good makes a block of random bytes that breaks no rule.
func good(t *vf.T, kind string) []byte {
	b := make([]byte, 512)
	t.Read(b)
	for i := 0; i < 13; i++ {
		e := b[4+39*i : 43+39*i]
		if t.Intn(4) > 0 {
			n := ref.RandProName(t.Rand)
			e[0] = byte(1+t.Intn(3))<<4 | byte(len(n))
			copy(e[1:], n)
		}
		e[0x1a], e[0x1b] = byte(t.Intn(60)), byte(t.Intn(24))
		e[0x23], e[0x24] = byte(t.Intn(60)), byte(t.Intn(24))
		if t.Intn(3) == 0 {
			e[0x1a], e[0x1b] = 59, 23
		}
		if t.Intn(3) == 0 {
			e[0x23], e[0x24] = 59, 23
		}
	}
	b[511] = 0
	if strings.HasSuffix(kind, "-key") {
		b[0], b[1] = 0, 0
		t.Read(b[4+0x23 : 4+0x25]) // the header has no second date
	}
	if kind == "subdir-key" {
		b[4+16] = 0x75
	}
	return b
}

// entry makes an entry special: unused, deleted, without dates, with equal
// dates, or a copy of another one.
func entry(t *vf.T, b []byte) {
	e := b[4+39*t.Intn(13):][:39]
	switch t.Intn(8) {
	case 0:
		for i := range e {
			e[i] = 0
		}
	case 1:
		e[0] = 0
	case 2:
		e[0] &= 15
	case 3:
		e[0] = e[0]&0xf0 | byte(t.Intn(2)*15)
	case 4:
		copy(e[0x18:0x1a], []byte{0, 0})
		copy(e[0x21:0x23], []byte{0, 0})
	case 5:
		copy(e[0x21:0x25], e[0x18:0x1c])
	case 6:
		copy(e[0x18:0x1c], e[0x21:0x25])
	case 7:
		copy(e, b[4+39*t.Intn(13):][:39])
	}
	if t.Intn(3) == 0 { // both at the same, perhaps impossible, time
		m, h := minutes[t.Intn(len(minutes))], hours[t.Intn(len(hours))]
		e[0x1a], e[0x1b], e[0x23], e[0x24] = m, h, m, h
		if t.Intn(2) == 0 {
			copy(e[0x21:0x25], e[0x18:0x1c])
		}
	}
}

// spoil breaks, or brushes against, one rule.
func spoil(t *vf.T, b []byte, kind string) {
	if t.Intn(3) == 0 {
		entry(t, b)
		return
	}
	switch t.Intn(6) {
	case 0:
		b[t.Intn(2)] = byte(t.Intn(256))
	case 1:
		b[511] = byte(t.Intn(3)) * byte(t.Intn(256))
	case 2:
		b[4+16] = []byte{0x74, 0x76, 0, 0xf5, 0x57, byte(t.Intn(256))}[t.Intn(6)]
	default:
		e := b[4+39*t.Intn(13):]
		off := []int{0x1a, 0x1b, 0x23, 0x24}[t.Intn(4)]
		if off == 0x1a || off == 0x23 {
			e[off] = minutes[t.Intn(len(minutes))]
		} else {
			e[off] = hours[t.Intn(len(hours))]
		}
	}
}

func blocks(t *vf.T) {
	kind := kinds[t.I%4]
	b := good(t, kind)
	compare(t, b, kind)
	n := 1
	switch t.Intn(4) {
	case 0:
		n = 2
	case 1:
		n = t.Intn(30)
	}
	for j := 0; j < n; j++ {
		spoil(t, b, kind)
		if j == 0 || j == n-1 {
			compare(t, b, kind)
		}
	}
	if t.Intn(10) == 0 {
		t.Read(b)
		compare(t, b, kind)
	}
}

// each breaks every rule of every entry by itself.
func each(t *vf.T) {
	kind := kinds[t.I%4]
	clean := good(t, kind)
	compare(t, clean, kind)
	try := func(i int, vals ...byte) {
		for _, v := range vals {
			b := append([]byte{}, clean...)
			b[i] = v
			compare(t, b, kind)
		}
	}
	for i := 0; i < 512; i++ {
		try(i, 0, 23, 24, 59, 60, 0x75, 255)
	}
}

// dates validates single timestamps.
func dates(t *vf.T) {
	var d prodos.DateTime
	t.Read(d.YMD[:])
	for m := 0; m < 256; m++ {
		for h := 0; h < 256; h++ {
			d.HM = [2]byte{byte(m), byte(h)}
			errs := d.Validate("X")
			want := 0
			if m >= 60 {
				want++
			}
			if h >= 24 {
				want++
			}
			if len(errs) != want {
				t.Fail("timestamp %x: %d problems reported %q, want %d", d, len(errs), errs, want)
			}
			for _, e := range errs {
				if !strings.Contains(e.Error(), "X") {
					t.Fail("the report %q does not say what it is about", e)
				}
			}
		}
	}
	t.Event("timestamps validated", 65536)
}

// walk validates the directories of volumes.
func walk(t *vf.T, img []byte, hint string) {
	seen := map[int]bool{}
	var dir func(blk int, kind string, depth int)
	dir = func(blk int, kind string, depth int) {
		for blk != 0 && blk < len(img)/512 && !seen[blk] && depth < 20 {
			seen[blk] = true
			b := img[512*blk : 512*blk+512]
			t.Note("%s: block %d as %s", hint, blk, kind)
			compare(t, b, kind)
			t.Event("blocks of volumes", 1)
			first := 0
			if strings.HasSuffix(kind, "-key") {
				first = 1
			}
			for i := first; i < 13; i++ {
				e := b[4+39*i:]
				if e[0]>>4 == 0xd {
					dir(int(e[0x11])|int(e[0x12])<<8, "subdir-key", depth+1)
				}
			}
			kind = strings.TrimSuffix(kind, "-key")
			blk = int(b[2]) | int(b[3])<<8
		}
	}
	dir(2, "volume-key", 0)
}

// rules are those of the single bytes of the VTOC.
var rules = []struct {
	off int
	ok  func(v byte) bool
}{
	{0x06, func(v byte) bool { return v != 255 }},
	{0x03, func(v byte) bool { return v == 3 }},
	{0x31, func(v byte) bool { return v == 1 || v == 255 }},
	{0x34, func(v byte) bool { return v == 35 }},
	{0x35, func(v byte) bool { return v == 13 || v == 16 }},
	{0x36, func(v byte) bool { return v == 0 }},
	{0x37, func(v byte) bool { return v == 1 }},
	{0x27, func(v byte) bool { return v == 122 }},
}

func vtocWant(s []byte) string {
	for _, r := range rules {
		if !r.ok(s[r.off]) {
			return fmt.Sprintf("byte %#x is %d", r.off, s[r.off])
		}
	}
	for i := 0; i < 50; i++ {
		if s[0x38+4*i+2] != 0 || s[0x38+4*i+3] != 0 {
			return fmt.Sprintf("unused map bytes of track %d", i)
		}
	}
	return ""
}

func vtocCompare(t *vf.T, s []byte) {
	var v dos3.VTOC
	if err := v.FromSector(append([]byte{}, s...)); err != nil {
		t.Fail("VTOC %x cannot be read: %v", s, err)
	}
	err, want := v.Validate(), vtocWant(s)
	if (err != nil) != (want != "") {
		t.Fail("VTOC %x is judged %v, want %q", s, err, want)
	}
	t.Event("VTOCs validated", 1)
	if want == "" {
		t.Event("VTOCs without a problem", 1)
	}
	t.Distinct("vtoc", want, s)
}

func goodVTOC(t *vf.T) []byte {
	s := make([]byte, 256)
	t.Read(s)
	s[6] = byte(t.Intn(255))
	s[3] = 3
	s[0x31] = []byte{1, 255}[t.Intn(2)]
	s[0x34] = 35
	s[0x35] = []byte{13, 16, 16}[t.Intn(3)]
	s[0x36], s[0x37] = 0, 1
	s[0x27] = 122
	for i := 0; i < 50; i++ {
		s[0x38+4*i+2], s[0x38+4*i+3] = 0, 0
	}
	return s
}

func vtocs(t *vf.T) {
	s := goodVTOC(t)
	vtocCompare(t, s)
	// every value of every byte, by itself
	off := t.I % 256
	for v := 0; v < 256; v++ {
		c := append([]byte{}, s...)
		c[off] = byte(v)
		vtocCompare(t, c)
	}
	for j := 0; j < 20; j++ {
		c := append([]byte{}, s...)
		for k := t.Intn(4); k >= 0; k-- {
			c[t.Intn(256)] = []byte{0, 1, 3, 13, 16, 35, 122, 255, byte(t.Intn(256))}[t.Intn(9)]
		}
		vtocCompare(t, c)
	}
	for _, e := range [][4]byte{{}, {0, 0, 1, 0}, {0, 0, 0, 0x80}, {255, 255, 0, 0}, {1, 2, byte(t.Intn(256)), byte(t.Intn(256))}} {
		if got, want := dos3.TrackFreeSectors(e).UnusedClear(), e[2] == 0 && e[3] == 0; got != want {
			t.Fail("UnusedClear of %x is %v", e, got)
		}
	}
}

// opened: a DOS 3.3 disk can be listed only while its VTOC breaks no rule.
func opened(t *vf.T) {
	d := ref.BuildDos(t.Rand, ref.DosOpts{})
	img := append([]byte{}, d.Img...)
	s := img[17*4096 : 17*4096+256]
	list := func() error {
		op, _, err := lib.Open(img, "x.dsk", "do", "dos3")
		if err != nil {
			return err
		}
		_, err = op.Catalog("")
		return err
	}
	if w := vtocWant(s); w != "" {
		t.Inconclusive("the generator broke a rule: %s", w)
		return
	}
	if err := list(); err != nil {
		t.Fail("a sound disk is refused: %v", err)
	}
	for j := 0; j < 30; j++ {
		var off int
		if t.Intn(2) == 0 {
			off = rules[t.Intn(len(rules))].off
		} else {
			off = 0x38 + 4*t.Intn(50) + t.Intn(4)
		}
		if t.Intn(5) == 0 {
			off = []int{0, 4, 5, 7 + t.Intn(32), 0x28 + t.Intn(8), 0x30, 0x32, 0x33}[t.Intn(8)]
		}
		keep := s[off]
		s[off] = byte(t.Intn(256))
		if off == 0x35 && s[off] == 13 {
			s[off] = 16 // the catalog may lie in sectors 13 to 15
		}
		err, want := list(), vtocWant(s)
		if (err != nil) != (want != "") {
			t.Fail("a disk with byte %#x of its VTOC set to %d: %v, want %q", off, s[off], err, want)
		}
		t.Event("disks listed or refused", 1)
		s[off] = keep
	}
}

func main() {
	vf.Main(vf.Spec{
		ID:   "C27",
		Rule: "blocks: directory blocks of random bytes that break no rule, then with one to thirty bytes at or around the limits; each: every byte of a sound block set to 0, 23, 24, 59, 60, 0x75 and 255 by itself; dates: all 65,536 times; volumes, shipped: the directories of generated and real volumes; vtocs: every value of every byte of a sound VTOC by itself, and several at once; opened: DOS 3.3 disks with a byte of the VTOC changed are listed or refused. The number of problems reported is compared with the number of rules the bytes break, and each report must name the entry. Distinct = distinct sets of problems and VTOCs.",
		Assumptions: []string{
			"the rules are those stated in the property; entries that are not in use are held to them too, as now",
		},
		Require: []string{"blocks validated", "problems due", "blocks without a problem", "timestamps validated", "blocks of volumes", "VTOCs validated", "VTOCs without a problem", "disks listed or refused"},
	}, func(s *vf.Suite) {
		s.Section("blocks", 160000, 800000, blocks)
		s.Section("each", 320, 1600, each)
		s.Section("dates", 32, 160, dates)
		s.Section("volumes", 2400, 12000, func(t *vf.T) {
			v := ref.BuildPro(t.Rand, ref.ProOpts{Blocks: 280, MaxDirs: 1 + t.Intn(12), MaxDepth: 1 + t.Intn(6), MaxEnt: 1 + t.Intn(40), MultiDir: t.Intn(2) == 0})
			walk(t, v.Img, "generated volume")
		})
		s.Section("shipped", 1, 1, func(t *vf.T) {
			for _, im := range lib.Real() {
				if im.System != "prodos" {
					continue
				}
				img := im.Data
				if im.Order == "do" {
					img = ref.Conv(img, "do", "po")
				}
				walk(t, img, im.Name)
			}
		})
		s.Section("vtocs", 512, 15000, vtocs)
		s.Section("default", 1, 1, func(t *vf.T) {
			v := dos3.DefaultVTOC()
			if err := v.Validate(); err != nil {
				t.Fail("the VTOC of a new disk is not valid: %v", err)
			}
		})
		s.Section("opened", 2400, 12000, opened)
	})
}
