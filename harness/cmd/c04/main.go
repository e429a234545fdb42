// C04: DOS 3.3 files are extracted exactly.
package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"strings"

	"verif/lib"
	"verif/ref"
	"verif/vf"

	"github.com/zellyn/diskii/types"
)

var real = lib.Real()

func opts(t *vf.T) ref.DosOpts {
	o := ref.DosOpts{MaxEntries: 1 + t.Intn(30), Plain: t.Intn(2) == 0}
	switch t.Intn(6) {
	case 0:
		o.StandardCat, o.MaxEntries = true, 60
	case 1:
		o.MaxEntries = 1 + t.Intn(4)
	case 2, 3:
		o.Big = true
		o.MaxEntries = 1 + t.Intn(12)
	}
	return o
}

// get retrieves a file and compares it.
func get(t *vf.T, op types.Operator, what string, e ref.DosEntry) {
	fi, err := op.GetFile(e.Name)
	if !e.Readable {
		t.Check(err != nil, "%s: file %q (type %02X) cannot be read, but %d bytes were returned", what, e.Name, e.TypeByt, len(fi.Data))
		t.Event("unreadable files refused", 1)
		return
	}
	t.Check(err == nil, "%s: file %q (type %02X, %d bytes): %v", what, e.Name, e.TypeByt, len(e.Data), err)
	t.Check(bytes.Equal(fi.Data, e.Data), "%s: file %q (type %02X, %d sectors stored): %s", what, e.Name, e.TypeByt, len(e.Stored)/256, vf.FirstDiff(fi.Data, e.Data))
	t.Check(fi.Descriptor.Length == len(e.Data), "%s: file %q: length reported as %d, want %d", what, e.Name, fi.Descriptor.Length, len(e.Data))
	t.Check(fi.Descriptor.Name == e.Name, "%s: file %q: name reported as %q", what, e.Name, fi.Descriptor.Name)
	t.Check(fi.Descriptor.Locked == e.Locked() && fi.Descriptor.Sectors == int(e.Count), "%s: file %q (type %02X, %d sectors) described as %+v", what, e.Name, e.TypeByt, e.Count, fi.Descriptor)
	if c := ref.DosTypeCode(e.TypeByt); c >= 0 {
		t.Check(int(fi.Descriptor.Type) == c, "%s: file %q of type %02X reported as %v", what, e.Name, e.TypeByt, fi.Descriptor.Type)
	}
	switch e.TypeByt & 0x7f {
	case 2, 4:
		t.Check(fi.StartAddress == e.Start, "%s: file %q (type %02X): load address %04X, want %04X", what, e.Name, e.TypeByt, fi.StartAddress, e.Start)
	}
	t.Event("files compared", 1)
	t.Event("bytes compared", len(e.Data))
}

// absent derives names that are on no catalog entry.
func absent(r *rand.Rand, d *ref.DosDisk) []string {
	var out []string
	add := func(n string) {
		for _, e := range d.Live {
			if e.Name == n {
				return
			}
		}
		out = append(out, n)
	}
	for _, e := range d.Deleted {
		add(e.Name)
	}
	for k := 0; k < 12 && len(d.Live) > 0; k++ {
		n := d.Live[r.Intn(len(d.Live))].Name
		if n == "" {
			continue
		}
		i := r.Intn(len(n))
		switch r.Intn(9) {
		case 6:
			add(n + strings.Repeat(" ", 1+r.Intn(3)))
		case 7:
			add(strings.ToLower(n))
			add(strings.ToUpper(n))
		case 8:
			b := []byte(n)
			b[i] |= 0x80
			add(string(b))
			b[i] &= 0x7f
			b[i] ^= 0x20
			add(string(b))
		case 0:
			add(n[:i])
		case 1:
			add(n + "X")
		case 2:
			add(n[:i] + string(rune('A'+r.Intn(26))) + n[i+1:])
		case 3:
			add(n[i:])
		case 4:
			add(n[:i] + n[i+1:])
		case 5:
			add(" " + n)
		}
	}
	add("NO SUCH FILE")
	add(strings.Repeat("A", 31))
	return out
}

// relatives renames some files so that names are prefixes of each other,
// differ only in the last characters or only in case.
func relatives(r *rand.Rand, d *ref.DosDisk) {
	if len(d.Live) < 2 {
		return
	}
	for k := 0; k < 1+len(d.Live)/2; k++ {
		i, j := r.Intn(len(d.Live)), r.Intn(len(d.Live))
		src := d.Live[i].Name
		if i == j || src == "" {
			continue
		}
		n := src
		switch r.Intn(5) {
		case 0:
			n = src + string(rune('A'+r.Intn(26)))
		case 1:
			n = src[:1+r.Intn(len(src))]
		case 2:
			b := []byte(src)
			b[len(b)-1] = 'A' + byte(r.Intn(26))
			n = string(b)
		case 3:
			n = strings.ToLower(src)
		case 4:
			for len(n) < 29 {
				n += "="
			}
			n += string(rune('0' + r.Intn(10)))
		}
		n = strings.TrimRight(n, " ")
		if len(n) > 30 || n == "" || d.LiveByName(n) != nil {
			continue
		}
		// find the entry on disk
		old := d.Live[j]
		for _, p := range d.CatPos {
			c := ref.Sec(d.Img, p/16, p%16)
			for q := 0; q < 7; q++ {
				e := c[0x0b+35*q:][:35]
				if e[0] == old.T && e[1] == old.S {
					for m := 0; m < 30; m++ {
						e[3+m] = 0xA0
						if m < len(n) {
							e[3+m] = n[m] | 0x80
						}
					}
				}
			}
		}
		d.Live[j].Name = n
	}
}

func main() {
	vf.Main(vf.Spec{ID: "C04",
		Rule:        "generated DOS 3.3 disks whose files use every type, 0 to 245 sectors in up to three track/sector lists, scattered and unallocated sectors, every relation of recorded length to stored size, stale bytes everywhere else, names derived from one another; each live file is retrieved through the library (twice) and 'diskii dump' and compared byte for byte with the generator's ground truth; deleted and derived absent names, uninterpretable types, lengths beyond the stored sectors and out-of-range or cyclic sector references must give errors. Distinct = distinct files.",
		Assumptions: []string{"names are compared exactly as they are listed", "the load address of Integer BASIC programs is not specified"},
		Require:     []string{"files compared", "unreadable files refused", "absent names refused", "dumps compared", "broken files refused", "deleted names refused"},
	}, func(s *vf.Suite) {
		s.Section("library", 32000, 160000, func(t *vf.T) {
			o := opts(t)
			d := ref.BuildDos(t.Rand, o)
			if t.Intn(2) == 0 {
				relatives(t.Rand, d)
			}
			ord := []string{"do", "po"}[t.Intn(2)]
			img := ref.Conv(d.Img, "do", ord)
			what := fmt.Sprintf("generated disk %+v", o)
			op, _, err := lib.Open(img, "x."+ord, "auto", "dos3")
			t.Check(err == nil, "%s: %v", what, err)
			for rep := 0; rep < 2; rep++ {
				for _, i := range t.Perm(len(d.Live)) {
					get(t, op, what, d.Live[i])
				}
			}
			for _, n := range absent(t.Rand, d) {
				fi, err := op.GetFile(n)
				t.Check(err != nil, "%s: there is no file %q, but %d bytes were returned", what, n, len(fi.Data))
				t.Event("absent names refused", 1)
			}
			t.Event("deleted names refused", len(d.Deleted))
			t.Check(bytes.Equal(op.GetBytes(), d.Img), "%s: reading changed the disk", what)
			for _, e := range d.Live {
				t.Distinct(e.Stored, e.TypeByt, len(e.Data))
			}
			t.Sample("%+v: %d files, sizes %v", o, len(d.Live), func() (r []int) {
				for _, e := range d.Live {
					r = append(r, len(e.Data))
				}
				return
			}())
		})
		s.Section("broken", 24000, 120000, func(t *vf.T) {
			d := ref.BuildDos(t.Rand, ref.DosOpts{MaxEntries: 1 + t.Intn(10), Plain: true, Big: t.Intn(4) == 0})
			// break the track/sector lists of one readable file with sectors
			var c []int
			for i, e := range d.Live {
				if e.Readable && len(e.Stored) > 0 {
					c = append(c, i)
				}
			}
			if len(c) == 0 {
				return
			}
			vi := c[t.Intn(len(c))]
			v := d.Live[vi]
			var lists []int
			for p := int(v.T)*16 + int(v.S); p != 0; {
				lists = append(lists, p)
				l := ref.Sec(d.Img, p/16, p%16)
				p = int(l[1])*16 + int(l[2])
			}
			li := t.Intn(len(lists))
			l := ref.Sec(d.Img, lists[li]/16, lists[li]%16)
			badTS := func() (byte, byte) {
				switch t.Intn(3) {
				case 0:
					return byte(35 + t.Intn(221)), byte(t.Intn(16))
				case 1:
					return byte(t.Intn(35)), byte(16 + t.Intn(240))
				}
				return byte(35 + t.Intn(221)), byte(16 + t.Intn(240))
			}
			n := len(v.Stored) / 256
			how := ""
			switch t.Intn(4) {
			case 0, 1: // a data sector outside the disk
				in := n - li*122
				if in > 122 {
					in = 122
				}
				if in <= 0 {
					return
				}
				j := t.Intn(in)
				l[0x0c+2*j], l[0x0d+2*j] = badTS()
				how = fmt.Sprintf("data sector %d at track %d sector %d", li*122+j, l[0x0c+2*j], l[0x0d+2*j])
			case 2: // the next list outside the disk
				l[1], l[2] = badTS()
				how = fmt.Sprintf("list %d links to track %d sector %d", li, l[1], l[2])
			case 3: // lists in a circle
				q := lists[t.Intn(li+1)]
				l[1], l[2] = byte(q/16), byte(q%16)
				how = fmt.Sprintf("list %d links back to track %d sector %d", li, q/16, q%16)
			}
			op, _, err := lib.Open(d.Img, "x.do", "auto", "dos3")
			t.Check(err == nil, "%v", err)
			fi, err := op.GetFile(v.Name)
			t.Check(err != nil, "file %q (type %02X): %s, but %d bytes were returned", v.Name, v.TypeByt, how, len(fi.Data))
			for i, e := range d.Live {
				if i != vi {
					get(t, op, "disk with another broken file", e)
				}
			}
			t.Event("broken files refused", 1)
			t.Distinct(how, v.Name)
			t.Sample("%s: error", how)
		})
		s.Section("real", 4, 4, func(t *vf.T) {
			k := 0
			for _, im := range real {
				if im.System != "dos3" {
					continue
				}
				if k == t.I {
					img := ref.Conv(im.Data, im.Order, "do")
					op, _, err := lib.Open(im.Data, "x."+im.Order, "auto", "dos3")
					t.Check(err == nil, "%s: %v", im.Name, err)
					live, _ := ref.ParseDosCatalog(img)
					seen := map[string]bool{}
					for _, e := range live {
						if seen[e.Name] {
							continue
						}
						seen[e.Name] = true
						e.Data, e.Start, e.Readable = ref.ReadDosFile(img, e)
						get(t, op, im.Name, e)
						t.Distinct(im.Name, e.Name)
					}
				}
				k++
			}
		})
		s.Section("dump", 960, 4800, func(t *vf.T) {
			d := ref.BuildDos(t.Rand, ref.DosOpts{MaxEntries: 1 + t.Intn(12), Plain: true, Big: t.Intn(3) == 0})
			if t.Intn(2) == 0 {
				relatives(t.Rand, d)
			}
			dir := t.Fresh()
			ord := []string{"do", "po"}[t.Intn(2)]
			name := "disk." + ord
			args := []string{"dump"}
			if t.Intn(3) == 0 {
				name = "disk.dsk"
				args = append(args, "--order", ord)
			}
			if t.Intn(2) == 0 {
				args = append(args, "--system", "dos3")
			}
			t.Put(dir, name, ref.Conv(d.Img, "do", ord))
			for k := 0; k < 4 && len(d.Live) > 0; k++ {
				e := d.Live[t.Intn(len(d.Live))]
				res := t.Run(vf.RunOpts{Dir: dir}, append(append([]string{}, args...), "--", name, e.Name)...)
				if !e.Readable {
					t.Check(res.Err() && len(res.Stdout) == 0, "file %q (type %02X) cannot be read: %v", e.Name, e.TypeByt, res)
					continue
				}
				t.Check(res.Exit == 0, "%v", res)
				t.Check(bytes.Equal(res.Stdout, e.Data), "dump of %q (type %02X): %s", e.Name, e.TypeByt, vf.FirstDiff(res.Stdout, e.Data))
				t.Event("dumps compared", 1)
				t.Distinct(e.Stored)
			}
			ab := absent(t.Rand, d)
			n := ab[t.Intn(len(ab))]
			if n != "" && !strings.Contains(n, "\x00") { // no argument can hold a NUL
				res := t.Run(vf.RunOpts{Dir: dir}, append(append([]string{}, args...), "--", name, n)...)
				t.Check(res.Err() && len(res.Stdout) == 0 && len(res.Stderr) > 0, "file %q does not exist: %v", n, res)
				t.Event("absent names refused", 1)
			}
		})
	})
}
