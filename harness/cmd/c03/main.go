// C03: DOS 3.3 catalogs are listed exactly.
package main

import (
	"bytes"
	"fmt"

	"verif/lib"
	"verif/ref"
	"verif/vf"

	"github.com/zellyn/diskii/dos3"
	"github.com/zellyn/diskii/types"
)

var real = lib.Real()

func opts(t *vf.T) ref.DosOpts {
	o := ref.DosOpts{MaxEntries: t.Intn(30), NoFiles: t.Intn(3) == 0, Plain: t.Intn(3) == 0}
	o.Dups = t.Intn(4) == 0
	switch t.Intn(8) {
	case 0:
		o.MaxEntries = 0
	case 1:
		o.StandardCat, o.MaxEntries = true, 60+t.Intn(46)
	case 2:
		o.StandardCat, o.MaxEntries = true, 105
		o.NoFiles = true
	case 3:
		o.MaxEntries, o.NoFiles = 7*(1+t.Intn(12)), true
	case 4: // a catalog far longer than DOS makes
		o.NoFiles = true
		o.MaxEntries = 100 + t.Intn(320)
	case 5:
		o.CatSectors = 1 + t.Intn(200)
	case 6: // most of the disk is catalog
		o.NoFiles = true
		o.CatSectors = 200 + t.Intn(360)
		o.MaxEntries = t.Intn(1400)
	}
	return o
}

func compare(t *vf.T, what string, got []types.Descriptor, want []ref.DosEntry) {
	for i, w := range want {
		if i >= len(got) {
			t.Fail("%s: the catalog has %d entries, %d are listed; the first one missing is %q", what, len(want), len(got), w.Name)
		}
		g := got[i]
		t.Check(g.Name == w.Name, "%s: entry %d has the name %q, listed as %q", what, i, w.Name, g.Name)
		if c := ref.DosTypeCode(w.TypeByt); c >= 0 {
			t.Check(int(g.Type) == c, "%s: entry %q has type byte %02X, listed as %v", what, w.Name, w.TypeByt, g.Type)
		}
		t.Check(g.Locked == w.Locked(), "%s: entry %q has type byte %02X, listed as locked=%v", what, w.Name, w.TypeByt, g.Locked)
		t.Check(g.Sectors == int(w.Count), "%s: entry %q has %d sectors, listed as %d", what, w.Name, w.Count, g.Sectors)
		t.Check(g.Fullname == "" || g.Fullname == w.Name, "%s: entry %q has the full name %q", what, w.Name, g.Fullname)
	}
	t.Check(len(got) == len(want), "%s: the catalog has %d entries, %d are listed", what, len(want), len(got))
	t.Event("entries compared", len(want))
}

func descs(t *vf.T, what string, got []dos3.FileDesc, want []ref.DosEntry, del bool) {
	t.Check(len(got) == len(want), "%s: %d entries with deleted=%v, want %d", what, len(got), del, len(want))
	for i, w := range want {
		g := got[i]
		t.Check(g.FilenameString() == w.Name, "%s: entry %d (deleted=%v) is %q, want %q", what, i, del, g.FilenameString(), w.Name)
		t.Check(byte(g.Filetype) == w.TypeByt, "%s: entry %q has type byte %02X, want %02X", what, w.Name, byte(g.Filetype), w.TypeByt)
		t.Check(g.SectorCount == w.Count, "%s: entry %q has sector count %d, want %d", what, w.Name, g.SectorCount, w.Count)
		st := g.Status()
		t.Check(del == (st == dos3.FileDescStatusDeleted) && (del || st == dos3.FileDescStatusNormal), "%s: entry %q has status %v", what, w.Name, st)
	}
	t.Event("raw entries compared", len(want))
}

func main() {
	vf.Main(vf.Spec{ID: "C03",
		Rule:        "DOS 3.3 disks generated from the format's documentation (any placement, order and length of the catalog chain up to 420 entries, stale bytes in every unused field, live, deleted and never-used entries in any arrangement, all type bytes, lock bits, sector counts, names of 1-30 characters including control characters, some of them the same) and the real DOS 3.3 disks, listed through ReadCatalog, Operator.Catalog and 'diskii ls'/'catalog'/'list'/'cat' in both container orders, compared entry by entry with the generator's ground truth. Distinct = distinct disks.",
		Assumptions: []string{"names have the high bit set, catalogs are not in track 0"},
		Require:     []string{"entries compared", "raw entries compared", "listings compared", "broken chains refused"},
	}, func(s *vf.Suite) {
		check := func(t *vf.T, what string, img []byte, live, deleted []ref.DosEntry) {
			f, d, err := dos3.ReadCatalog(append([]byte{}, img...), 0)
			t.Check(err == nil, "%s: ReadCatalog: %v", what, err)
			descs(t, what, f, live, false)
			descs(t, what, d, deleted, true)
			for _, o := range []string{"do", "po"} {
				op, _, err := lib.Open(ref.Conv(img, "do", o), "x."+o, "auto", []string{"auto", "dos3"}[t.Intn(2)])
				t.Check(err == nil, "%s: cannot open in order %s: %v", what, o, err)
				t.Check(op.Name() == "dos3", "%s: opened as %s", what, op.Name())
				for k := 0; k < 2; k++ {
					ds, err := op.Catalog("")
					t.Check(err == nil, "%s: catalog: %v", what, err)
					compare(t, what, ds, live)
				}
			}
			t.Distinct(img)
			t.Event("live entries", len(live))
			t.Event("deleted entries", len(deleted))
		}
		s.Section("library", 36000, 180000, func(t *vf.T) {
			o := opts(t)
			d := ref.BuildDos(t.Rand, o)
			check(t, fmt.Sprintf("generated disk %+v", o), d.Img, d.Live, d.Deleted)
			t.Sample("%+v: %d live and %d deleted entries in %d catalog sectors", o, len(d.Live), len(d.Deleted), len(d.CatPos))
		})
		s.Section("real", 4, 4, func(t *vf.T) {
			k := 0
			for _, im := range real {
				if im.System != "dos3" {
					continue
				}
				if k == t.I {
					img := ref.Conv(im.Data, im.Order, "do")
					live, del := ref.ParseDosCatalog(img)
					check(t, im.Name, img, live, del)
				}
				k++
			}
		})
		s.Section("chains", 6000, 30000, func(t *vf.T) {
			o := opts(t)
			if o.MaxEntries < 8 {
				o.MaxEntries = 8 + t.Intn(90)
			}
			d := ref.BuildDos(t.Rand, o)
			if len(d.CatPos) == 0 {
				return
			}
			// the last link that still leads somewhere, or the end of the chain
			k := t.Intn(len(d.CatPos)+1) - 1
			p := ref.Sec(d.Img, 17, 0)[1:3]
			if k >= 0 {
				p = ref.Sec(d.Img, d.CatPos[k]/16, d.CatPos[k]%16)[1:3]
			}
			what := ""
			switch c := t.Intn(3); {
			case c == 0:
				p[0], what = byte(35+t.Intn(221)), "leaves the disk"
			case c == 1:
				p[1], what = byte(d.Sectors+t.Intn(256-d.Sectors)), "leaves the track"
				if t.Intn(3) == 0 {
					p[1] = byte(d.Sectors)
				}
			default:
				if k < 0 {
					return
				}
				x := d.CatPos[t.Intn(k+1)]
				p[0], p[1], what = byte(x/16), byte(x%16), "returns to itself"
			}
			t.Note("link %d of %d %s: track %d sector %d", k, len(d.CatPos), what, p[0], p[1])
			f, _, err := dos3.ReadCatalog(append([]byte{}, d.Img...), 0)
			t.Check(err != nil, "a catalog whose chain %s (link %d of %d) is listed with %d entries", what, k, len(d.CatPos), len(f))
			ord := []string{"do", "po"}[t.Intn(2)]
			img := ref.Conv(d.Img, "do", ord)
			if op, _, err := lib.Open(img, "x."+ord, "auto", "dos3"); err == nil {
				ds, err := op.Catalog("")
				t.Check(err != nil, "a catalog whose chain %s (link %d of %d) is listed with %d entries", what, k, len(d.CatPos), len(ds))
			}
			if t.I%8 == 0 {
				dir := t.Fresh()
				t.Put(dir, "d."+ord, img)
				r := t.Run(vf.RunOpts{Dir: dir}, "ls", "--system=dos3", "d."+ord)
				t.Check(r.Err() && len(r.Stderr) > 0, "the catalog's chain %s: %v", what, r)
			}
			t.Event("broken chains refused", 1)
			t.Distinct(d.Img)
		})
		s.Section("command", 960, 4800, func(t *vf.T) {
			o := opts(t)
			d := ref.BuildDos(t.Rand, o)
			dir := t.Fresh()
			ord := []string{"do", "po"}[t.Intn(2)]
			name := "disk." + ord
			args := []string{[]string{"ls", "list", "cat", "catalog"}[t.Intn(4)]}
			switch t.Intn(3) {
			case 0:
				name = "disk.dsk"
				args = append(args, "--order", ord)
			case 1:
				args = append(args, "--order=auto")
			}
			if t.Intn(2) == 0 {
				args = append(args, "--system", "dos3")
			}
			if t.Intn(4) == 0 {
				args = append(args, "-s")
			}
			t.Put(dir, name, ref.Conv(d.Img, "do", ord))
			args = append(args, name)
			res := t.Run(vf.RunOpts{Dir: dir}, args...)
			t.Check(res.Exit == 0, "%v", res)
			var want bytes.Buffer
			for _, e := range d.Live {
				want.WriteString(e.Name + "\n")
			}
			t.Check(bytes.Equal(res.Stdout, want.Bytes()), "%v: listing differs: %s", args, vf.FirstDiff(res.Stdout, want.Bytes()))
			t.Event("listings compared", 1)
			t.Distinct(d.Img)
			if t.Intn(4) == 0 {
				dn := []string{"/", ".", "DIR", "a/b", "HELLO"}[t.Intn(5)]
				res := t.Run(vf.RunOpts{Dir: dir}, append(args, dn)...)
				t.Check(res.Err() && len(res.Stdout) == 0, "DOS 3.3 has no directories: %v", res)
				t.Event("directories refused", 1)
			}
		})
	})
}
