// C05: ProDOS directories are listed exactly at every depth.
package main

import (
	"bytes"
	"fmt"
	"strings"

	"verif/lib"
	"verif/ref"
	"verif/vf"

	"github.com/zellyn/diskii/types"
)

var real = lib.Real()

func compare(t *vf.T, what string, got []types.Descriptor, want []ref.ProEntry) {
	for i, w := range want {
		if i >= len(got) {
			t.Fail("%s: %d active entries, %d listed; first missing: %q", what, len(want), len(got), w.Name)
		}
		g := got[i]
		t.Check(g.Name == w.Name, "%s: entry %d is %q, listed as %q", what, i, w.Name, g.Name)
		t.Check(int(g.Type) == int(w.Type), "%s: entry %q has type %02X, listed as %02X", what, w.Name, w.Type, int(g.Type))
		t.Check(g.Blocks == w.Blocks, "%s: entry %q has %d blocks, listed as %d", what, w.Name, w.Blocks, g.Blocks)
		t.Check(g.Length == w.Length, "%s: entry %q has %d bytes, listed as %d", what, w.Name, w.Length, g.Length)
		t.Check(g.Fullname == "" || g.Fullname == w.Name, "%s: entry %q has the full name %q", what, w.Name, g.Fullname)
	}
	t.Check(len(got) == len(want), "%s: %d active entries, %d listed", what, len(want), len(got))
	t.Event("entries compared", len(want))
}

// nondirs derives paths that are no directories of the volume.
func nondirs(t *vf.T, v *ref.ProVol) []string {
	var out []string
	add := func(d *ref.ProDir, n string) {
		p := n
		if d.Path != "" {
			p = d.Path + "/" + n
		}
		for _, x := range v.Dirs {
			if strings.EqualFold(x.Path, p) {
				return
			}
		}
		if p != "" && !strings.HasSuffix(p, "/") && !strings.HasPrefix(p, "/") && !strings.Contains(p, "//") {
			out = append(out, p)
		}
	}
	for k := 0; k < 10; k++ {
		d := v.Dirs[t.Intn(len(v.Dirs))]
		if len(d.Entries) > 0 {
			e := d.Entries[t.Intn(len(d.Entries))]
			if e.Dir == nil {
				add(d, e.Name)
				add(d, e.Name+"/"+e.Name)
			} else {
				add(d, e.Name+"X")
				add(d, e.Name[:len(e.Name)-1])
			}
		}
		if len(d.Gone) > 0 {
			add(d, d.Gone[t.Intn(len(d.Gone))])
		}
		add(d, ref.RandProName(t.Rand))
		// a directory that exists elsewhere
		o := v.Dirs[t.Intn(len(v.Dirs))]
		if o.Name != "" {
			add(d, o.Name)
			add(v.Root, o.Name)
		}
		if o.Path != "" {
			add(d, o.Path)
		}
	}
	return out
}

func volume(t *vf.T) (*ref.ProVol, bool, string) {
	o := ref.ProOpts{Blocks: 280, MaxDirs: 1 + t.Intn(12), MaxDepth: 1 + t.Intn(6), MaxEnt: 5 + t.Intn(30)}
	hdv := false
	switch t.Intn(12) {
	case 6, 7:
		o.MultiDir, o.LongRoot = t.Intn(2) == 0, true
	case 0:
		o.MaxDirs, o.MaxDepth, o.MaxEnt, o.Chain = 60, 40, 12, true // deep
	case 1:
		o.MultiDir = true
	case 2, 3:
		hdv = true
		o.Blocks = 281 + t.Intn(3000)
		o.MultiDir = t.Intn(2) == 0
		o.MaxDirs = 30
	case 4:
		if t.Intn(4) == 0 {
			hdv = true
			o.Blocks = []int{4096, 4097, 8192, 16384, 32767, 32768, 32769, 40000, 61440, 61441, 65535, 65536}[t.Intn(12)]
			o.MaxDirs = 30
			o.MultiDir = true
		} else if t.Intn(6) == 0 { // many directories
			hdv = true
			o.Blocks = 2000 + t.Intn(6000)
			o.MaxDirs = 200 + t.Intn(400)
			o.MaxEnt = 30
			o.MultiDir = true
		}
	case 5:
		o.MaxDirs = 1
	}
	return ref.BuildPro(t.Rand, o), hdv, fmt.Sprintf("%+v", o)
}

func main() {
	vf.Main(vf.Spec{ID: "C05",
		Rule:        "ProDOS volumes generated from the format's documentation (280 to 65,536 blocks; directory trees up to 40 deep, directories of 1 to several blocks scattered over the volume, active and deleted entries in any arrangement, same names in several directories, all type bytes, block counts, lengths; parent pointers in both conventions; stale bytes elsewhere) and the real ProDOS disks; every directory is listed by path through the library in both container orders and samples through 'diskii ls'; paths of files, deleted entries, and derived names must give errors. Distinct = distinct volumes.",
		Assumptions: []string{"paths with a leading or trailing slash, and case variants of existing paths, are not asserted either way"},
		Require:     []string{"entries compared", "directories compared", "non-directories refused", "listings compared", "hard-disk volumes", "broken chains refused"},
	}, func(s *vf.Suite) {
		check := func(t *vf.T, what string, v *ref.ProVol, op types.Operator) {
			for _, i := range t.Perm(len(v.Dirs)) {
				d := v.Dirs[i]
				ds, err := op.Catalog(d.Path)
				t.Check(err == nil, "%s: directory %q: %v", what, d.Path, err)
				compare(t, what+": directory \""+d.Path+"\"", ds, d.Entries)
				t.Event("directories compared", 1)
			}
			for _, p := range nondirs(t, v) {
				ds, err := op.Catalog(p)
				t.Check(err != nil, "%s: %q is no directory of the volume, but %d entries were listed", what, p, len(ds))
				t.Event("non-directories refused", 1)
			}
		}
		s.Section("library", 12000, 60000, func(t *vf.T) {
			v, hdv, what := volume(t)
			name, ord, sys := "x.hdv", "auto", []string{"auto", "prodos"}[t.Intn(2)]
			img := v.Img
			if hdv {
				t.Event("hard-disk volumes", 1)
			} else {
				o := []string{"do", "po"}[t.Intn(2)]
				img = ref.Conv(img, "po", o)
				name = "x." + o
				sys = "prodos"
			}
			op, _, err := lib.Open(img, name, ord, sys)
			t.Check(err == nil, "%s: cannot open: %v", what, err)
			t.Check(op.Name() == "prodos", "%s: opened as %s", what, op.Name())
			check(t, what, v, op)
			if len(v.Dirs) > 12 {
				t.Event("volumes of more than 12 directories", 1)
			}
			n := len(v.Img)
			if n > 200000 {
				n = 200000
			}
			t.Distinct(v.Img[:n])
			t.Sample("%s: %s", what, v.Describe())
		})
		s.Section("real", 2, 2, func(t *vf.T) {
			k := 0
			for _, im := range real {
				if im.System != "prodos" {
					continue
				}
				if k == t.I {
					op, _, err := lib.Open(im.Data, "x."+im.Order, "auto", "prodos")
					t.Check(err == nil, "%s: %v", im.Name, err)
					v := ref.ParsePro(ref.Conv(im.Data, im.Order, "po"))
					check(t, im.Name, v, op)
					t.Distinct(im.Name)
				}
				k++
			}
		})
		s.Section("chains", 3200, 16000, func(t *vf.T) {
			v, hdv, what := volume(t)
			if len(v.Img) > 4<<20 {
				return
			}
			d := v.Dirs[t.Intn(len(v.Dirs))]
			if t.Intn(3) == 0 {
				d = v.Root
			}
			k := t.Intn(len(d.Blocks))
			p := v.Img[512*d.Blocks[k]+2:]
			next := len(v.Img)/512 + t.Intn(65536-len(v.Img)/512)
			if t.Intn(4) == 0 {
				next = len(v.Img) / 512
			}
			if t.Intn(2) == 0 {
				next = d.Blocks[t.Intn(k+1)]
			}
			p[0], p[1] = byte(next), byte(next>>8)
			t.Note("%s: block %d of %q continues at %d", what, k, d.Path, next)
			name, img := "x.hdv", v.Img
			if !hdv {
				o := []string{"do", "po"}[t.Intn(2)]
				img = ref.Conv(img, "po", o)
				name = "x." + o
			}
			if op, _, err := lib.Open(img, name, "auto", "prodos"); err == nil {
				ds, err := op.Catalog(d.Path)
				t.Check(err != nil, "%s: block %d of %d of directory %q continues at block %d, but %d entries are listed", what, k, len(d.Blocks), d.Path, next, len(ds))
			}
			if t.I%8 == 0 {
				dir := t.Fresh()
				t.Put(dir, name, img)
				a := []string{"ls", "--system=prodos", name}
				if d.Path != "" {
					a = append(a, d.Path)
				}
				r := t.Run(vf.RunOpts{Dir: dir}, a...)
				t.Check(r.Err() && len(r.Stderr) > 0, "%s: block %d of %q continues at block %d: %v", what, k, d.Path, next, r)
			}
			t.Event("broken chains refused", 1)
			t.Distinct(what, k, next, img[:4096])
		})
		s.Section("command", 800, 4000, func(t *vf.T) {
			v, hdv, what := volume(t)
			if len(v.Img) > 4<<20 {
				return
			}
			dir := t.Fresh()
			name := "disk.hdv"
			img := v.Img
			args := []string{[]string{"ls", "list", "cat", "catalog"}[t.Intn(4)]}
			if !hdv {
				o := []string{"do", "po"}[t.Intn(2)]
				img = ref.Conv(img, "po", o)
				name = "disk." + o
				args = append(args, "--system=prodos")
				if t.Intn(2) == 0 {
					args = append(args, "--order", o)
					name = "disk.dsk"
				}
			}
			if t.Intn(4) == 0 {
				args = append(args, "-s")
			}
			t.Put(dir, name, img)
			for k := 0; k < 3; k++ {
				d := v.Dirs[t.Intn(len(v.Dirs))]
				if k == 0 {
					d = v.Root
				}
				a := append(append([]string{}, args...), name)
				if d.Path != "" {
					a = append(a, d.Path)
				}
				res := t.Run(vf.RunOpts{Dir: dir}, a...)
				t.Check(res.Exit == 0, "%s: %v", what, res)
				var want bytes.Buffer
				for _, e := range d.Entries {
					want.WriteString(e.Name + "\n")
				}
				t.Check(bytes.Equal(res.Stdout, want.Bytes()), "%s: %v: %s", what, res, vf.FirstDiff(res.Stdout, want.Bytes()))
				t.Event("listings compared", 1)
			}
			if nd := nondirs(t, v); len(nd) > 0 {
				p := nd[t.Intn(len(nd))]
				res := t.Run(vf.RunOpts{Dir: dir}, append(append([]string{}, args...), name, p)...)
				t.Check(res.Err() && len(res.Stdout) == 0 && len(res.Stderr) > 0, "%s: %q is no directory: %v", what, p, res)
				t.Event("non-directories refused", 1)
			}
			t.Distinct(img)
		})
	})
}
