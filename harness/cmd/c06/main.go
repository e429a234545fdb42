// C06: NakedOS disks behave as a file store over any history.
package main

import (
	"bytes"
	"fmt"
	"strings"

	"verif/lib"
	"verif/nk"
	"verif/ref"
	"verif/vf"

	"github.com/zellyn/diskii/types"
)

var real = lib.Real()

func main() {
	vf.Main(vf.Spec{ID: "C06",
		Rule:        "random histories of puts and deletes (by number, name in any case, NUMBER:NAME; sizes around sector and space limits; invalid requests mixed in) on real and generated NakedOS disks, through the library and through the diskii command; after every operation catalog and contents are compared with a model, in the live session and after saving and reopening. Distinct = distinct disk images reached.",
		Assumptions: []string{"files 3 and 4 are never targets", "requests with an empty symbol part are not exercised"},
		Require:     []string{"operations monitored", "file contents compared", "catalog entries compared", "reopened and compared", "command operations"},
	}, func(s *vf.Suite) {
		s.Section("library", 1400, 20000, func(t *vf.T) {
			n := 30
			if t.Intn(8) == 0 {
				n = 90
			}
			nk.History(t, real, nk.Facets{Store: true}, n)
		})
		s.Section("command", 320, 2500, func(t *vf.T) { command(t) })
	})
}

// command drives the same kind of history through the binary: every step is a
// new session on the saved image.
func command(t *vf.T) {
	src, desc := nk.Source(t, real)
	m := nk.FromDisk(src)
	container := []string{"do", "po"}[t.Intn(2)]
	dir := t.Fresh()
	name := "disk." + container
	var of []string
	switch t.Intn(3) {
	case 0:
		name, of = "disk.dsk", []string{"--order", container}
	case 1:
		name, of = "disk", []string{"--order", container}
	}
	t.Put(dir, name, ref.Conv(src.Img, "raw", container))
	t.Note("disk: %s in %s", desc, name)
	pool := []string{ref.RandSymName(t.Rand), ref.RandSymName(t.Rand), "FHELLO"}
	cur := func() ref.Naked {
		b := t.Get(dir, name)
		t.Check(len(b) == ref.DiskSize, "image has %d bytes", len(b))
		return ref.Naked{Img: ref.Conv(b, container, "raw")}
	}
	for k := 0; k < 14; k++ {
		o := m.Gen(t.Rand, pool)
		if o.Delta != 0 || strings.ContainsAny(o.Name, "\x00") {
			continue
		}
		e := m.Predict(o)
		if e.Skip || strings.HasPrefix(o.Name, "-") {
			continue
		}
		t.Note("%d: %v", k, o)
		before := cur()
		var args []string
		ignoreMissing := false
		if o.Del {
			args = append([]string{[]string{"rm", "delete"}[t.Intn(2)]}, of...)
			if t.Intn(3) == 0 {
				ignoreMissing = true
				args = append(args, "-f")
			}
			args = append(args, name, o.Name)
		} else {
			t.Put(dir, "data.bin", o.Data)
			args = append([]string{"put"}, of...)
			if o.Over {
				args = append(args, "-f")
			}
			if o.Type != types.FiletypeBinary {
				args = append(args, "--filetype-name", "TXT")
			}
			args = append(args, name, o.Name, "data.bin")
		}
		res := t.Run(vf.RunOpts{Dir: dir}, args...)
		t.Event("command operations", 1)
		wantErr := e.Refuse || o.Del && !e.Existed && !ignoreMissing
		t.Check(res.Err() == wantErr, "want failure=%v: %v", wantErr, res)
		after := cur()
		if wantErr {
			t.Check(bytes.Equal(before.Img, after.Img), "failed, but the image changed: %v", res)
			continue
		}
		file := e.File
		if !o.Del && file == 0 {
			for f := 1; f < 0xfe; f++ {
				if len(before.Sectors(byte(f))) == 0 && len(after.Sectors(byte(f))) > 0 {
					file = byte(f)
				}
			}
			t.Check(file != 0, "no file was created: %v", res)
		}
		symGone := false
		if o.Del && e.Sym != "" {
			if st, err := after.ReadSyms(); err == nil {
				_, still := ref.SymMap(st)[e.Sym]
				symGone = !still
				if still && m.Dup {
					m = nk.FromDisk(after) // duplicate names: take over the new state
				}
			}
			t.Check(symGone || e.Stale || m.Dup, "the symbol %s survived: %v", e.Sym, res)
		}
		m.Apply(o, e, file, symGone)
		// every file through dump, the catalog through ls
		probe := fmt.Sprintf("DF%02X", file)
		if file != 0 {
			dump(t, dir, of, name, probe, m.Files[file])
		}
		if e.SymSet {
			dump(t, dir, of, name, strings.ToLower(e.Sym), m.Files[file])
		}
		n := 0
		for f, b := range m.Files {
			if f != file && n < 2 {
				n++
				dump(t, dir, of, name, fmt.Sprintf("DF%02X", f), b)
			}
		}
		if t.Intn(3) == 0 {
			ls(t, dir, of, name, m)
		}
	}
	op, _, err := lib.Open(t.Get(dir, name), "x."+container, "auto", "nakedos")
	t.Check(err == nil, "cannot reopen: %v", err)
	nk.Monitor(t, op, m, nk.Facets{Store: true}, "at the end", true)
	t.Event("reopened and compared", 1)
	t.Distinct(t.Get(dir, name))
}

func dump(t *vf.T, dir string, of []string, img, name string, want []byte) {
	res := t.Run(vf.RunOpts{Dir: dir}, append(append([]string{"dump"}, of...), img, name)...)
	if want == nil {
		t.Check(res.Err(), "the file should not exist: %v", res)
		return
	}
	t.Check(res.Exit == 0, "%v", res)
	t.Check(bytes.Equal(res.Stdout, want), "dump %s: %s", name, vf.FirstDiff(res.Stdout, want))
	t.Event("file contents compared", 1)
}

func ls(t *vf.T, dir string, of []string, img string, m *nk.Model) {
	short := t.Intn(2) == 0
	args := append([]string{"ls"}, of...)
	if short {
		args = append(args, "-s")
	}
	if t.Intn(10) == 0 {
		dn := []string{"/", ".", "DIR", "a/b", "FHELLO"}[t.Intn(5)]
		res := t.Run(vf.RunOpts{Dir: dir}, append(append([]string{}, args...), img, dn)...)
		t.Check(res.Err() && len(res.Stdout) == 0, "NakedOS has no directories: %v", res)
	}
	res := t.Run(vf.RunOpts{Dir: dir}, append(args, img)...)
	t.Check(res.Exit == 0, "%v", res)
	seen := map[byte]bool{}
	for _, l := range strings.Split(strings.TrimSuffix(string(res.Stdout), "\n"), "\n") {
		if l == "" {
			continue
		}
		n := l
		if i := strings.Index(l, ":"); i >= 0 {
			n = l[:i]
		}
		f, _ := m.Resolve(n)
		t.Check(f != 0, "ls shows %q, which is no file of the disk", l)
		t.Check(!seen[f], "ls shows file %02X twice", f)
		seen[f] = true
		if f != 3 && f != 4 {
			_, ok := m.Files[f]
			t.Check(ok, "ls shows %q, but file %02X does not exist", l, f)
		}
		// the number and a symbol of the file, if it has one, or only the symbol
		if f == 3 || f == 4 {
			continue
		}
		has := false
		for _, a := range m.Syms {
			has = has || a == 0xdf00|uint16(f)
		}
		sym := strings.TrimPrefix(l, fmt.Sprintf("DF%02X:", f))
		switch {
		case !has:
			t.Check(l == fmt.Sprintf("DF%02X", f), "ls shows %q for file %02X, which has no symbol: %v", l, f, res)
		case short:
			t.Check(m.Syms[l] == 0xdf00|uint16(f), "short ls shows %q for file %02X: %v", l, f, res)
		default:
			t.Check(sym != l && m.Syms[sym] == 0xdf00|uint16(f), "ls shows %q for file %02X: %v", l, f, res)
		}
	}
	for f := range m.Files {
		t.Check(seen[f], "ls does not show file %02X", f)
	}
	t.Event("catalog entries compared", len(seen))
}
