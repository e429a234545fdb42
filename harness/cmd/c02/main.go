// C02: a disk means the same in every container order.
package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	"verif/lib"
	"verif/nk"
	"verif/ref"
	"verif/vf"

	"github.com/zellyn/diskii/disk"
	"github.com/zellyn/diskii/types"
)

var real = lib.Real()

// source makes a disk image in physical order and says which system it is for.
func source(t *vf.T) (raw []byte, system, desc string) {
	switch k := t.Intn(10); {
	case k == 0 && len(real) > 0:
		im := real[t.Intn(len(real))]
		return ref.Conv(im.Data, im.Order, "raw"), im.System, im.Name
	case k < 4:
		d := ref.BuildDos(t.Rand, ref.DosOpts{MaxEntries: t.Intn(40), Plain: t.Intn(2) == 0})
		return ref.Conv(d.Img, "do", "raw"), "dos3", "generated DOS 3.3 disk"
	case k < 7:
		v := ref.BuildPro(t.Rand, ref.ProOpts{Blocks: 280, MaxDirs: 1 + t.Intn(8), MaxDepth: 1 + t.Intn(5), MaxEnt: 20})
		return ref.Conv(v.Img, "po", "raw"), "prodos", "generated ProDOS volume"
	}
	n, d := nk.Source(t, real)
	return n.Img, "nakedos", d
}

func save(t *vf.T, op types.Operator, order types.DiskOrder) []byte {
	p := filepath.Join(t.Dir, "saved.img")
	_ = os.Remove(p)
	if err := disk.WriteBack(p, op, order, t.Intn(2) == 0); err != nil {
		t.Fail("saving: %v", err)
	}
	b, err := os.ReadFile(p)
	if err != nil {
		t.Fail("saving reported success but: %v", err)
	}
	return b
}

func opp(o string) string {
	if o == "do" {
		return "po"
	}
	return "do"
}

func errs(e error) string {
	if e == nil {
		return "ok"
	}
	return "error"
}

func main() {
	vf.Main(vf.Spec{ID: "C02",
		Rule:        "identity: arbitrary, generated (DOS 3.3, ProDOS, NakedOS) and real images opened with every order, system and extension and saved with WriteBack in the same order (must give the same bytes) and in the other order (must give the reordered bytes), .hdv sizes included; twins: the same disk in DOS-order and ProDOS-order containers gets the same operations (catalog, retrieval, put, delete) through library and command in lockstep, all results and the saved images are compared. Distinct = distinct (image, configuration).",
		Assumptions: []string{"the twin comparison relies on the independent sector table of harness/ref"},
		Require:     []string{"saves compared", "twin results compared", "twin images compared", "command twins compared"},
	}, func(s *vf.Suite) {
		s.Section("identity", 16000, 80000, func(t *vf.T) {
			raw, system, desc := source(t)
			if t.Intn(4) == 0 { // anything at all
				raw, system, desc = ref.RandBytes(t.Rand, ref.DiskSize), "", "random bytes"
			}
			o := []string{"do", "po"}[t.Intn(2)]
			img := ref.Conv(raw, "raw", o)
			name := []string{"x." + o, "X." + strings.ToUpper(o), "x.dsk", "x", "a.b/x", "x.img"}[t.Intn(6)]
			ord := "auto"
			if t.Intn(2) == 0 {
				ord = o
			}
			sys := []string{"auto", "auto", "dos3", "prodos", "nakedos"}[t.Intn(5)]
			if system != "" && t.Intn(2) == 0 {
				sys = system
			}
			op, got, err := lib.Open(img, name, ord, sys)
			if err != nil {
				t.Event("images not opened", 1)
				return
			}
			t.Distinct(img[:8192], o, ord, sys, name)
			if ord != "auto" {
				t.Check(string(got) == ord, "%s: opened with order %s, reported %s", desc, ord, got)
			}
			b := save(t, op, got)
			t.Check(bytes.Equal(b, img), "%s opened as %q (order %s, system %s -> %s, %s), saved in order %s: %s", desc, name, ord, sys, op.Name(), got, got, vf.FirstDiff(b, img))
			b = save(t, op, types.DiskOrder(opp(string(got))))
			want := ref.Conv(img, string(got), opp(string(got)))
			t.Check(bytes.Equal(b, want), "%s opened in order %s and saved in order %s: %s", desc, got, opp(string(got)), vf.FirstDiff(b, want))
			// reading does not disturb what is saved
			_, _ = op.Catalog("")
			_, _ = op.GetFile("FHELLO")
			b = save(t, op, got)
			t.Check(bytes.Equal(b, img), "%s: after reading, saved in order %s: %s", desc, got, vf.FirstDiff(b, img))
			t.Event("saves compared", 3)
			t.Event("opened as "+op.Name(), 1)
			t.Sample("%s as %q order %s system %s: opened as %s/%s, saved identically", desc, name, ord, sys, op.Name(), got)
		})
		s.Section("hdv", 640, 3200, func(t *vf.T) {
			blocks := []int{3, 4, 5, 6, 7, 16, 100, 279, 281, 282, 560, 1600, 4095, 4096, 4097, 8192, 8193, 20000, 61440, 61441, 65535, 65536}[t.Intn(22)]
			if t.Intn(3) == 0 {
				blocks = 30 + t.Intn(3000)
				if blocks == 280 {
					blocks++
				}
			}
			if blocks > 10000 && t.Intn(3) > 0 {
				blocks = 300 + t.Intn(2000)
			}
			var img []byte
			if blocks < 30 {
				img = ref.RandBytes(t.Rand, blocks*512)
			} else {
				img = ref.BuildPro(t.Rand, ref.ProOpts{Blocks: blocks, MaxDirs: 4, MaxDepth: 3, MaxEnt: 20}).Img
			}
			sys := []string{"auto", "prodos"}[t.Intn(2)]
			ord := []string{"auto", "po"}[t.Intn(2)]
			op, got, err := lib.Open(img, "x.hdv", ord, sys)
			if err != nil {
				t.Check(blocks < 30, "cannot open a volume of %d blocks: %v", blocks, err)
				return
			}
			for _, o := range []types.DiskOrder{got, types.DiskOrderPO} {
				b := save(t, op, o)
				t.Check(bytes.Equal(b, img), ".hdv of %d blocks saved: %s", blocks, vf.FirstDiff(b, img))
				t.Event("saves compared", 1)
			}
			t.Distinct(blocks, img[:1024])
		})
		s.Section("twin", 3200, 16000, func(t *vf.T) {
			raw, system, desc := source(t)
			if system == "" {
				system = "dos3"
			}
			var ops [2]types.Operator
			for i, o := range []string{"do", "po"} {
				op, got, err := lib.Open(ref.Conv(raw, "raw", o), "x."+o, "auto", system)
				t.Check(err == nil, "%s (%s): cannot open in order %s: %v", desc, system, o, err)
				t.Check(string(got) == o, "%s: .%s opened in order %s", desc, o, got)
				ops[i] = op
			}
			same := func(what string, f func(op types.Operator) (interface{}, error)) {
				a, e1 := f(ops[0])
				b, e2 := f(ops[1])
				t.Check(errs(e1) == errs(e2), "%s (%s): %s: DOS order gives %v, ProDOS order %v", desc, system, what, e1, e2)
				t.Check(e1 != nil || reflect.DeepEqual(a, b), "%s (%s): %s differs between DOS and ProDOS order:\n%.300v\n%.300v", desc, system, what, a, b)
				t.Event("twin results compared", 1)
			}
			look := func() {
				names := []string{"NOSUCH", "FHELLO", "1"}
				same("catalog", func(op types.Operator) (interface{}, error) { return op.Catalog("") })
				ds, _ := ops[0].Catalog("")
				for k := 0; k < 8 && len(ds) > 0; k++ {
					names = append(names, ds[t.Intn(len(ds))].Name)
				}
				for _, n := range names {
					same("file "+n, func(op types.Operator) (interface{}, error) {
						fi, err := op.GetFile(n)
						return fi, err
					})
				}
				if ops[0].HasSubdirs() {
					for _, n := range names {
						same("directory "+n, func(op types.Operator) (interface{}, error) { return op.Catalog(n) })
					}
				}
			}
			look()
			if system == "nakedos" {
				m := nk.FromDisk(ref.Naked{Img: raw})
				pool := []string{ref.RandSymName(t.Rand), ref.RandSymName(t.Rand), "FHELLO"}
				for k := 0; k < 12; k++ {
					o := m.Gen(t.Rand, pool)
					t.Note("%v", o)
					same(o.String(), func(op types.Operator) (interface{}, error) {
						if o.Del {
							return op.Delete(o.Name)
						}
						return op.PutFile(types.FileInfo{Descriptor: types.Descriptor{Name: o.Name, Length: len(o.Data) + o.Delta, Type: o.Type}, Data: append([]byte{}, o.Data...)}, o.Over)
					})
					m = nk.FromDisk(ref.Naked{Img: ops[0].GetBytes()})
				}
				look()
			}
			a, b := save(t, ops[0], "do"), save(t, ops[1], "po")
			t.Check(len(a) == ref.DiskSize && bytes.Equal(ref.Conv(a, "do", "po"), b), "%s (%s): the saved twins are different disks: %s", desc, system, vf.FirstDiff(ref.Conv(a, "do", "po"), b))
			t.Event("twin images compared", 1)
			t.Distinct(a)
			t.Sample("%s (%s): DOS-order and ProDOS-order twins agree", desc, system)
		})
		s.Section("command", 960, 4800, func(t *vf.T) {
			raw, system, desc := source(t)
			if system == "" {
				system = "dos3"
			}
			var dirs [2]string
			base := t.Fresh()
			exts := []string{"do", "po"}
			flags := t.Intn(3) == 0 // orders by flag instead of extension
			nm := func(i int) string {
				if flags {
					return "d.dsk"
				}
				return "d." + exts[i]
			}
			for i, o := range exts {
				dirs[i] = filepath.Join(base, o)
				_ = os.MkdirAll(dirs[i], 0777)
				t.Put(dirs[i], nm(i), ref.Conv(raw, "raw", o))
			}
			both := func(cmd []string, rest ...string) {
				var r [2]vf.CmdResult
				for i, o := range exts {
					args := append([]string{}, cmd...)
					if flags {
						args = append(args, "--order", o)
					}
					args = append(args, nm(i))
					r[i] = t.Run(vf.RunOpts{Dir: dirs[i]}, append(args, rest...)...)
				}
				t.Check(r[0].Exit == r[1].Exit, "%s (%s): %v but %v", desc, system, r[0], r[1])
				t.Check(bytes.Equal(r[0].Stdout, r[1].Stdout), "%s (%s): output of %v differs from %v: %s", desc, system, r[0], r[1], vf.FirstDiff(r[0].Stdout, r[1].Stdout))
				t.Event("command twins compared", 1)
			}
			both([]string{"ls", "--system", system})
			switch system {
			case "dos3":
				op, _, err := lib.Open(ref.Conv(raw, "raw", "do"), "x.do", "auto", "dos3")
				if err == nil {
					ds, _ := op.Catalog("")
					for k := 0; k < 3 && len(ds) > 0; k++ {
						if n := ds[t.Intn(len(ds))].Name; n != "" && n[0] != '-' && !strings.Contains(n, "\x00") {
							both([]string{"dump", "--system", "dos3"}, n)
						}
					}
				}
			case "nakedos":
				for i := range exts {
					t.Put(dirs[i], "src", ref.RandBytes(t.Rand, 0))
				}
				for k := 0; k < 4; k++ {
					data := ref.RandBytes(t.Rand, 1+t.Intn(3000))
					for i := range exts {
						t.Put(dirs[i], "src", data)
					}
					switch t.Intn(4) {
					case 0:
						both([]string{"put", "-f"}, fmt.Sprintf("DF%02X", 1+t.Intn(250)), "src")
					case 1:
						both([]string{"put"}, ref.RandSymName(t.Rand), "src")
					case 2:
						both([]string{"rm", "-f"}, fmt.Sprintf("DF%02X", 5+t.Intn(240)))
					case 3:
						both([]string{"nakedos", "mkhello"}, fmt.Sprintf("DF%02X", 5+t.Intn(240)))
					}
				}
			}
			a, b := t.Get(dirs[0], nm(0)), t.Get(dirs[1], nm(1))
			t.Check(len(a) == ref.DiskSize && bytes.Equal(ref.Conv(a, "do", "po"), b), "%s (%s): after the same commands the images are different disks: %s", desc, system, vf.FirstDiff(ref.Conv(a, "do", "po"), b))
			t.Event("twin images compared", 1)
			t.Distinct(a)
		})
	})
}
