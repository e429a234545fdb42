// C17: order and system are chosen as asked or as documented.
package main

import (
	"bytes"
	"fmt"
	"path/filepath"
	"strings"

	"verif/lib"
	"verif/ref"
	"verif/vf"
	"verif/wl"

	"github.com/zellyn/diskii/disk"
	"github.com/zellyn/diskii/types"
)

var real = lib.Real()

// native sector order of the systems
var native = map[string]string{"dos3": "do", "nakedos": "raw", "prodos": "po"}

// isDos tells whether an image in DOS order carries a DOS 3.3 VTOC and a
// proper catalog chain.
func isDos(img []byte) bool {
	v := ref.Sec(img, 17, 0)
	if v[3] != 3 || v[6] == 255 || v[0x27] != 122 || v[0x31] != 1 && v[0x31] != 0xff || v[0x34] != 35 || v[0x35] != 13 && v[0x35] != 16 || v[0x36] != 0 || v[0x37] != 1 {
		return false
	}
	for t := 0; t < 50; t++ {
		if v[0x38+4*t+2] != 0 || v[0x38+4*t+3] != 0 {
			return false
		}
	}
	seen := map[[2]byte]bool{}
	for at := [2]byte{v[1], v[2]}; at != [2]byte{}; {
		if seen[at] || at[0] >= 35 || at[1] >= v[0x35] {
			return false
		}
		seen[at] = true
		c := ref.Sec(img, int(at[0]), int(at[1]))
		at = [2]byte{c[1], c[2]}
	}
	return true
}

// isNaked tells whether an image in physical order carries a sector map.
func isNaked(img []byte) bool {
	n := ref.Naked{Img: img}
	for i := 0; i < 560; i++ {
		o := *n.Owner(i)
		if i < 12 && o != 0xfe || o == 0 {
			return false
		}
	}
	return true
}

// isPro tells whether an image in ProDOS order carries a volume directory:
// its header, and directories that can all be walked. sure is false where
// the header is there but the rest is damaged.
func isPro(img []byte) (yes, sure bool) {
	k := ref.Blk(img, 2)
	if k[4]>>4 != 0xf || k[4+0x1f] != 0x27 || k[4+0x20] != 13 {
		return false, true
	}
	seen := map[int]int{} // directory block to the key block of its directory
	type sub struct{ key, parent int }
	var subs []sub
	var walk func(key int) bool
	walk = func(key int) bool {
		for b, first := key, true; b != 0 || first; first = false {
			if _, dup := seen[b]; dup || b < 1 || b >= len(img)/512 {
				return false
			}
			seen[b] = key
			blk := ref.Blk(img, b)
			for e := 0; e < 13; e++ {
				x := blk[4+e*0x27:][:0x27]
				if first && e == 0 {
					if key != 2 {
						subs = append(subs, sub{key, int(x[0x23]) | int(x[0x24])<<8})
					}
					continue
				}
				if x[0]>>4 == 0xd && !walk(int(x[0x11])|int(x[0x12])<<8) {
					return false
				}
			}
			b = int(blk[2]) | int(blk[3])<<8
		}
		return true
	}
	if !walk(2) {
		return false, false
	}
	parent := map[int]int{}
	for _, s := range subs {
		p, ok := seen[s.parent]
		if !ok {
			return false, false
		}
		parent[s.key] = p
	}
	for _, s := range subs {
		n := 0
		for k := s.key; k != 2; k = parent[k] {
			if n++; n > len(subs) {
				return false, false
			}
		}
	}
	return true, true
}

func carries(sys string, img []byte) (yes, sure bool) {
	switch sys {
	case "dos3":
		return isDos(img), true
	case "nakedos":
		return isNaked(img), true
	}
	return isPro(img)
}

type choice struct{ order, system string }

// model returns what must be chosen; nil if the image must be refused, and
// false if the case is outside the promise.
func model(img []byte, ext, order, system string) (*choice, bool) {
	ext = strings.ToLower(ext)
	known := system == "auto" || native[system] != ""
	if len(img) != ref.DiskSize {
		if ext == ".hdv" && len(img) != 116480 {
			if len(img)%512 != 0 || len(img) > 32<<20 || order != "auto" && order != "po" || system != "auto" && system != "prodos" {
				return nil, true
			}
			return &choice{"po", "prodos"}, len(img) >= 1536
		}
		return nil, true
	}
	if !known {
		return nil, true
	}
	var orders []string
	switch order {
	case "do", "po":
		orders = []string{order}
	case "auto":
		switch ext {
		case ".do":
			orders = []string{"do"}
		case ".po":
			orders = []string{"po"}
		case ".dsk", "":
			orders = []string{"do", "po"}
		case ".hdv":
			return nil, false
		default:
			return nil, true
		}
	default:
		return nil, true
	}
	systems := []string{"dos3", "nakedos", "prodos"}
	if system != "auto" {
		if len(orders) == 1 {
			if system == "nakedos" && !isNaked(ref.Conv(img, orders[0], "raw")) {
				return nil, true
			}
			return &choice{orders[0], system}, true
		}
		systems = []string{system}
	}
	for _, o := range orders {
		for _, s := range systems {
			yes, sure := carries(s, ref.Conv(img, o, native[s]))
			if !sure {
				return nil, false
			}
			if yes {
				return &choice{o, s}, true
			}
		}
	}
	return nil, true
}

var exts = []string{".dsk", ".do", ".po", "", ".hdv", ".img", ".DSK", ".PO", ".Do", ".HDV", ".nib", ".2mg", ".d13", ".woz", ".dsk.gz", ".po.do", ".dsk ", ".po~", ".d", ".dskx", "."}
var orders = []string{"auto", "do", "po", "raw", "xx", ""}
var systems = []string{"auto", "dos3", "nakedos", "prodos", "cpm", ""}

// sweep opens an image in every way and compares the choice.
func sweep(t *vf.T, img []byte, what string, all bool) {
	for _, ext := range exts {
		for _, ord := range orders {
			for _, sys := range systems {
				if !all && t.Intn(4) > 0 {
					continue
				}
				e := ext
				if i := strings.LastIndex(ext, "."); i > 0 {
					e = ext[i:]
				}
				want, sure := model(img, e, ord, sys)
				name := []string{"x", "dir.po/x", "a.do/b.po/disk", "my.po", "v1.2"}[t.Intn(5)]
				if ext == "" {
					name = []string{"x", "dir.po/x", "a.do/b.po/disk", "/dev/stdin"}[t.Intn(4)]
				}
				op, got, err := lib.Open(img, name+ext, ord, sys)
				t.Eval(1)
				if !sure {
					continue
				}
				ctx := fmt.Sprintf("%s (%d bytes) named %s, order %q, system %q", what, len(img), name+ext, ord, sys)
				if want == nil {
					t.Check(err != nil, "%s: must be refused, was opened as %v", ctx, describe(op, got))
					t.Event("refused", 1)
					continue
				}
				t.Check(err == nil, "%s: must open as %v, got error %v", ctx, *want, err)
				t.Check(op.Name() == want.system && string(got) == want.order, "%s: must open as %v, got %s", ctx, *want, describe(op, got))
				t.Check(op.HasSubdirs() == (want.system == "prodos"), "%s: a %s disk that has directories: %v", ctx, want.system, op.HasSubdirs())
				raw := img
				if len(img) == ref.DiskSize {
					raw = ref.Conv(img, want.order, native[want.system])
				}
				t.Check(bytes.Equal(op.GetBytes(), raw), "%s: the sectors were not taken in order %s", ctx, want.order)
				t.Event(fmt.Sprintf("opened as %s in %s", want.system, want.order), 1)
				t.Distinct(what, ext, ord, sys, img)
			}
		}
	}
}

func describe(op types.Operator, o types.DiskOrder) string {
	if op == nil {
		return "nothing"
	}
	return op.Name() + " in " + string(o)
}

// overlayDos puts a VTOC and an empty or small catalog on any disk (given in
// DOS order).
func overlayDos(t *vf.T, img []byte) {
	d := ref.BuildDos(t.Rand, ref.DosOpts{MaxEntries: 1 + t.Intn(5), Plain: true, StandardCat: true})
	copy(img[17*4096:18*4096], d.Img[17*4096:18*4096])
}

// ambiguous builds an image that is one DOS disk in DOS order and another in
// ProDOS order: both share the VTOC, whose sector is the same in both.
func ambiguous(t *vf.T) []byte {
	img := ref.RandBytes(t.Rand, ref.DiskSize)
	v := ref.WriteVTOC(img, 17, 14, 254, t.Rand)
	_ = v
	place := func(order string, track int, name string, b byte) {
		at := func(tr, s int) []byte {
			return ref.Sec(img, tr, ref.PhysToLogical(order, ref.LogicalToPhys("do", s)))
		}
		c := at(17, 14)
		for i := range c {
			c[i] = 0
		}
		e := c[0x0b:]
		e[0], e[1], e[2] = byte(track), 5, 4
		for i := 0; i < 30; i++ {
			e[3+i] = 0xa0
			if i < len(name) {
				e[3+i] = name[i] | 0x80
			}
		}
		e[33] = 2
		l := at(track, 5)
		for i := range l {
			l[i] = 0
		}
		l[0x0c], l[0x0d] = byte(track), 6
		d := at(track, 6)
		for i := range d {
			d[i] = b
		}
		d[0], d[1], d[2], d[3] = 0, 0x20, 100, 0
	}
	place("do", 20, "DOSORDER", 'D')
	place("po", 21, "PROORDER", 'P')
	return img
}

func main() {
	vf.Main(vf.Spec{ID: "C17",
		Rule:        "generated, shipped, damaged, hybrid (two systems at once) and ambiguous (two disks in one, depending on the order) images under 21 extensions x 6 orders x 6 systems; the chosen order, system and sector arrangement, or the refusal, are compared with a model of the documented rules; the same through ls, dump, put, rm and mkhello",
		Assumptions: []string{"an image with a ProDOS volume header whose directories cannot all be walked is outside the promise", "floppy-sized .hdv files without an explicit order, and .hdv files too small for a directory, are outside the promise", "extensions are compared without regard to case"},
		Require:     []string{"refused", "opened as dos3 in do", "opened as dos3 in po", "opened as nakedos in do", "opened as nakedos in po", "opened as prodos in do", "opened as prodos in po", "hybrids", "crossed disks", "ambiguous disks", "commands", "owners tried", "known systems recognised", "ProDOS order found without help", "truncated disks", "written back in the order found: po", "written back in the order found: do"},
	}, func(s *vf.Suite) {
		s.Section("real", len(real), len(real), func(t *vf.T) {
			im := real[t.I]
			sweep(t, im.Data, im.Name, true)
			o := map[string]string{"do": "po", "po": "do"}[im.Order]
			sweep(t, ref.Conv(im.Data, im.Order, o), im.Name+" reordered", true)
			if im.System != "" {
				op, got, err := lib.Open(im.Data, "x."+im.Order, "auto", "auto")
				t.Check(err == nil && op.Name() == im.System && string(got) == im.Order, "%s must be recognised as %s, got %s, %v", im.Name, im.System, describe(op, got), err)
			}
		})
		s.Section("known", 800, 8000, func(t *vf.T) {
			// by construction: the system is recognised in its container order
			d := wl.RandDisk(t, []string{"dos3", "nakedos", "prodos", "hdv"}[t.I%4])
			ext := d.Ext(t)
			if d.Order == "po" && d.System == "prodos" && t.Intn(3) > 0 {
				// told apart from DOS order by its structures alone
				ext = []string{".dsk", "", ".DSK"}[t.Intn(3)]
				if y, sure := isPro(ref.Conv(d.Data, "do", "po")); y || !sure || isDos(d.Data) || isNaked(ref.Conv(d.Data, "do", "raw")) {
					ext = ".po" // it really carries both
				} else {
					t.Event("ProDOS order found without help", 1)
				}
			}
			op, got, err := lib.Open(d.Data, "x"+ext, "auto", "auto")
			wo := d.Order
			if wo == "block" {
				wo = "po"
			}
			t.Check(err == nil, "%s in %s order as %q: %v", d.Desc, wo, ext, err)
			t.Check(op.Name() == d.System && string(got) == wo, "%s in %s order as %q recognised as %s", d.Desc, wo, ext, describe(op, got))
			t.Event("known systems recognised", 1)
			t.Distinct(d.Data)
			if d.Order != "block" {
				sweep(t, d.Data, d.Desc, false)
			} else {
				for k := 0; k < 40; k++ {
					ext, ord, sys := exts[t.Intn(len(exts))], orders[t.Intn(len(orders))], systems[t.Intn(len(systems))]
					if t.Intn(2) == 0 {
						ext = ".hdv"
					}
					e := filepath.Ext(ext)
					w, sure := model(d.Data, e, ord, sys)
					op, got, err := lib.Open(d.Data, "x"+ext, ord, sys)
					if sure {
						t.Check((w == nil) == (err != nil), "%s as %q order %q system %q: want %v, got %s, %v", d.Desc, ext, ord, sys, w, describe(op, got), err)
						if w != nil {
							t.Check(op.Name() == w.system && string(got) == w.order, "%s as %q: want %v, got %s", d.Desc, ext, *w, describe(op, got))
						}
					}
				}
			}
		})
		s.Section("damaged", 800, 8000, func(t *vf.T) {
			// one damaged byte decides whether the system is still recognised
			d := wl.RandDisk(t, []string{"dos3", "nakedos"}[t.Intn(2)])
			img := ref.Conv(d.Data, d.Order, native[d.System])
			var what string
			if d.System == "dos3" {
				v := ref.Sec(img, 17, 0)
				i := []int{1, 2, 3, 6, 0x27, 0x31, 0x34, 0x35, 0x36, 0x37, 0x38 + 4*t.Intn(50) + t.Intn(4), t.Intn(256)}[t.Intn(12)]
				v[i] = []byte{0, 1, 2, 3, 4, 13, 16, 34, 35, 36, 121, 122, 123, 254, 255, byte(t.Intn(256))}[t.Intn(16)]
				what = fmt.Sprintf("DOS 3.3 disk with VTOC byte %02X = %02X", i, v[i])
			} else {
				n := ref.Naked{Img: img}
				i := t.Intn(560)
				if t.Intn(2) == 0 {
					i = t.Intn(13)
				}
				*n.Owner(i) = []byte{0, 0xfe, 0xff, 1, byte(t.Intn(256))}[t.Intn(5)]
				what = fmt.Sprintf("NakedOS disk with owner of sector %d = %02X", i, *n.Owner(i))
			}
			img = ref.Conv(img, native[d.System], d.Order)
			sweep(t, img, what, false)
			t.Event("damaged disks", 1)
		})
		s.Section("owners", 560, 560*8, func(t *vf.T) {
			// each sector of a NakedOS disk has an owner, else it is none
			d := wl.RandDisk(t, "nakedos")
			n := ref.Naked{Img: ref.Conv(d.Data, d.Order, "raw")}
			i := t.I % 560
			was := *n.Owner(i)
			if !isNaked(n.Img) {
				return
			}
			ask := func(what string, want bool) {
				img := ref.Conv(n.Img, "raw", d.Order)
				op, got, err := lib.Open(img, "x", d.Order, "nakedos")
				t.Check((err == nil) == want, "NakedOS disk whose sector %d has owner %s, asked for explicitly: %v", i, what, err)
				if isDos(ref.Conv(img, d.Order, "do")) {
					return
				}
				op, got, err = lib.Open(img, "x."+d.Order, "auto", "auto")
				if want {
					t.Check(err == nil && op.Name() == "nakedos" && string(got) == d.Order, "NakedOS disk whose sector %d has owner %s: %s, %v", i, what, describe(op, got), err)
				} else if op != nil {
					t.Check(op.Name() != "nakedos", "a disk whose sector %d has owner %s is taken for NakedOS", i, what)
				}
				t.Event("owners tried", 1)
			}
			*n.Owner(i) = 0
			ask("0", false)
			*n.Owner(i) = 0xfe
			ask("FE", true)
			for _, o := range []byte{0xff, 1, 0xfd, byte(1 + t.Intn(0xfd))} {
				*n.Owner(i) = o
				ask(fmt.Sprintf("%02X", o), i >= 12)
			}
			*n.Owner(i) = was
		})
		s.Section("hybrid", 600, 5000, func(t *vf.T) {
			d := wl.RandDisk(t, []string{"nakedos", "prodos"}[t.Intn(2)])
			img := ref.Conv(d.Data, d.Order, "do")
			overlayDos(t, img)
			if d.System == "prodos" && t.Intn(2) == 0 {
				// and a NakedOS map as well: three systems
				n := ref.Naked{Img: ref.Conv(img, "do", "raw")}
				for i := 0; i < 560; i++ {
					*n.Owner(i) = 0xff
					if i < 12 {
						*n.Owner(i) = 0xfe
					}
				}
				img = ref.Conv(n.Img, "raw", "do")
				if t.Intn(2) == 0 {
					ref.Sec(img, 17, 0)[3] = 2 // no DOS
				}
			}
			sweep(t, ref.Conv(img, "do", d.Order), "hybrid of "+d.System+" and DOS 3.3", false)
			t.Event("hybrids", 1)
		})
		s.Section("crossed", 240, 3000, func(t *vf.T) {
			// one system in one order and another in the other order
			d := wl.RandDisk(t, []string{"nakedos", "prodos", "nakedos"}[t.Intn(3)])
			img := append([]byte{}, d.Data...)
			other := map[string]string{"do": "po", "po": "do"}[d.Order]
			if other == "" {
				return
			}
			if d.System == "prodos" && t.Intn(3) == 0 {
				n := ref.Naked{Img: ref.Conv(img, other, "raw")}
				for i := 0; i < 560; i++ {
					*n.Owner(i) = 0xff
					if i < 12 {
						*n.Owner(i) = 0xfe
					}
				}
				img = ref.Conv(n.Img, "raw", other)
			} else {
				// the VTOC is in the same place in both orders, the catalog is
				// proper in one of them only
				ref.WriteVTOC(img, 17, 14, 254, t.Rand)
				in := func(order string) []byte {
					return ref.Sec(img, 17, ref.PhysToLogical(order, ref.LogicalToPhys("do", 14)))
				}
				for i := range in(d.Order) {
					in(d.Order)[i], in(other)[i] = 0, 0
				}
				in(d.Order)[1] = []byte{35, 200, 17, 17}[t.Intn(4)] // no track, or itself
				in(d.Order)[2] = []byte{0, 14, 16}[t.Intn(3)]
			}
			// what a search that takes the orders first and one that takes the
			// systems first would find
			a, sure := model(img, ".dsk", "auto", "auto")
			if a != nil && sure {
				for _, s := range []string{"dos3", "nakedos", "prodos"} {
					b, sure := model(img, ".dsk", "auto", s)
					if b != nil && sure {
						if *b != *a {
							t.Event("crossed disks", 1)
						}
						break
					}
				}
			}
			sweep(t, img, d.System+" in "+d.Order+" and another in "+other, false)
			for k := 0; k < 4; k++ {
				ext := []string{".dsk", "", ".DSK"}[t.Intn(3)]
				op, got, err := lib.Open(img, "x"+ext, "auto", "auto")
				if !sure {
					break
				}
				t.Check((a == nil) == (err != nil), "crossed disk: want %v, got %s, %v", a, describe(op, got), err)
				t.Check(a == nil || op.Name() == a.system && string(got) == a.order, "crossed disk: want %v, got %s", a, describe(op, got))
			}
		})
		s.Section("ambiguous", 120, 600, func(t *vf.T) {
			img := ambiguous(t)
			sweep(t, img, "ambiguous disk", true)
			for _, ext := range []string{".dsk", ".do", ".po", "", ".DSK", ".PO", ".img"} {
				for _, ord := range []string{"", "auto", "do", "po"} {
					if !t.Thorough && t.Intn(3) > 0 {
						continue
					}
					want := "do"
					if strings.ToLower(ext) == ".po" {
						want = "po"
					}
					if ord == "do" || ord == "po" {
						want = ord
					} else if ext == ".img" {
						continue
					}
					dir := t.Fresh()
					t.Put(dir, "amb"+ext, img)
					var f []string
					if ord != "" {
						f = []string{"--order", ord}
					}
					name, b := "DOSORDER", byte('D')
					if want == "po" {
						name, b = "PROORDER", 'P'
					}
					r := t.Run(vf.RunOpts{Dir: dir}, append(append([]string{"ls"}, f...), "amb"+ext)...)
					t.Check(r.Exit == 0 && strings.TrimSpace(string(r.Stdout)) == name, "want the disk in %s order: %v: %q", want, r, r.Stdout)
					r = t.Run(vf.RunOpts{Dir: dir}, append(append([]string{"dump"}, f...), "amb"+ext, name)...)
					t.Check(r.Exit == 0 && bytes.Equal(r.Stdout, bytes.Repeat([]byte{b}, 100)), "want the disk in %s order: %v", want, r)
					t.Event("commands", 2)
				}
			}
			t.Event("ambiguous disks", 1)
		})
		s.Section("sizes", 400, 3000, func(t *vf.T) {
			n := []int{0, 1, 255, 256, 511, 512, 513, 1536, 2048, 116480, 116479, 143359, 143361, 143360 + 256, 143360 + 512, 143360 - 512, 143360 * 2, 160256, 819200, 819200 + 1, 819200 + 256}[t.I%21]
			if t.I/21%3 == 2 {
				n = t.Intn(400000)
			}
			var img []byte
			if t.Intn(2) == 0 {
				img = make([]byte, n)
			} else {
				img = ref.RandBytes(t.Rand, n)
			}
			if n > 143360 && t.Intn(2) == 0 {
				copy(img, real[t.Intn(len(real))].Data)
			}
			for k := 0; k < 60; k++ {
				ext, ord, sys := exts[t.Intn(len(exts))], orders[t.Intn(len(orders))], systems[t.Intn(len(systems))]
				w, sure := model(img, filepath.Ext(ext), ord, sys)
				if !sure {
					continue
				}
				op, got, err := lib.Open(img, "x"+ext, ord, sys)
				t.Eval(1)
				t.Check((w == nil) == (err != nil), "%d bytes as %q order %q system %q: want %v, got %s, %v", n, ext, ord, sys, w, describe(op, got), err)
				if w == nil {
					t.Event("refused", 1)
				}
			}
			t.Distinct(n)
		})
		s.Section("truncated", 300, 3000, func(t *vf.T) {
			// a piece of a disk without the structures of the system is none
			need := map[string]int{"dos3": 17*4096 + 256, "nakedos": 0xc00, "prodos": 3 * 512}
			d := wl.RandDisk(t, []string{"dos3", "nakedos", "prodos"}[t.I%3])
			img := ref.Conv(d.Data, d.Order, native[d.System])
			for k := 0; k < 12; k++ {
				n := t.Intn(need[d.System])
				if k < 4 {
					n = []int{0, need[d.System] - 1, need[d.System] - 256, 256}[k]
				}
				for _, f := range lib.Factories() {
					if n < need[f.Name()] {
						t.Check(!f.SeemsToMatch(append([]byte{}, img[:n]...), 0), "the first %d bytes of a %s disk are taken for %s", n, d.System, f.Name())
						t.Event("truncated disks", 1)
					}
				}
			}
		})
		s.Section("bighdv", 4, 4, func(t *vf.T) {
			n := []int{32 << 20, 32<<20 + 512, 32<<20 - 512, 32<<20 + 1}[t.I]
			img := make([]byte, n)
			w, _ := model(img, ".hdv", "auto", "auto")
			_, _, err := disk.OpenImage(img, "x.hdv", "auto", "auto", lib.Factories(), 0)
			t.Check((w == nil) == (err != nil), ".hdv of %d bytes: %v", n, err)
			t.Event("hard disks at the size limit", 1)
		})
		s.Section("writing", 400, 4000, func(t *vf.T) {
			// commands that modify honour the order, whatever the extension
			d := wl.RandDisk(t, "nakedos")
			ext := []string{".dsk", ".do", ".po", "", ".img"}[t.Intn(5)]
			dir := t.Fresh()
			f := "disk" + ext
			t.Put(dir, f, d.Data)
			n := ref.Naked{Img: ref.Conv(d.Data, d.Order, "raw")}
			r := t.Run(vf.RunOpts{Dir: dir}, "rm", "-f", "--order", d.Order, f, "DF7D")
			t.Check(r.Exit == 0, "rm -f with the proper order: %v", r)
			got := t.Get(dir, f)
			t.Check(len(got) == ref.DiskSize, "%d bytes: %v", len(got), r)
			m := ref.Naked{Img: ref.Conv(got, d.Order, "raw")}
			for i := 0; i < 560; i++ {
				o := *n.Owner(i)
				if o != 0x7d && o != 3 && o != 4 && (i < 9 || i > 11) {
					t.Check(bytes.Equal(ref.Sec(n.Img, i/16, i%16), ref.Sec(m.Img, i/16, i%16)), "sector %d moved or changed: %v", i, r)
				}
			}
			other := map[string]string{"do": "po", "po": "do"}[d.Order]
			if !isDos(ref.Conv(d.Data, other, "do")) && !isNaked(ref.Conv(d.Data, other, "raw")) {
				snap := t.Snapshot(dir)
				r := t.Run(vf.RunOpts{Dir: dir}, "rm", "-f", "--order", other, f, "DF7D")
				t.Check(r.Err() && len(snap.Diff(t.Snapshot(dir))) == 0, "rm with the wrong order %s: %v", other, r)
				r = t.Run(vf.RunOpts{Dir: dir}, "nakedos", "mkhello", "--order", other, f, "DF7C")
				t.Check(r.Err() && len(snap.Diff(t.Snapshot(dir))) == 0, "mkhello with the wrong order %s: %v", other, r)
				r = t.Run(vf.RunOpts{Dir: dir}, "put", "--order", other, f, "DF7C", f)
				t.Check(r.Err() && len(snap.Diff(t.Snapshot(dir))) == 0, "put with the wrong order %s: %v", other, r)
			}
			r = t.Run(vf.RunOpts{Dir: dir}, "ls", "--system", "nakedos", "--order", d.Order, f)
			t.Check(r.Exit == 0, "%v", r)
			r2 := t.Run(vf.RunOpts{Dir: dir}, "ls", "--order", d.Order, f)
			t.Check(r2.Exit == 0 && bytes.Equal(r.Stdout, r2.Stdout), "ls with and without --system nakedos: %v, %v", r, r2)
			r3 := t.Run(vf.RunOpts{Dir: dir}, "dump", "--system", "dos3", "--order", d.Order, f, "DF01")
			t.Check(r3.Err(), "dump --system dos3 of a NakedOS file: %v", r3)
			t.Event("commands", 6)
		})
		s.Section("found", 320, 3000, func(t *vf.T) {
			// the order that was found is the order that is written back
			d := wl.RandDisk(t, "nakedos")
			if d.Order == "do" && t.Intn(3) > 0 {
				d.Data, d.Order = ref.Conv(d.Data, "do", "po"), "po"
			}
			f := "disk" + []string{".dsk", "", ".DSK", "." + d.Order}[t.Intn(4)]
			dir := t.Fresh()
			t.Put(dir, f, d.Data)
			t.Put(dir, "src", ref.RandBytes(t.Rand, 1+t.Intn(1000)))
			cur := d.Data
			for k := 0; k < 5; k++ {
				w, sure := model(cur, filepath.Ext(f), "auto", "auto")
				if !sure || w == nil || w.system != "nakedos" || w.order != d.Order {
					t.Event("disks found in another order (not judged)", 1)
					return
				}
				file := byte(0x70 + t.Intn(4))
				args := [][]string{
					{"put", "-f", f, fmt.Sprintf("DF%02X", file), "src"},
					{"rm", "-f", f, fmt.Sprintf("DF%02X", file)},
					{"nakedos", "mkhello", f, "DF70"},
				}[t.Intn(3)]
				r := t.Run(vf.RunOpts{Dir: dir}, args...)
				got := t.Get(dir, f)
				t.Check(len(got) == ref.DiskSize, "%d bytes: %v", len(got), r)
				n, m := ref.Naked{Img: ref.Conv(cur, d.Order, "raw")}, ref.Naked{Img: ref.Conv(got, d.Order, "raw")}
				for i := 0; i < 560; i++ {
					o, now := *n.Owner(i), *m.Owner(i)
					t.Check(o == now || o == 0xff || o == file || o == 1 || o == 3 || o == 4, "%s in %s order: the owner of sector %d went from %02X to %02X: %v", f, d.Order, i, o, now, r)
					if o != file && o != 1 && o != 3 && o != 4 && o != 0xff && (i < 9 || i > 11) {
						t.Check(bytes.Equal(ref.Sec(n.Img, i/16, i%16), ref.Sec(m.Img, i/16, i%16)), "%s in %s order: sector %d moved or changed: %v", f, d.Order, i, r)
					}
				}
				if r.Exit == 0 && filepath.Ext(f) != "."+d.Order {
					t.Event("written back in the order found: "+d.Order, 1)
				}
				t.Eval(1)
				cur = got
			}
		})
	})
}
