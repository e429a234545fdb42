// C09: no disk image can crash or hang diskii.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"verif/lib"
	"verif/nk"
	"verif/ref"
	"verif/vf"

	"github.com/zellyn/diskii/disk"
	"github.com/zellyn/diskii/dos3"
	"github.com/zellyn/diskii/prodos"
	"github.com/zellyn/diskii/supermon"
	"github.com/zellyn/diskii/types"
)

var real = lib.Real()

var exts = []string{".dsk", ".do", ".po", "", ".hdv", ".img", ".DSK", ".d13", ".woz"}

// exercise performs every operation on whatever can be opened.
func exercise(t *vf.T, img []byte, all bool) {
	n := 0
	orders := []string{"auto", "do", "po", "raw", "", "xx"}
	systems := []string{"auto", "dos3", "prodos", "nakedos", "cpm"}
	for _, ext := range exts {
		for _, ord := range orders {
			for _, sys := range systems {
				if !all && t.Intn(6) > 0 {
					continue
				}
				op, got, err := lib.Open(img, "x"+ext, ord, sys)
				t.Event("open attempts", 1)
				if err != nil {
					t.Event("opening refused", 1)
					continue
				}
				n++
				if n > 6 && t.Intn(5) > 0 && sys == "auto" {
					continue
				}
				operate(t, op, got)
			}
		}
	}
	if n > 0 {
		t.Event("images opened", 1)
	}
}

func operate(t *vf.T, op types.Operator, ord types.DiskOrder) {
	t.Event("opened as "+op.Name(), 1)
	dirs := []string{""}
	names := []string{"", "FHELLO", "1", "DF03", "DF04:FOOBAR", "HELLO", "A/B", ":", "DF05:", "5:6"}
	for i := 0; i < len(dirs) && i < 12; i++ {
		ds, err := op.Catalog(dirs[i])
		t.Event("catalogs", 1)
		if err != nil {
			t.Event("catalog errors", 1)
			continue
		}
		for k, d := range ds {
			if len(names) < 60 {
				names = append(names, d.Name, d.Fullname)
			}
			_ = d.Type.String()
			if op.HasSubdirs() && (k < 10 || t.Intn(20) == 0) && len(dirs) < 40 {
				p := d.Name
				if dirs[i] != "" {
					p = dirs[i] + "/" + d.Name
				}
				dirs = append(dirs, p)
			}
		}
	}
	_, _ = op.Catalog("NO/SUCH")
	for _, n := range names {
		_, err := op.GetFile(n)
		t.Event("retrievals", 1)
		if err != nil {
			t.Event("retrieval errors", 1)
		}
	}
	for k := 0; k < 4; k++ {
		n := names[t.Intn(len(names))]
		if t.Intn(3) == 0 {
			n = fmt.Sprintf("DF%02X:%s", t.Intn(256), ref.RandSymName(t.Rand))
		}
		data := ref.RandBytes(t.Rand, []int{0, 1, 256, 257, 5000, 150000}[t.Intn(6)])
		_, _ = op.PutFile(types.FileInfo{Descriptor: types.Descriptor{Name: n, Length: len(data), Type: types.FiletypeBinary}, Data: data}, t.Intn(2) == 0)
		_, _ = op.Delete(names[t.Intn(len(names))])
		t.Event("changes", 2)
	}
	_, _ = op.Catalog("")
	p := filepath.Join(t.Dir, "out.img")
	_ = os.Remove(p)
	_ = disk.WriteBack(p, op, ord, true)
	_ = op.GetBytes()
}

// interesting values for a metadata byte
func val(t *vf.T) byte {
	return []byte{0, 1, 2, 3, 4, 15, 16, 17, 34, 35, 36, 0x7f, 0x80, 0xd0, 0xdf, 0xe0, 0xf0, 0xfd, 0xfe, 0xff, byte(t.Intn(256)), byte(t.Intn(256)), byte(t.Intn(40))}[t.Intn(23)]
}

// hostileDos damages a DOS 3.3 disk (DOS order).
func hostileDos(t *vf.T) []byte {
	d := ref.BuildDos(t.Rand, ref.DosOpts{MaxEntries: 1 + t.Intn(20), Big: t.Intn(4) == 0, Plain: t.Intn(2) == 0})
	var sectors []int // catalog and list sectors
	sectors = append(sectors, 17*16)
	sectors = append(sectors, d.CatPos...)
	for _, e := range d.Live {
		sectors = append(sectors, int(e.T)*16+int(e.S))
	}
	pick := func() int { return sectors[t.Intn(len(sectors))] }
	for k := 1 + t.Intn(6); k > 0; k-- {
		p := pick()
		b := ref.Sec(d.Img, p/16, p%16)
		switch t.Intn(6) {
		case 0: // link somewhere in the structure: cycles, sharing
			q := pick()
			b[1], b[2] = byte(q/16), byte(q%16)
		case 1:
			b[1], b[2] = val(t), val(t)
		case 2: // an entry points at another structure
			q := pick()
			e := b[0x0b+35*t.Intn(7):]
			e[0], e[1] = byte(q/16), byte(q%16)
		case 3:
			b[t.Intn(256)] = val(t)
		case 4:
			for n := t.Intn(40); n > 0; n-- {
				b[t.Intn(256)] = val(t)
			}
		case 5:
			i := 0x0c + 2*t.Intn(122)
			b[i], b[i+1] = val(t), val(t)
		}
	}
	if t.Intn(4) > 0 { // keep the VTOC acceptable
		v := ref.Sec(d.Img, 17, 0)
		v[3], v[0x27], v[0x34], v[0x36], v[0x37], v[0x31] = 3, 122, 35, 0, 1, 1
		if v[0x35] != 13 {
			v[0x35] = 16
		}
		for i := 0x38; i < 256; i += 4 {
			v[i+2], v[i+3] = 0, 0
		}
	}
	return ref.Conv(d.Img, "do", []string{"do", "po"}[t.Intn(2)])
}

func put16(b []byte, v int) { b[0], b[1] = byte(v), byte(v>>8) }

// hostilePro damages a ProDOS volume.
func hostilePro(t *vf.T) ([]byte, bool) {
	blocks := 280
	hdv := t.Intn(3) == 0
	if hdv {
		blocks = 64 + t.Intn(900)
		if t.Intn(30) == 0 {
			blocks = 65536
		}
	}
	v := ref.BuildPro(t.Rand, ref.ProOpts{Blocks: blocks, MaxDirs: 1 + t.Intn(15), MaxDepth: 1 + t.Intn(6), MaxEnt: 14, MultiDir: t.Intn(3) == 0, Chain: t.Intn(3) == 0})
	var keys, bl []int
	for _, d := range v.Dirs {
		keys = append(keys, d.Blocks[0])
		bl = append(bl, d.Blocks...)
	}
	anyBlock := func() int {
		switch t.Intn(4) {
		case 0:
			return keys[t.Intn(len(keys))]
		case 1:
			return bl[t.Intn(len(bl))]
		case 2:
			return []int{0, 1, 2, 3, blocks - 1, blocks, blocks + 1, 65535, 32768}[t.Intn(9)]
		}
		return t.Intn(65536)
	}
	entry := func(p int) []byte { // a random entry of a directory block
		return ref.Blk(v.Img, p)[4+0x27*t.Intn(13):][:0x27]
	}
	for k := 1 + t.Intn(8); k > 0; k-- {
		p := bl[t.Intn(len(bl))]
		b := ref.Blk(v.Img, p)
		switch t.Intn(8) {
		case 0:
			put16(b[2:], anyBlock())
		case 1:
			put16(b[0:], anyBlock())
		case 2: // a subdirectory entry that leads anywhere
			e := entry(p)
			e[0] = 0xD0 | byte(1+t.Intn(15))
			put16(e[0x11:], anyBlock())
		case 3: // parent pointer
			put16(b[4+0x23:], anyBlock())
		case 4: // name length and storage type
			b[4] = val(t)
			entry(p)[0] = val(t)
		case 5:
			b[t.Intn(512)] = val(t)
		case 6:
			for n := t.Intn(60); n > 0; n-- {
				b[t.Intn(512)] = val(t)
			}
		case 7: // bitmap pointer, sizes
			put16(ref.Blk(v.Img, 2)[4+0x23:], anyBlock())
			put16(ref.Blk(v.Img, 2)[4+0x25:], []int{0, 1, 280, 4096, 4097, 65535, t.Intn(65536)}[t.Intn(7)])
		}
	}
	if hdv {
		return v.Img, true
	}
	return ref.Conv(v.Img, "po", []string{"do", "po"}[t.Intn(2)]), false
}

// hostileNaked damages a NakedOS disk.
func hostileNaked(t *vf.T) []byte {
	n, _ := nk.Source(t, real)
	for k := 1 + t.Intn(8); k > 0; k-- {
		switch t.Intn(6) {
		case 0: // owners
			for c := 1 + t.Intn(30); c > 0; c-- {
				*n.Owner(t.Intn(560)) = val(t)
			}
		case 1: // symbol table bytes
			for c := 1 + t.Intn(30); c > 0; c-- {
				if ss := n.Sectors(byte(3 + t.Intn(2))); len(ss) > 0 {
					s := ss[t.Intn(len(ss))]
					ref.Sec(n.Img, s/16, s%16)[t.Intn(256)] = val(t)
				}
			}
		case 2: // links: cycles within a class, self links, links to empty slots
			st, err := n.ReadSyms()
			if err != nil {
				continue
			}
			var used []int
			for i, s := range st {
				if s.Addr != 0 {
					used = append(used, i)
				}
			}
			ss := n.Sectors(3)
			for c := 1 + t.Intn(10); c > 0 && len(used) > 0; c-- {
				i := used[t.Intn(len(used))]
				to := t.Intn(820)
				if t.Intn(2) == 0 {
					for q := 0; q < 20; q++ {
						to = used[t.Intn(len(used))]
						if ref.Hash(st[to].Addr) == ref.Hash(st[i].Addr) {
							break
						}
					}
				}
				l := 0xD000 + 5*to
				for o, x := range []byte{byte(l), byte(l >> 8)} {
					at := 5*i + 2 + o
					s := ss[at/256]
					ref.Sec(n.Img, s/16, s%16)[at%256] = x
				}
			}
		case 3: // sector map bytes
			ref.Sec(n.Img, 0, 9+t.Intn(3))[t.Intn(256)] = val(t)
		case 4: // everything one file
			f := val(t)
			for i := 12; i < 560; i++ {
				if t.Intn(3) > 0 {
					*n.Owner(i) = f
				}
			}
		case 5:
			f := byte(3 + t.Intn(2))
			for c := t.Intn(20); c > 0; c-- {
				*n.Owner(16 + t.Intn(544)) = f
			}
		}
	}
	return ref.Conv(n.Img, "raw", []string{"do", "po"}[t.Intn(2)])
}

func hostileReal(t *vf.T) []byte {
	if len(real) == 0 {
		return hostileDos(t)
	}
	im := real[t.Intn(len(real))]
	b := append([]byte{}, im.Data...)
	raw := [][2]int{}
	// metadata areas in the container: VTOC/catalog track, block 2-5, sector map
	for k := 1 + t.Intn(40); k > 0; k-- {
		switch t.Intn(5) {
		case 0:
			b[17*4096+t.Intn(4096)] = val(t)
		case 1:
			b[t.Intn(4096)] = val(t)
		case 2:
			b[t.Intn(len(b))] = val(t)
		case 3:
			i := t.Intn(len(b) - 512)
			copy(b[i:i+512], b[t.Intn(len(b)-512):])
		case 4:
			b[17*4096+t.Intn(16)*256+1+t.Intn(2)] = val(t)
		}
	}
	_ = raw
	return b
}

func anything(t *vf.T) ([]byte, string) {
	switch t.Intn(9) {
	case 0, 1:
		return hostileDos(t), "damaged DOS 3.3 disk"
	case 2, 3:
		b, _ := hostilePro(t)
		return b, "damaged ProDOS volume"
	case 4, 5:
		return hostileNaked(t), "damaged NakedOS disk"
	case 6:
		return hostileReal(t), "damaged real disk"
	case 7:
		b := ref.RandBytes(t.Rand, ref.DiskSize)
		return b, "random bytes"
	}
	return odd(t)
}

// odd sizes and contents
func odd(t *vf.T) ([]byte, string) {
	sizes := []int{0, 1, 255, 256, 257, 511, 512, 513, 1024, 1535, 1536, 1537, 2048, 3072, 4096, 116480, 143359, 143360, 143361, 143616, 160 * 1024, 286720, 400 * 1024, 819200}
	n := sizes[t.Intn(len(sizes))]
	switch t.Intn(6) {
	case 0:
		n = t.Intn(300000)
	case 1:
		n = 512 * t.Intn(600)
	}
	var b []byte
	kind := t.Intn(6)
	switch kind {
	case 0:
		b = make([]byte, n)
	case 1:
		b = make([]byte, n)
		x := byte(t.Intn(256))
		for i := range b {
			b[i] = x
		}
	case 2:
		b = ref.RandBytes(t.Rand, n)
	case 3: // every pointer small
		b = make([]byte, n)
		for i := range b {
			b[i] = byte(t.Intn(8))
		}
	default: // a valid disk cut or extended
		var src []byte
		switch t.Intn(3) {
		case 0:
			src = ref.BuildDos(t.Rand, ref.DosOpts{MaxEntries: 10}).Img
		case 1:
			src = ref.BuildPro(t.Rand, ref.ProOpts{Blocks: 280 + t.Intn(2)*300, MaxDirs: 10, MaxDepth: 4, MaxEnt: 20, MultiDir: true}).Img
		case 2:
			src = ref.BuildNaked(t.Rand, ref.NakedOpts{Files: 10, MaxSec: 4, FreeLeft: -1, Syms: 20}).Img
		}
		if t.Intn(2) == 0 {
			n = 512 * t.Intn(len(src)/512)
		}
		b = make([]byte, n)
		copy(b, src)
	}
	return b, fmt.Sprintf("%d bytes of kind %d", n, kind)
}

func main() {
	vf.Main(vf.Spec{ID: "C09",
		Rule:        "valid DOS 3.3, ProDOS and NakedOS disks with targeted damage (links redirected into the structure, cycles, self-references, shared and out-of-range pointers, bad sizes, types and lengths, stray bytes), images with exactly one deliberate defect (14 kinds: circular chains of every length with and without a lead-in, every pointer at its boundary values, lengths, sizes), damaged real disks, random bytes, constant images, cut and extended disks of any size; each image is opened under every extension, order and system and every operation is performed on whatever opens, in-process with a CPU-time watchdog (25 s), a 64 MB stack limit and a 4 GB address-space limit, and as commands with a CPU limit (exit status must be 0 or 1); the structure parsers are also fed inputs of every length. Distinct = distinct images.",
		Assumptions: []string{"32 MiB images are only damaged lightly: deep nesting on them costs polynomial time and memory, which is not counted as a hang"},
		Require:     []string{"images opened", "opened as dos3", "opened as prodos", "opened as nakedos", "targeted defect 0", "targeted defect 5", "targeted defect 13", "catalog errors", "retrieval errors", "diskii exit 0", "diskii exit 1"},
	}, func(s *vf.Suite) {
		s.Section("targeted", 5600, 60000, targeted)
		s.Section("dos", 700, 20000, func(t *vf.T) {
			b := hostileDos(t)
			t.Distinct(b)
			exercise(t, b, t.Intn(10) == 0)
		})
		s.Section("prodos", 900, 30000, func(t *vf.T) {
			b, _ := hostilePro(t)
			t.Distinct(b)
			exercise(t, b, len(b) < 1<<20 && t.Intn(10) == 0)
		})
		s.Section("nakedos", 700, 20000, func(t *vf.T) {
			b := hostileNaked(t)
			t.Distinct(b)
			exercise(t, b, t.Intn(10) == 0)
		})
		s.Section("real", 300, 10000, func(t *vf.T) {
			b := hostileReal(t)
			t.Distinct(b)
			exercise(t, b, false)
		})
		s.Section("odd", 600, 20000, func(t *vf.T) {
			b, w := odd(t)
			t.Distinct(b)
			exercise(t, b, t.Intn(4) == 0)
			t.Sample("%s", w)
		})
		s.Section("parsers", 300, 5000, func(t *vf.T) {
			for k := 0; k < 10; k++ {
				b, _ := anything(t)
				if t.Intn(2) == 0 && len(b) > 0 {
					b = b[:t.Intn(len(b))]
				}
				if len(b) > 1<<20 {
					continue
				}
				_, _, _ = dos3.ReadCatalog(b, 0)
				if sm, err := supermon.LoadSectorMap(b); err == nil {
					_ = sm.Verify()
					_, _ = sm.ReadSymbolTable(b)
					_, _ = sm.ReadFile(b, val(t))
					_ = sm.SectorsByFile()
					_ = sm.FreeSectors()
				}
				for _, f := range lib.Factories() {
					if f.Name() != "nakedos" || len(b) >= 0 {
						f.SeemsToMatch(b, 0)
						if op, err := f.Operator(b, 0); err == nil {
							_, _ = op.Catalog("")
							_, _ = op.GetFile("X")
						}
					}
				}
				_, _ = disk.Swizzle(b, disk.Dos33LogicalToPhysicalSectorMap)
				_, _ = disk.ReadSector(b, val(t), val(t))
				for _, st := range []interface{ FromSector([]byte) error }{&dos3.VTOC{}, &dos3.CatalogSector{}, &dos3.TrackSectorList{}} {
					n := t.Intn(300)
					if n > len(b) {
						n = len(b)
					}
					_ = st.FromSector(b[:n])
				}
				_ = disk.UnmarshalBlock(b, &prodos.VolumeDirectoryKeyBlock{}, uint16(t.Intn(65536)))
				t.Event("parser inputs", 1)
				t.Distinct(b)
			}
		})
		s.Section("command", 700, 8000, func(t *vf.T) {
			b, what := anything(t)
			dir := t.Fresh()
			ext := exts[t.Intn(len(exts))]
			if t.Intn(3) == 0 {
				ext = ".dsk"
			}
			if len(b) != ref.DiskSize && t.Intn(3) > 0 {
				ext = ".hdv"
			}
			name := "disk" + ext
			t.Put(dir, name, b)
			t.Put(dir, "src", ref.RandBytes(t.Rand, t.Intn(2000)))
			t.Put(dir, "other.po", ref.RandBytes(t.Rand, 10))
			sys := []string{"auto", "dos3", "prodos", "nakedos"}[t.Intn(4)]
			sys2 := []string{"auto", "dos3"}[t.Intn(2)]
			ord := []string{"auto", "do", "po"}[t.Intn(3)]
			file := []string{"HELLO", "FHELLO", "DF05", "1", "DF09:FRODO", "3", "4", "XYZ"}[t.Intn(8)]
			v := strings.Repeat("v", t.Intn(4))
			pre := []string{}
			if v != "" {
				pre = append(pre, "-"+v)
			}
			cmds := [][]string{
				{"ls", "--order", ord, "--system", sys, name},
				{"ls", "--order", ord, "--system", sys, name, "SUB/DIR"},
				{"dump", "--order", ord, "--system", sys2, name, file},
				{"put", "-f", "--order", ord, "--system", sys2, name, file, "src"},
				{"rm", "--order", ord, "--system", sys2, name, file},
				{"reorder", "-f", name, "other.po"},
				{"nakedos", "mkhello", "--order", ord, name, file},
				{"applesoft", "decode", name},
				{"mksd", "new.dsk", name},
			}
			for _, i := range t.Perm(len(cmds))[:3] {
				res := t.Run(vf.RunOpts{Dir: dir, Stdin: []byte{}}, append(append([]string{}, pre...), cmds[i]...)...)
				if res.Exit == 1 {
					t.Check(len(res.Stderr) > 0, "failed without an error message: %v", res)
				}
			}
			t.Distinct(b)
			t.Sample("%s as %s", what, name)
		})
	})
}
