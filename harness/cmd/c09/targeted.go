package main

import (
	"fmt"

	"verif/lib"
	"verif/nk"
	"verif/ref"
	"verif/vf"
)

// probe opens an image the ways that reach its own system and performs every
// operation.
func probe(t *vf.T, img []byte, system, order, ext string) {
	t.Distinct(img)
	opened := false
	for _, c := range [][3]string{{ext, order, system}, {ext, "auto", "auto"}} {
		if op, got, err := lib.Open(img, "x"+c[0], c[1], c[2]); err == nil {
			opened = true
			operate(t, op, got)
		} else {
			t.Event("opening refused", 1)
		}
	}
	if opened {
		t.Event("images opened", 1)
	}
}

var edgeT = []byte{0, 1, 17, 34, 35, 36, 39, 40, 127, 128, 254, 255}
var edgeS = []byte{0, 1, 12, 13, 14, 15, 16, 17, 31, 127, 128, 255}

// rho returns a sequence of n distinct numbers below lim and the index the
// last one leads back to (-1: nowhere).
func rho(t *vf.T, lo, lim int, avoid map[int]bool) (seq []int, back int) {
	n := 1 + t.Intn(6)
	if t.Intn(10) == 0 {
		n = 1 + t.Intn(60)
	}
	used := map[int]bool{}
	for len(seq) < n {
		x := lo + t.Intn(lim-lo)
		if !used[x] && !avoid[x] {
			used[x] = true
			seq = append(seq, x)
		}
	}
	back = t.Intn(n)
	if t.Intn(4) == 0 {
		back = n - 1 // self link
	}
	return seq, back
}

func smallDos(t *vf.T) (img []byte, cat []byte) {
	img = make([]byte, ref.DiskSize)
	ref.WriteVTOC(img, 17, 15, 254, t.Rand)
	return img, ref.Sec(img, 17, 15)
}

func dosEntry(c []byte, slot int, tr, s byte, typ byte, name string) {
	e := c[0x0b+35*slot:][:35]
	e[0], e[1], e[2] = tr, s, typ
	for i := 0; i < 30; i++ {
		e[3+i] = 0xa0
		if i < len(name) {
			e[3+i] = name[i] | 0x80
		}
	}
	e[33] = 2
}

// targeted makes one image with exactly one deliberate defect.
func targeted(t *vf.T) {
	types := []byte{0, 1, 2, 4, 8, 0x10, 0x20, 0x40, 0x84, 0x03, 0x7f}
	sect := func(x int) (byte, byte) { return byte(x / 16), byte(x % 16) }
	kind := t.I % 14
	t.Event(fmt.Sprintf("targeted defect %d", kind), 1)
	switch kind {
	case 0: // track/sector lists that run in a circle
		img, c := smallDos(t)
		avoid := map[int]bool{0: true, 17 * 16: true, 17*16 + 15: true}
		seq, back := rho(t, 0, 560, avoid)
		for i, x := range seq {
			avoid[x] = true
			tr, s := sect(x)
			l := ref.Sec(img, int(tr), int(s))
			next := seq[back]
			if i+1 < len(seq) {
				next = seq[i+1]
			}
			l[1], l[2] = sect(next)
			for k := t.Intn(123); k > 0; k-- {
				p := 0x0c + 2*t.Intn(122)
				l[p], l[p+1] = byte(t.Intn(35)), byte(t.Intn(16))
			}
		}
		for slot := 0; slot < 7; slot++ {
			tr, s := sect(seq[t.Intn(len(seq))])
			if tr == 0 {
				tr, s = sect(seq[0])
			}
			dosEntry(c, slot, tr, s, types[t.Intn(len(types))], fmt.Sprintf("F%d", slot))
		}
		probe(t, img, "dos3", "do", ".do")
	case 1: // a catalog that runs in a circle
		img, _ := smallDos(t)
		seq, back := rho(t, 1, 560, map[int]bool{17 * 16: true})
		v := ref.Sec(img, 17, 0)
		v[1], v[2] = sect(seq[0])
		for i, x := range seq {
			tr, s := sect(x)
			l := ref.Sec(img, int(tr), int(s))
			next := seq[back]
			if i+1 < len(seq) {
				next = seq[i+1]
			}
			l[1], l[2] = sect(next)
			dosEntry(l, t.Intn(7), byte(1+t.Intn(34)), byte(t.Intn(16)), 0, "X")
		}
		probe(t, img, "dos3", "do", ".do")
	case 2: // one pointer leads anywhere
		d := ref.BuildDos(t.Rand, ref.DosOpts{MaxEntries: 1 + t.Intn(12), Big: t.Intn(6) == 0, Plain: true, StandardCat: t.Intn(2) == 0})
		var at []byte
		switch t.Intn(4) {
		case 0:
			at = ref.Sec(d.Img, 17, 0)[1:]
		case 1:
			p := d.CatPos[t.Intn(len(d.CatPos))]
			at = ref.Sec(d.Img, p/16, p%16)[1:]
		case 2:
			p := d.CatPos[t.Intn(len(d.CatPos))]
			at = ref.Sec(d.Img, p/16, p%16)[0x0b+35*t.Intn(7):]
		case 3:
			if len(d.Live) == 0 {
				return
			}
			e := d.Live[t.Intn(len(d.Live))]
			l := ref.Sec(d.Img, int(e.T), int(e.S))
			at = l[1:]
			if t.Intn(2) == 0 {
				at = l[0x0c+2*[]int{0, 1, t.Intn(122), 121}[t.Intn(4)]:]
			}
		}
		at[0], at[1] = edgeT[t.Intn(len(edgeT))], edgeS[t.Intn(len(edgeS))]
		probe(t, d.Img, "dos3", "do", ".do")
	case 3: // recorded lengths and addresses
		img, c := smallDos(t)
		for slot := 0; slot < 7; slot++ {
			n := t.Intn(4)
			tr := byte(20 + slot)
			dosEntry(c, slot, tr, 0, types[t.Intn(len(types))], fmt.Sprintf("F%d", slot))
			l := ref.Sec(img, int(tr), 0)
			for k := 0; k < n; k++ {
				l[0x0c+2*k], l[0x0d+2*k] = tr, byte(1+k)
			}
			if t.Intn(4) == 0 {
				l[0x0c], l[0x0d] = 0, 0
			}
			size := n*256 + []int{-5, -4, -3, -2, -1, 0, 1, 2, 255, 256, 257, 65535 - n*256}[t.Intn(12)]
			b := ref.Sec(img, int(tr), 1)
			for _, at := range []int{0, 2} {
				b[at], b[at+1] = byte(size), byte(size>>8)
			}
		}
		probe(t, img, "dos3", "do", ".do")
	case 4: // VTOC bytes
		d := ref.BuildDos(t.Rand, ref.DosOpts{MaxEntries: 6, Plain: true})
		v := ref.Sec(d.Img, 17, 0)
		v[t.Intn(256)] = val(t)
		probe(t, d.Img, "dos3", "do", ".do")
	case 5, 6: // one link of the symbol table
		n := ref.BuildNaked(t.Rand, ref.NakedOpts{Files: t.Intn(10), MaxSec: 3, FreeLeft: -1, Syms: 1 + t.Intn(60)})
		st, err := n.ReadSyms()
		if err != nil {
			return
		}
		var used []int
		for i, s := range st {
			if s.Addr != 0 {
				used = append(used, i)
			}
		}
		if len(used) == 0 {
			return
		}
		i := used[t.Intn(len(used))]
		setLink := func(i, l int) {
			ss := n.Sectors(3)
			for o, x := range []byte{byte(l), byte(l >> 8)} {
				at := 5*i + 2 + o
				s := ss[at/256]
				ref.Sec(n.Img, s/16, s%16)[at%256] = x
			}
		}
		if kind == 5 {
			setLink(i, []int{1, 0xff, 0x100, 0xCFFF, 0xCFFB, 0xD000, 0xD001, 0xD004, 0xD005, 0xD000 + 5*i, 0xDFF5, 0xDFFA, 0xDFFB, 0xDFFE, 0xDFFF, 0xE000, 0xE004, 0xFFFF, 0x5000, 0xD000 + t.Intn(0x1010)}[t.I/14%20])
		} else { // a circle of symbols in one class
			k := 1 + t.Intn(5)
			if k > len(used) {
				k = len(used)
			}
			p := t.Perm(len(used))[:k]
			for j := range p {
				a := used[p[j]]
				addr := uint16(0x0101 * (1 + t.Intn(100)))
				ss := n.Sectors(3)
				s := ss[5*a/256]
				ref.Sec(n.Img, s/16, s%16)[5*a%256] = byte(addr)
				s = ss[(5*a+1)/256]
				ref.Sec(n.Img, s/16, s%16)[(5*a+1)%256] = byte(addr >> 8)
				setLink(a, 0xD000+5*used[p[(j+1)%k]])
			}
		}
		probe(t, ref.Conv(n.Img, "raw", "do"), "nakedos", "do", ".do")
	case 7: // the symbol files: wrong size, name bits, addresses
		n, _ := nk.Source(t, real)
		f := byte(3 + t.Intn(2))
		ss := n.Sectors(f)
		switch t.Intn(3) {
		case 0:
			if len(ss) > 0 {
				*n.Owner(ss[t.Intn(len(ss))]) = []byte{0xff, 0xfe, 9, 7 - f}[t.Intn(4)]
			}
		case 1:
			if free := n.Sectors(0xff); len(free) > 0 {
				*n.Owner(free[t.Intn(len(free))]) = f
			}
		case 2:
			x := []byte{0xff, 0x1f, 0x1b, 0x3b, 0x7f, 0x80, 0x1a, 0x20}[t.Intn(8)]
			for _, s := range ss {
				b := ref.Sec(n.Img, s/16, s%16)
				for i := range b {
					if f == 4 || i%5 == 4 {
						b[i] = x
					}
				}
			}
		}
		probe(t, ref.Conv(n.Img, "raw", "po"), "nakedos", "po", ".po")
	case 8: // one owner
		n, _ := nk.Source(t, real)
		i := t.I / 14 % 560
		*n.Owner(i) = []byte{0, 0xff, 0xfe, 0xfd, 3, 4}[t.Intn(6)]
		probe(t, ref.Conv(n.Img, "raw", "do"), "nakedos", "do", ".do")
	case 9: // a directory that runs in a circle
		v := ref.BuildPro(t.Rand, ref.ProOpts{Blocks: 280, MaxDirs: 1 + t.Intn(4), MaxDepth: 3, MaxEnt: 8})
		d := v.Dirs[t.Intn(len(v.Dirs))]
		avoid := map[int]bool{}
		for _, x := range v.Dirs {
			for _, b := range x.Blocks {
				avoid[b] = true
			}
		}
		seq, back := rho(t, 6, 280, avoid)
		put16(ref.Blk(v.Img, d.Blocks[len(d.Blocks)-1])[2:], seq[0])
		for i, x := range seq {
			next := seq[back]
			if i+1 < len(seq) {
				next = seq[i+1]
			} else if t.Intn(3) == 0 {
				next = d.Blocks[0]
			}
			b := ref.Blk(v.Img, x)
			for k := range b {
				b[k] = 0
			}
			put16(b[2:], next)
		}
		probe(t, v.Img, "prodos", "po", ".po")
	case 10: // directories that contain each other
		v := ref.BuildPro(t.Rand, ref.ProOpts{Blocks: 280, MaxDirs: 2 + t.Intn(8), MaxDepth: 6, MaxEnt: 8, Chain: t.Intn(2) == 0, MultiDir: t.Intn(3) == 0})
		a, b := v.Dirs[t.Intn(len(v.Dirs))], v.Dirs[t.Intn(len(v.Dirs))]
		blk := a.Blocks[t.Intn(len(a.Blocks))]
		e := ref.Blk(v.Img, blk)[4+0x27*(1+t.Intn(12)):][:0x27]
		e[0] = 0xD0 | byte(1+t.Intn(15))
		put16(e[0x11:], b.Blocks[t.Intn(len(b.Blocks))])
		probe(t, v.Img, "prodos", "po", ".po")
	case 11: // parents that lead in a circle or nowhere
		v := ref.BuildPro(t.Rand, ref.ProOpts{Blocks: 280, MaxDirs: 2 + t.Intn(8), MaxDepth: 6, MaxEnt: 8, Chain: t.Intn(2) == 0, MultiDir: t.Intn(3) == 0})
		for k := 1 + t.Intn(2); k > 0; k-- {
			a, b := v.Dirs[t.Intn(len(v.Dirs))], v.Dirs[t.Intn(len(v.Dirs))]
			to := b.Blocks[t.Intn(len(b.Blocks))]
			if t.Intn(3) == 0 {
				to = []int{0, 1, 2, 3, 279, 280, 281, 65535}[t.Intn(8)]
			}
			put16(ref.Blk(v.Img, a.Blocks[0])[4+0x23:], to)
		}
		probe(t, v.Img, "prodos", "po", ".po")
	case 12: // one pointer, type or length
		blocks := []int{280, 280, 64 + t.Intn(300)}[t.Intn(3)]
		v := ref.BuildPro(t.Rand, ref.ProOpts{Blocks: blocks, MaxDirs: 1 + t.Intn(5), MaxDepth: 4, MaxEnt: 14})
		d := v.Dirs[t.Intn(len(v.Dirs))]
		b := ref.Blk(v.Img, d.Blocks[t.Intn(len(d.Blocks))])
		edge := []int{0, 1, 2, 3, blocks - 1, blocks, blocks + 1, 0x7fff, 0x8000, 0xffff}[t.Intn(10)]
		e := b[4+0x27*t.Intn(13):][:0x27]
		switch t.Intn(5) {
		case 0:
			put16(b[2:], edge)
		case 1:
			e[0] = 0xD0 | e[0]&15
			put16(e[0x11:], edge)
		case 2:
			e[0] = byte(t.Intn(256))
		case 3:
			b[4] = byte(t.Intn(256))
		case 4:
			put16(ref.Blk(v.Img, 2)[4+0x23:], edge)
		}
		if blocks == 280 {
			probe(t, v.Img, "prodos", "po", ".po")
		} else {
			probe(t, v.Img, "prodos", "po", ".hdv")
		}
	case 13: // volumes too small for their structures
		v := ref.BuildPro(t.Rand, ref.ProOpts{Blocks: 280, MaxDirs: 1 + t.Intn(5), MaxDepth: 4, MaxEnt: 14})
		n := t.I / 14 % 12
		if t.Intn(3) == 0 {
			n = t.Intn(280)
		}
		probe(t, append([]byte{}, v.Img[:n*512]...), "prodos", "po", ".hdv")
	}
}
