package ref

import (
	"fmt"
	"math/rand"
)

// ProEntry is an active directory entry.
type ProEntry struct {
	Name   string
	Type   byte
	Blocks int
	Length int
	Dir    *ProDir // non-nil for subdirectories
}

// ProDir is a directory.
type ProDir struct {
	Name    string
	Path    string
	Entries []ProEntry
	Blocks  []int
	// names of deleted entries, which must not resolve
	Gone []string
}

// ProVol is a generated ProDOS volume.
type ProVol struct {
	Img  []byte
	Root *ProDir
	Dirs []*ProDir // all directories, root first
	free []int
}

// ProOpts steers BuildPro.
type ProOpts struct {
	Blocks    int
	MaxDirs   int
	MaxDepth  int
	MaxEnt    int
	MultiDir  bool // favour directories of several blocks
	NoGarbage bool
	LongRoot  bool // a volume directory of more than four blocks
	Chain     bool // every directory has a subdirectory, as long as there is room
}

func (v *ProVol) take(r *rand.Rand) int {
	i := r.Intn(len(v.free))
	x := v.free[i]
	v.free[i] = v.free[len(v.free)-1]
	v.free = v.free[:len(v.free)-1]
	return x
}

// RandProName returns a legal ProDOS name.
func RandProName(r *rand.Rand) string {
	n := 1 + r.Intn(15)
	switch r.Intn(6) {
	case 0:
		n = 15
	case 1:
		n = 1
	}
	const a = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789."
	b := make([]byte, n)
	for i := range b {
		b[i] = a[r.Intn(len(a))]
	}
	b[0] = a[r.Intn(26)]
	return string(b)
}

func put16(b []byte, v int) { b[0], b[1] = byte(v), byte(v>>8) }

// BuildPro generates a well-formed ProDOS volume.
func BuildPro(r *rand.Rand, o ProOpts) *ProVol {
	v := &ProVol{Img: make([]byte, o.Blocks*512)}
	if !o.NoGarbage && r.Intn(2) == 0 {
		r.Read(v.Img)
	}
	max := o.Blocks
	if max > 65536 {
		max = 65536
	}
	nbm := (o.Blocks + 4095) / 4096
	bm := 6
	if r.Intn(3) == 0 && o.Blocks > 40 {
		bm = 3 + r.Intn(20)
	}
	lim := max
	if lim > 8000 {
		// spread over low, middle and high blocks
		for b := 3; b < 2000; b++ {
			v.free = append(v.free, b)
		}
		for b := 32000; b < 33000 && b < max; b++ {
			v.free = append(v.free, b)
		}
		for b := max - 600; b < max; b++ {
			if b > 33000 {
				v.free = append(v.free, b)
			}
		}
	} else {
		for b := 3; b < lim; b++ {
			v.free = append(v.free, b)
		}
	}
	keep := v.free[:0]
	for _, b := range v.free {
		if b < bm || b >= bm+nbm {
			keep = append(keep, b)
		}
	}
	v.free = keep
	v.Root = &ProDir{Name: RandProName(r)}
	v.Dirs = []*ProDir{v.Root}
	dirs := 1
	shared := []string{RandProName(r), RandProName(r)} // names reused in several directories
	// breadth first
	type job struct {
		d      *ProDir
		key    int
		parent int // block holding the entry
		pkey   int
		pent   int
		depth  int
	}
	queue := []job{{d: v.Root, key: 2}}
	for len(queue) > 0 {
		j := queue[0]
		queue = queue[1:]
		d := j.d
		n := r.Intn(o.MaxEnt + 1)
		if o.Chain && n == 0 {
			n = 1
		}
		switch r.Intn(6) {
		case 0:
			n = 12
		case 1:
			n = 13
		}
		if o.MultiDir && r.Intn(2) == 0 {
			n = 12 + r.Intn(60)
		}
		if o.LongRoot && j.key == 2 {
			n = 40 + r.Intn(60)
		}
		// slots include deleted ones
		slots := n + r.Intn(4)
		nb := 1
		if slots > 12 {
			nb += (slots - 12 + 12) / 13
		}
		if r.Intn(4) == 0 {
			nb++
		}
		if j.key == 2 && r.Intn(2) == 0 && nb < 4 {
			nb = 4
		}
		for nb > 1 && nb-1 > len(v.free)-4 {
			nb--
		}
		if capacity := 12 + 13*(nb-1); slots > capacity {
			slots = capacity
		}
		if n > slots {
			n = slots
		}
		d.Blocks = []int{j.key}
		for i := 1; i < nb; i++ {
			d.Blocks = append(d.Blocks, v.take(r))
		}
		for i, b := range d.Blocks {
			blk := Blk(v.Img, b)
			for k := range blk {
				blk[k] = 0
			}
			if i > 0 {
				put16(blk[0:], d.Blocks[i-1])
			}
			if i+1 < nb {
				put16(blk[2:], d.Blocks[i+1])
			}
		}
		// which slots are active
		act := make([]bool, 12+13*(nb-1))
		perm := r.Perm(slots)
		if r.Intn(2) == 0 { // compact
			for i := range perm {
				perm[i] = i
			}
		}
		for _, s := range perm[:n] {
			act[s] = true
		}
		used := map[string]bool{}
		chained := false
		for s := range act {
			bi, ei := 0, s+1
			if s >= 12 {
				bi, ei = 1+(s-12)/13, (s-12)%13
			}
			blkno := d.Blocks[bi]
			e := Blk(v.Img, blkno)[4+ei*0x27:][:0x27]
			if !act[s] {
				if s < slots && r.Intn(2) == 0 {
					// a deleted entry: storage type and name length 0 (or only
					// the type), the rest left behind
					r.Read(e)
					nm := RandProName(r)
					copy(e[1:16], nm)
					e[0] = 0
					if r.Intn(2) == 0 {
						e[0] = byte(len(nm))
					}
					if !used[nm] {
						d.Gone = append(d.Gone, nm)
					}
				}
				continue
			}
			var nm string
			for {
				nm = RandProName(r)
				if r.Intn(5) == 0 {
					nm = shared[r.Intn(2)]
				}
				if !used[nm] {
					break
				}
			}
			used[nm] = true
			r.Read(e)
			for k := 1; k < 16; k++ {
				e[k] = 0
			}
			copy(e[1:16], nm)
			pe := ProEntry{Name: nm, Type: byte(r.Intn(256)), Blocks: r.Intn(65536), Length: r.Intn(1 << 24)}
			if r.Intn(3) == 0 {
				pe.Blocks, pe.Length = r.Intn(300), r.Intn(70000)
			}
			st := []byte{1, 2, 3, 1, 2, 5}[r.Intn(6)]
			mk := dirs < o.MaxDirs && j.depth+1 < o.MaxDepth && len(v.free) > 12 && (r.Intn(3) == 0 && !o.Chain || o.Chain && !chained)
			chained = chained || mk
			if mk {
				dirs++
				st = 0xD
				pe.Type = 0x0F
				sub := &ProDir{Name: nm, Path: nm}
				if d.Path != "" {
					sub.Path = d.Path + "/" + nm
				}
				pe.Dir = sub
				v.Dirs = append(v.Dirs, sub)
				key := v.take(r)
				pent := ei + 1 // entry number within its block, from 1
				queue = append(queue, job{d: sub, key: key, parent: blkno, pkey: j.key, pent: pent, depth: j.depth + 1})
				put16(e[0x11:], key)
			}
			e[0] = st<<4 | byte(len(nm))
			e[0x10] = pe.Type
			put16(e[0x13:], pe.Blocks)
			e[0x15], e[0x16], e[0x17] = byte(pe.Length), byte(pe.Length>>8), byte(pe.Length>>16)
			put16(e[0x25:], j.key)
			d.Entries = append(d.Entries, pe)
		}
		// header
		h := Blk(v.Img, j.key)[4:][:0x27]
		r.Read(h[0x18:0x1f])
		copy(h[1:16], d.Name)
		h[0x1f], h[0x20] = 0x27, 0x0d
		put16(h[0x21:], len(d.Entries))
		if j.key == 2 {
			h[0] = 0xF0 | byte(len(d.Name))
			put16(h[0x23:], bm)
			tb := o.Blocks
			if tb > 65535 {
				tb = 65535
			}
			put16(h[0x25:], tb)
		} else {
			h[0] = 0xE0 | byte(len(d.Name))
			h[0x10] = 0x75
			// ProDOS stores the block that holds the entry; some tools store
			// the parent's key block
			pp := j.parent
			if r.Intn(4) == 0 {
				pp = j.pkey
			}
			put16(h[0x23:], pp)
			h[0x25] = byte(j.pent)
			h[0x26] = 0x27
		}
	}
	// bitmap
	for i := 0; i < nbm && bm+i < o.Blocks; i++ {
		b := Blk(v.Img, bm+i)
		for k := range b {
			b[k] = 0
		}
	}
	for _, x := range v.free {
		if bm+x/4096 < o.Blocks {
			Blk(v.Img, bm+x/4096)[(x%4096)/8] |= 0x80 >> uint(x%8)
		}
	}
	return v
}

// ByPath finds a directory.
func (v *ProVol) ByPath(p string) *ProDir {
	for _, d := range v.Dirs[1:] {
		if d.Path == p {
			return d
		}
	}
	return nil
}

// Describe summarises the volume.
func (v *ProVol) Describe() string {
	depth, ents := 0, 0
	for _, d := range v.Dirs {
		ents += len(d.Entries)
		k := 0
		for _, c := range d.Path {
			if c == '/' {
				k++
			}
		}
		if k > depth {
			depth = k
		}
	}
	return fmt.Sprintf("%d blocks, %d directories, %d entries, depth %d", len(v.Img)/512, len(v.Dirs), ents, depth+1)
}

// ParsePro reads the directory tree of a well-formed volume.
func ParsePro(img []byte) *ProVol {
	v := &ProVol{Img: img}
	var walk func(key int, d *ProDir)
	walk = func(key int, d *ProDir) {
		for b, first := key, true; b != 0 && len(d.Blocks) < 1000; first = false {
			blk := Blk(img, b)
			d.Blocks = append(d.Blocks, b)
			for e := 0; e < 13; e++ {
				if first && e == 0 {
					continue
				}
				x := blk[4+e*0x27:][:0x27]
				if x[0]>>4 == 0 {
					continue
				}
				n := int(x[0] & 15)
				pe := ProEntry{Name: string(x[1 : 1+n]), Type: x[0x10], Blocks: int(x[0x13]) | int(x[0x14])<<8, Length: int(x[0x15]) | int(x[0x16])<<8 | int(x[0x17])<<16}
				if x[0]>>4 == 0xd {
					pe.Dir = &ProDir{Name: pe.Name, Path: pe.Name}
					if d.Path != "" {
						pe.Dir.Path = d.Path + "/" + pe.Name
					}
					v.Dirs = append(v.Dirs, pe.Dir)
					walk(int(x[0x11])|int(x[0x12])<<8, pe.Dir)
				}
				d.Entries = append(d.Entries, pe)
			}
			b = int(blk[2]) | int(blk[3])<<8
		}
	}
	v.Root = &ProDir{}
	v.Dirs = []*ProDir{v.Root}
	walk(2, v.Root)
	return v
}
