package ref

import (
	"math/rand"
	"sort"
	"strings"
)

// DosEntry is a catalog entry of a generated DOS 3.3 disk and what reading it
// must give.
type DosEntry struct {
	Name    string // as displayed: high bits off, trailing blanks removed
	TypeByt byte   // including lock bit
	Count   uint16
	T, S    byte
	// expectation for GetFile
	Readable bool
	Data     []byte
	Start    uint16
	Stored   []byte // all stored sectors
}

// Locked tells whether the lock bit is set.
func (e DosEntry) Locked() bool { return e.TypeByt&0x80 != 0 }

// DosTypeCode is the documented ProDOS-compatible code for a DOS 3.3 file type.
func DosTypeCode(t byte) int {
	switch t & 0x7f {
	case 0x00:
		return 0x04
	case 0x01:
		return 0xFA
	case 0x02:
		return 0xFC
	case 0x04:
		return 0x06
	case 0x08:
		return 0x100
	case 0x10:
		return 0xFE
	case 0x20:
		return 0x101
	case 0x40:
		return 0x102
	}
	return -1
}

// DosTypes are the documented file type bytes.
var DosTypes = []byte{0, 1, 2, 4, 8, 0x10, 0x20, 0x40}

// DosOpts steers BuildDos.
type DosOpts struct {
	MaxEntries  int  // catalog entries wanted
	CatSectors  int  // 0: random
	Big         bool // include a file of more than 122 sectors
	Plain       bool // names without control characters
	NoFiles     bool // entries without contents (T/S list points at an empty list)
	Dups        bool // some entries have the same name
	StandardCat bool // catalog in track 17, sectors 15..1, as INIT lays it out
}

// DosDisk is a generated DOS 3.3 disk in DOS logical order.
type DosDisk struct {
	Img     []byte
	Live    []DosEntry
	Deleted []DosEntry
	free    []int // free sector numbers (t*16+s)
	Sectors int   // per track, as the VTOC says: 16, or 13
	CatPos  []int
}

func (d *DosDisk) take(r *rand.Rand) int {
	if len(d.free) == 0 {
		return -1
	}
	i := r.Intn(len(d.free))
	x := d.free[i]
	d.free[i] = d.free[len(d.free)-1]
	d.free = d.free[:len(d.free)-1]
	return x
}

// RandBytes returns n random bytes.
func RandBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

// WriteVTOC writes a valid VTOC.
func WriteVTOC(img []byte, catT, catS byte, vol byte, r *rand.Rand) []byte {
	v := Sec(img, 17, 0)
	for i := range v {
		v[i] = 0
	}
	v[0] = 4
	v[1], v[2] = catT, catS
	v[3] = 3
	v[6] = vol
	v[0x27] = 122
	v[0x30] = 0x11
	if r != nil {
		v[0] = byte(r.Intn(256))
		r.Read(v[4:6])
		r.Read(v[7:0x27])
		r.Read(v[0x28:0x30])
		r.Read(v[0x32:0x34])
		v[0x30] = byte(r.Intn(35))
	}
	v[0x31] = 1
	if r != nil && r.Intn(2) == 0 {
		v[0x31] = 0xff
	}
	v[0x34] = 35
	v[0x35] = 16
	v[0x36], v[0x37] = 0, 1
	return v
}

// RandDosName returns a 30-byte name field and its displayed form.
func RandDosName(r *rand.Rand, plain bool) ([30]byte, string) {
	var f [30]byte
	for i := range f {
		f[i] = 0xA0
	}
	n := 1 + r.Intn(30)
	switch r.Intn(8) {
	case 0:
		n = 30
	case 1:
		n = 29
	case 2:
		n = 1
	}
	const alpha = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 .-_/!\"#$%&'()*+;<=>?@[]^abcxyz~"
	for i := 0; i < n; i++ {
		f[i] = alpha[r.Intn(len(alpha))] | 0x80
		if !plain && r.Intn(12) == 0 {
			f[i] = 0x80 | byte(r.Intn(0x20))
		}
	}
	if r.Intn(3) > 0 || plain {
		f[0] = 'A' + byte(r.Intn(26)) | 0x80
	}
	b := make([]byte, 30)
	for i := range f {
		b[i] = f[i] & 0x7f
	}
	return f, strings.TrimRight(string(b), " ")
}

// BuildDos generates a well-formed DOS 3.3 disk.
func BuildDos(r *rand.Rand, o DosOpts) *DosDisk {
	d := &DosDisk{Img: make([]byte, DiskSize)}
	if r.Intn(2) == 0 {
		r.Read(d.Img) // stale data everywhere
	}
	d.Sectors = 16
	if !o.StandardCat && !o.Big && o.MaxEntries < 60 && r.Intn(12) == 0 {
		d.Sectors = 13
	}
	for t := 1; t < 35; t++ {
		for s := 0; s < d.Sectors; s++ {
			if t == 17 && (s == 0 || o.StandardCat) {
				continue
			}
			d.free = append(d.free, t*16+s)
		}
	}
	nEnt := o.MaxEntries
	if nEnt < 0 {
		nEnt = 0
	}
	nCat := o.CatSectors
	if nCat == 0 {
		nCat = 1 + r.Intn(20)
	}
	if (nEnt+6)/7 > nCat {
		nCat = (nEnt + 6) / 7
	}
	if nCat > len(d.free) {
		nCat = len(d.free)
	}
	if o.StandardCat {
		nCat = 15
		for s := 15; s >= 1; s-- {
			d.CatPos = append(d.CatPos, 17*16+s)
		}
	} else {
		for i := 0; i < nCat; i++ {
			d.CatPos = append(d.CatPos, d.take(r))
		}
	}
	vtoc := WriteVTOC(d.Img, byte(d.CatPos[0]/16), byte(d.CatPos[0]%16), byte(r.Intn(255)), r)
	vtoc[0x35] = byte(d.Sectors)
	for i, p := range d.CatPos {
		c := Sec(d.Img, p/16, p%16)
		r.Read(c)
		c[1], c[2] = 0, 0
		if i+1 < len(d.CatPos) {
			c[1], c[2] = byte(d.CatPos[i+1]/16), byte(d.CatPos[i+1]%16)
		}
		for k := 0; k < 7; k++ {
			e := c[0x0b+35*k:][:35]
			e[0] = 0 // never used
			if r.Intn(2) == 0 {
				for j := range e {
					e[j] = 0
				}
			}
		}
	}
	used := map[string]bool{}
	bigDone := !o.Big
	// used entries in order, on some disks with never-used ones between them
	slots := make([]int, 7*len(d.CatPos))
	for i := range slots {
		slots[i] = i
	}
	if nEnt > 0 && r.Intn(3) == 0 {
		slots = r.Perm(len(slots))[:nEnt]
		sort.Ints(slots)
	}
	for i := 0; i < nEnt; i++ {
		p := d.CatPos[slots[i]/7]
		e := Sec(d.Img, p/16, p%16)[0x0b+35*(slots[i]%7):][:35]
		for j := range e {
			e[j] = 0
		}
		var f [30]byte
		var name string
		for {
			f, name = RandDosName(r, o.Plain)
			if !used[name] {
				break
			}
		}
		if o.Dups && i > 0 && r.Intn(3) == 0 {
			// the name of an entry before
			q := slots[r.Intn(i)]
			p := d.CatPos[q/7]
			x := Sec(d.Img, p/16, p%16)[0x0b+35*(q%7):][:35]
			if x[0] != 0xff {
				copy(f[:], x[3:33])
				b := make([]byte, 30)
				for j := range f {
					b[j] = f[j] & 0x7f
				}
				name = strings.TrimRight(string(b), " ")
			}
		}
		ent := DosEntry{Name: name, TypeByt: DosTypes[r.Intn(8)], Count: uint16(r.Intn(600))}
		if r.Intn(3) == 0 {
			ent.TypeByt = DosTypes[r.Intn(4)]
		}
		if r.Intn(20) == 0 { // no documented type
			ent.TypeByt = []byte{3, 5, 6, 9, 0x0c, 0x11, 0x30, 0x60, 0x7f}[r.Intn(9)]
		}
		if r.Intn(3) == 0 {
			ent.TypeByt |= 0x80
		}
		if r.Intn(10) == 0 {
			ent.Count = uint16(r.Intn(65536))
		}
		big := !bigDone && i >= nEnt/2
		if big {
			bigDone = true
			ent.TypeByt = ent.TypeByt&0x80 | []byte{0, 4, 2, 1}[r.Intn(4)]
		}
		t, s, ok := d.storeFile(r, &ent, big, o.NoFiles)
		if !ok {
			break
		}
		ent.T, ent.S = t, s
		e[1], e[2] = s, ent.TypeByt
		copy(e[3:33], f[:])
		e[33], e[34] = byte(ent.Count), byte(ent.Count>>8)
		if !big && r.Intn(4) == 0 {
			// a deleted file
			e[0] = 0xff
			e[32] = t
			b := make([]byte, 29)
			for j := range b {
				b[j] = f[j] & 0x7f
			}
			ent.Name = strings.TrimRight(string(b), " ")
			d.Deleted = append(d.Deleted, ent)
			if r.Intn(2) == 0 && len(name) < 30 {
				used[name] = true // nobody live has this name
			}
			continue
		}
		e[0] = t
		used[name] = true
		d.Live = append(d.Live, ent)
	}
	// free-sector map
	fm := vtoc[0x38:]
	for i := range fm {
		fm[i] = 0
	}
	for _, x := range d.free {
		if x%16 >= 8 {
			fm[(x/16)*4] |= 1 << uint(x%16-8)
		} else {
			fm[(x/16)*4+1] |= 1 << uint(x%16)
		}
	}
	return d
}

// LiveByName returns the live entry with this name.
func (d *DosDisk) LiveByName(n string) *DosEntry {
	for i := range d.Live {
		if d.Live[i].Name == n {
			return &d.Live[i]
		}
	}
	return nil
}

// storeFile lays the contents of a file out on the disk and fills in what
// reading it must give.
func (d *DosDisk) storeFile(r *rand.Rand, e *DosEntry, big, none bool) (byte, byte, bool) {
	n := r.Intn(5)
	if r.Intn(6) == 0 {
		n = r.Intn(20)
	}
	if none {
		n = 0
	}
	if big {
		n = []int{121, 122, 123, 130, 200, 243, 244, 245}[r.Intn(8)]
	}
	nl := (n + 121) / 122
	if nl == 0 {
		nl = 1
	}
	if n+nl > len(d.free) {
		return 0, 0, false
	}
	// sector contents
	type slot struct{ pos int }
	slots := make([]slot, n)
	stored := make([]byte, 0, n*256)
	typ := e.TypeByt & 0x7f
	for i := range slots {
		sparse := i < n-1 && r.Intn(5) == 0 && !(i == 0 && typ != 0 && r.Intn(3) > 0)
		if sparse {
			slots[i].pos = 0
			stored = append(stored, make([]byte, 256)...)
			continue
		}
		if i > 1 && r.Intn(20) == 0 {
			// a sector listed before
			if k := 1 + r.Intn(i-1); slots[k].pos != 0 {
				slots[i].pos = slots[k].pos
				stored = append(stored, stored[256*k:256*k+256]...)
				continue
			}
		}
		slots[i].pos = d.take(r)
		b := RandBytes(r, 256)
		if typ == 0 {
			for j := range b {
				b[j] |= 0x80
				if r.Intn(40) == 0 {
					b[j] = 0
				}
			}
			switch r.Intn(5) {
			case 0:
				for j := r.Intn(256); j < 256; j++ {
					b[j] = 0
				}
			case 1:
				for j := range b {
					b[j] = 0
				}
			}
		}
		stored = append(stored, b...)
	}
	if n > 0 && len(d.free) > nl+1 && r.Intn(15) == 0 {
		// another list, all of it unallocated: the one before counts in full
		for n = nl * 122; len(slots) < n; {
			slots = append(slots, slot{})
			stored = append(stored, make([]byte, 256)...)
		}
		nl++
	}
	hdr := 0
	switch typ {
	case 1, 2:
		hdr = 2
	case 4:
		hdr = 4
	}
	if hdr > 0 {
		e.Readable = len(stored) >= hdr
		if e.Readable {
			max := len(stored) - hdr
			l := r.Intn(max + 1)
			switch r.Intn(5) {
			case 0:
				l = max
			case 1:
				l = 0
			case 2:
				if max > 255 {
					l = max - r.Intn(255)
				}
			}
			if l > 65535 {
				l = 65535
			}
			bad := 0
			if r.Intn(6) == 0 {
				bad = 1 + r.Intn(300)
				if r.Intn(2) == 0 {
					bad = 1
				}
				if max+bad > 65535 {
					bad = 0
				}
				if bad > 0 {
					l = max + bad
					if x := 65535 - r.Intn(6); x > max && r.Intn(4) == 0 {
						l = x
					}
				}
			}
			var h []byte
			if typ == 4 {
				a := uint16(r.Intn(65536))
				h = []byte{byte(a), byte(a >> 8)}
				e.Start = a
			}
			h = append(h, byte(l), byte(l>>8))
			if slots[0].pos != 0 {
				copy(stored, h)
			} else {
				// unallocated first sector: address and length are zero
				l, bad = 0, 0
				e.Start = 0
			}
			if bad > 0 {
				e.Readable = false
			} else {
				e.Data = append([]byte{}, stored[hdr:hdr+l]...)
			}
			if typ == 2 {
				e.Start = 0x801
			}
		}
	} else if typ == 0 {
		e.Readable = true
		end := len(stored)
		for end > 0 && stored[end-1] == 0 {
			end--
		}
		e.Data = append([]byte{}, stored[:end]...)
	}
	e.Stored = stored
	for i, sl := range slots {
		if sl.pos != 0 {
			copy(Sec(d.Img, sl.pos/16, sl.pos%16), stored[i*256:(i+1)*256])
		}
	}
	// track/sector lists
	oddOffsets := r.Intn(15) == 0 // the order of the lists is that of their links
	lists := make([]int, nl)
	for i := range lists {
		lists[i] = d.take(r)
	}
	for i, p := range lists {
		b := Sec(d.Img, p/16, p%16)
		r.Read(b[:0x0c])
		for j := 0x0c; j < 256; j++ {
			b[j] = 0
		}
		b[1], b[2] = 0, 0
		if i+1 < nl {
			b[1], b[2] = byte(lists[i+1]/16), byte(lists[i+1]%16)
		}
		b[5], b[6] = byte(i*122), byte((i*122)>>8)
		if oddOffsets {
			r.Read(b[5:7])
		}
		for j := 0; j < 122 && i*122+j < n; j++ {
			sp := slots[i*122+j].pos
			b[0x0c+2*j], b[0x0d+2*j] = byte(sp/16), byte(sp%16)
		}
	}
	return byte(lists[0] / 16), byte(lists[0] % 16), true
}

// ParseDosCatalog reads the catalog of a real disk (DOS logical order) the
// documented way: entries in chain order, without contents.
func ParseDosCatalog(img []byte) (live, deleted []DosEntry) {
	v := Sec(img, 17, 0)
	t, s := int(v[1]), int(v[2])
	for n := 0; (t != 0 || s != 0) && n < 560 && t < 35 && s < 16; n++ {
		c := Sec(img, t, s)
		for k := 0; k < 7; k++ {
			e := c[0x0b+35*k:][:35]
			if e[0] == 0 {
				continue
			}
			l := 30
			if e[0] == 0xff {
				l = 29
			}
			b := make([]byte, l)
			for j := range b {
				b[j] = e[3+j] & 0x7f
			}
			ent := DosEntry{Name: strings.TrimRight(string(b), " "), TypeByt: e[2], Count: uint16(e[33]) | uint16(e[34])<<8, T: e[0], S: e[1]}
			if e[0] == 0xff {
				ent.T = e[32]
				deleted = append(deleted, ent)
			} else {
				live = append(live, ent)
			}
		}
		t, s = int(c[1]), int(c[2])
	}
	return
}

// ReadDosFile reads a well-formed file of a real disk; ok is false if it
// cannot be interpreted.
func ReadDosFile(img []byte, e DosEntry) (data []byte, start uint16, ok bool) {
	var st []byte
	t, s := int(e.T), int(e.S)
	seen := map[int]bool{}
	for t != 0 || s != 0 {
		if t >= 35 || s >= 16 || seen[t*16+s] {
			return nil, 0, false
		}
		seen[t*16+s] = true
		l := Sec(img, t, s)
		nt, ns := int(l[1]), int(l[2])
		n := 122
		if nt == 0 && ns == 0 {
			for n > 0 && l[0x0c+2*n-2] == 0 && l[0x0c+2*n-1] == 0 {
				n--
			}
		}
		for j := 0; j < n; j++ {
			a, b := int(l[0x0c+2*j]), int(l[0x0d+2*j])
			if a >= 35 || b >= 16 {
				return nil, 0, false
			}
			if a == 0 && b == 0 {
				st = append(st, make([]byte, 256)...)
			} else {
				st = append(st, Sec(img, a, b)...)
			}
		}
		t, s = nt, ns
	}
	h := 0
	switch e.TypeByt & 0x7f {
	case 0:
		for len(st) > 0 && st[len(st)-1] == 0 {
			st = st[:len(st)-1]
		}
		return st, 0, true
	case 1:
		h = 2
	case 2:
		h, start = 2, 0x801
	case 4:
		h = 4
		if len(st) >= 2 {
			start = uint16(st[0]) | uint16(st[1])<<8
		}
	default:
		return nil, 0, false
	}
	if len(st) < h {
		return nil, 0, false
	}
	n := int(st[h-2]) | int(st[h-1])<<8
	if h+n > len(st) {
		return nil, 0, false
	}
	return st[h : h+n], start, true
}
