package ref

import (
	"fmt"
	"math/rand"
	"sort"
	"strconv"
	"strings"
)

// Naked is a NakedOS disk in physical sector order, parsed from raw bytes.
type Naked struct {
	Img []byte
}

// Owner returns a pointer to the sector map byte of a sector (t*16+s).
func (n Naked) Owner(i int) *byte {
	if i < 0x30 {
		return &Sec(n.Img, 0, 9)[0xd0+i]
	}
	if i < 0x130 {
		return &Sec(n.Img, 0, 0xA)[i-0x30]
	}
	return &Sec(n.Img, 0, 0xB)[i-0x130]
}

// Map returns the 560-byte sector map.
func (n Naked) Map() []byte {
	m := make([]byte, 560)
	for i := range m {
		m[i] = *n.Owner(i)
	}
	return m
}

// Sectors returns the sectors of a file in order.
func (n Naked) Sectors(file byte) []int {
	var r []int
	for i := 0; i < 560; i++ {
		if *n.Owner(i) == file {
			r = append(r, i)
		}
	}
	return r
}

// Read returns the contents of a file.
func (n Naked) Read(file byte) []byte {
	var b []byte
	for _, s := range n.Sectors(file) {
		b = append(b, Sec(n.Img, s/16, s%16)...)
	}
	return b
}

// Free counts free sectors.
func (n Naked) Free() int { return len(n.Sectors(0xff)) }

// Sym is a symbol table entry.
type Sym struct {
	Addr uint16
	Name string
	Link int // slot, or -1
}

// SymCount is the number of slots of the symbol table.
const SymCount = 819

// DecodeName decodes a six-byte symbol name.
func DecodeName(six []byte) string {
	var v uint64
	for i := 5; i >= 0; i-- {
		v = v<<8 | uint64(six[i])
	}
	s := ""
	for {
		c := v & 31
		if c == 0 {
			return s
		}
		if c <= 26 {
			s += string(rune('A' + c - 1))
			v >>= 5
		} else {
			d := c - 27
			if v&32 != 0 {
				d += 5
			}
			s += string(rune('0' + d))
			v >>= 6
		}
	}
}

// EncodeName encodes a symbol name; ok is false if it is not a legal name.
func EncodeName(name string) (six [6]byte, ok bool) {
	if len(name) < 3 || len(name) > 9 {
		return six, false
	}
	var v uint64
	bits := uint(0)
	for _, ch := range []byte(strings.ToUpper(name)) {
		switch {
		case ch >= 'A' && ch <= 'Z':
			v |= uint64(ch-'A'+1) << bits
			bits += 5
		case ch >= '0' && ch <= '4':
			v |= uint64(27+ch-'0') << bits
			bits += 6
		case ch >= '5' && ch <= '9':
			v |= uint64(32+27+ch-'5') << bits
			bits += 6
		default:
			return six, false
		}
	}
	if bits > 48 {
		return six, false
	}
	for i := range six {
		six[i] = byte(v >> (8 * uint(i)))
	}
	return six, true
}

// ValidName tells whether a name is a legal ASCII symbol name.
func ValidName(name string) bool {
	for i := 0; i < len(name); i++ {
		if name[i] >= 0x80 {
			return false
		}
	}
	_, ok := EncodeName(name)
	return ok
}

// Hash is Super-Mon's hash of an address.
func Hash(a uint16) int { return int((a ^ a>>8) & 0x7f) }

// ReadSyms parses the symbol table; error if it is not a valid one.
func (n Naked) ReadSyms() ([]Sym, error) {
	a, b := n.Read(3), n.Read(4)
	if len(a) != 4096 || len(b) != 4096 {
		return nil, fmt.Errorf("symbol table files have %d and %d bytes", len(a), len(b))
	}
	st := make([]Sym, SymCount)
	for i := range st {
		x := a[5*i : 5*i+5]
		y := b[5*i : 5*i+5]
		st[i].Link = -1
		st[i].Addr = uint16(x[0]) | uint16(x[1])<<8
		if st[i].Addr == 0 {
			continue
		}
		l := int(x[2]) | int(x[3])<<8
		if l != 0 {
			if l < 0xD000 || (l-0xD000)%5 != 0 || (l-0xD000)/5 >= SymCount {
				return nil, fmt.Errorf("slot %d has link %04X", i, l)
			}
			st[i].Link = (l - 0xD000) / 5
		}
		st[i].Name = DecodeName(append(append([]byte{}, y...), x[4]))
	}
	return st, nil
}

// CheckChains verifies that every link leads to a used slot of the same hash
// class, that no slot has two predecessors and that there are no cycles. It
// returns the number of chains per hash class.
func CheckChains(st []Sym) (map[int]int, error) {
	pred := make([]int, len(st))
	for i := range pred {
		pred[i] = -1
	}
	for i, s := range st {
		if s.Addr == 0 || s.Link == -1 {
			continue
		}
		l := st[s.Link]
		if l.Addr == 0 {
			return nil, fmt.Errorf("slot %d (%s) links to the empty slot %d", i, s.Name, s.Link)
		}
		if Hash(l.Addr) != Hash(s.Addr) {
			return nil, fmt.Errorf("slot %d (%s, hash %02X) links to slot %d (%s, hash %02X)", i, s.Name, Hash(s.Addr), s.Link, l.Name, Hash(l.Addr))
		}
		if pred[s.Link] != -1 {
			return nil, fmt.Errorf("slots %d and %d both link to slot %d", pred[s.Link], i, s.Link)
		}
		pred[s.Link] = i
	}
	heads := map[int]int{}
	reached := make([]bool, len(st))
	for i, s := range st {
		if s.Addr == 0 || pred[i] != -1 {
			continue
		}
		heads[Hash(s.Addr)]++
		for j := i; j != -1; j = st[j].Link {
			reached[j] = true
		}
	}
	for i, s := range st {
		if s.Addr != 0 && !reached[i] {
			return nil, fmt.Errorf("slot %d (%s) is in a cycle", i, s.Name)
		}
	}
	return heads, nil
}

// SymMap returns the symbols as upper-case name -> address.
func SymMap(st []Sym) map[string]uint16 {
	m := map[string]uint16{}
	for _, s := range st {
		if s.Addr != 0 {
			if _, dup := m[strings.ToUpper(s.Name)]; !dup {
				m[strings.ToUpper(s.Name)] = s.Addr
			}
		}
	}
	return m
}

// WriteSyms stores a symbol table in files 3 and 4 of the image.
func (n Naked) WriteSyms(st []Sym) {
	a, b := make([]byte, 4096), make([]byte, 4096)
	for i, s := range st {
		if s.Addr == 0 {
			continue
		}
		six, ok := EncodeName(s.Name)
		if !ok {
			panic("ref: bad symbol " + s.Name)
		}
		put16(a[5*i:], int(s.Addr))
		if s.Link != -1 {
			put16(a[5*i+2:], 0xD000+5*s.Link)
		}
		a[5*i+4] = six[5]
		copy(b[5*i:5*i+5], six[:5])
	}
	n.store(3, a)
	n.store(4, b)
}

func (n Naked) store(f byte, b []byte) {
	for i, s := range n.Sectors(f) {
		copy(Sec(n.Img, s/16, s%16), b[i*256:(i+1)*256])
	}
}

// RandSymName returns a legal symbol name that is not a file number.
func RandSymName(r *rand.Rand) string {
	for {
		n := 3 + r.Intn(7)
		b := make([]byte, n)
		for i := range b {
			if r.Intn(4) == 0 {
				b[i] = '0' + byte(r.Intn(10))
			} else {
				b[i] = 'A' + byte(r.Intn(26))
			}
		}
		s := string(b)
		if ValidName(s) && FileNumber(s) == 0 {
			return s
		}
	}
}

// FileNumber parses a NakedOS file number (hex, xx or DFxx); 0 if it is none.
func FileNumber(s string) byte {
	v, err := strconv.ParseUint(s, 16, 16)
	if err != nil {
		return 0
	}
	if v >= 0xDF01 && v <= 0xDFFD {
		return byte(v)
	}
	if v >= 1 && v <= 0xFD {
		return byte(v)
	}
	return 0
}

// NakedOpts steers BuildNaked.
type NakedOpts struct {
	NoSyms   bool
	Files    int
	MaxSec   int
	FreeLeft int // if >= 0, fill the disk until this many free sectors remain
	Syms     int // extra symbols that are not file names
	SlotsFul bool
}

// BuildNaked generates a NakedOS disk in physical order.
func BuildNaked(r *rand.Rand, o NakedOpts) Naked {
	n := Naked{Img: make([]byte, DiskSize)}
	r.Read(n.Img)
	for i := 0; i < 560; i++ {
		*n.Owner(i) = 0xff
	}
	for i := 0; i < 12; i++ {
		*n.Owner(i) = 0xfe
	}
	for i := 12; i < 16; i++ {
		if r.Intn(2) == 0 {
			*n.Owner(i) = 0xfe
		}
	}
	// some further reserved sectors
	for k := r.Intn(6); k > 0; k-- {
		*n.Owner(16 + r.Intn(544)) = 0xfe
	}
	takeN := func(f byte, k int) bool {
		fr := n.Sectors(0xff)
		if len(fr) < k {
			return false
		}
		for _, i := range r.Perm(len(fr))[:k] {
			*n.Owner(fr[i]) = f
		}
		return true
	}
	if !o.NoSyms {
		takeN(3, 16)
		takeN(4, 16)
	}
	nums := r.Perm(0xfd)
	cnt := 0
	for _, x := range nums {
		f := byte(x + 1)
		if f == 3 || f == 4 {
			continue
		}
		if cnt >= o.Files {
			break
		}
		k := 1 + r.Intn(o.MaxSec)
		if n.Free() <= k+4 {
			break
		}
		takeN(f, k)
		cnt++
	}
	if o.FreeLeft >= 0 {
		// one big file takes the rest
		for f := byte(0x80); f < 0xfe; f++ {
			if len(n.Sectors(f)) == 0 {
				if k := n.Free() - o.FreeLeft; k > 0 {
					takeN(f, k)
				}
				break
			}
		}
	}
	if !o.NoSyms {
		st := RandSyms(r, n, o)
		n.WriteSyms(st)
		if r.Intn(4) == 0 { // unused entries hold what was there before
			a, b := n.Read(3), n.Read(4)
			for i, s := range st {
				if s.Addr == 0 && r.Intn(2) == 0 {
					copy(a[5*i+2:5*i+5], RandBytes(r, 3))
					copy(b[5*i:5*i+5], RandBytes(r, 5))
					if r.Intn(2) == 0 { // a link that was proper once
						put16(a[5*i+2:], 0xD000+5*r.Intn(SymCount))
					}
				}
			}
			n.store(3, a)
			n.store(4, b)
		}
	}
	return n
}

// RandSyms makes a symbol table with one chain per hash class.
func RandSyms(r *rand.Rand, n Naked, o NakedOpts) []Sym {
	st := make([]Sym, SymCount)
	for i := range st {
		st[i].Link = -1
	}
	names := map[string]bool{}
	slot := func() int {
		for k := 0; k < 50; k++ {
			i := r.Intn(SymCount)
			if r.Intn(3) == 0 {
				i = r.Intn(10)
			}
			if st[i].Addr == 0 {
				return i
			}
		}
		for i := range st {
			if st[i].Addr == 0 {
				return i
			}
		}
		return -1
	}
	tail := map[int]int{}
	add := func(a uint16) {
		i := slot()
		if i < 0 {
			return
		}
		nm := RandSymName(r)
		for names[nm] {
			nm = RandSymName(r)
		}
		names[nm] = true
		st[i] = Sym{Addr: a, Name: nm, Link: -1}
		h := Hash(a)
		if t, ok := tail[h]; ok {
			if r.Intn(2) == 0 {
				st[t].Link = i
				tail[h] = i
			} else {
				// in front: find the head
				head := t
				for {
					p := -1
					for j := range st {
						if st[j].Addr != 0 && st[j].Link == head {
							p = j
						}
					}
					if p == -1 {
						break
					}
					head = p
				}
				st[i].Link = head
			}
		} else {
			tail[h] = i
		}
	}
	var files []int
	m := n.Map()
	seen := map[byte]bool{}
	for _, f := range m {
		if f > 0 && f < 0xfe && !seen[f] {
			seen[f] = true
			files = append(files, int(f))
		}
	}
	sort.Ints(files)
	for _, f := range files {
		if f == 3 || f == 4 || r.Intn(3) > 0 {
			add(0xDF00 | uint16(f))
		}
		if r.Intn(10) == 0 && f != 3 && f != 4 {
			add(0xDF00 | uint16(f)) // an alias
		}
	}
	for k := 0; k < o.Syms; k++ {
		a := uint16(1 + r.Intn(0xffff))
		switch r.Intn(4) {
		case 0:
			a = 0xDF00 | uint16(1+r.Intn(0xfd)) // a stale file name
		case 1:
			if len(files) > 0 { // collide with a file's hash class
				a = 0xDF00 | uint16(files[r.Intn(len(files))])
				a ^= uint16(1+r.Intn(255)) * 0x0101
				if a == 0 {
					a = 0x1234
				}
			}
		}
		if a>>8 == 0xDF && (a&0xff == 3 || a&0xff == 4) {
			a = 0x1111
		}
		add(a)
	}
	if r.Intn(3) == 0 && !names["FHELLO"] { // FHELLO names something other than file 1
		var live []int
		for i := range st {
			if st[i].Addr>>8 == 0xDF && st[i].Addr&0xff != 3 && st[i].Addr&0xff != 4 || st[i].Addr != 0 && r.Intn(40) == 0 {
				live = append(live, i)
			}
		}
		if len(live) > 0 {
			i := live[r.Intn(len(live))]
			delete(names, st[i].Name)
			st[i].Name = "FHELLO"
			names["FHELLO"] = true
		}
	}
	if o.SlotsFul {
		for slot() >= 0 {
			a := uint16(1 + r.Intn(0xDEFF))
			add(a)
		}
	}
	return st
}
