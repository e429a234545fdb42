// C08: the Super-Mon symbol table survives every change.
package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"verif/lib"
	"verif/nk"
	"verif/ref"
	"verif/vf"

	"github.com/zellyn/diskii/supermon"
	"github.com/zellyn/diskii/types"
)

var real = lib.Real()

func toAPI(st []ref.Sym) supermon.SymbolTable {
	r := make(supermon.SymbolTable, len(st))
	for i, s := range st {
		r[i] = supermon.Symbol{Address: s.Addr, Name: s.Name, Link: s.Link}
	}
	return r
}

func keys(m map[string]uint16) []string {
	var k []string
	for n := range m {
		k = append(k, n)
	}
	sort.Strings(k)
	return k
}

func lookups(t *vf.T, st supermon.SymbolTable, m *nk.Model, when string) {
	by := map[uint16]map[string]bool{}
	for n, a := range m.Syms {
		if by[a] == nil {
			by[a] = map[string]bool{}
		}
		by[a][n] = true
	}
	same := func(a uint16, ss []supermon.Symbol) {
		got := map[string]bool{}
		for _, s := range ss {
			t.Check(s.Address == a, "%s: symbol %s is listed under address %04X", when, s.Name, a)
			got[strings.ToUpper(s.Name)] = true
		}
		t.Check(len(got) == len(by[a]) && len(ss) == len(got), "%s: address %04X has the symbols %v, want %v", when, a, got, by[a])
		for n := range by[a] {
			t.Check(got[n], "%s: address %04X lacks the symbol %s", when, a, n)
		}
	}
	all := st.SymbolsByAddress()
	t.Check(len(all) == len(by), "%s: SymbolsByAddress has %d addresses, want %d", when, len(all), len(by))
	ks := keys(m.Syms)
	for i, n := range ks {
		if a := m.Syms[n]; len(ks) < 40 || t.Intn(len(ks)) < 30 || i == 0 {
			same(a, all[a])
			same(a, st.SymbolsForAddress(a))
		}
	}
	for _, n := range ks {
		if len(ks) > 40 && t.Intn(len(ks)) > 40 {
			continue
		}
		t.Check(st.ByName(n) == m.Syms[n], "%s: ByName(%s) = %04X, want %04X", when, n, st.ByName(n), m.Syms[n])
		t.Check(st.ByName(strings.ToLower(n)) == m.Syms[n], "%s: ByName(%s) = %04X, want %04X", when, strings.ToLower(n), st.ByName(strings.ToLower(n)), m.Syms[n])
	}
	t.Event("lookups compared", len(m.Syms))
}

// table runs a history of additions and deletions through the table API.
func table(t *vf.T) {
	src := ref.BuildNaked(t.Rand, ref.NakedOpts{Files: t.Intn(5), MaxSec: 2, FreeLeft: -1,
		Syms: []int{0, 3, 30, 100, 400, 700, 800}[t.Intn(7)], SlotsFul: t.Intn(12) == 0})
	if t.Intn(6) == 0 {
		for _, im := range real {
			if im.System == "nakedos" && t.Intn(2) == 0 {
				src = ref.Naked{Img: ref.Conv(im.Data, im.Order, "raw")}
				break
			}
		}
	}
	disk := append([]byte{}, src.Img...)
	m := nk.FromDisk(src)
	if m.Poor || m.Dup {
		return
	}
	sm, err := supermon.LoadSectorMap(disk)
	t.Check(err == nil, "LoadSectorMap: %v", err)
	st, err := sm.ReadSymbolTable(disk)
	t.Check(err == nil, "ReadSymbolTable: %v", err)
	pool := make([]string, 2+t.Intn(8))
	for i := range pool {
		pool[i] = ref.RandSymName(t.Rand)
	}
	classes := []uint16{0xDF10, 0xDF5F, 0xDFDF, 0x0001, 0x8080, 0xFFFF, 0x1234}
	n := 40 + t.Intn(40)
	maxLoad := 0
	for k := 0; k < n; k++ {
		name := pool[t.Intn(len(pool))]
		ks := keys(m.Syms)
		if t.Intn(3) == 0 && len(ks) > 0 {
			name = ks[t.Intn(len(ks))]
		}
		if t.Intn(10) == 0 {
			name = ref.RandSymName(t.Rand)
		}
		old, have := m.Syms[name]
		given := name
		if t.Intn(2) == 0 {
			given = strings.ToLower(name)
		}
		when := ""
		if t.Intn(5) < 2 {
			when = fmt.Sprintf("step %d: delete %s", k, given)
			t.Note("%s", when)
			got := st.DeleteSymbol(given)
			t.Check(got == have, "%s: reported %v, want %v", when, got, have)
			if have {
				delete(m.Syms, name)
				m.Used--
			}
			t.Event("deletions", 1)
		} else {
			a := uint16(1 + t.Intn(0xffff))
			switch t.Intn(5) {
			case 0:
				a = classes[t.Intn(len(classes))]
			case 1: // the class of the old definition
				if have {
					x := uint16(1+t.Intn(255)) * 0x0101
					if old^x != 0 {
						a = old ^ x
					}
				}
			case 2: // the class of some other symbol
				if len(ks) > 0 {
					x := m.Syms[ks[t.Intn(len(ks))]] ^ uint16(t.Intn(256))*0x0101
					if x != 0 {
						a = x
					}
				}
			case 3:
				if len(ks) > 0 { // exactly the address of another symbol
					a = m.Syms[ks[t.Intn(len(ks))]]
				}
			}
			when = fmt.Sprintf("step %d: %s = %04X", k, given, a)
			if have {
				when += fmt.Sprintf(" (was %04X)", old)
				t.Event("redefinitions", 1)
			}
			t.Note("%s", when)
			err := st.AddSymbol(given, a)
			if !have && m.Used >= ref.SymCount {
				t.Check(err != nil, "%s: accepted although the table is full", when)
				t.Event("full table refusals", 1)
			} else {
				t.Check(err == nil, "%s: %v (%d slots used)", when, err, m.Used)
				if !have {
					m.Used++
				}
				m.Syms[name] = a
				if m.Heads[ref.Hash(a)] == 0 {
					m.Heads[ref.Hash(a)] = 1
				}
				t.Event("additions", 1)
			}
		}
		if m.Used > maxLoad {
			maxLoad = m.Used
		}
		nk.CheckTable(t, m, nk.FromAPI(st), when+" (in memory)")
		if t.Intn(4) == 0 || k == n-1 {
			lookups(t, st, m, when)
			err := sm.WriteSymbolTable(disk, st)
			t.Check(err == nil, "%s: writing the table: %v", when, err)
			t.Check(sm.Persist(disk) == nil, "%s: Persist", when)
			onDisk, err := ref.Naked{Img: disk}.ReadSyms()
			t.Check(err == nil, "%s: the table on disk is not valid: %v", when, err)
			nk.CheckTable(t, m, onDisk, when+" (on disk)")
			sm2, err := supermon.LoadSectorMap(disk)
			t.Check(err == nil, "%s: LoadSectorMap: %v", when, err)
			st2, err := sm2.ReadSymbolTable(disk)
			t.Check(err == nil, "%s: reading the table back: %v", when, err)
			nk.CheckTable(t, m, nk.FromAPI(st2), when+" (read back)")
			lookups(t, st2, m, when+" (read back)")
			t.Event("tables written and read back", 1)
			if t.Intn(2) == 0 {
				sm, st = sm2, st2
			}
		}
	}
	t.Eval(n)
	t.Distinct(ref.Naked{Img: disk}.Read(3), ref.Naked{Img: disk}.Read(4))
	t.Sample("%d changes, up to %d symbols, %d at the end", n, maxLoad, len(m.Syms))
}

func randName(t *vf.T) string {
	n := 1 + t.Intn(12)
	b := make([]byte, n)
	for i := range b {
		switch t.Intn(6) {
		case 0, 1:
			b[i] = 'A' + byte(t.Intn(26))
		case 2, 3:
			b[i] = '0' + byte(t.Intn(10))
		case 4:
			b[i] = 'a' + byte(t.Intn(26))
		default:
			b[i] = byte(1 + t.Intn(126))
			if t.Intn(2) == 0 {
				b[i] = "@[`{/:-_. "[t.Intn(10)]
			}
		}
	}
	switch t.Intn(4) {
	case 3: // with a letter that is not ASCII, some of which have ASCII upper or lower cases
		s := ref.RandSymName(t.Rand)
		for k := 1 + t.Intn(2); k > 0; k-- {
			i := t.Intn(len(s) + 1)
			j := i + t.Intn(3)
			if j > len(s) {
				j = len(s)
			}
			s = s[:i] + []string{"\u0131", "\u017f", "\u212a", "\u00e9", "\u0130", "\xc1", "\u00df", "\uff21"}[t.Intn(8)] + s[j:]
		}
		return s
	case 0: // clean up
		for i := range b {
			if !('A' <= b[i] && b[i] <= 'Z' || '0' <= b[i] && b[i] <= '9') {
				b[i] = 'A' + b[i]%26
			}
		}
	case 1: // at the size limit: letters and digits adding up to about 48 bits
		for {
			n := 7 + t.Intn(4)
			b = make([]byte, n)
			bits := 0
			d := t.Intn(n + 1)
			for i, p := range t.Perm(n) {
				if i < d {
					b[p] = '0' + byte(t.Intn(10))
					bits += 6
				} else {
					b[p] = 'A' + byte(t.Intn(26))
					bits += 5
				}
			}
			if bits >= 44 && bits <= 53 {
				break
			}
		}
	}
	return string(b)
}

func main() {
	vf.Main(vf.Spec{ID: "C08",
		Rule:        "table: histories of 40-80 AddSymbol/DeleteSymbol calls from empty, sparse, dense, full and real tables, with names and hash classes that collide, the table being checked after every step in memory and repeatedly on disk (decoded independently) and after reading back, against a name->address map and the chain invariants; disk: the put/delete histories of C06 with the same monitor; names: valid and invalid names at every length and bit-size boundary through AddSymbol+WriteSymbolTable, ParseCompoundSymbol and PutFile. Distinct = distinct tables and names.",
		Assumptions: []string{"looking up a name with non-ASCII letters that fold to ASCII ones is not judged", "tables start with one chain per hash class (generated) or as on the real disks"},
		Require:     []string{"additions", "deletions", "redefinitions", "full table refusals", "tables written and read back", "symbols compared", "lookups compared", "names accepted", "names refused", "symbol tables compared"},
	}, func(s *vf.Suite) {
		s.Section("table", 900, 50000, table)
		s.Section("disk", 350, 12000, func(t *vf.T) {
			nk.History(t, real, nk.Facets{Symbols: true}, 30)
		})
		s.Section("names", 1000, 40000, func(t *vf.T) {
			src := ref.BuildNaked(t.Rand, ref.NakedOpts{Files: 2, MaxSec: 2, FreeLeft: -1, Syms: 3})
			for k := 0; k < 12; k++ {
				name := randName(t)
				if strings.Contains(name, ":") {
					name = strings.ReplaceAll(name, ":", "-")
				}
				valid := ref.ValidName(name)
				t.Event(map[bool]string{true: "names accepted", false: "names refused"}[valid], 1)
				t.Distinct(name)
				disk := append([]byte{}, src.Img...)
				sm, err := supermon.LoadSectorMap(disk)
				t.Check(err == nil, "LoadSectorMap: %v", err)
				st, err := sm.ReadSymbolTable(disk)
				t.Check(err == nil, "ReadSymbolTable: %v", err)
				m := nk.FromDisk(src)
				if _, have := m.Syms[strings.ToUpper(name)]; have {
					continue
				}
				a := uint16(1 + t.Intn(0xffff))
				err = st.AddSymbol(name, a)
				if err == nil {
					err = sm.WriteSymbolTable(disk, st)
				}
				if !valid {
					t.Check(err != nil, "the illegal name %q was accepted", name)
					t.Check(bytes.Equal(disk, src.Img), "the illegal name %q was refused, but the disk changed", name)
				} else {
					t.Check(err == nil, "the legal name %q was refused: %v", name, err)
					on, err := ref.Naked{Img: disk}.ReadSyms()
					t.Check(err == nil, "table with %q: %v", name, err)
					t.Check(ref.SymMap(on)[strings.ToUpper(name)] == a, "symbol %q = %04X does not read back", name, a)
					st2, err := sm.ReadSymbolTable(disk)
					t.Check(err == nil, "table with %q does not read back: %v", name, err)
					found := false
					for _, s := range st2 {
						if s.Address != 0 && s.Name == strings.ToUpper(name) && s.Address == a {
							found = true
						}
					}
					t.Check(found, "symbol %q = %04X does not read back under that name", name, a)
				}
				// NUMBER:NAME in its two forms
				_, _, sym, err := st.ParseCompoundSymbol("1234:" + name)
				t.Check((err == nil) == valid, "ParseCompoundSymbol(1234:%s): %v, but the name is valid=%v", name, err, valid)
				if err == nil {
					t.Check(strings.EqualFold(sym, name), "ParseCompoundSymbol(1234:%s) gives the symbol %q", name, sym)
				}
				if ref.FileNumber(name) != 0 {
					continue
				}
				op, _, err := lib.Open(ref.Conv(src.Img, "raw", "do"), "x.do", "auto", "nakedos")
				t.Check(err == nil, "%v", err)
				_, err = op.PutFile(types.FileInfo{Descriptor: types.Descriptor{Name: "DF77:" + name, Length: 3, Type: types.FiletypeBinary}, Data: []byte{1, 2, 3}}, true)
				t.Check((err == nil) == valid, "put DF77:%s: %v, but the name is valid=%v", name, err, valid)
			}
			t.Sample("12 names tried")
		})
	})
}
