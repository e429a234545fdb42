// Package nk drives histories of puts and deletes on NakedOS disks and monitors
// them against a model of the file store and of the symbol table.
package nk

import (
	"bytes"
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"verif/lib"
	"verif/ref"
	"verif/vf"

	"github.com/zellyn/diskii/errors"
	"github.com/zellyn/diskii/supermon"
	"github.com/zellyn/diskii/types"
)

// Model is the abstract state of a disk.
type Model struct {
	Files  map[byte][]byte   // contents, padded to sectors; files 3 and 4 excluded
	Syms   map[string]uint16 // upper-case name -> address
	HasST  bool
	Used   int // used symbol slots
	Free   int
	Heads  map[int]int // chains per hash class allowed
	Poor   bool        // the table holds names that cannot be re-encoded: no symbol changes
	Dup    bool
	Sizes3 [2]int
}

// FromDisk derives the model from the raw bytes.
func FromDisk(n ref.Naked) *Model {
	m := &Model{Files: map[byte][]byte{}, Syms: map[string]uint16{}}
	for f := 1; f < 0xfe; f++ {
		b := n.Read(byte(f))
		if len(b) > 0 && f != 3 && f != 4 {
			m.Files[byte(f)] = b
		}
	}
	m.Free = n.Free()
	st, err := n.ReadSyms()
	if err == nil {
		m.HasST = true
		m.Syms = ref.SymMap(st)
		for _, s := range st {
			if s.Addr == 0 {
				continue
			}
			m.Used++
			if !ref.ValidName(s.Name) {
				m.Poor = true
			}
		}
		m.Dup = m.Used != len(m.Syms)
		h, err := ref.CheckChains(st)
		if err != nil {
			m.Poor = true
		}
		m.Heads = h
	}
	return m
}

// Resolve returns the file a name refers to, and whether by symbol.
func (m *Model) Resolve(name string) (byte, bool) {
	if f := ref.FileNumber(name); f != 0 {
		return f, false
	}
	a, ok := m.Syms[strings.ToUpper(name)]
	if ok && a > 0xDF00 && a < 0xDFFE {
		return byte(a), true
	}
	return 0, false
}

// Op is an operation.
type Op struct {
	Del   bool
	Name  string
	Data  []byte
	Over  bool
	Type  types.Filetype
	Delta int // lie about the length
}

func (o Op) String() string {
	if o.Del {
		return fmt.Sprintf("delete %q", o.Name)
	}
	s := fmt.Sprintf("put %q %d bytes overwrite=%v", o.Name, len(o.Data), o.Over)
	if o.Type != types.FiletypeBinary {
		s += fmt.Sprintf(" type %d", int(o.Type))
	}
	if o.Delta != 0 {
		s += fmt.Sprintf(" length off by %d", o.Delta)
	}
	return s
}

// Effect is what an operation must do.
type Effect struct {
	Refuse  bool
	Why     string
	Existed bool
	File    byte   // target; 0: any file number not in use
	Sym     string // symbol set to (put) or removed (delete)
	SymSet  bool
	Stale   bool // deletion of a name without a file: the symbol may go or stay
	Skip    bool
}

func (m *Model) symbolChangeOK(name string) bool {
	if m.Poor {
		return false
	}
	_, have := m.Syms[strings.ToUpper(name)]
	return have || m.Used < ref.SymCount
}

// Predict tells what an operation must do; Skip if the model does not say.
func (m *Model) Predict(o Op) Effect {
	if o.Del {
		f, bySym := m.Resolve(o.Name)
		if f == 3 || f == 4 {
			return Effect{Skip: true}
		}
		if f == 0 {
			return Effect{Existed: false}
		}
		_, ex := m.Files[f]
		e := Effect{Existed: ex, File: f}
		if bySym {
			if m.Poor {
				return Effect{Skip: true}
			}
			e.Sym = strings.ToUpper(o.Name)
			e.Stale = !ex
		}
		return e
	}
	if o.Type != types.FiletypeBinary {
		return Effect{Refuse: true, Why: "type"}
	}
	if o.Delta != 0 {
		return Effect{Refuse: true, Why: "length"}
	}
	var e Effect
	parts := strings.Split(o.Name, ":")
	switch {
	case len(parts) > 2:
		return Effect{Refuse: true, Why: "name"}
	case len(parts) == 2:
		e.File = ref.FileNumber(parts[0])
		if e.File == 0 {
			return Effect{Refuse: true, Why: "name"}
		}
		if parts[1] == "" {
			return Effect{Skip: true}
		}
		if ref.FileNumber(parts[1]) != 0 || !ref.ValidName(parts[1]) {
			return Effect{Refuse: true, Why: "name"}
		}
		if !m.HasST {
			return Effect{Refuse: true, Why: "name"}
		}
		e.Sym = strings.ToUpper(parts[1])
	default:
		if o.Name == "" {
			return Effect{Skip: true}
		}
		f, bySym := m.Resolve(o.Name)
		e.File = f
		if bySym || f == 0 {
			if !ref.ValidName(o.Name) || !m.HasST {
				return Effect{Refuse: true, Why: "name"}
			}
			e.Sym = strings.ToUpper(o.Name)
		}
	}
	if e.File == 3 || e.File == 4 {
		return Effect{Skip: true}
	}
	if e.File == 0 && len(m.Files) >= 0xfd-2 {
		return Effect{Refuse: true, Why: "numbers"}
	}
	if e.Sym != "" && e.File != 0 {
		e.SymSet = m.Syms[e.Sym] != 0xDF00|uint16(e.File)
	} else {
		e.SymSet = e.Sym != ""
	}
	if len(o.Data) == 0 {
		return Effect{Refuse: true, Why: "empty"}
	}
	old, ex := m.Files[e.File]
	e.Existed = ex
	need := (len(o.Data) + 255) / 256
	if ex && !o.Over {
		e.Refuse, e.Why = true, "exists"
		return e
	}
	if need > m.Free+len(old)/256 {
		e.Refuse, e.Why = true, "space"
		return e
	}
	if e.SymSet && !m.symbolChangeOK(e.Sym) {
		if m.Poor {
			return Effect{Skip: true}
		}
		e.Refuse, e.Why = true, "symbols"
	}
	return e
}

// Apply updates the model; file is the number actually used.
func (m *Model) Apply(o Op, e Effect, file byte, symGone bool) {
	if e.Refuse {
		return
	}
	if o.Del {
		if b, ok := m.Files[e.File]; ok {
			m.Free += len(b) / 256
			delete(m.Files, e.File)
		}
		if e.Sym != "" && symGone {
			delete(m.Syms, e.Sym)
			m.Used--
		}
		return
	}
	m.Free += len(m.Files[file]) / 256
	b := make([]byte, (len(o.Data)+255)/256*256)
	copy(b, o.Data)
	m.Files[file] = b
	m.Free -= len(b) / 256
	if e.SymSet {
		if _, have := m.Syms[e.Sym]; !have {
			m.Used++
		}
		a := 0xDF00 | uint16(file)
		m.Syms[e.Sym] = a
		if m.Heads != nil && m.Heads[ref.Hash(a)] == 0 {
			m.Heads[ref.Hash(a)] = 1
		}
	}
}

func mixCase(r *rand.Rand, s string) string {
	b := []byte(s)
	switch r.Intn(3) {
	case 0:
		return strings.ToLower(s)
	case 1:
		for i := range b {
			if r.Intn(2) == 0 {
				b[i] = strings.ToLower(string(b[i]))[0]
			}
		}
	}
	return string(b)
}

func (m *Model) anyFile(r *rand.Rand) byte {
	var fs []int
	for f := range m.Files {
		fs = append(fs, int(f))
	}
	if len(fs) == 0 {
		return byte(5 + r.Intn(200))
	}
	sort.Ints(fs)
	return byte(fs[r.Intn(len(fs))])
}

func (m *Model) anySym(r *rand.Rand, filesOnly bool) string {
	var ns []string
	for n, a := range m.Syms {
		if filesOnly && (a <= 0xDF00 || a >= 0xDFFE || a == 0xDF03 || a == 0xDF04) {
			continue
		}
		if a == 0xDF03 || a == 0xDF04 || ref.FileNumber(n) != 0 {
			continue
		}
		ns = append(ns, n)
	}
	if len(ns) == 0 {
		return ref.RandSymName(r)
	}
	sort.Strings(ns)
	return ns[r.Intn(len(ns))]
}

func number(r *rand.Rand, f byte) string {
	switch r.Intn(4) {
	case 0:
		return fmt.Sprintf("%X", f)
	case 1:
		return fmt.Sprintf("df%02x", f)
	case 2:
		return fmt.Sprintf("%02X", f)
	}
	return fmt.Sprintf("DF%02X", f)
}

// newNum returns a file number that is not in use, mostly.
func (m *Model) newNum(r *rand.Rand) byte {
	for i := 0; i < 20; i++ {
		f := byte(1 + r.Intn(0xfd))
		switch r.Intn(8) {
		case 0:
			f = 0x5F
		case 1:
			f = 0xDF
		case 2:
			f = 0xFD
		case 3:
			f = 1
		}
		if f == 3 || f == 4 {
			continue
		}
		if _, ok := m.Files[f]; !ok {
			return f
		}
	}
	return 0x77
}

// Gen makes an operation.
func (m *Model) Gen(r *rand.Rand, pool []string) Op {
	o := Op{Type: types.FiletypeBinary}
	target := byte(0)
	pick := func() string { // a name for the target
		if m.HasST && r.Intn(3) == 0 {
			s := m.anySym(r, r.Intn(5) > 0)
			return mixCase(r, s)
		}
		return number(r, m.anyFile(r))
	}
	if len(m.Files) >= 246 && r.Intn(2) == 0 { // use up the last numbers, or free the highest
		if r.Intn(6) == 0 {
			o.Del = true
			o.Name = number(r, byte(0xfd-r.Intn(3)))
			return o
		}
		o.Name = ref.RandSymName(r)
		o.Data = ref.RandBytes(r, 1+r.Intn(256))
		return o
	}
	if r.Intn(3) == 0 {
		o.Del = true
		switch r.Intn(8) {
		case 0: // absent
			o.Name = ref.RandSymName(r)
			if r.Intn(2) == 0 { // nothing can have such a name
				o.Name = []string{"A", "AB", "TOOLONGNAME", "ABCDEFGHIJKLMNOPQRSTUVWXYZ", "NO SUCH FILE", "FOO.BAR", "Q*7", "DF00", "DFFE", "DFFF", "FE", "FF", "0", "100", "10005", "1DF05", "DF0G", "XYZZY1234567", "*", "?", ".", "/"}[r.Intn(22)]
			}
		case 1:
			o.Name = number(r, m.newNum(r))
		case 2:
			o.Name = mixCase(r, pool[r.Intn(len(pool))])
		default:
			o.Name = pick()
		}
		return o
	}
	switch r.Intn(14) {
	case 0, 1: // new number
		o.Name = number(r, m.newNum(r))
	case 2, 3: // a name of the pool: new or existing
		o.Name = mixCase(r, pool[r.Intn(len(pool))])
	case 4, 5: // number and name
		o.Name = number(r, m.newNum(r)) + ":" + mixCase(r, pool[r.Intn(len(pool))])
	case 6: // existing number, pool name
		o.Name = number(r, m.anyFile(r)) + ":" + mixCase(r, pool[r.Intn(len(pool))])
	case 7: // existing or new number, any symbol
		f := m.anyFile(r)
		if r.Intn(2) == 0 {
			f = m.newNum(r)
		}
		o.Name = number(r, f) + ":" + mixCase(r, m.anySym(r, false))
	case 8:
		o.Name = ref.RandSymName(r)
	case 9: // invalid in some way
		o.Name = []string{"AB", "A", "TOOLONGNAME", "A-B", "FOO.BAR", "FOO BAR", "1:2:3", "XX:FOO", "0:FOO", "FE:FOOBAR", "DFFE:FOOBAR", "FF:FOOBAR", "5:AB", "5:A*B", "5:DF06", "5:0A", ":FOO", "DF1G:FOO",
			"123456789", "5:123456789", "A12345678", "6:QQQQQQQQQQ", "7:F\xc9OO", "FO\x00O", "5:X_Y",
			"\u0131Q7X", "8:Q\u0131Q7", "\u017fA", "9:\u017fA", "Q7\u017fW", "\u212aAB", "a:\u00e9cran"}[r.Intn(32)]
	default:
		o.Name = pick()
	}
	if r.Intn(6) == 0 { // a very large file, if there is one
		for f := 1; f < 0xfe; f++ {
			if len(m.Files[byte(f)]) >= 255*256 && f != 3 && f != 4 {
				o.Name = number(r, byte(f))
				break
			}
		}
	}
	if f, _ := m.Resolve(o.Name); f != 0 {
		target = f
	}
	if i := strings.Index(o.Name, ":"); i >= 0 {
		target = ref.FileNumber(o.Name[:i])
	}
	avail := m.Free + len(m.Files[target])/256
	n := 0
	switch r.Intn(10) {
	case 0:
		n = 1
	case 1:
		n = 256
	case 2:
		n = 257
	case 3:
		n = 255
	case 4: // exactly what fits
		n = avail * 256
		if r.Intn(2) == 0 && n > 0 {
			n -= r.Intn(256)
		}
	case 5: // one byte too much
		n = avail*256 + 1
	case 6:
		n = len(m.Files[target])
	case 7:
		n = 1 + r.Intn(256*12)
	default:
		n = 1 + r.Intn(256*5)
	}
	if n > 256*60 && r.Intn(4) > 0 {
		n = 1 + r.Intn(256*40)
	}
	if r.Intn(12) == 0 { // around 256 and 512 sectors, where they fit
		if k := []int{255 * 256, 65535, 65536, 65536, 65536, 65537, 257 * 256, 131072, 131073}[r.Intn(9)]; k <= avail*256 {
			n = k
		}
	}
	if r.Intn(40) == 0 {
		n = 0
	}
	o.Data = ref.RandBytes(r, n)
	o.Over = r.Intn(3) > 0
	switch r.Intn(30) {
	case 0:
		o.Type = []types.Filetype{types.FiletypeASCIIText, types.FiletypeSystem, types.FiletypeApplesoftBASIC, types.FiletypeTypeless, types.FiletypeNewB}[r.Intn(5)]
	case 1:
		o.Delta = []int{1, -1, 256, -256}[r.Intn(4)]
	}
	return o
}

// Source makes the disk a history starts from, in physical order.
func Source(t *vf.T, real []lib.Image) (ref.Naked, string) {
	r := t.Rand
	var nks []lib.Image
	for _, im := range real {
		if im.System == "nakedos" {
			nks = append(nks, im)
		}
	}
	if len(nks) > 0 && r.Intn(4) == 0 {
		im := nks[r.Intn(len(nks))]
		return ref.Naked{Img: ref.Conv(im.Data, im.Order, "raw")}, im.Name
	}
	o := ref.NakedOpts{Files: r.Intn(30), MaxSec: 1 + r.Intn(12), FreeLeft: -1, Syms: r.Intn(60)}
	switch r.Intn(10) {
	case 8:
		o.SlotsFul = true
	case 0:
		o.FreeLeft = r.Intn(6)
	case 1:
		o.FreeLeft = 0
	case 2:
		o.NoSyms = true
	case 3:
		o.Files, o.MaxSec = 236+r.Intn(16), 2
	case 4:
		o.Files, o.MaxSec = 0, 1
	case 5:
		o.Syms = 500
	case 6:
		o.Syms = 790
	case 7:
		o.FreeLeft = 1 + r.Intn(40)
	}
	return ref.BuildNaked(r, o), fmt.Sprintf("generated %+v", o)
}

// Facets select which monitors are armed.
type Facets struct {
	Store   bool // C06: contents, catalog, existence
	Space   bool // C07: ownership, refusals
	Symbols bool // C08: the table
	Errors  bool // C26: the classes of errors
}

// History runs n operations through the library and monitors each.
func History(t *vf.T, real []lib.Image, fc Facets, n int) {
	src, desc := Source(t, real)
	m := FromDisk(src)
	container := []string{"do", "po"}[t.Intn(2)]
	t.Note("disk: %s, container %s, %d files, %d symbols, %d free", desc, container, len(m.Files), len(m.Syms), m.Free)
	open := func(img []byte) types.Operator {
		name := "x." + container
		ord := "auto"
		if t.Intn(3) == 0 {
			name, ord = "x.dsk", container
		}
		op, _, err := lib.Open(ref.Conv(img, "raw", container), name, ord, "nakedos")
		if err != nil {
			t.Fail("cannot open NakedOS disk: %v", err)
		}
		return op
	}
	op := open(src.Img)
	pool := make([]string, 3+t.Intn(6))
	for i := range pool {
		pool[i] = ref.RandSymName(t.Rand)
	}
	if t.Intn(3) == 0 {
		pool[0] = "FHELLO"
	}
	Monitor(t, op, m, fc, "at the start", true)
	ops := 0
	for k := 0; k < n; k++ {
		o := m.Gen(t.Rand, pool)
		e := m.Predict(o)
		if e.Skip {
			continue
		}
		ops++
		t.Note("%d: %v", k, o)
		Step(t, op, m, fc, o, e)
		t.Event("operations monitored", 1)
		if e.Refuse {
			t.Event("refused: "+e.Why, 1)
		}
		full := t.Intn(4) == 0 || k == n-1
		Monitor(t, op, m, fc, fmt.Sprintf("after %v", o), full)
		if t.Intn(5) == 0 || k == n-1 {
			op2 := open(op.GetBytes())
			Monitor(t, op2, m, fc, fmt.Sprintf("reopened after %v", o), true)
			t.Event("reopened and compared", 1)
			if t.Intn(2) == 0 {
				op = op2 // carry on in the new session
			}
		}
	}
	t.Eval(ops)
	t.Distinct(op.GetBytes())
	t.Sample("%s: %d operations, %d files and %d symbols at the end; last operations %v", desc, ops, len(m.Files), len(m.Syms), lastNotes(t))
}

func lastNotes(t *vf.T) string { return fmt.Sprintf("case %d", t.I) }

// Step performs an operation and checks its direct outcome.
func Step(t *vf.T, op types.Operator, m *Model, fc Facets, o Op, e Effect) {
	before := append([]byte{}, op.GetBytes()...)
	nb := ref.Naked{Img: before}
	var existed bool
	var err error
	if o.Del {
		existed, err = op.Delete(o.Name)
	} else {
		existed, err = op.PutFile(types.FileInfo{Descriptor: types.Descriptor{Name: o.Name, Length: len(o.Data) + o.Delta, Type: o.Type}, Data: append([]byte{}, o.Data...)}, o.Over)
	}
	after := op.GetBytes()
	na := ref.Naked{Img: after}
	if fc.Errors {
		m.classes(t, o, e, err)
	}
	if e.Refuse {
		if fc.Space {
			t.Check(err != nil, "%v: accepted, but must be refused (%s)", o, e.Why)
			t.Check(bytes.Equal(before, after), "%v: refused, but the disk changed: %s", o, vf.FirstDiff(after, before))
		}
		if err == nil || !bytes.Equal(before, after) {
			t.Fail("%v: must be refused (%s) without effect; got %v", o, e.Why, err)
		}
		return
	}
	t.Check(err == nil, "%v: failed: %v (%d free sectors)", o, err, m.Free)
	if fc.Store {
		t.Check(existed == e.Existed, "%v: reported existed=%v, want %v", o, existed, e.Existed)
	}
	// which file was used?
	file := e.File
	symGone := false
	if !o.Del && file == 0 {
		for f := 1; f < 0xfe; f++ {
			if len(nb.Sectors(byte(f))) == 0 && len(na.Sectors(byte(f))) > 0 {
				t.Check(file == 0, "%v: created more than one file", o)
				file = byte(f)
			}
		}
		t.Check(file != 0, "%v: no new file was created", o)
	}
	if o.Del && e.Sym != "" {
		symGone = true
		if e.Stale {
			if st, err := na.ReadSyms(); err == nil {
				_, still := ref.SymMap(st)[e.Sym]
				symGone = !still
			}
		}
		if m.Dup && symGone {
			// duplicate names: only one goes; keep the model simple
			if st, err := na.ReadSyms(); err == nil {
				if a, still := ref.SymMap(st)[e.Sym]; still {
					m.Syms[e.Sym] = a
					m.Used--
					symGone = false
				}
			}
		}
	}
	m.Apply(o, e, file, symGone)
	if fc.Space {
		mb, ma := nb.Map(), na.Map()
		symChange := e.SymSet || symGone
		need := 0
		if !o.Del {
			need = (len(o.Data) + 255) / 256
		}
		for i := range mb {
			if mb[i] == 0xfe || ma[i] == 0xfe {
				t.Check(mb[i] == ma[i], "%v: reserved sector %d changed owner from %02X to %02X", o, i, mb[i], ma[i])
			}
			if mb[i] == ma[i] {
				continue
			}
			for _, f := range []byte{mb[i], ma[i]} {
				ok := f == 0xff || (file != 0 && f == file) || symChange && (f == 3 || f == 4)
				t.Check(ok, "%v (file %02X): sector %d changed owner from %02X to %02X", o, file, i, mb[i], ma[i])
			}
		}
		if file != 0 {
			t.Check(len(na.Sectors(file)) == need, "%v: file %02X has %d sectors, want %d", o, file, len(na.Sectors(file)), need)
			d := na.Free() - nb.Free()
			want := len(nb.Sectors(file)) - need
			t.Check(d == want, "%v: free sectors changed by %d, want %d", o, d, want)
		} else {
			t.Check(bytes.Equal(before, after), "%v: nothing to delete, but the disk changed: %s", o, vf.FirstDiff(after, before))
		}
		for _, f := range []byte{3, 4} {
			t.Check(len(na.Sectors(f)) == len(nb.Sectors(f)), "%v: symbol table file %d went from %d to %d sectors", o, f, len(nb.Sectors(f)), len(na.Sectors(f)))
		}
		// contents of reserved sectors and other files
		for i := range mb {
			if mb[i] != ma[i] || mb[i] == 0xff || mb[i] == file || symChange && (mb[i] == 3 || mb[i] == 4) {
				continue
			}
			x, y := append([]byte{}, ref.Sec(before, i/16, i%16)...), append([]byte{}, ref.Sec(after, i/16, i%16)...)
			lo, hi := 0, 0
			switch i {
			case 9:
				lo, hi = 0xd0, 256
			case 10, 11:
				lo, hi = 0, 256
			}
			for k := lo; k < hi; k++ {
				x[k], y[k] = 0, 0
			}
			t.Check(bytes.Equal(x, y), "%v (file %02X): sector %d of owner %02X was overwritten", o, file, i, mb[i])
		}
		t.Event("sector owners compared", 560)
	}
	if fc.Symbols && !m.HasST {
		return
	}
}

// classes checks that an error tells the reason of a refusal.
func (m *Model) classes(t *vf.T, o Op, e Effect, err error) {
	if err == nil {
		return
	}
	old := m.Files[e.File]
	short := (len(o.Data)+255)/256 > m.Free+len(old)/256 || e.SymSet && !m.symbolChangeOK(e.Sym) || e.Why == "numbers"
	ise, iss, isn := errors.IsFileExists(err), errors.IsOutOfSpace(err), errors.IsFileNotFound(err)
	t.Check(err.Error() != "", "%v: refused with an empty message", o)
	if o.Del {
		t.Check(!ise && !iss, "%v: refused with the class of another problem: %v", o, err)
		return
	}
	t.Check(!isn, "%v: a put is refused with 'file not found': %v", o, err)
	switch e.Why {
	case "exists":
		t.Check(ise || short && iss, "%v: the file exists, but the error does not say so: %v", o, err)
	case "space", "symbols":
		t.Check(iss, "%v: there is no room, but the error does not say so: %v", o, err)
	default: // another reason; these may hold besides
		if e.File != 0 || e.Why == "type" || e.Why == "length" || e.Why == "name" || e.Why == "empty" {
			f, _ := m.Resolve(o.Name)
			if i := strings.Index(o.Name, ":"); i >= 0 {
				f = ref.FileNumber(o.Name[:i])
			}
			_, ex := m.Files[f]
			t.Check(!ise || ex && !o.Over, "%v: refused as existing (%s): %v", o, e.Why, err)
			t.Check(!iss || (len(o.Data)+255)/256 > m.Free || m.Used >= ref.SymCount || e.Why == "numbers", "%v: refused for lack of room (%s): %v", o, e.Why, err)
		}
	}
	t.Check(!(ise && iss), "%v: the error has two classes: %v", o, err)
	t.Event("classes compared: "+e.Why, 1)
}

// Monitor compares the state of the disk with the model.
func Monitor(t *vf.T, op types.Operator, m *Model, fc Facets, when string, full bool) {
	raw := ref.Naked{Img: op.GetBytes()}
	if fc.Space {
		mp := raw.Map()
		cnt := map[byte]int{}
		for i, f := range mp {
			t.Check(f != 0, "%s: sector %d has the illegal owner 0", when, i)
			if i < 12 {
				t.Check(f == 0xfe, "%s: system sector %d has owner %02X", when, i, f)
			}
			cnt[f]++
		}
		t.Check(cnt[0xff] == m.Free, "%s: %d free sectors, want %d", when, cnt[0xff], m.Free)
		for f, n := range cnt {
			if f < 0xfe && f != 3 && f != 4 {
				t.Check(n*256 == len(m.Files[f]), "%s: file %02X owns %d sectors, want %d", when, f, n, len(m.Files[f])/256)
			}
		}
	}
	if fc.Symbols && m.HasST {
		st, err := raw.ReadSyms()
		t.Check(err == nil, "%s: the symbol table on disk is not valid: %v", when, err)
		CheckTable(t, m, st, when)
		t.Event("symbol tables compared", 1)
	}
	if !fc.Store {
		return
	}
	// a file is called by one of its symbols, or by its number
	calledRight := func(name string, f byte) {
		named := false
		for _, a := range m.Syms {
			if a == 0xDF00|uint16(f) {
				named = true
			}
		}
		if named {
			t.Check(m.Syms[strings.ToUpper(name)] == 0xDF00|uint16(f), "%s: file %02X is called %q, which is not a symbol of it", when, f, name)
		} else {
			t.Check(ref.FileNumber(name) == f, "%s: file %02X is called %q", when, f, name)
		}
	}
	// the catalog
	ds, err := op.Catalog("")
	t.Check(err == nil, "%s: catalog: %v", when, err)
	seen := map[byte]bool{}
	for _, d := range ds {
		f, name := byte(0), d.Fullname
		if i := strings.Index(name, ":"); i >= 0 {
			f = ref.FileNumber(name[:i])
			t.Check(strings.EqualFold(name[i+1:], d.Name), "%s: catalog has name %q and full name %q", when, d.Name, d.Fullname)
		} else {
			f = ref.FileNumber(name)
		}
		t.Check(f != 0, "%s: catalog has the full name %q", when, d.Fullname)
		t.Check(!seen[f], "%s: catalog lists file %02X twice", when, f)
		seen[f] = true
		if f == 3 || f == 4 {
			continue
		}
		b, ok := m.Files[f]
		t.Check(ok, "%s: catalog lists file %02X (%s), which does not exist", when, f, d.Fullname)
		t.Check(d.Sectors*256 == len(b) && d.Length == len(b), "%s: catalog says file %02X has %d sectors, %d bytes; want %d bytes", when, f, d.Sectors, d.Length, len(b))
		t.Check(!d.Locked && d.Type == types.FiletypeBinary, "%s: catalog describes file %02X as %+v", when, f, d)
		calledRight(d.Name, f)
	}
	for f := range m.Files {
		t.Check(seen[f], "%s: catalog does not list file %02X", when, f)
	}
	t.Event("catalog entries compared", len(ds))
	// the contents
	get := func(name string, f byte) {
		fi, err := op.GetFile(name)
		b, ok := m.Files[f]
		if !ok {
			t.Check(err != nil, "%s: getting %q succeeded, but file %02X does not exist", when, name, f)
			return
		}
		t.Check(err == nil, "%s: getting %q (file %02X): %v", when, name, f, err)
		t.Check(bytes.Equal(fi.Data, b), "%s: contents of %q (file %02X): %s", when, name, f, vf.FirstDiff(fi.Data, b))
		t.Check(fi.Descriptor.Length == len(b), "%s: length of %q reported as %d, want %d", when, name, fi.Descriptor.Length, len(b))
		x := fi.Descriptor
		t.Check(x.Sectors == len(b)/256 && !x.Locked && x.Type == types.FiletypeBinary, "%s: %q (file %02X, %d bytes) described as %+v", when, name, f, len(b), x)
		calledRight(x.Name, f)
		t.Event("file contents compared", 1)
	}
	for f := 1; f < 0xfe; f++ {
		if _, ok := m.Files[byte(f)]; ok && (full || t.Intn(4) == 0) {
			get(number(t.Rand, byte(f)), byte(f))
		}
	}
	names := make([]string, 0, len(m.Syms))
	for n := range m.Syms {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		a := m.Syms[n]
		if a > 0xDF00 && a < 0xDFFE && a != 0xDF03 && a != 0xDF04 && ref.FileNumber(n) == 0 && (full || t.Intn(10) == 0) {
			get(mixCase(t.Rand, n), byte(a))
		}
	}
	if full {
		_, err := op.GetFile(number(t.Rand, m.absent(t.Rand)))
		if err == nil && len(m.Files) < 200 {
			t.Fail("%s: getting a file number that does not exist succeeded", when)
		}
	}
}

func (m *Model) absent(r *rand.Rand) byte {
	for i := 0; i < 3000; i++ {
		f := byte(5 + r.Intn(0xf8))
		if _, ok := m.Files[f]; !ok {
			return f
		}
	}
	return 0
}

// CheckTable compares a parsed table with the model.
func CheckTable(t *vf.T, m *Model, st []ref.Sym, when string) {
	used := 0
	got := map[string]uint16{}
	for i, s := range st {
		if s.Addr == 0 {
			continue
		}
		used++
		if !m.Poor {
			t.Check(ref.ValidName(s.Name), "%s: slot %d holds the name %q", when, i, s.Name)
		}
		if _, dup := got[strings.ToUpper(s.Name)]; dup && !m.Dup {
			t.Fail("%s: the name %q is in the table twice", when, s.Name)
		}
		if _, dup := got[strings.ToUpper(s.Name)]; !dup {
			got[strings.ToUpper(s.Name)] = s.Addr
		}
	}
	for n, a := range m.Syms {
		g, ok := got[n]
		t.Check(ok, "%s: symbol %s (%04X) is lost", when, n, a)
		t.Check(g == a, "%s: symbol %s has address %04X, want %04X", when, n, g, a)
	}
	for n := range got {
		_, ok := m.Syms[n]
		t.Check(ok, "%s: symbol %s should not exist", when, n)
	}
	t.Check(used == m.Used, "%s: %d slots in use, want %d", when, used, m.Used)
	heads, err := ref.CheckChains(st)
	if m.Poor {
		return
	}
	t.Check(err == nil, "%s: broken chain: %v", when, err)
	for h, n := range heads {
		t.Check(n <= m.Heads[h], "%s: hash class %02X has %d chains, had %d: some symbols became unreachable", when, h, n, m.Heads[h])
	}
	t.Event("symbols compared", used)
}

// FromAPI converts the library's table.
func FromAPI(st supermon.SymbolTable) []ref.Sym {
	r := make([]ref.Sym, len(st))
	for i, s := range st {
		r[i] = ref.Sym{Addr: s.Address, Name: s.Name, Link: s.Link}
		if s.Address == 0 {
			r[i].Link = -1
			r[i].Name = ""
		}
	}
	return r
}

// NumberSym renames a symbol of a file on the disk to something that reads as
// the number of another file, and returns the new name; "" if it cannot.
func NumberSym(t *vf.T, n ref.Naked) string {
	m := FromDisk(n)
	if !m.HasST || m.Poor || m.Dup {
		return ""
	}
	st, err := n.ReadSyms()
	if err != nil {
		return ""
	}
	var slots []int
	for i, s := range st {
		if s.Addr > 0xdf00 && s.Addr < 0xdffe && !strings.EqualFold(s.Name, "FHELLO") {
			slots = append(slots, i)
		}
	}
	var nums []int
	for f := range m.Files {
		nums = append(nums, int(f))
	}
	sort.Ints(nums)
	if len(slots) == 0 || len(nums) == 0 {
		return ""
	}
	i := slots[t.Intn(len(slots))]
	f := nums[t.Intn(len(nums))]
	name := fmt.Sprintf([]string{"DF%02X", "DF%02X", "0%02X", "000%02X"}[t.Intn(4)], f)
	if _, dup := m.Syms[name]; dup || byte(st[i].Addr) == byte(f) {
		return ""
	}
	st[i].Name = name
	n.WriteSyms(st)
	return name
}
