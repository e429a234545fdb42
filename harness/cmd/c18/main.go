// C18: on-disk structures parse and serialise without loss.
package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"reflect"

	"verif/lib"
	"verif/ref"
	"verif/vf"

	"github.com/zellyn/diskii/disk"
	"github.com/zellyn/diskii/dos3"
	"github.com/zellyn/diskii/prodos"
	"github.com/zellyn/diskii/supermon"
)

// fld is a field of a structure and where it is documented to lie. Fields are
// reached by reflection: one that is gone is not judged.
type fld struct {
	path string // Go field path; # is an index
	off  int
	n    int // bytes
	cnt  int // repetitions for #
	step int
}

func f(path string, off, n int) fld { return fld{path, off, n, 1, 0} }
func rep(path string, off, n, cnt, step int) fld {
	return fld{path, off, n, cnt, step}
}

func sub(prefix string, base, cnt, step int, fs []fld) []fld {
	var r []fld
	for _, x := range fs {
		r = append(r, fld{prefix + "." + x.path, base + x.off, x.n, cnt, step})
	}
	return r
}

var fileDesc = []fld{
	f("TrackSectorListTrack", 0, 1), f("TrackSectorListSector", 1, 1), f("Filetype", 2, 1), f("Filename", 3, 30), f("SectorCount", 0x21, 2),
}
var vtoc = []fld{
	f("Unused1", 0, 1), f("Unused2", 4, 2), f("Unused3", 7, 0x20), f("Unused4", 0x28, 8), f("Unused5", 0x32, 2),
	f("CatalogTrack", 1, 1), f("CatalogSector", 2, 1), f("DOSRelease", 3, 1), f("Volume", 6, 1),
	f("TrackSectorListMaxSize", 0x27, 1), f("LastTrack", 0x30, 1), f("TrackDirection", 0x31, 1), f("NumTracks", 0x34, 1), f("NumSectors", 0x35, 1), f("BytesPerSector", 0x36, 2),
	rep("FreeSectors.#", 0x38, 4, 50, 4),
}
var catalog = append([]fld{f("Unused1", 0, 1), f("Unused2", 3, 8), f("NextTrack", 1, 1), f("NextSector", 2, 1)}, sub("FileDescs.#", 0x0b, 7, 35, fileDesc)...)
var tslist = []fld{
	f("Unused1", 0, 1), f("Unused2", 3, 2), f("Unused3", 7, 5),
	f("NextTrack", 1, 1), f("NextSector", 2, 1), f("SectorOffset", 5, 2), rep("TrackSectors.#.Track", 0xc, 1, 122, 2), rep("TrackSectors.#.Sector", 0xd, 1, 122, 2),
}

func dt(name string, off int) []fld {
	return []fld{f(name+".YMD", off, 2), f(name+".HM", off+2, 2)}
}

func cat(l ...[]fld) []fld {
	var r []fld
	for _, x := range l {
		r = append(r, x...)
	}
	return r
}

var proFile = cat([]fld{f("TypeAndNameLength", 0, 1), f("FileName", 1, 15), f("FileType", 0x10, 1), f("KeyPointer", 0x11, 2), f("BlocksUsed", 0x13, 2), f("EOF", 0x15, 3)},
	dt("Creation", 0x18), []fld{f("Version", 0x1c, 1), f("MinVersion", 0x1d, 1), f("Access", 0x1e, 1), f("AuxType", 0x1f, 2)}, dt("LastMod", 0x21), []fld{f("HeaderPointer", 0x25, 2)})
var dirTail = cat(dt("Creation", 0x18), []fld{f("Version", 0x1c, 1), f("MinVersion", 0x1d, 1), f("Access", 0x1e, 1), f("EntryLength", 0x1f, 1), f("EntriesPerBlock", 0x20, 1), f("FileCount", 0x21, 2)})
var volHead = cat([]fld{f("Unused1", 0x10, 8), f("TypeAndNameLength", 0, 1), f("VolumeName", 1, 15), f("BitMapPointer", 0x23, 2), f("TotalBlocks", 0x25, 2)}, dirTail)
var subHead = cat([]fld{f("Unused1", 0x11, 7), f("TypeAndNameLength", 0, 1), f("SubdirectoryName", 1, 15), f("SeventyFive", 0x10, 1), f("ParentPointer", 0x23, 2), f("ParentEntry", 0x25, 1), f("ParentEntryLength", 0x26, 1)}, dirTail)
var links = []fld{f("Extra", 511, 1), f("Prev", 0, 2), f("Next", 2, 2)}
var volKey = cat(links, sub("Header", 4, 1, 0, volHead), sub("Descriptors.#", 0x2b, 12, 0x27, proFile))
var volCont = cat(links, sub("Descriptors.#", 4, 13, 0x27, proFile))
var subKey = cat(links, sub("Header", 4, 1, 0, subHead), sub("Descriptors.#", 0x2b, 12, 0x27, proFile))

// structure is one supported kind.
type structure struct {
	name string
	size int
	fs   []fld
	mk   func() interface{} // pointer to a fresh structure
	from func(p interface{}, b []byte) error
	to   func(p interface{}) ([]byte, error)
}

func secFrom(p interface{}, b []byte) error { return p.(disk.SectorSink).FromSector(b) }
func secTo(p interface{}) ([]byte, error)   { return p.(disk.SectorSource).ToSector() }
func blkFrom(p interface{}, b []byte) error {
	var k disk.Block
	copy(k[:], b)
	return p.(disk.BlockSink).FromBlock(k)
}
func blkTo(p interface{}) ([]byte, error) {
	k, err := p.(disk.BlockSource).ToBlock()
	return k[:], err
}

var kinds = []structure{
	{"DOS 3.3 VTOC", 256, vtoc, func() interface{} { return &dos3.VTOC{} }, secFrom, secTo},
	{"DOS 3.3 catalog sector", 256, catalog, func() interface{} { return &dos3.CatalogSector{} }, secFrom, secTo},
	{"DOS 3.3 track/sector list", 256, tslist, func() interface{} { return &dos3.TrackSectorList{} }, secFrom, secTo},
	{"DOS 3.3 file entry", 35, fileDesc, func() interface{} { return &dos3.FileDesc{} },
		func(p interface{}, b []byte) error { p.(*dos3.FileDesc).FromBytes(b); return nil },
		func(p interface{}) ([]byte, error) { return p.(*dos3.FileDesc).ToBytes(), nil }},
	{"ProDOS volume key block", 512, volKey, func() interface{} { return &prodos.VolumeDirectoryKeyBlock{} }, blkFrom, blkTo},
	{"ProDOS volume directory block", 512, volCont, func() interface{} { return &prodos.VolumeDirectoryBlock{} }, blkFrom, blkTo},
	{"ProDOS subdirectory key block", 512, subKey, func() interface{} { return &prodos.SubdirectoryKeyBlock{} }, blkFrom, blkTo},
	{"ProDOS subdirectory block", 512, volCont, func() interface{} { return &prodos.SubdirectoryBlock{} }, blkFrom, blkTo},
}

// walk follows a field path; ok is false if it does not exist.
func walk(v reflect.Value, path string, i int) (reflect.Value, bool) {
	for v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	part := ""
	for len(path) > 0 {
		part, path = cut(path)
		if part == "#" {
			if v.Kind() != reflect.Array && v.Kind() != reflect.Slice || v.Len() <= i {
				return v, false
			}
			v = v.Index(i)
			continue
		}
		if v.Kind() != reflect.Struct {
			return v, false
		}
		v = v.FieldByName(part)
		if !v.IsValid() || !v.CanSet() {
			return v, false
		}
	}
	return v, true
}

func cut(p string) (string, string) {
	for i := range p {
		if p[i] == '.' {
			return p[:i], p[i+1:]
		}
	}
	return p, ""
}

// get returns the bytes a field stands for on the disk.
func get(v reflect.Value, n int) ([]byte, bool) {
	b := make([]byte, n)
	switch v.Kind() {
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
		x := v.Uint()
		for i := range b {
			b[i] = byte(x >> (8 * uint(i)))
		}
		if n < 8 && x>>(8*uint(n)) != 0 {
			return b, false
		}
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Int:
		x := v.Int()
		for i := range b {
			b[i] = byte(x >> (8 * uint(i)))
		}
	case reflect.Array, reflect.Slice:
		if v.Len() != n {
			return nil, false
		}
		for i := range b {
			if v.Index(i).Kind() != reflect.Uint8 {
				return nil, false
			}
			b[i] = byte(v.Index(i).Uint())
		}
	default:
		return nil, false
	}
	return b, true
}

func set(v reflect.Value, b []byte) bool {
	var x uint64
	for i, c := range b {
		if i < 8 {
			x |= uint64(c) << (8 * uint(i))
		}
	}
	switch v.Kind() {
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
		v.SetUint(x)
	case reflect.Int8:
		v.SetInt(int64(int8(x)))
	case reflect.Int16:
		v.SetInt(int64(int16(x)))
	case reflect.Array, reflect.Slice:
		if v.Len() != len(b) {
			return false
		}
		for i, c := range b {
			if v.Index(i).Kind() != reflect.Uint8 {
				return false
			}
			v.Index(i).SetUint(uint64(c))
		}
	default:
		return false
	}
	return true
}

func randInput(r *rand.Rand, n, i int) []byte {
	b := make([]byte, n)
	switch i % 6 {
	case 0:
		r.Read(b)
	case 1: // a single byte set
		b[r.Intn(n)] = byte(1 + r.Intn(255))
	case 2: // tag: every byte differs from its neighbours
		k := 1 + 2*r.Intn(100)
		for j := range b {
			b[j] = byte(j*k) ^ byte(j>>8)
		}
	case 3:
		for j := range b {
			b[j] = 0xff
		}
		b[r.Intn(n)] = byte(r.Intn(255))
	case 4: // zeros and ones
		for j := range b {
			if r.Intn(2) == 0 {
				b[j] = byte(r.Intn(256))
			}
		}
	default:
		r.Read(b)
		for j := 0; j < 1+r.Intn(4); j++ {
			p := r.Intn(n)
			for k := p; k < n && k < p+r.Intn(60); k++ {
				b[k] = 0
			}
		}
	}
	return b
}

func (k structure) check(t *vf.T, in []byte) {
	bad := func(format string, a ...interface{}) {
		t.Note("input %x", in)
		t.Fail("%s: "+format, append([]interface{}{k.name}, a...)...)
	}
	p := k.mk()
	// a structure that held something else before
	if t.Intn(2) == 0 {
		_ = k.from(p, randInput(t.Rand, k.size, t.Intn(6)))
		t.Event("parsed into a used structure", 1)
	}
	keep := append([]byte{}, in...)
	if err := k.from(p, in); err != nil {
		bad("parsing failed: %v", err)
	}
	if !bytes.Equal(in, keep) {
		bad("parsing changed its input: %s", vf.FirstDiff(in, keep))
	}
	out, err := k.to(p)
	if err != nil || !bytes.Equal(out, keep) {
		bad("parsed and serialised: %v, %s", err, vf.FirstDiff(out, keep))
	}
	t.Event("round trips: "+k.name, 1)
	t.Distinct(k.name, keep)
	// what was returned or passed in is not connected to the structure
	for i := range out {
		out[i] ^= 0xff
	}
	for i := range in {
		in[i] ^= 0x55
	}
	if out, err = k.to(p); err != nil || !bytes.Equal(out, keep) {
		bad("serialised again after changing the caller's copies: %v, %s", err, vf.FirstDiff(out, keep))
	}
	// fields
	for _, x := range k.fs {
		for i := 0; i < x.cnt; i++ {
			if x.cnt > 20 && t.Intn(6) != 0 {
				continue
			}
			v, ok := walk(reflect.ValueOf(p), x.path, i)
			if !ok {
				t.Event("fields not found: "+k.name+" "+x.path, 1)
				continue
			}
			off := x.off + i*x.step
			got, ok := get(v, x.n)
			if !ok {
				t.Event("fields of another shape: "+k.name+" "+x.path, 1)
				continue
			}
			if !bytes.Equal(got, keep[off:off+x.n]) {
				bad("field %s (index %d) holds %x; the %d bytes at %#x are %x", x.path, i, got, x.n, off, keep[off:off+x.n])
			}
			t.Event("fields compared", 1)
			// change it
			nb := make([]byte, x.n)
			t.Read(nb)
			if t.Intn(2) == 0 {
				copy(nb, got)
				nb[t.Intn(x.n)] ^= byte(1 << uint(t.Intn(8)))
			}
			if !set(v, nb) {
				continue
			}
			want := append([]byte{}, keep...)
			copy(want[off:], nb)
			out, err := k.to(p)
			if err != nil || !bytes.Equal(out, want) {
				bad("after setting field %s (index %d) to %x: %v, %s", x.path, i, nb, err, vf.FirstDiff(out, want))
			}
			t.Event("single field changes", 1)
			if t.Intn(3) == 0 { // keep the change
				copy(keep, want)
				t.Event("changes accumulated", 1)
			} else {
				set(v, got)
			}
		}
	}
}

// onDisk checks a structure through an image.
func (k structure) onDisk(t *vf.T) {
	img := make([]byte, 143360)
	t.Read(img)
	keep := append([]byte{}, img...)
	p := k.mk()
	pos := 0
	read := func() error {
		if k.size == 256 {
			tr, s := t.Intn(35), t.Intn(16)
			pos = tr*4096 + s*256
			return disk.UnmarshalLogicalSector(img, p.(disk.SectorSink), byte(tr), byte(s))
		}
		b := t.Intn(280)
		pos = b * 512
		return disk.UnmarshalBlock(img, p.(disk.BlockSink), uint16(b))
	}
	write := func() error {
		if k.size == 256 {
			return disk.MarshalLogicalSector(img, p.(disk.SectorSource))
		}
		return disk.MarshalBlock(img, p.(disk.BlockSource))
	}
	for n := 0; n < 4; n++ {
		if err := read(); err != nil {
			t.Fail("%s: reading at %#x: %v", k.name, pos, err)
		}
		if err := write(); err != nil || !bytes.Equal(img, keep) {
			t.Fail("%s: read and written back at %#x: %v, %s", k.name, pos, err, vf.FirstDiff(img, keep))
		}
		x := k.fs[t.Intn(len(k.fs))]
		i := t.Intn(x.cnt)
		v, ok := walk(reflect.ValueOf(p), x.path, i)
		if !ok {
			continue
		}
		if _, ok := get(v, x.n); !ok {
			continue
		}
		nb := make([]byte, x.n)
		t.Read(nb)
		if !set(v, nb) {
			continue
		}
		copy(keep[pos+x.off+i*x.step:], nb)
		if err := write(); err != nil || !bytes.Equal(img, keep) {
			t.Fail("%s: field %s (index %d) changed at %#x: %v, %s", k.name, x.path, i, pos, err, vf.FirstDiff(img, keep))
		}
		t.Event("fields changed on a disk", 1)
	}
	t.Event("structures on a disk: "+k.name, 1)
}

func refused(t *vf.T) {
	k := kinds[t.I%3]
	for _, n := range []int{0, 1, 255, 257, 512, 35, t.Intn(256), 257 + t.Intn(3000), 128, 254} {
		in := make([]byte, n)
		t.Read(in)
		if err := k.from(k.mk(), in); err == nil {
			t.Fail("%s: input of %d bytes was accepted", k.name, n)
		}
		if n == 0 && k.from(k.mk(), nil) == nil {
			t.Fail("%s: nil input was accepted", k.name)
		}
		t.Event("other lengths refused", 1)
	}
	t.Distinct(k.name, t.I)
	// a file entry refuses by panicking
	n := t.Intn(70)
	if n != 35 {
		func() {
			ok := false
			defer func() {
				if r := recover(); r == nil && ok {
					t.Fail("DOS 3.3 file entry: input of %d bytes was accepted", n)
				}
			}()
			var fd dos3.FileDesc
			fd.FromBytes(make([]byte, n))
			ok = true
		}()
		t.Event("file entries of other lengths refused", 1)
	}
}

var real = lib.Real()

// sectorMap checks the NakedOS sector map.
func sectorMap(t *vf.T) {
	n := ref.BuildNaked(t.Rand, ref.NakedOpts{Files: 1 + t.Intn(5), MaxSec: 9, FreeLeft: -1})
	img := n.Img
	if t.Intn(3) == 0 {
		for _, im := range real {
			if im.System == "nakedos" && t.Intn(2) == 0 {
				img = ref.Conv(im.Data, im.Order, "raw")
				break
			}
		}
	}
	n = ref.Naked{Img: img}
	// fill the sectors that hold the map with noise around it
	for _, s := range []int{9, 10, 11} {
		b := ref.Sec(img, 0, s)
		for i := range b {
			if s == 9 && i < 0xd0 || s == 11 && i >= 0xff || s > 11 {
				b[i] = byte(t.Intn(256))
			}
		}
	}
	if t.Intn(2) == 0 {
		for i := 12; i < 560; i++ {
			*n.Owner(i) = byte(1 + t.Intn(255))
		}
	}
	keep := append([]byte{}, img...)
	sm, err := supermon.LoadSectorMap(img)
	if err != nil || !bytes.Equal(img, keep) {
		t.Fail("loading the sector map: %v, %s", err, vf.FirstDiff(img, keep))
	}
	for i := 0; i < 560; i++ {
		if got := sm.FileForSector(byte(i/16), byte(i%16)); got != *n.Owner(i) {
			t.Fail("owner of sector %d is %#x in the loaded map, %#x on the disk", i, got, *n.Owner(i))
		}
	}
	t.Event("sectors of maps compared", 560)
	save := func(what string) {
		// into the same image and into another one
		other := make([]byte, len(img))
		t.Read(other)
		want := append([]byte{}, other...)
		on, kn := ref.Naked{Img: want}, ref.Naked{Img: keep}
		for i := 0; i < 560; i++ {
			*on.Owner(i) = *kn.Owner(i)
		}
		if err := sm.Persist(img); err != nil || !bytes.Equal(img, keep) {
			t.Fail("map stored %s: %v, %s", what, err, vf.FirstDiff(img, keep))
		}
		if err := sm.Persist(other); err != nil || !bytes.Equal(other, want) {
			t.Fail("map stored in another image %s: %v, %s", what, err, vf.FirstDiff(other, want))
		}
		back, err := supermon.LoadSectorMap(other)
		if err != nil {
			t.Fail("loading the stored map: %v", err)
		}
		for i := 0; i < 560; i++ {
			if a, b := back.FileForSector(byte(i/16), byte(i%16)), sm.FileForSector(byte(i/16), byte(i%16)); a != b {
				t.Fail("owner of sector %d is %#x after storing, was %#x", i, a, b)
			}
		}
		t.Event("maps stored", 2)
	}
	save("unchanged")
	for j := 0; j < 12; j++ {
		i, o := t.Intn(560), byte(1+t.Intn(253))
		if t.Intn(3) == 0 {
			i = []int{12, 47, 48, 303, 304, 559, 16, 255, 256, 51}[t.Intn(10)]
		}
		if err := sm.SetFileForSector(byte(i/16), byte(i%16), o); err != nil {
			t.Fail("giving sector %d to file %#x: %v", i, o, err)
		}
		switch t.Intn(4) { // refused changes change nothing
		case 0:
			if err := sm.SetFileForSector(byte(35+t.Intn(221)), byte(t.Intn(16)), o); err == nil {
				t.Fail("a sector beyond the last track was given to a file")
			}
		case 1:
			if err := sm.SetFileForSector(byte(t.Intn(35)), byte(16+t.Intn(240)), o); err == nil {
				t.Fail("a sector beyond the last of its track was given to a file")
			}
		}
		kn := ref.Naked{Img: keep}
		*kn.Owner(i) = o
		save(fmt.Sprintf("after giving sector %d to file %#x", i, o))
		t.Event("map changes", 1)
	}
	t.Distinct(keep[9*256 : 12*256])
}

func main() {
	vf.Main(vf.Spec{
		ID:   "C18",
		Rule: "parse then serialise gives the input; each field holds the bytes at its documented offset and changing it changes only those; other lengths are refused",
		Assumptions: []string{
			"offsets are those of Beneath Apple DOS, Beneath Apple ProDOS and the NakedOS sector map layout",
			"a field that no longer exists under its name is counted, not judged; the byte round trip always is",
		},
		Require: []string{"fields compared", "single field changes", "fields changed on a disk", "other lengths refused", "maps stored"},
	}, func(s *vf.Suite) {
		s.Section("structures", 8*4000, 8*40000, func(t *vf.T) {
			k := kinds[t.I%len(kinds)]
			k.check(t, randInput(t.Rand, k.size, t.I/len(kinds)))
		})
		s.Section("every-byte", 8, 8*20, func(t *vf.T) {
			k := kinds[t.I%len(kinds)]
			base := randInput(t.Rand, k.size, (t.I/len(kinds))*3)
			for i := range base {
				for _, d := range []byte{0x01, 0x80, 0xff, byte(1 + t.Intn(255))} {
					in := append([]byte{}, base...)
					in[i] ^= d
					p := k.mk()
					if err := k.from(p, in); err != nil {
						t.Fail("%s: parsing failed: %v", k.name, err)
					}
					if out, err := k.to(p); err != nil || !bytes.Equal(out, in) {
						t.Note("input %x", in)
						t.Fail("%s: byte %#x: %v, %s", k.name, i, err, vf.FirstDiff(out, in))
					}
					t.Eval(1)
				}
			}
			t.Event("byte positions perturbed", len(base))
		})
		s.Section("on-disk", 8000, 40000, func(t *vf.T) {
			for {
				k := kinds[t.Intn(len(kinds))]
				if k.size >= 256 {
					k.onDisk(t)
					return
				}
			}
		})
		s.Section("real", len(real), len(real), func(t *vf.T) {
			im := real[t.I]
			for _, k := range kinds {
				for p := 0; p+k.size <= len(im.Data); p += k.size {
					in := im.Data[p : p+k.size]
					x := k.mk()
					if err := k.from(x, append([]byte{}, in...)); err != nil {
						t.Fail("%s at %#x of %s: %v", k.name, p, im.Name, err)
					}
					if out, err := k.to(x); err != nil || !bytes.Equal(out, in) {
						t.Fail("%s at %#x of %s: %v, %s", k.name, p, im.Name, err, vf.FirstDiff(out, in))
					}
					t.Eval(1)
					t.Event("pieces of real images", 1)
				}
			}
		})
		s.Section("refused", 600, 3000, refused)
		s.Section("sector-map", 6000, 30000, sectorMap)
	})
}
