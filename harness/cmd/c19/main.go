// C19: sector and block access touches exactly the addressed bytes.
package main

import (
	"bytes"
	"errors"
	"fmt"

	"verif/vf"

	"github.com/zellyn/diskii/disk"
)

// sec is a sector structure that records what it is given.
type sec struct {
	tr, s   byte
	b       []byte
	fail    error
	from    int
	smash   bool
	located bool
}

func (x *sec) ToSector() ([]byte, error) { return x.b, x.fail }
func (x *sec) GetTrack() byte            { return x.tr }
func (x *sec) GetSector() byte           { return x.s }
func (x *sec) FromSector(b []byte) error {
	x.from++
	x.b = append([]byte{}, b...)
	if x.smash {
		for i := range b {
			b[i] ^= 0xff
		}
	}
	return x.fail
}
func (x *sec) SetTrack(t byte)  { x.tr, x.located = t, true }
func (x *sec) SetSector(s byte) { x.s, x.located = s, true }

type blk struct {
	n    uint16
	b    disk.Block
	fail error
	from int
}

func (x *blk) ToBlock() (disk.Block, error) { return x.b, x.fail }
func (x *blk) GetBlock() uint16             { return x.n }
func (x *blk) FromBlock(b disk.Block) error { x.b = b; x.from++; return x.fail }
func (x *blk) SetBlock(n uint16)            { x.n = n }

// image is an image inside a larger buffer: spare capacity behind it must not
// be touched or read either.
type image struct {
	all, keep []byte
	img       []byte
}

func mk(t *vf.T, n int) *image {
	pad := 3000
	all := make([]byte, pad+n+pad)
	t.Read(all)
	return &image{all, append([]byte{}, all...), all[pad : pad+n]} // cap reaches the end of all
}

func (m *image) want(off int, b []byte) { copy(m.keep[3000+off:], b) }

func (m *image) same(t *vf.T, what string) {
	if !bytes.Equal(m.all, m.keep) {
		t.Fail("%s on an image of %d bytes changed other bytes than it should (offsets are 3000 too high): %s", what, len(m.img), vf.FirstDiff(m.all, m.keep))
	}
}

func size(t *vf.T) int {
	switch t.Intn(10) {
	case 0:
		return t.Intn(600)
	case 1:
		return 143360 + t.Intn(513) - 256
	case 2:
		return 4096 * t.Intn(260)
	case 3:
		return t.Intn(300000)
	case 4:
		return 256 * t.Intn(600)
	case 5:
		return 819200
	}
	return 143360
}

func sectors(t *vf.T) {
	m := mk(t, size(t))
	n := len(m.img)
	for j := 0; j < 60; j++ {
		tr, s := t.Intn(40), t.Intn(17)
		switch t.Intn(6) {
		case 0:
			tr, s = t.Intn(256), t.Intn(256)
		case 1:
			tr, s = n/4096, (n%4096)/256
			if t.Intn(2) == 0 && s > 0 {
				s--
			}
			if tr > 255 {
				tr = 255
			}
		case 2:
			s = t.Intn(16)
		}
		off := tr*4096 + s*256
		in := s < 16 && off+256 <= n
		what := fmt.Sprintf("track %d sector %d", tr, s)
		if in {
			t.Event("sectors inside", 1)
		} else {
			t.Event("sectors outside", 1)
		}
		t.Eval(1)
		switch t.Intn(4) {
		case 0:
			b, err := disk.ReadSector(m.img, byte(tr), byte(s))
			m.same(t, "reading "+what)
			if !in {
				if err == nil {
					t.Fail("reading %s of an image of %d bytes gave no error", what, n)
				}
				continue
			}
			if err != nil || !bytes.Equal(b, m.keep[3000+off:3000+off+256]) {
				t.Fail("reading %s of an image of %d bytes: %v, %s", what, n, err, vf.FirstDiff(b, m.keep[3000+off:3000+off+256]))
			}
			b = b[:cap(b)]
			for i := range b {
				b[i] ^= 0xff
			}
			_ = append(b[:0], make([]byte, 256)...)
			m.same(t, "changing the data read from "+what)
		case 1:
			x := &sec{tr: 77, s: 99, smash: true}
			if t.Intn(5) == 0 {
				x.fail = errors.New("refused")
			}
			err := disk.UnmarshalLogicalSector(m.img, x, byte(tr), byte(s))
			m.same(t, "parsing "+what)
			if !in && (x.tr != 77 || x.s != 99) {
				t.Fail("%s is not on an image of %d bytes, but the structure now says it came from track %d sector %d", what, n, x.tr, x.s)
			}
			switch {
			case !in:
				if err == nil || x.from != 0 {
					t.Fail("parsing %s of an image of %d bytes: error %v, structure filled %d times", what, n, err, x.from)
				}
			case x.fail != nil:
				if err == nil {
					t.Fail("parsing %s: the structure's refusal was lost", what)
				}
			case err != nil || x.from != 1 || !bytes.Equal(x.b, m.keep[3000+off:3000+off+256]):
				t.Fail("parsing %s: %v, %d times, %s", what, err, x.from, vf.FirstDiff(x.b, m.keep[3000+off:3000+off+256]))
			case x.tr != byte(tr) || x.s != byte(s):
				t.Fail("parsing %s: the structure was told it came from track %d sector %d", what, x.tr, x.s)
			}
		default:
			l := 256
			if t.Intn(4) == 0 {
				l = []int{0, 1, 255, 257, 512, t.Intn(256), 257 + t.Intn(4000)}[t.Intn(7)]
			}
			b := make([]byte, l)
			t.Read(b)
			orig := append([]byte{}, b...)
			var err error
			lost := false
			if t.Intn(2) == 0 {
				err = disk.WriteSector(m.img, byte(tr), byte(s), b)
			} else {
				x := &sec{tr: byte(tr), s: byte(s), b: b}
				if t.Intn(5) == 0 {
					x.fail = errors.New("refused")
					lost = true
				}
				err = disk.MarshalLogicalSector(m.img, x)
			}
			if !bytes.Equal(b, orig) {
				t.Fail("writing %s changed the caller's data", what)
			}
			if in && l == 256 && !lost {
				m.want(off, b)
				if err != nil {
					t.Fail("writing %s of an image of %d bytes: %v", what, n, err)
				}
				for i := range b {
					b[i] ^= 0xff
				}
				t.Event("sectors written", 1)
			} else if err == nil {
				t.Fail("writing %d bytes to %s of an image of %d bytes gave no error", l, what, n)
			} else {
				t.Event("writes refused", 1)
			}
			m.same(t, "writing "+what)
		}
	}
	t.Distinct(n, t.I)
}

func blocks(t *vf.T) {
	n := size(t)
	if t.Intn(30) == 0 {
		n = 65535*512 + t.Intn(700) // the largest device
	}
	m := mk(t, n)
	big := n > 2000000
	for j := 0; j < 60; j++ {
		b := t.Intn(n/512 + 2)
		switch t.Intn(5) {
		case 0:
			b = t.Intn(65536)
		case 1:
			b = n/512 - t.Intn(2)
		case 2:
			b = []int{0, 1, 127, 128, 255, 256, 279, 280, 281, 32767, 32768, 65535}[t.Intn(12)]
		}
		if b > 65535 {
			b = 65535
		}
		if b < 0 {
			b = 0
		}
		off := b * 512
		in := off+512 <= n
		if in {
			t.Event("blocks inside", 1)
		} else {
			t.Event("blocks outside", 1)
		}
		t.Eval(1)
		x := &blk{n: 4242}
		if t.Intn(6) == 0 {
			x.fail = errors.New("refused")
		}
		if t.Intn(2) == 0 {
			err := disk.UnmarshalBlock(m.img, x, uint16(b))
			if !in && x.n != 4242 {
				t.Fail("block %d is not on a device of %d bytes, but the structure now says it came from block %d", b, n, x.n)
			}
			switch {
			case !in:
				if err == nil || x.from != 0 {
					t.Fail("parsing block %d of a device of %d bytes: error %v, structure filled %d times", b, n, err, x.from)
				}
			case x.fail != nil:
				if err == nil {
					t.Fail("parsing block %d: the structure's refusal was lost", b)
				}
			case err != nil || x.from != 1 || !bytes.Equal(x.b[:], m.keep[3000+off:3000+off+512]):
				t.Fail("parsing block %d of a device of %d bytes: %v, %d times, %s", b, n, err, x.from, vf.FirstDiff(x.b[:], m.keep[3000+off:3000+off+512]))
			case x.n != uint16(b):
				t.Fail("parsing block %d: the structure was told it came from block %d", b, x.n)
			}
		} else {
			t.Read(x.b[:])
			x.n = uint16(b)
			err := disk.MarshalBlock(m.img, x)
			if in && x.fail == nil {
				m.want(off, x.b[:])
				if err != nil {
					t.Fail("writing block %d of a device of %d bytes: %v", b, n, err)
				}
				t.Event("blocks written", 1)
			} else if err == nil {
				t.Fail("writing block %d of a device of %d bytes gave no error (structure: %v)", b, n, x.fail)
			} else {
				t.Event("writes refused", 1)
			}
		}
		if !big || j == 59 {
			m.same(t, fmt.Sprintf("access to block %d", b))
		}
	}
	t.Distinct(n, t.I)
}

// all addresses of one size
func sweep(t *vf.T) {
	n := []int{143360, 143359, 143361, 0, 255, 256, 4096, 116480, 1048576, 1044480}[t.I%10]
	m := mk(t, n)
	for tr := 0; tr < 256; tr++ {
		for s := 0; s < 256; s++ {
			off := tr*4096 + s*256
			in := s < 16 && off+256 <= n
			if s > 20 && s%37 != 0 {
				continue
			}
			b, err := disk.ReadSector(m.img, byte(tr), byte(s))
			if (err == nil) != in || in && !bytes.Equal(b, m.keep[3000+off:3000+off+256]) {
				t.Fail("reading track %d sector %d of an image of %d bytes: %v, wrong data or verdict", tr, s, n, err)
			}
			d := make([]byte, 256)
			t.Read(d)
			err = disk.WriteSector(m.img, byte(tr), byte(s), d)
			if (err == nil) != in {
				t.Fail("writing track %d sector %d of an image of %d bytes: %v", tr, s, n, err)
			}
			if in {
				m.want(off, d)
			}
			t.Eval(2)
		}
	}
	m.same(t, "writing every sector")
	for b := 0; b < 65536; b++ {
		off := b * 512
		in := off+512 <= n
		if !in && b%61 != 0 && b*512 > n+2048 {
			continue
		}
		x := &blk{}
		err := disk.UnmarshalBlock(m.img, x, uint16(b))
		if (err == nil) != in || in && (!bytes.Equal(x.b[:], m.keep[3000+off:3000+off+512]) || x.n != uint16(b)) {
			t.Fail("parsing block %d of a device of %d bytes: %v, wrong data or verdict", b, n, err)
		}
		t.Read(x.b[:])
		x.n = uint16(b)
		err = disk.MarshalBlock(m.img, x)
		if (err == nil) != in {
			t.Fail("writing block %d of a device of %d bytes: %v", b, n, err)
		}
		if in {
			m.want(off, x.b[:])
		}
		t.Eval(2)
	}
	m.same(t, "writing every block")
	t.Event("address sweeps", 1)
	t.Distinct(n)
}

func main() {
	vf.Main(vf.Spec{
		ID:   "C19",
		Rule: "the addressed bytes and no others are read or changed, returned data is a copy, and bad addresses and sizes give an error and change nothing",
		Assumptions: []string{
			"images lie inside a larger buffer whose surroundings and spare capacity are compared as well",
		},
		Require: []string{"sectors inside", "sectors outside", "blocks inside", "blocks outside", "writes refused", "sectors written", "blocks written", "address sweeps"},
	}, func(s *vf.Suite) {
		s.Section("sectors", 12000, 60000, sectors)
		s.Section("blocks", 12000, 60000, blocks)
		s.Section("sweep", 10, 40, sweep)
	})
}
