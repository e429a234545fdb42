// C20: free-space maps behave as sets.
package main

import (
	"bytes"

	"verif/ref"
	"verif/vf"

	"github.com/zellyn/diskii/disk"
	"github.com/zellyn/diskii/dos3"
	"github.com/zellyn/diskii/prodos"
)

// bits is the documented layout: block b is bit 7-(b mod 8) of byte b/8.
func bits(free []bool) []byte {
	n := (len(free) + 4095) / 4096 * 512
	b := make([]byte, n)
	for i, f := range free {
		if f {
			b[i/8] |= 0x80 >> uint(i%8)
		}
	}
	return b
}

func bitmap(t *vf.T, blocks, start int) {
	t.Note("bitmap of %d blocks at block %d", blocks, start)
	vbm := prodos.NewVolumeBitMap(uint16(start), uint16(blocks))
	free := make([]bool, blocks)
	for i := range free {
		free[i] = true
	}
	ask := func(b int) {
		if got := vbm.IsFree(uint16(b)); got != free[b] {
			t.Fail("block %d of %d: free is reported as %v, want %v", b, blocks, got, free[b])
		}
		t.Event("questions", 1)
	}
	all := func() {
		for b := range free {
			ask(b)
		}
	}
	all()
	dev := func(n int) {
		d := make([]byte, n)
		t.Read(d)
		want := append([]byte{}, d...)
		m := bits(free)
		err := vbm.Write(d)
		if len(m) > 0 && start*512+len(m) > n {
			if err == nil {
				t.Fail("bitmap of %d blocks at block %d was written to a device of %d bytes", blocks, start, n)
			}
			// what fits may have been written; nothing else may have changed
			if start*512 < n && !bytes.Equal(d[:start*512], want[:start*512]) || start*512 >= n && !bytes.Equal(d, want) {
				t.Fail("refused write changed bytes before the bitmap")
			}
			t.Event("writes refused", 1)
			return
		}
		if len(m) > 0 {
			copy(want[start*512:], m)
		}
		if err != nil || !bytes.Equal(d, want) {
			t.Fail("bitmap of %d blocks written at block %d: %v, %s", blocks, start, err, vf.FirstDiff(d, want))
		}
		t.Event("writes", 1)
	}
	need := start*512 + len(bits(free))
	if blocks > 0 {
		for j := 0; j < 40; j++ {
			b := t.Intn(blocks)
			switch t.Intn(6) {
			case 0:
				b = blocks - 1 - t.Intn(min(blocks, 10))
			case 1:
				b = t.Intn(min(blocks, 20))
			case 2:
				b = min(blocks-1, max(0, 4096*t.Intn(16)+t.Intn(20)-10))
			}
			if t.Intn(3) > 0 {
				vbm.MarkUsed(uint16(b))
				free[b] = false
			} else {
				vbm.MarkUnused(uint16(b))
				free[b] = true
			}
			t.Event("marks", 1)
			ask(b)
			for _, o := range []int{b - 1, b + 1, b ^ 8, b ^ 7, b ^ 4096, b ^ 256, t.Intn(blocks)} {
				if o >= 0 && o < blocks {
					ask(o)
				}
			}
			if j%13 == 5 {
				all()
			}
		}
		// ranges, as formatting a volume does
		from := t.Intn(blocks)
		for b := from; b < blocks && b < from+t.Intn(9000); b++ {
			vbm.MarkUsed(uint16(b))
			free[b] = false
		}
		all()
	}
	dev(need + t.Intn(3)*512)
	if need > 0 && t.Intn(2) == 0 {
		dev(t.Intn(need))
	}
	t.Distinct(blocks, start)
	t.Event("bitmaps", 1)
}

func index(t *vf.T) {
	var ib prodos.IndexBlock
	var model [256]uint16
	if t.Intn(2) == 0 {
		t.Read(ib[:])
		for i := range model {
			model[i] = uint16(ib[i]) | uint16(ib[256+i])<<8
		}
	}
	all := func() {
		for i := range model {
			if got := ib.Get(byte(i)); got != model[i] {
				t.Fail("slot %d of the index block holds %#x, want %#x", i, got, model[i])
			}
			if ib[i] != byte(model[i]) || ib[256+i] != byte(model[i]>>8) {
				t.Fail("slot %d (%#x) is stored as low byte %#x, high byte %#x", i, model[i], ib[i], ib[256+i])
			}
		}
		t.Event("slots compared", 256)
	}
	all()
	for j := 0; j < 60; j++ {
		i, v := t.Intn(256), uint16(t.Intn(65536))
		switch t.Intn(5) {
		case 0:
			i = []int{0, 1, 127, 128, 254, 255}[t.Intn(6)]
		case 1:
			v = []uint16{0, 1, 255, 256, 0x7fff, 0x8000, 0xff00, 0xffff}[t.Intn(8)]
		}
		ib.Set(byte(i), v)
		model[i] = v
		t.Event("slots set", 1)
		if got := ib.Get(byte(i)); got != v {
			t.Fail("slot %d holds %#x after storing %#x", i, got, v)
		}
		all()
	}
	t.Distinct(ib[:])
}

func dosMap(t *vf.T) {
	var e dos3.TrackFreeSectors
	t.Read(e[:])
	switch t.I % 4 {
	case 0: // all patterns of the two bytes
		e = dos3.TrackFreeSectors{byte(t.I / 4), byte(t.I / 4 >> 8)}
	case 1:
		e = dos3.TrackFreeSectors{0, 0, e[2], e[3]}
		e[t.Intn(2)] = 1 << uint(t.Intn(8))
	case 2:
		e = dos3.TrackFreeSectors{255, 255, e[2], e[3]}
		e[t.Intn(2)] &^= 1 << uint(t.Intn(8))
	}
	keep := e
	for s := 0; s < 256; s++ {
		want := s < 8 && e[1]>>uint(s)&1 == 1 || s >= 8 && s < 16 && e[0]>>uint(s-8)&1 == 1
		if got := e.IsFree(byte(s)); got != want {
			t.Fail("map entry %x: sector %d free is %v, want %v", e[:], s, got, want)
		}
	}
	if e != keep {
		t.Fail("asking changed the map entry")
	}
	t.Event("DOS sectors asked", 256)
	t.Distinct(e[:])
}

// dosVTOC asks the map of whole VTOCs, read from images.
func dosVTOC(t *vf.T) {
	img := make([]byte, 143360)
	t.Read(img)
	var v dos3.VTOC
	if err := disk.UnmarshalLogicalSector(img, &v, 17, 0); err != nil {
		t.Fail("reading a VTOC: %v", err)
	}
	sec := ref.Sec(img, 17, 0)
	for tr := 0; tr < 50 && tr < len(v.FreeSectors); tr++ {
		for s := 0; s < 16; s++ {
			by := sec[0x38+4*tr+1]
			if s >= 8 {
				by = sec[0x38+4*tr]
			}
			want := by>>uint(s%8)&1 == 1
			if got := v.FreeSectors[tr].IsFree(byte(s)); got != want {
				t.Fail("VTOC %x: track %d sector %d free is %v, want %v", sec, tr, s, got, want)
			}
		}
	}
	t.Event("DOS sectors asked", 800)
	t.Distinct(sec)
}

// freshVTOC checks a new, empty VTOC: every sector of its 35 tracks is free.
func freshVTOC(t *vf.T) {
	v := dos3.DefaultVTOC()
	for tr := 0; tr < 35; tr++ {
		for s := 0; s < 16; s++ {
			got := v.FreeSectors[tr].IsFree(byte(s))
			if again := dos3.DefaultVTOC().FreeSectors[tr].IsFree(byte(s)); again != got {
				t.Fail("two default VTOCs differ at track %d sector %d", tr, s)
			}
			if !got {
				t.Fail("track %d sector %d is not free in a new VTOC", tr, s)
			}
		}
	}
	for tr := 35; tr < 50; tr++ {
		for s := 0; s < 16; s++ {
			if v.FreeSectors[tr].IsFree(byte(s)) {
				t.Fail("track %d, which does not exist, has free sector %d", tr, s)
			}
		}
	}
}

func main() {
	vf.Main(vf.Spec{
		ID:   "C20",
		Rule: "after every mark the answers equal those of a set, the stored bits are those of the documented layout, and index slots hold what was stored last",
		Assumptions: []string{
			"only blocks of the volume are asked about or marked",
		},
		Require: []string{"questions", "marks", "writes", "writes refused", "slots set", "DOS sectors asked"},
	}, func(s *vf.Suite) {
		edge := []int{0, 1, 2, 7, 8, 9, 15, 16, 279, 280, 281, 800, 1600, 4088, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 12289, 16384, 32767, 32768, 32769, 36864, 61440, 61441, 65528, 65534, 65535}
		s.Section("bitmap-edges", len(edge), len(edge)*8, func(t *vf.T) {
			bitmap(t, edge[t.I%len(edge)], []int{6, 0, 3, 1000}[t.Intn(4)])
		})
		s.Section("bitmap-sizes", 5000, 25000, func(t *vf.T) {
			n := t.Intn(65536)
			switch t.Intn(4) {
			case 0:
				n = t.Intn(600)
			case 1:
				n = 4096*t.Intn(16) + t.Intn(16)
			case 2:
				n = t.Intn(9000)
			}
			bitmap(t, n, t.Intn(40))
		})
		s.Section("small-sizes", 300, 4200, func(t *vf.T) { bitmap(t, t.I, t.Intn(8)) })
		s.Section("index", 10000, 50000, index)
		s.Section("dos-map", 65536, 4*65536, dosMap)
		s.Section("dos-vtoc", 4000, 20000, dosVTOC)
		s.Section("dos-default", 1, 1, freshVTOC)
	})
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func max(a, b int) int { return -min(-a, -b) }
