// C13: Standard Delivery disks boot and run the program.
package main

import (
	"bytes"
	"fmt"
	"path/filepath"

	"verif/emu"
	"verif/ref"
	"verif/vf"
)

const maxSectors = 176 // 255 bytes of page table minus the loader

type req struct {
	length, addr, start int // start -1: not given
	order, file         string
}

// fits tells whether the request is one mksd must accept.
func (q req) fits() (accept, specified bool) {
	st := q.start
	if st < 0 || st == 0xFFFF {
		st = q.addr
	}
	if q.addr%256 != 0 || st < q.addr || st >= q.addr+q.length || q.addr+q.length > 0xC000 || (q.length+255)/256 > maxSectors {
		return false, true
	}
	for p := q.addr / 256; p <= (q.addr+q.length-1)/256; p++ {
		if p == 0 || p == 1 || p == 3 || p == 8 {
			return true, false // would overwrite the boot code's own memory
		}
	}
	return true, true
}

func (q req) want() string {
	o := q.order
	if o == "" || o == "auto" {
		switch filepath.Ext(q.file) {
		case ".po":
			return "po"
		}
		return "do"
	}
	return o
}

func num(t *vf.T, n int) string {
	return fmt.Sprintf([]string{"%#x", "%d", "0x%X", "%#x"}[t.Intn(4)], n)
}

// content makes a program: random bytes, some with pages that are blank or
// equal to one another.
func content(t *vf.T, n int) []byte {
	b := ref.RandBytes(t.Rand, n)
	if n < 2 {
		return b
	}
	switch t.Intn(5) {
	case 0: // runs of one byte
		for k := 1 + t.Intn(4); k > 0; k-- {
			i, l, v := t.Intn(n), 256*(1+t.Intn(3)), []byte{0, 0xff, 0xa0, 0xea}[t.Intn(4)]
			if t.Intn(2) == 0 {
				i &^= 0xff
			}
			for ; l > 0 && i < n; l-- {
				b[i] = v
				i++
			}
		}
	case 1: // the same page again
		for k := 1 + t.Intn(4); k > 0 && n > 512; k-- {
			copy(b[t.Intn(n/256)*256:], b[t.Intn(n/256)*256:][:256])
		}
	case 2: // all one byte
		v := byte(t.Intn(2) * 255)
		for i := range b {
			b[i] = v
		}
	}
	return b
}

func try(t *vf.T, q req, data []byte) {
	dir := t.Fresh()
	t.Put(dir, "prog", data)
	var old []byte
	if t.Intn(2) == 0 {
		old = ref.RandBytes(t.Rand, 1+t.Intn(2000))
		t.Put(dir, q.file, old)
	}
	args := []string{"mksd", q.file, "prog"}
	if q.addr != 0x6000 || t.Intn(2) == 0 {
		args = append(args, "--address", num(t, q.addr))
	}
	if q.start >= 0 {
		args = append(args, "--start", num(t, q.start))
	}
	if q.order != "" {
		args = append(args, "--order", q.order)
	}
	before := t.Snapshot(dir)
	r := t.Run(vf.RunOpts{Dir: dir}, args...)
	t.Eval(1)
	accept, spec := q.fits()
	t.Note("request %+v: %v", q, r)
	if !accept {
		t.Check(r.Err() && len(r.Stderr) > 0, "a request that does not fit was accepted: %+v: %v", q, r)
		d := before.Diff(t.Snapshot(dir))
		t.Check(len(d) == 0, "a refused request changed files: %v: %v", d, r)
		t.Event("refused requests", 1)
		return
	}
	if !spec {
		t.Event("requests using the boot code's memory (not judged)", 1)
		return
	}
	t.Check(r.Exit == 0 && len(r.Stderr) == 0, "a request that fits was refused: %+v: %v", q, r)
	for _, d := range before.Diff(t.Snapshot(dir)) {
		t.Check(d == "changed "+q.file || d == "created "+q.file, "mksd %s", d)
	}
	img := t.Get(dir, q.file)
	t.Check(len(img) == ref.DiskSize, "the image has %d bytes", len(img))
	Boots(t, img, q.want(), data, q)
}

// Boots boots the image and compares memory.
func Boots(t *vf.T, img []byte, order string, data []byte, q req) {
	fill := byte(t.Intn(256))
	res, err := emu.BootDisk(func(tr, s int) []byte { return ref.Sec(img, tr, ref.PhysToLogical(order, s)) }, fill)
	if err != nil {
		t.Fail("booting failed: %v; sectors read (track, sector, page): %v", err, res.Reads)
	}
	start := q.start
	if start < 0 || start == 0xffff {
		start = q.addr
	}
	t.Check(int(res.Jump) == start, "jumped to $%04X, want $%04X", res.Jump, start)
	pages := (len(data) + 255) / 256
	want := make([]byte, pages*256)
	copy(want, data)
	got := res.CPU.M[q.addr : q.addr+len(want)]
	if !bytes.Equal(got, want) {
		t.Fail("memory at $%04X: %s", q.addr, vf.FirstDiff(got, want))
	}
	for p := 2; p < 0xc0; p++ {
		if p == 3 || p == 8 || p >= q.addr/256 && p < q.addr/256+pages {
			continue
		}
		for _, v := range res.CPU.M[p*256 : p*256+256] {
			t.Check(v == fill, "page $%02X outside the program was loaded", p)
		}
	}
	t.Event("boots", 1)
	t.Event("sectors loaded", len(res.Reads))
	t.Event("half-track steps", res.Tracks)
	t.Event("boots in "+order+" order", 1)
	t.Distinct(len(data), q.addr, start, order)
}

var files = []string{"out.dsk", "out.do", "out.po", "out", "x.DSK", "out.img", "my.po.dsk", "disk.dsk.po"}

func main() {
	vf.Main(vf.Spec{ID: "C13",
		Rule:        "mksd runs over every sector count 1..177, all boundary combinations of length, load and start address, and random requests in both orders; the image is booted in a 6502 and Disk II emulation (stepper, track check, boot ROM sector read) and memory and jump are compared; refusals are checked against directory snapshots",
		Assumptions: []string{"the boot ROM's sector read and WAIT are modelled by their documented effects", "programs that cover pages 0, 1, 3 or 8, which the boot process uses itself, are outside the promise", "--start 0xFFFF means the load address (documented)"},
		Require:     []string{"boots", "boots in do order", "boots in po order", "refused requests", "refused numbers"},
	}, func(s *vf.Suite) {
		s.Section("sectors", 4*178, 16*178, func(t *vf.T) {
			n := t.I % 178
			length := n*256 - t.Intn(256)
			if t.Intn(3) == 0 {
				length = n * 256
			}
			if length < 0 {
				length = 0
			}
			q := req{length: length, start: -1, file: files[t.Intn(len(files))]}
			q.order = []string{"do", "po"}[t.I/178%2]
			if t.Intn(3) == 0 {
				q.order = ""
			}
			top := 0xC0 - n
			if top < 9 {
				top = 9
			}
			q.addr = (9 + t.Intn(top-8)) * 256
			if t.Intn(3) == 0 {
				q.addr = top * 256
			}
			if t.Intn(2) == 0 && length > 0 {
				q.start = q.addr + t.Intn(length)
			}
			try(t, q, content(t, length))
			if t.I < 16 {
				t.Sample("%+v", q)
			}
		})
		lens := []int{0, 1, 2, 255, 256, 257, 512, 1000, 0x1000, 0x6000, 176*256 - 1, 176 * 256, 176*256 + 1, 177 * 256, 0xB700, 0xC000, 70000, 143360}
		addrs := []int{0x900, 0xA00, 0x1000, 0x1100, 0x2000, 0x5F00, 0x6000, 0x6001, 0x60FF, 0xA000, 0xBE00, 0xBF00, 0xBFFF, 0xC000, 0xD000, 0xFF00, 0x400, 0x200, 0, 0x800, 0x700}
		s.Section("bounds", len(lens)*len(addrs), len(lens)*len(addrs), func(t *vf.T) {
			l, a := lens[t.I%len(lens)], addrs[t.I/len(lens)]
			data := content(t, l)
			starts := []int{-1, a, a + l - 1, a + l, a - 1, a + l/2, 0, 0xBFFF, 0xC000, 0xFFFE, 0xFFFF}
			for i, st := range starts {
				if st < -1 || st > 0xffff || (!t.Thorough && i > 5 && t.Intn(4) > 0) {
					continue
				}
				try(t, req{l, a, st, []string{"", "auto", "do", "po"}[t.Intn(4)], files[t.Intn(len(files))]}, data)
			}
		})
		// programs that end close to the limit: the sum of address and length
		s.Section("limit", 1200, 6000, func(t *vf.T) {
			a := (0x10 + t.Intn(0xB0)) * 256
			l := 0xC000 - a - 3 + t.Intn(6)
			if t.Intn(3) == 0 {
				l = 0xC000 - a + 256*(t.Intn(3)-1) + t.Intn(3) - 1
			}
			if l < 0 {
				l = 0
			}
			st := -1
			if l > 0 && t.Intn(2) == 0 {
				st = a + l - 2 + t.Intn(4)
			}
			try(t, req{l, a, st, []string{"do", "po"}[t.Intn(2)], "o.dsk"}, content(t, l))
		})
		s.Section("numbers", 240, 1200, func(t *vf.T) {
			// what is no 16-bit number is no address
			dir := t.Fresh()
			t.Put(dir, "prog", ref.RandBytes(t.Rand, 1+t.Intn(3000)))
			if t.Intn(2) == 0 {
				t.Put(dir, "out.dsk", ref.RandBytes(t.Rand, 100))
			}
			args := []string{"mksd", "out.dsk", "prog"}
			flag := []string{"--address", "--start"}[t.Intn(2)]
			if flag == "--start" {
				args = append(args, "--address", "0x6000")
			}
			args = append(args, flag+"="+vf.NotUint16(t.Rand))
			before := t.Snapshot(dir)
			r := t.Run(vf.RunOpts{Dir: dir}, args...)
			d := before.Diff(t.Snapshot(dir))
			t.Eval(1)
			t.Check(r.Err() && len(r.Stderr) > 0, "an address that is no 16-bit number was accepted: %v", r)
			t.Check(len(d) == 0, "a refused request changed files: %v: %v", d, r)
			t.Event("refused numbers", 1)
		})
		s.Section("random", 1200, 6000, func(t *vf.T) {
			a := t.Intn(256) * 256
			if t.Intn(6) == 0 {
				a = t.Intn(65536)
			}
			l := t.Intn(46000)
			if t.Intn(2) == 0 {
				l = t.Intn(3000)
			}
			st := -1
			switch t.Intn(4) {
			case 0:
				st = t.Intn(65536)
			case 1, 2:
				st = a + t.Intn(l+1)
			}
			if st > 0xffff {
				st = 0xffff
			}
			try(t, req{l, a, st, []string{"", "auto", "do", "po"}[t.Intn(4)], files[t.Intn(len(files))]}, content(t, l))
		})
	})
}
