// C01: reordering sectors is exact and lossless.
package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"verif/lib"
	"verif/ref"
	"verif/vf"

	"github.com/zellyn/diskii/disk"
	"github.com/zellyn/diskii/types"
)

var real = lib.Real()

func image(t *vf.T) []byte {
	if len(real) > 0 && t.Intn(4) == 0 {
		return append([]byte{}, real[t.Intn(len(real))].Data...)
	}
	b := make([]byte, ref.DiskSize)
	switch t.Intn(5) {
	case 3: // nearly empty: single bytes here and there
		for k := 1 + t.Intn(60); k > 0; k-- {
			p := t.Intn(ref.DiskSize)
			switch t.Intn(4) {
			case 0:
				p |= 255
			case 1:
				p &^= 255
			case 2:
				p |= 4095
			}
			b[p] = 1 << uint(t.Intn(8))
		}
		if t.Intn(3) == 0 { // the same on a background of FF
			for i := range b {
				b[i] = ^b[i]
			}
		}
	case 4: // one fill byte per sector, many of them equal
		for i := 0; i < len(b); i += 256 {
			copy(b[i:], bytes.Repeat([]byte{[]byte{0, 0, 0xff, 0xe5, byte(t.Intn(256))}[t.Intn(5)]}, 256))
		}
	case 0: // every sector carries its own address
		for i := range b {
			b[i] = byte(i>>8)*7 + byte(i>>12) + byte(i)
		}
		fallthrough
	case 1:
		for i := 0; i < len(b); i += 256 {
			copy(b[i:], fmt.Sprintf("T%02d S%02d %d", i/4096, i/256%16, t.Int63()))
		}
	default:
		t.Read(b)
	}
	return b
}

var extOrder = map[string]string{".dsk": "do", ".do": "do", ".po": "po", ".DSK": "do", ".Po": "po", ".DO": "do"}

func opp(o string) string {
	if o == "do" {
		return "po"
	}
	return "do"
}

// direction is the documented choice; ok=false: must be refused.
func direction(in, out, inExt, outExt string) (from, to string, ok bool) {
	switch {
	case in != "auto" && out != "auto":
		return in, out, in != out
	case in != "auto":
		return in, opp(in), true
	case out != "auto":
		return opp(out), out, true
	}
	a, b := extOrder[inExt], extOrder[outExt]
	switch {
	case a == b:
		return "", "", false
	case a == "":
		return opp(b), b, true
	case b == "":
		return a, opp(a), true
	}
	return a, b, true
}

// stem makes a file name without its extension: with dots of its own that are
// no extension, or in a directory that looks like a disk image.
func stem(t *vf.T, dir, name string) string {
	switch t.Intn(8) {
	case 0:
		return name + ".v1"
	case 1:
		return name + []string{".po", ".do", ".dsk", ".po.do"}[t.Intn(4)] + " copy"
	case 2:
		return name + []string{".po.x", ".do.2", "..po. ", ".dsk_"}[t.Intn(4)]
	case 3:
		d := name + []string{".po", ".do", ".dsk", ".d", ".hdv"}[t.Intn(5)]
		if err := os.Mkdir(filepath.Join(dir, d), 0777); err != nil {
			t.Inconclusive("%v", err)
		}
		return d + "/" + name
	}
	return name
}

type combo struct{ in, out, inExt, outExt string }

func combos() []combo {
	var cs []combo
	exts := []string{"", ".dsk", ".do", ".po", ".img", ".DSK", ".Po", ".d13"}
	for _, in := range []string{"auto", "do", "po"} {
		for _, out := range []string{"auto", "do", "po"} {
			for _, ie := range exts {
				for _, oe := range append([]string{"inplace"}, exts...) {
					cs = append(cs, combo{in, out, ie, oe})
				}
			}
		}
	}
	return cs
}

func main() {
	cs := combos()
	vf.Main(vf.Spec{ID: "C01",
		Rule:    "library: disk.Swizzle on random, tagged and real images with every named table and random (in)valid permutations; command: every combination of --order, --new-order, input and output extension and in-place use, on fresh random contents, compared byte for byte with an independent model of the README's sector table; wrong sizes; there-and-back runs. Distinct = distinct (configuration, image content).",
		Require: []string{"reordered images compared", "refusals observed", "swizzles compared"},
	}, func(s *vf.Suite) {
		s.Section("swizzle", 1200, 6000, func(t *vf.T) {
			img := image(t)
			orig := append([]byte{}, img...)
			for _, o := range []string{"do", "po", "raw"} {
				got, err := disk.Swizzle(img, disk.LogicalToPhysicalByName[types.DiskOrder(o)])
				t.Check(err == nil, "Swizzle to physical from %s: %v", o, err)
				want := ref.Conv(orig, o, "raw")
				t.Check(bytes.Equal(got, want), "logical %s to physical: %s", o, vf.FirstDiff(got, want))
				got, err = disk.Swizzle(img, disk.PhysicalToLogicalByName[types.DiskOrder(o)])
				t.Check(err == nil, "Swizzle from physical to %s: %v", o, err)
				want = ref.Conv(orig, "raw", o)
				t.Check(bytes.Equal(got, want), "physical to logical %s: %s", o, vf.FirstDiff(got, want))
				t.Event("swizzles compared", 2)
			}
			t.Check(bytes.Equal(img, orig), "Swizzle changed its input")
			perm := t.Perm(16)
			got, err := disk.Swizzle(img, perm)
			t.Check(err == nil, "Swizzle with permutation %v: %v", perm, err)
			for tr := 0; tr < 35; tr++ {
				for sc := 0; sc < 16; sc++ {
					t.Check(len(got) == len(img) && bytes.Equal(ref.Sec(got, tr, perm[sc]), ref.Sec(img, tr, sc)), "Swizzle %v: track %d sector %d is not at sector %d", perm, tr, sc, perm[sc])
				}
			}
			t.Event("swizzles compared", 1)
			t.Distinct(perm, img[:512])
			// orders that are no permutations
			bad := t.Perm(16)
			switch t.Intn(5) {
			case 0:
				bad[t.Intn(16)] = 16 + t.Intn(100)
				if t.Intn(2) == 0 { // a permutation in the low bits
					bad = t.Perm(16)
					bad[t.Intn(16)] += []int{16, 256, 512, 65536}[t.Intn(4)]
				}
			case 1:
				bad[t.Intn(16)] = -1 - t.Intn(20)
			case 2:
				i := t.Intn(16)
				bad[i] = bad[(i+1+t.Intn(15))%16]
			case 3:
				bad = bad[:t.Intn(15)+1]
			case 4:
				bad = append(bad, 16)
			}
			_, err = disk.Swizzle(img, bad)
			t.Check(err != nil, "Swizzle accepted the order %v", bad)
			n := []int{0, 1, 255, 256, 116480, ref.DiskSize - 1, ref.DiskSize - 256, ref.DiskSize + 1, ref.DiskSize + 256, ref.DiskSize + 4096, 2 * ref.DiskSize}[t.Intn(11)]
			_, err = disk.Swizzle(make([]byte, n), t.Perm(16))
			t.Check(err != nil, "Swizzle accepted %d bytes", n)
			t.Event("refusals observed", 2)
		})
		n := len(cs)
		s.Section("command", n*3, n*12, func(t *vf.T) {
			c := cs[t.I%n]
			dir := t.Fresh()
			img := image(t)
			in := stem(t, dir, "in") + c.inExt
			t.Put(dir, in, img)
			out := stem(t, dir, "out") + c.outExt
			args := []string{"reorder"}
			if c.in != "auto" || t.Intn(2) == 0 {
				args = append(args, "--order", c.in)
			}
			if c.out != "auto" || t.Intn(2) == 0 {
				args = append(args, "--new-order="+c.out)
			}
			args = append(args, in)
			outExt := c.outExt
			if c.outExt == "inplace" {
				out = in
				outExt = ""
			} else {
				args = append(args, out)
				if t.Intn(3) == 0 {
					t.Put(dir, out, ref.RandBytes(t.Rand, t.Intn(300000)))
					args = append(args, "-f")
				}
			}
			before := t.Snapshot(dir)
			from, to, ok := direction(c.in, c.out, c.inExt, outExt)
			res := t.Run(vf.RunOpts{Dir: dir}, args...)
			t.Distinct(c, img[:4096])
			t.Sample("%s -> %s", strings.Join(args, " "), map[bool]string{true: from + " to " + to, false: "refused"}[ok])
			if !ok {
				t.Check(res.Err() && len(res.Stderr) > 0, "must be refused: %v", res)
				d := before.Diff(t.Snapshot(dir))
				t.Check(len(d) == 0, "refused, but %v: %v", d, res)
				t.Event("refusals observed", 1)
				return
			}
			t.Check(res.Exit == 0, "failed: %v", res)
			want := ref.Conv(img, from, to)
			got := t.Get(dir, out)
			t.Check(bytes.Equal(got, want), "%s from %s to %s: %s", strings.Join(args, " "), from, to, vf.FirstDiff(got, want))
			t.Event("reordered images compared", 1)
			// and back
			res = t.Run(vf.RunOpts{Dir: dir}, "reorder", "--order", to, "--new-order", from, out, "back.bin")
			t.Check(res.Exit == 0, "failed: %v", res)
			got = t.Get(dir, "back.bin")
			t.Check(bytes.Equal(got, img), "there and back: %s", vf.FirstDiff(got, img))
			t.Event("reordered images compared", 1)
		})
		s.Section("sizes", 240, 1200, func(t *vf.T) {
			dir := t.Fresh()
			sizes := []int{0, 1, 256, 4096, 35 * 13 * 256, ref.DiskSize - 256, ref.DiskSize - 1, ref.DiskSize + 1, ref.DiskSize + 256, ref.DiskSize + 4096, 2 * ref.DiskSize, 819200}
			sz := sizes[t.I%len(sizes)]
			if t.I >= 2*len(sizes) {
				sz = t.Intn(400000)
				if sz == ref.DiskSize {
					sz++
				}
			}
			t.Put(dir, "in.dsk", ref.RandBytes(t.Rand, sz))
			args := []string{"reorder", "in.dsk"}
			if t.Intn(2) == 0 {
				args = append(args, "out.po")
				if t.Intn(2) == 0 {
					t.Put(dir, "out.po", []byte("precious"))
					args = append(args, "-f")
				}
			}
			before := t.Snapshot(dir)
			res := t.Run(vf.RunOpts{Dir: dir}, args...)
			t.Check(res.Err() && len(res.Stderr) > 0, "%d bytes must be refused: %v", sz, res)
			d := before.Diff(t.Snapshot(dir))
			t.Check(len(d) == 0, "refused, but %v: %v", d, res)
			t.Distinct(sz)
			t.Event("refusals observed", 1)
		})
	})
}
