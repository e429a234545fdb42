// C10: BASIC decoders accept or reject any input without crashing.
package main

import (
	"bytes"
	"encoding/binary"
	"fmt"

	"verif/ref"
	"verif/vf"

	"github.com/zellyn/diskii/basic"
	"github.com/zellyn/diskii/basic/applesoft"
	"github.com/zellyn/diskii/basic/integer"
)

var locs = []int{0x801, 0x3001, 0, 1, 0x7fff, 0x8000, 0xfff0, 0xffff, 0x0c01}

func loc(t *vf.T) int {
	if t.Intn(3) > 0 {
		return locs[t.Intn(len(locs))]
	}
	return t.Intn(65536)
}

// soft decodes one input and compares accept or reject with the strict
// reference walker.
func soft(t *vf.T, raw []byte, at int) {
	in := append([]byte{}, raw...)
	l, err := applesoft.Decode(in, uint16(at))
	want, ok := ref.DecodeApplesoft(raw, at)
	t.Eval(1)
	t.Check(bytes.Equal(in, raw), "Applesoft Decode changed its input")
	if err == nil {
		s := l.String()
		_ = basic.ChevronControlCodes(s)
		_ = integer.ChevronControlCodes(s)
	}
	if ok != (err == nil) {
		t.Note("location %#x input %x", at, raw)
	}
	if err == nil && !ok {
		t.Fail("Applesoft: a program that is cut short, leaves its bounds, revisits a line or has an unknown token was listed as complete with %d lines (location %#x, %d bytes)", len(l), at, len(raw))
	}
	if err != nil && ok {
		t.Fail("Applesoft: a complete program of %d lines was refused: %v (location %#x, %d bytes)", len(want), err, at, len(raw))
	}
	if ok {
		t.Event("Applesoft accepted", 1)
		t.Check(len(l) == len(want), "Applesoft: %d lines listed, want %d", len(l), len(want))
		t.Distinct(raw, at)
	} else {
		t.Event("Applesoft rejected", 1)
	}
}

func intg(t *vf.T, raw []byte) {
	in := append([]byte{}, raw...)
	l, err := integer.Decode(in)
	want, ok := ref.DecodeInteger(raw)
	t.Eval(1)
	t.Check(bytes.Equal(in, raw), "Integer Decode changed its input")
	if err == nil {
		s := l.String()
		_ = basic.ChevronControlCodes(s)
		_ = integer.ChevronControlCodes(s)
	}
	if ok != (err == nil) {
		t.Note("input %x", raw)
	}
	if err == nil && !ok {
		t.Fail("Integer: a program that is cut short or malformed was listed as complete with %d lines (%d bytes)", len(l), len(raw))
	}
	if err != nil && ok {
		t.Fail("Integer: a complete program of %d lines was refused: %v (%d bytes)", len(want), err, len(raw))
	}
	if ok {
		t.Event("Integer accepted", 1)
		t.Check(len(l) == len(want), "Integer: %d lines listed, want %d", len(l), len(want))
		t.Distinct(raw)
	} else {
		t.Event("Integer rejected", 1)
	}
}

func maybeHeader(t *vf.T, b []byte) []byte {
	if t.Intn(2) == 0 {
		return ref.Header(b)
	}
	return b
}

func mutate(t *vf.T, b []byte) []byte {
	b = append([]byte{}, b...)
	for k := 1 + t.Intn(4); k > 0 && len(b) > 0; k-- {
		i := t.Intn(len(b))
		switch t.Intn(6) {
		case 0:
			b[i] = byte(t.Intn(256))
		case 1:
			b[i] = []byte{0, 1, 3, 4, 0xff, 0xea, 0xeb, 0x80, 0x5d, 0x28, 0x29, 0xb0}[t.Intn(12)]
		case 2:
			b = append(b[:i], b[i+1:]...)
		case 3:
			b = append(b[:i], append([]byte{byte(t.Intn(256))}, b[i:]...)...)
		case 4:
			b[i]++
		case 5:
			j := t.Intn(len(b))
			b[i], b[j] = b[j], b[i]
		}
	}
	return b
}

func main() {
	vf.Main(vf.Spec{ID: "C10",
		Rule:        "random byte strings, programs of the reference encoders, mutations of them, every cut point, link graphs of every shape (cycles, self links, backwards, out of range) at many load locations, all short inputs over a critical alphabet; decoded in process under panic, CPU and memory watch and through the command",
		Assumptions: []string{"a program 'complete' is what the independent strict walker in ref/basic.go accepts"},
		Require:     []string{"Applesoft accepted", "Applesoft rejected", "Integer accepted", "Integer rejected", "command listed", "command refused"},
	}, func(s *vf.Suite) {
		s.Section("soft-random", 40000, 400000, func(t *vf.T) {
			n := t.Intn(40)
			if t.Intn(5) == 0 {
				n = t.Intn(3000)
			}
			if t.Intn(300) == 0 {
				n = 65530 + t.Intn(2000)
			}
			b := make([]byte, n)
			t.Read(b)
			if t.Intn(2) == 0 {
				for i := range b {
					b[i] = []byte{0, 0, 1, 8, 0x10, 0x20, 'A', 0x80, 0xea}[int(b[i])%9]
				}
			}
			soft(t, b, loc(t))
			soft(t, ref.Header(b), loc(t))
		})
		s.Section("soft-mutated", 60000, 600000, func(t *vf.T) {
			at := loc(t)
			b := ref.EncodeApplesoft(ref.RandApplesoft(t.Rand, t.Intn(2) == 0), at)
			soft(t, maybeHeader(t, b), at)
			for k := 0; k < 6; k++ {
				soft(t, mutate(t, maybeHeader(t, b)), at)
			}
			soft(t, maybeHeader(t, b), loc(t)) // wrong location
		})
		s.Section("soft-cuts", 3000, 15000, func(t *vf.T) {
			at := loc(t)
			lines := ref.RandApplesoft(t.Rand, true)
			if len(lines) > 15 {
				lines = lines[:15]
			}
			b := ref.EncodeApplesoft(lines, at)
			h := ref.Header(b)
			for c := 0; c <= len(b); c++ {
				soft(t, b[:c], at)
				soft(t, h[:c], at)
				soft(t, ref.Header(b[:c]), at) // cut, with a header that says so
				t.Event("cut points", 3)
			}
		})
		s.Section("soft-links", 40000, 400000, func(t *vf.T) {
			// lines whose links form an arbitrary graph
			at := loc(t)
			if t.Intn(3) > 0 {
				at = 0x801
			}
			n := 1 + t.Intn(8)
			var b []byte
			var pos []int
			for i := 0; i < n; i++ {
				pos = append(pos, at+len(b))
				b = append(b, 0, 0, byte(i), byte(t.Intn(3)))
				for k := t.Intn(5); k > 0; k-- {
					b = append(b, byte(0x20+t.Intn(0x60+0x6b)))
				}
				b = append(b, 0)
			}
			pos = append(pos, at+len(b))
			b = append(b, 0, 0)
			for i := 0; i < n; i++ {
				x := pos[i+1]
				switch t.Intn(7) {
				case 0:
					x = pos[t.Intn(n+1)]
				case 1:
					if t.Intn(4) == 0 {
						x = at + len(b) - 4 + t.Intn(8)
					}
				case 2:
					if t.Intn(6) == 0 {
						x = at - 4 + t.Intn(6)
					}
				case 3:
					if t.Intn(6) == 0 {
						x = t.Intn(65536)
					}
				}
				binary.LittleEndian.PutUint16(b[pos[i]-at:], uint16(x))
			}
			soft(t, maybeHeader(t, b), at)
			t.Event("link graphs", 1)
		})
		s.Section("soft-long", 600, 3000, func(t *vf.T) {
			// thousands of lines, and somewhere a link back, ahead or out
			at := []int{0x801, 0x801, 0x3001, 0}[t.Intn(4)]
			n := 500 + t.Intn(9000)
			width := 1 + t.Intn(2)
			var b []byte
			var pos []int
			for i := 0; i < n && at+len(b) < 65000; i++ {
				pos = append(pos, len(b))
				next := at + len(b) + 5 + width
				b = append(b, byte(next), byte(next>>8), byte(i), byte(i>>8))
				for k := 0; k < width; k++ {
					b = append(b, 0x80)
				}
				b = append(b, 0)
			}
			n = len(pos)
			b = append(b, 0, 0)
			soft(t, maybeHeader(t, b), at)
			for k := 0; k < 4; k++ {
				c := append([]byte{}, b...)
				i := n - 1
				if t.Intn(2) == 0 {
					i = t.Intn(n)
				}
				to := at + pos[[]int{i, 0, t.Intn(i + 1), t.Intn(n), i - t.Intn(i+1)/8}[t.Intn(5)]]
				c[pos[i]], c[pos[i]+1] = byte(to), byte(to>>8)
				soft(t, maybeHeader(t, c), at)
			}
			// a link to anywhere, with memory filled up behind the program
			c := append(append([]byte{}, b...), make([]byte, 66000+t.Intn(4000)-len(b))...)
			i := t.Intn(n)
			to := t.Intn(65536)
			if at > 0 && t.Intn(2) == 0 {
				to = 1 + t.Intn(at)
			}
			c[pos[i]], c[pos[i]+1] = byte(to), byte(to>>8)
			soft(t, c, at)
			t.Event("long programs", 1)
		})
		s.Section("int-random", 40000, 400000, func(t *vf.T) {
			n := t.Intn(40)
			if t.Intn(5) == 0 {
				n = t.Intn(3000)
			}
			if t.Intn(300) == 0 {
				n = 65530 + t.Intn(2000)
			}
			b := make([]byte, n)
			t.Read(b)
			if t.Intn(2) == 0 {
				for i := range b {
					b[i] = []byte{0, 1, 1, 3, 4, 5, 6, 0x5d, 0xb1, 0x28}[int(b[i])%10]
				}
			}
			intg(t, b)
			intg(t, ref.Header(b))
		})
		s.Section("int-mutated", 60000, 600000, func(t *vf.T) {
			b := ref.EncodeInteger(ref.RandInteger(t.Rand, t.Intn(2) == 0))
			intg(t, maybeHeader(t, b))
			for k := 0; k < 6; k++ {
				intg(t, mutate(t, maybeHeader(t, b)))
			}
		})
		s.Section("int-cuts", 3000, 15000, func(t *vf.T) {
			lines := ref.RandInteger(t.Rand, true)
			if len(lines) > 15 {
				lines = lines[:15]
			}
			b := ref.EncodeInteger(lines)
			h := ref.Header(b)
			for c := 0; c <= len(b); c++ {
				intg(t, b[:c])
				intg(t, h[:c])
				intg(t, ref.Header(b[:c]))
				t.Event("cut points", 3)
			}
		})
		s.Section("int-lines", 40000, 200000, func(t *vf.T) {
			// framed lines with arbitrary contents: numbers and strings cut
			// by the end of the line, comments, any byte
			var b []byte
			for n := 1 + t.Intn(6); n > 0; n-- {
				k := t.Intn(8)
				if t.Intn(8) == 0 {
					k = t.Intn(252)
				}
				b = append(b, byte(k+4), byte(t.Intn(256)), byte(t.Intn(256)))
				for ; k > 0; k-- {
					c := byte(t.Intn(256))
					if t.Intn(2) == 0 {
						c = []byte{0xb0, 0xb9, 0x28, 0x29, 0x5d, 0xc1, 0x00, 0x01, 0xff, 0xba, 0xaf}[t.Intn(11)]
					}
					b = append(b, c)
				}
				b = append(b, 1)
			}
			intg(t, maybeHeader(t, b))
		})
		// every string of up to 6 bytes over a small alphabet
		small := []byte{0, 1, 4, 5, 0x80, 0xeb, 'A'}
		s.Section("exhaustive", 49, 49, func(t *vf.T) {
			max := 6
			if t.Thorough {
				max = 7
			}
			b := []byte{small[t.I/7], small[t.I%7]}
			var rec func(b []byte)
			rec = func(b []byte) {
				soft(t, b, 0x101)
				soft(t, b, 0x404)
				soft(t, b, 0)
				intg(t, b)
				if len(b) == max {
					return
				}
				for _, c := range small {
					rec(append(b[:len(b):len(b)], c))
				}
			}
			rec(b)
			t.Event("exhaustive prefixes", 1)
		})
		s.Section("tiny", 1, 1, func(t *vf.T) {
			soft(t, nil, 0x801)
			soft(t, []byte{}, 0)
			intg(t, nil)
			for i := 0; i < 256; i++ {
				for _, l := range []int{0, 1, 0x801, 0xffff} {
					soft(t, []byte{byte(i)}, l)
				}
				intg(t, []byte{byte(i)})
			}
		})
		s.Section("command", 160, 3000, func(t *vf.T) {
			dir := t.Fresh()
			at := loc(t)
			b := ref.EncodeApplesoft(ref.RandApplesoft(t.Rand, true), at)
			if t.Intn(2) == 0 {
				b = mutate(t, b)
			}
			if t.Intn(4) == 0 && len(b) > 0 {
				b = b[:t.Intn(len(b))]
			}
			b = maybeHeader(t, b)
			_, ok := ref.DecodeApplesoft(b, at)
			t.Put(dir, "p.bin", b)
			args := []string{"applesoft", "decode", "--location", fmt.Sprintf("%#x", at)}
			if t.Intn(2) == 0 {
				args = append(args, "-r")
			}
			r := t.Run(vf.RunOpts{Dir: dir}, append(args, "p.bin")...)
			if ok {
				t.Check(r.Exit == 0, "complete program refused: %v", r)
				t.Event("command listed", 1)
			} else {
				t.Check(r.Err() && len(r.Stdout) == 0 && len(r.Stderr) > 0, "damaged program: want an error and no listing, got %v", r)
				t.Event("command refused", 1)
			}
			t.Distinct(b)
		})
	})
}
