// C11: Applesoft listings are faithful.
package main

import (
	"bytes"
	"fmt"
	"strings"

	"verif/ref"
	"verif/vf"

	"github.com/zellyn/diskii/basic/applesoft"
)

var locs = []int{0x801, 0x3001, 0, 1, 0x7fff, 0x8000, 0x0c01, 0xc000}

func check(t *vf.T, lines []ref.ALine, at int, header int) {
	b := ref.EncodeApplesoft(lines, at)
	if at+len(b) > 0x10000 {
		return // does not fit in memory there
	}
	raw := b
	switch header {
	case 1:
		raw = ref.Header(b)
	case 2: // as DOS stores it: one byte more than the header says
		raw = append(ref.Header(b), byte(t.Intn(256)))
	case 3, 4: // machine code or old contents of memory behind the program
		n := []int{1, 2, 3, 100, 255, 256, 257, 512, 4096}[t.Intn(9)]
		if room := 65536 - at - len(b); n > room {
			return
		}
		raw = append(append([]byte{}, b...), ref.RandBytes(t.Rand, n)...)
		if header == 4 && len(raw) <= 65535 {
			raw = ref.Header(raw)
		} else if ref.LooksHeadered(raw) {
			return
		}
		t.Event("programs followed by other data", 1)
	default:
		if ref.LooksHeadered(b) {
			if l, ok := ref.DecodeApplesoft(b, at); !ok || !bytes.Equal(ref.EncodeApplesoft(l, at), b) {
				return // truly a program in both ways
			}
			t.Event("programs whose first link is their length", 1)
		}
	}
	fail := func(f string, a ...interface{}) {
		t.Note("location %#x input %x", at, raw)
		t.Fail(f, a...)
	}
	l, err := applesoft.Decode(raw, uint16(at))
	t.Eval(1)
	if err != nil {
		fail("program of %d lines refused: %v", len(lines), err)
	}
	if len(l) != len(lines) {
		fail("%d lines decoded, want %d", len(l), len(lines))
	}
	for i, w := range lines {
		if l[i].Num != w.Num || !bytes.Equal(l[i].Bytes, w.Bytes) {
			fail("line %d decoded as %d %x, want %d %x", i, l[i].Num, l[i].Bytes, w.Num, w.Bytes)
		}
		if err := ref.MatchListing([]byte(l[i].String()+"\n"), ref.ApplesoftEls(lines[i:i+1])); err != nil {
			fail("line %d listed as %q: %v", i, l[i].String(), err)
		}
		for _, c := range w.Bytes {
			if c >= 0x80 {
				t.Event("tokens", 1)
			} else {
				t.Event("literals", 1)
			}
		}
	}
	if err := ref.MatchListing([]byte(l.String()), ref.ApplesoftEls(lines)); err != nil {
		fail("listing %q: %v", l.String(), err)
	}
	t.Event("programs", 1)
	t.Event("lines", len(lines))
	t.Distinct(b)
}

func main() {
	vf.Main(vf.Spec{ID: "C11",
		Rule:        "every token at every position kind, every literal byte, all line numbers at byte boundaries, random programs up to 64 KiB, with and without header, at many load locations, compared with the ROM keyword table through a blank-tolerant listing matcher; decode through the command with and without -r",
		Assumptions: []string{"blanks next to a keyword are not part of the promise (the listing adds them)", "programs without header whose first two bytes happen to equal their length are only generated where they fill the input and are no program with header"},
		Require:     []string{"tokens", "literals", "unknown tokens refused", "command listings", "programs over 32 KiB or 1000 lines", "programs followed by other data"},
	}, func(s *vf.Suite) {
		s.Section("tokens", 128, 128, func(t *vf.T) {
			c := byte(0x80 + t.I)
			ctx := [][]byte{{c}, {c, c}, {'A', c}, {c, '1'}, {'"', c, '"'}, {0xb2, ' ', c}, {0xba, c, ';'}, {c, ' ', c}, {' ', c, ' '}, {0xb2, c}, {0x83, c}}
			for _, b := range ctx {
				for _, at := range locs {
					for h := 0; h < 3; h++ {
						lines := []ref.ALine{{Num: 10, Bytes: b}, {Num: 20, Bytes: []byte{0x80}}}
						if t.I%2 == 1 {
							lines[0], lines[1] = lines[1], lines[0]
						}
						if c <= 0xea {
							check(t, lines, at, h)
							continue
						}
						raw := ref.EncodeApplesoft(lines, at)
						if h > 0 {
							raw = ref.Header(raw)
						} else if ref.LooksHeadered(raw) {
							continue
						}
						_, err := applesoft.Decode(raw, uint16(at))
						t.Check(err != nil, "unknown token %02X in %x was accepted", c, b)
						t.Event("unknown tokens refused", 1)
					}
				}
			}
		})
		s.Section("literals", 127, 127, func(t *vf.T) {
			c := byte(1 + t.I)
			for _, b := range [][]byte{{c}, {c, c, c}, {'A', c, 'B'}, {'"', c, '"'}, {'"', c}, {0xb2, c, c}, {0xba, c}, {c, 0xba}, {0x83, ' ', c, ' ', ','}, {' ', c, ' '}, {' ', ' ', c}} {
				for _, at := range []int{0x801, 0x3001, 0xff00} {
					check(t, []ref.ALine{{Num: t.Intn(65536), Bytes: b}, {Num: t.Intn(65536), Bytes: []byte("END")}}, at, t.Intn(3))
				}
			}
		})
		s.Section("numbers", 64, 512, func(t *vf.T) {
			n := t.N
			var lines []ref.ALine
			for x := t.I; x < 65536; x += n {
				lines = append(lines, ref.ALine{Num: x, Bytes: []byte{0xba}})
				if len(lines) == 900 {
					check(t, lines, 0x801, 0)
					lines = nil
				}
			}
			check(t, lines, 0x801, 1)
		})
		s.Section("random", 32000, 400000, func(t *vf.T) {
			at := locs[t.Intn(len(locs))]
			if t.Intn(2) == 0 {
				at = t.Intn(65536)
			}
			lines := ref.RandApplesoft(t.Rand, t.Intn(2) == 0)
			for h := 0; h < 3; h++ {
				check(t, lines, at, h)
			}
			check(t, lines, at, 3+t.Intn(2))
			if t.I < 8 {
				t.Sample("location %#x: %d lines, encoded %d bytes", at, len(lines), len(ref.EncodeApplesoft(lines, at)))
			}
		})
		s.Section("big", 384, 1920, func(t *vf.T) {
			// programs that fill memory
			at := []int{0x801, 0x801, 0x3001, 0, 1, 0x4001}[t.Intn(6)]
			room := 65536 - at - 3
			size := room/2 + t.Intn(room/2)
			if t.Intn(3) == 0 {
				size = room
			}
			short := t.Intn(2) == 0
			var lines []ref.ALine
			for n := 0; n < size; {
				for _, l := range ref.RandApplesoft(t.Rand, false) {
					if short && len(l.Bytes) > 6 {
						l.Bytes = l.Bytes[:6]
					}
					if n += 5 + len(l.Bytes); n > size {
						break
					}
					lines = append(lines, l)
				}
			}
			check(t, lines, at, t.Intn(3))
			t.Event("programs over 32 KiB or 1000 lines", 1)
		})
		s.Section("length-like", 1200, 20000, func(t *vf.T) {
			at := []int{0x801, 0x801, 0x3001, t.Intn(0x100), t.Intn(0x7f00), 5, 256}[t.Intn(7)]
			lines := ref.LengthLikeApplesoft(t.Rand, at)
			if lines == nil {
				return
			}
			check(t, lines, at, 0)
			check(t, lines, at, 1+t.Intn(2))
		})
		s.Section("unordered", 4000, 20000, func(t *vf.T) {
			// lines linked in an order other than their place in memory, and
			// with unused bytes between them
			at := 0x801
			n := 1 + t.Intn(8)
			lines := ref.RandApplesoft(t.Rand, false)
			if len(lines) > n {
				lines = lines[:n]
			}
			n = len(lines)
			if n == 0 {
				return
			}
			place := append([]int{0}, func() []int {
				p := t.Perm(n - 1)
				for i := range p {
					p[i]++
				}
				return p
			}()...)
			pos := make([]int, n+1)
			var b []byte
			for _, i := range place {
				pos[i] = at + len(b)
				b = append(b, 0, 0, byte(lines[i].Num), byte(lines[i].Num>>8))
				b = append(b, lines[i].Bytes...)
				b = append(b, 0)
				for k := t.Intn(4); k > 0; k-- {
					b = append(b, byte(t.Intn(256)))
				}
			}
			pos[n] = at + len(b)
			b = append(b, 0, 0)
			for i := 0; i < n; i++ {
				b[pos[i]-at], b[pos[i]-at+1] = byte(pos[i+1]), byte(pos[i+1]>>8)
			}
			if ref.LooksHeadered(b) {
				return
			}
			l, err := applesoft.Decode(b, uint16(at))
			t.Note("input %x", b)
			t.Check(err == nil, "%v", err)
			err = ref.MatchListing([]byte(l.String()), ref.ApplesoftEls(lines))
			t.Check(err == nil, "listing %q: %v", l.String(), err)
			t.Event("programs with lines out of order in memory", 1)
			t.Distinct(b)
		})
		s.Section("command", 200, 4000, func(t *vf.T) {
			dir := t.Fresh()
			at := locs[t.Intn(len(locs))]
			lines := ref.RandApplesoft(t.Rand, t.Intn(2) == 0)
			if t.Intn(2) == 0 {
				// all tokens
				lines = nil
				for c := 0x80; c <= 0xea; c++ {
					lines = append(lines, ref.ALine{Num: c, Bytes: []byte{byte(c), 'X', byte(c)}})
				}
			}
			b := ref.EncodeApplesoft(lines, at)
			if at+len(b) > 65536 {
				return
			}
			if ref.LooksHeadered(b) || t.Intn(2) == 0 {
				b = ref.Header(b)
			}
			t.Put(dir, "prog.bin", b)
			args := []string{"applesoft", "decode"}
			if at != 0x801 || t.Intn(2) == 0 {
				f := []string{"%#x", "%d", "0x%X", "%#o"}[t.Intn(4)]
				args = append(args, []string{"--location=" + fmt.Sprintf(f, at)}...)
			}
			raw := t.Intn(2) == 0
			if raw {
				args = append(args, []string{"-r", "--raw"}[t.Intn(2)])
			}
			o := vf.RunOpts{Dir: dir}
			if t.Intn(3) == 0 {
				o.Stdin = b
				if t.Intn(2) == 0 {
					args = append(args, "-")
				}
			} else {
				args = append(args, "prog.bin")
			}
			r := t.Run(o, args...)
			t.Check(r.Exit == 0 && len(r.Stderr) == 0, "%v", r)
			els := ref.ApplesoftEls(lines)
			if !raw {
				for i := range els {
					els[i].Text = chevron(els[i].Text)
				}
			}
			err := ref.MatchListing(r.Stdout, els)
			t.Check(err == nil, "%v: %v", r, err)
			t.Event("command listings", 1)
			t.Distinct(b, raw)
		})
	})
}

// chevron escapes the control characters whose escape is documented; the
// whole mapping is the subject of C22.
func chevron(s string) string {
	if !strings.ContainsFunc(s, func(r rune) bool { return r == 127 || r < 32 && r != '\n' && r != '\t' }) {
		return s
	}
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		b.WriteString(ref.Chevron(s[i]))
	}
	return b.String()
}
