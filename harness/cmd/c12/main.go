// C12: Integer BASIC listings are faithful.
package main

import (
	"bytes"
	"strings"

	"verif/ref"
	"verif/vf"

	"github.com/zellyn/diskii/basic/integer"
)

func check(t *vf.T, lines []ref.ILine, header int) {
	b := ref.EncodeInteger(lines)
	raw := b
	switch header {
	case 1:
		raw = ref.Header(b)
	case 2:
		raw = append(ref.Header(b), byte(t.Intn(256)))
	default:
		if ref.LooksHeadered(b) {
			if l, ok := ref.DecodeInteger(b); !ok || len(l) != len(lines) || l[0].Num != lines[0].Num || !bytes.Equal(l[0].Bytes, lines[0].Encode()) {
				return // truly a program in both ways
			}
			t.Event("programs whose first bytes are their length", 1)
		}
	}
	if header > 0 && len(b) > 65535 {
		return
	}
	fail := func(f string, a ...interface{}) {
		t.Note("input %x", raw)
		t.Fail(f, a...)
	}
	l, err := integer.Decode(raw)
	t.Eval(1)
	if err != nil {
		fail("program of %d lines refused: %v", len(lines), err)
	}
	if len(l) != len(lines) {
		fail("%d lines decoded, want %d", len(l), len(lines))
	}
	for i, w := range lines {
		if l[i].Num != w.Num || !bytes.Equal(l[i].Bytes, w.Encode()) {
			fail("line %d decoded as %d %x, want %d %x", i, l[i].Num, l[i].Bytes, w.Num, w.Encode())
		}
		if err := ref.MatchListing([]byte(l[i].String()+"\n"), ref.IntegerEls(lines[i:i+1])); err != nil {
			fail("line %d (%x) listed as %q: %v", i, l[i].Bytes, l[i].String(), err)
		}
		for _, k := range w.Toks {
			t.Event("elements of kind "+string(rune(k.Kind)), 1)
		}
	}
	if err := ref.MatchListing([]byte(l.String()), ref.IntegerEls(lines)); err != nil {
		fail("listing %q: %v", l.String(), err)
	}
	t.Event("programs", 1)
	t.Event("lines", len(lines))
	t.Distinct(b)
}

func tok(c byte) ref.ITok { return ref.ITok{Kind: 't', Tok: c} }
func num(n int) ref.ITok  { return ref.ITok{Kind: 'n', Num: n} }
func name(s string) ref.ITok {
	return ref.ITok{Kind: 'v', Text: []byte(s)}
}
func str(s string) ref.ITok { return ref.ITok{Kind: 's', Text: []byte(s)} }
func rem(s string) ref.ITok { return ref.ITok{Kind: 'r', Text: []byte(s)} }

func main() {
	vf.Main(vf.Spec{ID: "C12",
		Rule:        "every token in every neighbourhood, every 16-bit number as constant and as line number, names with digits, strings and comments with every character, random programs, with and without header, compared with the Integer BASIC token table through a blank-tolerant listing matcher",
		Assumptions: []string{"blanks outside strings and comments are not part of the promise", "programs without header whose first two bytes happen to equal their length are not generated where they are programs with header as well"},
		Require:     []string{"elements of kind t", "elements of kind n", "elements of kind v", "elements of kind s", "elements of kind r", "line lengths", "big programs"},
	}, func(s *vf.Suite) {
		s.Section("tokens", 128, 128, func(t *vf.T) {
			c := byte(t.I)
			if c <= 1 || c == 0x28 || c == 0x29 || c == 0x5d {
				return
			}
			for _, l := range [][]ref.ITok{
				{tok(c)}, {tok(c), tok(c)}, {name("A1"), tok(c), num(7)}, {num(32767), tok(c), name("B")}, {str("X1"), tok(c), str("1")},
				{tok(c), num(10)}, {tok(c), name("Z9")}, {tok(c), str("")}, {num(0), tok(c), num(1)}, {tok(c), rem(" 1 2")}, {tok(3), tok(c), tok(3), num(5)},
			} {
				for h := 0; h < 3; h++ {
					check(t, []ref.ILine{{Num: t.Intn(32768), Toks: l}, {Num: t.Intn(32768), Toks: []ref.ITok{tok(0x51)}}}, h)
				}
			}
		})
		s.Section("numbers", 64, 64, func(t *vf.T) {
			for h := 0; h < 2; h++ {
				var lines []ref.ILine
				for x := t.I; x < 65536; x += t.N {
					lines = append(lines, ref.ILine{Num: x, Toks: []ref.ITok{tok(0x5f), num(x)}},
						ref.ILine{Num: 65535 - x, Toks: []ref.ITok{num(x), tok(0x12), num(x / 3), tok(3), name("A0"), tok(0x71), num(x)}})
				}
				check(t, lines, h)
			}
		})
		s.Section("characters", 128, 128, func(t *vf.T) {
			c := string([]byte{byte(t.I)})
			for _, l := range [][]ref.ITok{
				{str(c)}, {str(c + c + c)}, {str("A" + c)}, {str(c + "1")}, {rem(c)}, {rem(c + c)}, {rem(" " + c + " 1")}, {str("1" + c + "2"), tok(3), num(12), tok(3), rem("1" + c)},
				{num(3), tok(3), str(c), tok(3), num(4)},
			} {
				check(t, []ref.ILine{{Num: t.Intn(32768), Toks: l}, {Num: 1, Toks: []ref.ITok{tok(0x51), tok(3), num(1)}}}, t.Intn(3))
			}
		})
		s.Section("names", 3000, 15000, func(t *vf.T) {
			n := []byte{'A' + byte(t.Intn(26))}
			for k := t.Intn(12); k > 0; k-- {
				n = append(n, "ABCXYZ0123456789"[t.Intn(16)])
			}
			nm := name(string(n))
			check(t, []ref.ILine{{Num: 5, Toks: []ref.ITok{tok(0x5e), nm, tok(0x71), num(t.Intn(65536)), tok(0x12), nm}},
				{Num: 6, Toks: []ref.ITok{nm}}, {Num: 7, Toks: []ref.ITok{nm, tok(0x40), tok(0x70), str(string(n))}}}, t.Intn(3))
		})
		s.Section("sizes", 252, 252*10, func(t *vf.T) {
			// a line of every length
			n := t.I % 252 // bytes after the line number
			var toks []ref.ITok
			fill := t.Intn(4)
			left := n
			for left > 0 {
				switch {
				case fill == 0 && left >= 2 && left == n:
					toks = append(toks, str(strings.Repeat("X", left-2)))
					left = 0
				case fill == 1 && left == n:
					toks = append(toks, rem(strings.Repeat("1", left-1)))
					left = 0
				case fill == 2 && left >= 4:
					toks = append(toks, num(t.Intn(65536)), tok(3))
					left -= 4
				default:
					toks = append(toks, tok(0x51))
					left--
				}
			}
			check(t, []ref.ILine{{Num: 1, Toks: toks}, {Num: 2, Toks: []ref.ITok{tok(0x51)}}, {Num: 3, Toks: toks}}, t.I/3%3)
			t.Event("line lengths", 1)
		})
		s.Section("big", 400, 2000, func(t *vf.T) {
			var lines []ref.ILine
			size := 20000 + t.Intn(45000)
			for n := 0; n < size; {
				for _, l := range ref.RandInteger(t.Rand, false) {
					if n += 4 + len(l.Encode()); n > size {
						break
					}
					lines = append(lines, l)
				}
			}
			check(t, lines, t.Intn(3))
			t.Event("big programs", 1)
		})
		s.Section("length-like", 600, 10000, func(t *vf.T) {
			// a program without header that starts with its length
			var lines []ref.ILine
			add := func(num, n int) { // a line of n bytes
				lines = append(lines, ref.ILine{Num: num, Toks: []ref.ITok{rem(strings.Repeat("X", n-5))}})
			}
			first := 5 + t.Intn(120)
			num := 1 + t.Intn(250)
			if t.Intn(2) == 0 {
				num = 1 + t.Intn(20)
			}
			left := first + 256*num + 2 + t.Intn(2) - first
			add(num+256*t.Intn(128), first)
			for left > 0 {
				n := 5 + t.Intn(250)
				if left <= 255 {
					n = left
				} else if left-n < 5 {
					n = left / 2
				}
				num++
				add(num&0x7fff, n)
				left -= n
			}
			check(t, lines, 0)
			check(t, lines, 1+t.Intn(2))
		})
		s.Section("random", 60000, 600000, func(t *vf.T) {
			lines := ref.RandInteger(t.Rand, t.Intn(2) == 0)
			for h := 0; h < 3; h++ {
				check(t, lines, h)
			}
			if t.I < 8 {
				t.Sample("%d lines, encoded %d bytes", len(lines), len(ref.EncodeInteger(lines)))
			}
		})
	})
}
