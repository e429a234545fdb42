package ref

import (
	"bytes"
	"fmt"
	"math/rand"
	"strings"
)

// ApplesoftTokens is the keyword table of the Applesoft ROM ($D0D0), tokens
// $80 to $EA in order.
var ApplesoftTokens = strings.Fields(`END FOR NEXT DATA INPUT DEL DIM READ GR TEXT PR# IN# CALL PLOT HLIN VLIN
HGR2 HGR HCOLOR= HPLOT DRAW XDRAW HTAB HOME ROT= SCALE= SHLOAD TRACE NOTRACE NORMAL INVERSE FLASH
COLOR= POP VTAB HIMEM: LOMEM: ONERR RESUME RECALL STORE SPEED= LET GOTO RUN IF RESTORE &
GOSUB RETURN REM STOP ON WAIT LOAD SAVE DEF POKE PRINT CONT LIST CLEAR GET NEW
TAB( TO FN SPC( THEN AT NOT STEP + - * / ^ AND OR >
= < SGN INT ABS USR FRE SCRN( PDL POS SQR RND LOG EXP COS SIN
TAN ATN PEEK LEN STR$ VAL ASC CHR$ LEFT$ RIGHT$ MID$`)

// IntegerTokens is the token table of Integer BASIC, $00 to $7F; "" where the
// byte does not stand for text in a program.
var IntegerTokens = [128]string{}

func init() {
	f := strings.Fields(`HIMEM: . _ : LOAD SAVE CON RUN RUN DEL , NEW CLR AUTO , MAN
HIMEM: LOMEM: + - * / = # >= > <= <> < AND OR MOD
^ + ( , THEN THEN , , " " ( ! ! ( PEEK RND
SGN ABS PDL RNDX ( + - NOT ( = # LEN( ASC( SCRN( , (
$ $ ( , , ; ; ; , , , TEXT GR CALL DIM DIM
TAB END INPUT INPUT INPUT FOR = TO STEP NEXT , RETURN GOSUB REM LET GOTO
IF PRINT PRINT PRINT POKE , COLOR= PLOT , HLIN , AT VLIN , AT VTAB
= = ) ) LIST , LIST POP NODSP NODSP NOTRACE DSP DSP TRACE PR# IN#`)
	if len(f) != 128 || len(ApplesoftTokens) != 0xEB-0x80 {
		panic(fmt.Sprint("ref: token tables: ", len(f), len(ApplesoftTokens)))
	}
	for i, x := range f {
		IntegerTokens[i] = x
	}
	IntegerTokens[1] = ""
}

// El is an element a listing must consist of: text that must appear exactly,
// or at least Min blanks (Flex).
type El struct {
	Text string
	Flex bool
	Min  int
}

// MatchListing checks that a listing consists of the given elements. Blanks
// in texts next to a flexible element count towards its minimum.
func MatchListing(got []byte, els []El) error {
	// normalise
	var n []El
	for _, e := range els {
		if e.Flex {
			if len(n) > 0 && n[len(n)-1].Flex {
				n[len(n)-1].Min += e.Min
				continue
			}
			// take the trailing blanks of the previous text
			if len(n) > 0 {
				t := strings.TrimRight(n[len(n)-1].Text, " ")
				e.Min += len(n[len(n)-1].Text) - len(t)
				n[len(n)-1].Text = t
				if t == "" {
					n = n[:len(n)-1]
					if len(n) > 0 && n[len(n)-1].Flex {
						n[len(n)-1].Min += e.Min
						continue
					}
				}
			}
			n = append(n, e)
			continue
		}
		if e.Text == "" {
			continue
		}
		if len(n) > 0 && n[len(n)-1].Flex {
			t := strings.TrimLeft(e.Text, " ")
			n[len(n)-1].Min += len(e.Text) - len(t)
			e.Text = t
			if t == "" {
				continue
			}
		}
		if len(n) > 0 && !n[len(n)-1].Flex {
			n[len(n)-1].Text += e.Text
			continue
		}
		n = append(n, e)
	}
	p := 0
	for _, e := range n {
		if e.Flex {
			c := 0
			for p < len(got) && got[p] == ' ' {
				p++
				c++
			}
			if c < e.Min {
				return fmt.Errorf("at offset %d: %d blanks, want at least %d; context %q", p, c, e.Min, context(got, p))
			}
			continue
		}
		if !bytes.HasPrefix(got[p:], []byte(e.Text)) {
			return fmt.Errorf("at offset %d: want %q; context %q", p, e.Text, context(got, p))
		}
		p += len(e.Text)
	}
	if p != len(got) {
		return fmt.Errorf("at offset %d: unexpected text %q", p, context(got, p))
	}
	return nil
}

func context(b []byte, p int) []byte {
	a, z := p-30, p+30
	if a < 0 {
		a = 0
	}
	if z > len(b) {
		z = len(b)
	}
	return b[a:z]
}

func alnum(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z'
}

// apart requires a blank after a keyword that ends in a letter if a letter or
// a digit follows and, with both, before one that begins with a letter if it
// follows such a character.
func apart(els []El, from int, keyword map[int]bool, both bool) {
	for i := from; i < len(els); i++ {
		if els[i].Text == "" {
			continue
		}
		for j := i + 1; j < len(els) && els[i].Text != "\n"; j++ {
			if els[j].Text == "" {
				continue
			}
			if alnum(els[i].Text[len(els[i].Text)-1]) && alnum(els[j].Text[0]) && (keyword[i] || both && keyword[j]) {
				els[i+1].Min = 1
			}
			break
		}
	}
}

// Spell returns a keyword as elements: its letters with any blanks around.
func Spell(k string) []El {
	r := []El{{Flex: true}}
	// blanks inside a keyword are only tolerated before # and (
	i := strings.IndexAny(k, "#(")
	if i > 0 && len(k) > 1 {
		return append(r, El{Text: k[:i]}, El{Flex: true}, El{Text: k[i:]}, El{Flex: true})
	}
	return append(r, El{Text: k}, El{Flex: true})
}

// ALine is a line of a program.
type ALine struct {
	Num   int
	Bytes []byte
}

// RandApplesoft makes the lines of a program. Without ctrl there are no
// control characters.
func RandApplesoft(r *rand.Rand, ctrl bool) []ALine {
	n := r.Intn(12)
	if r.Intn(10) == 0 {
		n = 60 + r.Intn(60)
	}
	lines := make([]ALine, n)
	num := 0
	for i := range lines {
		switch r.Intn(6) {
		case 0:
			num = r.Intn(65536)
		case 1:
			num += r.Intn(256)
		default:
			num += r.Intn(20)
		}
		num &= 0xffff
		lines[i].Num = num
		var b []byte
		lit := func(k int) {
			for ; k > 0; k-- {
				c := byte(0x20 + r.Intn(0x5f))
				if ctrl && r.Intn(5) == 0 {
					c = byte(1 + r.Intn(127))
				}
				b = append(b, c)
			}
		}
		k := r.Intn(12)
		switch r.Intn(30) {
		case 0:
			k = 0
		case 1: // longer than a line that can be typed in
			k = 40 + r.Intn(40)
		case 2:
			lit(230 + r.Intn(300))
		}
		for ; k > 0; k-- {
			switch r.Intn(7) {
			case 0, 1, 2:
				b = append(b, 0x80+byte(r.Intn(0xEB-0x80)))
			case 3:
				b = append(b, '"')
				lit(r.Intn(12))
				b = append(b, '"')
			case 4:
				lit(1 + r.Intn(5))
			case 5:
				b = append(b, []byte(fmt.Sprint(r.Intn(70000)))...)
			case 6:
				b = append(b, 0xB2) // REM
				for s := r.Intn(4); s > 0; s-- {
					b = append(b, ' ')
				}
				lit(r.Intn(20))
			}
		}
		lines[i].Bytes = b
	}
	return lines
}

// EncodeApplesoft lays a program out in memory at a location.
func EncodeApplesoft(lines []ALine, loc int) []byte {
	var b []byte
	for _, l := range lines {
		next := loc + len(b) + 4 + len(l.Bytes) + 1
		b = append(b, byte(next), byte(next>>8), byte(l.Num), byte(l.Num>>8))
		b = append(b, l.Bytes...)
		b = append(b, 0)
	}
	return append(b, 0, 0)
}

// Header adds the two-byte length.
func Header(b []byte) []byte {
	return append([]byte{byte(len(b)), byte(len(b) >> 8)}, b...)
}

// LooksHeadered tells whether the first two bytes look like the length of the rest.
func LooksHeadered(b []byte) bool {
	if len(b) < 2 {
		return false
	}
	n := int(b[0]) | int(b[1])<<8
	return n == len(b)-2 || n == len(b)-3
}

// LengthLikeApplesoft makes a program without header whose first two bytes are its
// length, less the two or three bytes a header makes. It fills at most 64 KiB
// from loc; nil if there is none.
func LengthLikeApplesoft(r *rand.Rand, loc int) []ALine {
	first := r.Intn(60)
	size := loc + first + 5 + 2 + r.Intn(2) // of the whole program
	left := size - 2 - (first + 5)
	if loc+size > 65536 || left < 0 || left > 0 && left < 5 {
		return nil
	}
	text := func(n int) []byte {
		b := make([]byte, n)
		for i := range b {
			if b[i] = byte(1 + r.Intn(0xea)); b[i] == 0x22 {
				b[i] = 'A'
			}
		}
		return b
	}
	num := []int{0, 0, 1, 5, 10, 10, 100, 2049, 2053, 63999, 65535, r.Intn(65536)}[r.Intn(12)]
	lines := []ALine{{Num: num, Bytes: text(first)}}
	max := 20 + r.Intn(230)
	for left > 0 {
		n := r.Intn(max)
		if n+5 > left || left-n-5 < 5 {
			n = left - 5
			if n > 250 {
				n = left/2 - 5
			}
		}
		num += []int{1, 1, 10, 100}[r.Intn(4)]
		lines = append(lines, ALine{Num: num & 0xffff, Bytes: text(n)})
		left -= n + 5
	}
	return lines
}

// ApplesoftEls returns what a listing must consist of.
func ApplesoftEls(lines []ALine) []El {
	var els []El
	keyword := map[int]bool{}
	for _, l := range lines {
		els = append(els, El{Flex: true}, El{Text: fmt.Sprint(l.Num)})
		if len(l.Bytes) > 0 && l.Bytes[0] < 0x80 {
			els = append(els, El{Flex: true, Min: 1})
		} else {
			els = append(els, El{Flex: true})
		}
		for _, c := range l.Bytes {
			if c < 0x80 {
				els = append(els, El{Text: string([]byte{c})})
			} else {
				keyword[len(els)+1] = true
				els = append(els, Spell(ApplesoftTokens[c-0x80])...)
			}
		}
		els = append(els, El{Flex: true}, El{Text: "\n"})
	}
	if len(els) > 0 {
		els = append(els, El{Flex: true})
	}
	apart(els, 0, keyword, true)
	return els
}

// LengthOf returns the length of an Applesoft program whose lines follow each
// other.
func LengthOf(lines []ALine) int {
	n := 2
	for _, l := range lines {
		n += len(l.Bytes) + 5
	}
	return n
}

// DecodeApplesoft follows a program strictly; ok is false if it is cut short,
// leaves the input, revisits a line or has an unknown token. If the first two
// bytes can be a length or a link, they are a link if the program is wrong
// otherwise and right with it, down to the last byte.
func DecodeApplesoft(raw []byte, loc int) (lines []ALine, ok bool) {
	if !LooksHeadered(raw) {
		return walkApplesoft(raw, loc)
	}
	size := int(raw[0]) | int(raw[1])<<8
	lines, ok = walkApplesoft(raw[2:], loc)
	if !ok || LengthOf(lines) != size {
		if l, ok := walkApplesoft(raw, loc); ok && LengthOf(l) == len(raw) {
			return l, true
		}
	}
	return lines, ok
}

func walkApplesoft(raw []byte, loc int) (lines []ALine, ok bool) {
	seen := map[int]bool{}
	for p := loc; ; {
		o := p - loc
		if o < 0 || o+2 > len(raw) || seen[p] {
			return nil, false
		}
		seen[p] = true
		next := int(raw[o]) | int(raw[o+1])<<8
		if next == 0 {
			return lines, true
		}
		if o+4 > len(raw) {
			return nil, false
		}
		l := ALine{Num: int(raw[o+2]) | int(raw[o+3])<<8}
		z := o + 4
		for z < len(raw) && raw[z] != 0 {
			if raw[z] > 0xEA {
				return nil, false
			}
			z++
		}
		if z == len(raw) {
			return nil, false
		}
		l.Bytes = append([]byte{}, raw[o+4:z]...)
		lines = append(lines, l)
		p = next
	}
}

// ITok is an element of an Integer BASIC line.
type ITok struct {
	Kind byte // 't' token, 'n' number, 'v' name, 's' string, 'r' REM with comment
	Tok  byte
	Num  int
	Text []byte // characters without high bit
}

// ILine is a line of an Integer BASIC program.
type ILine struct {
	Num  int
	Toks []ITok
}

// RandInteger makes the lines of a program.
func RandInteger(r *rand.Rand, ctrl bool) []ILine {
	n := r.Intn(12)
	if r.Intn(10) == 0 {
		n = 60 + r.Intn(60)
	}
	lines := make([]ILine, n)
	num := 0
	for i := range lines {
		num += r.Intn(40)
		if r.Intn(6) == 0 {
			num = r.Intn(32768)
		}
		if r.Intn(12) == 0 {
			num = r.Intn(65536)
		}
		num &= 0xffff
		lines[i].Num = num
		size := 4
		add := func(t ITok) bool {
			w := 1
			switch t.Kind {
			case 'n':
				w = 3
			case 'v':
				w = len(t.Text)
			case 's':
				w = len(t.Text) + 2
			case 'r':
				w = len(t.Text) + 1
			}
			if size+w > 255 {
				return false
			}
			size += w
			lines[i].Toks = append(lines[i].Toks, t)
			return true
		}
		chars := func(k int) []byte {
			b := make([]byte, k)
			for j := range b {
				b[j] = byte(0x20 + r.Intn(0x5f))
				if r.Intn(3) == 0 {
					b[j] = '0' + byte(r.Intn(10))
				}
				if ctrl && r.Intn(5) == 0 {
					b[j] = byte(r.Intn(128))
				}
			}
			return b
		}
		k := 1 + r.Intn(20)
		if r.Intn(20) == 0 { // up to the longest possible line
			k = 60 + r.Intn(200)
		}
		for ; k > 0; k-- {
			last := byte('t')
			if ts := lines[i].Toks; len(ts) > 0 {
				last = ts[len(ts)-1].Kind
			}
			switch c := r.Intn(8); {
			case c < 3 || last == 'n' || last == 'v':
				t := byte(r.Intn(128))
				for t == 0 || t == 1 || t == 0x28 || t == 0x29 || t == 0x5d {
					t = byte(2 + r.Intn(126))
				}
				add(ITok{Kind: 't', Tok: t})
			case c == 3 || c == 4:
				v := r.Intn(32768)
				switch r.Intn(6) {
				case 0:
					v = r.Intn(65536)
				case 1:
					v = r.Intn(300)
				case 2:
					v = []int{0, 1, 9, 10, 255, 256, 32767, 0x0101, 0x2829, 0x5d5d, 0xb1b1}[r.Intn(11)]
				}
				// the marker is the first digit of the number, as Integer BASIC stores it
				add(ITok{Kind: 'n', Num: v})
			case c == 5:
				b := []byte{'A' + byte(r.Intn(26))}
				for q := r.Intn(6); q > 0; q-- {
					if r.Intn(3) == 0 {
						b = append(b, '0'+byte(r.Intn(10)))
					} else {
						b = append(b, 'A'+byte(r.Intn(26)))
					}
				}
				if r.Intn(5) == 0 { // lower case, as typed on a later machine
					b = bytes.ToLower(b)
				}
				add(ITok{Kind: 'v', Text: b})
			case c == 6:
				add(ITok{Kind: 's', Text: chars(r.Intn(14))})
			case c == 7:
				if add(ITok{Kind: 'r', Text: chars(r.Intn(20))}) {
					k = 1 // a comment ends the line
				}
			}
		}
	}
	return lines
}

// Encode returns the tokenized form of a line's contents.
func (l ILine) Encode() []byte {
	var b []byte
	hi := func(t []byte) {
		for _, c := range t {
			b = append(b, c|0x80)
		}
	}
	for _, t := range l.Toks {
		switch t.Kind {
		case 't':
			b = append(b, t.Tok)
		case 'n':
			b = append(b, 0x80|fmt.Sprint(t.Num)[0], byte(t.Num), byte(t.Num>>8))
		case 'v':
			hi(t.Text)
		case 's':
			b = append(b, 0x28)
			hi(t.Text)
			b = append(b, 0x29)
		case 'r':
			b = append(b, 0x5d)
			hi(t.Text)
		}
	}
	return b
}

// EncodeInteger returns the program.
func EncodeInteger(lines []ILine) []byte {
	var b []byte
	for _, l := range lines {
		c := l.Encode()
		b = append(b, byte(len(c)+4), byte(l.Num), byte(l.Num>>8))
		b = append(b, c...)
		b = append(b, 1)
	}
	return b
}

// IntegerEls returns what a listing must consist of.
func IntegerEls(lines []ILine) []El {
	var els []El
	keyword := map[int]bool{}
	for _, l := range lines {
		els = append(els, El{Flex: true}, El{Text: fmt.Sprint(l.Num)}, El{Flex: true, Min: 1})
		for _, t := range l.Toks {
			switch t.Kind {
			case 't':
				keyword[len(els)+1] = true
				els = append(els, Spell(IntegerTokens[t.Tok])...)
			case 'n':
				els = append(els, El{Flex: true}, El{Text: fmt.Sprint(t.Num)}, El{Flex: true})
			case 'v':
				els = append(els, El{Flex: true}, El{Text: string(t.Text)}, El{Flex: true})
			case 's':
				els = append(els, El{Flex: true}, El{Text: `"` + string(t.Text) + `"`}, El{Flex: true})
			case 'r':
				keyword[len(els)+1] = true
				els = append(els, Spell("REM")...)
				els = append(els, El{Text: string(t.Text)})
			}
		}
		els = append(els, El{Flex: true}, El{Text: "\n"})
	}
	if len(els) > 0 {
		els = append(els, El{Flex: true})
	}
	apart(els, 0, keyword, false)
	return els
}

// DecodeInteger splits a program into lines strictly.
func DecodeInteger(raw []byte) (lines []ALine, ok bool) {
	if LooksHeadered(raw) {
		n := int(raw[0]) | int(raw[1])<<8
		if lines, ok = walkInteger(raw[2 : 2+n]); ok {
			return lines, ok
		}
	}
	return walkInteger(raw)
}

func walkInteger(raw []byte) (lines []ALine, ok bool) {
	for len(raw) > 0 {
		if len(raw) < 4 || raw[0] < 4 || int(raw[0]) > len(raw) || raw[raw[0]-1] != 1 {
			return nil, false
		}
		lines = append(lines, ALine{Num: int(raw[1]) | int(raw[2])<<8, Bytes: append([]byte{}, raw[3:raw[0]-1]...)})
		raw = raw[raw[0]:]
	}
	return lines, true
}

// Chevron returns how a character is shown in an escaped listing.
func Chevron(c byte) string {
	switch {
	case c == '\n' || c == '\t' || c >= 0x20 && c != 0x7f:
		return string([]byte{c})
	case c == 0:
		return "«NUL»"
	case c <= 26:
		return "«ctrl-" + string([]byte{'@' + c}) + "»"
	}
	return "«" + map[byte]string{0x1b: "?", 0x1c: "FS", 0x1d: "GS", 0x1e: "RS", 0x1f: "US", 0x7f: "DEL"}[c] + "»"
}
