// C07: NakedOS space is conserved and refused writes change nothing.
package main

import (
	"bytes"
	"fmt"

	"verif/lib"
	"verif/nk"
	"verif/ref"
	"verif/vf"

	"github.com/zellyn/diskii/supermon"
	"github.com/zellyn/diskii/types"
)

var real = lib.Real()

func main() {
	vf.Main(vf.Spec{ID: "C07",
		Rule:        "the histories of C06 with an ownership monitor: before/after comparison of the owner and contents of all 560 sectors around every operation, exact-fit and one-byte-too-big puts, and byte equality of the whole disk around refused requests. Distinct = distinct disk images reached.",
		Assumptions: []string{"the symbol-table files 3 and 4 may move when the table changes, keeping their size", "requests with an empty symbol part, and changes to a full symbol table, are not exercised"},
		Require:     []string{"operations monitored", "sector owners compared", "refused: space", "refused: exists", "refused: name", "refused: type", "refused: length", "refused: empty", "requests by number refused", "requests by number followed"},
	}, func(s *vf.Suite) {
		s.Section("library", 3600, 24000, func(t *vf.T) {
			n := 30
			if t.Intn(8) == 0 {
				n = 90
			}
			nk.History(t, real, nk.Facets{Space: true}, n)
		})
		s.Section("numbers", 1600, 10000, func(t *vf.T) {
			// by number alone every file is like any other, also those of the
			// symbol table
			src, desc := nk.Source(t, real)
			img := src.Img
			for k := 0; k < 12; k++ {
				n := ref.Naked{Img: append([]byte{}, img...)}
				file := byte(t.Intn(256))
				switch t.Intn(4) {
				case 0, 1:
					file = byte(3 + t.Intn(2))
				case 2:
					file = []byte{0, 1, 2, 5, 0xfd, 0xfe, 0xff}[t.Intn(7)]
				}
				have := len(n.Sectors(file))
				room := n.Free() + have
				size := 256*room + []int{0, 1, -1, -255, -256, 256}[t.Intn(6)]
				switch t.Intn(4) {
				case 0:
					size = t.Intn(5000)
				case 1:
					size = []int{0, 1, 255, 256, 257, 0x1000, 0x0f00, 0x1001}[t.Intn(8)]
				}
				if size < 0 {
					size = 0
				}
				data := ref.RandBytes(t.Rand, size)
				over := t.Intn(3) > 0
				del := t.Intn(5) == 0
				bad := file == 0 || file >= 0xfe
				if bad {
					have = 0
				}
				var existed bool
				var err error
				var after []byte
				what := fmt.Sprintf("%s: put %d bytes into file %02X, overwrite=%v", desc, size, file, over)
				if del {
					what = fmt.Sprintf("%s: delete file %02X", desc, file)
				}
				if bad || t.Intn(3) == 0 && !del { // the sector map itself
					if bad && del {
						continue
					}
					after = append([]byte{}, img...)
					sm, e := supermon.LoadSectorMap(after)
					if e != nil {
						t.Fail("%s: %v", desc, e)
					}
					existed, err = sm.WriteFile(after, file, data, over)
					what += " through the sector map"
				} else {
					op, _, e := lib.Open(ref.Conv(img, "raw", "do"), "x.do", "auto", "nakedos")
					if e != nil {
						t.Fail("%s: %v", desc, e)
					}
					if del {
						if m := nk.FromDisk(n); m.Syms[fmt.Sprintf("DF%02X", file)] != 0 {
							continue // a symbol with the name of a number
						}
						existed, err = op.Delete(fmt.Sprintf("DF%02X", file))
					} else {
						existed, err = op.PutFile(types.FileInfo{Descriptor: types.Descriptor{Name: fmt.Sprintf("DF%02X", file), Length: size, Type: types.FiletypeBinary}, Data: append([]byte{}, data...)}, over)
					}
					after = op.GetBytes()
				}
				t.Eval(1)
				need := (size + 255) / 256
				if del {
					need = 0
				}
				refuse := !del && (bad || size == 0 || need > room || have > 0 && !over)
				t.Check((err != nil) == refuse, "%s (%d of its sectors, %d free): got %v", what, have, room-have, err)
				if refuse {
					t.Check(bytes.Equal(after, img), "%s: refused, but the disk changed: %s", what, vf.FirstDiff(after, img))
					t.Event("requests by number refused", 1)
					continue
				}
				t.Check(existed == (have > 0), "%s: reported existed=%v", what, existed)
				m := ref.Naked{Img: after}
				t.Check(len(m.Sectors(file)) == need, "%s: it has %d sectors, want %d", what, len(m.Sectors(file)), need)
				t.Check(m.Free() == room-need, "%s: %d free sectors, want %d", what, m.Free(), room-need)
				want := make([]byte, need*256)
				if !del {
					copy(want, data)
				}
				for i := 0; i < 560; i++ {
					a, b := *n.Owner(i), *m.Owner(i)
					t.Check(a == b || (a == 0xff || a == file) && (b == 0xff || b == file), "%s: sector %d went from %02X to %02X", what, i, a, b)
					if b == file {
						t.Check(bytes.Equal(ref.Sec(after, i/16, i%16), want[:256]), "%s: wrong contents in sector %d", what, i)
						want = want[256:]
					} else if b != 0xff && (i < 9 || i > 11) {
						t.Check(bytes.Equal(ref.Sec(after, i/16, i%16), ref.Sec(n.Img, i/16, i%16)), "%s: sector %d of %02X changed", what, i, b)
					}
				}
				img = append([]byte{}, after...)
				t.Event("requests by number followed", 1)
			}
			t.Distinct(img)
		})
	})
}
