// C26: errors tell a program why.
package main

import (
	stderrors "errors"
	"fmt"

	"verif/lib"
	"verif/nk"
	"verif/ref"
	"verif/vf"

	"github.com/zellyn/diskii/errors"
	"github.com/zellyn/diskii/supermon"
)

var real = lib.Real()

func classOf(err error) string {
	s := ""
	if errors.IsFileExists(err) {
		s += "exists "
	}
	if errors.IsOutOfSpace(err) {
		s += "space "
	}
	if errors.IsFileNotFound(err) {
		s += "notfound "
	}
	return s
}

func main() {
	vf.Main(vf.Spec{ID: "C26",
		Rule:        "histories of puts and deletes on NakedOS disks with requests that are refused for every reason; the class of each error (file exists, out of space, file not found) is compared with the reason the model gives. The same for direct writes to a sector map, and names that do not resolve. Distinct = distinct disk images reached.",
		Assumptions: []string{"where several reasons hold at once any of them may be given", "deleting a file number that is not in use, and DOS 3.3 and ProDOS, are not covered"},
		Require:     []string{"classes compared: exists", "classes compared: space", "classes compared: name", "classes compared: type", "classes compared: symbols", "names not found", "numbers not in use", "sector map writes", "constructed errors"},
	}, func(s *vf.Suite) {
		s.Section("library", 3200, 16000, func(t *vf.T) { nk.History(t, real, nk.Facets{Errors: true}, 40) })
		s.Section("names", 2400, 12000, func(t *vf.T) {
			src, _ := nk.Source(t, real)
			m := nk.FromDisk(src)
			op, _, err := lib.Open(ref.Conv(src.Img, "raw", "do"), "x", "do", "nakedos")
			t.Check(err == nil, "cannot open: %v", err)
			for k := 0; k < 30; k++ {
				if k%4 == 0 { // a number, or a name for it, that is not in use
					f := byte(1 + t.Intn(0xfd))
					n := fmt.Sprintf([]string{"DF%02X", "%X", "%02x", "df%02x"}[t.Intn(4)], f)
					if t.Intn(2) == 0 {
						by := ""
						for s, a := range m.Syms {
							if a == 0xdf00|uint16(f) && (by == "" || s < by) {
								by = s
							}
						}
						if by != "" {
							n = by
						}
					}
					if g, _ := m.Resolve(n); g == f && m.Files[f] == nil && f != 3 && f != 4 {
						_, err := op.GetFile(n)
						t.Check(classOf(err) == "notfound ", "getting %q, which is not in use: class %q: %v", n, classOf(err), err)
						t.Event("numbers not in use", 1)
					}
					continue
				}
				n := ref.RandSymName(t.Rand)
				switch t.Intn(5) {
				case 0:
					n = []string{"", "A", "TOOLONGNAME", "DF00", "DFFE", "DFFF", "FE", "FF", "100", "A B", "X:Y", "0"}[t.Intn(12)]
				case 1: // a symbol that is no file
					for s, a := range m.Syms {
						if a>>8 != 0xdf && (n == "" || s < n) {
							n = s
						}
					}
				}
				if f, _ := m.Resolve(n); f != 0 {
					continue
				}
				_, err := op.GetFile(n)
				t.Check(classOf(err) == "notfound ", "getting %q, which is no file: class %q: %v", n, classOf(err), err)
				if so, ok := op.(supermon.Operator); ok {
					_, err := so.ST.FileForName(n)
					t.Check(classOf(err) == "notfound ", "resolving %q, which is no file: class %q: %v", n, classOf(err), err)
				}
				ex, err := op.Delete(n)
				t.Check(!ex && (err == nil || classOf(err) == "notfound "), "deleting %q, which is no file: %v, %v", n, ex, err)
				t.Eval(1)
				t.Event("names not found", 1)
			}
			t.Distinct(src.Img)
		})
		s.Section("map", 2400, 12000, func(t *vf.T) {
			src, _ := nk.Source(t, real)
			m := nk.FromDisk(src)
			sm, err := supermon.LoadSectorMap(src.Img)
			t.Check(err == nil, "cannot load the sector map: %v", err)
			for k := 0; k < 12; k++ {
				f := byte(t.Intn(256))
				if f == 3 || f == 4 {
					continue
				}
				n := 1 + t.Intn(256*8)
				if t.Intn(3) == 0 {
					n = 256*(m.Free+len(m.Files[f])/256) + 1 - t.Intn(2)
				}
				over := t.Intn(2) == 0
				old, had := m.Files[f]
				fits := (n+255)/256 <= m.Free+len(old)/256
				if n == 0 {
					continue
				}
				ex, err := sm.WriteFile(src.Img, f, ref.RandBytes(t.Rand, n), over)
				c := classOf(err)
				ctx := fmt.Sprintf("writing %d bytes to file %02X (overwrite %v, there: %v, fits: %v): existed %v, class %q: %v", n, f, over, had, fits, ex, c, err)
				switch {
				case f == 0 || f >= 0xfe:
					t.Check(err != nil && c == "", "%s", ctx)
				case had && !over && !fits:
					t.Check(c == "exists " || c == "space ", "%s", ctx)
				case had && !over:
					t.Check(c == "exists ", "%s", ctx)
				case !fits:
					t.Check(c == "space ", "%s", ctx)
				default:
					t.Check(err == nil && ex == had, "%s", ctx)
				}
				t.Check(err != nil || f != 0, "%s", ctx)
				if f != 0 && f < 0xfe {
					t.Check(err != nil || ex == had, "%s", ctx)
				}
				m = nk.FromDisk(src)
				t.Eval(1)
				t.Event("sector map writes", 1)
			}
			t.Distinct(src.Img)
		})
		s.Section("errors", 800, 4000, func(t *vf.T) {
			msg := string(ref.RandBytes(t.Rand, 1+t.Intn(20)))
			for _, x := range []struct {
				err  error
				want string
			}{
				{errors.FileExistsf("%s/%d", msg, t.I), "exists "},
				{errors.OutOfSpacef("%s/%d", msg, t.I), "space "},
				{errors.FileNotFoundf("%s/%d", msg, t.I), "notfound "},
				{errors.New(fmt.Sprintf("%s/%d", msg, t.I)), ""},
				{stderrors.New(fmt.Sprintf("%s/%d", msg, t.I)), ""},
			} {
				t.Check(x.err.Error() == fmt.Sprintf("%s/%d", msg, t.I), "message %q", x.err.Error())
				t.Check(classOf(x.err) == x.want, "class %q, want %q", classOf(x.err), x.want)
				t.Event("constructed errors", 1)
			}
			t.Check(classOf(nil) == "", "no error has the class %q", classOf(nil))
		})
	})
}
