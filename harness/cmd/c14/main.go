// C14: mkhello installs the right loader and nothing else.
package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"verif/lib"
	"verif/nk"
	"verif/ref"
	"verif/vf"

	"github.com/zellyn/diskii/types"
)

var real = lib.Real()

func program(file byte, addr, start int) []byte {
	b := make([]byte, 256)
	copy(b, []byte{
		0x20, 0x40, 0x03, // JSR NAKEDOS
		0x6D, 0x01, 0xDC, // ADC NKRDFILE
		0x2C, file, 0xDF, // BIT file
		0x2C, 0x00, byte(addr >> 8), // BIT page
		0xD8,                                // CLD
		0x4C, byte(start), byte(start >> 8), // JMP start
	})
	return b
}

func num(t *vf.T, n int) string {
	return fmt.Sprintf([]string{"%#x", "%d", "0x%X", "%#04x"}[t.Intn(4)], n)
}

func compare(t *vf.T, before, after ref.Naked, want *nk.Model, r vf.CmdResult) {
	got := nk.FromDisk(after)
	for f := 1; f < 0xfe; f++ {
		g, gok := got.Files[byte(f)]
		w, wok := want.Files[byte(f)]
		if gok != wok || !bytes.Equal(g, w) {
			t.Fail("file %02X after mkhello: %s (there: %v, want %v): %v", f, vf.FirstDiff(g, w), gok, wok, r)
		}
	}
	if want.HasST {
		var names []string
		for n := range want.Syms {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			a, ok := got.Syms[n]
			t.Check(ok && a == want.Syms[n], "symbol %s is %04X (there: %v), want %04X: %v", n, a, ok, want.Syms[n], r)
		}
		for n := range got.Syms {
			_, ok := want.Syms[n]
			t.Check(ok, "symbol %s appeared: %v", n, r)
		}
		t.Event("symbols compared", len(names))
	}
	for i := 0; i < 560; i++ {
		o := *before.Owner(i)
		if o == 0xfe || o != 1 && o != 3 && o != 4 && o != 0xff {
			p := *after.Owner(i)
			t.Check(p == o, "sector %d belonged to %02X and now to %02X: %v", i, o, p, r)
			if i < 9 || i > 11 { // 9 to 11 hold the sector map
				t.Check(bytes.Equal(ref.Sec(before.Img, i/16, i%16), ref.Sec(after.Img, i/16, i%16)), "sector %d of %02X changed: %v", i, o, r)
			}
		}
	}
	t.Event("files compared", len(want.Files))
}

func main() {
	vf.Main(vf.Spec{ID: "C14",
		Rule:        "mkhello runs on generated and shipped NakedOS disks in both orders, for files given by number, name, in any case, missing and malformed, over load and start addresses at all boundaries; the result is compared with the model of the disk (files, symbols, owners) and refused requests with a snapshot",
		Assumptions: []string{"a name that is both a hexadecimal file number and a symbol is a number", "DFxx:NAME arguments, file numbers that do not exist, and disks whose symbol table is damaged are only checked for being refused without a change or done right"},
		Require:     []string{"loaders installed", "refused: address", "refused: start", "refused: name", "refused: other system", "refused: no space", "refused: number", "files compared", "symbols compared", "disks with a symbol that reads as a number"},
	}, func(s *vf.Suite) {
		s.Section("naked", 2800, 14000, func(t *vf.T) {
			src, desc := nk.Source(t, real)
			m := nk.FromDisk(src)
			if m.Dup {
				return
			}
			numSym := ""
			if t.Intn(4) == 0 {
				if numSym = nk.NumberSym(t, src); numSym != "" {
					t.Event("disks with a symbol that reads as a number", 1)
				}
			}
			container := []string{"do", "po"}[t.Intn(2)]
			dir := t.Fresh()
			img := ref.Conv(src.Img, "raw", container)
			file := "disk." + container
			var flags []string
			if t.Intn(2) == 0 {
				file = []string{"disk.dsk", "disk"}[t.Intn(2)]
				if t.Intn(2) == 0 || container == "po" {
					flags = []string{"--order", container}
				}
			}
			t.Put(dir, file, img)
			for k := 0; k < 4; k++ {
				cur := ref.Naked{Img: ref.Conv(t.Get(dir, file), container, "raw")}
				m := nk.FromDisk(cur)
				// the requested file
				var name string
				var nums []int
				for f := range m.Files {
					nums = append(nums, int(f))
				}
				sort.Ints(nums)
				var syms []string
				for n := range m.Syms {
					syms = append(syms, n)
				}
				sort.Strings(syms)
				sure := true
				switch c := t.Intn(10); {
				case numSym != "" && t.Intn(2) == 0:
					name = numSym
					if t.Intn(2) == 0 {
						name = strings.ToLower(name)
					}
				case c < 3 && len(nums) > 0:
					name = fmt.Sprintf([]string{"DF%02X", "%02X", "df%02x", "%x"}[t.Intn(4)], nums[t.Intn(len(nums))])
				case c < 7 && len(syms) > 0:
					for tries := 0; tries < 20; tries++ {
						name = syms[t.Intn(len(syms))]
						if a := m.Syms[name]; a > 0xdf00 && a < 0xdffe {
							break
						}
					}
					if t.Intn(2) == 0 {
						name = strings.ToLower(name)
					}
				case c == 7:
					name = fmt.Sprintf("DF%02X", 1+t.Intn(0xfd))
				case c == 8:
					name = []string{"", "?", "DF00", "DFFF", "FOO BAR", "NOSUCHFIL", "DFFE", "XX", "Q", "TOOLONGNAME", "0", "FF", "FE", "100", "E001", "DF", ":", "::", "DE05", "DE01", "1F05"}[t.Intn(21)]
				case c == 9:
					name = fmt.Sprintf("DF%02X:%s", 1+t.Intn(0xfd), ref.RandSymName(t.Rand))
					if len(nums) > 0 && len(syms) > 0 && t.Intn(3) > 0 {
						name = fmt.Sprintf("DF%02X:%s", nums[t.Intn(len(nums))], syms[t.Intn(len(syms))])
					}
					sure = false
				}
				if strings.HasPrefix(name, "-") {
					continue
				}
				load, _ := m.Resolve(name)
				if c := strings.IndexByte(name, ':'); c > 0 && ref.FileNumber(name[c+1:]) == 0 && strings.Count(name, ":") == 1 {
					load = ref.FileNumber(name[:c]) // the number counts
				}
				if load != 0 && len(m.Files[load]) == 0 {
					sure = sure && (load == 3 || load == 4)
				}
				addr, start := 0x6000, -1
				if t.Intn(4) > 0 {
					addr = t.Intn(256) * 256
				}
				if t.Intn(8) == 0 {
					addr = t.Intn(65536)
				}
				switch t.Intn(4) {
				case 0:
					start = addr + t.Intn(65536-addr)
				case 1:
					start = []int{addr, addr + 1, addr + 255, addr + 256, addr - 1, 0, 0xffff, 0xfffe, addr - 256}[t.Intn(9)]
				case 2:
					start = t.Intn(65536)
				}
				if start < -1 || start > 0xffff {
					start = -1
				}
				args := append([]string{"nakedos", "mkhello"}, flags...)
				if addr != 0x6000 || t.Intn(2) == 0 {
					args = append(args, "--address", num(t, addr))
				}
				if start >= 0 {
					args = append(args, "--start="+num(t, start))
				}
				args = append(args, file, name)
				snap := t.Snapshot(dir)
				r := t.Run(vf.RunOpts{Dir: dir}, args...)
				t.Eval(1)
				t.Note("%s container %s: %v", desc, container, r)
				after := t.Snapshot(dir)
				diff := snap.Diff(after)
				refuse := ""
				e := m.Predict(nk.Op{Name: "DF01:FHELLO", Data: make([]byte, 16), Over: true, Type: types.FiletypeBinary})
				st := start
				if st < 0 || st == 0xffff {
					st = addr
				}
				switch {
				case addr%256 != 0:
					refuse = "address"
				case st < addr:
					refuse = "start"
				case load == 0 && sure:
					refuse = "name"
				case e.Refuse && (e.Why == "space" || e.Why == "symbols"):
					refuse = "no space"
				}
				if e.Skip || e.Refuse && e.Why != "space" && e.Why != "symbols" {
					sure = false
				}
				if refuse != "" {
					t.Check(r.Err() && len(r.Stderr) > 0, "a request that must be refused (%s) was accepted: %v", refuse, r)
					t.Event("refused: "+refuse, 1)
				} else if sure {
					t.Check(r.Exit == 0 && len(r.Stderr) == 0, "a proper request was refused: %v", r)
				}
				if r.Err() {
					t.Check(len(diff) == 0, "refused but %v: %v", diff, r)
					continue
				}
				t.Check(len(diff) == 0 || len(diff) == 1 && diff[0] == "changed "+file, "%v: %v", diff, r)
				if load == 0 || e.Skip || e.Refuse {
					return // accepted in a situation not judged
				}
				prog := program(load, addr, st)
				m.Apply(nk.Op{Data: prog[:16]}, e, 1, false)
				m.Syms["FHELLO"] = 0xDF01
				got := t.Get(dir, file)
				t.Check(len(got) == ref.DiskSize, "the image has %d bytes", len(got))
				now := ref.Naked{Img: ref.Conv(got, container, "raw")}
				compare(t, cur, now, m, r)
				t.Event("loaders installed", 1)
				t.Distinct(got)
				// and through the command
				d := t.Run(vf.RunOpts{Dir: dir}, append(append([]string{"dump"}, flags...), file, []string{"FHELLO", "DF01"}[t.Intn(2)])...)
				t.Check(d.Exit == 0 && bytes.Equal(d.Stdout, prog), "dump of FHELLO: %s: %v", vf.FirstDiff(d.Stdout, prog), d)
			}
		})
		s.Section("numbers", 240, 1200, func(t *vf.T) {
			// what is no 16-bit number is no address
			src, _ := nk.Source(t, real)
			dir := t.Fresh()
			t.Put(dir, "disk.do", ref.Conv(src.Img, "raw", "do"))
			args := []string{"nakedos", "mkhello", "disk.do", "DF05", []string{"--address", "--start"}[t.Intn(2)] + "=" + vf.NotUint16(t.Rand)}
			before := t.Snapshot(dir)
			r := t.Run(vf.RunOpts{Dir: dir}, args...)
			d := before.Diff(t.Snapshot(dir))
			t.Eval(1)
			t.Check(r.Err() && len(r.Stderr) > 0, "an address that is no 16-bit number was accepted: %v", r)
			t.Check(len(d) == 0, "refused but %v: %v", d, r)
			t.Event("refused: number", 1)
		})
		s.Section("others", 240, 1200, func(t *vf.T) {
			dir := t.Fresh()
			var img []byte
			name := "d.dsk"
			switch t.Intn(4) {
			case 0:
				img = ref.BuildDos(t.Rand, ref.DosOpts{MaxEntries: 10, Plain: true}).Img
			case 1:
				img = ref.Conv(ref.BuildPro(t.Rand, ref.ProOpts{Blocks: 280}).Img, "po", "do")
			case 2:
				img = ref.BuildPro(t.Rand, ref.ProOpts{Blocks: 280}).Img
				name = "d.po"
			case 3:
				img = append([]byte{}, real[t.Intn(len(real))].Data...)
				im := real[t.Intn(len(real))]
				if im.System == "nakedos" || im.System == "" {
					return
				}
				img, name = append([]byte{}, im.Data...), "d."+im.Order
			}
			t.Put(dir, name, img)
			snap := t.Snapshot(dir)
			r := t.Run(vf.RunOpts{Dir: dir}, "nakedos", "mkhello", name, []string{"DF05", "FHELLO", "HELLO", "1"}[t.Intn(4)])
			t.Check(r.Err() && len(r.Stderr) > 0, "mkhello on a disk of another system: %v", r)
			d := snap.Diff(t.Snapshot(dir))
			t.Check(len(d) == 0, "refused but %v: %v", d, r)
			t.Event("refused: other system", 1)
			t.Distinct(img)
		})
	})
}
