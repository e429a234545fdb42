// C24: a dash means standard input or output, with the same result.
package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"verif/ref"
	"verif/vf"
	"verif/wl"
)

// arg kinds: a file argument in a command line.
const (
	inImg  = "{img}"  // image that is read
	rwImg  = "{rw}"   // image that is modified in place
	inData = "{data}" // data that is read
	outImg = "{out}"  // image that is written
)

func flags(t *vf.T, sys ...string) []string {
	var a []string
	if t.Intn(2) == 0 {
		a = append(a, "--order="+[]string{"auto", "do", "po"}[t.Intn(3)])
	}
	if len(sys) > 0 && t.Intn(3) == 0 {
		a = append(a, "--system="+sys[t.Intn(len(sys))])
	}
	return a
}

// command makes a command line with file arguments left open.
func command(t *vf.T, kind string, d wl.Disk) []string {
	name := func() string {
		if len(d.Names) > 0 && t.Intn(5) > 0 {
			return d.Names[t.Intn(len(d.Names))]
		}
		return []string{"NOSUCH", "DF05", "FOO", "FNEW", "DF55:BARBAZ", "DF66"}[t.Intn(6)]
	}
	var a []string
	switch kind {
	case "ls":
		a = append([]string{[]string{"ls", "cat"}[t.Intn(2)]}, flags(t, "auto", "dos3", "prodos", "nakedos")...)
		a = append(a, inImg)
		if len(d.Dirs) > 0 && t.Intn(3) == 0 {
			a = append(a, d.Dirs[t.Intn(len(d.Dirs))])
		}
	case "dump":
		a = append([]string{"dump"}, flags(t, "auto", "dos3")...)
		a = append(a, inImg, name())
	case "decode":
		a = []string{"applesoft", "decode"}
		if t.Intn(2) == 0 {
			a = append(a, "-r")
		}
		a = append(a, inData)
	case "put":
		a = append([]string{"put"}, flags(t, "auto", "dos3")...)
		if t.Intn(2) == 0 {
			a = append(a, "-f")
		}
		a = append(a, rwImg, name(), inData)
	case "rm":
		a = append([]string{"rm"}, flags(t)...)
		if t.Intn(3) == 0 {
			a = append(a, "-f")
		}
		a = append(a, rwImg, name())
	case "mkhello":
		a = append([]string{"nakedos", "mkhello"}, flags(t)...)
		if t.Intn(3) == 0 {
			a = append(a, fmt.Sprintf("--address=%#x", t.Intn(256)*256))
		}
		a = append(a, rwImg, name())
	case "mksd":
		a = append([]string{"mksd"}, flags(t)...)
		if t.Intn(3) == 0 {
			a = append(a, fmt.Sprintf("--address=%#x", t.Intn(200)*256))
		}
		a = append(a, outImg, inData)
	case "reorder":
		a = append([]string{"reorder"}, flags(t)...)
		if t.Intn(2) == 0 {
			a = append(a, "--new-order="+[]string{"auto", "do", "po"}[t.Intn(3)])
		}
		if t.Intn(2) == 0 {
			a = append(a, "-f")
		}
		if t.Intn(2) == 0 {
			a = append(a, rwImg)
		} else {
			a = append(a, inImg, outImg)
		}
	}
	return a
}

var kinds = []string{"ls", "dump", "decode", "put", "put", "rm", "mkhello", "mksd", "reorder", "reorder"}

func check(t *vf.T) {
	kind := kinds[t.I%len(kinds)]
	sys := ""
	if kind == "put" || kind == "rm" || kind == "mkhello" {
		if t.Intn(6) > 0 {
			sys = "nakedos"
		}
	}
	d := wl.RandDisk(t, sys)
	args := command(t, kind, d)
	data := ref.RandBytes(t.Rand, 1+t.Intn(2500))
	switch {
	case kind == "decode":
		data = ref.EncodeApplesoft(ref.RandApplesoft(t.Rand, true), 0x801)
		if t.Intn(3) == 0 {
			data = ref.Header(data)
		}
		if t.Intn(6) == 0 {
			data = data[:t.Intn(len(data))]
		}
	case t.Intn(2) == 0: // sizes around whole sectors and buffers, ends that look like text
		n := []int{1, 2, 255, 256, 257, 511, 512, 513, 1024, 1025, 4095, 4096, 4097, 8193, 32768, 32769}[t.Intn(16)]
		data = ref.RandBytes(t.Rand, n)
		end := []string{"\n", "\n", "\n", "\r\n", "\r", "\n\n", "\x00", "\x1a", "\x04", " ", "\xff"}[t.Intn(11)]
		if t.Intn(5) > 0 && len(end) <= n {
			copy(data[n-len(end):], end)
		}
		if t.Intn(6) == 0 {
			copy(data, []string{"\xef\xbb\xbf", "#!", "\x1f\x8b", "\x00\x00", "-"}[t.Intn(5)])
		}
	case t.Intn(8) == 0:
		data = ref.RandBytes(t.Rand, t.Intn(2)*t.Intn(40000))
	}

	// which arguments become dashes
	var slots []int
	for i, a := range args {
		if a == inImg || a == rwImg || a == inData || a == outImg {
			slots = append(slots, i)
		}
	}
	dash := map[int]bool{}
	for len(dash) == 0 {
		for _, i := range slots {
			if t.Intn(2) == 0 {
				dash[i] = true
			}
		}
	}
	readers := 0
	for i := range dash {
		if args[i] != outImg {
			readers++
		}
	}

	lay := func() string {
		dir := t.Fresh()
		t.Put(dir, "bystander", []byte("untouched"))
		_ = os.Mkdir(filepath.Join(dir, "sub"), 0755)
		return dir
	}
	// names of the arguments that stay files
	fixed := map[int]string{}
	for _, i := range slots {
		fixed[i] = map[string]string{inImg: "disk" + d.Ext(t), rwImg: "disk" + d.Ext(t), inData: "data", outImg: []string{"new", "new.po", "new.do", "new.dsk", "sub/new"}[t.Intn(5)]}[args[i]]
	}
	argsFor := func(withDash bool) []string {
		r := append([]string{}, args...)
		for _, i := range slots {
			r[i] = fixed[i]
			if dash[i] {
				r[i] = "-"
				if !withDash { // a file without extension
					r[i] = map[string]string{inImg: "in", rwImg: "in", inData: "din", outImg: "out"}[args[i]]
				}
			}
		}
		return r
	}
	fill := func(dir string, withDash bool) (stdin []byte) {
		for _, i := range slots {
			b := d.Data
			if args[i] == inData {
				b = data
			}
			if args[i] == outImg {
				continue
			}
			if dash[i] && withDash {
				stdin = b
				continue
			}
			n := fixed[i]
			if dash[i] {
				n = map[string]string{inImg: "in", rwImg: "in", inData: "din"}[args[i]]
			}
			t.Put(dir, n, b)
		}
		return
	}

	// with a dash
	ddir := lay()
	stdin := fill(ddir, true)
	if t.Intn(3) == 0 { // a file of that name must not matter
		t.Put(ddir, "-", ref.RandBytes(t.Rand, t.Intn(300)))
		t.Event("runs beside a file named -", 1)
	}
	before := t.Snapshot(ddir)
	o := vf.RunOpts{Dir: ddir, Stdin: stdin}
	if stdin != nil && t.Intn(2) == 0 {
		p := filepath.Join(t.Dir, "stdin-file")
		if err := os.WriteFile(p, stdin, 0644); err != nil {
			t.Inconclusive("%v", err)
		}
		f, err := os.Open(p)
		if err != nil {
			t.Inconclusive("%v", err)
		}
		defer f.Close()
		o.Stdin, o.StdinFile = nil, f
		t.Event("runs with a file as standard input", 1)
	}
	da := argsFor(true)
	if kind == "decode" && t.Intn(2) == 0 {
		da = da[:len(da)-1] // a dash is the default
	}
	var verb []string
	if t.Intn(4) == 0 {
		verb = []string{[]string{"-v", "-vv", "-v", "-vvv"}[t.Intn(4)]}
		da = append(verb, da...)
		t.Event("runs with -v", 1)
	}
	dr := t.Run(o, da...)
	after := t.Snapshot(ddir)
	t.Note("%s; dash run: %s", d.Desc, strings.Join(da, " "))

	if readers > 1 { // both from standard input
		if !dr.Err() || len(dr.Stdout) > 0 || len(before.Diff(after)) > 0 {
			t.Fail("two inputs from standard input: %v, %v", dr, before.Diff(after))
		}
		t.Event("two dashes refused", 1)
		return
	}

	// with files
	fdir := lay()
	fill(fdir, false)
	fa := append(verb, argsFor(false)...)
	fbefore := t.Snapshot(fdir)
	fr := t.Run(vf.RunOpts{Dir: fdir}, fa...)
	fafter := t.Snapshot(fdir)
	t.Note("file run: %s", strings.Join(fa, " "))

	if dr.Exit != fr.Exit {
		t.Fail("diskii %s exits with %d; with files (%s) with %d\ndash: %v\nfile: %v", strings.Join(da, " "), dr.Exit, strings.Join(fa, " "), fr.Exit, dr, fr)
	}
	if dr.Exit != 0 {
		if len(dr.Stdout) > 0 {
			t.Fail("failed, with %d bytes on standard output: %v", len(dr.Stdout), dr)
		}
		if len(dr.Stderr) == 0 {
			t.Fail("failed without a message on standard error: %v", dr)
		}
		if df := before.Diff(after); len(df) > 0 {
			t.Fail("failed, but %v: %v", df, dr)
		}
		t.Event("failures compared: "+kind, 1)
		t.Distinct(kind, strings.Join(da, " "))
		return
	}
	if len(verb) == 0 && (len(dr.Stderr) > 0) != (len(fr.Stderr) > 0) {
		t.Fail("standard error differs\ndash: %v\nfile: %v", dr, fr)
	}
	// what should be on standard output: the file the other run wrote, or its
	// own standard output
	want := fr.Stdout
	written := "" // file written by the file run
	toStdout := false
	for _, i := range slots {
		if args[i] == rwImg || args[i] == outImg {
			written = fa[i+len(verb)]
			toStdout = dash[i]
		}
	}
	if toStdout {
		if len(fr.Stdout) > 0 {
			t.Fail("the file run wrote to standard output: %v", fr)
		}
		want = t.Get(fdir, written)
		t.Event("images on standard output", 1)
	}
	if !bytes.Equal(dr.Stdout, want) {
		t.Fail("diskii %s: standard output differs from the run with files (%s): %s", strings.Join(da, " "), strings.Join(fa, " "), vf.FirstDiff(dr.Stdout, want))
	}
	df := before.Diff(after)
	if toStdout || written == "" {
		if len(df) > 0 {
			t.Fail("diskii %s writes elsewhere than standard output: %v", strings.Join(da, " "), df)
		}
	} else {
		if len(dr.Stdout) > 0 {
			t.Fail("diskii %s writes a file and to standard output", strings.Join(da, " "))
		}
		ff := fbefore.Diff(fafter)
		if strings.Join(df, ",") != strings.Join(ff, ",") {
			t.Fail("diskii %s changed %v, with files %v", strings.Join(da, " "), df, ff)
		}
		if a, b := t.Get(ddir, written), t.Get(fdir, written); !bytes.Equal(a, b) {
			t.Fail("diskii %s wrote another %s than %s: %s", strings.Join(da, " "), written, strings.Join(fa, " "), vf.FirstDiff(a, b))
		}
		t.Event("files written from standard input", 1)
	}
	t.Event("runs compared: "+kind, 1)
	t.Distinct(kind, strings.Join(da, " "), d.Data)
	if t.I < 20 {
		t.Sample("diskii %s = diskii %s", strings.Join(da, " "), strings.Join(fa, " "))
	}
}

// stored passes contents of all kinds through standard input into a disk.
func stored(t *vf.T) {
	dir := t.Fresh()
	n := []int{0, 1, 2, 255, 256, 257, 511, 512, 513, 769, 1024, 1025, 4095, 4096, 4097, 8192, 8193, 16385, 32768, 32769, 40961}[t.Intn(21)]
	if t.Intn(3) == 0 {
		n = t.Intn(6000)
	}
	b := ref.RandBytes(t.Rand, n)
	switch t.Intn(5) {
	case 0: // text
		for i := range b {
			b[i] = "ABC xyz,.\r\n\t"[t.Intn(12)]
		}
	case 1: // blank
		v := []byte{0, '\n', ' ', 0xff, 0x1a}[t.Intn(5)]
		for i := range b {
			b[i] = v
		}
	}
	ends := []string{"", "\n", "\n", "\r\n", "\r", "\n\n", "\x00", "\x1a", "\x04", " ", "\xff"}
	if e := ends[t.Intn(11)]; len(e) <= n {
		copy(b[n-len(e):], e)
	}
	if e := []string{"", "", "\xef\xbb\xbf", "#!", "\x1f\x8b", "\x00", "-", "\n", "\xff\xfe"}[t.Intn(9)]; len(e) <= n {
		copy(b, e)
	}
	t.Put(dir, "data", b)
	nak := ref.BuildNaked(t.Rand, ref.NakedOpts{Files: 1 + t.Intn(4), MaxSec: 2, FreeLeft: -1, Syms: 5})
	img := ref.Conv(nak.Img, "raw", "do")
	var file, dash []string
	if t.Intn(3) == 0 {
		addr := fmt.Sprintf("--address=%#x", 0x900+256*t.Intn(10))
		file, dash = []string{"mksd", addr, "a.dsk", "data"}, []string{"mksd", addr, "b.dsk", "-"}
	} else {
		name := fmt.Sprintf("DF%02X", 0x20+t.Intn(0xd0))
		file, dash = []string{"put", "-f", "a.dsk", name, "data"}, []string{"put", "-f", "b.dsk", name, "-"}
		t.Put(dir, "a.dsk", img)
		t.Put(dir, "b.dsk", img)
	}
	fr := t.Run(vf.RunOpts{Dir: dir}, file...)
	dr := t.Run(vf.RunOpts{Dir: dir, Stdin: b}, dash...)
	t.Eval(1)
	t.Note("%d bytes ending in %x: %v; %v", n, b[len(b)-len(b)%17:], fr, dr)
	t.Check(fr.Exit == dr.Exit, "%d bytes from a file: %v; from standard input: %v", n, fr, dr)
	x, y := t.Get(dir, "a.dsk"), t.Get(dir, "b.dsk")
	t.Check(bytes.Equal(x, y), "%d bytes from standard input stored differently than from a file: %s: %v", n, vf.FirstDiff(y, x), dr)
	if fr.Exit == 0 {
		t.Event("contents stored from standard input", 1)
	}
	t.Distinct(b)
}

// chain passes an image through several commands in a pipeline and compares
// with the same commands on a file.
func chain(t *vf.T) {
	d := wl.RandDisk(t, "nakedos")
	dir := t.Fresh()
	t.Put(dir, "disk", d.Data)
	cur := append([]byte{}, d.Data...)
	for k := 0; k < 4; k++ {
		b := ref.RandBytes(t.Rand, 1+t.Intn(600))
		t.Put(dir, "data", b)
		var a []string
		switch t.Intn(4) {
		case 0:
			a = []string{"rm", "-f", rwImg, fmt.Sprintf("DF%02X", 5+t.Intn(60))}
		case 1:
			a = []string{"nakedos", "mkhello", rwImg, fmt.Sprintf("DF%02X", 5+t.Intn(60))}
		default:
			a = []string{"put", "-f", rwImg, fmt.Sprintf("DF%02X", 5+t.Intn(60)), "data"}
		}
		fa, da := append([]string{}, a...), append([]string{}, a...)
		for i := range a {
			if a[i] == rwImg {
				fa[i], da[i] = "disk", "-"
			}
		}
		fr := t.Run(vf.RunOpts{Dir: dir}, fa...)
		dr := t.Run(vf.RunOpts{Dir: dir, Stdin: cur}, da...)
		if fr.Exit != dr.Exit {
			t.Fail("step %d: %v; %v", k, fr, dr)
		}
		if fr.Exit == 0 {
			cur = dr.Stdout
		}
		if f := t.Get(dir, "disk"); !bytes.Equal(f, cur) {
			t.Fail("step %d, %v: the image in the pipeline differs from the file: %s", k, da, vf.FirstDiff(cur, f))
		}
		t.Event("pipeline steps", 1)
	}
	t.Distinct(cur)
}

func main() {
	vf.Main(vf.Spec{
		ID:   "C24",
		Rule: "each command with a dash gives the exit status, output and files of the same command on files without extension; the written image appears on standard output byte for byte and nowhere else",
		Assumptions: []string{
			"the wording of error messages is not compared",
		},
		Require: []string{"images on standard output", "files written from standard input", "two dashes refused", "runs beside a file named -", "runs with -v", "pipeline steps", "contents stored from standard input",
			"runs compared: ls", "runs compared: dump", "runs compared: decode", "runs compared: put", "runs compared: rm", "runs compared: mkhello", "runs compared: mksd", "runs compared: reorder"},
	}, func(s *vf.Suite) {
		s.Section("commands", 4800, 50000, check)
		s.Section("stored", 1400, 12000, stored)
		s.Section("pipeline", 300, 3000, chain)
	})
}
