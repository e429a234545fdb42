// C25: the result depends only on what was asked.
package main

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"verif/lib"
	"verif/ref"
	"verif/vf"
	"verif/wl"
)

// flag of a request. Values that are numbers or the default may be spelled in
// several ways.
type flag struct {
	long, short string
	val         string // "" for a switch
	num         int    // -1: no number
	def         bool   // the default value: may be left out
}

// arg is a positional argument; path tells that it names a file.
type arg struct {
	text string
	path bool
}

type request struct {
	cmd   []string   // canonical words
	alias [][]string // other ways to name the command
	flags []flag
	args  []arg
}

func str(long, val, def string) flag { return flag{long: long, val: val, num: -1, def: val == def} }
func number(long string, n, def int) flag {
	return flag{long: long, val: fmt.Sprintf("%#x", n), num: n, def: n == def}
}
func sw(long, short string) flag { return flag{long: long, short: short, num: -1} }

var orders = []string{"auto", "do", "po"}

func pick(t *vf.T, s ...string) string { return s[t.Intn(len(s))] }

func page(t *vf.T, def int) int {
	switch t.Intn(4) {
	case 0:
		return def
	case 1:
		return t.Intn(65536)
	}
	return t.Intn(256) * 256
}

var kinds = []string{"ls", "ls", "dump", "decode", "put", "put", "rm", "mkhello", "mksd", "reorder", "reorder", "filetypes"}

// make1 makes a request over the files img and data; out is a new file.
func make1(t *vf.T, kind string, d wl.Disk, img, data, out string) request {
	name := func() string {
		if len(d.Names) > 0 && t.Intn(4) > 0 {
			return d.Names[t.Intn(len(d.Names))]
		}
		return pick(t, "NOSUCH", "DF05", "FOO", "FNEW", "DF55:BARBAZ", "DF66", "1", "HELLO")
	}
	var r request
	if kind != "filetypes" && kind != "decode" {
		r.flags = append(r.flags, str("order", orders[[]int{0, 0, 1, 2}[t.Intn(4)]], "auto"))
	}
	sys := func(s ...string) {
		if t.Intn(2) == 0 {
			r.flags = append(r.flags, str("system", pick(t, s...), "auto"))
		}
	}
	r.args = []arg{{img, true}}
	switch kind {
	case "ls":
		r.cmd = []string{"ls"}
		r.alias = [][]string{{"list"}, {"cat"}, {"catalog"}}
		sys("auto", "auto", "dos3", "prodos", "nakedos")
		if t.Intn(3) == 0 {
			r.flags = append(r.flags, sw("short-names", "s"))
		}
		if len(d.Dirs) > 0 && t.Intn(2) == 0 {
			if x := d.Dirs[t.Intn(len(d.Dirs))]; x != "" {
				r.args = append(r.args, arg{x, false})
			}
		}
	case "dump":
		r.cmd = []string{"dump"}
		sys("auto", "auto", "dos3")
		r.args = append(r.args, arg{name(), false})
	case "decode":
		r.cmd = []string{"applesoft", "decode"}
		r.args = []arg{{data, true}}
		if t.Intn(2) == 0 {
			r.flags = append(r.flags, sw("raw", "r"))
		}
		if t.Intn(2) == 0 {
			r.flags = append(r.flags, number("location", []int{0x801, 0x801, 0x1001, t.Intn(65536)}[t.Intn(4)], 0x801))
		}
	case "put":
		r.cmd = []string{"put"}
		sys("auto", "auto", "dos3")
		if t.Intn(2) == 0 {
			r.flags = append(r.flags, sw("overwrite", "f"))
		}
		if t.Intn(3) == 0 {
			r.flags = append(r.flags, str("filetype-name", pick(t, "B", "BIN", "Binary", "T", "A", "Q", ""), "B"))
		}
		if t.Intn(3) == 0 {
			r.flags = append(r.flags, number("address", page(t, 0x6000), 0x6000))
		}
		r.args = append(r.args, arg{name(), false}, arg{pick(t, data, data, img), true})
	case "rm":
		r.cmd = []string{"rm"}
		r.alias = [][]string{{"delete"}}
		sys("auto", "auto", "dos3")
		if t.Intn(2) == 0 {
			r.flags = append(r.flags, sw("missing-ok", "f"))
		}
		r.args = append(r.args, arg{name(), false})
	case "mkhello":
		r.cmd = []string{"nakedos", "mkhello"}
		if t.Intn(2) == 0 {
			r.flags = append(r.flags, number("address", page(t, 0x6000), 0x6000))
		}
		if t.Intn(2) == 0 {
			r.flags = append(r.flags, number("start", []int{0xffff, t.Intn(65536), 0xfffe}[t.Intn(3)], 0xffff))
		}
		r.args = append(r.args, arg{name(), false})
	case "mksd":
		r.cmd = []string{"mksd"}
		if t.Intn(2) == 0 {
			r.flags = append(r.flags, number("address", page(t, 0x6000), 0x6000))
		}
		if t.Intn(2) == 0 {
			r.flags = append(r.flags, number("start", []int{0xffff, 0x6000, 0x6001, t.Intn(65536)}[t.Intn(4)], 0xffff))
		}
		r.args = []arg{{out, true}, {data, true}}
	case "reorder":
		r.cmd = []string{"reorder"}
		r.flags = append(r.flags, str("new-order", orders[[]int{0, 0, 1, 2}[t.Intn(4)]], "auto"))
		if t.Intn(3) == 0 {
			r.flags = append(r.flags, sw("overwrite", "f"))
		}
		if t.Intn(2) == 0 {
			r.args = append(r.args, arg{out, true})
		}
	case "filetypes":
		r.cmd = []string{"filetypes"}
		r.args = nil
		if t.Intn(2) == 0 {
			r.flags = append(r.flags, sw("all", ""))
		}
	}
	// a damaged command line: the answer is a refusal, however it is put
	if t.Intn(12) == 0 && len(r.args) > 0 {
		switch t.Intn(3) {
		case 0:
			r.args = r.args[:len(r.args)-1]
		case 1:
			r.args = append(r.args, arg{"SUPERFLUOUS", kind == "reorder" && len(r.args) == 1})
		case 2:
			if len(r.flags) == 0 || r.flags[0].long != "order" {
				r.flags = append([]flag{{}}, r.flags...)
			}
			r.flags[0] = str("order", pick(t, "xx", "raw", "DO", "d"), "")
		}
	}
	return r
}

// canonical is the plain spelling.
func (r request) canonical() []string {
	a := append([]string{}, r.cmd...)
	for _, f := range r.flags {
		if f.def {
			continue
		}
		if f.val == "" && f.num < 0 && f.long != "filetype-name" {
			a = append(a, "--"+f.long)
		} else {
			a = append(a, "--"+f.long+"="+f.val)
		}
	}
	for _, x := range r.args {
		a = append(a, x.text)
	}
	return a
}

// vary spells the request in another way; cwd is where it will be run.
func (r request) vary(t *vf.T, dir, cwd string) (args []string, verbose bool) {
	words := r.cmd
	if len(r.alias) > 0 && t.Intn(2) == 0 {
		words = r.alias[t.Intn(len(r.alias))]
	}
	var fl [][]string
	for _, f := range r.flags {
		if f.def && t.Intn(2) == 0 {
			continue
		}
		val := f.val
		if f.num >= 0 {
			val = fmt.Sprintf([]string{"%d", "0x%x", "0X%X", "0x%X", "0x%04x", "0x%08x", "0o%o", "0b%b", "0%o"}[t.Intn(9)], f.num)
		}
		switch {
		case f.val == "" && f.num < 0 && f.long != "filetype-name":
			if f.short != "" && t.Intn(2) == 0 {
				fl = append(fl, []string{"-" + f.short})
			} else {
				fl = append(fl, []string{pick(t, "--"+f.long, "--"+f.long+"=true")})
			}
		case t.Intn(2) == 0 && val != "":
			fl = append(fl, []string{"--" + f.long, val})
		default:
			fl = append(fl, []string{"--" + f.long + "=" + val})
		}
	}
	t.Shuffle(len(fl), func(i, j int) { fl[i], fl[j] = fl[j], fl[i] })
	if t.Intn(2) == 0 {
		v := [][]string{{"-v"}, {"-vv"}, {"-v", "-v"}, {"--debug"}, {"-vvv"}, {"--debug", "-v"}, {"-vvvv"}, {"-vvvvvv"}}[t.Intn(8)]
		verbose = true
		t.Event("runs with -v", 1)
		if t.Intn(2) == 0 {
			words = append(append([]string{}, v...), words...)
		} else {
			fl = append(fl, v)
		}
	}
	args = append(args, words...)
	var pos []string
	for _, x := range r.args {
		p := x.text
		if x.path {
			p = spell(t, dir, cwd, p)
		}
		pos = append(pos, p)
	}
	// the options anywhere after the command
	k := 0
	for _, f := range fl {
		for k < len(pos) && t.Intn(3) == 0 {
			args = append(args, pos[k])
			k++
		}
		args = append(args, f...)
	}
	return append(args, pos[k:]...), verbose
}

// spell gives the path of a file in dir in another way.
func spell(t *vf.T, dir, cwd, name string) string {
	rel, err := filepath.Rel(cwd, filepath.Join(dir, name))
	if err != nil {
		t.Inconclusive("%v", err)
	}
	if l := filepath.Join(dir, "sub.do", "l-"+name); t.Intn(6) == 0 {
		if _, err := os.Stat(l); err == nil {
			t.Event("files named by a link", 1)
			return l
		}
	}
	switch t.Intn(6) {
	case 0:
		return rel
	case 1:
		return filepath.Join(dir, name)
	case 2:
		if strings.HasPrefix(rel, ".") {
			return rel
		}
		return "./" + rel
	case 3:
		return filepath.Join(dir, "v1.po.link") + "/" + name
	case 4:
		return filepath.Join(dir, "sub.do") + "/../" + name
	}
	return filepath.Dir(dir) + "//" + filepath.Base(dir) + "/./" + name
}

func lay(t *vf.T, dir string, files map[string][]byte) {
	_ = os.RemoveAll(dir)
	if err := os.MkdirAll(filepath.Join(dir, "sub.do"), 0777); err != nil {
		t.Inconclusive("%v", err)
	}
	if err := os.Symlink(".", filepath.Join(dir, "v1.po.link")); err != nil {
		t.Inconclusive("%v", err)
	}
	for n, b := range files {
		t.Put(dir, n, b)
		if err := os.Symlink("../"+n, filepath.Join(dir, "sub.do", "l-"+n)); err != nil {
			t.Inconclusive("%v", err)
		}
	}
}

// store moves the files of dir to another folder, under names that tell
// nothing or something else, and leaves links where they were.
func store(t *vf.T, dir, away string, files map[string][]byte) {
	_ = os.RemoveAll(away)
	if err := os.MkdirAll(away, 0777); err != nil {
		t.Inconclusive("%v", err)
	}
	for n := range files {
		real := filepath.Join(away, hash(n)+pick(t, "", ".do", ".po", ".dsk", ".bin", ".hdv"))
		if err := os.Rename(filepath.Join(dir, n), real); err != nil {
			t.Inconclusive("%v", err)
		}
		if err := os.Symlink(real, filepath.Join(dir, n)); err != nil {
			t.Inconclusive("%v", err)
		}
	}
	t.Event("files that are links to files of other names", len(files))
}

// unstore puts the files of dir back where store found them.
func unstore(t *vf.T, dir string, files map[string][]byte) {
	for n := range files {
		p := filepath.Join(dir, n)
		real, err := os.Readlink(p)
		if err != nil {
			continue // not a link any more: judged as it is
		}
		if err := os.Rename(real, p); err != nil && !os.IsNotExist(err) {
			t.Inconclusive("%v", err)
		}
	}
}

func hash(s string) string {
	h := fnv.New32a()
	_, _ = h.Write([]byte(s))
	return fmt.Sprintf("%08x", h.Sum32())
}

func requests(t *vf.T) {
	kind := kinds[t.I%len(kinds)]
	sys := ""
	if kind == "put" || kind == "rm" || kind == "mkhello" {
		if t.Intn(8) > 0 {
			sys = "nakedos"
		}
	}
	if kind == "dump" && t.Intn(2) == 0 {
		sys = "dos3"
	}
	d := wl.RandDisk(t, sys)
	img := "disk" + d.Ext(t)
	if t.Intn(3) == 0 {
		img = "disk" + pick(t, "", "", ".dsk", ".dsk", ".DSK", ".po", ".img", ".Do", ".po.bak", ".a.do")
	}
	data := ref.RandBytes(t.Rand, 1+t.Intn(1500))
	if kind == "decode" {
		data = ref.EncodeApplesoft(ref.RandApplesoft(t.Rand, true), 0x801)
		if t.Intn(3) == 0 {
			data = ref.Header(data)
		}
	}
	out := pick(t, "new", "new.po", "new.do", "new.dsk", "sub.do/new", "sub.do/new.po")
	files := map[string][]byte{img: d.Data, "data": data}
	if t.Intn(3) == 0 && !strings.Contains(out, "/") {
		files[out] = ref.RandBytes(t.Rand, t.Intn(1000))
	}
	r := make1(t, kind, d, img, "data", out)
	can := r.canonical()
	base := t.Fresh()
	dir := filepath.Join(base, "w")
	lay(t, dir, files)
	start := t.Snapshot(dir)
	cr := t.Run(vf.RunOpts{Dir: dir}, can...)
	cs := t.Snapshot(dir)
	t.Note("%s; plain run: diskii %s: exit %d", d.Desc, strings.Join(can, " "), cr.Exit)
	if cr.Exit == 0 && (kind == "put" || kind == "rm" || kind == "mkhello") {
		t.Event("modifications", 1)
	}
	for k := 0; k < 3; k++ {
		lay(t, dir, files)
		o := vf.RunOpts{Dir: dir}
		switch t.Intn(4) {
		case 0:
			o.Dir = filepath.Join(dir, "sub.do")
		case 1:
			o.Dir = base
		}
		var verbose bool
		var args []string
		same := k == 0 && t.Intn(2) == 0
		if same {
			args, o.Dir = can, dir // once more
			t.Event("repetitions compared", 1)
		} else {
			args, verbose = r.vary(t, dir, o.Dir)
		}
		if t.Intn(2) == 0 {
			o.Env = []string{"LANG=" + pick(t, "C", "tr_TR.UTF-8", "en_US.UTF-8"), "TZ=Asia/Tokyo", "COLUMNS=" + pick(t, "20", "1", "500"), "TERM=" + pick(t, "dumb", "xterm"), "HOME=" + base, "TMPDIR=" + pick(t, "/tmp", "/", "", "/nonexistent"), "PWD=" + pick(t, "/", "/nonexistent", ""), "USER=" + pick(t, "root", "apple")}
			// names a program might look for, all at once
			prefix := pick(t, "", "DISKII_", "DISKII", "DISKII_DEFAULT_", "APPLE2_", "A2_")
			for _, v := range [][]string{{"ORDER", "po", "do"}, {"NEW_ORDER", "do", "po"}, {"NEWORDER", "do", "po"}, {"SYSTEM", "dos3", "prodos", "nakedos"}, {"DISK_ORDER", "po", "do"},
				{"OVERWRITE", "1", "true"}, {"FORCE", "1", "true"}, {"MISSING_OK", "1", "true"}, {"ADDRESS", "0x2000", "8192"}, {"START", "0x2100", "0x6001"}, {"LOCATION", "0x3001", "12289"},
				{"FILETYPE_NAME", "T", "B", "A"}, {"FILETYPE", "T", "A"}, {"SHORT_NAMES", "1", "true"}, {"SHORT", "1"}, {"RAW", "1", "true"}, {"ALL", "1", "true"},
				{"DEBUG", "1", "2", "true"}, {"VERBOSE", "1", "2"}, {"V", "1"}, {"QUIET", "1"}, {"DRYRUN", "1"}, {"DRY_RUN", "1"}, {"IMAGE", "/nonexistent"}, {"DISK", "/nonexistent"}, {"DIR", "/"}, {"CONFIG", "/nonexistent"}, {"CI", "1"}, {"NO_COLOR", "1"}, {"CASE", "1"}, {"STRICT", "1"}, {"COMPAT", "1"}} {
				o.Env = append(o.Env, prefix+v[0]+"="+pick(t, v[1:]...))
			}
			t.Event("runs with another environment", 1)
		}
		stored := !same && t.Intn(4) == 0
		if stored {
			store(t, dir, filepath.Join(base, "store"), files)
		}
		vr := t.Run(o, args...)
		if stored {
			unstore(t, dir, files)
		}
		vs := t.Snapshot(dir)
		ctx := fmt.Sprintf("diskii %s = diskii %s", strings.Join(can, " "), strings.Join(args, " "))
		t.Eval(1)
		if stored {
			ctx += " (with the files behind links)"
		}
		if vr.Exit != cr.Exit {
			t.Fail("%s, but they exit with %d and %d: %s / %s", ctx, cr.Exit, vr.Exit, cr.Stderr, vr.Stderr)
		}
		if !bytes.Equal(cr.Stdout, vr.Stdout) {
			t.Fail("%s, but they print different things: %s", ctx, vf.FirstDiff(vr.Stdout, cr.Stdout))
		}
		if df := cs.Diff(vs); len(df) > 0 {
			t.Fail("%s, but they leave different files: %v (the plain one: %v)", ctx, df, start.Diff(cs))
		}
		if vr.Exit != 0 && len(bytes.TrimSpace(vr.Stderr)) == 0 {
			t.Fail("%s: failed without a message", ctx)
		}
		if !verbose && (len(vr.Stderr) > 0) != (len(cr.Stderr) > 0) {
			t.Fail("%s, but one prints an error message and one does not: %q / %q", ctx, cr.Stderr, vr.Stderr)
		}
		if verbose && len(vr.Stderr) > 0 {
			t.Event("runs with messages", 1)
		}
		t.Event("spellings compared: "+kind, 1)
		t.Event(fmt.Sprintf("exit %d", vr.Exit), 1)
		t.Distinct(can, args, d.Data)
	}
	if t.I < 24 {
		a, _ := r.vary(t, dir, dir)
		t.Sample("diskii %s = diskii %s", strings.Join(can, " "), strings.Join(a, " "))
	}
}

// numbers: values outside 0 to 65535 and things that are no numbers are refused.
func numbers(t *vf.T) {
	bad := []string{"65536", "0x10000", "-1", "-0x1", "0x", "", "6000h", "$6000", "0x6000 ", "0xG", "1e3", "six", "65536000000000000000000", "0b2", "0o8", "1.0", "08", "+1"}
	forms := [][]string{
		{"put", "--address=%s", "disk.do", "DF55", "data"},
		{"nakedos", "mkhello", "--address=%s", "disk.do", "DF55"},
		{"nakedos", "mkhello", "--start=%s", "disk.do", "DF55"},
		{"mksd", "--address=%s", "new", "data"},
		{"mksd", "--start=%s", "new", "data"},
		{"applesoft", "decode", "--location=%s", "prog"},
	}
	n := ref.BuildNaked(t.Rand, ref.NakedOpts{Files: 3, MaxSec: 3, FreeLeft: -1, Syms: 4})
	dir := t.Fresh()
	t.Put(dir, "disk.do", ref.Conv(n.Img, "raw", "do"))
	t.Put(dir, "data", []byte("hello"))
	t.Put(dir, "prog", ref.EncodeApplesoft(ref.RandApplesoft(t.Rand, true), 0x801))
	f := forms[t.I%len(forms)]
	before := t.Snapshot(dir)
	for _, b := range bad {
		if !t.Thorough && t.Intn(3) > 0 {
			continue
		}
		a := append([]string{}, f...)
		for i := range a {
			if strings.Contains(a[i], "%s") {
				a[i] = fmt.Sprintf(a[i], b)
			}
		}
		r := t.Run(vf.RunOpts{Dir: dir}, a...)
		t.Eval(1)
		t.Check(r.Err() && len(r.Stdout) == 0 && len(r.Stderr) > 0, "%q is no address: %v", b, r)
		d := before.Diff(t.Snapshot(dir))
		t.Check(len(d) == 0, "refused, but %v: %v", d, r)
		t.Event("bad numbers refused", 1)
		t.Distinct(f, b)
	}
}

// library: the debug level changes nothing.
func levels(t *vf.T) {
	d := wl.RandDisk(t, "")
	name := "x" + d.Ext(t)
	if t.Intn(2) == 0 {
		name = "x" + pick(t, ".dsk", "", ".DSK")
	}
	ord, sys := pick(t, "auto", "auto", "do", "po"), pick(t, "auto", "auto", "dos3", "prodos", "nakedos")
	var first string
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		old := os.Stderr
		os.Stderr = null
		defer func() { os.Stderr = old; null.Close() }()
	}
	for lv := 0; lv < 6; lv++ {
		op, o, err := lib.OpenDebug(append([]byte{}, d.Data...), name, ord, sys, lv)
		res := fmt.Sprintf("%s %v", o, err)
		if err == nil {
			dirs := append([]string{""}, d.Dirs...)
			if len(dirs) > 5 {
				dirs = dirs[:5]
			}
			for _, x := range dirs {
				ds, err := op.Catalog(x)
				res += fmt.Sprintf("|%s %v %v", op.Name(), ds, err)
			}
			names := d.Names
			sort.Strings(names)
			for i := 0; i < len(names) && i < 8; i++ {
				fi, err := op.GetFile(names[i])
				res += fmt.Sprintf("|%v %v", fi, err)
			}
			res += fmt.Sprintf("|%d %x", len(op.GetBytes()), op.GetBytes())
		}
		if lv == 0 {
			first = res
			continue
		}
		t.Eval(1)
		if res != first {
			i := 0
			for i < len(res) && i < len(first) && res[i] == first[i] {
				i++
			}
			t.Fail("%s as %s, order %s, system %s: debug level %d gives another result from character %d on: %.200q, level 0: %.200q", d.Desc, name, ord, sys, lv, i, res[i:], first[i:])
		}
		t.Event("levels compared", 1)
	}
	t.Distinct(d.Data, ord, sys)
}

func main() {
	vf.Main(vf.Spec{
		ID:          "C25",
		Rule:        "requests of every command over generated and shipped images, run in one plain spelling and then in three others: aliases, long and short options, = or blank, options in any order and place, defaults given or left out, addresses in any base, other spellings of the paths, another current directory, another environment, any number of -v, or simply once more; exit status, standard output and the files left behind must be the same. Addresses that are no 16-bit numbers must be refused. In the library the debug level must not change any result.",
		Assumptions: []string{"the wording of messages on standard error is not compared"},
		Require: []string{"runs with -v", "runs with messages", "repetitions compared", "runs with another environment", "bad numbers refused", "levels compared", "modifications", "exit 0", "exit 1",
			"spellings compared: ls", "spellings compared: dump", "spellings compared: decode", "spellings compared: put", "spellings compared: rm", "spellings compared: mkhello", "spellings compared: mksd", "spellings compared: reorder", "spellings compared: filetypes"},
	}, func(s *vf.Suite) {
		s.Section("requests", 3200, 30000, requests)
		s.Section("numbers", 72, 600, numbers)
		s.Section("levels", 600, 6000, levels)
	})
}
