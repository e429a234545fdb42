// C16: exit status tells the truth, also when I/O fails.
package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"verif/nk"
	"verif/ref"
	"verif/vf"

	"github.com/zellyn/diskii/helpers"
)

// scen is a proper request: without faults it must succeed.
type scen struct {
	kind  string
	args  []string
	files map[string][]byte // inputs
	out   string            // file written; "" for standard output
	stdin string            // input file given as standard input
	want  []byte            // result of the fault-free run
}

func (s scen) lay(t *vf.T, dir string) {
	for n, b := range s.files {
		t.Put(dir, n, b)
	}
}

var kinds = []string{"put", "rm", "mkhello", "reorder", "reorder-new", "mksd", "dump", "put-", "rm-", "mkhello-", "reorder-", "mksd-", "dump-", "ls", "ls-", "decode", "decode-", "filetypes"}

var nkinds = len(kinds)

// inputs are the files a scenario reads by name.
func (s scen) inputs() []string {
	var names []string
	for n := range s.files {
		if n != s.stdin {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	return names
}

func scenario(t *vf.T, kind string) scen {
	if kind == "" {
		kind = kinds[t.Intn(len(kinds))]
	}
	order := []string{"do", "po"}[t.Intn(2)]
	img := "disk." + order
	s := scen{kind: kind, files: map[string][]byte{}}
	dash := strings.HasSuffix(kind, "-")
	verb := strings.TrimSuffix(kind, "-")
	nak := ref.BuildNaked(t.Rand, ref.NakedOpts{Files: 2 + t.Intn(10), MaxSec: 1 + t.Intn(8), FreeLeft: -1, Syms: t.Intn(30)})
	fs := []string{}
	for f := 1; f < 0xfe; f++ {
		if f != 3 && f != 4 && len(nak.Read(byte(f))) > 0 {
			fs = append(fs, fmt.Sprintf("DF%02X", f))
		}
	}
	if len(fs) == 0 {
		fs = []string{"DF03"}
		if verb == "rm" {
			verb, s.kind = "mkhello", strings.Replace(kind, "rm", "mkhello", 1)
		}
	}
	some := fs[t.Intn(len(fs))]
	if dash {
		img, s.stdin, order = "-", "disk.img", "do"
	}
	data := ref.RandBytes(t.Rand, 1+t.Intn(5000))
	disk := func(b []byte) {
		if dash {
			s.files[s.stdin] = b
		} else {
			s.files[img] = b
		}
	}
	if !dash {
		s.out = img
	}
	switch verb {
	case "put":
		s.args = []string{"put", "-f", img, []string{"DF7E", "DF7E:NEWFILE", "BRANDNEW"}[t.Intn(3)], "data"}
		s.files["data"] = data
		disk(ref.Conv(nak.Img, "raw", order))
	case "rm":
		s.args = []string{"rm", img, some}
		disk(ref.Conv(nak.Img, "raw", order))
	case "mkhello":
		s.args = []string{"nakedos", "mkhello", img, some}
		disk(ref.Conv(nak.Img, "raw", order))
	case "reorder":
		s.args = []string{"reorder", img}
		if dash {
			s.args = []string{"reorder", "--order", order, "-"}
			if t.Intn(2) == 0 {
				s.args = append(s.args, "-")
			}
		}
		disk(ref.RandBytes(t.Rand, ref.DiskSize))
	case "reorder-new":
		s.args = []string{"reorder", img, "new.dat"}
		s.out = "new.dat"
		disk(ref.RandBytes(t.Rand, ref.DiskSize))
	case "mksd":
		s.out = []string{"sd.dsk", "sd.po"}[t.Intn(2)]
		s.stdin = ""
		s.files["data"] = data
		if dash {
			s.out = ""
			s.args = []string{"mksd", "-", "data"}
		} else {
			s.args = []string{"mksd", s.out, "data"}
		}
	case "dump":
		s.out = ""
		if t.Intn(2) == 0 {
			s.args = []string{"dump", img, some}
			disk(ref.Conv(nak.Img, "raw", order))
		} else {
			var d *ref.DosDisk
			var e *ref.DosEntry
			for e == nil {
				d = ref.BuildDos(t.Rand, ref.DosOpts{MaxEntries: 12, Plain: true, Big: t.Intn(3) == 0})
				for i := range d.Live {
					if n := d.Live[i].Name; d.Live[i].Readable && len(d.Live[i].Data) > 0 && n != "" && n[0] != '-' && n[0] != '=' {
						e = &d.Live[i]
					}
				}
			}
			s.args = []string{"dump", img, e.Name}
			disk(ref.Conv(d.Img, "do", order))
		}
	case "ls":
		s.out = ""
		s.args = []string{"ls", img}
		switch t.Intn(3) {
		case 0:
			d := ref.BuildDos(t.Rand, ref.DosOpts{MaxEntries: 5 + t.Intn(100), Plain: true, NoFiles: true})
			for len(d.Live) == 0 {
				d = ref.BuildDos(t.Rand, ref.DosOpts{MaxEntries: 5 + t.Intn(100), Plain: true, NoFiles: true})
			}
			disk(ref.Conv(d.Img, "do", order))
		case 1:
			v := ref.BuildPro(t.Rand, ref.ProOpts{Blocks: 280, MaxDirs: 3, MaxDepth: 2, MaxEnt: 30, LongRoot: true})
			s.args = append(s.args, "--system", "prodos", "--order", order)
			disk(ref.Conv(v.Img, "po", order))
		default:
			disk(ref.Conv(nak.Img, "raw", order))
		}
	case "decode":
		s.out = ""
		s.args = []string{"applesoft", "decode", img}
		if t.Intn(2) == 0 {
			s.args = append(s.args, "-r")
		}
		b := []byte{0, 0}
		for len(b) < 6 {
			b = ref.EncodeApplesoft(ref.RandApplesoft(t.Rand, true), 0x801)
		}
		disk(b)
	case "filetypes":
		s.out, s.stdin = "", ""
		s.args = []string{"filetypes"}
		if t.Intn(2) == 0 {
			s.args = append(s.args, "--all")
		}
	}
	// the fault-free result
	dir := t.Fresh()
	s.lay(t, dir)
	r := s.run(t, dir, vf.RunOpts{})
	t.Note("%s: %v", s.kind, r)
	t.Check(r.Exit == 0 && len(r.Stderr) == 0, "a proper request failed without any fault: %v", r)
	if s.out == "" {
		s.want = r.Stdout
	} else {
		s.want = t.Get(dir, s.out)
		t.Check(len(r.Stdout) == 0, "unexpected output: %v", r)
	}
	t.Check(len(s.want) > 0, "exit 0 but no result: %v", r)
	if verb != "dump" && verb != "ls" && verb != "decode" && verb != "filetypes" {
		t.Check(len(s.want) == ref.DiskSize, "exit 0 but the result has %d bytes: %v", len(s.want), r)
	}
	t.Event("fault-free runs", 1)
	return s
}

func (s scen) run(t *vf.T, dir string, o vf.RunOpts) vf.CmdResult {
	o.Dir = dir
	if s.stdin != "" && o.StdinFile == nil {
		f, err := os.Open(filepath.Join(dir, s.stdin))
		if err != nil {
			t.Inconclusive("%v", err)
		}
		defer f.Close()
		o.StdinFile = f
	}
	return t.Run(o, s.args...)
}

// truth judges a run under a fault: success only with the complete result.
func (s scen) truth(t *vf.T, r vf.CmdResult, got []byte, fault string, mustFail bool) {
	t.Eval(1)
	if r.Exit == 0 {
		t.Check(bytes.Equal(got, s.want), "%s: exit 0, but the result is not complete: %s: %v", fault, vf.FirstDiff(got, s.want), r)
		t.Check(!mustFail, "%s: exit 0: %v", fault, r)
		t.Event("succeeded with the complete result", 1)
		return
	}
	t.Check(len(bytes.TrimSpace(r.Stderr)) > 0, "%s: failed without a message: %v", fault, r)
	t.Event("failures reported", 1)
	t.Event("failures reported: "+s.kind, 1)
	t.Distinct(s.kind, fault)
}

func (s scen) result(t *vf.T, dir string, r vf.CmdResult) []byte {
	if s.out == "" {
		return r.Stdout
	}
	return t.Get(dir, s.out)
}

// inject runs the scenario under strace and makes call number k of a system
// call on a path fail.
func (s scen) inject(t *vf.T, dir, path, call, errno string, k int) (hit bool, ok bool) {
	log := filepath.Join(t.Dir, "strace.log")
	_ = os.Remove(log)
	args := []string{"-f", "-q", "-o", log, "-P", filepath.Join(dir, path), "-e", "trace=openat,read,write,close,pread64,pwrite64,ftruncate,fsync",
		"-e", fmt.Sprintf("inject=%s:error=%s:when=%d", call, errno, k), vf.Bin()}
	cmd := exec.Command("strace", append(args, s.args...)...)
	cmd.Dir = dir
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=/nonexistent", "GOTRACEBACK=single"}
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	if s.stdin != "" {
		f, err := os.Open(filepath.Join(dir, s.stdin))
		if err != nil {
			t.Inconclusive("%v", err)
		}
		defer f.Close()
		cmd.Stdin = f
	}
	_ = cmd.Run()
	b, err := os.ReadFile(log)
	if err != nil || !bytes.Contains(b, []byte("exited with")) && !bytes.Contains(b, []byte("killed by")) {
		t.Event("strace did not work", 1)
		return false, false
	}
	if !bytes.Contains(b, []byte("(INJECTED)")) {
		return false, true
	}
	t.Event("injected "+call+" "+errno, 1)
	r := vf.CmdResult{Exit: cmd.ProcessState.ExitCode(), Stdout: so.Bytes(), Stderr: se.Bytes(), Args: s.args}
	fault := fmt.Sprintf("%s number %d on %s fails with %s", call, k, path, errno)
	if r.Exit != 0 && r.Exit != 1 {
		t.Fail("%s: crashed: %v", fault, r)
	}
	// what kind of call was hit
	must := true
	writing := strings.LastIndex(string(b), "O_WRONLY") < strings.Index(string(b), "(INJECTED)") && strings.Contains(string(b), "O_WRONLY")
	if call == "close" && !writing {
		must = false // closing an input
	}
	if errno == "EINTR" {
		must = false
		t.Check(r.Exit == 0, "%s (to be retried): %v", fault, r)
	}
	s.truth(t, r, s.result(t, dir, r), fault, must)
	return true, true
}

// unfulfilled makes requests that cannot be met: no success may be reported.
func unfulfilled(t *vf.T) {
	dir := t.Fresh()
	order := []string{"do", "po"}[t.Intn(2)]
	img := "disk." + order
	data := ref.RandBytes(t.Rand, 1+t.Intn(3000))
	nak := ref.BuildNaked(t.Rand, ref.NakedOpts{Files: 1 + t.Intn(10), MaxSec: 1 + t.Intn(8), FreeLeft: []int{-1, -1, 0, 1}[t.Intn(4)], Syms: t.Intn(30)})
	m := nk.FromDisk(nak)
	has := map[int]bool{}
	var there, absent []string
	for f := 1; f < 0xfe; f++ {
		if f == 3 || f == 4 {
			continue
		}
		form := []string{"DF%02X", "df%02x", "%02X"}[t.Intn(3)]
		if len(nak.Read(byte(f))) > 0 {
			there = append(there, fmt.Sprintf(form, f))
			has[f] = true
		} else {
			absent = append(absent, fmt.Sprintf(form, f))
		}
	}
	for k := 0; k < 4; k++ {
		n := ref.RandSymName(t.Rand)
		if _, ok := m.Syms[strings.ToUpper(n)]; !ok {
			if f, _ := m.Resolve(n); f == 0 {
				absent = append(absent, n)
			}
		}
	}
	missing := absent[t.Intn(len(absent))]
	if t.Intn(3) == 0 {
		missing = absent[len(absent)-1]
	}
	disk := ref.Conv(nak.Img, "raw", order)
	var args []string
	kind := []string{"rm", "rm", "dump", "put-exists", "put-type", "put-room", "mkhello", "dump-dos", "ls-dir", "ls-nodir", "mksd", "reorder", "decode", "unsupported"}[t.I%14]
	switch kind {
	case "rm":
		args = []string{[]string{"rm", "delete"}[t.Intn(2)], img, missing}
	case "dump":
		args = []string{"dump", img, missing}
	case "put-exists":
		if len(there) == 0 {
			return
		}
		args = []string{"put", img, there[t.Intn(len(there))], "data"}
	case "put-type":
		args = []string{"put", "-f", "--filetype-name", []string{"Q", "", "T", "TXT", "A", "bas", "R"}[t.Intn(7)], img, missing, "data"}
	case "put-room":
		free := 0
		for i := 0; i < 560; i++ {
			if *nak.Owner(i) == 0xff {
				free++
			}
		}
		data = ref.RandBytes(t.Rand, 256*free+1+t.Intn(300))
		args = []string{"put", "-f", img, missing, "data"}
	case "mkhello":
		args = []string{"nakedos", "mkhello", img, absent[len(absent)-1]}
		if args[3][0] == 'D' || args[3][0] == 'd' || len(args[3]) < 3 {
			return // a file number
		}
	case "dump-dos":
		d := ref.BuildDos(t.Rand, ref.DosOpts{MaxEntries: 1 + t.Intn(10), Plain: true})
		disk = ref.Conv(d.Img, "do", order)
		n := "NO SUCH FILE"
		if len(d.Deleted) > 0 {
			n = d.Deleted[0].Name
		}
		if d.LiveByName(n) != nil || n == "" || n[0] == '-' {
			return
		}
		args = []string{"dump", img, n}
	case "ls-dir":
		v := ref.BuildPro(t.Rand, ref.ProOpts{Blocks: 280, MaxDirs: 3, MaxDepth: 2, MaxEnt: 20})
		disk = ref.Conv(v.Img, "po", order)
		args = []string{"ls", "--system", "prodos", img, "NO.SUCH.DIR"}
	case "ls-nodir":
		args = []string{"ls", img, "SUBDIR"}
	case "mksd":
		data = ref.RandBytes(t.Rand, 177*256+t.Intn(60000))
		args = []string{"mksd", "new.dsk", "data"}
	case "reorder":
		args = []string{"reorder", "--order", order, "--new-order", order, img}
		if t.Intn(2) == 0 {
			disk = disk[:len(disk)-1-t.Intn(600)]
			args = []string{"reorder", img}
		}
	case "decode":
		data = []byte{0, 0}
		for len(data) < 10 {
			data = ref.EncodeApplesoft(ref.RandApplesoft(t.Rand, true), 0x801)
		}
		data = data[:len(data)-1-t.Intn(len(data)-8)]
		if ref.LooksHeadered(data) {
			return
		}
		args = []string{"applesoft", "decode", "data"}
	case "unsupported":
		// files of these systems cannot be deleted or stored (yet)
		n := "ANY.FILE"
		if t.Intn(2) == 0 {
			d := ref.BuildDos(t.Rand, ref.DosOpts{MaxEntries: 1 + t.Intn(10), Plain: true})
			disk = ref.Conv(d.Img, "do", order)
			if len(d.Live) > 0 && d.Live[0].Name != "" && d.Live[0].Name[0] != '-' {
				n = d.Live[0].Name
			}
		} else {
			disk = ref.Conv(ref.BuildPro(t.Rand, ref.ProOpts{Blocks: 280, MaxDirs: 2, MaxDepth: 2, MaxEnt: 20}).Img, "po", order)
		}
		args = [][]string{{"rm", "-f", img, n}, {"rm", img, n}, {"put", "-f", img, n, "data"}, {"put", img, n, "data"}}[t.Intn(4)]
	}
	t.Put(dir, img, disk)
	t.Put(dir, "data", data)
	before := t.Snapshot(dir)
	r := t.Run(vf.RunOpts{Dir: dir}, args...)
	t.Eval(1)
	if kind == "unsupported" && r.Exit == 0 && len(before.Diff(t.Snapshot(dir))) > 0 {
		return // some day it may be
	}
	t.Check(r.Err() && len(bytes.TrimSpace(r.Stderr)) > 0, "%s: this cannot be done, but success is reported: %v", kind, r)
	d := before.Diff(t.Snapshot(dir))
	t.Check(len(d) == 0, "%s: failed, but %v: %v", kind, d, r)
	t.Event("impossible requests", 1)
	t.Distinct(kind, r.Args)
	if kind == "rm" {
		// with -f it is no failure; and what is there goes away
		r = t.Run(vf.RunOpts{Dir: dir}, "rm", "-f", img, missing)
		t.Check(r.Exit == 0, "rm -f of a missing file: %v", r)
		if len(there) > 0 {
			x := there[t.Intn(len(there))]
			r = t.Run(vf.RunOpts{Dir: dir}, "rm", img, x)
			t.Check(r.Exit == 0, "rm of an existing file: %v", r)
			f, _ := m.Resolve(x)
			after := ref.Naked{Img: ref.Conv(t.Get(dir, img), order, "raw")}
			t.Check(len(after.Read(f)) == 0, "success is reported, but file %02X is still there: %v", f, r)
			t.Event("effects seen", 1)
		}
	}
}

func main() {
	vf.Main(vf.Spec{ID: "C16", Level: "fault_enumeration",
		Rule:        "proper requests of every command, with file and dash, run without fault (must succeed with the complete result) and under faults: file-size limit at every 512-byte cut, full device, reader gone, missing, unreadable, unwritable files and directories in their place, and the n-th open, read, write and close of every file failing (strace injection) for every n",
		Assumptions: []string{"an interrupted in-place write may leave a partial image (it is reported)", "where strace cannot trace, the injection sections observe nothing"},
		Require:     []string{"fault-free runs", "failures reported", "full device", "file-size limit", "reader gone", "permission", "missing", "unreadable", "library calls", "impossible requests", "effects seen"},
	}, func(s *vf.Suite) {
		s.Section("fsize", nkinds*12, nkinds*280, func(t *vf.T) {
			sc := scenario(t, kinds[t.I%nkinds])
			dir := t.Fresh()
			sc.lay(t, dir)
			blocks := (len(sc.want) + 511) / 512
			n := t.Intn(blocks)
			if t.I/nkinds == 0 {
				n = blocks - 1
			}
			if t.I/nkinds == 1 {
				n = blocks
			}
			if t.Thorough {
				n = (t.I / nkinds) % (blocks + 1)
			}
			o := vf.RunOpts{Setup: fmt.Sprintf("ulimit -f %d;", n)}
			if sc.out == "" {
				f, err := os.Create(filepath.Join(dir, "stdout.dat"))
				if err != nil {
					t.Inconclusive("%v", err)
				}
				defer f.Close()
				o.StdoutFile = f
			}
			r := sc.run(t, dir, o)
			got := sc.result(t, dir, r)
			if sc.out == "" {
				got = t.Get(dir, "stdout.dat")
			}
			if n >= blocks {
				t.Check(r.Exit == 0, "nothing in the way, but: %v", r)
			}
			sc.truth(t, r, got, fmt.Sprintf("file-size limit of %d blocks", n), n*512 < len(sc.want))
			t.Event("file-size limit", 1)
		})
		s.Section("full", nkinds*10, nkinds*80, func(t *vf.T) {
			sc := scenario(t, kinds[t.I%nkinds])
			dir := t.Fresh()
			sc.lay(t, dir)
			var r vf.CmdResult
			if sc.out == "" {
				f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
				if err != nil {
					t.Inconclusive("%v", err)
				}
				defer f.Close()
				r = sc.run(t, dir, vf.RunOpts{StdoutFile: f})
			} else if sc.kind == "mksd" || sc.kind == "reorder-new" {
				a := append([]string{}, sc.args...)
				for i := range a {
					if a[i] == sc.out {
						a[i] = "/dev/full"
					}
				}
				if sc.kind == "reorder-new" {
					a = append(a, "-f")
				}
				sc.args = a
				r = sc.run(t, dir, vf.RunOpts{})
			} else {
				return
			}
			sc.truth(t, r, nil, "full device", true)
			t.Event("full device", 1)
		})
		s.Section("pipe", 6*12, 6*100, func(t *vf.T) {
			sc := scenario(t, []string{"put-", "rm-", "mkhello-", "reorder-", "mksd-", "reorder-"}[t.I%6])
			dir := t.Fresh()
			sc.lay(t, dir)
			cmd := exec.Command(vf.Bin(), sc.args...)
			cmd.Dir = dir
			cmd.Env = []string{"HOME=/nonexistent"}
			if sc.stdin != "" {
				f, _ := os.Open(filepath.Join(dir, sc.stdin))
				defer f.Close()
				cmd.Stdin = f
			}
			var se bytes.Buffer
			cmd.Stderr = &se
			p, err := cmd.StdoutPipe()
			if err != nil {
				t.Inconclusive("%v", err)
			}
			if err := cmd.Start(); err != nil {
				t.Inconclusive("%v", err)
			}
			if t.Intn(3) == 0 {
				// a slow reader in small pieces: everything must arrive
				var got []byte
				b := make([]byte, 1+t.Intn(5000))
				for {
					n, err := p.Read(b)
					got = append(got, b[:n]...)
					if err != nil {
						break
					}
					if t.Intn(10) == 0 {
						time.Sleep(time.Millisecond)
					}
				}
				_ = cmd.Wait()
				x := cmd.ProcessState.ExitCode()
				t.Check(x == 0 && bytes.Equal(got, sc.want), "slow reader: exit %d, %s", x, vf.FirstDiff(got, sc.want))
				t.Event("slow readers", 1)
				return
			}
			n := t.Intn(60000)
			_, _ = io.CopyN(io.Discard, p, int64(n))
			p.Close()
			_ = cmd.Wait()
			ws := cmd.ProcessState.Sys().(syscall.WaitStatus)
			okDeath := ws.Signaled() && ws.Signal() == syscall.SIGPIPE || ws.Exited() && ws.ExitStatus() == 1
			t.Check(okDeath, "the reader went away after %d of %d bytes: %v, stderr %q", n, len(sc.want), cmd.ProcessState, se.String())
			t.Event("reader gone", 1)
		})
		s.Section("permission", nkinds*8, nkinds*60, func(t *vf.T) {
			sc := scenario(t, kinds[t.I%nkinds])
			dir := t.Fresh()
			sc.lay(t, dir)
			// as nobody: one file unreadable, unwritable, or the directory unwritable
			names := sc.inputs()
			what := ""
			must := true
			switch {
			case len(names) > 0 && t.Intn(2) == 0:
				n := names[0]
				if len(names) > 1 && t.Intn(2) == 0 {
					n = names[1]
				}
				if n == sc.out {
					_ = os.Chmod(filepath.Join(dir, n), []os.FileMode{0, 0222, 0444, 0555}[t.Intn(4)])
				} else {
					_ = os.Chmod(filepath.Join(dir, n), []os.FileMode{0, 0222}[t.Intn(2)])
				}
				what = n + " has no permission"
			case sc.out != "" && sc.files[sc.out] == nil:
				_ = os.Chmod(dir, 0555)
				what = "the directory has no permission"
			case sc.out != "":
				_ = os.Chmod(filepath.Join(dir, sc.out), 0444)
				_ = os.Chmod(dir, 0555)
				what = "image and directory may only be read"
			default:
				_ = os.Chmod(dir, 0555)
				what, must = "nothing may be written", false
			}
			snap := t.Snapshot(dir)
			r := sc.run(t, dir, vf.RunOpts{User: 65534})
			d := snap.Diff(t.Snapshot(dir))
			_ = os.Chmod(dir, 0777)
			// a rename-style writer may succeed where only the file is read-only
			if strings.Contains(what, "has no permission") && r.Exit == 0 && sc.out != "" && strings.HasPrefix(what, sc.out) {
				must = false
			}
			if r.Exit != 0 {
				t.Check(len(d) == 0, "%s: failed but %v: %v", what, d, r)
			}
			sc.truth(t, r, sc.result(t, dir, r), what, must)
			if !must {
				t.Check(r.Exit == 0, "%s: %v", what, r)
			}
			t.Event("permission", 1)
		})
		s.Section("missing", nkinds*8, nkinds*60, func(t *vf.T) {
			sc := scenario(t, kinds[t.I%nkinds])
			dir := t.Fresh()
			sc.lay(t, dir)
			names := sc.inputs()
			if sc.out != "" && sc.files[sc.out] == nil {
				names = append(names, sc.out)
			}
			if sc.kind == "filetypes" {
				return
			}
			if len(names) == 0 {
				// standard input that cannot be read
				sc.stdin = ""
				f, _ := os.Open(dir)
				defer f.Close()
				r := sc.run(t, dir, vf.RunOpts{StdinFile: f})
				sc.truth(t, r, r.Stdout, "standard input is a directory", true)
				t.Event("missing", 1)
				return
			}
			n := names[t.Intn(len(names))]
			p := filepath.Join(dir, n)
			_ = os.Remove(p)
			what := n + " is missing"
			if t.Intn(2) == 0 || sc.files[n] == nil {
				_ = os.Mkdir(p, 0777)
				what = n + " is a directory"
			}
			if sc.kind == "reorder-new" && n == sc.out {
				sc.args = append(sc.args, "-f")
			}
			snap := t.Snapshot(dir)
			r := sc.run(t, dir, vf.RunOpts{})
			d := snap.Diff(t.Snapshot(dir))
			t.Check(len(d) == 0, "%s: %v: %v", what, d, r)
			sc.truth(t, r, nil, what, true)
			t.Event("missing", 1)
		})
		s.Section("unreadable", nkinds*8, nkinds*60, func(t *vf.T) {
			// a file that is there and can be opened, but whose first read fails
			sc := scenario(t, kinds[t.I%nkinds])
			dir := t.Fresh()
			sc.lay(t, dir)
			names := sc.inputs()
			const bad = "/proc/self/mem"
			if sc.kind == "filetypes" {
				return
			}
			if len(names) == 0 {
				f, err := os.Open(bad)
				if err != nil {
					return
				}
				defer f.Close()
				sc.stdin = ""
				r := sc.run(t, dir, vf.RunOpts{StdinFile: f})
				sc.truth(t, r, r.Stdout, "standard input fails", true)
				t.Event("unreadable", 1)
				return
			}
			n := names[t.Intn(len(names))]
			_ = os.Remove(filepath.Join(dir, n))
			if err := os.Symlink(bad, filepath.Join(dir, n)); err != nil {
				t.Inconclusive("%v", err)
			}
			var keep []byte
			if sc.out != "" && sc.out != n && sc.files[sc.out] != nil {
				keep = t.Get(dir, sc.out)
			}
			r := sc.run(t, dir, vf.RunOpts{})
			if keep != nil {
				now := t.Get(dir, sc.out)
				t.Check(bytes.Equal(now, keep), "reading %s failed, but %s was changed: %v", n, sc.out, r)
			}
			sc.truth(t, r, nil, "reading "+n+" fails", true)
			t.Event("unreadable", 1)
		})
		s.Section("unfulfilled", 400, 8000, unfulfilled)
		s.Section("library", 200, 2000, func(t *vf.T) {
			dir := t.Fresh()
			b := ref.RandBytes(t.Rand, []int{0, 1, 511, 512, 513, 4096, t.Intn(200000)}[t.Intn(7)])
			p := t.Put(dir, "f", b)
			got, err := helpers.FileContentsOrStdIn(p)
			t.Check(err == nil && bytes.Equal(got, b), "reading a file: %v, %s", err, vf.FirstDiff(got, b))
			for _, bad := range []string{dir, filepath.Join(dir, "none"), filepath.Join(p, "x"), "/proc/self/mem", filepath.Join(dir, "dangling")} {
				if bad == filepath.Join(dir, "dangling") {
					_ = os.Symlink("nowhere", bad)
				}
				got, err := helpers.FileContentsOrStdIn(bad)
				t.Check(err != nil, "reading %s gave %d bytes and no error", filepath.Base(bad), len(got))
			}
			c := ref.RandBytes(t.Rand, t.Intn(2*len(b)+10))
			err = helpers.WriteOutput(p, c, false)
			t.Check(err != nil && bytes.Equal(t.Get(dir, "f"), b), "writing over an existing file without being told to: %v", err)
			err = helpers.WriteOutput(p, c, true)
			t.Check(err == nil && bytes.Equal(t.Get(dir, "f"), c), "writing over an existing file: %v", err)
			err = helpers.WriteOutput(filepath.Join(dir, "new"), b, t.Intn(2) == 0)
			t.Check(err == nil && bytes.Equal(t.Get(dir, "new"), b), "writing a new file: %v", err)
			for _, bad := range []string{dir, filepath.Join(dir, "none", "x"), filepath.Join(p, "x"), "/dev/full"} {
				d := b
				if len(d) == 0 {
					d = []byte("x")
				}
				t.Check(helpers.WriteOutput(bad, d, true) != nil, "writing to %s gave no error", filepath.Base(bad))
			}
			t.Event("library calls", 12)
		})
		s.Section("inject", nkinds*3, nkinds*24, func(t *vf.T) {
			if _, err := exec.LookPath("strace"); err != nil {
				t.Event("strace not available", 1)
				return
			}
			sc := scenario(t, kinds[t.I%nkinds])
			paths := []string{}
			for n := range sc.files {
				paths = append(paths, n)
			}
			if sc.out != "" && sc.files[sc.out] == nil {
				paths = append(paths, sc.out)
			}
			// keep the order stable
			for i := range paths {
				for j := i + 1; j < len(paths); j++ {
					if paths[j] < paths[i] {
						paths[i], paths[j] = paths[j], paths[i]
					}
				}
			}
			for _, p := range paths {
				for _, f := range [][]string{{"openat", "EACCES", "EMFILE", "EIO"}, {"read", "EIO", "EISDIR"}, {"write", "ENOSPC", "EIO", "EDQUOT"}, {"close", "EIO"}, {"write", "EINTR"}, {"read", "EINTR"}} {
					errno := f[1+t.Intn(len(f)-1)]
					for k := 1; k < 40; k++ {
						if !t.Thorough && k > 3 && t.Intn(4) > 0 {
							continue
						}
						dir := t.Fresh()
						sc.lay(t, dir)
						hit, ok := sc.inject(t, dir, p, f[0], errno, k)
						if !ok {
							return
						}
						if !hit {
							break
						}
						t.Event("faults injected", 1)
					}
				}
			}
		})
	})
}
