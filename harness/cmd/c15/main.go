// C15: commands only touch the file they are told to write.
package main

import (
	"bufio"
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	"verif/ref"
	"verif/vf"
	"verif/wl"
)

var past = time.Unix(1000000000, 0)

// world lays out a directory: the image, a data file, bystanders, existing
// targets, a subdirectory, a link.
func world(t *vf.T, d wl.Disk) (dir, img string, others, targets []string) {
	dir = t.Fresh()
	img = "disk" + d.Ext(t)
	if t.Intn(6) == 0 {
		img = "disk" + []string{".dsk", ".do", ".po", ".hdv", ".img", "", ".2mg"}[t.Intn(7)]
	}
	t.Put(dir, img, d.Data)
	n := t.Intn(3000)
	if t.Intn(4) == 0 {
		n = t.Intn(60000)
	}
	data := ref.RandBytes(t.Rand, n)
	if t.Intn(4) == 0 {
		data = ref.EncodeApplesoft(ref.RandApplesoft(t.Rand, true), 0x801)
	}
	t.Put(dir, "data", data)
	others = []string{"other.po", "other.do", "other.dsk", "readme.txt", "HELLO", "FHELLO", "sub/inner.do"}
	_ = os.Mkdir(filepath.Join(dir, "sub"), 0777)
	for _, o := range others {
		n := 1 + t.Intn(400)
		if t.Intn(5) == 0 {
			n = 0
		}
		if t.Intn(8) == 0 {
			n = ref.DiskSize
		}
		t.Put(dir, o, ref.RandBytes(t.Rand, n))
	}
	for _, x := range []string{img + ".bak", img + "~", img + ".tmp", "." + img, "DF01", "out"} {
		t.Put(dir, x, []byte(x))
	}
	targets = []string{"new.po", "new.do", "new.dsk", "sub/new.po", "sub/new.dsk", "nodir/new.po", "nodir/new.dsk", "new", "sub"}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil {
			_ = os.Chmod(p, fi.Mode()|0666)
			_ = os.Chtimes(p, past, past)
		}
		return nil
	})
	return
}

func times(t *vf.T, dir string) map[string]time.Time {
	m := map[string]time.Time{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil {
			m[p] = fi.ModTime()
		}
		return nil
	})
	return m
}

func verb(c wl.Cmd) string {
	for _, a := range c.Args {
		if !strings.HasPrefix(a, "-") {
			return a
		}
	}
	return "none"
}

// mode is a snapshot's mode of a file, "" for anything else.
func mode(v string) string {
	if !strings.HasPrefix(v, "file ") {
		return ""
	}
	return strings.SplitN(v, " ", 3)[1]
}

// judge compares what changed with what may change.
func judge(t *vf.T, c wl.Cmd, r vf.CmdResult, b, a vf.Snap, diff []string, moved bool) {
	if c.ReadOnly {
		t.Check(len(diff) == 0, "a command that only reads: %v: %v", diff, r)
		t.Check(!moved, "a command that only reads changed a modification time: %v", r)
		t.Event("read-only runs", 1)
		return
	}
	t.Check(c.MustFail == "" || r.Exit == 1, "must be refused (%s): %v", c.MustFail, r)
	if r.Exit != 0 {
		t.Check(len(r.Stderr) > 0, "failed silently: %v", r)
		t.Check(len(diff) == 0, "failed, but %v: %v", diff, r)
		t.Event("refused runs", 1)
		t.Event("refused: "+verb(c), 1)
		return
	}
	for _, x := range diff {
		t.Check(x == "changed "+c.Out || x == "created "+c.Out, "%s, but only %s may be written: %v", x, c.Out, r)
	}
	if was, now := mode(b[c.Out]), mode(a[c.Out]); now != "" && len(diff) > 0 {
		if was == "" {
			t.Check(strings.HasPrefix(now, "-rw"), "the new file %s has mode %s: %v", c.Out, now, r)
			t.Event("modes of new files", 1)
		} else {
			t.Check(was == now, "the mode of %s went from %s to %s: %v", c.Out, was, now, r)
			t.Event("modes kept: "+was, 1)
		}
	}
	if len(diff) > 0 {
		t.Event("wrote: "+verb(c), 1)
	}
	t.Event("successful writing runs", 1)
}

var openRe = regexp.MustCompile(`^(?:\d+ +|\[pid +\d+\] )?(open|openat|openat2|creat|unlink|unlinkat|rename|renameat|renameat2|mkdir|mkdirat|rmdir|link|linkat|symlink|symlinkat|truncate|ftruncate|chmod|fchmod|fchmodat|utimensat|mknod|mknodat|pwrite64|fallocate)\((.*)`)

func main() {
	vf.Main(vf.Spec{ID: "C15",
		Rule:        "random command lines over images of every system, order, size and damage, in a directory full of bystanders; snapshots of names, contents, modes and (for reading commands) modification times around every run; reading commands also as an unprivileged user on read-only files and under strace with a monitor on all file-changing system calls",
		Assumptions: []string{"failure by I/O errors is C16"},
		Require:     []string{"read-only runs", "refused runs", "successful writing runs", "modes of new files", "wrote: put", "wrote: rm", "wrote: nakedos", "wrote: mksd", "wrote: reorder", "refused: put", "refused: rm", "refused: nakedos", "refused: mksd", "refused: reorder"},
	}, func(s *vf.Suite) {
		s.Section("runs", 1800, 20000, func(t *vf.T) {
			sys := ""
			if t.Intn(3) == 0 {
				sys = "nakedos"
			}
			d := wl.RandDisk(t, sys)
			dir, img, others, targets := world(t, d)
			perms := []os.FileMode{0600, 0640, 0644, 0664, 0666, 0755}
			_ = os.Chmod(filepath.Join(dir, img), perms[t.Intn(len(perms))])
			for _, o := range others {
				if t.Intn(3) == 0 {
					_ = os.Chmod(filepath.Join(dir, o), perms[t.Intn(len(perms))])
				}
			}
			before := t.Snapshot(dir)
			modes := map[string]os.FileMode{}
			for n := range before {
				if fi, err := os.Stat(filepath.Join(dir, n)); err == nil {
					modes[n] = fi.Mode().Perm()
				}
			}
			for k := 0; k < 6; k++ {
				c := wl.RandCmd(t, d, img, "data", others, targets)
				if !c.ReadOnly {
					// commands that write leave their mark: start afresh
					for n, v := range before {
						if strings.HasPrefix(v, "file ") {
							i := strings.Index(v[5:], " ")
							_ = os.Chmod(t.Put(dir, n, []byte(v[5+i+1:])), modes[n])
						}
					}
					for n := range t.Snapshot(dir) {
						if _, ok := before[n]; !ok {
							_ = os.Remove(filepath.Join(dir, n))
						}
					}
				}
				b := t.Snapshot(dir)
				tb := times(t, dir)
				t.Note("%s: %v", d.Desc, c.Args)
				r := t.Run(vf.RunOpts{Dir: dir}, c.Args...)
				t.Eval(1)
				ta := times(t, dir)
				moved := false
				for p, m := range tb {
					moved = moved || !ta[p].Equal(m)
				}
				a := t.Snapshot(dir)
				judge(t, c, r, b, a, b.Diff(a), moved)
				t.Distinct(fmt.Sprint(c.Args), d.Data)
			}
		})
		s.Section("links", 300, 2000, func(t *vf.T) {
			// the image is reached through a symbolic link: only the link or
			// the file behind it may change
			d := wl.RandDisk(t, "nakedos")
			dir, img, others, targets := world(t, d)
			link := "lnk" + filepath.Ext(img)
			_ = os.Symlink(img, filepath.Join(dir, link))
			c := wl.RandCmd(t, d, link, "data", others, targets)
			b := t.Snapshot(dir)
			t.Note("%s: %v", d.Desc, c.Args)
			r := t.Run(vf.RunOpts{Dir: dir}, c.Args...)
			var diff []string
			a := t.Snapshot(dir)
			for _, x := range b.Diff(a) {
				if c.Out == link && r.Exit == 0 && !c.ReadOnly && (x == "changed "+img || x == "changed "+link) {
					t.Event("written through a link", 1)
					continue
				}
				diff = append(diff, x)
			}
			judge(t, c, r, b, a, diff, false)
		})
		s.Section("unprivileged", 500, 4000, func(t *vf.T) {
			// nothing here may be written: reading commands must work
			d := wl.RandDisk(t, "")
			dir, img, others, targets := world(t, d)
			c := wl.RandCmd(t, d, img, "data", others, targets)
			for k := 0; k < 50 && !c.ReadOnly; k++ {
				c = wl.RandCmd(t, d, img, "data", others, targets)
			}
			ref := t.Run(vf.RunOpts{Dir: dir}, c.Args...)
			filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
				if err == nil {
					_ = os.Chmod(p, fi.Mode()&^0222|0444)
				}
				return nil
			})
			b := t.Snapshot(dir)
			r := t.Run(vf.RunOpts{Dir: dir, User: 65534}, c.Args...)
			filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
				if err == nil && fi.IsDir() {
					_ = os.Chmod(p, 0777)
				}
				return nil
			})
			t.Check(r.Exit == ref.Exit && bytes.Equal(r.Stdout, ref.Stdout), "a reading command behaves differently where nothing may be written: %v, elsewhere %v", r, ref)
			_ = b
			t.Event("runs without write permission", 1)
		})
		s.Section("traced", 240, 1500, func(t *vf.T) {
			d := wl.RandDisk(t, "")
			dir, img, others, targets := world(t, d)
			c := wl.RandCmd(t, d, img, "data", others, targets)
			for k := 0; k < 50 && !c.ReadOnly; k++ {
				c = wl.RandCmd(t, d, img, "data", others, targets)
			}
			strace, err := exec.LookPath("strace")
			if err != nil {
				t.Event("strace not available", 1)
				return
			}
			log := filepath.Join(t.Dir, "strace.log")
			_ = os.Remove(log)
			cmd := exec.Command(strace, append([]string{"-f", "-q", "-o", log, "-e", "trace=file,ftruncate,fchmod,pwrite64,fallocate", vf.Bin()}, c.Args...)...)
			cmd.Dir = dir
			cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=/nonexistent"}
			_ = cmd.Run()
			b, err := os.ReadFile(log)
			if err != nil || !bytes.Contains(b, []byte("execve(")) || !bytes.Contains(b, []byte("exited with")) {
				t.Event("strace did not work", 1)
				return
			}
			sc := bufio.NewScanner(bytes.NewReader(b))
			sc.Buffer(make([]byte, 1<<20), 1<<20)
			for sc.Scan() {
				m := openRe.FindStringSubmatch(sc.Text())
				if m == nil {
					continue
				}
				t.Event("file system calls watched", 1)
				if strings.HasPrefix(m[1], "open") && !strings.Contains(m[2], "O_WRONLY") && !strings.Contains(m[2], "O_RDWR") && !strings.Contains(m[2], "O_CREAT") && !strings.Contains(m[2], "O_TRUNC") {
					continue
				}
				if strings.Contains(m[2], `"/dev/`) || strings.Contains(m[2], `"/proc/`) {
					continue
				}
				t.Fail("diskii %v, which only reads, called %s(%s", c.Args, m[1], m[2])
			}
			t.Event("traced runs", 1)
		})
	})
}
