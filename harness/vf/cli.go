package vf

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
)

// CmdResult is what a run of the diskii binary did.
type CmdResult struct {
	Exit   int // -1: killed by a signal
	Signal string
	Stdout []byte
	Stderr []byte
	Args   []string
}

// Err tells whether the command failed in the ordinary way: status 1 and a
// message on standard error.
func (r CmdResult) Err() bool { return r.Exit == 1 }

func (r CmdResult) String() string {
	e := string(r.Stderr)
	if len(e) > 600 {
		e = e[:600] + "..."
	}
	return fmt.Sprintf("diskii %s: exit %d%s, %d bytes of output, stderr %q", strings.Join(r.Args, " "), r.Exit, r.Signal, len(r.Stdout), e)
}

// RunOpts are options of a run.
type RunOpts struct {
	Stdin      []byte
	StdinFile  *os.File
	StdoutFile *os.File
	Dir        string
	Setup      string // shell commands run before diskii in the same shell
	User       int    // uid/gid to run as, if > 0
	Closed     bool   // close stdout
	Env        []string
}

// Run runs diskii with resource limits. It reports crashes and endless loops
// as violations.
func (t *T) Run(o RunOpts, args ...string) CmdResult {
	sh := "ulimit -t 20; " + o.Setup + " exec \"$0\" \"$@\""
	if o.Closed {
		sh += " >&-"
	}
	cmd := exec.Command("/bin/sh", append([]string{"-c", sh, Bin()}, args...)...)
	cmd.Dir = o.Dir
	if cmd.Dir == "" {
		cmd.Dir = t.Dir
	}
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=/nonexistent", "TMPDIR=" + cmd.Dir, "GOTRACEBACK=single"}
	cmd.Env = append(cmd.Env, o.Env...)
	var so, se bytes.Buffer
	switch {
	case o.StdinFile != nil:
		cmd.Stdin = o.StdinFile
	case o.Stdin != nil:
		cmd.Stdin = bytes.NewReader(o.Stdin)
	}
	if o.StdoutFile != nil {
		cmd.Stdout = o.StdoutFile
	} else {
		cmd.Stdout = &limited{w: &so, max: 64 << 20}
	}
	cmd.Stderr = &limited{w: &se, max: 16 << 20}
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL, Setpgid: true}
	if o.User > 0 {
		cmd.SysProcAttr.Credential = &syscall.Credential{Uid: uint32(o.User), Gid: uint32(o.User)}
	}
	res := CmdResult{Args: args}
	if err := cmd.Start(); err != nil {
		t.Inconclusive("cannot start diskii: %v", err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var err error
	select {
	case err = <-done:
	case <-time.After(300 * time.Second):
		_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
		t.Inconclusive("diskii %v did not end within 300 s of wall-clock time", args)
	}
	res.Stdout, res.Stderr = so.Bytes(), se.Bytes()
	if cmd.ProcessState != nil {
		ws := cmd.ProcessState.Sys().(syscall.WaitStatus)
		if ws.Signaled() {
			res.Exit = -1
			res.Signal = " (" + ws.Signal().String() + ")"
		} else {
			res.Exit = ws.ExitStatus()
		}
	} else if err != nil {
		t.Inconclusive("diskii: %v", err)
	}
	t.Event("diskii runs", 1)
	t.Event(fmt.Sprintf("diskii exit %d", res.Exit), 1)
	if res.Exit != 0 && res.Exit != 1 {
		msg := string(res.Stderr)
		if len(msg) > 3000 {
			msg = msg[:3000]
		}
		t.Fail("diskii %s crashed or was killed: exit %d%s: %s", strings.Join(args, " "), res.Exit, res.Signal, msg)
	}
	return res
}

type limited struct {
	w   io.Writer
	n   int
	max int
}

func (l *limited) Write(b []byte) (int, error) {
	l.n += len(b)
	if l.n <= l.max {
		_, _ = l.w.Write(b)
	}
	return len(b), nil
}

// Fresh makes an empty scratch directory for a case.
func (t *T) Fresh() string {
	d := filepath.Join(t.Dir, "c")
	_ = os.RemoveAll(d)
	if err := os.MkdirAll(d, 0777); err != nil {
		t.Inconclusive("%v", err)
	}
	_ = os.Chmod(d, 0777)
	return d
}

// Put writes a file of a case's scratch directory.
func (t *T) Put(dir, name string, b []byte) string {
	p := filepath.Join(dir, name)
	if err := os.WriteFile(p, b, 0666); err != nil {
		t.Inconclusive("%v", err)
	}
	_ = os.Chmod(p, 0666)
	return p
}

// Get reads a file; nil if it does not exist.
func (t *T) Get(dir, name string) []byte {
	b, err := os.ReadFile(filepath.Join(dir, name))
	if err != nil {
		if os.IsNotExist(err) {
			return nil
		}
		t.Inconclusive("%v", err)
	}
	if b == nil {
		b = []byte{}
	}
	return b
}

// Snap is a snapshot of a directory tree.
type Snap map[string]string

// Snapshot records every file below dir with kind, mode and contents.
func (t *T) Snapshot(dir string) Snap {
	s := Snap{}
	err := filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(dir, p)
		switch {
		case fi.Mode().IsRegular():
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			s[rel] = fmt.Sprintf("file %v ", fi.Mode()) + string(b)
		case fi.Mode()&os.ModeSymlink != 0:
			l, _ := os.Readlink(p)
			s[rel] = "link " + l
		default:
			s[rel] = fmt.Sprintf("other %v", fi.Mode())
		}
		return nil
	})
	if err != nil {
		t.Inconclusive("snapshot: %v", err)
	}
	return s
}

// Diff lists the paths that differ between two snapshots.
func (s Snap) Diff(o Snap) []string {
	var d []string
	for k, v := range s {
		w, ok := o[k]
		if !ok {
			d = append(d, "removed "+k)
		} else if v != w {
			d = append(d, "changed "+k)
		}
	}
	for k := range o {
		if _, ok := s[k]; !ok {
			d = append(d, "created "+k)
		}
	}
	sort.Strings(d)
	return d
}

// FirstDiff describes the first difference of two byte strings.
func FirstDiff(got, want []byte) string {
	n := len(got)
	if len(want) < n {
		n = len(want)
	}
	for i := 0; i < n; i++ {
		if got[i] != want[i] {
			return fmt.Sprintf("got %d bytes, want %d; first difference at offset %d (track %d sector %d): got %02X, want %02X", len(got), len(want), i, i/4096, i/256%16, got[i], want[i])
		}
	}
	if len(got) != len(want) {
		return fmt.Sprintf("got %d bytes, want %d; one is a prefix of the other", len(got), len(want))
	}
	return "equal"
}
