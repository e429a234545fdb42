// C23: results are repeatable and independent images do not interact.
package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"time"

	"verif/lib"
	"verif/ref"
	"verif/vf"
	"verif/wl"

	"github.com/zellyn/diskii/basic"
	"github.com/zellyn/diskii/basic/applesoft"
	"github.com/zellyn/diskii/basic/integer"
	"github.com/zellyn/diskii/disk"
	"github.com/zellyn/diskii/dos3"
	"github.com/zellyn/diskii/prodos"
	"github.com/zellyn/diskii/supermon"
	"github.com/zellyn/diskii/types"
)

// op is a step of a script.
type op struct {
	kind string
	arg  string
	data []byte
	n    int
}

func (o op) String() string {
	return fmt.Sprintf("%s(%q, %d bytes, %d)", o.kind, o.arg, len(o.data), o.n)
}

// script is a list of steps on one image; running it touches nothing else.
type script struct {
	d      wl.Disk
	name   string
	order  string
	system string
	ops    []op
	delay  int64
}

func (s script) String() string {
	var l []string
	for _, o := range s.ops {
		l = append(l, o.String())
	}
	return fmt.Sprintf("%s as %s, order %s, system %s: %s", s.d.Desc, s.name, s.order, s.system, strings.Join(l, " "))
}

func hash(b []byte) string {
	h := uint64(14695981039346656037)
	for _, c := range b {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return fmt.Sprintf("%d:%x", len(b), h)
}

// held is a result that is kept: its bytes must stay what they were.
type held struct {
	what string
	live func() string
	then string
}

type outcome struct {
	lines []string
	held  []held
}

func (o *outcome) say(format string, a ...interface{}) {
	o.lines = append(o.lines, fmt.Sprintf(format, a...))
}

func (o *outcome) keep(what string, live func() string) {
	o.held = append(o.held, held{what, live, live()})
}

func (o *outcome) check() string {
	for _, h := range o.held {
		if now := h.live(); now != h.then {
			return fmt.Sprintf("%s changed after it was returned: now %.300s, was %.300s", h.what, now, h.then)
		}
	}
	return ""
}

// nap returns a pause of random kind and length.
func nap(seed int64) func() {
	r := rand.New(rand.NewSource(seed))
	return func() {
		switch r.Intn(8) {
		case 0:
			runtime.Gosched()
		case 1:
			time.Sleep(time.Duration(r.Intn(50)) * time.Microsecond)
		}
	}
}

func catalogText(ds []types.Descriptor) string { return fmt.Sprintf("%+v", ds) }

// run performs a script. With readOnly the steps that change the image are
// left out. dir is a directory for files ("" for none).
func (s script) run(img []byte, readOnly bool, dir string, pause func()) *outcome {
	o := &outcome{}
	if pause == nil {
		pause = func() {}
	}
	var opr types.Operator
	var order types.DiskOrder
	var err error
	path := ""
	if dir != "" {
		path = filepath.Join(dir, s.name)
		if err := os.WriteFile(path, img, 0644); err != nil {
			panic(err)
		}
		opr, order, err = disk.OpenFilename(path, types.DiskOrder(s.order), s.system, lib.Factories(), 0)
	} else {
		opr, order, err = disk.OpenImage(img, s.name, types.DiskOrder(s.order), s.system, lib.Factories(), 0)
	}
	o.say("open: %v %v", order, err)
	if err == nil {
		o.say("system %s, native order %s, subdirs %v", opr.Name(), opr.DiskOrder(), opr.HasSubdirs())
	}
	for i, x := range s.ops {
		pause()
		if opr == nil && (x.kind == "ls" || x.kind == "get" || x.kind == "put" || x.kind == "rm" || x.kind == "bytes" || x.kind == "save") {
			continue
		}
		tag := fmt.Sprintf("step %d %s(%q)", i, x.kind, x.arg)
		switch x.kind {
		case "ls":
			ds, err := opr.Catalog(x.arg)
			o.say("%s: %v %s", tag, err, catalogText(ds))
			o.keep("the listing of "+tag, func() string { return catalogText(ds) })
		case "get":
			fi, err := opr.GetFile(x.arg)
			o.say("%s: %v %+v %s %d", tag, err, fi.Descriptor, hash(fi.Data), fi.StartAddress)
			if err == nil {
				o.keep("the contents of "+tag, func() string { return hash(fi.Data) })
			}
		case "put":
			if readOnly {
				continue
			}
			b := append([]byte{}, x.data...)
			ex, err := opr.PutFile(types.FileInfo{Descriptor: types.Descriptor{Name: x.arg, Length: len(b), Type: types.FiletypeBinary}, Data: b, StartAddress: uint16(x.n)}, x.n%2 == 0)
			o.say("%s: %v %v %s", tag, ex, err, hash(opr.GetBytes()))
			if !bytes.Equal(b, x.data) {
				o.say("%s: the data passed in was changed", tag)
			}
			for j := range b {
				b[j] ^= 0x5a
			}
		case "rm":
			if readOnly {
				continue
			}
			ex, err := opr.Delete(x.arg)
			o.say("%s: %v %v %s", tag, ex, err, hash(opr.GetBytes()))
		case "bytes":
			o.say("%s: %s", tag, hash(opr.GetBytes()))
		case "save":
			if dir == "" || readOnly {
				continue
			}
			err := disk.WriteBack(path, opr, order, true)
			b, _ := os.ReadFile(path)
			o.say("%s: %v %s", tag, err != nil, hash(b))
		case "swizzle":
			names := []types.DiskOrder{"do", "po", "raw"}
			b, err := disk.Swizzle(img, disk.LogicalToPhysicalByName[names[x.n%3]])
			o.say("%s: %v %s", tag, err, hash(b))
			if err == nil {
				o.keep("the image of "+tag, func() string { return hash(b) })
				c, err := disk.Swizzle(b, disk.PhysicalToLogicalByName[names[x.n/3%3]])
				o.say("%s: %v %s", tag, err, hash(c))
			}
		case "sector":
			b, err := disk.ReadSector(img, byte(x.n>>8), byte(x.n))
			o.say("%s: %v %s", tag, err, hash(b))
			o.keep("the sector of "+tag, func() string { return hash(b) })
		case "match":
			for _, f := range lib.Factories() {
				o.say("%s: %s %v", tag, f.Name(), f.SeemsToMatch(img, 0))
			}
		case "types":
			ft, err := types.FiletypeForName(x.arg)
			o.say("%s: %v %v %s", tag, ft, err, types.Filetype(x.n%0x110).String())
			for _, in := range types.FiletypeInfos(x.n%2 == 0) {
				o.say("%+v", in)
			}
		case "applesoft":
			l, err := applesoft.Decode(x.data, uint16(x.n))
			if err != nil {
				o.say("%s: %v", tag, err)
				continue
			}
			o.say("%s: %s %s", tag, l.String(), basic.ChevronControlCodes(l.String()))
			o.keep("the listing of "+tag, l.String)
		case "integer":
			l, err := integer.Decode(x.data)
			if err != nil {
				o.say("%s: %v", tag, err)
				continue
			}
			o.say("%s: %s %s", tag, l.String(), integer.ChevronControlCodes(l.String()))
			o.keep("the listing of "+tag, l.String)
		case "map":
			sm, err := supermon.LoadSectorMap(img)
			if err != nil {
				o.say("%s: %v", tag, err)
				continue
			}
			o.say("%s: %v %v", tag, sm.FreeSectors(), sm.SectorsForFile(byte(x.n)))
			st, err := sm.ReadSymbolTable(img)
			o.say("%s: %v %v", tag, st, err)
		case "doscat":
			a, b, err := dos3.ReadCatalog(img, 0)
			o.say("%s: %v %v %v", tag, a, b, err)
			for i := range a {
				c, err := a[i].Contents(img)
				o.say("%s: %v %s", tag, err, hash(c))
			}
		case "bitmap":
			v := prodos.NewVolumeBitMap(6, uint16(x.n))
			for b := x.n / 2; b < x.n; b += 3 {
				v.MarkUsed(uint16(b))
			}
			d := make([]byte, 6*512+(x.n/4096+1)*512)
			err := v.Write(d)
			o.say("%s: %v %s", tag, err, hash(d))
		}
	}
	return o
}

func randScript(t *vf.T, d wl.Disk) script {
	s := script{d: d, name: "disk" + d.Ext(t), order: "auto", system: "auto"}
	if t.Intn(3) == 0 {
		s.order = []string{"do", "po"}[t.Intn(2)]
	}
	if d.System != "" && t.Intn(2) == 0 {
		s.system = d.System
	}
	name := func() string {
		if len(d.Names) > 0 && t.Intn(4) > 0 {
			return d.Names[t.Intn(len(d.Names))]
		}
		return []string{"NOSUCH", "DF05", "FOO", "DF77:BARBAZ", "FNEW", "HELLO"}[t.Intn(6)]
	}
	big := len(d.Data) > 143360
	for k := 6 + t.Intn(14); k > 0; k-- {
		x := op{n: t.Intn(65536)}
		switch t.Intn(17) {
		case 0, 1:
			x.kind = "ls"
			if len(d.Dirs) > 0 && t.Intn(3) > 0 {
				x.arg = d.Dirs[t.Intn(len(d.Dirs))]
			}
		case 2, 3:
			x.kind, x.arg = "get", name()
		case 4, 5:
			x.kind, x.arg, x.data = "put", name(), ref.RandBytes(t.Rand, 1+t.Intn(1500))
		case 6:
			x.kind, x.arg = "rm", name()
		case 7:
			x.kind = "bytes"
		case 8:
			x.kind = "save"
		case 9:
			x.kind = "swizzle"
		case 10:
			x.kind = "sector"
			x.n = t.Intn(36)<<8 | t.Intn(17)
		case 11:
			x.kind = "match"
			if big {
				x.kind = "sector"
			}
		case 12:
			x.kind = "types"
			x.arg = []string{"B", "BIN", "Binary", "", "A", "ProDOSReservedC3", "Q"}[t.Intn(7)]
		case 13:
			x.kind = "applesoft"
			x.data, x.n = ref.EncodeApplesoft(ref.RandApplesoft(t.Rand, true), 0x801), 0x801
		case 14:
			x.kind = "integer"
			x.data = ref.EncodeInteger(ref.RandInteger(t.Rand, true))
		case 15:
			x.kind = []string{"map", "doscat"}[t.Intn(2)]
		case 16:
			x.kind = "bitmap"
			x.n = t.Intn(9000)
		}
		s.ops = append(s.ops, x)
	}
	s.delay = t.Int63()
	return s
}

func compare(t *vf.T, what string, s script, got, want *outcome) {
	for i := range want.lines {
		if i >= len(got.lines) || got.lines[i] != want.lines[i] {
			g := "nothing"
			if i < len(got.lines) {
				g = got.lines[i]
			}
			t.Note("script: %v", s)
			t.Fail("%s: result %d is %.700s; alone it is %.700s", what, i, g, want.lines[i])
		}
	}
	if len(got.lines) != len(want.lines) {
		t.Fail("%s: %d results, alone %d", what, len(got.lines), len(want.lines))
	}
	for _, o := range []*outcome{got, want} {
		if m := o.check(); m != "" {
			t.Note("script: %v", s)
			t.Fail("%s: %s", what, m)
		}
	}
	for _, l := range got.lines {
		if strings.Contains(l, "the data passed in was changed") {
			t.Fail("%s: %s", what, l)
		}
	}
}

func clone(b []byte) []byte { return append([]byte{}, b...) }

// concurrent runs scripts on independent images at the same time; the same
// scripts are then run alone.
func concurrent(t *vf.T) {
	n := []int{2, 3, 4, 8, 12}[t.Intn(5)]
	scripts := make([]script, n)
	for i := range scripts {
		switch {
		case i > 0 && t.Intn(3) == 0: // the same disk, in a copy of its own
			scripts[i] = randScript(t, scripts[t.Intn(i)].d)
		case i > 0 && t.Intn(3) == 0: // the same script
			scripts[i] = scripts[t.Intn(i)]
			scripts[i].delay = t.Int63()
		default:
			scripts[i] = randScript(t, wl.RandDisk(t, ""))
		}
	}
	files := t.Intn(3) == 0
	base := ""
	if files {
		base = t.Fresh()
	}
	mkdir := func(i int) string {
		if !files {
			return ""
		}
		d := filepath.Join(base, fmt.Sprint(i))
		_ = os.MkdirAll(d, 0755)
		return d
	}
	dirs := make([]string, n)
	for i := range dirs {
		dirs[i] = mkdir(i)
	}
	outs := make([]*outcome, n)
	imgs := make([][]byte, n)
	for i := range imgs {
		imgs[i] = clone(scripts[i].d.Data)
	}
	var wg sync.WaitGroup
	gate := make(chan struct{})
	for i := range scripts {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-gate
			outs[i] = scripts[i].run(imgs[i], false, dirs[i], nap(scripts[i].delay))
		}(i)
	}
	close(gate)
	wg.Wait()
	for i, s := range scripts {
		alone := s.run(clone(s.d.Data), false, dirs[i], nil)
		compare(t, fmt.Sprintf("script %d of %d, run concurrently", i, n), s, outs[i], alone)
		t.Event("steps compared", len(alone.lines))
		t.Event("scripts run concurrently", 1)
		if files {
			t.Event("scripts on files", 1)
		}
		if len(s.d.Data) == 143360 && !bytes.Equal(imgs[i], s.d.Data) {
			t.Fail("script %d changed the bytes its floppy image was opened from: %s", i, vf.FirstDiff(imgs[i], s.d.Data))
		}
	}
	if raceOn {
		t.Event("race detector active", 1)
	}
	t.Event(fmt.Sprintf("groups of %d goroutines", n), 1)
	t.Distinct(t.I, n, files)
	if t.I < 4 {
		t.Sample("%d goroutines; the first: %v", n, scripts[0])
	}
}

// shared lets goroutines open and read one and the same image; any write to
// it is a race.
func shared(t *vf.T) {
	d := wl.RandDisk(t, []string{"dos3", "nakedos", "prodos", "hdv", "real"}[t.I%5])
	img := clone(d.Data)
	n := 2 + t.Intn(6)
	scripts := make([]script, n)
	outs := make([]*outcome, n)
	for i := range scripts {
		scripts[i] = randScript(t, d)
	}
	var wg sync.WaitGroup
	gate := make(chan struct{})
	for i := range scripts {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-gate
			outs[i] = scripts[i].run(img, true, "", nap(scripts[i].delay))
		}(i)
	}
	close(gate)
	wg.Wait()
	if !bytes.Equal(img, d.Data) {
		t.Fail("reading changed the image: %s", vf.FirstDiff(img, d.Data))
	}
	for i, s := range scripts {
		alone := s.run(clone(d.Data), true, "", nil)
		compare(t, fmt.Sprintf("reader %d of %d on one image", i, n), s, outs[i], alone)
		t.Event("concurrent readers of one image", 1)
	}
	t.Distinct(t.I, d.Desc)
}

// interleaved runs scripts one step at a time in turn and repeats them; what
// was returned earlier is held and must not change.
func interleaved(t *vf.T) {
	n := 2 + t.Intn(3)
	var scripts []script
	for i := 0; i < n; i++ {
		scripts = append(scripts, randScript(t, wl.RandDisk(t, "")))
	}
	// first in turns, one step at a time in random order
	outs := make([]*outcome, n)
	turn := make([]chan struct{}, n)
	back := make(chan bool)
	for i := range scripts {
		turn[i] = make(chan struct{})
		go func(i int) {
			<-turn[i]
			outs[i] = scripts[i].run(clone(scripts[i].d.Data), false, "", func() {
				back <- false
				<-turn[i]
			})
			back <- true
		}(i)
	}
	var live []int
	for i := range scripts {
		live = append(live, i)
	}
	for len(live) > 0 {
		k := t.Intn(len(live))
		turn[live[k]] <- struct{}{}
		if <-back {
			live = append(live[:k], live[k+1:]...)
		}
		t.Event("turns", 1)
	}
	var first []*outcome
	for _, s := range scripts {
		first = append(first, s.run(clone(s.d.Data), false, "", nil))
	}
	for i, s := range scripts {
		compare(t, fmt.Sprintf("script %d of %d, run in turns", i, n), s, outs[i], first[i])
	}
	for r := 0; r < 2; r++ {
		for _, i := range t.Perm(n) {
			s := scripts[i]
			again := s.run(clone(s.d.Data), false, "", nil)
			compare(t, fmt.Sprintf("repetition %d of script %d", r+1, i), s, again, first[i])
			t.Event("repetitions", 1)
		}
	}
	for i, s := range scripts {
		compare(t, "after all repetitions", s, outs[i], first[i])
		t.Event("held results compared", len(first[i].held))
	}
	t.Distinct(t.I)
}

// alias changes everything that was handed out or passed in and looks whether
// the disk noticed.
func alias(t *vf.T) {
	d := wl.RandDisk(t, []string{"dos3", "nakedos", "prodos", "hdv", "real"}[t.I%5])
	img := clone(d.Data)
	opr, _, err := disk.OpenImage(img, "disk"+d.Ext(t), "auto", "auto", lib.Factories(), 0)
	if err != nil {
		t.Event("not opened", 1)
		return
	}
	if !bytes.Equal(img, d.Data) {
		t.Fail("opening changed the image: %s", vf.FirstDiff(img, d.Data))
	}
	backing := func() string { return hash(opr.GetBytes()) }
	was := backing()
	if len(img) == 143360 {
		// a floppy image is opened as a copy
		t.Read(img)
		if backing() != was {
			t.Fail("changing the bytes a floppy image was opened from changed the disk")
		}
		img = nil
	}
	dirs := append([]string{""}, d.Dirs...)
	names := append([]string{}, d.Names...)
	if len(names) > 12 {
		t.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
		names = names[:12]
	}
	look := func() string {
		var b strings.Builder
		for _, p := range dirs {
			ds, err := opr.Catalog(p)
			fmt.Fprintln(&b, p, err, catalogText(ds))
			for i := range ds {
				ds[i].Name, ds[i].Fullname, ds[i].Length, ds[i].Type = "SMASHED", "SMASHED", -1, 99
			}
			if cap(ds) > len(ds) {
				ds = append(ds, types.Descriptor{Name: "SMASHED"})
			}
			_ = ds
		}
		for _, n := range names {
			fi, err := opr.GetFile(n)
			fmt.Fprintln(&b, n, err, fi.Descriptor, hash(fi.Data), fi.StartAddress)
			full := fi.Data[:cap(fi.Data)]
			for i := range full {
				full[i] ^= 0xa5
			}
			t.Event("file contents smashed", 1)
		}
		return b.String()
	}
	a := look()
	if backing() != was {
		t.Fail("%s: reading, and changing what was returned, changed the disk", d.Desc)
	}
	if b := look(); a != b {
		t.Fail("%s: reading again after changing what was returned gives something else\nfirst  %.600s\nsecond %.600s", d.Desc, a, b)
	}
	if d.System == "nakedos" {
		data := ref.RandBytes(t.Rand, 1+t.Intn(900))
		if t.Intn(2) == 0 { // whole sectors
			data = ref.RandBytes(t.Rand, 256*(1+t.Intn(3)))
		}
		buf := append(make([]byte, 0, len(data)+1000), data...)
		spare := buf[:cap(buf)]
		for i := len(data); i < len(spare); i++ {
			spare[i] = 0x3c
		}
		_, err := opr.PutFile(types.FileInfo{Descriptor: types.Descriptor{Name: "DF6E", Length: len(data), Type: types.FiletypeBinary}, Data: buf}, true)
		if !bytes.Equal(buf, data) {
			t.Fail("storing a file changed the data passed in")
		}
		for i := len(data); i < len(spare); i++ {
			if spare[i] != 0x3c {
				t.Fail("storing a file of %d bytes wrote behind the data passed in (byte %d)", len(data), i)
			}
		}
		if err == nil {
			was := backing()
			for i := range spare {
				spare[i] ^= 0xff
			}
			if backing() != was {
				t.Fail("changing data after it was stored changed the disk")
			}
			fi, err := opr.GetFile("DF6E")
			if err != nil || len(fi.Data) < len(data) || !bytes.Equal(fi.Data[:len(data)], data) {
				t.Fail("stored data reads back differently after the caller's copy was changed: %v", err)
			}
			t.Event("stored data smashed", 1)
		}
	}
	t.Event("disks looked at twice", 1)
	t.Distinct(t.I, d.Desc)
}

// reading checks that no reading operation changes the bytes given to it,
// byte by byte, for each operation.
func reading(t *vf.T) {
	d := wl.RandDisk(t, "")
	s := randScript(t, d)
	for _, x := range s.ops {
		img := clone(d.Data)
		one := s
		one.ops = []op{x}
		one.run(img, true, "", nil)
		if !bytes.Equal(img, d.Data) {
			t.Fail("%s: %v changed the image: %s", d.Desc, x, vf.FirstDiff(img, d.Data))
		}
		t.Event("reading steps", 1)
	}
	t.Distinct(t.I, d.Desc)
}

// commands runs a command line twice in equal directories.
func commands(t *vf.T) {
	d := wl.RandDisk(t, "")
	img := "disk" + d.Ext(t)
	data := ref.RandBytes(t.Rand, t.Intn(3000))
	others := []string{"other.po", "other.dsk"}
	c := wl.RandCmd(t, d, img, "data", others, []string{"new.po", "new.dsk", "new"})
	var first string
	for r := 0; r < 3; r++ {
		dir := t.Fresh()
		t.Put(dir, img, d.Data)
		t.Put(dir, "data", data)
		t.Put(dir, "other.po", []byte("x"))
		t.Put(dir, "other.dsk", []byte("y"))
		res := t.Run(vf.RunOpts{Dir: dir}, c.Args...)
		snap := t.Snapshot(dir)
		if len(c.Args) > 0 && strings.HasPrefix(c.Args[0], "-") {
			res.Stderr = nil // debugging output is in no particular order
		}
		out := fmt.Sprintf("exit %d\n%s\n%s\n%v", res.Exit, strings.ReplaceAll(string(res.Stdout), dir, "DIR"), strings.ReplaceAll(string(res.Stderr), dir, "DIR"), snap)
		if r == 0 {
			first = out
			continue
		}
		if out != first {
			t.Note("command %v on %s", c.Args, d.Desc)
			t.Fail("diskii %s: run %d differs from the first\nfirst: %.900s\nnow: %.900s", strings.Join(c.Args, " "), r+1, first, out)
		}
		t.Event("commands repeated", 1)
	}
	t.Distinct(strings.Join(c.Args, " "))
}

// lookalikes opens images that differ in little under the same name, one after
// the other and again; what is said about each is what a fresh process says.
func lookalikes(t *vf.T) {
	d := wl.RandDisk(t, []string{"dos3", "nakedos", "prodos", "hdv", "dos3", "prodos"}[t.I%6])
	family := [][]byte{clone(d.Data)}
	for len(family) < 4 {
		b := clone(family[t.Intn(len(family))])
		switch k := t.Intn(4); {
		case k == 0: // any bytes in use
			for n := 1 + t.Intn(6); n > 0; n-- {
				i := t.Intn(len(b))
				for j := 0; j < len(b) && b[i] == 0; j++ {
					i = (i + 1) % len(b)
				}
				b[i] ^= 1 << uint(t.Intn(8))
			}
		case k == 1 && d.System == "nakedos":
			opr, order, err := disk.OpenImage(clone(b), "disk", types.DiskOrder(d.Order), "nakedos", lib.Factories(), 0)
			if err != nil {
				continue
			}
			name := d.Names[t.Intn(len(d.Names))]
			if t.Intn(3) == 0 {
				if _, err := opr.Delete(name); err != nil {
					continue
				}
			} else {
				data := ref.RandBytes(t.Rand, 1+t.Intn(600))
				if _, err := opr.PutFile(types.FileInfo{Descriptor: types.Descriptor{Name: name, Length: len(data), Type: types.FiletypeBinary}, Data: data}, true); err != nil {
					continue
				}
			}
			b = ref.Conv(opr.GetBytes(), "raw", string(order))
		default: // another letter in a name of the same length
			if len(d.Names) == 0 {
				continue
			}
			name := []byte(d.Names[t.Intn(len(d.Names))])
			if d.System == "dos3" {
				for i := range name {
					name[i] |= 0x80
				}
			}
			n := 0
			for i := 0; len(name) > 1 && i+len(name) <= len(b); i++ {
				if bytes.Equal(b[i:i+len(name)], name) {
					b[i+1+t.Intn(len(name)-1)] ^= byte(1 + t.Intn(3))
					n++
				}
			}
			if n == 0 {
				b[t.Intn(len(b))]++
			}
		}
		family = append(family, b)
	}
	name := "disk" + d.Ext(t)
	dir := t.Fresh()
	subdir := ""
	if len(d.Dirs) > 0 {
		subdir = d.Dirs[t.Intn(len(d.Dirs))]
	}
	files := []string{}
	for i := 0; i < 2 && len(d.Names) > 0; i++ {
		files = append(files, d.Names[t.Intn(len(d.Names))])
	}
	order := []int{0, 1, 2, 3, 0, 2}
	fresh := map[int][]string{}
	for step, i := range order {
		if fresh[i] == nil {
			t.Put(dir, name, family[i])
			args := []string{"ls", "-s", name}
			if subdir != "" {
				args = append(args, subdir)
			}
			res := t.Run(vf.RunOpts{Dir: dir}, args...)
			fresh[i] = append(fresh[i], fmt.Sprintf("%v %q", res.Exit == 0, res.Stdout))
			for _, f := range files {
				res := t.Run(vf.RunOpts{Dir: dir}, "dump", name, "--", f)
				fresh[i] = append(fresh[i], fmt.Sprintf("%v %s", res.Exit == 0, hash(res.Stdout)))
			}
		}
		var got []string
		img := clone(family[i])
		opr, _, err := disk.OpenImage(img, name, "auto", "auto", lib.Factories(), 0)
		if err == nil {
			var text strings.Builder
			var ds []types.Descriptor
			if subdir != "" && !opr.HasSubdirs() {
				err = fmt.Errorf("no directories")
			} else {
				ds, err = opr.Catalog(subdir)
			}
			for _, x := range ds {
				fmt.Fprintln(&text, x.Name)
			}
			got = append(got, fmt.Sprintf("%v %q", err == nil, text.String()))
			for _, f := range files {
				fi, err := opr.GetFile(f)
				got = append(got, fmt.Sprintf("%v %s", err == nil, hash(fi.Data)))
			}
		} else {
			got = append(got, fmt.Sprintf("false %q", ""))
			for range files {
				got = append(got, fmt.Sprintf("false %s", hash(nil)))
			}
		}
		for j := range got {
			if got[j] != fresh[i][j] {
				t.Note("variants of %s opened as %s in the order %v, files %q, directory %q", d.Desc, name, order, files, subdir)
				t.Fail("variant %d (step %d), answer %d: %.600s; a fresh process says %.600s", i, step, j, got[j], fresh[i][j])
			}
		}
		t.Event("variants opened", 1)
	}
	if fresh[0][0] != fresh[1][0] || fresh[0][0] != fresh[2][0] || fresh[0][0] != fresh[3][0] {
		t.Event("variants that list differently", 1)
	}
	t.Distinct(t.I, d.Desc)
}

func main() {
	vf.Main(vf.Spec{
		ID:   "C23",
		Rule: "no data race is reported; results obtained concurrently, interleaved and repeatedly equal those obtained alone; images and returned or passed data stay what they were",
		Assumptions: []string{
			"one image is not changed by two goroutines at once",
			"GetBytes hands out the image itself, and a hard disk image is opened without a copy: changing those bytes does change the disk",
			"the race detector sees only accesses that happened; schedules are varied by random pauses, not enumerated",
		},
		Require:   []string{"steps compared", "scripts run concurrently", "scripts on files", "concurrent readers of one image", "repetitions", "turns", "race detector active", "held results compared", "file contents smashed", "stored data smashed", "reading steps", "commands repeated", "variants opened", "variants that list differently"},
		NoASLimit: true,
		CaseCPU:   120,
	}, func(s *vf.Suite) {
		s.Section("concurrent", 200, 6000, concurrent)
		s.Section("shared", 120, 4000, shared)
		s.Section("interleaved", 100, 3000, interleaved)
		s.Section("alias", 160, 5000, alias)
		s.Section("reading", 100, 3000, reading)
		s.Section("commands", 160, 4000, commands)
		s.Section("lookalikes", 240, 6000, lookalikes)
	})
}
