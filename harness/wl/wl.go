// Package wl generates disk images of all kinds and command lines over them.
package wl

import (
	"fmt"
	"sort"

	"verif/lib"
	"verif/nk"
	"verif/ref"
	"verif/vf"
)

var real = lib.Real()

// Disk is an image with what is known about it.
type Disk struct {
	Data   []byte
	Order  string // container: do, po, or block for hard disks
	System string // dos3, nakedos, prodos, or "" for garbage
	Names  []string
	Dirs   []string
	Desc   string
}

// Ext returns an extension that fits.
func (d Disk) Ext(t *vf.T) string {
	switch d.Order {
	case "do":
		return []string{".do", ".dsk", ""}[t.Intn(3)]
	case "po":
		return ".po"
	}
	return ".hdv"
}

// RandDisk makes a disk of a system ("": any, including garbage).
func RandDisk(t *vf.T, system string) Disk {
	if system == "" {
		system = []string{"dos3", "nakedos", "nakedos", "prodos", "hdv", "garbage", "real"}[t.Intn(7)]
	}
	order := []string{"do", "po"}[t.Intn(2)]
	switch system {
	case "dos3":
		d := ref.BuildDos(t.Rand, ref.DosOpts{MaxEntries: 1 + t.Intn(30), Plain: true, Big: t.Intn(6) == 0})
		x := Disk{Data: ref.Conv(d.Img, "do", order), Order: order, System: "dos3", Desc: "generated DOS 3.3"}
		for _, e := range d.Live {
			x.Names = append(x.Names, e.Name)
		}
		return x
	case "nakedos":
		n, desc := nk.Source(t, real)
		m := nk.FromDisk(n)
		x := Disk{Data: ref.Conv(n.Img, "raw", order), Order: order, System: "nakedos", Desc: desc}
		for f := range m.Files {
			x.Names = append(x.Names, fmt.Sprintf("DF%02X", f))
		}
		for s := range m.Syms {
			x.Names = append(x.Names, s)
		}
		sort.Strings(x.Names)
		return x
	case "prodos":
		v := ref.BuildPro(t.Rand, ref.ProOpts{Blocks: 280, MaxDirs: 8, MaxDepth: 4, MaxEnt: 20})
		x := Disk{Data: ref.Conv(v.Img, "po", order), Order: order, System: "prodos", Desc: "generated ProDOS"}
		for _, d := range v.Dirs {
			x.Dirs = append(x.Dirs, d.Path)
			for _, e := range d.Entries {
				x.Names = append(x.Names, e.Name)
			}
		}
		return x
	case "hdv":
		v := ref.BuildPro(t.Rand, ref.ProOpts{Blocks: 300 + t.Intn(2000), MaxDirs: 10, MaxDepth: 4, MaxEnt: 20})
		x := Disk{Data: v.Img, Order: "block", System: "prodos", Desc: "generated hard disk"}
		for _, d := range v.Dirs {
			x.Dirs = append(x.Dirs, d.Path)
			for _, e := range d.Entries {
				x.Names = append(x.Names, e.Name)
			}
		}
		return x
	case "real":
		im := real[t.Intn(len(real))]
		x := Disk{Data: append([]byte{}, im.Data...), Order: im.Order, System: im.System, Desc: im.Name, Names: []string{"HELLO", "FHELLO", "DF01"}}
		return x
	}
	n := []int{143360, 0, 1, 256, 143359, 143361, 4096, 116480, 160256}[t.Intn(9)]
	return Disk{Data: ref.RandBytes(t.Rand, n), Order: order, Desc: fmt.Sprintf("%d random bytes", n), Names: []string{"HELLO"}}
}

// Cmd is a command line with what it may touch.
type Cmd struct {
	Args     []string
	ReadOnly bool
	Out      string // file it may write
	MustFail string // why it must not succeed; "" if it may
	Stdin    []byte
}

func pick(t *vf.T, s ...string) string { return s[t.Intn(len(s))] }

func (d Disk) name(t *vf.T) string {
	if len(d.Names) > 0 && t.Intn(3) > 0 {
		return d.Names[t.Intn(len(d.Names))]
	}
	return pick(t, "NOSUCH", "DF05", "FOO", "FHELLO", "DF77:BARBAZ", "a b", "X/Y", "1", "fe", "DF00", "TOOLONGNAME", "ZZZ")
}

func opts(t *vf.T, sys ...string) []string {
	var a []string
	if t.Intn(3) == 0 {
		a = append(a, "--order", pick(t, "auto", "do", "po", "raw"))
	}
	if len(sys) > 0 && t.Intn(3) == 0 {
		a = append(a, "--system="+sys[t.Intn(len(sys))])
	}
	return a
}

func num(t *vf.T, n int) string {
	return fmt.Sprintf([]string{"%#x", "%d", "0x%X", "%x"}[t.Intn(4)], n)
}

// RandCmd makes a command line over an image file img, a data file data, and
// other existing files others; targets are names for new files.
func RandCmd(t *vf.T, d Disk, img, data string, others, targets []string) Cmd {
	var c Cmd
	switch t.Intn(14) {
	case 0, 1: // ls
		c.Args = append([]string{pick(t, "ls", "list", "cat", "catalog")}, opts(t, "auto", "dos3", "prodos", "nakedos", "cpm")...)
		if t.Intn(3) == 0 {
			c.Args = append(c.Args, "-s")
		}
		c.Args = append(c.Args, img)
		if t.Intn(4) == 0 {
			dir := "SUB"
			if len(d.Dirs) > 0 {
				dir = d.Dirs[t.Intn(len(d.Dirs))]
			}
			c.Args = append(c.Args, dir)
		}
		c.ReadOnly = true
	case 2, 3: // dump
		c.Args = append([]string{"dump"}, opts(t, "auto", "dos3", "prodos")...)
		c.Args = append(c.Args, img, d.name(t))
		c.ReadOnly = true
	case 4:
		c.Args = []string{"filetypes"}
		if t.Intn(2) == 0 {
			c.Args = append(c.Args, "--all")
		}
		c.ReadOnly = true
	case 5:
		c.Args = []string{"applesoft", "decode", pick(t, data, img)}
		if t.Intn(2) == 0 {
			c.Args = append(c.Args, "-r")
		}
		if t.Intn(3) == 0 {
			c.Args = append(c.Args, "--location", num(t, t.Intn(65536)))
		}
		c.ReadOnly = true
	case 6: // nothing useful
		c.Args = [][]string{{"--help"}, {"ls", "--help"}, {}, {"frobnicate", img}, {"put", img}, {"rm", img}, {"reorder"}, {"dump", img}, {"mksd", img}, {"nakedos"}, {"ls", "nosuchfile.dsk"}, {"rm", "nosuch.dsk", "X"},
			{"put", "nosuch.dsk", "X", data}, {"put", img, "X", "nosuchdata"}, {"reorder", "nosuch.do"}, {"mksd", targets[0], "nosuch"}, {"ls", "--order=xx", img}, {"put", "--address=zz", img, "FOO", data}}[t.Intn(18)]
		c.ReadOnly = true
	case 7, 8: // put
		c.Args = append([]string{"put"}, opts(t, "auto", "dos3", "nakedos")...)
		if t.Intn(2) == 0 {
			c.Args = append(c.Args, "-f")
		}
		if t.Intn(4) == 0 {
			c.Args = append(c.Args, "--filetype-name", pick(t, "B", "BIN", "T", "Q", "A", "Binary"))
		}
		if t.Intn(4) == 0 {
			c.Args = append(c.Args, "--address", num(t, t.Intn(65536)))
		}
		src := data
		if t.Intn(6) == 0 {
			src = img
		}
		c.Args = append(c.Args, img, d.name(t), src)
		c.Out = img
		if d.System != "nakedos" && d.System != "" && d.Desc != "" {
			c.MustFail = "" // refused today, but a future version may support it
		}
	case 9: // rm
		c.Args = append([]string{pick(t, "rm", "delete")}, opts(t, "auto", "dos3")...)
		if t.Intn(2) == 0 {
			c.Args = append(c.Args, "-f")
		}
		c.Args = append(c.Args, img, d.name(t))
		c.Out = img
	case 10: // mkhello
		c.Args = append([]string{"nakedos", "mkhello"}, opts(t)...)
		if t.Intn(2) == 0 {
			c.Args = append(c.Args, "--address", num(t, t.Intn(256)*256+t.Intn(2)*t.Intn(256)))
		}
		if t.Intn(3) == 0 {
			c.Args = append(c.Args, "--start", num(t, t.Intn(65536)))
		}
		c.Args = append(c.Args, img, d.name(t))
		c.Out = img
	case 11: // mksd
		c.Args = append([]string{"mksd"}, opts(t)...)
		if t.Intn(2) == 0 {
			c.Args = append(c.Args, "--address", num(t, t.Intn(256)*256+t.Intn(2)*t.Intn(256)))
		}
		if t.Intn(3) == 0 {
			c.Args = append(c.Args, "--start", num(t, t.Intn(65536)))
		}
		c.Out = targets[t.Intn(len(targets))]
		if t.Intn(4) == 0 {
			c.Out = others[t.Intn(len(others))]
		}
		c.Args = append(c.Args, c.Out, data)
	default: // reorder
		c.Args = append([]string{"reorder"}, opts(t)...)
		if t.Intn(3) == 0 {
			c.Args = append(c.Args, "--new-order", pick(t, "auto", "do", "po"))
		}
		force := t.Intn(3) == 0
		if force {
			c.Args = append(c.Args, "-f")
		}
		c.Args = append(c.Args, img)
		c.Out = img
		switch t.Intn(4) {
		case 0:
			c.Out = targets[t.Intn(len(targets))]
			c.Args = append(c.Args, c.Out)
		case 1:
			c.Out = others[t.Intn(len(others))]
			c.Args = append(c.Args, c.Out)
			if !force {
				c.MustFail = "the target exists"
			}
		case 2:
			if t.Intn(3) == 0 {
				c.Args = append(c.Args, img)
				if !force {
					c.MustFail = "the target exists"
				}
			}
		}
	}
	if t.Intn(8) == 0 && len(c.Args) > 0 {
		c.Args = append([]string{pick(t, "-v", "-vv", "-vvv", "--debug")}, c.Args...)
	}
	return c
}
