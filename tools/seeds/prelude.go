// Demonstration program: exits 0 when the behaviour is right, 1 when it is not.
package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"github.com/zellyn/diskii/basic"
	"github.com/zellyn/diskii/basic/applesoft"
	"github.com/zellyn/diskii/basic/integer"
	"github.com/zellyn/diskii/disk"
	"github.com/zellyn/diskii/dos3"
	"github.com/zellyn/diskii/helpers"
	"github.com/zellyn/diskii/prodos"
	"github.com/zellyn/diskii/supermon"
	"github.com/zellyn/diskii/types"
)

var _ = basic.ChevronControlCodes
var _ = applesoft.Decode
var _ = integer.Decode
var _ = helpers.WriteOutput
var _ = bytes.Equal
var _ = io.ReadAll
var _ = strings.ToUpper
var _ = time.Second
var _ prodos.VolumeBitMap
var _ dos3.VTOC
var _ = filepath.Join

var tool, tmp string // the diskii binary, and a scratch directory of our own

func check(ok bool, format string, args ...interface{}) {
	if !ok {
		fmt.Printf("WRONG: "+format+"\n", args...)
		os.Exit(1)
	}
}

func must(err error) {
	check(err == nil, "unexpected error: %v", err)
}

func factories() []types.OperatorFactory {
	return []types.OperatorFactory{dos3.OperatorFactory{}, supermon.OperatorFactory{}, prodos.OperatorFactory{}}
}

func open(b []byte, name string, order types.DiskOrder, system string) (types.Operator, types.DiskOrder, error) {
	return disk.OpenImage(b, name, order, system, factories(), 0)
}

// cli runs diskii in the scratch directory.
func cli(stdin []byte, args ...string) (out []byte, code int) {
	c := exec.Command(tool, args...)
	c.Dir = tmp
	c.Stdin = bytes.NewReader(stdin)
	var o, e bytes.Buffer
	c.Stdout, c.Stderr = &o, &e
	t := time.AfterFunc(20*time.Second, func() { c.Process.Kill() })
	err := c.Run()
	t.Stop()
	if err != nil {
		code = c.ProcessState.ExitCode()
		if code < 0 {
			code = 99
		}
	}
	return o.Bytes(), code
}

func file(name string, b []byte) string {
	must(os.WriteFile(filepath.Join(tmp, name), b, 0644))
	return name
}

func contents(name string) []byte {
	b, err := os.ReadFile(filepath.Join(tmp, name))
	must(err)
	return b
}

func repoDisk(name string) []byte {
	b, err := os.ReadFile(filepath.Join("data", "disks", name))
	must(err)
	return b
}

func pattern(n int, seed byte) []byte {
	b := make([]byte, n)
	x := uint32(seed)*2654435761 + 12345
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x>>24) | 1
	}
	return b
}

// naked returns an empty NakedOS disk with a symbol table, physical order.
func naked() []byte {
	b := make([]byte, 143360)
	for i := 0; i < 560; i++ {
		v := byte(0xff)
		switch {
		case i < 12:
			v = 0xfe
		case i >= 16 && i < 32:
			v = 3
		case i >= 32 && i < 48:
			v = 4
		}
		b[0x9d0+i] = v
	}
	return b
}

func nop(raw []byte) supermon.Operator {
	op, err := supermon.OperatorFactory{}.Operator(raw, 0)
	must(err)
	return op.(supermon.Operator)
}

func put(op types.Operator, name string, data []byte, overwrite bool) (bool, error) {
	return op.PutFile(types.FileInfo{Descriptor: types.Descriptor{Name: name, Length: len(data), Type: types.FiletypeBinary}, Data: data}, overwrite)
}

// reorderTo turns a physical-order disk into file order.
func fileOrder(raw []byte, order types.DiskOrder) []byte {
	table := map[types.DiskOrder][]int{
		types.DiskOrderDO: {0x0, 0x7, 0xE, 0x6, 0xD, 0x5, 0xC, 0x4, 0xB, 0x3, 0xA, 0x2, 0x9, 0x1, 0x8, 0xF},
		types.DiskOrderPO: {0x0, 0x8, 0x1, 0x9, 0x2, 0xA, 0x3, 0xB, 0x4, 0xC, 0x5, 0xD, 0x6, 0xE, 0x7, 0xF},
	}[order]
	out := make([]byte, len(raw))
	for t := 0; t < 35; t++ {
		for s := 0; s < 16; s++ {
			copy(out[t*4096+table[s]*256:][:256], raw[t*4096+s*256:][:256])
		}
	}
	return out
}

// doToPo converts a DOS-order disk to ProDOS order.
func doToPo(do []byte) []byte {
	table := []int{0, 14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 15}
	out := make([]byte, len(do))
	for t := 0; t < 35; t++ {
		for s := 0; s < 16; s++ {
			copy(out[t*4096+table[s]*256:][:256], do[t*4096+s*256:][:256])
		}
	}
	return out
}

func at(b []byte, t, s int) []byte { return b[t*4096+s*256:][:256] }

// dosDisk returns an empty DOS 3.3 disk whose only catalog sector is t17 s15.
func dosDisk() []byte {
	b := make([]byte, 143360)
	v := at(b, 17, 0)
	v[1], v[2], v[3], v[6], v[0x27], v[0x31], v[0x34], v[0x35], v[0x37] = 17, 15, 3, 254, 122, 1, 35, 16, 1
	return b
}

func entry(b []byte, t, s, slot int, tslT, tslS int, typ byte, name string, sectors int) {
	e := at(b, t, s)[11+35*slot:][:35]
	e[0], e[1], e[2] = byte(tslT), byte(tslS), typ
	for i := 0; i < 30; i++ {
		c := byte(' ')
		if i < len(name) {
			c = name[i]
		}
		e[3+i] = c | 0x80
	}
	e[33], e[34] = byte(sectors), byte(sectors>>8)
}

func dosOp(b []byte) types.Operator {
	op, err := dos3.OperatorFactory{}.Operator(b, 0)
	must(err)
	return op
}

func blk(b []byte, n int) []byte { return b[n*512:][:512] }

// prodosVol returns a ProDOS volume with a one-block volume directory.
func prodosVol(blocks int) []byte {
	b := make([]byte, blocks*512)
	k := blk(b, 2)
	copy(k[4:], "\xf4TEST")
	k[4+0x1f], k[4+0x20], k[4+0x23] = 0x27, 13, 6
	k[4+0x25], k[4+0x26] = byte(blocks), byte(blocks>>8)
	return b
}

// pentry writes an entry (slot 1 is the first after the header).
func pentry(b []byte, block, slot int, storage byte, name string, typ byte, key, used, eof int) {
	e := blk(b, block)[4+0x27*slot:][:0x27]
	e[0] = storage<<4 | byte(len(name))
	copy(e[1:], name)
	e[0x10] = typ
	e[0x11], e[0x12], e[0x13], e[0x14] = byte(key), byte(key>>8), byte(used), byte(used>>8)
	e[0x15], e[0x16], e[0x17] = byte(eof), byte(eof>>8), byte(eof>>16)
	e[0x1e], e[0x1f], e[0x20] = 0xc3, 0, 0
}

// psub writes a subdirectory header block.
func psub(b []byte, block int, name string, parent, slot, count int) {
	k := blk(b, block)
	k[4] = 0xe0 | byte(len(name))
	copy(k[5:], name)
	k[4+0x10], k[4+0x1f], k[4+0x20], k[4+0x21], k[4+0x23], k[4+0x24], k[4+0x25], k[4+0x26] = 0x75, 0x27, 13, byte(count), byte(parent), byte(parent>>8), byte(slot), 0x27
}

func proOp(b []byte) types.Operator {
	op, err := prodos.OperatorFactory{}.Operator(b, 0)
	must(err)
	return op
}

func names(op types.Operator, dir string) []string {
	ds, err := op.Catalog(dir)
	must(err)
	var out []string
	for _, d := range ds {
		out = append(out, d.Name)
	}
	return out
}

func main() {
	tool, tmp = os.Args[1], os.Args[2]
	demo()
	fmt.Println("right")
}

