// Package lib wraps the public API of the code under test.
package lib

import (
	"os"
	"path/filepath"

	"verif/vf"

	"github.com/zellyn/diskii/disk"
	"github.com/zellyn/diskii/dos3"
	"github.com/zellyn/diskii/prodos"
	"github.com/zellyn/diskii/supermon"
	"github.com/zellyn/diskii/types"
)

// Factories returns the operator factories in the order of the command.
func Factories() []types.OperatorFactory {
	return []types.OperatorFactory{dos3.OperatorFactory{}, supermon.OperatorFactory{}, prodos.OperatorFactory{}}
}

// Open opens a copy of an image.
func Open(b []byte, name, order, system string) (types.Operator, types.DiskOrder, error) {
	return disk.OpenImage(append([]byte{}, b...), name, types.DiskOrder(order), system, Factories(), 0)
}

// OpenDebug opens a copy of an image with a debug level.
func OpenDebug(b []byte, name, order, system string, debug int) (types.Operator, types.DiskOrder, error) {
	return disk.OpenImage(append([]byte{}, b...), name, types.DiskOrder(order), system, Factories(), debug)
}

// Image is a disk image that comes with the repository.
type Image struct {
	Name   string
	Data   []byte
	Order  string // container order
	System string
}

// Real reads the disk images of the repository.
func Real() []Image {
	var r []Image
	for _, x := range []struct{ p, o, s string }{
		{"data/disks/dos33master.dsk", "do", "dos3"},
		{"data/disks/lode-runner-disk-1.dsk", "do", ""},
		{"data/disks/lode-runner-disk-1.po", "po", ""},
		{"data/disks/sam-hardware-ver.po", "po", "dos3"},
		{"dos3/testdata/dos33test.dsk", "do", "dos3"},
		{"data/disks/ProDOS_2_4_2.po", "po", "prodos"},
		{"data/disks/prodos-users-disk.dsk", "do", "prodos"},
		{"data/disks/Super-Mon-2.0.dsk", "do", "nakedos"},
		{"supermon/testdata/chacha20.dsk", "do", "nakedos"},
	} {
		b, err := os.ReadFile(filepath.Join(vf.Repo(), x.p))
		if err == nil && len(b) == 143360 {
			r = append(r, Image{x.p, b, x.o, x.s})
		}
	}
	return r
}
