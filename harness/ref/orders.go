// Package ref holds models of the Apple II disk formats written from their
// documentation, independently of the code under test: it must not import it.
package ref

// DiskSize is the size of a 16-sector floppy image.
const DiskSize = 143360

// The README's table: physical sector -> logical sector of the order.
var physToDos = [16]int{0x0, 0x7, 0xE, 0x6, 0xD, 0x5, 0xC, 0x4, 0xB, 0x3, 0xA, 0x2, 0x9, 0x1, 0x8, 0xF}

// ProDOS block.half: 0.0 4.0 0.1 4.1 1.0 5.0 1.1 5.1 2.0 6.0 2.1 6.1 3.0 7.0 3.1 7.1
var physToPro = [16]int{
	0*2 + 0, 4*2 + 0, 0*2 + 1, 4*2 + 1, 1*2 + 0, 5*2 + 0, 1*2 + 1, 5*2 + 1,
	2*2 + 0, 6*2 + 0, 2*2 + 1, 6*2 + 1, 3*2 + 0, 7*2 + 0, 3*2 + 1, 7*2 + 1}

func table(order string) [16]int {
	switch order {
	case "do":
		return physToDos
	case "po":
		return physToPro
	case "raw":
		return [16]int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}
	}
	panic("ref: unknown order " + order)
}

// Conv converts a floppy image from one sector order to another.
func Conv(img []byte, from, to string) []byte {
	f, t := table(from), table(to)
	out := make([]byte, len(img))
	for tr := 0; tr < 35; tr++ {
		for p := 0; p < 16; p++ {
			copy(out[tr*4096+t[p]*256:][:256], img[tr*4096+f[p]*256:][:256])
		}
	}
	return out
}

// PhysToLogical returns the logical sector of a physical sector in an order.
func PhysToLogical(order string, p int) int { return table(order)[p] }

// LogicalToPhys returns the physical sector of a logical sector in an order.
func LogicalToPhys(order string, l int) int {
	t := table(order)
	for p, x := range t {
		if x == l {
			return p
		}
	}
	panic("ref")
}

// Sec returns the 256 bytes of a sector (aliasing img).
func Sec(img []byte, t, s int) []byte { return img[t*4096+s*256 : t*4096+s*256+256] }

// Blk returns the 512 bytes of a block (aliasing img).
func Blk(img []byte, b int) []byte { return img[b*512 : b*512+512] }
