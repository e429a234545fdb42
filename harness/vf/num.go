package vf

import (
	"fmt"
	"math/rand"
)

// NotUint16 returns a text that is not a number from 0 to 65535.
func NotUint16(r *rand.Rand) string {
	switch r.Intn(4) {
	case 0: // too large by a little, or by a multiple of 65536
		n := uint64(0x10000)<<uint(r.Intn(40)) + uint64(r.Intn(256))*256
		return fmt.Sprintf([]string{"%d", "%#x"}[r.Intn(2)], n)
	case 1:
		n := 0x10000 + r.Intn(0x10000)
		return fmt.Sprintf([]string{"%d", "0x%X"}[r.Intn(2)], n)
	}
	return []string{"-1", "-24576", "65536", "0x10000", "18446744073709551616", "0x", "abc", "6000h", "$6000", "24576.5", "0x60G0", " 24576", "24576 ", "1e3", "24576,0", "x6000", "--"}[r.Intn(17)]
}
