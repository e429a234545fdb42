// Package emu is a small Apple II: a 6502 with the documented instructions, a
// Disk II with stepper motor, and the behaviour of the boot ROM's sector read
// routine ($C65C) and the monitor's WAIT ($FCA8).
package emu

import "fmt"

// CPU is a 6502 with 64 KiB of memory.
type CPU struct {
	A, X, Y, S, P byte
	PC            uint16
	M             [65536]byte
	IO            func(addr uint16) // soft switches $C000-$C0FF
}

const (
	fC = 1
	fZ = 2
	fI = 4
	fD = 8
	fB = 16
	fV = 64
	fN = 128
)

// Rd reads a byte.
func (c *CPU) Rd(a uint16) byte {
	if a >= 0xC000 && a < 0xC100 && c.IO != nil {
		c.IO(a)
	}
	return c.M[a]
}

// Wr writes a byte.
func (c *CPU) Wr(a uint16, v byte) {
	if a >= 0xC000 {
		if a < 0xC100 && c.IO != nil {
			c.IO(a)
		}
		return
	}
	c.M[a] = v
}

func (c *CPU) push(v byte) { c.M[0x100+uint16(c.S)] = v; c.S-- }
func (c *CPU) pop() byte   { c.S++; return c.M[0x100+uint16(c.S)] }

// Ret does what RTS does.
func (c *CPU) Ret() {
	l := uint16(c.pop())
	c.PC = (l | uint16(c.pop())<<8) + 1
}

func (c *CPU) nz(v byte) byte {
	c.P &^= fN | fZ
	if v == 0 {
		c.P |= fZ
	}
	c.P |= v & fN
	return v
}

func (c *CPU) flag(f byte, on bool) {
	if on {
		c.P |= f
	} else {
		c.P &^= f
	}
}

func (c *CPU) adc(v byte) {
	s := uint16(c.A) + uint16(v) + uint16(c.P&fC)
	c.flag(fV, (c.A^byte(s))&(v^byte(s))&0x80 != 0)
	c.flag(fC, s > 0xff)
	c.A = c.nz(byte(s))
}

func (c *CPU) cmp(r, v byte) {
	c.flag(fC, r >= v)
	c.nz(r - v)
}

// Step runs one instruction.
func (c *CPU) Step() error {
	op := c.M[c.PC]
	pc0 := c.PC
	c.PC++
	imm := func() uint16 { a := c.PC; c.PC++; return a }
	b := func() uint16 { v := c.M[c.PC]; c.PC++; return uint16(v) }
	abs := func() uint16 { l := b(); return l | b()<<8 }
	zpw := func(z byte) uint16 { return uint16(c.M[z]) | uint16(c.M[z+1])<<8 }

	branch := func(cond bool) {
		d := int8(b())
		if cond {
			c.PC = uint16(int(c.PC) + int(d))
		}
	}
	// operand address by the regular pattern of group 1 instructions
	g1 := func() uint16 {
		switch op & 0x1c {
		case 0x00:
			return zpw(byte(b()) + c.X)
		case 0x04:
			return b()
		case 0x08:
			return imm()
		case 0x0c:
			return abs()
		case 0x10:
			return zpw(byte(b())) + uint16(c.Y)
		case 0x14:
			return uint16(byte(b()) + c.X)
		case 0x18:
			return abs() + uint16(c.Y)
		}
		return abs() + uint16(c.X)
	}
	if op&3 == 1 && op != 0x89 {
		a := g1()
		switch op >> 5 {
		case 0:
			c.A = c.nz(c.A | c.Rd(a))
		case 1:
			c.A = c.nz(c.A & c.Rd(a))
		case 2:
			c.A = c.nz(c.A ^ c.Rd(a))
		case 3:
			c.adc(c.Rd(a))
		case 4:
			c.Wr(a, c.A)
		case 5:
			c.A = c.nz(c.Rd(a))
		case 6:
			c.cmp(c.A, c.Rd(a))
		case 7:
			c.adc(^c.Rd(a))
		}
		return nil
	}
	rmw := func(v byte) byte {
		var r byte
		switch op >> 5 {
		case 0: // ASL
			c.flag(fC, v&0x80 != 0)
			r = v << 1
		case 1: // ROL
			r = v<<1 | c.P&fC
			c.flag(fC, v&0x80 != 0)
		case 2: // LSR
			c.flag(fC, v&1 != 0)
			r = v >> 1
		case 3: // ROR
			r = v>>1 | (c.P&fC)<<7
			c.flag(fC, v&1 != 0)
		case 6:
			r = v - 1
		case 7:
			r = v + 1
		}
		return c.nz(r)
	}
	switch op {
	case 0x0a, 0x2a, 0x4a, 0x6a:
		c.A = rmw(c.A)
		return nil
	case 0x06, 0x26, 0x46, 0x66, 0xc6, 0xe6:
		a := b()
		c.Wr(a, rmw(c.Rd(a)))
		return nil
	case 0x16, 0x36, 0x56, 0x76, 0xd6, 0xf6:
		a := uint16(byte(b()) + c.X)
		c.Wr(a, rmw(c.Rd(a)))
		return nil
	case 0x0e, 0x2e, 0x4e, 0x6e, 0xce, 0xee:
		a := abs()
		c.Wr(a, rmw(c.Rd(a)))
		return nil
	case 0x1e, 0x3e, 0x5e, 0x7e, 0xde, 0xfe:
		a := abs() + uint16(c.X)
		c.Wr(a, rmw(c.Rd(a)))
		return nil
	}
	bit := func(v byte) {
		c.flag(fZ, c.A&v == 0)
		c.flag(fN, v&0x80 != 0)
		c.flag(fV, v&0x40 != 0)
	}
	switch op {
	case 0x10:
		branch(c.P&fN == 0)
	case 0x30:
		branch(c.P&fN != 0)
	case 0x50:
		branch(c.P&fV == 0)
	case 0x70:
		branch(c.P&fV != 0)
	case 0x90:
		branch(c.P&fC == 0)
	case 0xb0:
		branch(c.P&fC != 0)
	case 0xd0:
		branch(c.P&fZ == 0)
	case 0xf0:
		branch(c.P&fZ != 0)
	case 0x20:
		a := abs()
		r := c.PC - 1
		c.push(byte(r >> 8))
		c.push(byte(r))
		c.PC = a
	case 0x60:
		c.Ret()
	case 0x4c:
		c.PC = abs()
	case 0x6c:
		a := abs()
		c.PC = uint16(c.M[a]) | uint16(c.M[a&0xff00|(a+1)&0xff])<<8
	case 0x24:
		bit(c.Rd(b()))
	case 0x2c:
		bit(c.Rd(abs()))
	case 0x84:
		c.Wr(b(), c.Y)
	case 0x94:
		c.Wr(uint16(byte(b())+c.X), c.Y)
	case 0x8c:
		c.Wr(abs(), c.Y)
	case 0x86:
		c.Wr(b(), c.X)
	case 0x96:
		c.Wr(uint16(byte(b())+c.Y), c.X)
	case 0x8e:
		c.Wr(abs(), c.X)
	case 0xa0:
		c.Y = c.nz(c.M[imm()])
	case 0xa4:
		c.Y = c.nz(c.Rd(b()))
	case 0xb4:
		c.Y = c.nz(c.Rd(uint16(byte(b()) + c.X)))
	case 0xac:
		c.Y = c.nz(c.Rd(abs()))
	case 0xbc:
		c.Y = c.nz(c.Rd(abs() + uint16(c.X)))
	case 0xa2:
		c.X = c.nz(c.M[imm()])
	case 0xa6:
		c.X = c.nz(c.Rd(b()))
	case 0xb6:
		c.X = c.nz(c.Rd(uint16(byte(b()) + c.Y)))
	case 0xae:
		c.X = c.nz(c.Rd(abs()))
	case 0xbe:
		c.X = c.nz(c.Rd(abs() + uint16(c.Y)))
	case 0xc0:
		c.cmp(c.Y, c.M[imm()])
	case 0xc4:
		c.cmp(c.Y, c.Rd(b()))
	case 0xcc:
		c.cmp(c.Y, c.Rd(abs()))
	case 0xe0:
		c.cmp(c.X, c.M[imm()])
	case 0xe4:
		c.cmp(c.X, c.Rd(b()))
	case 0xec:
		c.cmp(c.X, c.Rd(abs()))
	case 0x88:
		c.Y = c.nz(c.Y - 1)
	case 0xc8:
		c.Y = c.nz(c.Y + 1)
	case 0xca:
		c.X = c.nz(c.X - 1)
	case 0xe8:
		c.X = c.nz(c.X + 1)
	case 0xaa:
		c.X = c.nz(c.A)
	case 0xa8:
		c.Y = c.nz(c.A)
	case 0x8a:
		c.A = c.nz(c.X)
	case 0x98:
		c.A = c.nz(c.Y)
	case 0xba:
		c.X = c.nz(c.S)
	case 0x9a:
		c.S = c.X
	case 0x48:
		c.push(c.A)
	case 0x68:
		c.A = c.nz(c.pop())
	case 0x08:
		c.push(c.P | fB | 32)
	case 0x28:
		c.P = c.pop()
	case 0x18:
		c.P &^= fC
	case 0x38:
		c.P |= fC
	case 0x58:
		c.P &^= fI
	case 0x78:
		c.P |= fI
	case 0xb8:
		c.P &^= fV
	case 0xd8:
		c.P &^= fD
	case 0xf8:
		c.P |= fD
	case 0xea:
	default:
		return fmt.Errorf("instruction %02X at $%04X", op, pc0)
	}
	return nil
}

// Boot is the outcome of booting a disk.
type Boot struct {
	CPU    *CPU
	Jump   uint16   // first address executed outside the boot code
	Reads  [][3]int // track, physical sector, page of every sector read
	Steps  int
	Tracks int // half-track steps of the head
}

// BootDisk boots from slot 6: phys returns physical sector s of track t.
// fill is the initial contents of memory.
func BootDisk(phys func(t, s int) []byte, fill byte) (*Boot, error) {
	c := &CPU{S: 0xf0}
	for i := range c.M {
		c.M[i] = fill
	}
	res := &Boot{CPU: c}
	half := 0           // head position in half tracks
	on := [4]bool{true} // the boot ROM leaves phase 0 on
	settle := func() {
		for k := 0; k < 4; k++ {
			cur := half & 3
			up, down := on[(cur+1)&3], on[(cur+3)&3]
			if on[cur] || up == down {
				return
			}
			if up {
				half++
			} else {
				half--
			}
			if half < 0 {
				half = 0
			}
			if half > 79 {
				half = 79
			}
			res.Tracks++
		}
	}
	c.IO = func(a uint16) {
		if a >= 0xC0E0 && a <= 0xC0E7 {
			on[(a>>1)&3] = a&1 == 1
		}
	}
	read := func() error {
		if half%2 != 0 {
			return fmt.Errorf("the head is between tracks (half track %d)", half)
		}
		t := half / 2
		if t >= 35 {
			return fmt.Errorf("the head is at track %d", t)
		}
		if int(c.M[0x41]) != t {
			return fmt.Errorf("looking for track %d while the head is at track %d: never found", c.M[0x41], t)
		}
		s := int(c.M[0x3D])
		if s >= 16 {
			return fmt.Errorf("looking for sector %d: never found", s)
		}
		page := c.M[0x27]
		for i, v := range phys(t, s) {
			c.Wr(uint16(c.M[0x26])+uint16(page)<<8+uint16(i), v)
		}
		res.Reads = append(res.Reads, [3]int{t, s, int(page)})
		c.M[0x40] = byte(t)
		c.M[0x27]++
		c.M[0x3D]++
		c.A = c.M[0x3D]
		c.Y = 0
		c.X = c.M[0x2B]
		c.P |= fC
		return nil
	}
	c.M[0x26], c.M[0x27], c.M[0x3D], c.M[0x41], c.M[0x2B] = 0, 8, 0, 0, 0x60
	for {
		if err := read(); err != nil {
			return res, err
		}
		if c.M[0x3D] >= c.M[0x800] {
			break
		}
	}
	c.PC = 0x801
	for ; res.Steps < 2000000; res.Steps++ {
		switch {
		case c.PC == 0xC65C:
			if err := read(); err != nil {
				return res, err
			}
			if c.M[0x3D] < c.M[0x800] {
				continue
			}
			c.PC = 0x801
		case c.PC == 0xFCA8:
			settle()
			c.A = 0
			c.P |= fZ | fC
			c.P &^= fN
			c.Ret()
		case c.PC >= 0x801 && c.PC <= 0x8FF:
			if err := c.Step(); err != nil {
				return res, err
			}
		default:
			res.Jump = c.PC
			return res, nil
		}
	}
	return res, fmt.Errorf("still booting after %d instructions, %d sectors read", res.Steps, len(res.Reads))
}
