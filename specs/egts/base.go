package egts

// Common vocabulary of the wire format.

// vCur walks over the bytes of one layout; ok turns false when the input ends early.
type vCur struct {
	b  []byte
	i  int
	ok bool
}

func vCursor(b []byte) *vCur { return &vCur{b, 0, true} }

// take moves over n bytes; it says whether they are there.
func (c *vCur) take(n int) bool {
	c.i += n
	c.ok = c.ok && c.i <= len(c.b)
	return c.ok
}

func (c *vCur) u8() byte {
	if !c.take(1) {
		return 0
	}
	return c.b[c.i-1]
}

func (c *vCur) u16() uint16 {
	if !c.take(2) {
		return 0
	}
	return uint16(c.b[c.i-2]) | uint16(c.b[c.i-1])<<8
}

func (c *vCur) u24() uint32 {
	if !c.take(3) {
		return 0
	}
	return uint32(c.b[c.i-3]) | uint32(c.b[c.i-2])<<8 | uint32(c.b[c.i-1])<<16
}

func (c *vCur) u32() uint32 {
	if !c.take(4) {
		return 0
	}
	return uint32(c.b[c.i-4]) | uint32(c.b[c.i-3])<<8 | uint32(c.b[c.i-2])<<16 | uint32(c.b[c.i-1])<<24
}

func (c *vCur) str(n int) string {
	if !c.take(n) {
		return ""
	}
	return string(c.b[c.i-n : c.i])
}

func vG16(b []byte, i int) uint16 { return uint16(b[i]) | uint16(b[i+1])<<8 }
func vG32(b []byte, i int) uint32 {
	return uint32(b[i]) | uint32(b[i+1])<<8 | uint32(b[i+2])<<16 | uint32(b[i+3])<<24
}

func vP8(b []byte, v byte) []byte    { return append(b, v) }
func vP16(b []byte, v uint16) []byte { return append(b, byte(v), byte(v>>8)) }
func vP24(b []byte, v uint32) []byte { return append(b, byte(v), byte(v>>8), byte(v>>16)) }
func vP32(b []byte, v uint32) []byte {
	return append(b, byte(v), byte(v>>8), byte(v>>16), byte(v>>24))
}

// vBit is bit i of f as text.
func vBit(f byte, i uint) string { return string([]byte{'0' | f>>i&1}) }

// vBits2 are bits i+1 and i of f as text.
func vBits2(f byte, i uint) string { return string([]byte{'0' | f>>(i+1)&1, '0' | f>>i&1}) }

// vFlagBit is the bit a one-character flag stands for, at position i.
func vFlagBit(s string, i uint) byte { return s[0] & 1 << i }

// vOkFlag says that s is n characters 0 or 1.
func vOkFlag(s string, n int) bool {
	if len(s) != n {
		return false
	}
	for i := 0; i < n; i++ {
		if s[i]|1 != '1' {
			return false
		}
	}
	return true
}
