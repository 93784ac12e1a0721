package egts

// ---- checksums

// VCrc8Byte is one byte of CRC-8, polynomial 0x31.
func VCrc8Byte(c byte) byte {
	for k := 0; k < 8; k++ {
		hi := c&0x80 != 0
		c <<= 1
		if hi {
			c ^= 0x31
		}
	}
	return c
}

//@ opaque
func VCrc8(b []byte) byte {
	c := byte(0xFF)
	for i := 0; i < len(b); i++ {
		c = VCrc8Byte(c ^ b[i])
	}
	return c
}

// VCrc16Byte is one byte of CRC-16/CCITT, polynomial 0x1021.
func VCrc16Byte(c uint16) uint16 {
	for k := 0; k < 8; k++ {
		hi := c&0x8000 != 0
		c <<= 1
		if hi {
			c ^= 0x1021
		}
	}
	return c
}

//@ opaque
func VCrc16(b []byte) uint16 {
	c := uint16(0xFFFF)
	for i := 0; i < len(b); i++ {
		c = VCrc16Byte(c ^ uint16(b[i])<<8)
	}
	return c
}

//@ bind vCodeCrc8 = crc8 func(b []byte) byte
//@ bind vCodeCrc16 = crc16 func(b []byte) uint16

//@ contract crc8
func vcCrc8(b []byte) byte { return VCrc8(b) }

//@ contract crc16
func vcCrc16(b []byte) uint16 { return VCrc16(b) }

func vGenAny() []byte { return []byte(vStr("bytes")) }

//@ harness props=C02,C04,C20 inline=crc8 reveal=VCrc8
func VHCrc8() {
	b := vBytes("data", vGenAny)
	vCover("reached")
	vSafety("C02")
	w := VCrc8(b)
	if vHave_vCodeCrc8 {
		vEnsure("C02,C04", "CRC-8 of the bytes", vCodeCrc8(b) == w)
	}
}

//@ harness props=C02,C04,C20 inline=crc16 reveal=VCrc16
func VHCrc16() {
	b := vBytes("data", vGenAny)
	vCover("reached")
	vSafety("C02")
	w := VCrc16(b)
	if vHave_vCodeCrc16 {
		vEnsure("C02,C04", "CRC-16 of the bytes", vCodeCrc16(b) == w)
	}
}

// ---- keys

// VKey is a key: what it does to the bytes is unknown to the proofs.
type VKey struct{}

//@ opaque
func VKeyDec(b []byte) ([]byte, bool) {
	if len(b) < 1 || b[0] != 0x5A {
		return nil, false
	}
	var r []byte
	for _, c := range b[1:] {
		r = append(r, c^0x33)
	}
	return r, true
}

//@ opaque
func VKeyEnc(b []byte) ([]byte, bool) {
	r := []byte{0x5A}
	for _, c := range b {
		r = append(r, c^0x33)
	}
	return r, len(b) < 1 || b[0] != 0x77
}

func (VKey) Decode(b []byte) ([]byte, error) {
	r, ok := VKeyDec(b)
	if !ok {
		return nil, vErr()
	}
	return r, nil
}

func (VKey) Encode(b []byte) ([]byte, error) {
	r, ok := VKeyEnc(b)
	if !ok {
		return nil, vErr()
	}
	return r, nil
}

// ---- packets

// VPkgPid is the packet number read from b, as far as it is there.
func VPkgPid(b []byte) uint16 {
	if len(b) < 9 {
		return 0
	}
	return vG16(b, 7)
}

//@ opaque
func VDecPkg(b []byte, key bool) (Package, uint8) {
	var p Package
	if len(b) < 11 {
		return p, 131
	}
	f := b[2]
	h := 11
	if f&32 != 0 {
		h = 16
	}
	if len(b) < h || int(b[3]) != h {
		return p, 131
	}
	if b[h-1] != VCrc8(b[:h-1]) {
		return p, 137
	}
	n := int(vG16(b, 5))
	if len(b)-h < n {
		return p, 132
	}
	p.ProtocolVersion = b[0]
	p.SecurityKeyID = b[1]
	p.Prefix = vBits2(f, 6)
	p.Route = vBit(f, 5)
	p.EncryptionAlg = vBits2(f, 3)
	p.Compression = vBit(f, 2)
	p.Priority = vBits2(f, 0)
	p.HeaderLength = b[3]
	p.HeaderEncoding = b[4]
	p.FrameDataLength = vG16(b, 5)
	p.PacketIdentifier = vG16(b, 7)
	p.PacketType = b[9]
	if h == 16 {
		p.PeerAddress = vG16(b, 10)
		p.RecipientAddress = vG16(b, 12)
		p.TimeToLive = b[14]
	}
	p.HeaderCheckSum = b[h-1]
	if b[9] > 1 {
		return p, 133
	}
	d := b[h : h+n]
	if f&24 != 0 {
		if !key {
			return p, 129
		}
		var ok bool
		if d, ok = VKeyDec(d); !ok {
			return p, 129
		}
	}
	if b[9] == 1 {
		r, ok := VDecRecords(d)
		if !ok {
			return p, 129
		}
		p.ServicesFrameData = &r
	} else {
		r, ok := VDecPtResp(d)
		if !ok {
			return p, 129
		}
		p.ServicesFrameData = &r
	}
	if len(b)-h-n < 2 {
		return p, 129
	}
	p.ServicesFrameDataCheckSum = vG16(b, h+n)
	if p.ServicesFrameDataCheckSum != VCrc16(b[h:h+n]) {
		return p, 138
	}
	return p, 0
}

// VPkgFacts are facts about decoded packets.
func VPkgFacts(b []byte) bool {
	w, code := VDecPkg(b, false)
	if len(b) < 11 && code == 0 {
		return false
	}
	if code != 0 {
		return true
	}
	if w.PacketIdentifier != VPkgPid(b) {
		return false
	}
	if w.PacketType == PtAppdataPacket {
		_, ok := w.ServicesFrameData.(*ServiceDataSet)
		return ok
	}
	_, ok := w.ServicesFrameData.(*PtResponse)
	return ok && w.PacketType == PtResponsePacket
}

//@ harness props=C16,C17,C18,C19 reveal=VDecPkg
func VHPkgFacts() {
	b := vBytes("content", VGenPkg)
	vCover("reached")
	vEnsure("", "what is known of decoded packets", VPkgFacts(b))
}

//@ contract (*Package).Decode
func vcDecPkg(p *Package, b []byte, opt ...func(*Options)) (uint8, error) {
	vRequire("", "decoded without a key", len(opt) == 0)
	vRequire("", "decoded into a fresh packet", vEq(*p, Package{}))
	w, code := VDecPkg(b, false)
	if code != 0 {
		vHavoc(p)
		p.PacketIdentifier = VPkgPid(b)
		return code, vErr()
	}
	*p = w
	return code, nil
}

//@ harness props=C02,C03,C23,C01,C14,C18,C20 inline=(*Package).Decode reveal=VDecPkg
func VHPkgDecode() {
	b := vBytes("content", VGenPkg)
	vSafety("C01,C03")
	vTerminates(true)
	key := vBool("key")
	w, code := VDecPkg(b, key)
	var p Package
	var got uint8
	var err error
	if key {
		got, err = p.Decode(b, func(o *Options) { o.Secret = VKey{} })
	} else {
		got, err = p.Decode(b)
	}
	vCover("decode returns")
	vEnsure("C02,C03,C14,C23", "the result code names the stage that failed", got == code)
	vEnsure("C02,C03,C14", "an error is returned exactly with a non-zero code", (err != nil) == (code != 0))
	vEnsure("C18", "the packet number is read also from refused packets", p.PacketIdentifier == VPkgPid(b))
	if code == 0 {
		vCover("accepted")
		vSame("C03,C23", "the packet", p, w)
	}
}

func VGenPkg() []byte {
	d := VGenRecords()
	t := byte(1)
	if vU8("type")%3 == 0 {
		t = 0
		d = append(vP8(vP16(nil, vU16("rpid")), vU8("pr")), d...)
	}
	f := vU8("flags") & 0xC7
	if vU8("odd")%8 == 0 {
		d, _ = VKeyEnc(d)
		f |= 8
	}
	if vU8("odd")%8 == 0 {
		f |= 32
	}
	if vU8("odd")%16 == 0 {
		t = vU8("type")
	}
	if len(d) > 60000 {
		d = nil
	}
	h := byte(11)
	if f&32 != 0 {
		h = 16
	}
	b := []byte{1, vU8("skid"), f, h, vU8("he")}
	b = vP16(vP16(b, uint16(len(d))), vU16("pid"))
	b = vP8(b, t)
	if f&32 != 0 {
		b = vP8(vP16(vP16(b, vU16("pra")), vU16("rca")), vU8("ttl"))
	}
	b = vP8(b, VCrc8(b))
	if vU8("odd")%16 == 0 {
		b[int(vU8("at"))%len(b)]++
	}
	b = append(b, d...)
	return vP16(b, VCrc16(d))
}

// ---- response bodies

//@ opaque
func VDecPtResp(b []byte) (PtResponse, bool) {
	c := vCursor(b)
	var s PtResponse
	s.ResponsePacketID = c.u16()
	s.ProcessingResult = c.u8()
	if !c.ok {
		return s, false
	}
	if len(b) > 3 {
		r, ok := VDecRecords(b[3:])
		if !ok {
			return s, false
		}
		s.SDR = &r
	}
	return s, true
}

func VGenPtResp() []byte {
	return append(vP8(vP16(nil, vU16("rpid")), vU8("pr")), VGenRecords()...)
}

//@ contract (*PtResponse).Decode
func vcDecPtResp(r *PtResponse, b []byte) error {
	vRequire("", "decoded into a fresh response", vEq(*r, PtResponse{}))
	w, ok := VDecPtResp(b)
	if !ok {
		vHavoc(r)
		return vErr()
	}
	*r = w
	return nil
}

//@ harness props=C12,C14,C01,C20 inline=(*PtResponse).Decode reveal=VDecPtResp
func VHPtRespDecode() {
	b := vBytes("content", VGenPtResp)
	vSafety("C01,C12")
	vTerminates(true)
	vDepth = len(b)
	var s PtResponse
	err := s.Decode(b)
	w, ok := VDecPtResp(b)
	vCover("decode returns")
	vEnsure("C14,C12", "a response body is accepted exactly when it is complete and readable", (err == nil) == ok)
	if ok {
		vCover("accepted")
		vSame("C12", "the response", s, w)
	}
}
