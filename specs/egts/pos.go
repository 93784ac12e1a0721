package egts

import "time"

// ---- EGTS_SR_POS_DATA

const vEpoch = 1262304000 // 2010-01-01T00:00:00Z

func vTimeOf(raw uint32) time.Time { return time.Unix(vEpoch+int64(raw), 0).UTC() }

// Degrees are specified up to the floating-point rounding of the code: VPosLat and VPosLon stand for
// the values the code computes, which the decode harness proves to be within 1e-9 of the exact ones.
//@ opaque
func VPosLat(b []byte) float64 {
	c := vCur{b, 4, true}
	return float64(c.u32()) * 90 / 0xFFFFFFFF
}

//@ opaque
func VPosLon(b []byte) float64 {
	c := vCur{b, 8, true}
	return float64(c.u32()) * 180 / 0xFFFFFFFF
}

// VRawLat and VRawLon stand for the coordinates the code puts on the wire, which the encode harness
// proves to be within two units of the exact ones.
//@ opaque
func VRawLat(s SrPosData) uint32 { return uint32(s.Latitude / 90 * 0xFFFFFFFF) }

//@ opaque
func VRawLon(s SrPosData) uint32 { return uint32(s.Longitude / 180 * 0xFFFFFFFF) }

func vAbs(x float64) float64 {
	if x < 0 {
		return -x
	}
	return x
}

func vNearDeg(deg float64, raw uint32, max, tol float64) bool {
	return vAbs(deg*0xFFFFFFFF-float64(raw)*max) <= tol*0xFFFFFFFF
}

const vUnit2 = 2.0 / 0xFFFFFFFF

func vRaw32(b []byte, i int) uint32 {
	return uint32(b[i]) | uint32(b[i+1])<<8 | uint32(b[i+2])<<16 | uint32(b[i+3])<<24
}

//@ opaque
func VEncPos(s SrPosData) []byte {
	b := vP32(nil, uint32(s.NavigationTime.Unix()-vEpoch))
	b = vP32(b, VRawLat(s))
	b = vP32(b, VRawLon(s))
	return append(b, vPosTail(s)...)
}

// vPosTail is everything behind the coordinates.
func vPosTail(s SrPosData) []byte {
	b := vP8(nil, vFlagBit(s.VLD, 0)|vFlagBit(s.FIX, 1)|vFlagBit(s.CS, 2)|vFlagBit(s.BB, 3)|
		vFlagBit(s.MV, 4)|vFlagBit(s.LAHS, 5)|vFlagBit(s.LOHS, 6)|vFlagBit(s.ALTE, 7))
	b = vP16(b, s.Speed*10|uint16(s.AltitudeSign)<<14|uint16(s.DirectionHighestBit)<<15)
	b = vP8(b, s.Direction&^(s.DirectionHighestBit<<7))
	b = vP24(b, s.Odometer)
	b = vP8(vP8(b, s.DigitalInputs), s.Source)
	return vOpt24(b, s.ALTE, s.Altitude)
}

//@ opaque
func VDecPos(b []byte) (SrPosData, bool) {
	c := vCursor(b)
	var s SrPosData
	s.NavigationTime = vTimeOf(c.u32())
	c.u32()
	c.u32()
	s.Latitude = VPosLat(b)
	s.Longitude = VPosLon(b)
	f := c.u8()
	s.VLD = vBit(f, 0)
	s.FIX = vBit(f, 1)
	s.CS = vBit(f, 2)
	s.BB = vBit(f, 3)
	s.MV = vBit(f, 4)
	s.LAHS = vBit(f, 5)
	s.LOHS = vBit(f, 6)
	s.ALTE = vBit(f, 7)
	w := c.u16()
	s.Speed = w & 0x3FFF / 10
	s.AltitudeSign = uint8(w >> 14 & 1)
	s.DirectionHighestBit = uint8(w >> 15)
	s.Direction = c.u8() | s.DirectionHighestBit<<7
	s.Odometer = c.u24()
	s.DigitalInputs = c.u8()
	s.Source = c.u8()
	s.Altitude = c.opt24(s.ALTE)
	return s, c.ok
}

func VWfPos(s SrPosData) bool {
	t := s.NavigationTime.Unix() - vEpoch
	return vOkFlag(s.VLD, 1) && vOkFlag(s.FIX, 1) && vOkFlag(s.CS, 1) && vOkFlag(s.BB, 1) && vOkFlag(s.MV, 1) &&
		vOkFlag(s.LAHS, 1) && vOkFlag(s.LOHS, 1) && vOkFlag(s.ALTE, 1) &&
		s.Latitude >= 0 && s.Latitude <= 90 && s.Longitude >= 0 && s.Longitude <= 180 && t >= 0 && t <= 0xFFFFFFFF &&
		s.Speed <= 1638 && s.AltitudeSign < 2 && s.DirectionHighestBit < 2 && (s.DirectionHighestBit == 0 || s.Direction >= 128)
}

func VMkPos() SrPosData {
	s := SrPosData{NavigationTime: vTime("ntm"), Latitude: vF64("lat", 0, 90), Longitude: vF64("long", 0, 180),
		ALTE: vFlag("alte", 1), LOHS: vFlag("lohs", 1), LAHS: vFlag("lahs", 1), MV: vFlag("mv", 1), BB: vFlag("bb", 1),
		CS: vFlag("cs", 1), FIX: vFlag("fix", 1), VLD: vFlag("vld", 1), DirectionHighestBit: vU8("dirh") & 1,
		AltitudeSign: vU8("alts") & 1, Speed: vU16("spd"), Direction: vU8("dir"), Odometer: vU32("odm"),
		DigitalInputs: vU8("din"), Source: vU8("src"), Altitude: vU32("alt")}
	s.Direction |= s.DirectionHighestBit << 7
	vAssume(s.Speed <= 1638)
	return s
}

func VGenPos() []byte { return VEncPos(VMkPos()) }

//@ contract (*SrPosData).Decode
func vcDecPos(r *SrPosData, b []byte) error {
	vRequire("", "decoded into a fresh SrPosData", vEq(*r, SrPosData{}))
	w, ok := VDecPos(b)
	if !ok {
		vHavoc(r)
		return vErr()
	}
	*r = w
	return nil
}

//@ contract (*SrPosData).Encode
func vcEncPos(r *SrPosData) ([]byte, error) {
	vRequire("", "encoded SrPosData is well-formed", VWfPos(*r))
	return VEncPos(*r), nil
}

//@ contract (*SrPosData).Length
func vcLenPos(r *SrPosData) uint16 {
	vRequire("", "measured SrPosData is well-formed", VWfPos(*r))
	return uint16(len(VEncPos(*r)))
}

//@ harness props=C08,C14,C01,C20 inline=(*SrPosData).Decode reveal=VDecPos
func VHPosDecode() {
	b := vBytes("content", VGenPos)
	vSafety("C01,C08")
	vTerminates(true)
	var s SrPosData
	err := s.Decode(b)
	w, ok := VDecPos(b)
	vCover("decode returns")
	vEnsure("C14,C08", "SrPosData is accepted exactly when it is complete", (err == nil) == ok)
	if ok {
		vCover("accepted")
		vEnsure("C08", "latitude is raw*90/0xFFFFFFFF", vNearDeg(s.Latitude, vRaw32(b, 4), 90, 1e-9))
		vEnsure("C08", "longitude is raw*180/0xFFFFFFFF", vNearDeg(s.Longitude, vRaw32(b, 8), 180, 1e-9))
		s.Latitude, s.Longitude = w.Latitude, w.Longitude
		vSame("C08", "SrPosData", s, w)
	}
}

//@ harness props=C09,C20,C13 inline=(*SrPosData).Encode,(*SrPosData).Length
func VHPosEncode() {
	s := VMkPos()
	vSafety("C09")
	in := s
	got, err := s.Encode()
	vSame("C20", "the value is unchanged", s, in)
	vEnsure("C09", "SrPosData can be encoded", err == nil)
	tail := vPosTail(s)
	vEnsure("C09", "size of SrPosData", len(got) == 12+len(tail))
	vSame("C09", "time of SrPosData", got[:4], vP32(nil, uint32(s.NavigationTime.Unix()-vEpoch)))
	vEnsure("C09", "latitude within two units", vNearDeg(s.Latitude, vRaw32(got, 4), 90, 90*vUnit2))
	vEnsure("C09", "longitude within two units", vNearDeg(s.Longitude, vRaw32(got, 8), 180, 180*vUnit2))
	vSame("C09", "rest of SrPosData", got[12:], tail)
	vEnsure("C13", "length of SrPosData", int(s.Length()) == len(got))
	vCover("encoded")
}

// The round trip follows from the contracts of both directions.
//@ harness props=C09 reveal=VEncPos,VDecPos
func VHPosRoundTrip() {
	s := VMkPos()
	b, err := s.Encode()
	vEnsure("C09", "encodes", err == nil)
	var r SrPosData
	err = r.Decode(b)
	vEnsure("C09", "decodes back", err == nil)
	if err != nil {
		return
	}
	vCover("round trip")
	// what the encode and decode harnesses prove about the coordinates
	vAssume(vNearDeg(s.Latitude, VRawLat(s), 90, 90*vUnit2) && vNearDeg(s.Longitude, VRawLon(s), 180, 180*vUnit2))
	vAssume(vNearDeg(VPosLat(b), vRaw32(b, 4), 90, 1e-9) && vNearDeg(VPosLon(b), vRaw32(b, 8), 180, 1e-9))
	vEnsure("C09", "latitude survives", vAbs(r.Latitude-s.Latitude) < 1e-7)
	vEnsure("C09", "longitude survives", vAbs(r.Longitude-s.Longitude) < 1e-7)
	r.Latitude, r.Longitude = s.Latitude, s.Longitude
	if s.ALTE != "1" {
		s.Altitude = 0
	}
	s.Altitude &= 0xFFFFFF
	s.Odometer &= 0xFFFFFF
	vSame("C09", "round trip of SrPosData", r, s)
	vCover("compared")
}
