package egts

// ---- encoding of subrecord content, whatever it is

// VEncB is the encoding of a body or subrecord content.
//@ opaque-if-symbolic
func VEncB(d BinaryData) ([]byte, bool) {
	switch s := d.(type) {
	case *SrResponse:
		return VEncResp(*s), true
	case *SrTermIdentity:
		return VEncTermId(*s), true
	case *SrModuleData:
		return VEncModule(*s), true
	case *SrDispatcherIdentity:
		return VEncDisp(*s), true
	case *SrAuthInfo:
		return VEncAuth(*s), true
	case *SrResultCode:
		return VEncResult(*s), true
	case *SrPosData:
		return VEncPos(*s), true
	case *SrExtPosData:
		return VEncExtPos(*s), true
	case *SrAdSensorsData:
		return VEncAdSens(*s), true
	case *SrCountersData:
		return VEncCounters(*s), true
	case *SrStateData:
		return VEncState(*s), true
	case *SrAbsAnSensData:
		return VEncAbsAn(*s), true
	case *SrAbsCntrData:
		return VEncAbsCntr(*s), true
	case *SrLiquidLevelSensor:
		return VEncLiquid(*s), true
	case *StorageRecord:
		return VEncPlus(s)
	case *RecordDataSet:
		return VEncSubs(*s)
	case *ServiceDataSet:
		return VEncRecords(*s)
	case *PtResponse:
		return VEncPtResp(*s)
	}
	return nil, false
}

// VLenB is the length reported for a body or subrecord content.
func VLenB(d BinaryData) uint16 {
	b, ok := VEncB(d)
	if !ok {
		return 0
	}
	return uint16(len(b))
}

//@ opaque
func VEncPlus(s *StorageRecord) ([]byte, bool) {
	b, err := s.Encode()
	return b, err == nil
}

//@ contract (*StorageRecord).Encode
func vcEncPlus(s *StorageRecord) ([]byte, error) { return vRes(VEncPlus(s)) }

//@ contract (*StorageRecord).Length
func vcLenPlus(s *StorageRecord) uint16 {
	b, ok := VEncPlus(s)
	if !ok {
		return 0
	}
	return uint16(len(b))
}

//@ icontract BinaryData.Encode
func vcEncB(d BinaryData) ([]byte, error) { return vRes(VEncB(d)) }

//@ icontract BinaryData.Length
func vcLenB(d BinaryData) uint16 { return VLenB(d) }

func vRes(b []byte, ok bool) ([]byte, error) {
	if !ok {
		return nil, vErr()
	}
	return b, nil
}

// VTypeOf is the subrecord type of content.
func VTypeOf(d BinaryData) (byte, bool) {
	switch d.(type) {
	case *SrResponse:
		return 0, true
	case *SrTermIdentity:
		return 1, true
	case *SrModuleData:
		return 2, true
	case *SrDispatcherIdentity:
		return 5, true
	case *SrAuthInfo:
		return 7, true
	case *SrResultCode:
		return 9, true
	case *StorageRecord:
		return 15, true
	case *SrPosData:
		return 16, true
	case *SrExtPosData:
		return 17, true
	case *SrAdSensorsData:
		return 18, true
	case *SrCountersData:
		return 19, true
	case *SrStateData:
		return 21, true
	case *SrAbsAnSensData:
		return 24, true
	case *SrAbsCntrData:
		return 25, true
	case *SrLiquidLevelSensor:
		return 27, true
	}
	return 0, false
}

// ---- subrecord sets

//@ opaque
func VEncSubs(s RecordDataSet) ([]byte, bool) {
	var r []byte
	for i := 0; i < len(s); i++ {
		t := s[i].SubrecordType
		if t == 0 {
			var ok bool
			if t, ok = VTypeOf(s[i].SubrecordData); !ok {
				return nil, false
			}
		}
		n := s[i].SubrecordLength
		if n == 0 {
			n = VLenB(s[i].SubrecordData)
		}
		d, ok := VEncB(s[i].SubrecordData)
		if !ok {
			return nil, false
		}
		r = append(vP16(vP8(r, t), n), d...)
	}
	return r, true
}

func VWfSub(d RecordData) bool { return d.SubrecordData != nil }

func VMkB() BinaryData {
	switch vU8("type") % 15 {
	case 0:
		s := VMkResp()
		return &s
	case 1:
		s := VMkTermId()
		return &s
	case 2:
		s := VMkModule()
		return &s
	case 3:
		s := VMkDisp()
		return &s
	case 4:
		s := VMkAuth()
		return &s
	case 5:
		s := VMkResult()
		return &s
	case 6:
		s := VMkPos()
		return &s
	case 7:
		s := VMkExtPos()
		return &s
	case 8:
		s := VMkAdSens()
		return &s
	case 9:
		s := VMkCounters()
		return &s
	case 10:
		s := VMkState()
		return &s
	case 11:
		s := VMkAbsAn()
		return &s
	case 12:
		s := VMkAbsCntr()
		return &s
	case 13:
		s := VMkLiquid()
		return &s
	}
	r := ServiceDataSet{}
	return &r
}

func VMkSubs() RecordDataSet {
	var s RecordDataSet
	for n := int(vU8("subrecords")) % 4; n > 0; n-- {
		d := RecordData{SubrecordData: VMkB()}
		if vU8("odd")%4 == 0 {
			d.SubrecordType = vU8("type")
		}
		if vU8("odd")%8 == 0 {
			d.SubrecordLength = vU16("length")
		}
		s = append(s, d)
	}
	return s
}

//@ contract (*RecordDataSet).Encode
func vcEncSubs(s *RecordDataSet) ([]byte, error) { return vRes(VEncSubs(*s)) }

//@ contract (*RecordDataSet).Length
func vcLenSubs(s *RecordDataSet) uint16 { return VLenSubs(*s) }

// VLenSubs is the length of an encoded set.
func VLenSubs(s RecordDataSet) uint16 {
	b, ok := VEncSubs(s)
	if !ok {
		return 0
	}
	return uint16(len(b))
}

//@ harness props=C07,C13,C20 inline=(*RecordDataSet).Encode reveal=VEncSubs
func VHSubsEncode() {
	var s RecordDataSet
	vSymGen("set", &s, func() { s = VMkSubs() })
	vEach(s, VWfSub)
	vSafety("C07")
	in := append(RecordDataSet{}, s...)
	w, ok := VEncSubs(s)
	got, err := s.Encode()
	vCover("encoded")
	vSame("C20", "the set is unchanged", s, in)
	vEnsure("C07", "a set is encoded exactly when its elements are", (err == nil) == ok)
	if ok {
		vCover("success")
		vSame("C07", "the encoding of the set", got, w)
	}
}

//@ harness props=C13,C20 inline=(*RecordDataSet).Length
func VHSubsLength() {
	var s RecordDataSet
	vSymGen("set", &s, func() { s = VMkSubs() })
	w, ok := VEncSubs(s)
	n := s.Length()
	vCover("measured")
	vEnsure("C13", "length of a subrecord set", !ok || len(w) >= 65536 || int(n) == len(w))
}

// ---- record sets

//@ opaque
func VEncRecords(s ServiceDataSet) ([]byte, bool) {
	var r []byte
	for i := 0; i < len(s); i++ {
		d, ok := VEncSubs(s[i].RecordDataSet)
		if !ok {
			return nil, false
		}
		h := VEncRecordHead(s[i], uint16(len(d)))
		r = append(append(r, h...), d...)
	}
	return r, true
}

// VEncRecordHead is the record header of s for n bytes of data.
func VEncRecordHead(s ServiceDataRecord, n uint16) []byte {
	if s.RecordLength != 0 {
		n = s.RecordLength
	}
	r := vP16(vP16(nil, n), s.RecordNumber)
	p := s.RecordProcessingPriority
	r = vP8(r, vFlagBit(s.SourceServiceOnDevice, 7)|vFlagBit(s.RecipientServiceOnDevice, 6)|vFlagBit(s.Group, 5)|
		vFlagBit(p, 4)|vFlagBit(p[1:], 3)|
		vFlagBit(s.TimeFieldExists, 2)|vFlagBit(s.EventIDFieldExists, 1)|vFlagBit(s.ObjectIDFieldExists, 0))
	if s.ObjectIDFieldExists == "1" {
		r = vP32(r, s.ObjectIdentifier)
	}
	if s.EventIDFieldExists == "1" {
		r = vP32(r, s.EventIdentifier)
	}
	if s.TimeFieldExists == "1" {
		r = vP32(r, uint32(s.Time.Unix()-vStart.Unix()))
	}
	return vP8(vP8(r, s.SourceServiceType), s.RecipientServiceType)
}

func VWfRecord(s ServiceDataRecord) bool {
	return vOkFlag(s.SourceServiceOnDevice, 1) && vOkFlag(s.RecipientServiceOnDevice, 1) && vOkFlag(s.Group, 1) &&
		vOkFlag(s.RecordProcessingPriority, 2) && vOkFlag(s.TimeFieldExists, 1) &&
		vOkFlag(s.EventIDFieldExists, 1) && vOkFlag(s.ObjectIDFieldExists, 1)
}

func VMkRecord() ServiceDataRecord {
	s := ServiceDataRecord{
		RecordNumber:             vU16("rn"),
		SourceServiceOnDevice:    vFlag("ssod", 1),
		RecipientServiceOnDevice: vFlag("rsod", 1),
		Group:                    vFlag("grp", 1),
		RecordProcessingPriority: vFlag("rpp", 2),
		TimeFieldExists:          vFlag("tmfe", 1),
		EventIDFieldExists:       vFlag("evfe", 1),
		ObjectIDFieldExists:      vFlag("obfe", 1),
		ObjectIdentifier:         vU32("oid"),
		EventIdentifier:          vU32("evid"),
		Time:                     vTime("tm"),
		SourceServiceType:        vU8("sst"),
		RecipientServiceType:     vU8("rst"),
		RecordDataSet:            VMkSubs(),
	}
	if vU8("odd")%8 == 0 {
		s.RecordLength = vU16("length")
	}
	return s
}

func VMkRecords() ServiceDataSet {
	var s ServiceDataSet
	for n := int(vU8("records")) % 4; n > 0; n-- {
		s = append(s, VMkRecord())
	}
	return s
}

//@ contract (*ServiceDataSet).Encode
func vcEncRecords(s *ServiceDataSet) ([]byte, error) { return vRes(VEncRecords(*s)) }

//@ contract (*ServiceDataSet).Length
func vcLenRecords(s *ServiceDataSet) uint16 {
	b, ok := VEncRecords(*s)
	if !ok {
		return 0
	}
	return uint16(len(b))
}

//@ harness props=C07,C13,C20 inline=(*ServiceDataSet).Encode reveal=VEncRecords
func VHRecordsEncode() {
	var s ServiceDataSet
	vSymGen("set", &s, func() { s = VMkRecords() })
	vEach(s, VWfRecord)
	vSafety("C07")
	in := append(ServiceDataSet{}, s...)
	w, ok := VEncRecords(s)
	got, err := s.Encode()
	vCover("encoded")
	vSame("C20", "the set is unchanged", s, in)
	vEnsure("C07", "a set is encoded exactly when its records are", (err == nil) == ok)
	if ok {
		vCover("success")
		vSame("C07", "the encoding of the set", got, w)
	}
}

//@ harness props=C13,C20 inline=(*ServiceDataSet).Length
func VHRecordsLength() {
	var s ServiceDataSet
	vSymGen("set", &s, func() { s = VMkRecords() })
	w, ok := VEncRecords(s)
	n := s.Length()
	vCover("measured")
	vEnsure("C13", "length of a record set", !ok || len(w) >= 65536 || int(n) == len(w))
}

// ---- response bodies

//@ opaque
func VEncPtResp(s PtResponse) ([]byte, bool) {
	r := vP8(vP16(nil, s.ResponsePacketID), s.ProcessingResult)
	if s.SDR != nil {
		d, ok := VEncB(s.SDR)
		if !ok {
			return nil, false
		}
		r = append(r, d...)
	}
	return r, true
}

func VMkPtResp() PtResponse {
	s := PtResponse{ResponsePacketID: vU16("rpid"), ProcessingResult: vU8("pr")}
	if vBool("sdr") {
		r := VMkRecords()
		s.SDR = &r
	}
	return s
}

//@ contract (*PtResponse).Encode
func vcEncPtResp(s *PtResponse) ([]byte, error) { return vRes(VEncPtResp(*s)) }

//@ contract (*PtResponse).Length
func vcLenPtResp(s *PtResponse) uint16 {
	b, ok := VEncPtResp(*s)
	if !ok {
		return 0
	}
	return uint16(len(b))
}

//@ harness props=C12,C13,C20 inline=(*PtResponse).Encode,(*PtResponse).Length reveal=VEncPtResp,VDecPtResp
func VHPtRespEncode() {
	var s PtResponse
	vSymGen("response", &s, func() { s = VMkPtResp() })
	vSafety("C12")
	in := s
	w, ok := VEncPtResp(s)
	got, err := s.Encode()
	vCover("encoded")
	vSame("C20", "the value is unchanged", s, in)
	vEnsure("C12", "a response is encoded exactly when its records are", (err == nil) == ok)
	if ok {
		vCover("success")
		vSame("C12", "the encoding of the response", got, w)
		n := s.Length()
		vEnsure("C13", "length of a response", len(w) >= 65536 || int(n) == len(w))
		if s.SDR == nil {
			r, good := VDecPtResp(w)
			vEnsure("C12", "the response decodes back", good)
			vSame("C12", "round trip of the response", r, s)
		}
	}
}

// ---- packets

// VPkgHead is the header of p for n bytes of body.
func VPkgHead(p Package, n uint16) []byte {
	h := p.HeaderLength
	if h == 0 {
		h = 11
		if p.Route == "1" {
			h = 16
		}
	}
	f := vFlagBit(p.Prefix, 7) | vFlagBit(p.Prefix[1:], 6) | vFlagBit(p.Route, 5) | vFlagBit(p.EncryptionAlg, 4) | vFlagBit(p.EncryptionAlg[1:], 3) |
		vFlagBit(p.Compression, 2) | vFlagBit(p.Priority, 1) | vFlagBit(p.Priority[1:], 0)
	r := []byte{p.ProtocolVersion, p.SecurityKeyID, f, h, p.HeaderEncoding}
	r = vP8(vP16(vP16(r, n), p.PacketIdentifier), p.PacketType)
	if p.Route == "1" {
		r = vP8(vP16(vP16(r, p.PeerAddress), p.RecipientAddress), p.TimeToLive)
	}
	return vP8(r, VCrc8(r))
}

// VPkgBody is the body of p as sent.
func VPkgBody(p Package, key bool) ([]byte, bool) {
	if p.ServicesFrameData == nil {
		return nil, true
	}
	d, ok := VEncB(p.ServicesFrameData)
	if !ok {
		return nil, false
	}
	if p.EncryptionAlg != "00" {
		if !key {
			return nil, false
		}
		if d, ok = VKeyEnc(d); !ok {
			return nil, false
		}
	}
	return d, len(d) < 65536
}

// VEncPkg is p as sent; the length field is worked out.
func VEncPkg(p Package, key bool) ([]byte, bool) {
	p.FrameDataLength = 0
	return VEncPkg0(p, key)
}

//@ opaque
func VEncPkg0(p Package, key bool) ([]byte, bool) {
	d, ok := VPkgBody(p, key)
	if !ok {
		return nil, false
	}
	r := VPkgHead(p, uint16(len(d)))
	if len(d) > 0 {
		r = vP16(append(r, d...), VCrc16(d))
	}
	return r, true
}

//@ contract (*Package).Encode
func vcEncPkg(p *Package, opt ...func(*Options)) ([]byte, error) {
	vRequire("", "encoded without a key", len(opt) == 0)
	vRequire("", "flags are texts of 0 and 1", VWfPkg(*p))
	b, ok := VEncPkg(*p, false)
	vHavoc(&p.HeaderLength)
	vHavoc(&p.FrameDataLength)
	return vRes(b, ok)
}

func VWfPkg(p Package) bool {
	return vOkFlag(p.Prefix, 2) && vOkFlag(p.Route, 1) && vOkFlag(p.EncryptionAlg, 2) && vOkFlag(p.Compression, 1) && vOkFlag(p.Priority, 2)
}

func VMkPkg() Package {
	p := Package{
		ProtocolVersion: vU8("prv"), SecurityKeyID: vU8("skid"),
		Prefix: vFlag("prf", 2), Route: vFlag("rte", 1), EncryptionAlg: vFlag("ena", 2), Compression: vFlag("cmp", 1), Priority: vFlag("pr", 2),
		HeaderEncoding: vU8("he"), PacketIdentifier: vU16("pid"), PacketType: vU8("pt") % 2,
		PeerAddress: vU16("pra"), RecipientAddress: vU16("rca"), TimeToLive: vU8("ttl"),
	}
	if vU8("odd")%4 == 0 {
		p.HeaderLength = vU8("hl")
	}
	if vU8("odd")%2 == 0 {
		p.EncryptionAlg = "00"
	}
	if vU8("odd")%4 != 0 {
		if p.PacketType == 1 {
			r := VMkRecords()
			p.ServicesFrameData = &r
		} else {
			r := VMkPtResp()
			p.ServicesFrameData = &r
		}
	}
	return p
}

//@ harness props=C04,C23,C20 inline=(*Package).Encode reveal=VEncPkg0
func VHPkgEncode() {
	var p Package
	vSymGen("packet", &p, func() { p = VMkPkg() })
	vAssume(VWfPkg(p))
	vSafety("C04")
	key := vBool("key")
	in := p
	w, ok := VEncPkg(p, key)
	var got []byte
	var err error
	if key {
		got, err = p.Encode(func(o *Options) { o.Secret = VKey{} })
	} else {
		got, err = p.Encode()
	}
	vCover("encoded")
	vEnsure("C04,C23", "a packet is encoded exactly when its body is, has its key and fits", (err == nil) == ok)
	if ok {
		vCover("success")
		vSame("C04,C23", "the encoding of the packet", got, w)
		d, _ := VPkgBody(in, key)
		vEnsure("C04", "the body length is noted in the packet", int(p.FrameDataLength) == len(d))
	}
	p.HeaderLength = in.HeaderLength
	p.FrameDataLength = in.FrameDataLength
	vSame("C20", "nothing else of the packet changes", p, in)
}

// Every header field and the body bytes come back from an encoded packet.
//@ harness props=C04 reveal=VEncPkg0,VDecPkg
func VHPkgRoundTrip() { vPkgRoundTrip("0", 11, "00") }

//@ harness props=C04 reveal=VEncPkg0,VDecPkg
func VHPkgRoundTripRouted() { vPkgRoundTrip("1", 16, "00") }

//@ harness props=C23 reveal=VEncPkg0,VDecPkg
func VHPkgRoundTripKey() { vPkgRoundTrip("0", 11, vKeyAlg()) }

//@ harness props=C23 reveal=VEncPkg0,VDecPkg
func VHPkgRoundTripRoutedKey() { vPkgRoundTrip("1", 16, vKeyAlg()) }

func vKeyAlg() string {
	a := vFlag("ena", 2)
	vAssume(a != "00")
	return a
}

func vPkgRoundTrip(route string, h byte, alg string) {
	var p Package
	vSymGen("packet", &p, func() { p = VMkPkg() })
	p.Prefix, p.Compression, p.Priority = vFlag("prefix", 2), vFlag("compression", 1), vFlag("priority", 2)
	p.Route, p.EncryptionAlg = route, alg
	vAssume(p.HeaderLength == 0 || p.HeaderLength == h)
	vAssume(p.ServicesFrameData != nil && p.PacketType < 2)
	if route == "0" {
		p.PeerAddress, p.RecipientAddress, p.TimeToLive = 0, 0, 0
	}
	key := alg != "00"
	b, ok := VEncPkg(p, key)
	e, _ := VPkgBody(p, key)
	d, _ := VEncB(p.ServicesFrameData)
	vAssume(ok && len(e) > 0)
	if key {
		back, good := VKeyDec(e)
		vAssume(good && vEq(back, d))
	}
	vCover("encoded")
	q, code := VDecPkg(b, key)
	want := p
	want.HeaderLength = h
	want.FrameDataLength = uint16(len(e))
	want.HeaderCheckSum = b[h-1]
	want.ServicesFrameDataCheckSum = VCrc16(e)
	good := false
	if p.PacketType == 1 {
		r, rok := VDecRecords(d)
		good = rok
		want.ServicesFrameData = &r
	} else {
		r, rok := VDecPtResp(d)
		good = rok
		want.ServicesFrameData = &r
	}
	vEnsure("C04,C23", "an encoded packet is accepted exactly when its body is readable", (code == 0) == good)
	if good {
		vCover("accepted")
		vSame("C04,C23", "the packet read back", q, want)
	}
}

// ---- calls do not influence each other

//@ harness props=C20
func VHIndependentDecode() {
	a, b := vBytes("first", VGenPkg), vBytes("second", VGenPkg)
	var p, q, r Package
	c1, e1 := p.Decode(a)
	x := p
	c2, e2 := q.Decode(b)
	y := q
	c3, e3 := r.Decode(a)
	vCover("decoded")
	vEnsure("C20", "the same outcome again", c1 == c3 && (e1 == nil) == (e3 == nil) && (e2 == nil) == (c2 == 0))
	if e1 == nil {
		vCover("success")
		vSame("C20", "the same packet again", r, x)
		vSame("C20", "an earlier packet is left alone", p, x)
	}
	if e2 == nil {
		vSame("C20", "a packet is left alone", q, y)
	}
}

//@ harness props=C20
func VHIndependentEncode() {
	a, b := vBytes("first", VGenPkg), vBytes("second", VGenPkg)
	var p, q Package
	_, e1 := p.Decode(a)
	_, e2 := q.Decode(b)
	if e1 != nil || e2 != nil || !VWfPkg(p) || !VWfPkg(q) || p.EncryptionAlg != "00" || q.EncryptionAlg != "00" {
		return
	}
	vCover("decoded")
	p2 := p
	u, e1 := p.Encode()
	c := append([]byte{}, u...)
	_, _ = q.Encode()
	v, e3 := p2.Encode()
	vEnsure("C20", "the same outcome again", (e1 == nil) == (e3 == nil))
	if e1 == nil {
		vSame("C20", "the same bytes again", v, c)
		vSame("C20", "earlier bytes are left alone", u, c)
	}
}
