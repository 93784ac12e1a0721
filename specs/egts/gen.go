package egts

// Generators of well-formed inputs for native runs.

func VGenSub() []byte {
	t := []byte{0, 1, 2, 5, 7, 9, 16, 17, 18, 19, 20, 21, 24, 25, 27, 99}[int(vU8("type"))%16]
	var d []byte
	switch t {
	case 0:
		d = VGenResp()
	case 1:
		d = VGenTermId()
	case 2:
		d = VGenModule()
	case 5:
		d = VGenDisp()
	case 7:
		d = VGenAuth()
	case 9:
		d = VGenResult()
	case 16:
		d = VGenPos()
	case 17:
		d = VGenExtPos()
	case 18:
		d = VGenAdSens()
	case 19:
		d = VGenCounters()
	case 20, 21:
		d = VGenState()
	case 24:
		d = VGenAbsAn()
	case 25:
		d = VGenAbsCntr()
	case 27:
		d = VGenLiquid()
	default:
		d = []byte(vStr("data"))
	}
	if vU8("odd")%16 == 0 {
		d = vBytes("changed data", func() []byte { return d })
	}
	if len(d) > 60000 {
		d = d[:60000]
	}
	b := vP16([]byte{t}, uint16(len(d)))
	return append(b, d...)
}

func VGenSubs() []byte {
	var b []byte
	for n := int(vU8("subrecords")) % 4; n > 0; n-- {
		b = append(b, VGenSub()...)
	}
	return b
}

func VGenRecord() []byte {
	d := VGenSubs()
	n := uint16(len(d))
	if vU8("odd")%20 == 0 {
		n = vU16("declared")
	}
	f := vU8("flags")
	b := vP8(vP16(vP16(nil, n), vU16("rn")), f)
	if f&1 != 0 {
		b = vP32(b, vU32("oid"))
	}
	if f&2 != 0 {
		b = vP32(b, vU32("evid"))
	}
	if f&4 != 0 {
		b = vP32(b, vU32("tm"))
	}
	b = vP8(vP8(b, vU8("sst")), vU8("rst"))
	return append(b, d...)
}

func VGenRecords() []byte {
	var b []byte
	for n := int(vU8("records")) % 4; n > 0; n-- {
		b = append(b, VGenRecord()...)
	}
	return b
}
