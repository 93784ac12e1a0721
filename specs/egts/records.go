package egts

import "time"

// ---- EGTS plus payloads are protobuf messages; the library is trusted (property C30 is not claimed)

//@ opaque
func VDecPlus(b []byte) (*StorageRecord, bool) {
	s := &StorageRecord{}
	err := s.Decode(b)
	return s, err == nil
}

//@ contract (*StorageRecord).Decode
func vcDecPlus(r *StorageRecord, b []byte) error {
	w, ok := VDecPlus(b)
	if !ok {
		vHavoc(r)
		return vErr()
	}
	*r = *w
	return nil
}

// ---- one subrecord: the data of type t

//@ opaque
func VDecSub(t byte, d []byte) (v BinaryData, known, good bool) {
	switch t {
	case 0:
		s, ok := VDecResp(d)
		return &s, true, ok
	case 1:
		s, ok := VDecTermId(d)
		return &s, true, ok
	case 2:
		s, ok := VDecModule(d)
		return &s, true, ok
	case 5:
		s, ok := VDecDisp(d)
		return &s, true, ok
	case 7:
		s, ok := VDecAuth(d)
		return &s, true, ok
	case 9:
		s, ok := VDecResult(d)
		return &s, true, ok
	case 15:
		s, ok := VDecPlus(d)
		return s, true, ok
	case 16:
		s, ok := VDecPos(d)
		return &s, true, ok
	case 17:
		s, ok := VDecExtPos(d)
		return &s, true, ok
	case 18:
		s, ok := VDecAdSens(d)
		return &s, true, ok
	case 19:
		s, ok := VDecCounters(d)
		return &s, true, ok
	case 20:
		// type 20 is state data when it is five bytes long; acceleration data is not supported
		if len(d) != 5 {
			return nil, true, false
		}
		s, ok := VDecState(d)
		return &s, true, ok
	case 21:
		s, ok := VDecState(d)
		return &s, true, ok
	case 24:
		s, ok := VDecAbsAn(d)
		return &s, true, ok
	case 25:
		s, ok := VDecAbsCntr(d)
		return &s, true, ok
	case 27:
		s, ok := VDecLiquid(d)
		return &s, true, ok
	}
	return nil, false, true
}

// ---- subrecord sets

//@ opaque
func VDecSubs(b []byte) (RecordDataSet, bool) {
	var r RecordDataSet
	for len(b) > 0 {
		if len(b) < 3 {
			return nil, false
		}
		n := int(b[1]) | int(b[2])<<8
		if len(b)-3 < n {
			return nil, false
		}
		v, known, ok := VDecSub(b[0], b[3:3+n])
		if !ok {
			return nil, false
		}
		if known {
			r = append(r, RecordData{SubrecordType: b[0], SubrecordLength: uint16(n), SubrecordData: v})
		}
		b = b[3+n:]
	}
	return r, true
}

//@ contract (*RecordDataSet).Decode
func vcDecSubs(r *RecordDataSet, b []byte) error {
	vRequire("", "decoded into an empty set", len(*r) == 0)
	vRequire("C01", "nested decoding gets fewer bytes", vDepth < 0 || len(b) < vDepth)
	w, ok := VDecSubs(b)
	if !ok {
		vHavoc(r)
		return vErr()
	}
	*r = w
	return nil
}

//@ harness props=C06,C01,C14,C20 inline=(*RecordDataSet).Decode reveal=VDecSubs,VDecSub
func VHSubsDecode() {
	b := vBytes("content", VGenSubs)
	vSafety("C01,C06")
	vTerminates(true)
	vDepth = len(b)
	w, ok := VDecSubs(b)
	var s RecordDataSet
	err := s.Decode(b)
	vCover("decode returns")
	vEnsure("C06,C14", "subrecords are accepted exactly when each is complete and readable", (err == nil) == ok)
	if ok {
		vCover("accepted")
		vSame("C06", "subrecords", s, w)
	}
}

// ---- records

//@ opaque
func VDecRecords(b []byte) (ServiceDataSet, bool) {
	var r ServiceDataSet
	for len(b) > 0 {
		s, n, ok := VDecRecord(b)
		if !ok {
			return nil, false
		}
		r = append(r, s)
		b = b[n:]
	}
	return r, true
}

// VDecRecord is the first record of b and the number of bytes it takes.
//@ opaque
func VDecRecord(b []byte) (ServiceDataRecord, int, bool) {
	var s ServiceDataRecord
	if len(b) < 5 {
		return s, 0, false
	}
	s.RecordLength = vG16(b, 0)
	s.RecordNumber = vG16(b, 2)
	f := b[4]
	s.SourceServiceOnDevice = vBit(f, 7)
	s.RecipientServiceOnDevice = vBit(f, 6)
	s.Group = vBit(f, 5)
	s.RecordProcessingPriority = vBits2(f, 3)
	s.TimeFieldExists = vBit(f, 2)
	s.EventIDFieldExists = vBit(f, 1)
	s.ObjectIDFieldExists = vBit(f, 0)
	oid, evid, tm := 0, 0, 0
	if f&1 != 0 {
		oid = 4
	}
	if f&2 != 0 {
		evid = 4
	}
	if f&4 != 0 {
		tm = 4
	}
	n := 7 + oid + evid + tm
	if len(b) < n {
		return s, 0, false
	}
	if oid != 0 {
		s.ObjectIdentifier = vG32(b, 5)
	}
	if evid != 0 {
		s.EventIdentifier = vG32(b, 5+oid)
	}
	if tm != 0 {
		s.Time = vStart.Add(time.Duration(vG32(b, 5+oid+evid)) * time.Second)
	}
	s.SourceServiceType = b[n-2]
	s.RecipientServiceType = b[n-1]
	if len(b) == n {
		// the last record may declare data it does not have; it is read as an empty one
		return s, n, true
	}
	m := n + int(s.RecordLength)
	if len(b) < m {
		return s, 0, false
	}
	d, ok := VDecSubs(b[n:m])
	s.RecordDataSet = d
	return s, m, ok
}

var vStart = time.Date(2010, time.January, 1, 0, 0, 0, 0, time.UTC)

//@ contract (*ServiceDataSet).Decode
func vcDecRecords(r *ServiceDataSet, b []byte) error {
	vRequire("", "decoded into an empty set", len(*r) == 0)
	vRequire("C01", "nested decoding gets fewer bytes", vDepth < 0 || len(b) < vDepth)
	w, ok := VDecRecords(b)
	if !ok {
		vHavoc(r)
		return vErr()
	}
	*r = w
	return nil
}

//@ harness props=C05,C01,C14,C20 inline=(*ServiceDataSet).Decode reveal=VDecRecords,VDecRecord
func VHRecordsDecode() {
	b := vBytes("content", VGenRecords)
	vSafety("C01,C05")
	vTerminates(true)
	vDepth = len(b)
	w, ok := VDecRecords(b)
	var s ServiceDataSet
	err := s.Decode(b)
	vCover("decode returns")
	vEnsure("C05,C14", "records are accepted exactly when each is complete and readable", (err == nil) == ok)
	if ok {
		vCover("accepted")
		vSame("C05", "records", s, w)
	}
}
