// Code generated by /verif/tools/mkspecs.py; layouts are in the other files.

package egts

// ---- SrAbsCntrData

//@ contract (*SrAbsCntrData).Decode
func vcDecAbsCntr(r *SrAbsCntrData, b []byte) error {
	vRequire("", "decoded into a fresh SrAbsCntrData", vEq(*r, SrAbsCntrData{}))
	w, ok := VDecAbsCntr(b)
	if !ok {
		vHavoc(r)
		return vErr()
	}
	*r = w
	return nil
}

//@ contract (*SrAbsCntrData).Encode
func vcEncAbsCntr(r *SrAbsCntrData) ([]byte, error) {
	vRequire("", "encoded SrAbsCntrData is well-formed", VWfAbsCntr(*r))
	return VEncAbsCntr(*r), nil
}

//@ contract (*SrAbsCntrData).Length
func vcLenAbsCntr(r *SrAbsCntrData) uint16 {
	vRequire("", "measured SrAbsCntrData is well-formed", VWfAbsCntr(*r))
	return uint16(len(VEncAbsCntr(*r)))
}

func VGenAbsCntr() []byte { return VEncAbsCntr(VMkAbsCntr()) }

//@ harness props=C10,C14,C01,C20 inline=(*SrAbsCntrData).Decode reveal=VDecAbsCntr,VEncAbsCntr
func VHAbsCntrDecode() {
	b := vBytes("content", VGenAbsCntr)
	vSafety("C01,C10")
	vTerminates(true)
	var s SrAbsCntrData
	err := s.Decode(b)
	w, ok := VDecAbsCntr(b)
	vCover("decode returns")
	vEnsure("C14,C10", "SrAbsCntrData is accepted exactly when it is complete", (err == nil) == ok)
	if ok {
		vCover("accepted")
		vSame("C10", "SrAbsCntrData", s, w)
	}
}

//@ harness props=C10,C13,C20 inline=(*SrAbsCntrData).Encode,(*SrAbsCntrData).Length reveal=VEncAbsCntr,VDecAbsCntr
func VHAbsCntrEncode() {
	s := VMkAbsCntr()
	vSafety("C10")
	in := s
	w := VEncAbsCntr(s)
	got, err := s.Encode()
	vSame("C20", "the value is unchanged", s, in)
	vEnsure("C10", "SrAbsCntrData can be encoded", err == nil)
	vSame("C10", "encoding of SrAbsCntrData", got, w)
	r, ok := VDecAbsCntr(w)
	vEnsure("C10", "SrAbsCntrData decodes back", ok)
	vSame("C10", "round trip of SrAbsCntrData", r, VCanonAbsCntr(s))
	n := s.Length()
	vEnsure("C13", "length of SrAbsCntrData", len(w) >= 65536 || int(n) == len(w))
	vCover("encoded")
}

// ---- SrAbsAnSensData

//@ contract (*SrAbsAnSensData).Decode
func vcDecAbsAn(r *SrAbsAnSensData, b []byte) error {
	vRequire("", "decoded into a fresh SrAbsAnSensData", vEq(*r, SrAbsAnSensData{}))
	w, ok := VDecAbsAn(b)
	if !ok {
		vHavoc(r)
		return vErr()
	}
	*r = w
	return nil
}

//@ contract (*SrAbsAnSensData).Encode
func vcEncAbsAn(r *SrAbsAnSensData) ([]byte, error) {
	vRequire("", "encoded SrAbsAnSensData is well-formed", VWfAbsAn(*r))
	return VEncAbsAn(*r), nil
}

//@ contract (*SrAbsAnSensData).Length
func vcLenAbsAn(r *SrAbsAnSensData) uint16 {
	vRequire("", "measured SrAbsAnSensData is well-formed", VWfAbsAn(*r))
	return uint16(len(VEncAbsAn(*r)))
}

func VGenAbsAn() []byte { return VEncAbsAn(VMkAbsAn()) }

//@ harness props=C10,C14,C01,C20 inline=(*SrAbsAnSensData).Decode reveal=VDecAbsAn,VEncAbsAn
func VHAbsAnDecode() {
	b := vBytes("content", VGenAbsAn)
	vSafety("C01,C10")
	vTerminates(true)
	var s SrAbsAnSensData
	err := s.Decode(b)
	w, ok := VDecAbsAn(b)
	vCover("decode returns")
	vEnsure("C14,C10", "SrAbsAnSensData is accepted exactly when it is complete", (err == nil) == ok)
	if ok {
		vCover("accepted")
		vSame("C10", "SrAbsAnSensData", s, w)
	}
}

//@ harness props=C10,C13,C20 inline=(*SrAbsAnSensData).Encode,(*SrAbsAnSensData).Length reveal=VEncAbsAn,VDecAbsAn
func VHAbsAnEncode() {
	s := VMkAbsAn()
	vSafety("C10")
	in := s
	w := VEncAbsAn(s)
	got, err := s.Encode()
	vSame("C20", "the value is unchanged", s, in)
	vEnsure("C10", "SrAbsAnSensData can be encoded", err == nil)
	vSame("C10", "encoding of SrAbsAnSensData", got, w)
	r, ok := VDecAbsAn(w)
	vEnsure("C10", "SrAbsAnSensData decodes back", ok)
	vSame("C10", "round trip of SrAbsAnSensData", r, VCanonAbsAn(s))
	n := s.Length()
	vEnsure("C13", "length of SrAbsAnSensData", len(w) >= 65536 || int(n) == len(w))
	vCover("encoded")
}

// ---- SrCountersData

//@ contract (*SrCountersData).Decode
func vcDecCounters(r *SrCountersData, b []byte) error {
	vRequire("", "decoded into a fresh SrCountersData", vEq(*r, SrCountersData{}))
	w, ok := VDecCounters(b)
	if !ok {
		vHavoc(r)
		return vErr()
	}
	*r = w
	return nil
}

//@ contract (*SrCountersData).Encode
func vcEncCounters(r *SrCountersData) ([]byte, error) {
	vRequire("", "encoded SrCountersData is well-formed", VWfCounters(*r))
	return VEncCounters(*r), nil
}

//@ contract (*SrCountersData).Length
func vcLenCounters(r *SrCountersData) uint16 {
	vRequire("", "measured SrCountersData is well-formed", VWfCounters(*r))
	return uint16(len(VEncCounters(*r)))
}

func VGenCounters() []byte { return VEncCounters(VMkCounters()) }

//@ harness props=C10,C14,C01,C20 inline=(*SrCountersData).Decode reveal=VDecCounters,VEncCounters
func VHCountersDecode() {
	b := vBytes("content", VGenCounters)
	vSafety("C01,C10")
	vTerminates(true)
	var s SrCountersData
	err := s.Decode(b)
	w, ok := VDecCounters(b)
	vCover("decode returns")
	vEnsure("C14,C10", "SrCountersData is accepted exactly when it is complete", (err == nil) == ok)
	if ok {
		vCover("accepted")
		vSame("C10", "SrCountersData", s, w)
	}
}

//@ harness props=C10,C13,C20 inline=(*SrCountersData).Encode,(*SrCountersData).Length reveal=VEncCounters,VDecCounters
func VHCountersEncode() {
	s := VMkCounters()
	vSafety("C10")
	in := s
	w := VEncCounters(s)
	got, err := s.Encode()
	vSame("C20", "the value is unchanged", s, in)
	vEnsure("C10", "SrCountersData can be encoded", err == nil)
	vSame("C10", "encoding of SrCountersData", got, w)
	r, ok := VDecCounters(w)
	vEnsure("C10", "SrCountersData decodes back", ok)
	vSame("C10", "round trip of SrCountersData", r, VCanonCounters(s))
	n := s.Length()
	vEnsure("C13", "length of SrCountersData", len(w) >= 65536 || int(n) == len(w))
	vCover("encoded")
}

// ---- SrAdSensorsData

//@ contract (*SrAdSensorsData).Decode
func vcDecAdSens(r *SrAdSensorsData, b []byte) error {
	vRequire("", "decoded into a fresh SrAdSensorsData", vEq(*r, SrAdSensorsData{}))
	w, ok := VDecAdSens(b)
	if !ok {
		vHavoc(r)
		return vErr()
	}
	*r = w
	return nil
}

//@ contract (*SrAdSensorsData).Encode
func vcEncAdSens(r *SrAdSensorsData) ([]byte, error) {
	vRequire("", "encoded SrAdSensorsData is well-formed", VWfAdSens(*r))
	return VEncAdSens(*r), nil
}

//@ contract (*SrAdSensorsData).Length
func vcLenAdSens(r *SrAdSensorsData) uint16 {
	vRequire("", "measured SrAdSensorsData is well-formed", VWfAdSens(*r))
	return uint16(len(VEncAdSens(*r)))
}

func VGenAdSens() []byte { return VEncAdSens(VMkAdSens()) }

//@ harness props=C10,C14,C01,C20 inline=(*SrAdSensorsData).Decode reveal=VDecAdSens,VEncAdSens
func VHAdSensDecode() {
	b := vBytes("content", VGenAdSens)
	vSafety("C01,C10")
	vTerminates(true)
	var s SrAdSensorsData
	err := s.Decode(b)
	w, ok := VDecAdSens(b)
	vCover("decode returns")
	vEnsure("C14,C10", "SrAdSensorsData is accepted exactly when it is complete", (err == nil) == ok)
	if ok {
		vCover("accepted")
		vSame("C10", "SrAdSensorsData", s, w)
	}
}

//@ harness props=C10,C13,C20 inline=(*SrAdSensorsData).Encode,(*SrAdSensorsData).Length reveal=VEncAdSens,VDecAdSens
func VHAdSensEncode() {
	s := VMkAdSens()
	vSafety("C10")
	in := s
	w := VEncAdSens(s)
	got, err := s.Encode()
	vSame("C20", "the value is unchanged", s, in)
	vEnsure("C10", "SrAdSensorsData can be encoded", err == nil)
	vSame("C10", "encoding of SrAdSensorsData", got, w)
	r, ok := VDecAdSens(w)
	vEnsure("C10", "SrAdSensorsData decodes back", ok)
	vSame("C10", "round trip of SrAdSensorsData", r, VCanonAdSens(s))
	n := s.Length()
	vEnsure("C13", "length of SrAdSensorsData", len(w) >= 65536 || int(n) == len(w))
	vCover("encoded")
}

// ---- SrExtPosData

//@ contract (*SrExtPosData).Decode
func vcDecExtPos(r *SrExtPosData, b []byte) error {
	vRequire("", "decoded into a fresh SrExtPosData", vEq(*r, SrExtPosData{}))
	w, ok := VDecExtPos(b)
	if !ok {
		vHavoc(r)
		return vErr()
	}
	*r = w
	return nil
}

//@ contract (*SrExtPosData).Encode
func vcEncExtPos(r *SrExtPosData) ([]byte, error) {
	vRequire("", "encoded SrExtPosData is well-formed", VWfExtPos(*r))
	return VEncExtPos(*r), nil
}

//@ contract (*SrExtPosData).Length
func vcLenExtPos(r *SrExtPosData) uint16 {
	vRequire("", "measured SrExtPosData is well-formed", VWfExtPos(*r))
	return uint16(len(VEncExtPos(*r)))
}

func VGenExtPos() []byte { return VEncExtPos(VMkExtPos()) }

//@ harness props=C11,C14,C01,C20 inline=(*SrExtPosData).Decode reveal=VDecExtPos,VEncExtPos
func VHExtPosDecode() {
	b := vBytes("content", VGenExtPos)
	vSafety("C01,C11")
	vTerminates(true)
	var s SrExtPosData
	err := s.Decode(b)
	w, ok := VDecExtPos(b)
	vCover("decode returns")
	vEnsure("C14,C11", "SrExtPosData is accepted exactly when it is complete", (err == nil) == ok)
	if ok {
		vCover("accepted")
		vSame("C11", "SrExtPosData", s, w)
	}
}

//@ harness props=C11,C13,C20 inline=(*SrExtPosData).Encode,(*SrExtPosData).Length reveal=VEncExtPos,VDecExtPos
func VHExtPosEncode() {
	s := VMkExtPos()
	vSafety("C11")
	in := s
	w := VEncExtPos(s)
	got, err := s.Encode()
	vSame("C20", "the value is unchanged", s, in)
	vEnsure("C11", "SrExtPosData can be encoded", err == nil)
	vSame("C11", "encoding of SrExtPosData", got, w)
	r, ok := VDecExtPos(w)
	vEnsure("C11", "SrExtPosData decodes back", ok)
	vSame("C11", "round trip of SrExtPosData", r, VCanonExtPos(s))
	n := s.Length()
	vEnsure("C13", "length of SrExtPosData", len(w) >= 65536 || int(n) == len(w))
	vCover("encoded")
}

// ---- SrStateData

//@ contract (*SrStateData).Decode
func vcDecState(r *SrStateData, b []byte) error {
	vRequire("", "decoded into a fresh SrStateData", vEq(*r, SrStateData{}))
	w, ok := VDecState(b)
	if !ok {
		vHavoc(r)
		return vErr()
	}
	*r = w
	return nil
}

//@ contract (*SrStateData).Encode
func vcEncState(r *SrStateData) ([]byte, error) {
	vRequire("", "encoded SrStateData is well-formed", VWfState(*r))
	return VEncState(*r), nil
}

//@ contract (*SrStateData).Length
func vcLenState(r *SrStateData) uint16 {
	vRequire("", "measured SrStateData is well-formed", VWfState(*r))
	return uint16(len(VEncState(*r)))
}

func VGenState() []byte { return VEncState(VMkState()) }

//@ harness props=C11,C14,C01,C20 inline=(*SrStateData).Decode reveal=VDecState,VEncState
func VHStateDecode() {
	b := vBytes("content", VGenState)
	vSafety("C01,C11")
	vTerminates(true)
	var s SrStateData
	err := s.Decode(b)
	w, ok := VDecState(b)
	vCover("decode returns")
	vEnsure("C14,C11", "SrStateData is accepted exactly when it is complete", (err == nil) == ok)
	if ok {
		vCover("accepted")
		vSame("C11", "SrStateData", s, w)
	}
}

//@ harness props=C11,C13,C20 inline=(*SrStateData).Encode,(*SrStateData).Length reveal=VEncState,VDecState
func VHStateEncode() {
	s := VMkState()
	vSafety("C11")
	in := s
	w := VEncState(s)
	got, err := s.Encode()
	vSame("C20", "the value is unchanged", s, in)
	vEnsure("C11", "SrStateData can be encoded", err == nil)
	vSame("C11", "encoding of SrStateData", got, w)
	r, ok := VDecState(w)
	vEnsure("C11", "SrStateData decodes back", ok)
	vSame("C11", "round trip of SrStateData", r, VCanonState(s))
	n := s.Length()
	vEnsure("C13", "length of SrStateData", len(w) >= 65536 || int(n) == len(w))
	vCover("encoded")
}

// ---- SrLiquidLevelSensor

//@ contract (*SrLiquidLevelSensor).Decode
func vcDecLiquid(r *SrLiquidLevelSensor, b []byte) error {
	vRequire("", "decoded into a fresh SrLiquidLevelSensor", vEq(*r, SrLiquidLevelSensor{}))
	w, ok := VDecLiquid(b)
	if !ok {
		vHavoc(r)
		return vErr()
	}
	*r = w
	return nil
}

//@ contract (*SrLiquidLevelSensor).Encode
func vcEncLiquid(r *SrLiquidLevelSensor) ([]byte, error) {
	vRequire("", "encoded SrLiquidLevelSensor is well-formed", VWfLiquid(*r))
	return VEncLiquid(*r), nil
}

//@ contract (*SrLiquidLevelSensor).Length
func vcLenLiquid(r *SrLiquidLevelSensor) uint16 {
	vRequire("", "measured SrLiquidLevelSensor is well-formed", VWfLiquid(*r))
	return uint16(len(VEncLiquid(*r)))
}

func VGenLiquid() []byte { return VEncLiquid(VMkLiquid()) }

//@ harness props=C11,C14,C01,C20 inline=(*SrLiquidLevelSensor).Decode reveal=VDecLiquid,VEncLiquid
func VHLiquidDecode() {
	b := vBytes("content", VGenLiquid)
	vSafety("C01,C11")
	vTerminates(true)
	var s SrLiquidLevelSensor
	err := s.Decode(b)
	w, ok := VDecLiquid(b)
	vCover("decode returns")
	vEnsure("C14,C11", "SrLiquidLevelSensor is accepted exactly when it is complete", (err == nil) == ok)
	if ok {
		vCover("accepted")
		vSame("C11", "SrLiquidLevelSensor", s, w)
	}
}

//@ harness props=C11,C13,C20 inline=(*SrLiquidLevelSensor).Encode,(*SrLiquidLevelSensor).Length reveal=VEncLiquid,VDecLiquid
func VHLiquidEncode() {
	s := VMkLiquid()
	vSafety("C11")
	in := s
	w := VEncLiquid(s)
	got, err := s.Encode()
	vSame("C20", "the value is unchanged", s, in)
	vEnsure("C11", "SrLiquidLevelSensor can be encoded", err == nil)
	vSame("C11", "encoding of SrLiquidLevelSensor", got, w)
	r, ok := VDecLiquid(w)
	vEnsure("C11", "SrLiquidLevelSensor decodes back", ok)
	vSame("C11", "round trip of SrLiquidLevelSensor", r, VCanonLiquid(s))
	n := s.Length()
	vEnsure("C13", "length of SrLiquidLevelSensor", len(w) >= 65536 || int(n) == len(w))
	vCover("encoded")
}

// ---- SrTermIdentity

//@ contract (*SrTermIdentity).Decode
func vcDecTermId(r *SrTermIdentity, b []byte) error {
	vRequire("", "decoded into a fresh SrTermIdentity", vEq(*r, SrTermIdentity{}))
	w, ok := VDecTermId(b)
	if !ok {
		vHavoc(r)
		return vErr()
	}
	*r = w
	return nil
}

//@ contract (*SrTermIdentity).Encode
func vcEncTermId(r *SrTermIdentity) ([]byte, error) {
	vRequire("", "encoded SrTermIdentity is well-formed", VWfTermId(*r))
	return VEncTermId(*r), nil
}

//@ contract (*SrTermIdentity).Length
func vcLenTermId(r *SrTermIdentity) uint16 {
	vRequire("", "measured SrTermIdentity is well-formed", VWfTermId(*r))
	return uint16(len(VEncTermId(*r)))
}

func VGenTermId() []byte { return VEncTermId(VMkTermId()) }

//@ harness props=C12,C14,C01,C20 inline=(*SrTermIdentity).Decode reveal=VDecTermId,VEncTermId
func VHTermIdDecode() {
	b := vBytes("content", VGenTermId)
	vSafety("C01,C12")
	vTerminates(true)
	var s SrTermIdentity
	err := s.Decode(b)
	w, ok := VDecTermId(b)
	vCover("decode returns")
	vEnsure("C14,C12", "SrTermIdentity is accepted exactly when it is complete", (err == nil) == ok)
	if ok {
		vCover("accepted")
		vSame("C12", "SrTermIdentity", s, w)
	}
}

//@ harness props=C12,C13,C20 inline=(*SrTermIdentity).Encode,(*SrTermIdentity).Length reveal=VEncTermId,VDecTermId
func VHTermIdEncode() {
	s := VMkTermId()
	vSafety("C12")
	in := s
	w := VEncTermId(s)
	got, err := s.Encode()
	vSame("C20", "the value is unchanged", s, in)
	vEnsure("C12", "SrTermIdentity can be encoded", err == nil)
	vSame("C12", "encoding of SrTermIdentity", got, w)
	r, ok := VDecTermId(w)
	vEnsure("C12", "SrTermIdentity decodes back", ok)
	vSame("C12", "round trip of SrTermIdentity", r, VCanonTermId(s))
	n := s.Length()
	vEnsure("C13", "length of SrTermIdentity", len(w) >= 65536 || int(n) == len(w))
	vCover("encoded")
}

// ---- SrAuthInfo

//@ contract (*SrAuthInfo).Decode
func vcDecAuth(r *SrAuthInfo, b []byte) error {
	vRequire("", "decoded into a fresh SrAuthInfo", vEq(*r, SrAuthInfo{}))
	w, ok := VDecAuth(b)
	if !ok {
		vHavoc(r)
		return vErr()
	}
	*r = w
	return nil
}

//@ contract (*SrAuthInfo).Encode
func vcEncAuth(r *SrAuthInfo) ([]byte, error) {
	vRequire("", "encoded SrAuthInfo is well-formed", VWfAuth(*r))
	return VEncAuth(*r), nil
}

//@ contract (*SrAuthInfo).Length
func vcLenAuth(r *SrAuthInfo) uint16 {
	vRequire("", "measured SrAuthInfo is well-formed", VWfAuth(*r))
	return uint16(len(VEncAuth(*r)))
}

func VGenAuth() []byte { return VEncAuth(VMkAuth()) }

//@ harness props=C12,C14,C01,C20 inline=(*SrAuthInfo).Decode reveal=VDecAuth,VEncAuth
func VHAuthDecode() {
	b := vBytes("content", VGenAuth)
	vSafety("C01,C12")
	vTerminates(true)
	var s SrAuthInfo
	err := s.Decode(b)
	w, ok := VDecAuth(b)
	vCover("decode returns")
	vEnsure("C14,C12", "SrAuthInfo is accepted exactly when it is complete", (err == nil) == ok)
	if ok {
		vCover("accepted")
		vSame("C12", "SrAuthInfo", s, w)
	}
}

//@ harness props=C12,C13,C20 inline=(*SrAuthInfo).Encode,(*SrAuthInfo).Length reveal=VEncAuth,VDecAuth
func VHAuthEncode() {
	s := VMkAuth()
	vSafety("C12")
	in := s
	w := VEncAuth(s)
	got, err := s.Encode()
	vSame("C20", "the value is unchanged", s, in)
	vEnsure("C12", "SrAuthInfo can be encoded", err == nil)
	vSame("C12", "encoding of SrAuthInfo", got, w)
	r, ok := VDecAuth(w)
	vEnsure("C12", "SrAuthInfo decodes back", ok)
	vSame("C12", "round trip of SrAuthInfo", r, VCanonAuth(s))
	n := s.Length()
	vEnsure("C13", "length of SrAuthInfo", len(w) >= 65536 || int(n) == len(w))
	vCover("encoded")
}

// ---- SrModuleData

//@ contract (*SrModuleData).Decode
func vcDecModule(r *SrModuleData, b []byte) error {
	vRequire("", "decoded into a fresh SrModuleData", vEq(*r, SrModuleData{}))
	w, ok := VDecModule(b)
	if !ok {
		vHavoc(r)
		return vErr()
	}
	*r = w
	return nil
}

//@ contract (*SrModuleData).Encode
func vcEncModule(r *SrModuleData) ([]byte, error) {
	vRequire("", "encoded SrModuleData is well-formed", VWfModule(*r))
	return VEncModule(*r), nil
}

//@ contract (*SrModuleData).Length
func vcLenModule(r *SrModuleData) uint16 {
	vRequire("", "measured SrModuleData is well-formed", VWfModule(*r))
	return uint16(len(VEncModule(*r)))
}

func VGenModule() []byte { return VEncModule(VMkModule()) }

//@ harness props=C12,C14,C01,C20 inline=(*SrModuleData).Decode reveal=VDecModule,VEncModule
func VHModuleDecode() {
	b := vBytes("content", VGenModule)
	vSafety("C01,C12")
	vTerminates(true)
	var s SrModuleData
	err := s.Decode(b)
	w, ok := VDecModule(b)
	vCover("decode returns")
	vEnsure("C14,C12", "SrModuleData is accepted exactly when it is complete", (err == nil) == ok)
	if ok {
		vCover("accepted")
		vSame("C12", "SrModuleData", s, w)
	}
}

//@ harness props=C12,C13,C20 inline=(*SrModuleData).Encode,(*SrModuleData).Length reveal=VEncModule,VDecModule
func VHModuleEncode() {
	s := VMkModule()
	vSafety("C12")
	in := s
	w := VEncModule(s)
	got, err := s.Encode()
	vSame("C20", "the value is unchanged", s, in)
	vEnsure("C12", "SrModuleData can be encoded", err == nil)
	vSame("C12", "encoding of SrModuleData", got, w)
	r, ok := VDecModule(w)
	vEnsure("C12", "SrModuleData decodes back", ok)
	vSame("C12", "round trip of SrModuleData", r, VCanonModule(s))
	n := s.Length()
	vEnsure("C13", "length of SrModuleData", len(w) >= 65536 || int(n) == len(w))
	vCover("encoded")
}

// ---- SrDispatcherIdentity

//@ contract (*SrDispatcherIdentity).Decode
func vcDecDisp(r *SrDispatcherIdentity, b []byte) error {
	vRequire("", "decoded into a fresh SrDispatcherIdentity", vEq(*r, SrDispatcherIdentity{}))
	w, ok := VDecDisp(b)
	if !ok {
		vHavoc(r)
		return vErr()
	}
	*r = w
	return nil
}

//@ contract (*SrDispatcherIdentity).Encode
func vcEncDisp(r *SrDispatcherIdentity) ([]byte, error) {
	vRequire("", "encoded SrDispatcherIdentity is well-formed", VWfDisp(*r))
	return VEncDisp(*r), nil
}

//@ contract (*SrDispatcherIdentity).Length
func vcLenDisp(r *SrDispatcherIdentity) uint16 {
	vRequire("", "measured SrDispatcherIdentity is well-formed", VWfDisp(*r))
	return uint16(len(VEncDisp(*r)))
}

func VGenDisp() []byte { return VEncDisp(VMkDisp()) }

//@ harness props=C12,C14,C01,C20 inline=(*SrDispatcherIdentity).Decode reveal=VDecDisp,VEncDisp
func VHDispDecode() {
	b := vBytes("content", VGenDisp)
	vSafety("C01,C12")
	vTerminates(true)
	var s SrDispatcherIdentity
	err := s.Decode(b)
	w, ok := VDecDisp(b)
	vCover("decode returns")
	vEnsure("C14,C12", "SrDispatcherIdentity is accepted exactly when it is complete", (err == nil) == ok)
	if ok {
		vCover("accepted")
		vSame("C12", "SrDispatcherIdentity", s, w)
	}
}

//@ harness props=C12,C13,C20 inline=(*SrDispatcherIdentity).Encode,(*SrDispatcherIdentity).Length reveal=VEncDisp,VDecDisp
func VHDispEncode() {
	s := VMkDisp()
	vSafety("C12")
	in := s
	w := VEncDisp(s)
	got, err := s.Encode()
	vSame("C20", "the value is unchanged", s, in)
	vEnsure("C12", "SrDispatcherIdentity can be encoded", err == nil)
	vSame("C12", "encoding of SrDispatcherIdentity", got, w)
	r, ok := VDecDisp(w)
	vEnsure("C12", "SrDispatcherIdentity decodes back", ok)
	vSame("C12", "round trip of SrDispatcherIdentity", r, VCanonDisp(s))
	n := s.Length()
	vEnsure("C13", "length of SrDispatcherIdentity", len(w) >= 65536 || int(n) == len(w))
	vCover("encoded")
}

// ---- SrResponse

//@ contract (*SrResponse).Decode
func vcDecResp(r *SrResponse, b []byte) error {
	vRequire("", "decoded into a fresh SrResponse", vEq(*r, SrResponse{}))
	vRequire("C01", "nested decoding gets fewer bytes", vDepth < 0 || len(b) < vDepth)
	w, ok := VDecResp(b)
	if !ok {
		vHavoc(r)
		return vErr()
	}
	*r = w
	return nil
}

//@ contract (*SrResponse).Encode
func vcEncResp(r *SrResponse) ([]byte, error) {
	vRequire("", "encoded SrResponse is well-formed", VWfResp(*r))
	return VEncResp(*r), nil
}

//@ contract (*SrResponse).Length
func vcLenResp(r *SrResponse) uint16 {
	vRequire("", "measured SrResponse is well-formed", VWfResp(*r))
	return uint16(len(VEncResp(*r)))
}

func VGenResp() []byte { return VEncResp(VMkResp()) }

//@ harness props=C12,C14,C01,C20 inline=(*SrResponse).Decode reveal=VDecResp,VEncResp
func VHRespDecode() {
	b := vBytes("content", VGenResp)
	vSafety("C01,C12")
	vTerminates(true)
	vDepth = len(b)
	var s SrResponse
	err := s.Decode(b)
	w, ok := VDecResp(b)
	vCover("decode returns")
	vEnsure("C14,C12", "SrResponse is accepted exactly when it is complete", (err == nil) == ok)
	if ok {
		vCover("accepted")
		vSame("C12", "SrResponse", s, w)
	}
}

//@ harness props=C12,C13,C20 inline=(*SrResponse).Encode,(*SrResponse).Length reveal=VEncResp,VDecResp,VDecRecords
func VHRespEncode() {
	s := VMkResp()
	vSafety("C12")
	in := s
	w := VEncResp(s)
	got, err := s.Encode()
	vSame("C20", "the value is unchanged", s, in)
	vEnsure("C12", "SrResponse can be encoded", err == nil)
	vSame("C12", "encoding of SrResponse", got, w)
	r, ok := VDecResp(w)
	vEnsure("C12", "SrResponse decodes back", ok)
	vSame("C12", "round trip of SrResponse", r, VCanonResp(s))
	n := s.Length()
	vEnsure("C13", "length of SrResponse", len(w) >= 65536 || int(n) == len(w))
	vCover("encoded")
}

// ---- SrResultCode

//@ contract (*SrResultCode).Decode
func vcDecResult(r *SrResultCode, b []byte) error {
	vRequire("", "decoded into a fresh SrResultCode", vEq(*r, SrResultCode{}))
	w, ok := VDecResult(b)
	if !ok {
		vHavoc(r)
		return vErr()
	}
	*r = w
	return nil
}

//@ contract (*SrResultCode).Encode
func vcEncResult(r *SrResultCode) ([]byte, error) {
	vRequire("", "encoded SrResultCode is well-formed", VWfResult(*r))
	return VEncResult(*r), nil
}

//@ contract (*SrResultCode).Length
func vcLenResult(r *SrResultCode) uint16 {
	vRequire("", "measured SrResultCode is well-formed", VWfResult(*r))
	return uint16(len(VEncResult(*r)))
}

func VGenResult() []byte { return VEncResult(VMkResult()) }

//@ harness props=C12,C14,C01,C20 inline=(*SrResultCode).Decode reveal=VDecResult,VEncResult
func VHResultDecode() {
	b := vBytes("content", VGenResult)
	vSafety("C01,C12")
	vTerminates(true)
	var s SrResultCode
	err := s.Decode(b)
	w, ok := VDecResult(b)
	vCover("decode returns")
	vEnsure("C14,C12", "SrResultCode is accepted exactly when it is complete", (err == nil) == ok)
	if ok {
		vCover("accepted")
		vSame("C12", "SrResultCode", s, w)
	}
}

//@ harness props=C12,C13,C20 inline=(*SrResultCode).Encode,(*SrResultCode).Length reveal=VEncResult,VDecResult
func VHResultEncode() {
	s := VMkResult()
	vSafety("C12")
	in := s
	w := VEncResult(s)
	got, err := s.Encode()
	vSame("C20", "the value is unchanged", s, in)
	vEnsure("C12", "SrResultCode can be encoded", err == nil)
	vSame("C12", "encoding of SrResultCode", got, w)
	r, ok := VDecResult(w)
	vEnsure("C12", "SrResultCode decodes back", ok)
	vSame("C12", "round trip of SrResultCode", r, VCanonResult(s))
	n := s.Length()
	vEnsure("C13", "length of SrResultCode", len(w) >= 65536 || int(n) == len(w))
	vCover("encoded")
}
