package egts

import "bytes"

// ---- EGTS_SR_TERM_IDENTITY

func vOptS(b []byte, flag string, v string) []byte {
	if flag == "1" {
		return append(b, v...)
	}
	return b
}

func (c *vCur) optS(flag string, n int) string {
	if flag == "1" {
		return c.str(n)
	}
	return ""
}

//@ opaque
func VEncTermId(s SrTermIdentity) []byte {
	b := vP32(nil, s.TerminalIdentifier)
	b = vP8(b, vFlagBit(s.HDIDE, 0)|vFlagBit(s.IMEIE, 1)|vFlagBit(s.IMSIE, 2)|vFlagBit(s.LNGCE, 3)|
		vFlagBit(s.SSRA, 4)|vFlagBit(s.NIDE, 5)|vFlagBit(s.BSE, 6)|vFlagBit(s.MNE, 7))
	b = vOpt16(b, s.HDIDE, s.HomeDispatcherIdentifier)
	b = vOptS(b, s.IMEIE, s.IMEI)
	b = vOptS(b, s.IMSIE, s.IMSI)
	b = vOptS(b, s.LNGCE, s.LanguageCode)
	b = vOptS(b, s.NIDE, string(s.NetworkIdentifier))
	b = vOpt16(b, s.BSE, s.BufferSize)
	return vOptS(b, s.MNE, s.MobileNumber)
}

//@ opaque
func VDecTermId(b []byte) (SrTermIdentity, bool) {
	c := vCursor(b)
	var s SrTermIdentity
	s.TerminalIdentifier = c.u32()
	f := c.u8()
	s.HDIDE = vBit(f, 0)
	s.IMEIE = vBit(f, 1)
	s.IMSIE = vBit(f, 2)
	s.LNGCE = vBit(f, 3)
	s.SSRA = vBit(f, 4)
	s.NIDE = vBit(f, 5)
	s.BSE = vBit(f, 6)
	s.MNE = vBit(f, 7)
	if !c.ok {
		return s, false
	}
	s.HomeDispatcherIdentifier = c.opt16(s.HDIDE)
	s.IMEI = c.optS(s.IMEIE, 15)
	s.IMSI = c.optS(s.IMSIE, 16)
	s.LanguageCode = c.optS(s.LNGCE, 3)
	if s.NIDE == "1" {
		s.NetworkIdentifier = []byte(c.str(3))
	}
	s.BufferSize = c.opt16(s.BSE)
	s.MobileNumber = c.optS(s.MNE, 15)
	return s, c.ok
}

func VWfTermId(s SrTermIdentity) bool {
	return vOkFlag(s.HDIDE, 1) && vOkFlag(s.IMEIE, 1) && vOkFlag(s.IMSIE, 1) && vOkFlag(s.LNGCE, 1) &&
		vOkFlag(s.SSRA, 1) && vOkFlag(s.NIDE, 1) && vOkFlag(s.BSE, 1) && vOkFlag(s.MNE, 1)
}

func vCanonS(flag string, v string) string {
	if flag == "1" {
		return v
	}
	return ""
}

func VCanonTermId(s SrTermIdentity) SrTermIdentity {
	s.HomeDispatcherIdentifier = vCanon16(s.HDIDE, s.HomeDispatcherIdentifier)
	s.IMEI = vCanonS(s.IMEIE, s.IMEI)
	s.IMSI = vCanonS(s.IMSIE, s.IMSI)
	s.LanguageCode = vCanonS(s.LNGCE, s.LanguageCode)
	if s.NIDE != "1" {
		s.NetworkIdentifier = nil
	}
	s.BufferSize = vCanon16(s.BSE, s.BufferSize)
	s.MobileNumber = vCanonS(s.MNE, s.MobileNumber)
	return s
}

func VMkTermId() SrTermIdentity {
	return SrTermIdentity{TerminalIdentifier: vU32("tid"), MNE: vFlag("mne", 1), BSE: vFlag("bse", 1),
		NIDE: vFlag("nide", 1), SSRA: vFlag("ssra", 1), LNGCE: vFlag("lngce", 1), IMSIE: vFlag("imsie", 1),
		IMEIE: vFlag("imeie", 1), HDIDE: vFlag("hdide", 1), HomeDispatcherIdentifier: vU16("hdid"),
		IMEI: vStrN("imei", 15), IMSI: vStrN("imsi", 16), LanguageCode: vStrN("lngc", 3),
		NetworkIdentifier: []byte(vStrN("nid", 3)), BufferSize: vU16("bs"), MobileNumber: vStrN("msisdn", 15)}
}

// ---- EGTS_SR_AUTH_INFO: zero-terminated name, password and, if bytes remain, sequence

// text is the bytes before the next zero byte, which is consumed.
func (c *vCur) text() string {
	if !c.ok {
		return ""
	}
	n := bytes.IndexByte(c.b[c.i:], 0)
	if n < 0 {
		c.ok = false
		return ""
	}
	s := string(c.b[c.i : c.i+n])
	c.i += n + 1
	return s
}

func vNoZero(s string) bool { return bytes.IndexByte([]byte(s), 0) < 0 }

//@ opaque
func VEncAuth(s SrAuthInfo) []byte {
	b := append([]byte(s.UserName), 0)
	b = append(append(b, s.UserPassword...), 0)
	if s.ServerSequence != "" {
		b = append(append(b, s.ServerSequence...), 0)
	}
	return b
}

//@ opaque
func VDecAuth(b []byte) (SrAuthInfo, bool) {
	c := vCursor(b)
	var s SrAuthInfo
	s.UserName = c.text()
	s.UserPassword = c.text()
	if c.ok && c.i < len(b) {
		s.ServerSequence = c.text()
	}
	return s, c.ok
}

func VWfAuth(s SrAuthInfo) bool          { return true }
func VCanonAuth(s SrAuthInfo) SrAuthInfo { return s }

func VMkAuth() SrAuthInfo {
	s := SrAuthInfo{UserName: vStr("unm"), UserPassword: vStr("upsw"), ServerSequence: vStr("ss")}
	vAssume(vNoZero(s.UserName) && vNoZero(s.UserPassword) && vNoZero(s.ServerSequence))
	return s
}

// ---- EGTS_SR_MODULE_DATA

//@ opaque
func VEncModule(s SrModuleData) []byte {
	b := vP8(nil, byte(s.ModuleType))
	b = vP32(b, s.VendorID)
	b = vP16(vP16(b, s.FirmwareVersion), s.SoftwareVersion)
	b = vP8(vP8(b, s.Modification), s.State)
	b = append(append(b, s.SerialNumber...), 0)
	return append(append(b, s.Description...), 0)
}

//@ opaque
func VDecModule(b []byte) (SrModuleData, bool) {
	c := vCursor(b)
	var s SrModuleData
	s.ModuleType = int8(c.u8())
	s.VendorID = c.u32()
	s.FirmwareVersion = c.u16()
	s.SoftwareVersion = c.u16()
	s.Modification = c.u8()
	s.State = c.u8()
	s.SerialNumber = c.text()
	s.Description = c.text()
	return s, c.ok
}

func VWfModule(s SrModuleData) bool            { return true }
func VCanonModule(s SrModuleData) SrModuleData { return s }

func VMkModule() SrModuleData {
	s := SrModuleData{ModuleType: int8(vU8("mt")), VendorID: vU32("vid"), FirmwareVersion: vU16("fwv"),
		SoftwareVersion: vU16("swv"), Modification: vU8("md"), State: vU8("st"), SerialNumber: vStr("srn"),
		Description: vStr("dscr")}
	vAssume(vNoZero(s.SerialNumber) && vNoZero(s.Description))
	return s
}

// ---- EGTS_SR_DISPATCHER_IDENTITY

//@ opaque
func VEncDisp(s SrDispatcherIdentity) []byte {
	return append(vP32(vP8(nil, s.DispatcherType), s.DispatcherID), s.Description...)
}

//@ opaque
func VDecDisp(b []byte) (SrDispatcherIdentity, bool) {
	c := vCursor(b)
	var s SrDispatcherIdentity
	s.DispatcherType = c.u8()
	s.DispatcherID = c.u32()
	if c.ok {
		s.Description = string(b[c.i:])
	}
	return s, c.ok
}

func VWfDisp(s SrDispatcherIdentity) bool                    { return true }
func VCanonDisp(s SrDispatcherIdentity) SrDispatcherIdentity { return s }

func VMkDisp() SrDispatcherIdentity {
	return SrDispatcherIdentity{DispatcherType: vU8("dt"), DispatcherID: vU32("did"), Description: vStr("dscr")}
}

// ---- EGTS_SR_RECORD_RESPONSE

// vDepth bounds the input of nested decoding in the termination argument; -1 is no bound.
var vDepth = -1

//@ opaque
func VEncResp(s SrResponse) []byte { return vP8(vP16(nil, s.ConfirmedRecordNumber), s.RecordStatus) }

// The confirmation may be followed by records, which have to be readable.
//@ opaque
func VDecResp(b []byte) (SrResponse, bool) {
	c := vCursor(b)
	var s SrResponse
	s.ConfirmedRecordNumber = c.u16()
	s.RecordStatus = c.u8()
	if c.ok {
		_, c.ok = VDecRecords(b[3:])
	}
	return s, c.ok
}

func VWfResp(s SrResponse) bool          { return true }
func VCanonResp(s SrResponse) SrResponse { return s }

func VMkResp() SrResponse {
	return SrResponse{ConfirmedRecordNumber: vU16("crn"), RecordStatus: vU8("rst")}
}

// ---- EGTS_SR_RESULT_CODE

//@ opaque
func VEncResult(s SrResultCode) []byte { return vP8(nil, s.ResultCode) }

//@ opaque
func VDecResult(b []byte) (SrResultCode, bool) {
	c := vCursor(b)
	var s SrResultCode
	s.ResultCode = c.u8()
	return s, c.ok
}

func VWfResult(s SrResultCode) bool            { return true }
func VCanonResult(s SrResultCode) SrResultCode { return s }

func VMkResult() SrResultCode { return SrResultCode{ResultCode: vU8("rcd")} }
