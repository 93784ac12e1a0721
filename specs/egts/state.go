package egts

// ---- EGTS_SR_EXT_POS_DATA

func vOpt16(b []byte, flag string, v uint16) []byte {
	if flag == "1" {
		return vP16(b, v)
	}
	return b
}

func (c *vCur) opt16(flag string) uint16 {
	if flag == "1" {
		return c.u16()
	}
	return 0
}

func vCanon16(flag string, v uint16) uint16 {
	if flag == "1" {
		return v
	}
	return 0
}

//@ opaque
func VEncExtPos(s SrExtPosData) []byte {
	b := vP8(nil, vFlagBit(s.VdopFieldExists, 0)|vFlagBit(s.HdopFieldExists, 1)|vFlagBit(s.PdopFieldExists, 2)|
		vFlagBit(s.SatellitesFieldExists, 3)|vFlagBit(s.NavigationSystemFieldExists, 4))
	b = vOpt16(b, s.VdopFieldExists, s.VerticalDilutionOfPrecision)
	b = vOpt16(b, s.HdopFieldExists, s.HorizontalDilutionOfPrecision)
	b = vOpt16(b, s.PdopFieldExists, s.PositionDilutionOfPrecision)
	b = vOpt8(b, s.SatellitesFieldExists, s.Satellites)
	return vOpt16(b, s.NavigationSystemFieldExists, s.NavigationSystem)
}

//@ opaque
func VDecExtPos(b []byte) (SrExtPosData, bool) {
	c := vCursor(b)
	var s SrExtPosData
	f := c.u8()
	s.VdopFieldExists = vBit(f, 0)
	s.HdopFieldExists = vBit(f, 1)
	s.PdopFieldExists = vBit(f, 2)
	s.SatellitesFieldExists = vBit(f, 3)
	s.NavigationSystemFieldExists = vBit(f, 4)
	s.VerticalDilutionOfPrecision = c.opt16(s.VdopFieldExists)
	s.HorizontalDilutionOfPrecision = c.opt16(s.HdopFieldExists)
	s.PositionDilutionOfPrecision = c.opt16(s.PdopFieldExists)
	s.Satellites = c.opt8(s.SatellitesFieldExists)
	s.NavigationSystem = c.opt16(s.NavigationSystemFieldExists)
	return s, c.ok
}

func VWfExtPos(s SrExtPosData) bool {
	return vOkFlag(s.VdopFieldExists, 1) && vOkFlag(s.HdopFieldExists, 1) && vOkFlag(s.PdopFieldExists, 1) &&
		vOkFlag(s.SatellitesFieldExists, 1) && vOkFlag(s.NavigationSystemFieldExists, 1)
}

func VCanonExtPos(s SrExtPosData) SrExtPosData {
	s.VerticalDilutionOfPrecision = vCanon16(s.VdopFieldExists, s.VerticalDilutionOfPrecision)
	s.HorizontalDilutionOfPrecision = vCanon16(s.HdopFieldExists, s.HorizontalDilutionOfPrecision)
	s.PositionDilutionOfPrecision = vCanon16(s.PdopFieldExists, s.PositionDilutionOfPrecision)
	s.Satellites = vCanon8(s.SatellitesFieldExists, s.Satellites)
	s.NavigationSystem = vCanon16(s.NavigationSystemFieldExists, s.NavigationSystem)
	return s
}

func VMkExtPos() SrExtPosData {
	return SrExtPosData{NavigationSystemFieldExists: vFlag("nsfe", 1), SatellitesFieldExists: vFlag("sfe", 1),
		PdopFieldExists: vFlag("pfe", 1), HdopFieldExists: vFlag("hfe", 1), VdopFieldExists: vFlag("vfe", 1),
		VerticalDilutionOfPrecision: vU16("vdop"), HorizontalDilutionOfPrecision: vU16("hdop"),
		PositionDilutionOfPrecision: vU16("pdop"), Satellites: vU8("sat"), NavigationSystem: vU16("ns")}
}

// ---- EGTS_SR_STATE_DATA

//@ opaque
func VEncState(s SrStateData) []byte {
	b := vP8(vP8(vP8(vP8(nil, s.State), s.MainPowerSourceVoltage), s.BackUpBatteryVoltage), s.InternalBatteryVoltage)
	return vP8(b, vFlagBit(s.BBU, 0)|vFlagBit(s.IBU, 1)|vFlagBit(s.NMS, 2))
}

//@ opaque
func VDecState(b []byte) (SrStateData, bool) {
	c := vCursor(b)
	var s SrStateData
	s.State = c.u8()
	s.MainPowerSourceVoltage = c.u8()
	s.BackUpBatteryVoltage = c.u8()
	s.InternalBatteryVoltage = c.u8()
	f := c.u8()
	s.BBU = vBit(f, 0)
	s.IBU = vBit(f, 1)
	s.NMS = vBit(f, 2)
	return s, c.ok
}

func VWfState(s SrStateData) bool {
	return vOkFlag(s.NMS, 1) && vOkFlag(s.IBU, 1) && vOkFlag(s.BBU, 1)
}

func VCanonState(s SrStateData) SrStateData { return s }

func VMkState() SrStateData {
	return SrStateData{State: vU8("st"), MainPowerSourceVoltage: vU8("mpsv"), BackUpBatteryVoltage: vU8("bbv"),
		InternalBatteryVoltage: vU8("ibv"), NMS: vFlag("nms", 1), IBU: vFlag("ibu", 1), BBU: vFlag("bbu", 1)}
}

// ---- EGTS_SR_LIQUID_LEVEL_SENSOR

//@ opaque
func VEncLiquid(s SrLiquidLevelSensor) []byte {
	b := vP8(nil, vFlagBit(s.LiquidLevelSensorErrorFlag, 6)|s.LiquidLevelSensorValueUnit[0]&1<<5|
		s.LiquidLevelSensorValueUnit[1]&1<<4|vFlagBit(s.RawDataFlag, 3)|s.LiquidLevelSensorNumber)
	b = vP16(b, s.ModuleAddress)
	return vP32(b, s.LiquidLevelSensorData)
}

//@ opaque
func VDecLiquid(b []byte) (SrLiquidLevelSensor, bool) {
	c := vCursor(b)
	var s SrLiquidLevelSensor
	f := c.u8()
	s.LiquidLevelSensorErrorFlag = vBit(f, 6)
	s.LiquidLevelSensorValueUnit = vBits2(f, 4)
	s.RawDataFlag = vBit(f, 3)
	s.LiquidLevelSensorNumber = f & 7
	s.ModuleAddress = c.u16()
	s.LiquidLevelSensorData = c.u32()
	return s, c.ok
}

func VWfLiquid(s SrLiquidLevelSensor) bool {
	return vOkFlag(s.LiquidLevelSensorErrorFlag, 1) && vOkFlag(s.LiquidLevelSensorValueUnit, 2) &&
		vOkFlag(s.RawDataFlag, 1) && s.LiquidLevelSensorNumber < 8
}

func VCanonLiquid(s SrLiquidLevelSensor) SrLiquidLevelSensor { return s }

func VMkLiquid() SrLiquidLevelSensor {
	return SrLiquidLevelSensor{LiquidLevelSensorErrorFlag: vFlag("llsef", 1), LiquidLevelSensorValueUnit: vFlag("llsvu", 2),
		RawDataFlag: vFlag("rdf", 1), LiquidLevelSensorNumber: vU8("llsn") & 7, ModuleAddress: vU16("maddr"),
		LiquidLevelSensorData: vU32("llsd")}
}
