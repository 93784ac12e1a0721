package egts

// ---- EGTS_SR_ABS_CNTR_DATA: number, 3-byte value

//@ opaque
func VEncAbsCntr(s SrAbsCntrData) []byte {
	return vP24(vP8(nil, s.CounterNumber), s.CounterValue)
}

//@ opaque
func VDecAbsCntr(b []byte) (SrAbsCntrData, bool) {
	c := vCursor(b)
	var s SrAbsCntrData
	s.CounterNumber = c.u8()
	s.CounterValue = c.u24()
	return s, c.ok
}

func VWfAbsCntr(s SrAbsCntrData) bool { return true }

func VCanonAbsCntr(s SrAbsCntrData) SrAbsCntrData { s.CounterValue &= 0xFFFFFF; return s }

func VMkAbsCntr() SrAbsCntrData {
	return SrAbsCntrData{CounterNumber: vU8("cn"), CounterValue: vU32("cnv")}
}

// ---- EGTS_SR_ABS_AN_SENS_DATA: number, 3-byte value

//@ opaque
func VEncAbsAn(s SrAbsAnSensData) []byte { return vP24(vP8(nil, s.SensorNumber), s.Value) }

//@ opaque
func VDecAbsAn(b []byte) (SrAbsAnSensData, bool) {
	c := vCursor(b)
	var s SrAbsAnSensData
	s.SensorNumber = c.u8()
	s.Value = c.u24()
	return s, c.ok
}

func VWfAbsAn(s SrAbsAnSensData) bool { return true }

func VCanonAbsAn(s SrAbsAnSensData) SrAbsAnSensData { s.Value &= 0xFFFFFF; return s }

func VMkAbsAn() SrAbsAnSensData {
	return SrAbsAnSensData{SensorNumber: vU8("sn"), Value: vU32("value")}
}

// ---- EGTS_SR_COUNTERS_DATA: presence flags, then a 3-byte value per set flag

func vOpt24(b []byte, flag string, v uint32) []byte {
	if flag == "1" {
		return vP24(b, v)
	}
	return b
}

func vOpt8(b []byte, flag string, v byte) []byte {
	if flag == "1" {
		return vP8(b, v)
	}
	return b
}

func (c *vCur) opt24(flag string) uint32 {
	if flag == "1" {
		return c.u24()
	}
	return 0
}

func (c *vCur) opt8(flag string) byte {
	if flag == "1" {
		return c.u8()
	}
	return 0
}

//@ opaque
func VEncCounters(s SrCountersData) []byte {
	b := vP8(nil, vFlagBit(s.CounterFieldExists1, 0)|vFlagBit(s.CounterFieldExists2, 1)|
		vFlagBit(s.CounterFieldExists3, 2)|vFlagBit(s.CounterFieldExists4, 3)|
		vFlagBit(s.CounterFieldExists5, 4)|vFlagBit(s.CounterFieldExists6, 5)|
		vFlagBit(s.CounterFieldExists7, 6)|vFlagBit(s.CounterFieldExists8, 7))
	b = vOpt24(b, s.CounterFieldExists1, s.Counter1)
	b = vOpt24(b, s.CounterFieldExists2, s.Counter2)
	b = vOpt24(b, s.CounterFieldExists3, s.Counter3)
	b = vOpt24(b, s.CounterFieldExists4, s.Counter4)
	b = vOpt24(b, s.CounterFieldExists5, s.Counter5)
	b = vOpt24(b, s.CounterFieldExists6, s.Counter6)
	b = vOpt24(b, s.CounterFieldExists7, s.Counter7)
	b = vOpt24(b, s.CounterFieldExists8, s.Counter8)
	return b
}

//@ opaque
func VDecCounters(b []byte) (SrCountersData, bool) {
	c := vCursor(b)
	var s SrCountersData
	f := c.u8()
	s.CounterFieldExists1 = vBit(f, 0)
	s.CounterFieldExists2 = vBit(f, 1)
	s.CounterFieldExists3 = vBit(f, 2)
	s.CounterFieldExists4 = vBit(f, 3)
	s.CounterFieldExists5 = vBit(f, 4)
	s.CounterFieldExists6 = vBit(f, 5)
	s.CounterFieldExists7 = vBit(f, 6)
	s.CounterFieldExists8 = vBit(f, 7)
	if !c.ok {
		return s, false
	}
	s.Counter1 = c.opt24(s.CounterFieldExists1)
	s.Counter2 = c.opt24(s.CounterFieldExists2)
	s.Counter3 = c.opt24(s.CounterFieldExists3)
	s.Counter4 = c.opt24(s.CounterFieldExists4)
	s.Counter5 = c.opt24(s.CounterFieldExists5)
	s.Counter6 = c.opt24(s.CounterFieldExists6)
	s.Counter7 = c.opt24(s.CounterFieldExists7)
	s.Counter8 = c.opt24(s.CounterFieldExists8)
	return s, c.ok
}

func VWfCounters(s SrCountersData) bool {
	return vOkFlag(s.CounterFieldExists1, 1) && vOkFlag(s.CounterFieldExists2, 1) &&
		vOkFlag(s.CounterFieldExists3, 1) && vOkFlag(s.CounterFieldExists4, 1) &&
		vOkFlag(s.CounterFieldExists5, 1) && vOkFlag(s.CounterFieldExists6, 1) &&
		vOkFlag(s.CounterFieldExists7, 1) && vOkFlag(s.CounterFieldExists8, 1)
}

func vCanon24(flag string, v uint32) uint32 {
	if flag == "1" {
		return v & 0xFFFFFF
	}
	return 0
}

func VCanonCounters(s SrCountersData) SrCountersData {
	s.Counter1 = vCanon24(s.CounterFieldExists1, s.Counter1)
	s.Counter2 = vCanon24(s.CounterFieldExists2, s.Counter2)
	s.Counter3 = vCanon24(s.CounterFieldExists3, s.Counter3)
	s.Counter4 = vCanon24(s.CounterFieldExists4, s.Counter4)
	s.Counter5 = vCanon24(s.CounterFieldExists5, s.Counter5)
	s.Counter6 = vCanon24(s.CounterFieldExists6, s.Counter6)
	s.Counter7 = vCanon24(s.CounterFieldExists7, s.Counter7)
	s.Counter8 = vCanon24(s.CounterFieldExists8, s.Counter8)
	return s
}

func VMkCounters() SrCountersData {
	return SrCountersData{
		CounterFieldExists1: vFlag("cfe1", 1), CounterFieldExists2: vFlag("cfe2", 1),
		CounterFieldExists3: vFlag("cfe3", 1), CounterFieldExists4: vFlag("cfe4", 1),
		CounterFieldExists5: vFlag("cfe5", 1), CounterFieldExists6: vFlag("cfe6", 1),
		CounterFieldExists7: vFlag("cfe7", 1), CounterFieldExists8: vFlag("cfe8", 1),
		Counter1: vU32("cn1"), Counter2: vU32("cn2"), Counter3: vU32("cn3"), Counter4: vU32("cn4"),
		Counter5: vU32("cn5"), Counter6: vU32("cn6"), Counter7: vU32("cn7"), Counter8: vU32("cn8"),
	}
}

// ---- EGTS_SR_AD_SENSORS_DATA: digital flags, outputs, analog flags, octets, 3-byte values

//@ opaque
func VEncAdSens(s SrAdSensorsData) []byte {
	b := vP8(nil, vFlagBit(s.DigitalInputsOctetExists1, 0)|vFlagBit(s.DigitalInputsOctetExists2, 1)|
		vFlagBit(s.DigitalInputsOctetExists3, 2)|vFlagBit(s.DigitalInputsOctetExists4, 3)|
		vFlagBit(s.DigitalInputsOctetExists5, 4)|vFlagBit(s.DigitalInputsOctetExists6, 5)|
		vFlagBit(s.DigitalInputsOctetExists7, 6)|vFlagBit(s.DigitalInputsOctetExists8, 7))
	b = vP8(b, s.DigitalOutputs)
	b = vP8(b, vFlagBit(s.AnalogSensorFieldExists1, 0)|vFlagBit(s.AnalogSensorFieldExists2, 1)|
		vFlagBit(s.AnalogSensorFieldExists3, 2)|vFlagBit(s.AnalogSensorFieldExists4, 3)|
		vFlagBit(s.AnalogSensorFieldExists5, 4)|vFlagBit(s.AnalogSensorFieldExists6, 5)|
		vFlagBit(s.AnalogSensorFieldExists7, 6)|vFlagBit(s.AnalogSensorFieldExists8, 7))
	b = vOpt8(b, s.DigitalInputsOctetExists1, s.AdditionalDigitalInputsOctet1)
	b = vOpt8(b, s.DigitalInputsOctetExists2, s.AdditionalDigitalInputsOctet2)
	b = vOpt8(b, s.DigitalInputsOctetExists3, s.AdditionalDigitalInputsOctet3)
	b = vOpt8(b, s.DigitalInputsOctetExists4, s.AdditionalDigitalInputsOctet4)
	b = vOpt8(b, s.DigitalInputsOctetExists5, s.AdditionalDigitalInputsOctet5)
	b = vOpt8(b, s.DigitalInputsOctetExists6, s.AdditionalDigitalInputsOctet6)
	b = vOpt8(b, s.DigitalInputsOctetExists7, s.AdditionalDigitalInputsOctet7)
	b = vOpt8(b, s.DigitalInputsOctetExists8, s.AdditionalDigitalInputsOctet8)
	b = vOpt24(b, s.AnalogSensorFieldExists1, s.AnalogSensor1)
	b = vOpt24(b, s.AnalogSensorFieldExists2, s.AnalogSensor2)
	b = vOpt24(b, s.AnalogSensorFieldExists3, s.AnalogSensor3)
	b = vOpt24(b, s.AnalogSensorFieldExists4, s.AnalogSensor4)
	b = vOpt24(b, s.AnalogSensorFieldExists5, s.AnalogSensor5)
	b = vOpt24(b, s.AnalogSensorFieldExists6, s.AnalogSensor6)
	b = vOpt24(b, s.AnalogSensorFieldExists7, s.AnalogSensor7)
	b = vOpt24(b, s.AnalogSensorFieldExists8, s.AnalogSensor8)
	return b
}

//@ opaque
func VDecAdSens(b []byte) (SrAdSensorsData, bool) {
	c := vCursor(b)
	var s SrAdSensorsData
	f := c.u8()
	s.DigitalInputsOctetExists1 = vBit(f, 0)
	s.DigitalInputsOctetExists2 = vBit(f, 1)
	s.DigitalInputsOctetExists3 = vBit(f, 2)
	s.DigitalInputsOctetExists4 = vBit(f, 3)
	s.DigitalInputsOctetExists5 = vBit(f, 4)
	s.DigitalInputsOctetExists6 = vBit(f, 5)
	s.DigitalInputsOctetExists7 = vBit(f, 6)
	s.DigitalInputsOctetExists8 = vBit(f, 7)
	s.DigitalOutputs = c.u8()
	f = c.u8()
	s.AnalogSensorFieldExists1 = vBit(f, 0)
	s.AnalogSensorFieldExists2 = vBit(f, 1)
	s.AnalogSensorFieldExists3 = vBit(f, 2)
	s.AnalogSensorFieldExists4 = vBit(f, 3)
	s.AnalogSensorFieldExists5 = vBit(f, 4)
	s.AnalogSensorFieldExists6 = vBit(f, 5)
	s.AnalogSensorFieldExists7 = vBit(f, 6)
	s.AnalogSensorFieldExists8 = vBit(f, 7)
	if !c.ok {
		return s, false
	}
	s.AdditionalDigitalInputsOctet1 = c.opt8(s.DigitalInputsOctetExists1)
	s.AdditionalDigitalInputsOctet2 = c.opt8(s.DigitalInputsOctetExists2)
	s.AdditionalDigitalInputsOctet3 = c.opt8(s.DigitalInputsOctetExists3)
	s.AdditionalDigitalInputsOctet4 = c.opt8(s.DigitalInputsOctetExists4)
	s.AdditionalDigitalInputsOctet5 = c.opt8(s.DigitalInputsOctetExists5)
	s.AdditionalDigitalInputsOctet6 = c.opt8(s.DigitalInputsOctetExists6)
	s.AdditionalDigitalInputsOctet7 = c.opt8(s.DigitalInputsOctetExists7)
	s.AdditionalDigitalInputsOctet8 = c.opt8(s.DigitalInputsOctetExists8)
	s.AnalogSensor1 = c.opt24(s.AnalogSensorFieldExists1)
	s.AnalogSensor2 = c.opt24(s.AnalogSensorFieldExists2)
	s.AnalogSensor3 = c.opt24(s.AnalogSensorFieldExists3)
	s.AnalogSensor4 = c.opt24(s.AnalogSensorFieldExists4)
	s.AnalogSensor5 = c.opt24(s.AnalogSensorFieldExists5)
	s.AnalogSensor6 = c.opt24(s.AnalogSensorFieldExists6)
	s.AnalogSensor7 = c.opt24(s.AnalogSensorFieldExists7)
	s.AnalogSensor8 = c.opt24(s.AnalogSensorFieldExists8)
	return s, c.ok
}

func VWfAdSens(s SrAdSensorsData) bool {
	return vOkFlag(s.DigitalInputsOctetExists1, 1) && vOkFlag(s.DigitalInputsOctetExists2, 1) &&
		vOkFlag(s.DigitalInputsOctetExists3, 1) && vOkFlag(s.DigitalInputsOctetExists4, 1) &&
		vOkFlag(s.DigitalInputsOctetExists5, 1) && vOkFlag(s.DigitalInputsOctetExists6, 1) &&
		vOkFlag(s.DigitalInputsOctetExists7, 1) && vOkFlag(s.DigitalInputsOctetExists8, 1) &&
		vOkFlag(s.AnalogSensorFieldExists1, 1) && vOkFlag(s.AnalogSensorFieldExists2, 1) &&
		vOkFlag(s.AnalogSensorFieldExists3, 1) && vOkFlag(s.AnalogSensorFieldExists4, 1) &&
		vOkFlag(s.AnalogSensorFieldExists5, 1) && vOkFlag(s.AnalogSensorFieldExists6, 1) &&
		vOkFlag(s.AnalogSensorFieldExists7, 1) && vOkFlag(s.AnalogSensorFieldExists8, 1)
}

func vCanon8(flag string, v byte) byte {
	if flag == "1" {
		return v
	}
	return 0
}

func VCanonAdSens(s SrAdSensorsData) SrAdSensorsData {
	s.AdditionalDigitalInputsOctet1 = vCanon8(s.DigitalInputsOctetExists1, s.AdditionalDigitalInputsOctet1)
	s.AdditionalDigitalInputsOctet2 = vCanon8(s.DigitalInputsOctetExists2, s.AdditionalDigitalInputsOctet2)
	s.AdditionalDigitalInputsOctet3 = vCanon8(s.DigitalInputsOctetExists3, s.AdditionalDigitalInputsOctet3)
	s.AdditionalDigitalInputsOctet4 = vCanon8(s.DigitalInputsOctetExists4, s.AdditionalDigitalInputsOctet4)
	s.AdditionalDigitalInputsOctet5 = vCanon8(s.DigitalInputsOctetExists5, s.AdditionalDigitalInputsOctet5)
	s.AdditionalDigitalInputsOctet6 = vCanon8(s.DigitalInputsOctetExists6, s.AdditionalDigitalInputsOctet6)
	s.AdditionalDigitalInputsOctet7 = vCanon8(s.DigitalInputsOctetExists7, s.AdditionalDigitalInputsOctet7)
	s.AdditionalDigitalInputsOctet8 = vCanon8(s.DigitalInputsOctetExists8, s.AdditionalDigitalInputsOctet8)
	s.AnalogSensor1 = vCanon24(s.AnalogSensorFieldExists1, s.AnalogSensor1)
	s.AnalogSensor2 = vCanon24(s.AnalogSensorFieldExists2, s.AnalogSensor2)
	s.AnalogSensor3 = vCanon24(s.AnalogSensorFieldExists3, s.AnalogSensor3)
	s.AnalogSensor4 = vCanon24(s.AnalogSensorFieldExists4, s.AnalogSensor4)
	s.AnalogSensor5 = vCanon24(s.AnalogSensorFieldExists5, s.AnalogSensor5)
	s.AnalogSensor6 = vCanon24(s.AnalogSensorFieldExists6, s.AnalogSensor6)
	s.AnalogSensor7 = vCanon24(s.AnalogSensorFieldExists7, s.AnalogSensor7)
	s.AnalogSensor8 = vCanon24(s.AnalogSensorFieldExists8, s.AnalogSensor8)
	return s
}

func VMkAdSens() SrAdSensorsData {
	return SrAdSensorsData{
		DigitalInputsOctetExists1: vFlag("dioe1", 1), DigitalInputsOctetExists2: vFlag("dioe2", 1),
		DigitalInputsOctetExists3: vFlag("dioe3", 1), DigitalInputsOctetExists4: vFlag("dioe4", 1),
		DigitalInputsOctetExists5: vFlag("dioe5", 1), DigitalInputsOctetExists6: vFlag("dioe6", 1),
		DigitalInputsOctetExists7: vFlag("dioe7", 1), DigitalInputsOctetExists8: vFlag("dioe8", 1),
		DigitalOutputs:           vU8("dout"),
		AnalogSensorFieldExists1: vFlag("asfe1", 1), AnalogSensorFieldExists2: vFlag("asfe2", 1),
		AnalogSensorFieldExists3: vFlag("asfe3", 1), AnalogSensorFieldExists4: vFlag("asfe4", 1),
		AnalogSensorFieldExists5: vFlag("asfe5", 1), AnalogSensorFieldExists6: vFlag("asfe6", 1),
		AnalogSensorFieldExists7: vFlag("asfe7", 1), AnalogSensorFieldExists8: vFlag("asfe8", 1),
		AdditionalDigitalInputsOctet1: vU8("adio1"), AdditionalDigitalInputsOctet2: vU8("adio2"),
		AdditionalDigitalInputsOctet3: vU8("adio3"), AdditionalDigitalInputsOctet4: vU8("adio4"),
		AdditionalDigitalInputsOctet5: vU8("adio5"), AdditionalDigitalInputsOctet6: vU8("adio6"),
		AdditionalDigitalInputsOctet7: vU8("adio7"), AdditionalDigitalInputsOctet8: vU8("adio8"),
		AnalogSensor1: vU32("ans1"), AnalogSensor2: vU32("ans2"), AnalogSensor3: vU32("ans3"), AnalogSensor4: vU32("ans4"),
		AnalogSensor5: vU32("ans5"), AnalogSensor6: vU32("ans6"), AnalogSensor7: vU32("ans7"), AnalogSensor8: vU32("ans8"),
	}
}
