# Planted bugs: written from the properties and the code, see mkbug.py.
BUGS = []


def bug(id, prop, pkg, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=prop, pkg=pkg, edits=edits, demo=demo, needs=needs, breaks=breaks))


E = "libs/egts"

bug("pos-direction-standing", "C08", E,
    [(E + "/egts_sr_pos_data.go", "	e.Direction |= e.DirectionHighestBit << 7\n",
      "	if e.Speed != 0 {\n		e.Direction |= e.DirectionHighestBit << 7\n	}\n")],
    '''
package egts

import "testing"

func TestDemo(t *testing.T) {
	for _, spd := range []uint16{0x8000 | 5, 0x8000 | 500, 7} {
		b := []byte{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 0x01, byte(spd), byte(spd >> 8), 0x12, 1, 2, 3, 0, 0}
		var s SrPosData
		if err := s.Decode(b); err != nil {
			t.Fatal(err)
		}
		want := byte(0x12)
		if spd&0x8000 != 0 {
			want = 0x92
		}
		if s.Direction != want {
			t.Fatalf("speed word %#x: direction %#x, want %#x", spd, s.Direction, want)
		}
	}
}
''', "a position with the direction high bit set and a speed below one km/h", "the high bit of the direction is not merged in for a standing vehicle")

bug("adsens-octet8-under-7", "C10", E,
    [(E + "/egts_sr_ad_sensors_data.go", '''	if e.DigitalInputsOctetExists8 == "1" {
		if err = buf.WriteByte(e.AdditionalDigitalInputsOctet8)''', '''	if e.DigitalInputsOctetExists8 == "1" && e.DigitalInputsOctetExists7 != "0" {
		if err = buf.WriteByte(e.AdditionalDigitalInputsOctet8)''')],
    '''
package egts

import "testing"

func TestDemo(t *testing.T) {
	for f := 0; f < 256; f++ {
		in := []byte{byte(f), 9, 0}
		for i := 0; i < 8; i++ {
			if f>>uint(i)&1 == 1 {
				in = append(in, byte(0x40+i))
			}
		}
		var s SrAdSensorsData
		if err := s.Decode(in); err != nil {
			t.Fatal(err)
		}
		out, err := s.Encode()
		if err != nil || string(out) != string(in) {
			t.Fatalf("flags %08b: %x becomes %x (%v)", f, in, out, err)
		}
	}
}
''', "digital input octet 8 present without octet 7", "octet 8 is flagged but not written")

bug("extpos-no-satellites", "C11", E,
    [(E + "/egts_sr_ext_pos_data.go", '''	if e.SatellitesFieldExists == "1" {
		if err = buf.WriteByte(e.Satellites)''', '''	if e.SatellitesFieldExists == "1" && (e.Satellites != 0 || e.NavigationSystemFieldExists == "1") {
		if err = buf.WriteByte(e.Satellites)''')],
    '''
package egts

import "testing"

func TestDemo(t *testing.T) {
	for f := 0; f < 32; f++ {
		for _, sat := range []byte{0, 1, 12} {
			in := []byte{byte(f)}
			for i := uint(0); i < 3; i++ {
				if f>>i&1 == 1 {
					in = append(in, 1, byte(i))
				}
			}
			if f&8 != 0 {
				in = append(in, sat)
			}
			if f&16 != 0 {
				in = append(in, 3, 4)
			}
			var s SrExtPosData
			if err := s.Decode(in); err != nil {
				t.Fatal(err)
			}
			out, err := s.Encode()
			if err != nil || string(out) != string(in) {
				t.Fatalf("flags %05b: %x becomes %x (%v)", f, in, out, err)
			}
		}
	}
}
''', "satellites flagged, no satellite visible and no navigation system field", "the satellites byte is left out of the encoding")
