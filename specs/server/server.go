package server

import (
	"io"
	"net"
	"time"

	"github.com/kuznetsovin/egts-protocol/cli/receiver/storage"
	"github.com/kuznetsovin/egts-protocol/libs/egts"
)

//@ bind vCodeHandle = (*Server).handleConn func(s *Server, conn net.Conn)

// VConn is a connection that monitors the receiver: in is everything the peer
// ever sends, end is what reading beyond it reports. As soon as the bytes of a
// packet are read, the monitor works out what has to follow and holds every
// later call against it.
type VConn struct {
	in        []byte
	end       error
	start     int  // where the packet being read starts
	k         int  // bytes of it that are read
	over      bool // nothing but closing may follow
	closed    bool
	owed      int // answers still to be written
	w1, w2    []byte
	got, want []storage.NavRecord
	client    uint32
	ttl       time.Duration
	prev      time.Time // the last event
	head      time.Time // when the packet began to arrive
	hasDl     bool
	dl        time.Time
}

type vAddr struct{}

func (vAddr) Network() string { return "tcp" }
func (vAddr) String() string  { return "peer" }

func (m *VConn) LocalAddr() net.Addr  { return vAddr{} }
func (m *VConn) RemoteAddr() net.Addr { return vAddr{} }

func (m *VConn) SetWriteDeadline(t time.Time) error { return nil }
func (m *VConn) SetDeadline(t time.Time) error      { return m.SetReadDeadline(t) }
func (m *VConn) SetReadDeadline(t time.Time) error {
	vEnsure("C26", "no deadline without a configured idle limit", m.ttl > 0 || t.IsZero())
	m.hasDl = !t.IsZero()
	m.dl = t
	return nil
}

func (m *VConn) Close() error {
	m.closed = true
	return nil
}

// rest is the number of bytes of the current packet that are known to follow.
func (m *VConn) rest() int {
	if m.k < 10 {
		return 10 - m.k
	}
	return VPkgLen(m.in[m.start:m.start+10]) - m.k
}

// VPkgLen is the declared length of the packet with header h.
func VPkgLen(h []byte) int {
	n := int(h[5]) | int(h[6])<<8
	if n > 0 {
		n += 2
	}
	return int(h[3]) + n
}

// ask is a read of n bytes.
func (m *VConn) ask(n int) {
	vEnsure("C15,C26", "nothing is read after the end of the connection", !m.over && !m.closed)
	vEnsure("C16,C18,C19", "every packet is answered before the next one is read", m.owed == 0)
	if m.k == 0 {
		vSame("C17", "the saved records when the next packet is read", m.got, m.want)
	}
	vEnsure("C15", "a read stays inside the packet", n <= m.rest())
	if m.ttl > 0 {
		now := time.Now()
		vEnsure("C26", "a wait is covered by a read deadline", m.hasDl)
		vEnsure("C26", "the deadline is no later than the idle limit after the wait began", !m.dl.After(now.Add(m.ttl)))
		vEnsure("C26", "the idle limit runs from the last packet", m.k > 0 || !m.dl.Before(m.prev.Add(m.ttl)))
	}
}

// read has taken n bytes.
//@ monitor
func (m *VConn) read(n int) {
	if m.k == 0 {
		m.head = time.Now()
	}
	m.k += n
	if m.k < 10 {
		return
	}
	h := m.in[m.start : m.start+10]
	l := VPkgLen(h)
	if h[0] != 1 || l < 10 {
		m.over = true
		vPart(1)
		return
	}
	if m.k == l {
		b := m.in[m.start : m.start+m.k]
		m.start += m.k
		m.k = 0
		m.expect(b)
		m.prev = time.Now()
	}
}

// VReadFull is io.ReadFull on the connection.
//@ monitor
func (m *VConn) VReadFull(b []byte) (int, error) {
	n := len(b)
	if n == 0 {
		return 0, nil
	}
	m.ask(n)
	k := len(m.in) - m.start - m.k
	if k < n {
		vPart(1)
		m.over = true
		if k > 0 && m.end == io.EOF {
			return k, io.ErrUnexpectedEOF
		}
		return k, m.end
	}
	copy(b, m.in[m.start+m.k:m.start+m.k+n])
	m.read(n)
	return n, nil
}

// VSegment is how many bytes a single read returns.
//@ opaque
func VSegment(pos int, n int) int {
	r := int(vU8("segment"))
	if r >= n {
		return n
	}
	return r + 1
}

func (m *VConn) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	m.ask(len(b))
	k := len(m.in) - m.start - m.k
	if k == 0 {
		m.over = true
		return 0, m.end
	}
	n := VSegment(m.start+m.k, len(b))
	vAssume(1 <= n && n <= len(b))
	if n > k {
		n = k
	}
	copy(b, m.in[m.start+m.k:m.start+m.k+n])
	m.read(n)
	return n, nil
}

func (m *VConn) Write(b []byte) (int, error) {
	vEnsure("C15,C26", "nothing is written after the end of the connection", !m.over && !m.closed)
	vEnsure("C16,C18,C19", "an answer is due", m.owed > 0)
	vSame("C17,C18", "the saved records when the answer is sent", m.got, m.want)
	if m.owed > 1 || m.w2 == nil {
		vSame("C16,C18", "the response", b, m.w1)
	} else {
		vSame("C19", "the authorisation result", b, m.w2)
	}
	m.owed--
	m.prev = time.Now()
	return len(b), nil
}

type VStore struct{ m *VConn }

func (s VStore) Save(r interface{ ToBytes() ([]byte, error) }) error {
	m := s.m
	vEnsure("C15,C17", "nothing is saved after the end of the connection", !m.over && !m.closed)
	n, ok := r.(*storage.NavRecord)
	vEnsure("C17", "an export record is saved", ok)
	if !ok {
		return nil
	}
	c := *n
	now := time.Now()
	vEnsure("C17", "the receive time lies between the arrival of the packet and its storing",
		m.head.Unix() <= c.ReceivedTimestamp && c.ReceivedTimestamp <= now.Unix())
	c.ReceivedTimestamp = 0
	m.got = append(m.got, c)
	m.prev = now
	if vSaves(len(m.got)) {
		return nil
	}
	return vErr()
}

// vSaves says whether the n-th record is stored.
//@ opaque
func vSaves(n int) bool { return vBool("saves") }

// expect is what has to follow the packet b.
//@ monitor
func (m *VConn) expect(b []byte) {
	vAssume(egts.VPkgFacts(b))
	vAssume(VAuthFacts(egts.VPkgPid(b)))
	w, code := egts.VDecPkg(b, false)
	pid := egts.VPkgPid(b)
	vPart(2)
	if len(b) < 11 || code != 0 {
		m.answer(pid, code, 0, nil)
		return
	}
	pid = w.PacketIdentifier
	vPart(3)
	if w.PacketType != egts.PtAppdataPacket {
		return
	}
	vPart(4)
	var conf egts.RecordDataSet
	var last uint8
	auth := false
	var w2 []byte
	recs := *w.ServicesFrameData.(*egts.ServiceDataSet)
	for i := 0; i < len(recs); i++ {
		rec := recs[i]
		conf = append(conf, egts.RecordData{
			SubrecordType:   egts.SrRecordResponseType,
			SubrecordLength: 3,
			SubrecordData:   &egts.SrResponse{ConfirmedRecordNumber: rec.RecordNumber, RecordStatus: 0},
		})
		last = rec.SourceServiceType
		if rec.ObjectIDFieldExists == "1" {
			m.client = rec.ObjectIdentifier
		}
		x := storage.NavRecord{PacketID: uint32(pid)}
		save := false
		id := make([]byte, 4)
		for j := 0; j < len(rec.RecordDataSet); j++ {
			switch d := rec.RecordDataSet[j].SubrecordData.(type) {
			case *egts.SrTermIdentity:
				m.client = d.TerminalIdentifier
				auth = true
				w2, _ = VAuthResult(pid)
			case *egts.SrAuthInfo:
				auth = true
				w2, _ = VAuthResult(pid)
			case *egts.SrResponse:
				vPart(5)
				return
			case *egts.SrAbsCntrData:
				v := d.CounterValue
				if d.CounterNumber == 110 {
					id = []byte{byte(v), byte(v >> 8), byte(v >> 16), id[3]}
					x.PacketID = uint32(id[0]) | uint32(id[1])<<8 | uint32(id[2])<<16 | uint32(id[3])<<24
				} else if d.CounterNumber == 111 {
					id = []byte{id[0], id[1], id[2], byte(v)}
					x.PacketID = uint32(id[0]) | uint32(id[1])<<8 | uint32(id[2])<<16 | uint32(id[3])<<24
				}
			case *egts.SrPosData:
				save = true
				x.NavigationTimestamp = d.NavigationTime.Unix()
				x.Latitude = vSign(d.Latitude, d.LAHS)
				x.Longitude = vSign(d.Longitude, d.LOHS)
				x.Speed = d.Speed
				x.Course = d.Direction
			case *egts.SrExtPosData:
				x.Nsat = d.Satellites
				x.Pdop = d.PositionDilutionOfPrecision
				x.Hdop = d.HorizontalDilutionOfPrecision
				x.Vdop = d.VerticalDilutionOfPrecision
				x.Ns = d.NavigationSystem
			case *egts.SrAdSensorsData:
				x.AnSensors = vAnalog(x.AnSensors, 1, d.AnalogSensorFieldExists1, d.AnalogSensor1)
				x.AnSensors = vAnalog(x.AnSensors, 2, d.AnalogSensorFieldExists2, d.AnalogSensor2)
				x.AnSensors = vAnalog(x.AnSensors, 3, d.AnalogSensorFieldExists3, d.AnalogSensor3)
				x.AnSensors = vAnalog(x.AnSensors, 4, d.AnalogSensorFieldExists4, d.AnalogSensor4)
				x.AnSensors = vAnalog(x.AnSensors, 5, d.AnalogSensorFieldExists5, d.AnalogSensor5)
				x.AnSensors = vAnalog(x.AnSensors, 6, d.AnalogSensorFieldExists6, d.AnalogSensor6)
				x.AnSensors = vAnalog(x.AnSensors, 7, d.AnalogSensorFieldExists7, d.AnalogSensor7)
				x.AnSensors = vAnalog(x.AnSensors, 8, d.AnalogSensorFieldExists8, d.AnalogSensor8)
			case *egts.SrAbsAnSensData:
				x.AnSensors = append(x.AnSensors, storage.AnSensor{SensorNumber: d.SensorNumber, Value: d.Value})
			case *egts.SrLiquidLevelSensor:
				l := storage.LiquidSensor{SensorNumber: d.LiquidLevelSensorNumber, ErrorFlag: d.LiquidLevelSensorErrorFlag}
				if d.LiquidLevelSensorValueUnit == "00" || d.LiquidLevelSensorValueUnit == "01" {
					l.ValueMm = d.LiquidLevelSensorData
				} else if d.LiquidLevelSensorValueUnit == "10" {
					l.ValueL = d.LiquidLevelSensorData * 10
				}
				x.LiquidSensors = append(x.LiquidSensors, l)
			}
		}
		x.Client = m.client
		if save {
			m.want = append(m.want, x)
		}
	}
	m.answer(pid, 0, last, conf)
	if m.owed == 1 && auth {
		m.w2 = w2
		m.owed = 2
	}
}

func vSign(v float64, half string) float64 {
	if half == "1" {
		return -v
	}
	return v
}

func vAnalog(l []storage.AnSensor, n uint8, exists string, v uint32) []storage.AnSensor {
	if exists == "1" {
		l = append(l, storage.AnSensor{SensorNumber: n, Value: v})
	}
	return l
}

func (m *VConn) answer(pid uint16, code, service uint8, conf egts.RecordDataSet) {
	w, ok := VResponse(pid, code, service, conf)
	m.w1 = w
	m.w2 = nil
	if ok {
		m.owed = 1
	}
}

func vRecord(service uint8, set egts.RecordDataSet) egts.ServiceDataRecord {
	return egts.ServiceDataRecord{
		RecordLength: egts.VLenSubs(set), RecordNumber: 1,
		SourceServiceOnDevice: "0", RecipientServiceOnDevice: "0", Group: "1", RecordProcessingPriority: "00",
		TimeFieldExists: "0", EventIDFieldExists: "0", ObjectIDFieldExists: "0",
		SourceServiceType: service, RecipientServiceType: service, RecordDataSet: set,
	}
}

func vPacket(pid uint16, t uint8, d egts.BinaryData) egts.Package {
	return egts.Package{
		ProtocolVersion: 1, Prefix: "00", Route: "0", EncryptionAlg: "00", Compression: "0", Priority: "00",
		HeaderLength: 11, PacketIdentifier: pid + 1, PacketType: t, ServicesFrameData: d,
	}
}

// VResponse is the response to packet pid.
func VResponse(pid uint16, code, service uint8, conf egts.RecordDataSet) ([]byte, bool) {
	r := egts.PtResponse{ResponsePacketID: pid, ProcessingResult: code}
	if len(conf) > 0 {
		r.SDR = &egts.ServiceDataSet{vRecord(service, conf)}
	}
	return egts.VEncPkg(vPacket(pid, egts.PtResponsePacket, &r), false)
}

// VAuthResult is the authorisation result for packet pid.
func VAuthResult(pid uint16) ([]byte, bool) {
	set := egts.RecordDataSet{egts.RecordData{SubrecordType: egts.SrResultCodeType, SubrecordLength: 1, SubrecordData: &egts.SrResultCode{}}}
	s := egts.ServiceDataSet{vRecord(egts.AuthService, set)}
	return egts.VEncPkg(vPacket(pid, egts.PtAppdataPacket, &s), false)
}

// VAuthFacts are facts about authorisation results.
func VAuthFacts(pid uint16) bool {
	b, ok := VAuthResult(pid)
	return ok && len(b) > 0
}

//@ harness props=C19 reveal=egts.VEncPkg0,egts.VEncRecords,egts.VEncSubs,egts.VEncResult
func VHAuthFacts() {
	vCover("reached")
	vEnsure("", "the authorisation result can be encoded", VAuthFacts(vU16("pid")))
}

//@ harness props=C15,C16,C17,C18,C19,C26,C20
func VHConnection() {
	m := &VConn{in: vBytes("stream", VGenStream), ttl: time.Duration(vI64("ttl")), end: io.EOF}
	if vBool("broken") {
		m.end = vErr()
	}
	vSafety("C15,C16,C17,C18")
	m.prev = time.Now()
	repo := storage.NewRepository()
	repo.AddStore(VStore{m})
	s := New("host:1", m.ttl, repo)
	vFrozen(&s, "the server")
	vFrozen(repo, "the repository")
	vCodeHandle(&s, m)
	vCover("connection over")
	vEnsure("C15,C26", "a connection is only given up with a reason", m.over)
	vEnsure("C15,C26", "a connection that is over is closed", m.closed)
}

func VGenStream() []byte {
	var b []byte
	for n := 1 + int(vU8("packets"))%3; n > 0; n-- {
		b = append(b, egts.VGenPkg()...)
	}
	return b
}
