import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if observe: d["anchors"]["observe_at"]=observe
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    d["anchors"]["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    P.append(d)
L="libs/egts/"
S="cli/receiver/server/server.go"
p("C01","Decoding untrusted bytes never crashes and always terminates",
 "For every byte string, decoding it as a packet, a set of service records, a set of subrecords, a response body or any single subrecord returns either a value or an error. It never panics (no out-of-range access, nil dereference or failed conversion) and every decoding loop and every nested decode consumes input, so it stops after at most as many steps as there are bytes.",
 ["inputs"],"all byte strings of any length given to any decoder of the library",
 "The tests feed about twenty well-formed literals and 126 captured packets; none has an inconsistent header length, a wrapped length or a cut field.",
 [L+"egts_pkg.go",L+"service_data_records.go",L+"record_data.go",L+"egts_pt_response.go",L+"egts_sr_*.go"],
 [("packet decoder",L+"egts_pkg.go Package.Decode"),("record loop",L+"service_data_records.go ServiceDataSet.Decode"),("subrecord loop",L+"record_data.go RecordDataSet.Decode"),("subrecord decoders",L+"egts_sr_*.go Decode")])
p("C02","A packet is accepted only if complete and both checksums match",
 "Decoding succeeds only if the input holds the whole header, the declared number of body bytes and the body checksum, the declared header length is the real one (11 bytes, 16 with routing), the header checksum equals CRC-8 (poly 0x31, init 0xFF) of the header and the body checksum equals CRC-16/CCITT (poly 0x1021, init 0xFFFF) of the body bytes as sent. A packet that fails any of these is reported as an error with a non-zero result code.",
 ["inputs"],"all byte strings offered as packets, all header and body contents and lengths",
 "Tests only decode packets whose checksums are right; every single- or multi-bit corruption and every truncation point is an input they never sample.",
 [L+"egts_pkg.go",L+"crc.go"],[("checksum comparison",L+"egts_pkg.go Package.Decode"),("CRC functions",L+"crc.go crc8, crc16")])
p("C03","Decoded packet header fields and result codes mirror the wire",
 "For every accepted packet, each header field of the decoded value (version, key id, prefix, route, encryption, compression, priority, lengths, packet id, type, peer and recipient address, TTL, checksums) equals the bits and little-endian bytes at its place on the wire, and the body is the decoding of exactly the body bytes according to the packet type. The result code is 0 exactly when no error is returned, and otherwise names the stage that failed: header form 131, header checksum 137, cut body 132, unknown packet type 133, missing key, failed decryption or unreadable body 129, body checksum 138.",
 ["inputs"],"all packets, with and without routing fields, of both packet types and unknown ones",
 "Tests compare a few literal packets that share most header bits; a swapped field or a wrong code for an unsampled combination passes.",
 [L+"egts_pkg.go",L+"errors.go"],[("header parser",L+"egts_pkg.go Package.Decode"),("result codes",L+"errors.go")])
p("C04","Encoded packets are well-formed and decode back to the same packet",
 "Encoding a packet yields exactly version, key id, flag byte, header length, header encoding, body length, packet id, type, the routing fields iff routing is set, the CRC-8 of those bytes, then the encoded body and its CRC-16 when the body is not empty, with the body length field equal to the real body length; a body that does not fit in 65535 bytes is an error, never a corrupted packet. Decoding those bytes gives back every header field and the same body bytes.",
 ["inputs"],"all header field values with two-valued flags, all bodies, routed or not",
 "Tests encode three literals without optional header fields at boundary sizes.",
 [L+"egts_pkg.go",L+"crc.go"],[("packet encoder",L+"egts_pkg.go Package.Encode")])
p("C05","Service record sets decode record by record, exactly as framed",
 "Decoding a record set yields one record per framed record, in wire order: length, number, flag fields, then object id, event id and time exactly when their flag bit is set, service types, and a subrecord set decoded from exactly the declared number of following bytes. Record time is 2010-01-01T00:00:00Z plus the raw seconds; a record whose header is cut, or whose declared data is only partly there, makes the decode fail instead of being padded or cut (a last record with no data bytes at all is accepted as an empty one).",
 ["inputs"],"all byte strings, any number of records, all flag combinations",
 "Tests use one or two records with one flag combination; framing errors appear only for several records with particular flags or lengths.",
 [L+"service_data_records.go"],[("record loop",L+"service_data_records.go ServiceDataSet.Decode")])
p("C06","Subrecord sets decode by type and length; unknown types are skipped",
 "Decoding a subrecord set walks type (1 byte), length (2 bytes little-endian) and that many data bytes; every supported type is decoded by its own rules from exactly its own bytes and appears in wire order, and a subrecord of an unsupported type is left out without affecting its neighbours. A cut subrecord header or data that does not fit in the input, or a subrecord its decoder refuses, makes the decode fail.",
 ["inputs"],"all byte strings, any number and order of subrecords of all 256 types",
 "Tests hold single-type literals; a misrouted type, or an unknown type between known ones, is never sampled.",
 [L+"record_data.go",L+"const_types.go"],[("subrecord loop",L+"record_data.go RecordDataSet.Decode")])
p("C07","Record and subrecord sets encode to the exact wire layout, in order",
 "Encoding a set writes its elements one after another in order, each as its header fields little-endian, the flag byte, optional fields exactly when flagged, and its encoded content; a zero type or zero length in the in-memory value is replaced by the type of the content and by its encoded length. If any element cannot be encoded an error is returned.",
 ["inputs"],"all lists of records and subrecords with two-valued flags",
 "Tests encode one or two elements with one flag combination and explicit lengths.",
 [L+"service_data_records.go",L+"record_data.go",L+"egts_pt_response.go"],[("record encoder",L+"service_data_records.go ServiceDataSet.Encode"),("subrecord encoder",L+"record_data.go RecordDataSet.Encode"),("response encoder",L+"egts_pt_response.go PtResponse.Encode")])
p("C08","Position subrecords decode to the right time, place, speed and flags",
 "For every position subrecord: time is 2010-01-01T00:00:00Z plus the raw seconds, latitude and longitude are raw*90/0xFFFFFFFF and raw*180/0xFFFFFFFF degrees, speed is the 14-bit value divided by ten, altitude sign and direction high bit are bits 14 and 15 of the speed word, direction is the direction byte with the high bit merged in, odometer and altitude are 3-byte little-endian, altitude is read exactly when its flag is set, and the eight flags and remaining bytes are taken bit by bit from their places.",
 ["inputs"],"all byte strings given as position subrecords",
 "Tests decode one literal.",
 [L+"egts_sr_pos_data.go"],[("position decoder",L+"egts_sr_pos_data.go SrPosData.Decode")])
p("C09","Position values survive encoding within one wire unit",
 "Encoding a position with latitude in [0,90], longitude in [0,180], a time between 2010 and 2146, speed up to 1638 km/h and 3-byte odometer and altitude produces the wire layout, and decoding it gives the same time, flags, speed, direction, odometer, inputs, source and altitude, and a latitude and longitude that differ by no more than two coordinate units (below 1e-7 degrees).",
 ["inputs"],"all position values in the stated ranges",
 "Tests round-trip one literal; rounding and range errors depend on the value.",
 [L+"egts_sr_pos_data.go"],[("position encoder",L+"egts_sr_pos_data.go SrPosData.Encode")])
p("C10","Sensor and counter subrecords keep every channel in its own place",
 "For additional digital/analog sensor data, counters data, single analog sensor and single counter subrecords: each channel is present exactly when its own flag bit is set, present channels follow in ascending channel order, values are 1 or 3 bytes little-endian, and channel n on the wire is channel n in the decoded value. Encoding writes the same layout, so decoding an encoded value returns it unchanged.",
 ["inputs"],"all 65536 flag combinations and all channel values",
 "Tests use one flag combination per subrecord, mostly symmetric ones; swapped channels or wrong optional-field order stay invisible.",
 [L+"egts_sr_ad_sensors_data.go",L+"egts_sr_counters_data.go",L+"egts_sr_abs_an_sensors_data.go",L+"egts_sr_abs_cntr_data.go"],[("codecs",L+"egts_sr_ad_sensors_data.go, egts_sr_counters_data.go, egts_sr_abs_*.go")])
p("C11","Extended position, state and liquid-level subrecords decode and encode exactly",
 "For extended position data, state data and liquid-level sensor subrecords every field is read from and written to its own bits and little-endian bytes: optional fields exactly when flagged and in the order VDOP, HDOP, PDOP, satellites, navigation systems; liquid level unit is two bits, sensor number three bits, address two and value four bytes. Decoding an encoded value (sensor number 0 to 7) returns it unchanged.",
 ["inputs"],"all byte strings and all field values",
 "Tests use one literal each.",
 [L+"egts_sr_ext_pos_data.go",L+"egts_sr_state_data.go",L+"egts_sr_liquid_level_sensor.go"],[("codecs",L+"egts_sr_ext_pos_data.go, egts_sr_state_data.go, egts_sr_liquid_level_sensor.go")])
p("C12","Identity, authorisation and confirmation subrecords decode and encode exactly",
 "For terminal identity, authorisation info, module data, dispatcher identity, record confirmation, result code and packet response bodies every field is read from and written to its place: optional fields exactly when flagged and in the standard's order, fixed-size texts byte for byte, zero-terminated texts up to but not including the first terminator. Decoding an encoded value whose texts have the fixed size (or contain no terminator) returns it unchanged.",
 ["inputs"],"all byte strings and all field values",
 "Tests use one or two literals each, and two of these test files do not even compile.",
 [L+"egts_sr_term_identity.go",L+"egts_sr_auth_info.go",L+"egts_sr_module_data.go",L+"egts_sr_dispatcher_identity.go",L+"egts_sr_response.go",L+"egts_sr_result_code.go",L+"egts_pt_response.go"],[("codecs",L+"egts_sr_term_identity.go and siblings")])
p("C13","Reported length always equals the encoded size",
 "For every subrecord, subrecord set, record set and response body that can be encoded in less than 65536 bytes, the reported length equals the number of bytes its encoding produces.",
 ["inputs"],"all encodable values, all flag combinations",
 "No test compares length with encoding for optional fields.",
 [L+"*.go Length methods"],[("length methods",L+"egts_sr_*.go, service_data_records.go, record_data.go, egts_pt_response.go Length")])
p("C14","Cut subrecords are rejected, never completed with made-up values",
 "If a subrecord's bytes end before the last field its layout and flags call for, decoding returns an error: no field of a successful result is ever taken from bytes that were not in the input. This holds for every cut point in every subrecord type and for packet and response bodies.",
 ["inputs"],"every proper prefix of every layout, for all flags",
 "Tests decode only complete subrecords.",
 [L+"egts_sr_*.go",L+"egts_pt_response.go"],[("field reads",L+"egts_sr_*.go Decode")])
p("C15","The receiver cuts the byte stream into packets exactly",
 "On a connection the receiver takes packets one after another: each spans exactly its declared header length plus, when the body length is not zero, the body and its 2-byte checksum, whatever TCP segments it arrives in, and exactly those bytes are interpreted as that packet. If a packet does not start with version 1, or declares an impossible length, or the stream ends, the connection is closed without a reply to that packet and without interpreting its bytes; other packets before it are unaffected.",
 ["inputs","histories"],"all byte streams, all segmentations, all packet sequences on a connection",
 "The server test sends one packet in one segment and reads one answer.",
 [S],[("framing loop",S+" connection handler")])
p("C16","Every accepted data packet gets one response confirming all its records",
 "For every decoded application-data packet (other than one carrying a record confirmation) the receiver writes exactly one response packet: version 1, unrouted, unencrypted, naming that packet's id, result code 0, and confirming each of its records once, in order, by record number with status 0, with the service type of the packet's last record. Response packets, and data packets that carry a record confirmation, get no response; nothing from an earlier packet leaks into a response.",
 ["inputs","histories"],"all packets with any number of records, all packet sequences",
 "The only server test has one packet with one record.",
 [S],[("response construction",S+" createPtResponse and handler")])
p("C17","Every position record is exported once, with its own data, before the ack",
 "For every record with a position subrecord in a decoded data packet, in order, exactly one export record is saved before the packet's response is sent; records without position save nothing. Its client is the record's object id, or else the last object or terminal id seen on the connection; its packet id is the packet's id or, when counters 110/111 are present, their low three and high one bytes; time, place (southern latitudes and western longitudes negative), speed, course, satellites, precision, navigation systems, analog and liquid sensors come from that record's subrecords only, and the receive time is the time the packet was received.",
 ["inputs","histories"],"all packets, record and subrecord combinations, all packet sequences on a connection",
 "The server test checks one export with no optional subrecords.",
 [S,"cli/receiver/storage/packet.go"],[("export mapping",S+" connection handler")])
p("C18","Refused packets get one negative response, store nothing and keep the link",
 "When a received packet cannot be decoded the receiver saves nothing from it, writes exactly one response packet naming the packet id read from it and the non-zero result code of the failure, and goes on with the next packet on the same connection.",
 ["inputs","histories"],"all undecodable packets at any place in a packet sequence",
 "No test sends a broken packet.",
 [S],[("error branch",S+" connection handler")])
p("C19","An authorisation result follows the ack exactly when identification was sent",
 "After the response to a data packet that contains a terminal identity or authorisation subrecord the receiver sends exactly one further data packet carrying a result-code subrecord with code 0 for the authorisation service; packets without such a subrecord never trigger one, and none is repeated for later packets.",
 ["inputs","histories"],"all packets and packet sequences",
 "No test authorises a terminal through the server.",
 [S],[("result code construction",S+" createSrResultCode and handler")])
p("C20","Codec calls and connections do not influence each other",
 "Encoding, decoding and the handling of a connection read and write only their own arguments, their own buffers and their own connection: they never modify package-level state, shared server state or the input bytes. So the outcome of a call or a connection is a function of its own input, whatever else runs or ran before.",
 ["schedules","histories"],"all interleavings of connections and of library calls",
 "Tests run one call or connection at a time; the frame is never observed.",
 [L+"*.go",S],[("no shared mutable state",L+"*.go; "+S)])
p("C21","The repository hands each record to every configured storage once, in order",
 "Saving a record passes that same record to each registered storage exactly once in registration order until one fails; the result is nil when all succeed and the first failing storage's error otherwise. Loading from configuration initialises and registers exactly the named supported storages, each with its own parameters, and reports an error for an empty configuration, an unsupported name or a storage that fails to initialise.",
 ["inputs","configurations","fault_sequences"],"all numbers of storages, all failing ones, all configurations",
 "Unit tests use the log storage or a live database that is absent here.",
 ["cli/receiver/storage/store.go"],[("fan-out and loading","cli/receiver/storage/store.go")])
p("C22","Storage connectors write exactly the record's bytes to the configured place",
 "Every connector's save serialises the record once and hands exactly those bytes, once, to the configured destination (table, topic, exchange and key, channel, queue); it returns an error when the record is missing, when serialising fails or when the storage reports failure, and nil otherwise. Initialising without a configuration is an error, and connection settings are taken from the keys documented for that connector.",
 ["inputs","configurations","fault_sequences"],"all records, configurations and storage failures",
 "Integration tests need live servers and do not run.",
 ["cli/receiver/storage/store/*/connector.go"],[("connectors","cli/receiver/storage/store/*/connector.go")])
p("C23","Encrypted packets need the key and survive the encrypted round trip",
 "When the encryption flags are not zero, encoding passes the plain body through the supplied key and puts only the key's output on the wire, with length and checksum over that output, and decoding passes exactly the received body bytes through the key before interpreting them; without a key, or when the key fails, both return an error. When the flags are zero the key is never used.",
 ["inputs"],"all bodies, all flag values, all key behaviours including failures",
 "One test uses one key that never fails.",
 [L+"egts_pkg.go"],[("encryption branches",L+"egts_pkg.go Package.Decode, Package.Encode")])
p("C24","Configuration values reach the server unchanged",
 "The listen address is host, colon, port; the idle limit is the configured number of seconds; the log level follows the configured name and is INFO for any other text; an unreadable or malformed file is an error. The keys are host, port, conn_ttl, log_level and storage.",
 ["configurations"],"all settings values and file contents",
 "One configuration file is loaded by the test.",
 ["cli/receiver/config/config.go"],[("settings","cli/receiver/config/config.go")])
p("C25","The packet generator sends what it was asked to and reports the real outcome",
 "For valid arguments the generator sends one data packet whose packet id, object id, navigation time, latitude, longitude and liquid level are the given ones. It exits with success exactly when a response arrives that names that packet id with result 0 and all confirmed records with status 0, and with failure otherwise.",
 ["inputs","fault_sequences"],"all argument values and all server replies",
 "There is no test for it.",
 ["cli/packet-gen/main.go"],[("generator","cli/packet-gen/main.go main")])
p("C26","A silent connection is given up after the configured idle time",
 "When an idle limit is configured, every wait for packet bytes on a connection is covered by a read deadline no later than the idle limit after the wait began; when none is configured no deadline is set. A connection whose read fails is closed and handled no further.",
 ["histories","fault_sequences"],"all packet sequences and read failures, all configured limits",
 "No test lets a connection idle.",
 [S],[("read deadline",S+" connection handler")])
p("C27","Exported records serialise every field under its documented name",
 "The serialised export record is the JSON object of the record's own current values under the names client, packet_id, navigation_unix_time, received_unix_time, latitude, longitude, speed, pdop, hdop, vdop, nsat, ns, course, an_sensors (sensor_number, value) and liquid_sensors (sensor_number, error_flag, value_mm, value_l). No field is dropped, renamed or taken from another one.",
 ["inputs"],"all export record values",
 "The test compares one record with empty sensor lists.",
 ["cli/receiver/storage/packet.go"],[("serialisation","cli/receiver/storage/packet.go")])
p("C28","A delivered record survives crashes of the receiver or the storage",
 "Once a data packet has been acknowledged, its position records are durably present in every configured storage even if the receiver, the network or the storage crashes at any point afterwards.",
 ["crash_points","fault_sequences"],"all crash points after an acknowledgement",
 "No test crashes anything.",
 ["cli/receiver/server/server.go","cli/receiver/storage/store/*/connector.go"],[("external storages","cli/receiver/storage/store/*/connector.go")])
p("C29","Every connection is eventually served while the server runs",
 "While the server is running, every accepted connection is handled by its own task and every packet sent on it is eventually answered, regardless of how slow or hostile other connections are.",
 ["schedules"],"all fair schedules of connection tasks",
 "Tests open one connection.",
 ["cli/receiver/server/server.go"],[("accept loop","cli/receiver/server/server.go Run")])
p("C30","Extended telemetry (EGTS plus) payloads round-trip through protobuf",
 "Encoding an extended telemetry record and decoding the result yields an equal record, and decoding rejects bytes that are not a valid encoding.",
 ["inputs"],"all extended telemetry records and byte strings",
 "One literal is tested.",
 [L+"egts_sr_egtsplus_data.go"],[("protobuf wrappers",L+"egts_sr_egtsplus_data.go")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
