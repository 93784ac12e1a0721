From 145a0c9ef52fd38455495f4c6d1f05daa1259f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:42 +0000
Subject: [PATCH 01/18] fix: do not panic on packets with an inconsistent
 header length or a large body

---
 libs/egts/egts_pkg.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libs/egts/egts_pkg.go b/libs/egts/egts_pkg.go
index d7c0600..f294983 100644
--- a/libs/egts/egts_pkg.go
+++ b/libs/egts/egts_pkg.go
@@ -121,6 +121,11 @@ func (p *Package) Decode(content []byte, opt ...func(*Options)) (uint8, error) {
 		return egtsPcIncHeaderform, fmt.Errorf("Не удалось получить crc заголовка: %v", err)
 	}
 
+	// длина заголовка из пакета должна совпадать с его фактической длиной
+	if int(p.HeaderLength) != len(content)-buf.Len() {
+		return egtsPcIncHeaderform, fmt.Errorf("Не верная длина заголовка пакета: %d", p.HeaderLength)
+	}
+
 	if p.HeaderCheckSum != crc8(content[:p.HeaderLength-1]) {
 		return egtsPcHeaderCrcError, fmt.Errorf("Не верная сумма заголовка пакета")
 	}
@@ -160,7 +165,7 @@ func (p *Package) Decode(content []byte, opt ...func(*Options)) (uint8, error) {
 	}
 	p.ServicesFrameDataCheckSum = binary.LittleEndian.Uint16(crcBytes)
 
-	if p.ServicesFrameDataCheckSum != crc16(content[p.HeaderLength:uint16(p.HeaderLength)+p.FrameDataLength]) {
+	if p.ServicesFrameDataCheckSum != crc16(content[int(p.HeaderLength):int(p.HeaderLength)+int(p.FrameDataLength)]) {
 		return egtsPcHeaderCrcError, fmt.Errorf("Не верная сумма тела пакета")
 	}
 	return egtsPcOk, err
-- 
2.43.0


From 896f48105789c4272c9fc5c1bde510d4f99c0e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:42 +0000
Subject: [PATCH 02/18] fix: report a body checksum mismatch with the data CRC
 error code

---
 libs/egts/egts_pkg.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/egts/egts_pkg.go b/libs/egts/egts_pkg.go
index f294983..9f7722e 100644
--- a/libs/egts/egts_pkg.go
+++ b/libs/egts/egts_pkg.go
@@ -166,7 +166,7 @@ func (p *Package) Decode(content []byte, opt ...func(*Options)) (uint8, error) {
 	p.ServicesFrameDataCheckSum = binary.LittleEndian.Uint16(crcBytes)
 
 	if p.ServicesFrameDataCheckSum != crc16(content[int(p.HeaderLength):int(p.HeaderLength)+int(p.FrameDataLength)]) {
-		return egtsPcHeaderCrcError, fmt.Errorf("Не верная сумма тела пакета")
+		return egtsPcDatacrcError, fmt.Errorf("Не верная сумма тела пакета")
 	}
 	return egtsPcOk, err
 }
-- 
2.43.0


From ce8f82435e0e03201d2d8369ce55cba5a6133d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:26 +0000
Subject: [PATCH 03/18] fix: reject packets, records and subrecords whose last
 field is cut

bytes.Reader.Read and bytes.Buffer.Read return fewer bytes than asked for at
the end of the input without an error, so a cut field was decoded from
zero or stale bytes and accepted.
---
 libs/egts/egts_pkg.go                    | 13 +++++++------
 libs/egts/egts_pt_response.go            |  3 ++-
 libs/egts/egts_sr_abs_cntr_data.go       |  3 ++-
 libs/egts/egts_sr_ad_sensors_data.go     | 17 +++++++++--------
 libs/egts/egts_sr_counters_data.go       | 17 +++++++++--------
 libs/egts/egts_sr_dispatcher_identity.go |  3 ++-
 libs/egts/egts_sr_ext_pos_data.go        |  9 +++++----
 libs/egts/egts_sr_liquid_level_sensor.go |  5 +++--
 libs/egts/egts_sr_module_data.go         |  7 ++++---
 libs/egts/egts_sr_pos_data.go            | 13 +++++++------
 libs/egts/egts_sr_response.go            |  3 ++-
 libs/egts/egts_sr_term_identity.go       | 17 +++++++++--------
 libs/egts/record_data.go                 |  3 ++-
 libs/egts/service_data_records.go        | 13 +++++++------
 14 files changed, 70 insertions(+), 56 deletions(-)

diff --git a/libs/egts/egts_pkg.go b/libs/egts/egts_pkg.go
index 9f7722e..e35bb35 100644
--- a/libs/egts/egts_pkg.go
+++ b/libs/egts/egts_pkg.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"encoding/json"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -87,12 +88,12 @@ func (p *Package) Decode(content []byte, opt ...func(*Options)) (uint8, error) {
 	}
 
 	tmpIntBuf := make([]byte, 2)
-	if _, err = buf.Read(tmpIntBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 		return egtsPcIncHeaderform, fmt.Errorf("Не удалось получить длину секции данных: %v", err)
 	}
 	p.FrameDataLength = binary.LittleEndian.Uint16(tmpIntBuf)
 
-	if _, err = buf.Read(tmpIntBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 		return egtsPcIncHeaderform, fmt.Errorf("Не удалось получить идентификатор пакета: %v", err)
 	}
 	p.PacketIdentifier = binary.LittleEndian.Uint16(tmpIntBuf)
@@ -102,12 +103,12 @@ func (p *Package) Decode(content []byte, opt ...func(*Options)) (uint8, error) {
 	}
 
 	if p.Route == "1" {
-		if _, err = buf.Read(tmpIntBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 			return egtsPcIncHeaderform, fmt.Errorf("Не удалось получить адрес апк отправителя: %v", err)
 		}
 		p.PeerAddress = binary.LittleEndian.Uint16(tmpIntBuf)
 
-		if _, err = buf.Read(tmpIntBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 			return egtsPcIncHeaderform, fmt.Errorf("Не удалось получить адрес апк получателя: %v", err)
 		}
 		p.RecipientAddress = binary.LittleEndian.Uint16(tmpIntBuf)
@@ -131,7 +132,7 @@ func (p *Package) Decode(content []byte, opt ...func(*Options)) (uint8, error) {
 	}
 
 	dataFrameBytes := make([]byte, p.FrameDataLength)
-	if _, err = buf.Read(dataFrameBytes); err != nil {
+	if _, err = io.ReadFull(buf, dataFrameBytes); err != nil {
 		return egtsPcIncDataform, fmt.Errorf("Не считать тело пакета: %v", err)
 	}
 	switch p.PacketType {
@@ -160,7 +161,7 @@ func (p *Package) Decode(content []byte, opt ...func(*Options)) (uint8, error) {
 	}
 
 	crcBytes := make([]byte, 2)
-	if _, err = buf.Read(crcBytes); err != nil {
+	if _, err = io.ReadFull(buf, crcBytes); err != nil {
 		return egtsPcDecryptError, fmt.Errorf("Не удалось считать crc16 пакета: %v", err)
 	}
 	p.ServicesFrameDataCheckSum = binary.LittleEndian.Uint16(crcBytes)
diff --git a/libs/egts/egts_pt_response.go b/libs/egts/egts_pt_response.go
index 0f1aa4f..e48cdc5 100644
--- a/libs/egts/egts_pt_response.go
+++ b/libs/egts/egts_pt_response.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 )
 
 //PtResponse структура подзаписи типа EGTS_PT_RESPONSE
@@ -21,7 +22,7 @@ func (s *PtResponse) Decode(content []byte) error {
 	buf := bytes.NewBuffer(content)
 
 	tmpIntBuf := make([]byte, 2)
-	if _, err = buf.Read(tmpIntBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 		return fmt.Errorf("Не удалось получить идентификатор пакета из ответа: %v", err)
 	}
 	s.ResponsePacketID = binary.LittleEndian.Uint16(tmpIntBuf)
diff --git a/libs/egts/egts_sr_abs_cntr_data.go b/libs/egts/egts_sr_abs_cntr_data.go
index 6976c0f..00ee94d 100644
--- a/libs/egts/egts_sr_abs_cntr_data.go
+++ b/libs/egts/egts_sr_abs_cntr_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 )
 
 //SrAbsCntrData структура подзаписи типа EGTS_SR_ABS_CNTR_DATA, которая применяется
@@ -26,7 +27,7 @@ func (e *SrAbsCntrData) Decode(content []byte) error {
 	}
 
 	tmpBuf := make([]byte, 3)
-	if _, err = buf.Read(tmpBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 		return fmt.Errorf("Не удалось получить значение показаний счетного входа: %v", err)
 	}
 
diff --git a/libs/egts/egts_sr_ad_sensors_data.go b/libs/egts/egts_sr_ad_sensors_data.go
index 2b7f651..be70056 100644
--- a/libs/egts/egts_sr_ad_sensors_data.go
+++ b/libs/egts/egts_sr_ad_sensors_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -138,7 +139,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 
 	tmpBuf := make([]byte, 3)
 	if e.AnalogSensorFieldExists1 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS1: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -146,7 +147,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists2 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS2: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -154,7 +155,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists3 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS3: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -162,7 +163,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists4 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS4: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -170,7 +171,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists5 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS5: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -178,7 +179,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists6 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS6: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -186,7 +187,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists7 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS7: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -194,7 +195,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists8 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS8: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
diff --git a/libs/egts/egts_sr_counters_data.go b/libs/egts/egts_sr_counters_data.go
index ebae25d..b8128d4 100644
--- a/libs/egts/egts_sr_counters_data.go
+++ b/libs/egts/egts_sr_counters_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -53,7 +54,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 
 	tmpBuf := make([]byte, 3)
 	if c.CounterFieldExists1 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN1: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -61,7 +62,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists2 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN2: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -69,7 +70,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists3 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN3: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -77,7 +78,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists4 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN4: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -85,7 +86,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists5 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN5: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -93,7 +94,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists6 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN6: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -101,7 +102,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists7 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN7: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -109,7 +110,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists8 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN8: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
diff --git a/libs/egts/egts_sr_dispatcher_identity.go b/libs/egts/egts_sr_dispatcher_identity.go
index 0eb5f33..6327246 100644
--- a/libs/egts/egts_sr_dispatcher_identity.go
+++ b/libs/egts/egts_sr_dispatcher_identity.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 )
 
 // SrDispatcherIdentity структура подзаписи типа EGTS_SR_DISPATCHER_IDENTITY, которая используется
@@ -26,7 +27,7 @@ func (d *SrDispatcherIdentity) Decode(content []byte) error {
 	}
 
 	tmpIntBuf := make([]byte, 4)
-	if _, err = buf.Read(tmpIntBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 		return fmt.Errorf("Не удалось получить уникальный идентификатор диспетчера: %v", err)
 	}
 	d.DispatcherID = binary.LittleEndian.Uint32(tmpIntBuf)
diff --git a/libs/egts/egts_sr_ext_pos_data.go b/libs/egts/egts_sr_ext_pos_data.go
index f2ea748..b7ab165 100644
--- a/libs/egts/egts_sr_ext_pos_data.go
+++ b/libs/egts/egts_sr_ext_pos_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -44,21 +45,21 @@ func (e *SrExtPosData) Decode(content []byte) error {
 	e.VdopFieldExists = flagBits[7:]
 
 	if e.VdopFieldExists == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить снижение точности в вертикальной плоскости: %v", err)
 		}
 		e.VerticalDilutionOfPrecision = binary.LittleEndian.Uint16(tmpBuf)
 	}
 
 	if e.HdopFieldExists == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить снижение точности в горизонтальной плоскости: %v", err)
 		}
 		e.HorizontalDilutionOfPrecision = binary.LittleEndian.Uint16(tmpBuf)
 	}
 
 	if e.PdopFieldExists == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить снижение точности по местоположению: %v", err)
 		}
 		e.PositionDilutionOfPrecision = binary.LittleEndian.Uint16(tmpBuf)
@@ -71,7 +72,7 @@ func (e *SrExtPosData) Decode(content []byte) error {
 	}
 
 	if e.NavigationSystemFieldExists == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить битовые флаги спутниковых систем: %v", err)
 		}
 		e.NavigationSystem = binary.LittleEndian.Uint16(tmpBuf)
diff --git a/libs/egts/egts_sr_liquid_level_sensor.go b/libs/egts/egts_sr_liquid_level_sensor.go
index 2df3469..dc346f6 100644
--- a/libs/egts/egts_sr_liquid_level_sensor.go
+++ b/libs/egts/egts_sr_liquid_level_sensor.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -42,13 +43,13 @@ func (e *SrLiquidLevelSensor) Decode(content []byte) error {
 	e.LiquidLevelSensorNumber = uint8(sensNum)
 
 	bytesTmpBuf := make([]byte, 2)
-	if _, err = buf.Read(bytesTmpBuf); err != nil {
+	if _, err = io.ReadFull(buf, bytesTmpBuf); err != nil {
 		return fmt.Errorf("Не удалось получить адрес модуля ДУЖ: %v", err)
 	}
 	e.ModuleAddress = binary.LittleEndian.Uint16(bytesTmpBuf)
 
 	bytesTmpBuf = make([]byte, 4)
-	if _, err = buf.Read(bytesTmpBuf); err != nil {
+	if _, err = io.ReadFull(buf, bytesTmpBuf); err != nil {
 		return fmt.Errorf("Не удалось получить показания ДУЖ: %v", err)
 	}
 	e.LiquidLevelSensorData = binary.LittleEndian.Uint32(bytesTmpBuf)
diff --git a/libs/egts/egts_sr_module_data.go b/libs/egts/egts_sr_module_data.go
index 86dc227..ff60c66 100644
--- a/libs/egts/egts_sr_module_data.go
+++ b/libs/egts/egts_sr_module_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 )
 
 const (
@@ -38,19 +39,19 @@ func (e *SrModuleData) Decode(content []byte) error {
 	e.ModuleType = int8(moduleType)
 
 	tmpBuf := make([]byte, 4)
-	if _, err = buf.Read(tmpBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 		return fmt.Errorf("не удалось получить ID вендора")
 	}
 	e.VendorID = binary.LittleEndian.Uint32(tmpBuf)
 
 	tmpBuf = make([]byte, 2)
-	if _, err = buf.Read(tmpBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 		return fmt.Errorf("не удалось получить версию прошивки")
 	}
 	e.FirmwareVersion = binary.LittleEndian.Uint16(tmpBuf)
 
 	tmpBuf = make([]byte, 2)
-	if _, err = buf.Read(tmpBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 		return fmt.Errorf("не удалось получить версию ПО")
 	}
 	e.SoftwareVersion = binary.LittleEndian.Uint16(tmpBuf)
diff --git a/libs/egts/egts_sr_pos_data.go b/libs/egts/egts_sr_pos_data.go
index 3f823db..f94b0e5 100644
--- a/libs/egts/egts_sr_pos_data.go
+++ b/libs/egts/egts_sr_pos_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 	"time"
 )
@@ -45,14 +46,14 @@ func (e *SrPosData) Decode(content []byte) error {
 	// Преобразуем время навигации к формату, который требует стандарт: количество секунд с 00:00:00 01.01.2010 UTC
 	startDate := time.Date(2010, time.January, 1, 0, 0, 0, 0, time.UTC)
 	tmpUint32Buf := make([]byte, 4)
-	if _, err = buf.Read(tmpUint32Buf); err != nil {
+	if _, err = io.ReadFull(buf, tmpUint32Buf); err != nil {
 		return fmt.Errorf("Не удалось получить время навигации: %v", err)
 	}
 	preFieldVal := binary.LittleEndian.Uint32(tmpUint32Buf)
 	e.NavigationTime = startDate.Add(time.Duration(preFieldVal) * time.Second)
 
 	// В протоколе значение хранится в виде: широта по модулю, градусы/90*0xFFFFFFFF  и взята целая часть
-	if _, err = buf.Read(tmpUint32Buf); err != nil {
+	if _, err = io.ReadFull(buf, tmpUint32Buf); err != nil {
 		return fmt.Errorf("Не удалось получить широту: %v", err)
 	}
 
@@ -60,7 +61,7 @@ func (e *SrPosData) Decode(content []byte) error {
 	e.Latitude = float64(float64(preFieldVal) * 90 / 0xFFFFFFFF)
 
 	// В протоколе значение хранится в виде: долгота по модулю, градусы/180*0xFFFFFFFF  и взята целая часть
-	if _, err = buf.Read(tmpUint32Buf); err != nil {
+	if _, err = io.ReadFull(buf, tmpUint32Buf); err != nil {
 		return fmt.Errorf("Не удалось получить время долгату: %v", err)
 	}
 	preFieldVal = binary.LittleEndian.Uint32(tmpUint32Buf)
@@ -82,7 +83,7 @@ func (e *SrPosData) Decode(content []byte) error {
 
 	// скорость
 	tmpUint16Buf := make([]byte, 2)
-	if _, err = buf.Read(tmpUint16Buf); err != nil {
+	if _, err = io.ReadFull(buf, tmpUint16Buf); err != nil {
 		return fmt.Errorf("Не удалось получить скорость: %v", err)
 	}
 	spd := binary.LittleEndian.Uint16(tmpUint16Buf)
@@ -103,7 +104,7 @@ func (e *SrPosData) Decode(content []byte) error {
 	e.Direction |= e.DirectionHighestBit << 7
 
 	bytesTmpBuf := make([]byte, 3)
-	if _, err = buf.Read(bytesTmpBuf); err != nil {
+	if _, err = io.ReadFull(buf, bytesTmpBuf); err != nil {
 		return fmt.Errorf("Не удалось получить пройденное расстояние (пробег) в км: %v", err)
 	}
 	bytesTmpBuf = append(bytesTmpBuf, 0x00)
@@ -119,7 +120,7 @@ func (e *SrPosData) Decode(content []byte) error {
 
 	if e.ALTE == "1" {
 		bytesTmpBuf = []byte{0, 0, 0, 0}
-		if _, err = buf.Read(bytesTmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, bytesTmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить высоту над уровнем моря: %v", err)
 		}
 		e.Altitude = binary.LittleEndian.Uint32(bytesTmpBuf)
diff --git a/libs/egts/egts_sr_response.go b/libs/egts/egts_sr_response.go
index b9f193d..31b8921 100644
--- a/libs/egts/egts_sr_response.go
+++ b/libs/egts/egts_sr_response.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 )
 
 //SrResponse структура подзаписи типа EGTS_SR_RESPONSE, которая применяется для подтверждения
@@ -21,7 +22,7 @@ func (s *SrResponse) Decode(content []byte) error {
 	buf := bytes.NewBuffer(content)
 
 	tmpIntBuf := make([]byte, 2)
-	if _, err = buf.Read(tmpIntBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 		return fmt.Errorf("Не удалось получить номер подтверждаемой записи: %v", err)
 	}
 	s.ConfirmedRecordNumber = binary.LittleEndian.Uint16(tmpIntBuf)
diff --git a/libs/egts/egts_sr_term_identity.go b/libs/egts/egts_sr_term_identity.go
index ad9b33f..19d4acd 100644
--- a/libs/egts/egts_sr_term_identity.go
+++ b/libs/egts/egts_sr_term_identity.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -37,7 +38,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 	buf := bytes.NewReader(content)
 
 	tmpBuf := make([]byte, 4)
-	if _, err = buf.Read(tmpBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 		return fmt.Errorf("Не удалось получить идентификатор терминал при авторизации")
 	}
 	e.TerminalIdentifier = binary.LittleEndian.Uint32(tmpBuf)
@@ -57,7 +58,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.HDIDE == "1" {
 		tmpBuf = make([]byte, 2)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить идентификатор «домашней» телематической платформы при авторизации")
 		}
 		e.HomeDispatcherIdentifier = binary.LittleEndian.Uint16(tmpBuf)
@@ -66,7 +67,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.IMEIE == "1" {
 		tmpBuf = make([]byte, 15)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить IMEI при авторизации")
 		}
 		e.IMEI = string(tmpBuf)
@@ -74,7 +75,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.IMSIE == "1" {
 		tmpBuf = make([]byte, 16)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить IMSI при авторизации")
 		}
 		e.IMSI = string(tmpBuf)
@@ -82,7 +83,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.LNGCE == "1" {
 		tmpBuf = make([]byte, 3)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить код языка при авторизации")
 		}
 		e.LanguageCode = string(tmpBuf)
@@ -90,14 +91,14 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.NIDE == "1" {
 		e.NetworkIdentifier = make([]byte, 3)
-		if _, err = buf.Read(e.NetworkIdentifier); err != nil {
+		if _, err = io.ReadFull(buf, e.NetworkIdentifier); err != nil {
 			return fmt.Errorf("Не удалось получить код идентификатор сети оператора при авторизации")
 		}
 	}
 
 	if e.BSE == "1" {
 		tmpBuf = make([]byte, 2)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить максимальный размер буфера при авторизации")
 		}
 		e.BufferSize = binary.LittleEndian.Uint16(tmpBuf)
@@ -105,7 +106,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.MNE == "1" {
 		tmpBuf = make([]byte, 15)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить телефонный номер мобильного абонента")
 		}
 		e.MobileNumber = string(tmpBuf)
diff --git a/libs/egts/record_data.go b/libs/egts/record_data.go
index 51ecd9e..ec317ff 100644
--- a/libs/egts/record_data.go
+++ b/libs/egts/record_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 
 	log "github.com/sirupsen/logrus"
 )
@@ -31,7 +32,7 @@ func (rds *RecordDataSet) Decode(recDS []byte) error {
 		}
 
 		tmpIntBuf := make([]byte, 2)
-		if _, err = buf.Read(tmpIntBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 			return fmt.Errorf("Не удалось получить длину записи subrecord data: %v", err)
 		}
 		rd.SubrecordLength = binary.LittleEndian.Uint16(tmpIntBuf)
diff --git a/libs/egts/service_data_records.go b/libs/egts/service_data_records.go
index 60ed468..e0bdaf0 100644
--- a/libs/egts/service_data_records.go
+++ b/libs/egts/service_data_records.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 	"time"
 )
@@ -45,12 +46,12 @@ func (s *ServiceDataSet) Decode(serviceDS []byte) error {
 	for buf.Len() > 0 {
 		sdr := ServiceDataRecord{}
 		tmpIntBuf := make([]byte, 2)
-		if _, err = buf.Read(tmpIntBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 			return fmt.Errorf("не удалось получить длину записи SDR: %v", err)
 		}
 		sdr.RecordLength = binary.LittleEndian.Uint16(tmpIntBuf)
 
-		if _, err = buf.Read(tmpIntBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 			return fmt.Errorf("не удалось получить номер записи SDR: %v", err)
 		}
 		sdr.RecordNumber = binary.LittleEndian.Uint16(tmpIntBuf)
@@ -69,7 +70,7 @@ func (s *ServiceDataSet) Decode(serviceDS []byte) error {
 
 		if sdr.ObjectIDFieldExists == "1" {
 			oid := make([]byte, 4)
-			if _, err := buf.Read(oid); err != nil {
+			if _, err := io.ReadFull(buf, oid); err != nil {
 				return fmt.Errorf("не удалось получить идентификатор объекта SDR: %v", err)
 			}
 			sdr.ObjectIdentifier = binary.LittleEndian.Uint32(oid)
@@ -77,7 +78,7 @@ func (s *ServiceDataSet) Decode(serviceDS []byte) error {
 
 		if sdr.EventIDFieldExists == "1" {
 			event := make([]byte, 4)
-			if _, err := buf.Read(event); err != nil {
+			if _, err := io.ReadFull(buf, event); err != nil {
 				return fmt.Errorf("не удалось получить идентификатор события SDR: %v", err)
 			}
 			sdr.EventIdentifier = binary.LittleEndian.Uint32(event)
@@ -86,7 +87,7 @@ func (s *ServiceDataSet) Decode(serviceDS []byte) error {
 		// Преобразуем время навигации к формату, который требует стандарт: количество секунд с 00:00:00 01.01.2010 UTC
 		if sdr.TimeFieldExists == "1" {
 			tm := make([]byte, 4)
-			if _, err := buf.Read(tm); err != nil {
+			if _, err := io.ReadFull(buf, tm); err != nil {
 				return fmt.Errorf("не удалось получить время формирования записи на стороне отправителя SDR: %v", err)
 			}
 			preFieldVal := binary.LittleEndian.Uint32(tm)
@@ -104,7 +105,7 @@ func (s *ServiceDataSet) Decode(serviceDS []byte) error {
 		if buf.Len() != 0 {
 			rds := RecordDataSet{}
 			rdsBytes := make([]byte, sdr.RecordLength)
-			if _, err = buf.Read(rdsBytes); err != nil {
+			if _, err = io.ReadFull(buf, rdsBytes); err != nil {
 				return err
 			}
 
-- 
2.43.0


From a99c33abc99dc020e72883a43fd1f950f9867606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:26 +0000
Subject: [PATCH 04/18] fix: reject a subrecord whose declared length exceeds
 the remaining data

---
 libs/egts/record_data.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libs/egts/record_data.go b/libs/egts/record_data.go
index ec317ff..484e397 100644
--- a/libs/egts/record_data.go
+++ b/libs/egts/record_data.go
@@ -37,6 +37,9 @@ func (rds *RecordDataSet) Decode(recDS []byte) error {
 		}
 		rd.SubrecordLength = binary.LittleEndian.Uint16(tmpIntBuf)
 
+		if buf.Len() < int(rd.SubrecordLength) {
+			return fmt.Errorf("Длина подзаписи %d больше длины оставшихся данных: %d", rd.SubrecordLength, buf.Len())
+		}
 		subRecordBytes := buf.Next(int(rd.SubrecordLength))
 
 		switch rd.SubrecordType {
-- 
2.43.0


From 1c89509f4ab0973eaba59eea3dc431eb0f18de56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:26 +0000
Subject: [PATCH 05/18] fix: decode the second counter of EGTS_SR_COUNTERS_DATA
 into its own field

---
 libs/egts/egts_sr_counters_data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/egts/egts_sr_counters_data.go b/libs/egts/egts_sr_counters_data.go
index b8128d4..1aa445a 100644
--- a/libs/egts/egts_sr_counters_data.go
+++ b/libs/egts/egts_sr_counters_data.go
@@ -66,7 +66,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 			return fmt.Errorf("Не удалось получить показания CN2: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
-		c.Counter1 = binary.LittleEndian.Uint32(counterVal)
+		c.Counter2 = binary.LittleEndian.Uint32(counterVal)
 	}
 
 	if c.CounterFieldExists3 == "1" {
-- 
2.43.0


From df1759194f740c9a34cb9b77cb4995109d990aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:26 +0000
Subject: [PATCH 06/18] fix: write analog sensor flags of
 EGTS_SR_AD_SENSORS_DATA in the order they are read

---
 libs/egts/egts_sr_ad_sensors_data.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/libs/egts/egts_sr_ad_sensors_data.go b/libs/egts/egts_sr_ad_sensors_data.go
index be70056..631cae4 100644
--- a/libs/egts/egts_sr_ad_sensors_data.go
+++ b/libs/egts/egts_sr_ad_sensors_data.go
@@ -235,14 +235,14 @@ func (e *SrAdSensorsData) Encode() ([]byte, error) {
 		return result, fmt.Errorf("Не удалось записать битовые флаги дискретных выходов: %v", err)
 	}
 
-	flagsBits = e.AnalogSensorFieldExists1 +
-		e.AnalogSensorFieldExists2 +
-		e.AnalogSensorFieldExists3 +
-		e.AnalogSensorFieldExists4 +
-		e.AnalogSensorFieldExists5 +
-		e.AnalogSensorFieldExists6 +
+	flagsBits = e.AnalogSensorFieldExists8 +
 		e.AnalogSensorFieldExists7 +
-		e.AnalogSensorFieldExists8
+		e.AnalogSensorFieldExists6 +
+		e.AnalogSensorFieldExists5 +
+		e.AnalogSensorFieldExists4 +
+		e.AnalogSensorFieldExists3 +
+		e.AnalogSensorFieldExists2 +
+		e.AnalogSensorFieldExists1
 
 	if flags, err = strconv.ParseUint(flagsBits, 2, 8); err != nil {
 		return result, fmt.Errorf("Не удалось сгенерировать байт байт аналоговых выходов ad_sesor_data: %v", err)
-- 
2.43.0


From 7aa483dbca6f993e9dfb710c6321b65ddfd9358b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:26 +0000
Subject: [PATCH 07/18] fix: altitude of EGTS_SR_POS_DATA is three bytes long

---
 libs/egts/egts_sr_pos_data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/egts/egts_sr_pos_data.go b/libs/egts/egts_sr_pos_data.go
index f94b0e5..83bf2a4 100644
--- a/libs/egts/egts_sr_pos_data.go
+++ b/libs/egts/egts_sr_pos_data.go
@@ -120,7 +120,7 @@ func (e *SrPosData) Decode(content []byte) error {
 
 	if e.ALTE == "1" {
 		bytesTmpBuf = []byte{0, 0, 0, 0}
-		if _, err = io.ReadFull(buf, bytesTmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, bytesTmpBuf[:3]); err != nil {
 			return fmt.Errorf("Не удалось получить высоту над уровнем моря: %v", err)
 		}
 		e.Altitude = binary.LittleEndian.Uint32(bytesTmpBuf)
-- 
2.43.0


From 301293ceef4cf02b7027aaef13574503a810b576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:26 +0000
Subject: [PATCH 08/18] fix: infer the subrecord type of module data and
 dispatcher identity

---
 libs/egts/record_data.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/egts/record_data.go b/libs/egts/record_data.go
index 484e397..8f1fc60 100644
--- a/libs/egts/record_data.go
+++ b/libs/egts/record_data.go
@@ -111,6 +111,10 @@ func (rds *RecordDataSet) Encode() ([]byte, error) {
 				rd.SubrecordType = SrPosDataType
 			case *SrTermIdentity:
 				rd.SubrecordType = SrTermIdentityType
+			case *SrModuleData:
+				rd.SubrecordType = SrModuleDataType
+			case *SrDispatcherIdentity:
+				rd.SubrecordType = SrDispatcherIdentityType
 			case *SrResponse:
 				rd.SubrecordType = SrRecordResponseType
 			case *SrResultCode:
-- 
2.43.0


From 98a83f18f13e230b23c7f366485d98adefc3a2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:26 +0000
Subject: [PATCH 09/18] fix: report unusable flags when encoding
 EGTS_SR_TERM_IDENTITY

---
 libs/egts/egts_sr_term_identity.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libs/egts/egts_sr_term_identity.go b/libs/egts/egts_sr_term_identity.go
index 19d4acd..b2ec1a9 100644
--- a/libs/egts/egts_sr_term_identity.go
+++ b/libs/egts/egts_sr_term_identity.go
@@ -129,6 +129,9 @@ func (e *SrTermIdentity) Encode() ([]byte, error) {
 	}
 
 	flags, err = strconv.ParseUint(e.MNE+e.BSE+e.NIDE+e.SSRA+e.LNGCE+e.IMSIE+e.IMEIE+e.HDIDE, 2, 8)
+	if err != nil {
+		return result, fmt.Errorf("Не удалось сгенерировать байт флагов term identify: %v", err)
+	}
 	if err = buf.WriteByte(uint8(flags)); err != nil {
 		return result, fmt.Errorf("Не удалось записать байт флагов term identify: %v", err)
 	}
-- 
2.43.0


From a42814b8ebebe92720bb4a403a67d5157ea05e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:26 +0000
Subject: [PATCH 10/18] fix: refuse to encode a packet body that does not fit
 its length field

---
 libs/egts/egts_pkg.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/egts/egts_pkg.go b/libs/egts/egts_pkg.go
index e35bb35..3dce6e8 100644
--- a/libs/egts/egts_pkg.go
+++ b/libs/egts/egts_pkg.go
@@ -6,6 +6,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
+	"math"
 	"strconv"
 )
 
@@ -238,6 +239,9 @@ func (p *Package) Encode(opt ...func(*Options)) ([]byte, error) {
 			}
 		}
 	}
+	if len(sfrd) > math.MaxUint16 {
+		return result, fmt.Errorf("Слишком большое тело пакета: %d", len(sfrd))
+	}
 	p.FrameDataLength = uint16(len(sfrd))
 	if err = binary.Write(buf, binary.LittleEndian, p.FrameDataLength); err != nil {
 		return result, fmt.Errorf("Не удалось записать длину секции данных: %v", err)
-- 
2.43.0


From 79dd7565fdaa083eb352412906b37cd4bf1f389c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:26 +0000
Subject: [PATCH 11/18] fix: compute the packet length without wrapping and
 drop impossible lengths

---
 cli/receiver/server/server.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 49f30c7..a47e042 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -93,9 +93,13 @@ func (s *Server) handleConn(conn net.Conn) {
 
 			// вычисляем длину пакета, равную длине заголовка (HL) + длина тела (FDL) + CRC пакета 2 байта если есть FDL из приказа минтранса №285
 			bodyLen := binary.LittleEndian.Uint16(headerBuf[5:7])
-			pkgLen := uint16(headerBuf[3])
+			pkgLen := int(headerBuf[3])
 			if bodyLen > 0 {
-				pkgLen += bodyLen + 2
+				pkgLen += int(bodyLen) + 2
+			}
+			if pkgLen < headerLen {
+				log.WithField("ip", conn.RemoteAddr()).Warn("Не корректная длина пакета ЕГТС. Закрыто соединение")
+				return
 			}
 			// получаем концовку ЕГТС пакета
 			buf := make([]byte, pkgLen-headerLen)
-- 
2.43.0


From 89de206521db3ee8fddf1a660f826fb1de45cf00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:26 +0000
Subject: [PATCH 12/18] fix: send the authorisation result as an application
 data packet

Its body is a service record set, so with the response type no client can
decode it.
---
 cli/receiver/server/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index a47e042..e0ef7be 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -392,7 +392,7 @@ func createSrResultCode(pid uint16, resultCode uint8) ([]byte, error) {
 		HeaderEncoding:    0,
 		FrameDataLength:   sfd.Length(),
 		PacketIdentifier:  pid + 1,
-		PacketType:        egts.PtResponsePacket,
+		PacketType:        egts.PtAppdataPacket,
 		ServicesFrameData: &sfd,
 	}
 
-- 
2.43.0


From 67e5d038dab2d110b579e96bee0f398173f45278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:26 +0000
Subject: [PATCH 13/18] fix: assemble the record number from counters 110 and
 111 in the right byte order

---
 cli/receiver/server/server.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index e0ef7be..0cdb591 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -239,8 +239,11 @@ func (s *Server) handleConn(conn net.Conn) {
 						switch subRecData.CounterNumber {
 						case 110:
 							// Три младших байта номера передаваемой записи (идет вместе с каждой POS_DATA).
-							binary.BigEndian.PutUint32(packetIDBytes, subRecData.CounterValue)
-							exportPacket.PacketID = subRecData.CounterValue
+							tmpBuf := make([]byte, 4)
+							binary.LittleEndian.PutUint32(tmpBuf, subRecData.CounterValue)
+							copy(packetIDBytes[:3], tmpBuf)
+
+							exportPacket.PacketID = binary.LittleEndian.Uint32(packetIDBytes)
 						case 111:
 							// один старший байт номера передаваемой записи (идет вместе с каждой POS_DATA).
 							tmpBuf := make([]byte, 4)
-- 
2.43.0


From 63b945be1644dacb6d739afa98a2fda917f86ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:26 +0000
Subject: [PATCH 14/18] fix: enforce the configured connection TTL

The timer was only waited for after the peer had closed the connection; a
silent connection was kept forever.
---
 cli/receiver/server/server.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 0cdb591..0a125e2 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -75,7 +75,10 @@ func (s *Server) handleConn(conn net.Conn) {
 		srResultCodePkg = nil
 		recvPacket = nil
 
-		connTimer := time.NewTimer(s.ttl)
+		// ограничиваем время ожидания пакета
+		if s.ttl > 0 {
+			_ = conn.SetReadDeadline(time.Now().Add(s.ttl))
+		}
 
 		// считываем заголовок пакета
 		headerBuf := make([]byte, headerLen)
@@ -83,8 +86,6 @@ func (s *Server) handleConn(conn net.Conn) {
 
 		switch err {
 		case nil:
-			connTimer.Reset(s.ttl)
-
 			// если пакет не егтс формата закрываем соединение
 			if headerBuf[0] != 0x01 {
 				log.WithField("ip", conn.RemoteAddr()).Warn("Пакет не соответствует формату ЕГТС. Закрыто соединение")
@@ -111,8 +112,7 @@ func (s *Server) handleConn(conn net.Conn) {
 			// формируем полный пакет
 			recvPacket = append(headerBuf, buf...)
 		case io.EOF:
-			<-connTimer.C
-			log.WithField("ip", conn.RemoteAddr()).Warnf("Соединение закрыто по таймауту")
+			log.WithField("ip", conn.RemoteAddr()).Warnf("Соединение закрыто клиентом")
 			return
 		default:
 			log.WithField("err", err).Error("Ошибка при получении")
-- 
2.43.0


From d98d496da0aab7e4df8d95eed1e231dffe104325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:26 +0000
Subject: [PATCH 15/18] fix: export southern latitudes and western longitudes
 as negative

---
 cli/receiver/server/server.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 0a125e2..4087534 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -191,6 +191,13 @@ func (s *Server) handleConn(conn net.Conn) {
 						exportPacket.ReceivedTimestamp = receivedTimestamp
 						exportPacket.Latitude = subRecData.Latitude
 						exportPacket.Longitude = subRecData.Longitude
+						// координаты передаются по модулю, полушарие задают флаги
+						if subRecData.LAHS == "1" {
+							exportPacket.Latitude = -exportPacket.Latitude
+						}
+						if subRecData.LOHS == "1" {
+							exportPacket.Longitude = -exportPacket.Longitude
+						}
 						exportPacket.Speed = subRecData.Speed
 						exportPacket.Course = subRecData.Direction
 					case *egts.SrExtPosData:
-- 
2.43.0


From b89e873d58c0d32e54de3330a540384e5d8d12fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:26 +0000
Subject: [PATCH 16/18] fix: apply the default redis database when none is
 configured

---
 cli/receiver/storage/store/redis/connector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/receiver/storage/store/redis/connector.go b/cli/receiver/storage/store/redis/connector.go
index 70c75b1..b050cf4 100644
--- a/cli/receiver/storage/store/redis/connector.go
+++ b/cli/receiver/storage/store/redis/connector.go
@@ -39,7 +39,7 @@ func (c *Connector) Init(cfg map[string]string) error {
 		return fmt.Errorf("не задан адрес redis сервера")
 	}
 
-	configDb, _ := c.config["db"]
+	configDb, ok := c.config["db"]
 	if !ok {
 		configDb = "0"
 	}
-- 
2.43.0


From 097b241b5c9ff1f9361917db58de459614f5fd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:26 +0000
Subject: [PATCH 17/18] fix: packet generator sends the given time, waits for
 the ack and exits 0 on success

---
 cli/packet-gen/main.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index 75f10ca..7b243cf 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -58,7 +58,7 @@ func main() {
 	flag.IntVar(&liqLvl, "liquid", 0, "Liquid level for first sensor")
 	flag.Float64Var(&lat, "lat", 0, "Latitude")
 	flag.Float64Var(&lon, "lon", 0, "Longitude")
-	flag.IntVar(&ackTimeout, "timeout", 0, "Ack waiting time in seconds, Default: 5")
+	flag.IntVar(&ackTimeout, "timeout", 5, "Ack waiting time in seconds, Default: 5")
 	flag.StringVar(&server, "server", "localhost:5555", "Egts server address in format <ip>:<port>")
 
 	flag.Parse()
@@ -113,7 +113,7 @@ func main() {
 					egts.RecordData{
 						SubrecordType: 16,
 						SubrecordData: &egts.SrPosData{
-							NavigationTime:      time.Date(2021, time.February, 20, 0, 30, 40, 0, time.UTC),
+							NavigationTime:      timestamp,
 							Latitude:            lat,
 							Longitude:           lon,
 							ALTE:                "1",
@@ -221,5 +221,4 @@ func main() {
 	}
 
 	fmt.Println("Packet sent and processed correct")
-	os.Exit(1)
 }
-- 
2.43.0


From 3daee482b68c29c4dba8949ae55edec3d952603a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:07 +0000
Subject: [PATCH 18/18] fix: packet generator does not panic on an ack without
 confirmations

---
 cli/packet-gen/main.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index 7b243cf..ee868b0 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -207,7 +207,13 @@ func main() {
 		os.Exit(1)
 	}
 
-	for _, rec := range *ack.SDR.(*egts.ServiceDataSet) {
+	sdr, ok := ack.SDR.(*egts.ServiceDataSet)
+	if !ok {
+		fmt.Println("Received ack does not confirm any record")
+		os.Exit(1)
+	}
+
+	for _, rec := range *sdr {
 		for _, subRec := range rec.RecordDataSet {
 			if subRec.SubrecordType == egts.SrRecordResponseType {
 				if response, ok := subRec.SubrecordData.(*egts.SrResponse); ok {
-- 
2.43.0

