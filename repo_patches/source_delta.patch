From 37053b8c86a5a732627a67cf8eb02237c83e2a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:45 +0000
Subject: [PATCH 01/16] fix: uAvionix dialect did not compile (parser table
 declared under another name)

---
 uAvionix/dialect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uAvionix/dialect.go b/uAvionix/dialect.go
index d9de5c4..2600ab9 100644
--- a/uAvionix/dialect.go
+++ b/uAvionix/dialect.go
@@ -62,7 +62,7 @@ var uavionixMessages = map[uint32]mavlink2.MessageMeta{
 	10003: mavlink2.MessageMeta{CRCExtra: 4, MinimumLength: 1, MaximumLength: 1},
 }
 
-var uAvionixParsers = map[uint32]mavlink2.FrameParser{
+var uavionixParsers = map[uint32]mavlink2.FrameParser{
 	10001: mavlink2.FrameParser(func(frame mavlink2.Frame) (message mavlink2.Message, err error) {
 		message = &UavionixAdsbOutCfg{}
 
-- 
2.43.0


From fbfca7be0e74bb59557faf3545e97537b32372a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:46 +0000
Subject: [PATCH 02/16] fix: example command did not compile (missing
 NewFrameStream argument)

---
 cmd/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/main.go b/cmd/main.go
index 39f8f3c..b9b954a 100644
--- a/cmd/main.go
+++ b/cmd/main.go
@@ -22,7 +22,7 @@ func main() {
 
 	dialects := mavlink2.Dialects{common.Dialect{}, ardupilotmega.Dialect{}}
 
-	stream := mavlink2.NewFrameStream(rwc, input, dialects)
+	stream := mavlink2.NewFrameStream(rwc, input, dialects, false)
 
 	var wg sync.WaitGroup
 
-- 
2.43.0


From eb10eecc741ca990d4b084fe2123566f9d96512c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:46 +0000
Subject: [PATCH 03/16] fix: V1 frames were packed with sequence, system and
 component IDs in the wrong header bytes

---
 stream.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stream.go b/stream.go
index e5379b3..7d71fa4 100644
--- a/stream.go
+++ b/stream.go
@@ -305,9 +305,9 @@ func packFrame(version int, senderSystemID, senderComponentID, messageSequence u
 		frameBytes = make([]byte, len(messageBytes)+6)
 		frameBytes[0] = V1StartByte
 		frameBytes[1] = uint8(len(messageBytes))
-		frameBytes[2] = senderSystemID
-		frameBytes[3] = senderComponentID
-		frameBytes[4] = messageSequence
+		frameBytes[2] = messageSequence
+		frameBytes[3] = senderSystemID
+		frameBytes[4] = senderComponentID
 
 		idBytes := make([]byte, 4)
 		binary.LittleEndian.PutUint32(idBytes, message.GetID())
-- 
2.43.0


From 170acafb90afd1eb8d940209113f90d5ca964689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:46 +0000
Subject: [PATCH 04/16] fix: GetSignature tested the compatibility flags; the
 signed flag is an incompatibility flag

---
 frame.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frame.go b/frame.go
index a27cc43..27d1995 100644
--- a/frame.go
+++ b/frame.go
@@ -195,7 +195,7 @@ func (frame FrameV2) GetChecksumInput() []byte {
 
 // GetSignature returns the V2 Signature of the frame, if it exists
 func (frame FrameV2) GetSignature() []byte {
-	if frame.GetCompatibilityFlags()&CompatibilityFlagSignature != CompatibilityFlagSignature {
+	if frame.GetIncompatibilityFlags()&CompatibilityFlagSignature != CompatibilityFlagSignature {
 		return nil
 	}
 	start := frame.GetMessageLength() + 12
-- 
2.43.0


From 15b9b249275af627c64a4a3a3ecfd01585a53355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:46 +0000
Subject: [PATCH 05/16] fix: an all-zero V2 payload was not truncated and
 exceeded the maximum message length

---
 util/util.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/util.go b/util/util.go
index 4ca91fd..4246af7 100644
--- a/util/util.go
+++ b/util/util.go
@@ -3,8 +3,9 @@ package util
 func TruncateV2(input []byte) []byte {
 	var i int
 	// Loop through the array in reverse until the first non-zero byte is found
+	// The first byte is never truncated, even if it is zero
 	for i = len(input); i > 0; i-- {
-		if input[i-1] != 0 {
+		if input[i-1] != 0 || i == 1 {
 			return input[:i]
 		}
 	}
-- 
2.43.0


From d27ab08277aa1abfb45759ae8599c4f33fe2eaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:15 +0000
Subject: [PATCH 06/16] fix: string setters left the tail of a longer previous
 value in the field

---
 ardupilotmega/device_op_read.go     | 1 +
 ardupilotmega/device_op_write.go    | 1 +
 common/adsb_vehicle.go              | 1 +
 common/ais_vessel.go                | 2 ++
 common/auth_key.go                  | 1 +
 common/camera_image_captured.go     | 1 +
 common/camera_information.go        | 1 +
 common/change_operator_control.go   | 1 +
 common/component_information.go     | 1 +
 common/debug_float_array.go         | 1 +
 common/debug_vect.go                | 1 +
 common/named_value_float.go         | 1 +
 common/named_value_int.go           | 1 +
 common/open_drone_id_operator_id.go | 1 +
 common/open_drone_id_self_id.go     | 1 +
 common/param_ext_ack.go             | 2 ++
 common/param_ext_request_read.go    | 1 +
 common/param_ext_set.go             | 2 ++
 common/param_ext_value.go           | 2 ++
 common/param_map_rc.go              | 1 +
 common/param_request_read.go        | 1 +
 common/param_set.go                 | 1 +
 common/param_value.go               | 1 +
 common/play_tune.go                 | 2 ++
 common/play_tune_v2.go              | 1 +
 common/smart_battery_info.go        | 1 +
 common/statustext.go                | 1 +
 common/statustext_long.go           | 1 +
 common/uavcan_node_info.go          | 1 +
 common/video_stream_information.go  | 2 ++
 common/wifi_config_ap.go            | 2 ++
 paparazzi/script_item.go            | 1 +
 uAvionix/uavionix_adsb_out_cfg.go   | 1 +
 33 files changed, 40 insertions(+)

diff --git a/ardupilotmega/device_op_read.go b/ardupilotmega/device_op_read.go
index fa99ade..d7af7e1 100644
--- a/ardupilotmega/device_op_read.go
+++ b/ardupilotmega/device_op_read.go
@@ -100,6 +100,7 @@ func (m *DeviceOpRead) String() string {
 // SetBusname encodes the input string to the Busname array
 func (m *DeviceOpRead) SetBusname(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(40)))
+	m.Busname = [40]byte{}
 	copy(m.Busname[:], []byte(input)[:clen])
 
 	if len(input) > 40 {
diff --git a/ardupilotmega/device_op_write.go b/ardupilotmega/device_op_write.go
index cbff8ce..00e0bd0 100644
--- a/ardupilotmega/device_op_write.go
+++ b/ardupilotmega/device_op_write.go
@@ -104,6 +104,7 @@ func (m *DeviceOpWrite) String() string {
 // SetBusname encodes the input string to the Busname array
 func (m *DeviceOpWrite) SetBusname(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(40)))
+	m.Busname = [40]byte{}
 	copy(m.Busname[:], []byte(input)[:clen])
 
 	if len(input) > 40 {
diff --git a/common/adsb_vehicle.go b/common/adsb_vehicle.go
index cd7493c..25d7bf7 100644
--- a/common/adsb_vehicle.go
+++ b/common/adsb_vehicle.go
@@ -116,6 +116,7 @@ func (m *AdsbVehicle) String() string {
 // SetCallsign encodes the input string to the Callsign array
 func (m *AdsbVehicle) SetCallsign(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(9)))
+	m.Callsign = [9]byte{}
 	copy(m.Callsign[:], []byte(input)[:clen])
 
 	if len(input) > 9 {
diff --git a/common/ais_vessel.go b/common/ais_vessel.go
index 2f81840..497e532 100644
--- a/common/ais_vessel.go
+++ b/common/ais_vessel.go
@@ -132,6 +132,7 @@ func (m *AisVessel) String() string {
 // SetCallsign encodes the input string to the Callsign array
 func (m *AisVessel) SetCallsign(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(7)))
+	m.Callsign = [7]byte{}
 	copy(m.Callsign[:], []byte(input)[:clen])
 
 	if len(input) > 7 {
@@ -151,6 +152,7 @@ func (m *AisVessel) GetCallsign() string {
 // SetName encodes the input string to the Name array
 func (m *AisVessel) SetName(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(20)))
+	m.Name = [20]byte{}
 	copy(m.Name[:], []byte(input)[:clen])
 
 	if len(input) > 20 {
diff --git a/common/auth_key.go b/common/auth_key.go
index 40953ae..f2af34e 100644
--- a/common/auth_key.go
+++ b/common/auth_key.go
@@ -68,6 +68,7 @@ func (m *AuthKey) String() string {
 // SetKey encodes the input string to the Key array
 func (m *AuthKey) SetKey(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(32)))
+	m.Key = [32]byte{}
 	copy(m.Key[:], []byte(input)[:clen])
 
 	if len(input) > 32 {
diff --git a/common/camera_image_captured.go b/common/camera_image_captured.go
index ab33c9e..bfc2cbc 100644
--- a/common/camera_image_captured.go
+++ b/common/camera_image_captured.go
@@ -108,6 +108,7 @@ func (m *CameraImageCaptured) String() string {
 // SetFileURL encodes the input string to the FileURL array
 func (m *CameraImageCaptured) SetFileURL(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(205)))
+	m.FileURL = [205]byte{}
 	copy(m.FileURL[:], []byte(input)[:clen])
 
 	if len(input) > 205 {
diff --git a/common/camera_information.go b/common/camera_information.go
index 14340b6..efbd79d 100644
--- a/common/camera_information.go
+++ b/common/camera_information.go
@@ -116,6 +116,7 @@ func (m *CameraInformation) String() string {
 // SetCamDefinitionURI encodes the input string to the CamDefinitionURI array
 func (m *CameraInformation) SetCamDefinitionURI(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(140)))
+	m.CamDefinitionURI = [140]byte{}
 	copy(m.CamDefinitionURI[:], []byte(input)[:clen])
 
 	if len(input) > 140 {
diff --git a/common/change_operator_control.go b/common/change_operator_control.go
index d999970..ddc101e 100644
--- a/common/change_operator_control.go
+++ b/common/change_operator_control.go
@@ -80,6 +80,7 @@ func (m *ChangeOperatorControl) String() string {
 // SetPasskey encodes the input string to the Passkey array
 func (m *ChangeOperatorControl) SetPasskey(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(25)))
+	m.Passkey = [25]byte{}
 	copy(m.Passkey[:], []byte(input)[:clen])
 
 	if len(input) > 25 {
diff --git a/common/component_information.go b/common/component_information.go
index caca03b..59bd067 100644
--- a/common/component_information.go
+++ b/common/component_information.go
@@ -96,6 +96,7 @@ func (m *ComponentInformation) String() string {
 // SetComponentDefinitionURI encodes the input string to the ComponentDefinitionURI array
 func (m *ComponentInformation) SetComponentDefinitionURI(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(140)))
+	m.ComponentDefinitionURI = [140]byte{}
 	copy(m.ComponentDefinitionURI[:], []byte(input)[:clen])
 
 	if len(input) > 140 {
diff --git a/common/debug_float_array.go b/common/debug_float_array.go
index ce35d70..68cc81f 100644
--- a/common/debug_float_array.go
+++ b/common/debug_float_array.go
@@ -97,6 +97,7 @@ func (m *DebugFloatArray) String() string {
 // SetName encodes the input string to the Name array
 func (m *DebugFloatArray) SetName(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(10)))
+	m.Name = [10]byte{}
 	copy(m.Name[:], []byte(input)[:clen])
 
 	if len(input) > 10 {
diff --git a/common/debug_vect.go b/common/debug_vect.go
index 52a2b4e..dc4dc20 100644
--- a/common/debug_vect.go
+++ b/common/debug_vect.go
@@ -84,6 +84,7 @@ func (m *DebugVect) String() string {
 // SetName encodes the input string to the Name array
 func (m *DebugVect) SetName(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(10)))
+	m.Name = [10]byte{}
 	copy(m.Name[:], []byte(input)[:clen])
 
 	if len(input) > 10 {
diff --git a/common/named_value_float.go b/common/named_value_float.go
index 492728a..5eb9d62 100644
--- a/common/named_value_float.go
+++ b/common/named_value_float.go
@@ -76,6 +76,7 @@ func (m *NamedValueFloat) String() string {
 // SetName encodes the input string to the Name array
 func (m *NamedValueFloat) SetName(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(10)))
+	m.Name = [10]byte{}
 	copy(m.Name[:], []byte(input)[:clen])
 
 	if len(input) > 10 {
diff --git a/common/named_value_int.go b/common/named_value_int.go
index a347384..4de1246 100644
--- a/common/named_value_int.go
+++ b/common/named_value_int.go
@@ -76,6 +76,7 @@ func (m *NamedValueInt) String() string {
 // SetName encodes the input string to the Name array
 func (m *NamedValueInt) SetName(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(10)))
+	m.Name = [10]byte{}
 	copy(m.Name[:], []byte(input)[:clen])
 
 	if len(input) > 10 {
diff --git a/common/open_drone_id_operator_id.go b/common/open_drone_id_operator_id.go
index 5d0a1ee..41a0e06 100644
--- a/common/open_drone_id_operator_id.go
+++ b/common/open_drone_id_operator_id.go
@@ -72,6 +72,7 @@ func (m *OpenDroneIDOperatorID) String() string {
 // SetOperatorID encodes the input string to the OperatorID array
 func (m *OpenDroneIDOperatorID) SetOperatorID(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(20)))
+	m.OperatorID = [20]byte{}
 	copy(m.OperatorID[:], []byte(input)[:clen])
 
 	if len(input) > 20 {
diff --git a/common/open_drone_id_self_id.go b/common/open_drone_id_self_id.go
index 8f0eb12..2146aea 100644
--- a/common/open_drone_id_self_id.go
+++ b/common/open_drone_id_self_id.go
@@ -72,6 +72,7 @@ func (m *OpenDroneIDSelfID) String() string {
 // SetDescription encodes the input string to the Description array
 func (m *OpenDroneIDSelfID) SetDescription(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(23)))
+	m.Description = [23]byte{}
 	copy(m.Description[:], []byte(input)[:clen])
 
 	if len(input) > 23 {
diff --git a/common/param_ext_ack.go b/common/param_ext_ack.go
index 6aafc61..1f849a0 100644
--- a/common/param_ext_ack.go
+++ b/common/param_ext_ack.go
@@ -80,6 +80,7 @@ func (m *ParamExtAck) String() string {
 // SetParamID encodes the input string to the ParamID array
 func (m *ParamExtAck) SetParamID(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(16)))
+	m.ParamID = [16]byte{}
 	copy(m.ParamID[:], []byte(input)[:clen])
 
 	if len(input) > 16 {
@@ -99,6 +100,7 @@ func (m *ParamExtAck) GetParamID() string {
 // SetParamValue encodes the input string to the ParamValue array
 func (m *ParamExtAck) SetParamValue(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(128)))
+	m.ParamValue = [128]byte{}
 	copy(m.ParamValue[:], []byte(input)[:clen])
 
 	if len(input) > 128 {
diff --git a/common/param_ext_request_read.go b/common/param_ext_request_read.go
index 6f95d4e..903ca11 100644
--- a/common/param_ext_request_read.go
+++ b/common/param_ext_request_read.go
@@ -80,6 +80,7 @@ func (m *ParamExtRequestRead) String() string {
 // SetParamID encodes the input string to the ParamID array
 func (m *ParamExtRequestRead) SetParamID(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(16)))
+	m.ParamID = [16]byte{}
 	copy(m.ParamID[:], []byte(input)[:clen])
 
 	if len(input) > 16 {
diff --git a/common/param_ext_set.go b/common/param_ext_set.go
index 12c1530..74fce6a 100644
--- a/common/param_ext_set.go
+++ b/common/param_ext_set.go
@@ -84,6 +84,7 @@ func (m *ParamExtSet) String() string {
 // SetParamID encodes the input string to the ParamID array
 func (m *ParamExtSet) SetParamID(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(16)))
+	m.ParamID = [16]byte{}
 	copy(m.ParamID[:], []byte(input)[:clen])
 
 	if len(input) > 16 {
@@ -103,6 +104,7 @@ func (m *ParamExtSet) GetParamID() string {
 // SetParamValue encodes the input string to the ParamValue array
 func (m *ParamExtSet) SetParamValue(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(128)))
+	m.ParamValue = [128]byte{}
 	copy(m.ParamValue[:], []byte(input)[:clen])
 
 	if len(input) > 128 {
diff --git a/common/param_ext_value.go b/common/param_ext_value.go
index 743dc97..365ea67 100644
--- a/common/param_ext_value.go
+++ b/common/param_ext_value.go
@@ -84,6 +84,7 @@ func (m *ParamExtValue) String() string {
 // SetParamID encodes the input string to the ParamID array
 func (m *ParamExtValue) SetParamID(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(16)))
+	m.ParamID = [16]byte{}
 	copy(m.ParamID[:], []byte(input)[:clen])
 
 	if len(input) > 16 {
@@ -103,6 +104,7 @@ func (m *ParamExtValue) GetParamID() string {
 // SetParamValue encodes the input string to the ParamValue array
 func (m *ParamExtValue) SetParamValue(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(128)))
+	m.ParamValue = [128]byte{}
 	copy(m.ParamValue[:], []byte(input)[:clen])
 
 	if len(input) > 128 {
diff --git a/common/param_map_rc.go b/common/param_map_rc.go
index 8aec9b0..1d699be 100644
--- a/common/param_map_rc.go
+++ b/common/param_map_rc.go
@@ -100,6 +100,7 @@ func (m *ParamMapRC) String() string {
 // SetParamID encodes the input string to the ParamID array
 func (m *ParamMapRC) SetParamID(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(16)))
+	m.ParamID = [16]byte{}
 	copy(m.ParamID[:], []byte(input)[:clen])
 
 	if len(input) > 16 {
diff --git a/common/param_request_read.go b/common/param_request_read.go
index 2a6456d..2a4abc9 100644
--- a/common/param_request_read.go
+++ b/common/param_request_read.go
@@ -80,6 +80,7 @@ func (m *ParamRequestRead) String() string {
 // SetParamID encodes the input string to the ParamID array
 func (m *ParamRequestRead) SetParamID(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(16)))
+	m.ParamID = [16]byte{}
 	copy(m.ParamID[:], []byte(input)[:clen])
 
 	if len(input) > 16 {
diff --git a/common/param_set.go b/common/param_set.go
index 8f5d597..5a29857 100644
--- a/common/param_set.go
+++ b/common/param_set.go
@@ -84,6 +84,7 @@ func (m *ParamSet) String() string {
 // SetParamID encodes the input string to the ParamID array
 func (m *ParamSet) SetParamID(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(16)))
+	m.ParamID = [16]byte{}
 	copy(m.ParamID[:], []byte(input)[:clen])
 
 	if len(input) > 16 {
diff --git a/common/param_value.go b/common/param_value.go
index 9cb1a20..8664315 100644
--- a/common/param_value.go
+++ b/common/param_value.go
@@ -84,6 +84,7 @@ func (m *ParamValue) String() string {
 // SetParamID encodes the input string to the ParamID array
 func (m *ParamValue) SetParamID(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(16)))
+	m.ParamID = [16]byte{}
 	copy(m.ParamID[:], []byte(input)[:clen])
 
 	if len(input) > 16 {
diff --git a/common/play_tune.go b/common/play_tune.go
index 9aeff5e..b365da0 100644
--- a/common/play_tune.go
+++ b/common/play_tune.go
@@ -97,6 +97,7 @@ func (m *PlayTune) String() string {
 // SetTune encodes the input string to the Tune array
 func (m *PlayTune) SetTune(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(30)))
+	m.Tune = [30]byte{}
 	copy(m.Tune[:], []byte(input)[:clen])
 
 	if len(input) > 30 {
@@ -116,6 +117,7 @@ func (m *PlayTune) GetTune() string {
 // SetTune2 encodes the input string to the Tune2 array
 func (m *PlayTune) SetTune2(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(200)))
+	m.Tune2 = [200]byte{}
 	copy(m.Tune2[:], []byte(input)[:clen])
 
 	if len(input) > 200 {
diff --git a/common/play_tune_v2.go b/common/play_tune_v2.go
index 4399c8c..cd1f10c 100644
--- a/common/play_tune_v2.go
+++ b/common/play_tune_v2.go
@@ -80,6 +80,7 @@ func (m *PlayTuneV2) String() string {
 // SetTune encodes the input string to the Tune array
 func (m *PlayTuneV2) SetTune(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(248)))
+	m.Tune = [248]byte{}
 	copy(m.Tune[:], []byte(input)[:clen])
 
 	if len(input) > 248 {
diff --git a/common/smart_battery_info.go b/common/smart_battery_info.go
index 82355e8..8d75d5c 100644
--- a/common/smart_battery_info.go
+++ b/common/smart_battery_info.go
@@ -104,6 +104,7 @@ func (m *SmartBatteryInfo) String() string {
 // SetDeviceName encodes the input string to the DeviceName array
 func (m *SmartBatteryInfo) SetDeviceName(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(50)))
+	m.DeviceName = [50]byte{}
 	copy(m.DeviceName[:], []byte(input)[:clen])
 
 	if len(input) > 50 {
diff --git a/common/statustext.go b/common/statustext.go
index addfc4e..aae7e13 100644
--- a/common/statustext.go
+++ b/common/statustext.go
@@ -72,6 +72,7 @@ func (m *Statustext) String() string {
 // SetText encodes the input string to the Text array
 func (m *Statustext) SetText(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(50)))
+	m.Text = [50]byte{}
 	copy(m.Text[:], []byte(input)[:clen])
 
 	if len(input) > 50 {
diff --git a/common/statustext_long.go b/common/statustext_long.go
index dff0134..ea70a5e 100644
--- a/common/statustext_long.go
+++ b/common/statustext_long.go
@@ -72,6 +72,7 @@ func (m *StatustextLong) String() string {
 // SetText encodes the input string to the Text array
 func (m *StatustextLong) SetText(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(254)))
+	m.Text = [254]byte{}
 	copy(m.Text[:], []byte(input)[:clen])
 
 	if len(input) > 254 {
diff --git a/common/uavcan_node_info.go b/common/uavcan_node_info.go
index 00fb5c7..948974c 100644
--- a/common/uavcan_node_info.go
+++ b/common/uavcan_node_info.go
@@ -100,6 +100,7 @@ func (m *UavcanNodeInfo) String() string {
 // SetName encodes the input string to the Name array
 func (m *UavcanNodeInfo) SetName(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(80)))
+	m.Name = [80]byte{}
 	copy(m.Name[:], []byte(input)[:clen])
 
 	if len(input) > 80 {
diff --git a/common/video_stream_information.go b/common/video_stream_information.go
index e8cd673..1fbb155 100644
--- a/common/video_stream_information.go
+++ b/common/video_stream_information.go
@@ -112,6 +112,7 @@ func (m *VIDeoStreamInformation) String() string {
 // SetName encodes the input string to the Name array
 func (m *VIDeoStreamInformation) SetName(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(32)))
+	m.Name = [32]byte{}
 	copy(m.Name[:], []byte(input)[:clen])
 
 	if len(input) > 32 {
@@ -131,6 +132,7 @@ func (m *VIDeoStreamInformation) GetName() string {
 // SetURI encodes the input string to the URI array
 func (m *VIDeoStreamInformation) SetURI(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(160)))
+	m.URI = [160]byte{}
 	copy(m.URI[:], []byte(input)[:clen])
 
 	if len(input) > 160 {
diff --git a/common/wifi_config_ap.go b/common/wifi_config_ap.go
index 4b5febf..c964746 100644
--- a/common/wifi_config_ap.go
+++ b/common/wifi_config_ap.go
@@ -72,6 +72,7 @@ func (m *WifiConfigAp) String() string {
 // SetSsID encodes the input string to the SsID array
 func (m *WifiConfigAp) SetSsID(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(32)))
+	m.SsID = [32]byte{}
 	copy(m.SsID[:], []byte(input)[:clen])
 
 	if len(input) > 32 {
@@ -91,6 +92,7 @@ func (m *WifiConfigAp) GetSsID() string {
 // SetPassword encodes the input string to the Password array
 func (m *WifiConfigAp) SetPassword(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(64)))
+	m.Password = [64]byte{}
 	copy(m.Password[:], []byte(input)[:clen])
 
 	if len(input) > 64 {
diff --git a/paparazzi/script_item.go b/paparazzi/script_item.go
index cdb8974..8a384d1 100644
--- a/paparazzi/script_item.go
+++ b/paparazzi/script_item.go
@@ -80,6 +80,7 @@ func (m *ScriptItem) String() string {
 // SetName encodes the input string to the Name array
 func (m *ScriptItem) SetName(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(50)))
+	m.Name = [50]byte{}
 	copy(m.Name[:], []byte(input)[:clen])
 
 	if len(input) > 50 {
diff --git a/uAvionix/uavionix_adsb_out_cfg.go b/uAvionix/uavionix_adsb_out_cfg.go
index 64dd936..4f6ecaf 100644
--- a/uAvionix/uavionix_adsb_out_cfg.go
+++ b/uAvionix/uavionix_adsb_out_cfg.go
@@ -96,6 +96,7 @@ func (m *UavionixAdsbOutCfg) String() string {
 // SetCallsign encodes the input string to the Callsign array
 func (m *UavionixAdsbOutCfg) SetCallsign(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(9)))
+	m.Callsign = [9]byte{}
 	copy(m.Callsign[:], []byte(input)[:clen])
 
 	if len(input) > 9 {
-- 
2.43.0


From a49d12b647386eeec9266792fff7ec1b70dbb38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:17 +0000
Subject: [PATCH 07/16] fix: V2Extension is variable length: accept short V1
 frames and payloads truncated below the fixed fields

---
 common/dialect.go      | 2 +-
 common/v2_extension.go | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/common/dialect.go b/common/dialect.go
index cf90dd8..7725f73 100644
--- a/common/dialect.go
+++ b/common/dialect.go
@@ -190,7 +190,7 @@ var commonMessages = map[uint32]mavlink2.MessageMeta{
 	245:   mavlink2.MessageMeta{CRCExtra: 130, MinimumLength: 2, MaximumLength: 2},
 	246:   mavlink2.MessageMeta{CRCExtra: 184, MinimumLength: 38, MaximumLength: 38},
 	247:   mavlink2.MessageMeta{CRCExtra: 81, MinimumLength: 19, MaximumLength: 19},
-	248:   mavlink2.MessageMeta{CRCExtra: 8, MinimumLength: 254, MaximumLength: 254},
+	248:   mavlink2.MessageMeta{CRCExtra: 8, MinimumLength: 5, MaximumLength: 254},
 	249:   mavlink2.MessageMeta{CRCExtra: 204, MinimumLength: 36, MaximumLength: 36},
 	250:   mavlink2.MessageMeta{CRCExtra: 49, MinimumLength: 30, MaximumLength: 30},
 	251:   mavlink2.MessageMeta{CRCExtra: 170, MinimumLength: 18, MaximumLength: 18},
diff --git a/common/v2_extension.go b/common/v2_extension.go
index 58bc6a5..b730ba2 100644
--- a/common/v2_extension.go
+++ b/common/v2_extension.go
@@ -163,7 +163,8 @@ func (m *V2Extension) Read(frame mavlink2.Frame) (err error) {
 	copy(ioBytes, frame.GetMessageBytes())
 
 	// Add the length of the payload to the end of the array so that it is read in as PayloadLength
-	ioBytes[len(ioBytes)-1] = uint8(math.Max(0, float64(frame.GetMessageLength()-5)))
+	// V2 truncation can leave fewer bytes than the fixed fields occupy, in which case there is no payload
+	ioBytes[len(ioBytes)-1] = uint8(math.Max(0, float64(frame.GetMessageLength())-5))
 
 	buffer := bytes.NewBuffer(ioBytes)
 
-- 
2.43.0


From 33d6ed416211af3b86aa0cc1792d26727f5313fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:19 +0000
Subject: [PATCH 08/16] fix: with no dialects loaded every message is unknown

---
 dialect.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dialect.go b/dialect.go
index 1beea4e..f8a913d 100644
--- a/dialect.go
+++ b/dialect.go
@@ -37,6 +37,8 @@ type Dialects []Dialect
 
 // GetMessage decodes the message in the Frame
 func (d Dialects) GetMessage(frame Frame) (message Message, err error) {
+	err = ErrUnknownMessage
+
 	for _, dialect := range d {
 		message, err = dialect.GetMessage(frame)
 
@@ -59,6 +61,8 @@ func (d Dialects) GetMessage(frame Frame) (message Message, err error) {
 func (d Dialects) GetFrame(version int, senderSystemID, senderComponentID, messageSequence uint8, message Message) (frame Frame, err error) {
 	var meta MessageMeta
 
+	err = ErrUnknownMessage
+
 	for _, dialect := range d {
 		meta, err = dialect.GetMeta(message.GetID())
 
@@ -85,7 +89,7 @@ func (d Dialects) Validate(frame Frame) error {
 	checksum.Reset()
 
 	var meta MessageMeta
-	var err error
+	err := ErrUnknownMessage
 	for _, dialect := range d {
 		meta, err = dialect.GetMeta(frame.GetMessageID())
 
-- 
2.43.0


From abbcc9d7089a5559608be481b37d6b9f03e9e7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:56 +0000
Subject: [PATCH 09/16] fix: truncated frames panicked instead of being
 reported as ErrFrameTooShort

---
 dialect.go | 12 +++++++++++-
 frame.go   | 31 +++++++++++++++++++++++++++++++
 2 files changed, 42 insertions(+), 1 deletion(-)

diff --git a/dialect.go b/dialect.go
index f8a913d..12e69d4 100644
--- a/dialect.go
+++ b/dialect.go
@@ -37,6 +37,11 @@ type Dialects []Dialect
 
 // GetMessage decodes the message in the Frame
 func (d Dialects) GetMessage(frame Frame) (message Message, err error) {
+	err = checkFrameLength(frame)
+	if err != nil {
+		return
+	}
+
 	err = ErrUnknownMessage
 
 	for _, dialect := range d {
@@ -85,11 +90,16 @@ func (d Dialects) GetFrame(version int, senderSystemID, senderComponentID, messa
 
 // Validate checks the frame to see if there are any obvious errors
 func (d Dialects) Validate(frame Frame) error {
+	err := checkFrameLength(frame)
+	if err != nil {
+		return err
+	}
+
 	checksum := new(X25CRC)
 	checksum.Reset()
 
 	var meta MessageMeta
-	err := ErrUnknownMessage
+	err = ErrUnknownMessage
 	for _, dialect := range d {
 		meta, err = dialect.GetMeta(frame.GetMessageID())
 
diff --git a/frame.go b/frame.go
index 27d1995..990095a 100644
--- a/frame.go
+++ b/frame.go
@@ -272,6 +272,11 @@ func FrameFromBytes(raw []byte, frameLength uint16, makeCopy bool) (frame Frame,
 		return
 	}
 
+	if makeCopy && len(raw) < int(frameLength) {
+		err = ErrFrameTooShort
+		return
+	}
+
 	startByte := raw[0]
 
 	if startByte == V1StartByte {
@@ -296,3 +301,29 @@ func FrameFromBytes(raw []byte, frameLength uint16, makeCopy bool) (frame Frame,
 
 	return
 }
+
+// checkFrameLength returns ErrFrameTooShort if the Frame ends before the header, message,
+// checksum or signature that its header announces
+func checkFrameLength(frame Frame) error {
+	raw := frame.Bytes()
+
+	frameLength := 8
+	if frame.GetVersion() == 2 {
+		frameLength = 12
+	}
+
+	if len(raw) < frameLength {
+		return ErrFrameTooShort
+	}
+
+	frameLength += int(raw[1])
+	if frame.GetVersion() == 2 && raw[2]&CompatibilityFlagSignature == CompatibilityFlagSignature {
+		frameLength += 13
+	}
+
+	if len(raw) < frameLength {
+		return ErrFrameTooShort
+	}
+
+	return nil
+}
-- 
2.43.0


From b4678e00b29ce2f9d8d98af4bd9c9af92e5ac3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:58 +0000
Subject: [PATCH 10/16] fix: a false start byte near the end of the stream hid
 the complete frames after it

---
 stream.go | 40 +++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/stream.go b/stream.go
index 7d71fa4..57f0d2e 100644
--- a/stream.go
+++ b/stream.go
@@ -69,6 +69,7 @@ type FrameStream struct {
 	closed              chan struct{}
 	buffer              []byte
 	bufferIndex         int
+	readErr             error
 	dialects            Dialects
 	returnInvalidFrames bool
 	invalidLogged       map[frameLoggingMetaData]bool
@@ -211,27 +212,36 @@ func peekHeader(buffer []byte) (frameLength uint16, startFound bool) {
 	}
 }
 
+// fill reads until there are at least n bytes in the buffer. Once a read has failed
+// the stream isn't read again, and fill returns the error of that read
+func (s *FrameStream) fill(reader *bufio.Reader, n int) error {
+	if s.bufferIndex >= n {
+		return nil
+	}
+
+	if s.readErr == nil {
+		var count int
+		count, s.readErr = io.ReadAtLeast(reader, s.buffer[s.bufferIndex:], n-s.bufferIndex)
+		s.bufferIndex += count
+	}
+
+	return s.readErr
+}
+
 func (s *FrameStream) readFrame(reader *bufio.Reader) (frame Frame, err error) {
 	for {
-		if s.bufferIndex < 3 {
-			bytesNeeded := 3 - s.bufferIndex
-			n, err := io.ReadAtLeast(reader, s.buffer[s.bufferIndex:], bytesNeeded)
-			if err != nil {
-				return frame, err
-			}
-			s.bufferIndex += n
+		if err = s.fill(reader, 3); err != nil {
+			return frame, err
 		}
 
 		frameLength, startFound := peekHeader(s.buffer)
 		if startFound {
-			if s.bufferIndex < int(frameLength) {
-				bytesNeeded := int(frameLength) - s.bufferIndex
-				//bytes := make([]byte, bytesNeeded)
-				n, err := io.ReadAtLeast(reader, s.buffer[s.bufferIndex:], bytesNeeded)
-				if err != nil {
-					return frame, err
-				}
-				s.bufferIndex += n
+			if err = s.fill(reader, int(frameLength)); err != nil {
+				// The stream ended before this frame was complete. If the start byte was
+				// a false one, there can still be complete frames in the rest of the buffer
+				copy(s.buffer, s.buffer[1:])
+				s.bufferIndex -= 1
+				continue
 			}
 
 			// validate
-- 
2.43.0


From 0867b76b65e0ad71caece6ac7aed58889b2df577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:59 +0000
Subject: [PATCH 11/16] fix: closing a stream panicked or deadlocked a
 concurrent ReadContext, leaked WriteContext and raced with GetCloseErr

---
 stream.go | 40 ++++++++++++++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/stream.go b/stream.go
index 57f0d2e..dffc5a8 100644
--- a/stream.go
+++ b/stream.go
@@ -131,19 +131,26 @@ func (s *FrameStream) Closed() <-chan struct{} {
 
 func (s *FrameStream) close(err error) {
 	s.closeOnce.Do(func() {
-		s.Lock()
-		defer s.Unlock()
-
 		s.closeErr = err
 
+		// Wake up a ReadContext that is blocked sending a frame. It holds the read lock
+		// while it does, so that outputFrames isn't closed under it
+		close(s.closed)
 		s.rwc.Close()
+
+		s.Lock()
 		close(s.outputFrames)
-		close(s.closed)
+		s.Unlock()
 	})
 }
 
 func (s *FrameStream) GetCloseErr() error {
-	return s.closeErr
+	select {
+	case <-s.closed:
+		return s.closeErr
+	default:
+		return nil
+	}
 }
 
 func (s *FrameStream) WriteContext(ctx context.Context) {
@@ -152,6 +159,8 @@ func (s *FrameStream) WriteContext(ctx context.Context) {
 		case <-ctx.Done():
 			s.close(ctx.Err())
 			return
+		case <-s.closed:
+			return
 		case frame, ok := <-s.inputFrames:
 			if !ok {
 				s.close(ErrWriteChannelClosed)
@@ -176,6 +185,8 @@ func (s *FrameStream) ReadContext(ctx context.Context) {
 		case <-ctx.Done():
 			s.close(ctx.Err())
 			return
+		case <-s.closed:
+			return
 		default:
 			frame, err := s.readFrame(s.reader)
 
@@ -186,11 +197,28 @@ func (s *FrameStream) ReadContext(ctx context.Context) {
 			if s.logger != nil {
 				s.logger.LogRead(frame.Bytes())
 			}
-			s.outputFrames <- frame
+			s.deliver(frame)
 		}
 	}
 }
 
+// deliver sends the frame to the reader of the stream, unless the stream is closed first
+func (s *FrameStream) deliver(frame Frame) {
+	s.RLock()
+	defer s.RUnlock()
+
+	select {
+	case <-s.closed:
+		return
+	default:
+	}
+
+	select {
+	case s.outputFrames <- frame:
+	case <-s.closed:
+	}
+}
+
 func peekHeader(buffer []byte) (frameLength uint16, startFound bool) {
 	messageLength := buffer[1]
 	startByte := buffer[0]
-- 
2.43.0


From 1979982b49a2153a55981649a6d6e8020358db02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:01 +0000
Subject: [PATCH 12/16] fix: cancelling the context did not close a stream that
 was blocked in a read or write

---
 stream.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/stream.go b/stream.go
index dffc5a8..43f76f1 100644
--- a/stream.go
+++ b/stream.go
@@ -153,7 +153,25 @@ func (s *FrameStream) GetCloseErr() error {
 	}
 }
 
+// closeOnDone closes the stream when the context is done, until the returned function is called.
+// Reads and writes that block are only interrupted by closing the stream
+func (s *FrameStream) closeOnDone(ctx context.Context) (stop func()) {
+	stopped := make(chan struct{})
+
+	go func() {
+		select {
+		case <-ctx.Done():
+			s.close(ctx.Err())
+		case <-stopped:
+		}
+	}()
+
+	return func() { close(stopped) }
+}
+
 func (s *FrameStream) WriteContext(ctx context.Context) {
+	defer s.closeOnDone(ctx)()
+
 	for {
 		select {
 		case <-ctx.Done():
@@ -180,6 +198,8 @@ func (s *FrameStream) WriteContext(ctx context.Context) {
 }
 
 func (s *FrameStream) ReadContext(ctx context.Context) {
+	defer s.closeOnDone(ctx)()
+
 	for {
 		select {
 		case <-ctx.Done():
-- 
2.43.0


From 1be00bfa331e2f648643275592b6477a473059cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:07 +0000
Subject: [PATCH 13/16] fix: a V2Extension decoded from an overlong invalid
 frame panicked when its payload was read

---
 common/v2_extension.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/common/v2_extension.go b/common/v2_extension.go
index b730ba2..0311a1e 100644
--- a/common/v2_extension.go
+++ b/common/v2_extension.go
@@ -164,7 +164,9 @@ func (m *V2Extension) Read(frame mavlink2.Frame) (err error) {
 
 	// Add the length of the payload to the end of the array so that it is read in as PayloadLength
 	// V2 truncation can leave fewer bytes than the fixed fields occupy, in which case there is no payload
-	ioBytes[len(ioBytes)-1] = uint8(math.Max(0, float64(frame.GetMessageLength())-5))
+	// An invalid frame can be longer than the message
+	payloadLength := math.Max(0, float64(frame.GetMessageLength())-5)
+	ioBytes[len(ioBytes)-1] = uint8(math.Min(payloadLength, float64(len(m.Payload))))
 
 	buffer := bytes.NewBuffer(ioBytes)
 
-- 
2.43.0


From f472cad189b13233d040e4b8d5e90a5e4fa75e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:41 +0000
Subject: [PATCH 14/16] fix: frames were built for message IDs and payloads too
 large for their header fields, silently cut

---
 stream.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/stream.go b/stream.go
index 43f76f1..4c35f06 100644
--- a/stream.go
+++ b/stream.go
@@ -356,6 +356,17 @@ func packFrame(version int, senderSystemID, senderComponentID, messageSequence u
 		return
 	}
 
+	// V1 frames have a single byte for the message ID, and both versions a single byte for the length
+	if version == 1 && message.GetID() > 255 {
+		err = ErrEncodeV2MessageV1Frame
+		return
+	}
+
+	if len(messageBytes) > 255 {
+		err = ErrMessageTooLong
+		return
+	}
+
 	x25 := X25CRC{}
 	x25.Reset()
 
-- 
2.43.0


From eb300557ceb325ccb1a067abf551cfd0b7ede563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:37 +0000
Subject: [PATCH 15/16] fix: a stream closed while a frame was arriving logged
 a frame it found inside that one

---
 stream.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stream.go b/stream.go
index 4c35f06..965bda9 100644
--- a/stream.go
+++ b/stream.go
@@ -285,6 +285,11 @@ func (s *FrameStream) readFrame(reader *bufio.Reader) (frame Frame, err error) {
 		frameLength, startFound := peekHeader(s.buffer)
 		if startFound {
 			if err = s.fill(reader, int(frameLength)); err != nil {
+				if s.GetCloseErr() != nil {
+					// It was closed here, which says nothing about the frame
+					return frame, err
+				}
+
 				// The stream ended before this frame was complete. If the start byte was
 				// a false one, there can still be complete frames in the rest of the buffer
 				copy(s.buffer, s.buffer[1:])
-- 
2.43.0


From 5862a64e17a25d564b1352a82dca04327b87532c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:07 +0000
Subject: [PATCH 16/16] fix: a stream lost the frames beyond the first 4096
 bytes of a datagram

---
 stream.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stream.go b/stream.go
index 965bda9..b09a8f3 100644
--- a/stream.go
+++ b/stream.go
@@ -87,6 +87,9 @@ type FrameLogger interface {
 // mavlink v1 has max length 263, v2 has max length 279
 const maxFrameLength = 279
 
+// What doesn't fit into the read buffer is lost when the stream reads datagrams
+const maxDatagramLength = 65535
+
 func NewFrameStream(rwc io.ReadWriteCloser, inputFrames chan Frame, dialects Dialects, returnInvalidFrames bool) *FrameStream {
 	return NewFrameStreamWithLogger(rwc, inputFrames, dialects, returnInvalidFrames, nil)
 }
@@ -95,7 +98,7 @@ func NewFrameStreamWithLogger(rwc io.ReadWriteCloser, inputFrames chan Frame, di
 	f := &FrameStream{
 		inputFrames:         inputFrames,
 		outputFrames:        make(chan Frame),
-		reader:              bufio.NewReader(rwc),
+		reader:              bufio.NewReaderSize(rwc, maxDatagramLength),
 		rwc:                 rwc,
 		closeOnce:           sync.Once{},
 		closed:              make(chan struct{}),
-- 
2.43.0

