------------------------------- MODULE Decode -------------------------------
(* Text shown for application-layer messages (C19): SAE J1979 modes, ISO14230 *)
(* responses and negative response codes, KWP1281 (VAG) blocks.               *)
EXTENDS VBytes
VARIABLES op
vars == <<op>>
HexD == <<"0","1","2","3","4","5","6","7","8","9","A","B","C","D","E","F">>
H2(x) == HexD[(x \div 16) + 1] \o HexD[(x % 16) + 1]
H1(x) == IF x < 16 THEN HexD[x + 1] ELSE H2(x)
X2(x) == "0x" \o H2(x)
RECURSIVE Dump(_, _)
Dump(b, i) == IF i > Len(b) THEN "" ELSE X2(b[i]) \o " " \o Dump(b, i + 1)
Area == <<"P", "C", "B", "U">>
RECURSIVE Dtcs(_, _)
Dtcs(b, k) == LET j == 2 * k IN
  IF k > 3 \/ j + 1 > Len(b) THEN ""
  ELSE (IF b[j] = 0 /\ b[j + 1] = 0 THEN "" ELSE Area[(b[j] \div 64) + 1] \o H2(b[j] % 64) \o H2(b[j + 1]) \o "  ") \o Dtcs(b, k + 1)
Three == {2, 66, 5, 69}
Two == {1, 65, 6, 70, 8, 72, 9, 73}
J1979(b) ==
  IF b = <<>> THEN "J1979 invalid message"
  ELSE (IF HasBit(b[1], 64) THEN "J1979 response " ELSE "J1979 request ") \o
  (IF (b[1] \in Three /\ Len(b) < 3) \/ (b[1] \in Two /\ Len(b) < 2) THEN "Incomplete " \o X2(b[1]) \o ": Data Dump: " \o Dump(b, 1)
   ELSE CASE b[1] = 1 -> "Mode 1 PID " \o X2(b[2])
          [] b[1] = 65 -> "Mode 1 Data: PID " \o X2(b[2]) \o " " \o Dump(b, 3)
          [] b[1] = 2 -> "Mode 2 PID " \o X2(b[2]) \o " Frame " \o X2(b[3])
          [] b[1] = 66 -> "Mode 2 FreezeFrame Data: PID " \o X2(b[2]) \o " Frame " \o X2(b[3]) \o " " \o Dump(b, 4)
          [] b[1] = 3 -> "Mode 3 (Powertrain DTCs)"
          [] b[1] = 7 -> "Request Non-Continuous Monitor System Test Results"
          [] b[1] = 71 -> "Non-Continuous Monitor System DTCs: " \o Dtcs(b, 1)
          [] b[1] = 67 -> "DTCs: " \o Dtcs(b, 1)
          [] b[1] = 4 -> "Clear DTCs"
          [] b[1] = 68 -> "DTCs cleared"
          [] b[1] = 5 -> "Oxygen Sensor Test ID " \o X2(b[2]) \o " Sensor " \o X2(b[3])
          [] b[1] = 69 -> "Oxygen Sensor TID " \o X2(b[2]) \o " Sensor " \o X2(b[3]) \o " " \o Dump(b, 4)
          [] b[1] = 6 -> "Onboard monitoring test request TID " \o X2(b[2])
          [] b[1] = 70 -> "Onboard monitoring test result TID " \o X2(b[2]) \o " " \o Dump(b, 3)
          [] b[1] = 8 -> "Request control of onboard system TID " \o X2(b[2])
          [] b[1] = 72 -> "Control of onboard system response TID " \o X2(b[2]) \o " " \o Dump(b, 3)
          [] b[1] = 9 -> "Request vehicle information infotype " \o X2(b[2])
          [] b[1] = 73 -> "Vehicle information infotype " \o X2(b[2]) \o " " \o Dump(b, 3)
          [] OTHER -> "UnknownType " \o X2(b[1]) \o ": Data Dump: " \o Dump(b, 1))
-----------------------------------------------------------------------------
Sid == (16 :> "startDiagnosticSession") @@ (17 :> "ecuReset") @@ (18 :> "readFreezeFrameData") @@ (19 :> "readDiagnosticTroubleCodes")
  @@ (20 :> "clearDiagnosticInformation") @@ (23 :> "readStatusOfDiagnosticTroubleCodes") @@ (24 :> "readDiagnosticTroubleCodesByStatus")
  @@ (26 :> "readEcuId") @@ (32 :> "stopDiagnosticSession") @@ (33 :> "readDataByLocalId") @@ (34 :> "readDataByCommonId")
  @@ (35 :> "readMemoryByAddress") @@ (37 :> "stopRepeatedDataTransmission") @@ (38 :> "setDataRates") @@ (39 :> "securityAccess")
  @@ (44 :> "dynamicallyDefineLocalId") @@ (46 :> "writeDataByCommonId") @@ (47 :> "inputOutputControlByCommonId")
  @@ (48 :> "inputOutputControlByLocalId") @@ (49 :> "startRoutineByLocalID") @@ (50 :> "stopRoutineByLocalID")
  @@ (51 :> "requestRoutineResultsByLocalId") @@ (52 :> "requestDownload") @@ (53 :> "requestUpload") @@ (54 :> "transfer data")
  @@ (55 :> "request transfer exit") @@ (56 :> "startRoutineByAddress") @@ (57 :> "stopRoutineByAddress")
  @@ (58 :> "requestRoutineResultsByAddress") @@ (59 :> "writeDataByLocalId") @@ (61 :> "writeMemoryByAddress") @@ (62 :> "testerPresent")
  @@ (128 :> "EscCode") @@ (129 :> "startCommunication") @@ (130 :> "stopCommunication") @@ (131 :> "accessTimingParameters")
SidText(i) == IF i \in DOMAIN Sid THEN Sid[i] ELSE "Unknown SID"
Neg == (16 :> "generalReject") @@ (17 :> "serviceNotSupported") @@ (18 :> "subFunctionNotSupported-Invalid Format") @@ (33 :> "busy-repeatRequest")
  @@ (34 :> "conditionsNoteCorrectOrRequestSequenceError") @@ (35 :> "routineNotCompleteOrServiceInProgress") @@ (49 :> "requestOutOfRange")
  @@ (51 :> "securityAccessDenied-securityAccessRequested") @@ (53 :> "invalidKey") @@ (54 :> "exceedNumberOfAttempts")
  @@ (55 :> "requiredTimeDelayNotExpired") @@ (64 :> "downloadNotAccepted") @@ (65 :> "improperDownloadType")
  @@ (66 :> "canNotDownloadToSpecifiedAddress") @@ (67 :> "canNotDownloadNumberOfBytesRequested") @@ (80 :> "uploadNotAccepted")
  @@ (81 :> "improperUploadType") @@ (82 :> "canNotUploadFromSpecifiedAddress") @@ (83 :> "canNotUploadNumberOfBytesRequested")
  @@ (113 :> "transferSuspended") @@ (114 :> "transferAborted") @@ (116 :> "illegalAddressInBlockTransfer")
  @@ (117 :> "illegalByteCountInBlockTransfer") @@ (118 :> "illegalBlockTrasnferType") @@ (119 :> "blockTransferDataChecksumError")
  @@ (120 :> "requestCorrectyRcvd-RspPending") @@ (121 :> "incorrectByteCountDuringBlockTransfer")
  @@ (128 :> "serviceNotSupportedInActiveDiagnosticMode//Mfg-Specific")
NegText(i) == IF i \in DOMAIN Neg THEN Neg[i] ELSE "Unknown Response code " \o X2(i)
Resp14230(b) ==
  IF b = <<>> THEN "Empty message"
  ELSE CASE b[1] = 193 -> "StartCommunications_OK"
         [] b[1] = 194 -> "StopCommunications_OK"
         [] b[1] = 195 -> "AccessTimingParameters_OK"
         [] b[1] = 127 -> IF Len(b) < 3 THEN "General_Error, no response code"
                          ELSE "General_Error, Requested_SID_" \o SidText(b[2]) \o " Error_" \o NegText(b[3])
         [] OTHER -> IF HasBit(b[1], 64)
                     THEN "Positive response, " \o SidText(b[1] - 64) \o " " \o
                          (IF Len(b) < 2 THEN "" ELSE IF b[1] = 90 THEN "identOption " \o X2(b[2]) ELSE IF b[1] = 97 THEN "RLOCID " \o X2(b[2]) ELSE "")
                     ELSE "Unknown_response_code " \o X2(b[1])
Iso14230(b) == IF b # <<>> /\ Take(b, 1)[1] \in {x \in 0..255 : HasBit(x, 64)} THEN "ISO14230 response " ELSE "ISO14230 request "
VagName == (5 :> "Clear DTCs") @@ (6 :> "End Comms") @@ (7 :> "Request DTCs") @@ (8 :> "Read Data (single)") @@ (246 :> "ASCII Data") @@ (252 :> "Hex Data")
RECURSIVE Dump1(_, _)
Dump1(b, i) == IF i > Len(b) THEN "" ELSE "0x" \o H1(b[i]) \o " " \o Dump1(b, i + 1)
Vag(ty, b) == "Command: " \o (IF ty \in DOMAIN VagName THEN VagName[ty] ELSE "0x" \o H1(ty)) \o ": Data : " \o Dump1(b, 1) \o "\n"
-----------------------------------------------------------------------------
Text(c) == CASE c.op = "nrdec" -> Resp14230(c.b)
             [] c.up = "SAEJ1979" -> J1979(c.b)
             [] c.up = "ISO14230" -> Iso14230(c.b)
             [] OTHER -> Vag(c.mtype, c.b)
Shown(c) == LET s == Text(c) IN IF Len(s) > c.bs - 1 THEN SubSeq(s, 1, c.bs - 1) ELSE s
Init0 == op = <<>>
Call(c) == op = <<>> /\ op' = c
Ret(r) == op # <<>> /\ r.out = Shown(op) /\ op' = <<>>
=============================================================================
