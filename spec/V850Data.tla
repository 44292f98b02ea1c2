------------------------------ MODULE V850Data ------------------------------
(* The control units of the Volvo 850 and relatives, and the meaning of their *)
(* trouble codes: raw value, printed number (-1: unknown), text, advice.      *)
EXTENDS Integers, Sequences
Ecus == <<
  [a |-> 1, n |-> "abs", d |-> "antilock brakes", p |-> "ABS"],
  [a |-> 16, n |-> "m44old", d |-> "Motronic M4.4 engine management (old protocol)", p |-> "EFI"],
  [a |-> 17, n |-> "msa", d |-> "MSA 15.7 engine management (diesel vehicles)", p |-> "EFI"],
  [a |-> 24, n |-> "add", d |-> "912-D fuel-driven heater (cold climate option)", p |-> "HEA"],
  [a |-> 41, n |-> "ecc", d |-> "electronic climate control", p |-> "ECC"],
  [a |-> 45, n |-> "vgla", d |-> "alarm", p |-> "GLA"],
  [a |-> 46, n |-> "psl", d |-> "left power seat", p |-> "PSL"],
  [a |-> 47, n |-> "psr", d |-> "right power seat", p |-> "PSR"],
  [a |-> 65, n |-> "immo", d |-> "immobilizer", p |-> "IMM"],
  [a |-> 81, n |-> "combi", d |-> "combined instrument panel", p |-> "CI"],
  [a |-> 88, n |-> "srs", d |-> "airbags", p |-> "SRS"],
  [a |-> 110, n |-> "aw50", d |-> "AW50-42 transmission", p |-> "AT"],
  [a |-> 122, n |-> "m44", d |-> "Motronic M4.4 engine management", p |-> "EFI"] >>
T_abs == <<
  [r |-> 5, s |-> 313, d |-> "Left Rear Wheel Sensor, open/short?", t |-> "or bad ABS module solders or ignition switch"],
  [r |-> 16, s |-> 311, d |-> "Left Front Wheel Sensor, open/short", t |-> "or bad ABS module solders or ignition switch"],
  [r |-> 17, s |-> 321, d |-> "Left Front Wheel Sensor, irregular > 25 mph", t |-> "interference or excess oscillation > 40 km/h; or bad ABS module solders or ignition switch"],
  [r |-> 18, s |-> -1, d |-> "Left Front Wheel Sensor?", t |-> "or bad ABS module solders or ignition switch"],
  [r |-> 19, s |-> 211, d |-> "Left Front Wheel Sensor, wrong wheel speed", t |-> "signal absent yet circuit intact, or signal absent when moving off; or bad ABS module solders or ignition switch"],
  [r |-> 20, s |-> 221, d |-> "Left Front Wheel Sensor, ABS control phase too long", t |-> "signal absent in ABS function, yet circuit intact; or bad ABS module solders or ignition switch"],
  [r |-> 21, s |-> -1, d |-> "Left Front Wheel Sensor?", t |-> "or bad ABS module solders or ignition switch"],
  [r |-> 32, s |-> 312, d |-> "Right Front Wheel Sensor, open/short", t |-> "or bad ABS module solders or ignition switch"],
  [r |-> 33, s |-> 322, d |-> "Right Front Wheel Sensor, irregular > 25 mph", t |-> "interference or excess oscillation > 40 km/h; or bad ABS module solders or ignition switch"],
  [r |-> 34, s |-> -1, d |-> "Right Front Wheel Sensor?", t |-> "or bad ABS module solders or ignition switch"],
  [r |-> 35, s |-> 212, d |-> "Right Front Wheel Sensor, wrong wheel speed", t |-> "signal absent yet circuit intact, or signal absent when moving off; or bad ABS module solders or ignition switch"],
  [r |-> 36, s |-> 222, d |-> "Right Front Wheel Sensor, ABS control phase too long", t |-> "signal absent in ABS function, yet circuit intact; or bad ABS module solders or ignition switch"],
  [r |-> 37, s |-> -1, d |-> "Right Front Wheel Sensor?", t |-> "or bad ABS module solders or ignition switch"],
  [r |-> 48, s |-> 313, d |-> "Left Rear Wheel Sensor, open/short", t |-> "or bad ABS module solders or ignition switch"],
  [r |-> 49, s |-> 323, d |-> "Left Rear Wheel Sensor, irregular > 25 mph", t |-> "interference or excess oscillation > 40 km/h; or bad ABS module solders or ignition switch"],
  [r |-> 50, s |-> -1, d |-> "Left Rear Wheel Sensor?", t |-> "or bad ABS module solders or ignition switch"],
  [r |-> 51, s |-> 213, d |-> "Left Rear Wheel Sensor, wrong wheel speed", t |-> "signal absent yet circuit intact, or signal absent when moving off; or bad ABS module solders or ignition switch, or stuck emergency brake"],
  [r |-> 52, s |-> 223, d |-> "Left Rear Wheel Sensor, ABS control phase too long", t |-> "signal absent in ABS function, yet circuit intact; or bad ABS module solders or ignition switch"],
  [r |-> 53, s |-> -1, d |-> "Left Rear Wheel Sensor?", t |-> "or bad ABS module solders or ignition switch"],
  [r |-> 64, s |-> 314, d |-> "Right Rear Wheel Sensor, open/short", t |-> "or bad ABS module solders or ignition switch"],
  [r |-> 65, s |-> 324, d |-> "Right Rear Wheel Sensor, irregular > 25 mph", t |-> "interference or excess oscillation > 40 km/h; or bad ABS module solders or ignition switch"],
  [r |-> 66, s |-> -1, d |-> "Right Rear Wheel Sensor?", t |-> "or bad ABS module solders or ignition switch"],
  [r |-> 67, s |-> 214, d |-> "Right Rear Wheel Sensor, wrong wheel speed", t |-> "signal absent yet circuit intact, or signal absent when moving off; or bad ABS module solders or ignition switch, or stuck emergency brake"],
  [r |-> 68, s |-> 224, d |-> "Right Rear Wheel Sensor, ABS control phase too long", t |-> "signal absent in ABS function, yet circuit intact; or bad ABS module solders or ignition switch"],
  [r |-> 69, s |-> -1, d |-> "Right Rear Wheel Sensor?", t |-> "or bad ABS module solders or ignition switch"],
  [r |-> 80, s |-> 411, d |-> "Left Front Wheel Inlet Valve, circuit open/short", t |-> "bad wiring, hydraulic modulator, ABS module, or ignition switch"],
  [r |-> 81, s |-> 413, d |-> "Right Front Wheel Inlet Valve, circuit open/short", t |-> "bad wiring, hydraulic modulator, ABS module, or ignition switch"],
  [r |-> 82, s |-> 421, d |-> "Rear Wheels Inlet Valve, circuit open/short", t |-> "bad wiring, hydraulic modulator, ABS module, or ignition switch"],
  [r |-> 84, s |-> 412, d |-> "Left Front Wheel Return Valve, circuit open/short", t |-> "bad wiring, hydraulic modulator, ABS module, or ignition switch"],
  [r |-> 85, s |-> 414, d |-> "Right Front Wheel Return Valve, circuit open/short", t |-> "bad wiring, hydraulic modulator, ABS module, or ignition switch"],
  [r |-> 86, s |-> 422, d |-> "Rear Wheels Return Valve, circuit open/short", t |-> "bad wiring, hydraulic modulator, ABS module, or ignition switch"],
  [r |-> 96, s |-> 423, d |-> "TRACS Valve, circuit open/short", t |-> "bad wiring, hydraulic modulator, ABS module, or ignition switch"],
  [r |-> 97, s |-> 424, d |-> "TRACS Pressure Switch, circuit open/short?", t |-> "or bad wiring, hydraulic modulator, brake light switch, ABS module, ignition switch, or blown fuse 12 (STOP LAMPS)"],
  [r |-> 100, s |-> 141, d |-> "Brake Pedal Sensor, short", t |-> "or bad ABS module solders, wiring, brake pedal sensor, or ignition switch"],
  [r |-> 101, s |-> 142, d |-> "Brake Light/Pedal Switch, open/short or adjustment", t |-> "or brake light bulb, bad ABS module solders, wiring, or ignition switch"],
  [r |-> 102, s |-> 144, d |-> "TRACS Disengaged to Avoid Front Brake Discs Overheating", t |-> ""],
  [r |-> 103, s |-> 143, d |-> "Missing or Faulty Vehicle Speed Signal from ABS module", t |-> "or bad ABS module solders, ABS module memory fault, or otherwise faulty ABS module or ignition switch"],
  [r |-> 112, s |-> 443, d |-> "Pump motor fault", t |-> "or fuse 9 (ABS PUMP MOTOR), pump power plug not seated properly, bad wiring (eg, insulation that falls off, any short/open), bad ABS module solders, combination relay, hydraulic modulator, ignition switch\n\nAdvanced command(s) ABS tests may not be able to be used if this code has been set.\n\nS40/V40 with Chassis number up to 414999 has defective power supply cable if ABS-441 and ABS-443 has been detected at the same time.\n Cable Harness -1997 P/N 30618007\nCable Harness 98-1999 P/N 30889999"],
  [r |-> 114, s |-> 431, d |-> "ABS Module, general hardware fault", t |-> "or bad ABS module solders or ignition switch"],
  [r |-> 117, s |-> 432, d |-> "ABS Module, general interference fault", t |-> "or bad ABS module solders or ignition switch; see 'https://www.matthewsvolvosite.com/forums/viewtopic.php?f=1&t=78577&start=30#p428745'"],
  [r |-> 119, s |-> 433, d |-> "Battery Voltage, too high", t |-> ""],
  [r |-> 128, s |-> 441, d |-> "ABS Microprocessors, redundant calculations mismatch", t |-> "or fuse 14 (ABS MAIN SUPPLY), bad ABS module solders, wheel sensor wiring close to interference, ignition switch\nS40/V40 with Chassis number up to 414999 has defective power supply cable if ABS 441 and ABS 443 has been detected at the same time.\n Cable Harness up to 1997 P/N 30618007\nCable Harness 98 to 1999 P/N 30889999"],
  [r |-> 129, s |-> 444, d |-> "ABS Module, internal valve reference voltage error or no power to hydraulic valves?", t |-> "or bad wiring, bad ABS module solders, combination relay, hydraulic modulator, ignition switch, or bad ABS module"],
  [r |-> 130, s |-> 442, d |-> "ABS Module, leakage current or Hydraulic Modulator Pump Pressure, too low?", t |-> "or bad wiring, bad ABS module solders, combination relay, hydraulic modulator, ignition switch, or bad ABS module"],
  [r |-> 131, s |-> 445, d |-> "ABS Module, either inlet or return valve circuit fault?", t |-> "or bad wiring, bad ABS module solders, combination relay, hydraulic modulator, ignition switch, or bad ABS module"] >>
T_add == <<
  [r |-> 49, s |-> 801, d |-> "Coolant Temperature Sensor, Signal too High", t |-> ""],
  [r |-> 50, s |-> 802, d |-> "Coolant Temperature Sensor, Signal too Low", t |-> ""],
  [r |-> 51, s |-> 803, d |-> "Coolant Temperature Sensor, Signal faulty", t |-> ""],
  [r |-> 52, s |-> 142, d |-> "Outside Temperature Sensor, Signal too High", t |-> ""],
  [r |-> 53, s |-> 143, d |-> "Outside Temperature Sensor, Signal too Low", t |-> ""],
  [r |-> 54, s |-> 811, d |-> "Flame Sensor, Signal too Low during run", t |-> ""],
  [r |-> 55, s |-> 899, d |-> "Factory set DTC, no fault with heater", t |-> ""],
  [r |-> 56, s |-> 812, d |-> "Flame Sensor, Signal too High during start", t |-> ""],
  [r |-> 57, s |-> 813, d |-> "Flame Sensor, Signal too High", t |-> ""],
  [r |-> 58, s |-> 821, d |-> "Water Pump, Signal too High", t |-> ""],
  [r |-> 59, s |-> 822, d |-> "Water Pump, Signal too Low", t |-> ""],
  [r |-> 60, s |-> 814, d |-> "Combustion fan, Signal too High", t |-> ""],
  [r |-> 61, s |-> 815, d |-> "Combustion fan, Signal too Low", t |-> ""],
  [r |-> 62, s |-> 816, d |-> "Combustion fan, Faulty Signal", t |-> ""],
  [r |-> 63, s |-> 825, d |-> "Fuel Pump, Signal too High", t |-> ""],
  [r |-> 64, s |-> 826, d |-> "Fuel Pump, Signal too Low", t |-> ""],
  [r |-> 65, s |-> 831, d |-> "Overheat Protection Thermostat, Signal too Low", t |-> ""],
  [r |-> 66, s |-> 841, d |-> "Power Supply, Short Circuit to Supply", t |-> ""],
  [r |-> 67, s |-> 842, d |-> "Power Supply, Open Circuit", t |-> ""],
  [r |-> 68, s |-> 851, d |-> "Blower Fan, Signal too High", t |-> ""],
  [r |-> 69, s |-> 852, d |-> "Blower Fan, Signal too Low", t |-> ""],
  [r |-> 70, s |-> 861, d |-> "Glow Plugs, Short or Open Circuit", t |-> ""],
  [r |-> 71, s |-> 843, d |-> "Control Module Power Supply, Signal too High", t |-> ""],
  [r |-> 72, s |-> 832, d |-> "Overheat Protection Thermostat, Faulty Signal", t |-> ""],
  [r |-> 73, s |-> 891, d |-> "Too many Unsuccessful Start Attempts", t |-> ""],
  [r |-> 74, s |-> 113, d |-> "Control Module, Parameter Fault", t |-> ""],
  [r |-> 75, s |-> 112, d |-> "Control Module, General Fault", t |-> ""],
  [r |-> 81, s |-> 898, d |-> "Factory set DTC, no fault with heater", t |-> ""] >>
T_aw50 == <<
  [r |-> 2, s |-> 122, d |-> "Shift Solenoid S1 circuit, open", t |-> "(P0750) eg, bad wiring or solenoid, poor terminal contact at TCM connector, bad TCM, or low/dirty fluid"],
  [r |-> 3, s |-> 121, d |-> "Shift Solenoid S1 circuit, short to ground", t |-> "(P0750) eg, bad wiring, solenoid, or TCM, or low/dirty fluid"],
  [r |-> 8, s |-> 222, d |-> "Shift solenoid S2 circuit fault", t |-> "(P0755) eg, bad wiring (see OTP Volvo 850 DVD/USB TP-4312031 p157), bad solenoid, poor terminal contact, bad TCM, or low/dirty fluid"],
  [r |-> 9, s |-> 221, d |-> "Shift solenoid S2 circuit, short to ground", t |-> "(P0755) eg, bad wiring or solenoid, or low/dirty fluid"],
  [r |-> 13, s |-> 123, d |-> "Line Pressure Solenoid STH circuit, short to supply", t |-> "(P0745) eg, bad wiring or TCM, bad solenoid, or low/dirty fluid"],
  [r |-> 14, s |-> 132, d |-> "TCM Fault, amplifier STH short circuit", t |-> "(P0745) eg, poor terminal contact at TCM connector, open circuit in TCM voltage supply or grounds, bad TCM, or low/dirty fluid"],
  [r |-> 15, s |-> 131, d |-> "Line Pressure Solenoid STH circuit, short to ground or open", t |-> "eg, bad wiring, bad solenoid, poor terminal contact, bad TCM, or low/dirty fluid"],
  [r |-> 18, s |-> 331, d |-> "Lock-up solenoid SL circuit, short to supply", t |-> "(P0740 if USA/Canada model year >= 1997)"],
  [r |-> 19, s |-> 332, d |-> "Lock-up solenoid SL, open circuit", t |-> "(P0740 if USA/Canada model year >= 1997) open in signal cable, bad solenoid, open in power ground, poor terminal contact, bad TCM"],
  [r |-> 20, s |-> 333, d |-> "Lock-up solenoid SL circuit, short to ground", t |-> "(P0740 if USA/Canada model year >= 1997)"],
  [r |-> 23, s |-> 213, d |-> "Throttle Position Sensor signal too high", t |-> "(P0120) >5.4 V for ~10 sec; eg, TPS signal short to supply, TPS sensor circuit failure"],
  [r |-> 24, s |-> 223, d |-> "Throttle Position Sensor signal too low", t |-> "(P0120) <0.1 V for ~10 sec; or unplugged - no signal; eg, TPS disconnected, TPS signal short to ground, poor terminal contact, TPS sensor circuit failure\nAfter repairs must they be verified by:\n\n-Ignition on\n-Push down the accelerator pedal to wide open throttle (WOT) and keep it fully depressed.\n-Wait 15 seconds.\n Read off the status DTC.\n\n\nIf the fault is intermittent the indicator and warning lamp will go out after the ignition has been switched on and off a certain number of times. Up to five times.\n\n\n TCM may ask ECM to turn on MIL light."],
  [r |-> 28, s |-> 143, d |-> "Kickdown switch circuit, signal too low", t |-> "see 'https://www.matthewsvolvosite.com/forums/viewtopic.php?f=1&t=71168&start=10#p485175' for possible sources"],
  [r |-> 31, s |-> 232, d |-> "Vehicle Speed Signal is missing or incorrect", t |-> "(P0500) see OTP Volvo 850 DVD/USB TP-4312031 p32, p45, pp183-192, pp403-404 for details"],
  [r |-> 35, s |-> 311, d |-> "Transmission RPM Sensor, no signal", t |-> "(P0175) when vehicle speed > ~15 mph/~25 km/h; eg, open or short circuit from bad wiring, bad Transmission RPM Sensor, poor terminal contact"],
  [r |-> 40, s |-> 321, d |-> "Gear 1 incorrect ratio", t |-> "(P0731) see OTP Volvo 850 DVD/USB TP-4312031 p231 for possible causes"],
  [r |-> 41, s |-> 322, d |-> "Gear 2 incorrect ratio / Alternatively, on earlier models: Gear Ratio Info Incorrect", t |-> "(P0732/P0730) see OTP Volvo 850 DVD/USB TP-4312031 p231 for possible causes"],
  [r |-> 42, s |-> 323, d |-> "Gear 3 incorrect ratio / Alternatively, on earlier models: Lock-up slips or is not engaged", t |-> "(P0733) see OTP Volvo 850 DVD/USB TP-4312031 p231 for possible causes"],
  [r |-> 43, s |-> 324, d |-> "Gear 4 incorrect ratio", t |-> "(P0734) see OTP Volvo 850 DVD/USB TP-4312031 p231 for possible causes"],
  [r |-> 47, s |-> 341, d |-> "Lock-up function, slipping or not engaged", t |-> "(P0740 if USA/Canada model year >= 1997) lock-up activated, yet >100 rpm difference between Engine RPM and Transmission RPM; TCM vs. ECM mismatch, poor terminal contact, mechanical fault in transmission"],
  [r |-> 53, s |-> 114, d |-> "Mode Selector Switch, Signal too High", t |-> "short circuit to supply, driving mode selector module, or cluster fault feeding transmission fault light; eg, poor terminal contact, open circuit or short circuit to supply, poor TCM connector terminal contact, driving mode selector module, or cluster fault feeding transmission fault light"],
  [r |-> 54, s |-> 124, d |-> "Mode Selector Switch, faulty or short circuit to ground", t |-> "eg, 'W' button depressed > 25 sec, controls sticking, loose parts, bad resistance, bad wiring"],
  [r |-> 55, s |-> 122, d |-> "Shift Solenoid S1 circuit", t |-> ""],
  [r |-> 56, s |-> 123, d |-> "Line pressure solenoid STH circuit", t |-> ""],
  [r |-> 57, s |-> 313, d |-> "Gearshift Position Sensor, faulty signal", t |-> "(P0705) eg, bad wiring, incorrect adjustment, bad gear-shift position sensor, or terminal contact resistance"],
  [r |-> 58, s |-> 131, d |-> "Line pressure solenoid STH", t |-> ""],
  [r |-> 59, s |-> 132, d |-> "Control Module amp STH", t |-> ""],
  [r |-> 60, s |-> 134, d |-> "engine load signal incorrect", t |-> "missing Load Signal from ECM when Transmission Input RPM > 600 rpm; bad wiring, poor terminal contact"],
  [r |-> 61, s |-> 141, d |-> "Oil Temp Sensor", t |-> ""],
  [r |-> 62, s |-> 142, d |-> "Oil Temp Sensor", t |-> ""],
  [r |-> 63, s |-> 245, d |-> "Torque limiting request not acked by ECM", t |-> "eg, open in signal cables TC1/TC2/TCM, short to ground or supply in signal cables TC1/TC2/TCM, terminal contact resistance"],
  [r |-> 64, s |-> 213, d |-> "Throttle Position", t |-> ""],
  [r |-> 65, s |-> 221, d |-> "Shift solenoid S2 circuit", t |-> ""],
  [r |-> 66, s |-> 235, d |-> "ATF Temperature too high", t |-> ">150 C for ~5 sec / >302 F for ~5 sec; Transmission warning light blinks until temp <140 C / <284 C"],
  [r |-> 67, s |-> 141, d |-> "ATF Temperature Sensor signal too low", t |-> "<0.2 V for 25 sec; eg, short to ground in signal circuit, bad ATF Temp Sensor, lock-up may fail"],
  [r |-> 68, s |-> 142, d |-> "ATF Temperature Sensor signal too high", t |-> "ATF Temp < -10 C when engine started and did not change after engine on for 10 min; eg, open in signal cable or ground lead, short to supply in signal cable, bad ATF Temp Sensor, bad resistance, etc"],
  [r |-> 69, s |-> 235, d |-> "Oil Temperature", t |-> ""],
  [r |-> 70, s |-> -1, d |-> "Torque Reduction Signal too Low (V70) / Torque limiting circuit?", t |-> ""],
  [r |-> 71, s |-> -1, d |-> "Torque Reduction Signal too High (V70) / Transmission RPM signal missing or incorrect?", t |-> ""],
  [r |-> 72, s |-> -1, d |-> "Control Module Communication / Gear position sensor?", t |-> ""],
  [r |-> 73, s |-> 412, d |-> "Control Module memory fault", t |-> "(P0601 if USA/Canada model year >= 1997) eg, low battery power, bad TCM"],
  [r |-> 74, s |-> 322, d |-> "Gear 2 incorrect ratio", t |-> ""],
  [r |-> 75, s |-> 323, d |-> "Gear 3 incorrect ratio", t |-> ""],
  [r |-> 76, s |-> 324, d |-> "Gear 4 incorrect ratio", t |-> ""],
  [r |-> 77, s |-> 331, d |-> "Lock-up solenoid SL circuit", t |-> ""],
  [r |-> 78, s |-> 332, d |-> "Lock-up solenoid SL circuit", t |-> ""],
  [r |-> 79, s |-> 333, d |-> "Lock-up solenoid SL circuit", t |-> ""],
  [r |-> 80, s |-> 411, d |-> "Control Module EEPROM fault", t |-> "eg, low battery power, bad TCM"],
  [r |-> 81, s |-> 421, d |-> "Battery Volts too low", t |-> "no supply voltage to TCM #A10 for ~10 sec; eg, open in supply circuit, poor terminal contact, bad TCM"],
  [r |-> 85, s |-> 511, d |-> "TCM-ECM Communication Fault", t |-> ""],
  [r |-> 96, s |-> 522, d |-> "TCM-ECM Communication Fault", t |-> ""],
  [r |-> 97, s |-> 523, d |-> "TCM-ECM Communication Fault", t |-> ""],
  [r |-> 98, s |-> 524, d |-> "TCM-ECM Communication Fault", t |-> ""],
  [r |-> 99, s |-> 525, d |-> "TCM-ECM Communication Fault", t |-> ""],
  [r |-> 100, s |-> 526, d |-> "TCM-ECM Communication Fault", t |-> ""],
  [r |-> 224, s |-> 527, d |-> "TCM-ECM Communication Fault", t |-> ""] >>
T_ccu == <<
  [r |-> 3, s |-> 110, d |-> "Control Module, Internal Malfunction / Parameter faults, Intermittent fault", t |-> ""],
  [r |-> 4, s |-> 111, d |-> "Control Module, Internal Malfunction / Parameter faults, Permanent fault", t |-> ""],
  [r |-> 5, s |-> 120, d |-> "Convertible Top Position Sensor, Invalid Position", t |-> ""],
  [r |-> 6, s |-> 121, d |-> "Convertible Top Position Sensor, Angle fault", t |-> ""],
  [r |-> 7, s |-> 130, d |-> "Convertible Top Movement, Time Limit", t |-> "Movement is too slow"],
  [r |-> 8, s |-> 140, d |-> "Motor Relay, faulty signal", t |-> ""],
  [r |-> 9, s |-> 150, d |-> "Control Unit Power Supply, Signal too Low", t |-> "Battery voltage is < 9V for more than 1 seconds"],
  [r |-> 10, s |-> 160, d |-> "Control Unit Power Supply, Signal too High", t |-> "Battery voltage is > 16V for more than 1 seconds"],
  [r |-> 11, s |-> 170, d |-> "Control Unit Power Supply, Signal Missing", t |-> "Battery voltage missing for power supply"],
  [r |-> 16, s |-> 210, d |-> "Speed Signal, Signal missing", t |-> "No speed signal to the control module 10 seconds after the ignition is turned on -- Comes from COMBI/CDM"],
  [r |-> 19, s |-> 211, d |-> "Convertible Top Switch UP/DOWN, faulty signal", t |-> "Both signals at the same time or if one becomes continuously low."],
  [r |-> 20, s |-> 212, d |-> "Front Lock Micro Switch, faulty signal", t |-> "wrong signal from microswitch, jammed or shorted"],
  [r |-> 21, s |-> 213, d |-> "Front Latch Arm (rear) Micro Switch, faulty signal", t |-> "wrong signal from microswitch, jammed or shorted"],
  [r |-> 22, s |-> 214, d |-> "Front Latch Arm (front) Micro Switch, faulty signal", t |-> "wrong signal from microswitch, jammed or shorted"],
  [r |-> 23, s |-> 215, d |-> "Rear Latch Arm Micro Switch, faulty signal", t |-> "if tension bow striker plate is down in the rear hatches but none microswitches indicate open"],
  [r |-> 26, s |-> 216, d |-> "Cover (latch) Micro Switch, faulty signal", t |-> "wrong signal from microswitch, jammed or shorted"],
  [r |-> 27, s |-> 217, d |-> "Tension Bow Micro Switches, faulty signal", t |-> "wrong signal from microswitch, jammed or shorted"],
  [r |-> 32, s |-> 220, d |-> "Convertible Top Position Sensor, Signal too Low", t |-> ""],
  [r |-> 33, s |-> 221, d |-> "Convertible Top Position Sensor, Signal too High", t |-> ""],
  [r |-> 34, s |-> 222, d |-> "Rear Latch Arm Position Sensor, Signal too Low", t |-> ""],
  [r |-> 35, s |-> 223, d |-> "Rear Latch Arm Position Sensor, Signal too High", t |-> ""],
  [r |-> 48, s |-> 230, d |-> "Convertible Top Control Unit Outputs, Signal too High", t |-> "Warning Signal Buzzer, Trunk lid inhibitor, Side Windows Down, Heated Rear Window."],
  [r |-> 49, s |-> 231, d |-> "Air Conditioning Signal too Low", t |-> ""],
  [r |-> 50, s |-> 232, d |-> "Dashboard LED, Signal too Low", t |-> ""],
  [r |-> 64, s |-> 310, d |-> "Motors, Current too High", t |-> ""],
  [r |-> 65, s |-> 311, d |-> "Convertible Top, Closing, Current too High", t |-> ""],
  [r |-> 66, s |-> 312, d |-> "Convertible Top, Opening, Current too High", t |-> ""],
  [r |-> 67, s |-> 313, d |-> "Cover Closing, Current too High", t |-> "Missing signal from microswitch of cover locking arm results motor running longer."],
  [r |-> 68, s |-> 314, d |-> "Cover Opening, Current too High", t |-> "Cover plate lock running against a mechanical stop"],
  [r |-> 69, s |-> 315, d |-> "Rear Latch Arms, Closing, Current too High", t |-> "Motors for real locking arms and tensioner rib/bow are activated at the same time"],
  [r |-> 70, s |-> 316, d |-> "Rear Latch Arms, Opening, Current too High", t |-> ""],
  [r |-> 71, s |-> 317, d |-> "Front Lock, Closing, Current too High", t |-> ""],
  [r |-> 72, s |-> 318, d |-> "Front Lock, Opening, Current too High", t |-> "Microswitch signal Front Latch Arm missing?"],
  [r |-> 73, s |-> 319, d |-> "Tension Bow, Closing, Current too High", t |-> "Rear Latch Arms Microswitch signal missing?"],
  [r |-> 74, s |-> 320, d |-> "Tension Bow, Opening, Current too High", t |-> "Tensioner Rib/Bow Microswitch signal missing?"] >>
T_combi == <<
  [r |-> 1, s |-> 222, d |-> "Vehicle Speed Signal too high", t |-> ""],
  [r |-> 2, s |-> 221, d |-> "Vehicle Speed Signal missing", t |-> ""],
  [r |-> 3, s |-> 114, d |-> "Fuel Level sensor stuck / signal constant for 94 miles", t |-> "(P0500) usually due to bad ABS module solders"],
  [r |-> 4, s |-> 112, d |-> "Fuel Level signal too low / short to ground", t |-> ""],
  [r |-> 5, s |-> 113, d |-> "Fuel Level signal too High / Low Fuel / short to supply", t |-> ""],
  [r |-> 6, s |-> 121, d |-> "Engine Coolant Temperature signal faulty", t |-> "see http://www.volvotips.com/index.php/850-2/volvo-850-s70-v70-c70-service-repair-manual/volvo-850-instrument-panel-service-repair-manual/"],
  [r |-> 7, s |-> 123, d |-> "48-pulse output Speed Signal too high / short to supply", t |-> ""],
  [r |-> 8, s |-> 143, d |-> "48-pulse output Speed Signal too low / short to ground", t |-> ""],
  [r |-> 9, s |-> 131, d |-> "12-pulse Speed Signal too high / short to supply", t |-> ""],
  [r |-> 10, s |-> 141, d |-> "12-pulse Speed Signal too low / short to ground", t |-> ""],
  [r |-> 11, s |-> 132, d |-> "Engine RPM signal missing", t |-> ""],
  [r |-> 12, s |-> 124, d |-> "Engine RPM signal faulty", t |-> ""],
  [r |-> 13, s |-> 211, d |-> "D+ alternator voltage signal too low / missing for >= 10 sec when > 1000 RPM", t |-> ""],
  [r |-> 14, s |-> 133, d |-> "Fuel Level Signal To Trip Computer too high / short to supply", t |-> ""],
  [r |-> 15, s |-> 142, d |-> "Ambient Temperature signal missing", t |-> "Grey connector sensor at the bumper on 850"],
  [r |-> 16, s |-> 231, d |-> "COMBI microprocessor internal fault", t |-> ""],
  [r |-> 17, s |-> 174, d |-> "Wide Disparity in Fuel Levels and/or Fuel Consumption signal missing", t |-> "DTC rarely seen; (in 850 especially) DTC 11 Freeze Frame sometimes precedes a Low Fuel situation, occasionally follows a Fillup, and oftentimes persists after clearing COMBI DTCs"],
  [r |-> 20, s |-> -1, d |-> "Fuel Consumption signal?", t |-> ""],
  [r |-> 21, s |-> -1, d |-> "Fuel Consumption signal?", t |-> ""],
  [r |-> 22, s |-> -1, d |-> "Fuel Consumption signal?", t |-> ""],
  [r |-> 23, s |-> -1, d |-> "Fuel Consumption signal?", t |-> ""],
  [r |-> 32, s |-> 232, d |-> "COMBI is not yet programmed", t |-> ""],
  [r |-> 248, s |-> 231, d |-> "COMBI microprocessor internal fault", t |-> ""],
  [r |-> 249, s |-> 113, d |-> "Fuel Level signal too High / Low Fuel / short to supply", t |-> ""],
  [r |-> 250, s |-> 112, d |-> "Fuel Level signal too low / short to ground", t |-> ""],
  [r |-> 251, s |-> 115, d |-> "Fuel Level Sensor Circuit Malfunction", t |-> ""],
  [r |-> 252, s |-> 415, d |-> "Road Speed Signal missing or faulty", t |-> ""],
  [r |-> 253, s |-> 414, d |-> "Road Speed Signal missing or faulty", t |-> ""] >>
T_dsa == <<
  [r |-> 1, s |-> 131, d |-> "Torque reduction signal, signal faulty", t |-> ""],
  [r |-> 2, s |-> 231, d |-> "Throttle position sensor signal, signal missing", t |-> ""],
  [r |-> 3, s |-> 232, d |-> "Throttle position sensor signal, signal faulty", t |-> ""],
  [r |-> 4, s |-> 233, d |-> "DTC stored in engine control module", t |-> ""],
  [r |-> 5, s |-> 221, d |-> "Load signal missing", t |-> "DSA control module registers no pulses from engine control module for approx. 1.5 seconds. Possibility Open circuit, short circuit, contact resistance. DSA warning light and DSA is disengaged."],
  [r |-> 6, s |-> 222, d |-> "Load signal, signal faulty", t |-> ""],
  [r |-> 7, s |-> 223, d |-> "Initiating engine control module, signal faulty", t |-> ""],
  [r |-> 8, s |-> 224, d |-> "DTC stored in engine control module", t |-> ""],
  [r |-> 9, s |-> 311, d |-> "Wheel speed signal left front wheel, signal faulty", t |-> ""],
  [r |-> 10, s |-> 312, d |-> "Wheel speed signal right front wheel, signal faulty", t |-> ""],
  [r |-> 11, s |-> 313, d |-> "Wheel speed signal left rear wheel, signal faulty", t |-> ""],
  [r |-> 12, s |-> 314, d |-> "Wheel speed signal right rear wheel, signal faulty/missing from ABS control module", t |-> "Signal is usually pulsed between 0V and battery voltage with freq. changes comparable to the wheel speed.\nFault code is registered at above speed 8km/h if the increase of speed of wheel is too great or too little or if other wheel is locked this can cause as well fault code. Notice code may be stored if power supply / ground terminal for ABS control module is defective."],
  [r |-> 13, s |-> 212, d |-> "Brake light switch, signal faulty", t |-> "When Brake light switch is not activated the DSA/signal is grounded via brake light bulbs and when activated the switch (and bulbs) receive battery voltage. If ground is lost when engine is running or signal voltage is too low (compared to battery) when activated fault code is stored."],
  [r |-> 14, s |-> 211, d |-> "Brake light switch, signal too high", t |-> ""],
  [r |-> 15, s |-> 121, d |-> "DSA switch, Signal too low", t |-> ""],
  [r |-> 16, s |-> 122, d |-> "DSA Warning lamp, signal faulty", t |-> ""],
  [r |-> 17, s |-> 112, d |-> "Control Module, EEPROM fault", t |-> ""] >>
T_ecc == <<
  [r |-> 10, s |-> 221, d |-> "Air distribution damper motor position sensor Signal Low", t |-> ""],
  [r |-> 11, s |-> 222, d |-> "Air distribution damper motor position sensor Signal High", t |-> ""],
  [r |-> 19, s |-> 322, d |-> "Air distribution damper motor position, no position change", t |-> ""],
  [r |-> 26, s |-> 432, d |-> "Blower Fan Switch, Signal too Low", t |-> ""],
  [r |-> 27, s |-> 433, d |-> "Blower Fan Motor, Current too High", t |-> ""],
  [r |-> 28, s |-> 411, d |-> "Blower fan motor power unit, Faulty Signal / seized or drawing excess current", t |-> "or blower fan obstruction, or power stage surge protector problem"],
  [r |-> 31, s |-> 412, d |-> "Fan motor passenger comp temp sensor, Signal too Low / Short to Ground", t |-> ""],
  [r |-> 32, s |-> 121, d |-> "Outside Temperature Sensor, Signal too Low", t |-> ""],
  [r |-> 33, s |-> 122, d |-> "Outside Temperature Sensor, Signal too High", t |-> ""],
  [r |-> 34, s |-> 123, d |-> "Passenger compartment temperature sensor, Signal too Low", t |-> ""],
  [r |-> 35, s |-> 124, d |-> "Passenger compartment temperature sensor, Signal too High", t |-> ""],
  [r |-> 36, s |-> 135, d |-> "Engine Coolant Temperature Signal Missing", t |-> ""],
  [r |-> 37, s |-> 211, d |-> "Drivers side Temp damper motor position sensor Signal High", t |-> ""],
  [r |-> 38, s |-> 212, d |-> "Drivers side Temp damper motor position sensor Signal Low", t |-> ""],
  [r |-> 39, s |-> 231, d |-> "Passenger Side Temp damper motor position sensor Signal High", t |-> ""],
  [r |-> 40, s |-> 232, d |-> "Passenger Side Temp damper motor position sensor Signal Low", t |-> ""],
  [r |-> 41, s |-> 235, d |-> "Recirculation damper motor position sensor Signal High", t |-> ""],
  [r |-> 42, s |-> 236, d |-> "Recirculation damper motor position sensor Signal Low", t |-> ""],
  [r |-> 43, s |-> 311, d |-> "Drivers side Temp damper motor, open or short in pot circuit", t |-> ""],
  [r |-> 44, s |-> 313, d |-> "Passenger side Temp damper motor, open or short in pot circuit", t |-> ""],
  [r |-> 45, s |-> 317, d |-> "Air distribution damper motor, open or short in pot circuit", t |-> ""],
  [r |-> 46, s |-> 315, d |-> "Recirculation damper motor, open or short in pot circuit", t |-> ""],
  [r |-> 47, s |-> 312, d |-> "Drivers side temp damper motor, no position change", t |-> ""],
  [r |-> 48, s |-> 314, d |-> "Passenger side temp damper motor, no position change", t |-> "see 'ac heater system auto.pdf'"],
  [r |-> 49, s |-> 316, d |-> "Recirculation damper motor, no position change", t |-> ""],
  [r |-> 50, s |-> 143, d |-> "Passenger compartment temp selector Right, Signal Faulty", t |-> ""],
  [r |-> 51, s |-> 143, d |-> "Passenger compartment temp selector Left, Signal Faulty", t |-> ""],
  [r |-> 52, s |-> 431, d |-> "Blower Fan Switch, Signal too High", t |-> ""],
  [r |-> 53, s |-> 412, d |-> "Interior temperature sensor inlet fan, short to ground", t |-> "see 'ac heater system auto.pdf'"],
  [r |-> 54, s |-> 413, d |-> "Interior temperature sensor inlet fan, open circuit", t |-> "see 'ac heater system auto.pdf'"],
  [r |-> 55, s |-> 414, d |-> "Interior temperature sensor inlet fan, faulty signal", t |-> "carefully clean out any lint from temp sensor fan(s)"],
  [r |-> 56, s |-> 411, d |-> "Blower fan motor power unit, faulty signal", t |-> "or blower fan obstruction, or power stage surge protector problem"],
  [r |-> 58, s |-> 420, d |-> "ECC Control Module, internal fault in memory circuits", t |-> ""],
  [r |-> 59, s |-> 421, d |-> "ECC Control Module, internal fault in memory ROM circuits", t |-> ""],
  [r |-> 60, s |-> 422, d |-> "Self-adjustment damper motors, Drivers temp failed", t |-> ""],
  [r |-> 61, s |-> 423, d |-> "Self-adjustment damper motors, Passenger temp failed", t |-> ""],
  [r |-> 62, s |-> 424, d |-> "Self-adjustment damper motors, Air distribution failed", t |-> ""],
  [r |-> 63, s |-> 425, d |-> "Self-adjustment damper motors, Recirculation failed", t |-> ""],
  [r |-> 80, s |-> 441, d |-> "Program downloading, control module. Not Done", t |-> ""],
  [r |-> 81, s |-> 442, d |-> "Program downloading, control module. Faulty", t |-> ""] >>
T_immo == <<
  [r |-> 1, s |-> 112, d |-> "Internal EEPROM memory fault", t |-> ""],
  [r |-> 2, s |-> -1, d |-> "Comm fault with engine ECU", t |-> ""],
  [r |-> 3, s |-> -1, d |-> "No Contact with Antenna", t |-> "Or wrong antenna. Ex. Immo2 on 850 has 8 Ohms, Immo3 on S/V40 has 3.3 Ohms, V70 has 5 Ohms as rough resistance measurement.\nAntenna is tuned inside IMMO with capacitors and resistors for antennas inductivity to create LC circuit.\nOther reasons:\nThe cable between control module Pin #9 or #10 is short to gnd or +12V."],
  [r |-> 4, s |-> -1, d |-> "No Response from Key Transponder", t |-> ""],
  [r |-> 5, s |-> -1, d |-> "Key Code not in memory", t |-> ""],
  [r |-> 6, s |-> 223, d |-> "Comm fault from Transponder to IMMO Control Module", t |-> ""],
  [r |-> 7, s |-> 336, d |-> "Control circuit to VGLA, fault in VGLA or LED circuit", t |-> "(P0600)"],
  [r |-> 48, s |-> 334, d |-> "Control circuit to Indicator Lamp, fault in circuit", t |-> ""],
  [r |-> 49, s |-> 335, d |-> "Starter Motor Control circuit, fault in circuit", t |-> ""],
  [r |-> 50, s |-> 324, d |-> "VERLOG code missing or mismatch", t |-> "ECM or CSM module coding"],
  [r |-> 51, s |-> 325, d |-> "Faulty Comms with coded starter module (CSM)", t |-> ""],
  [r |-> 52, s |-> 121, d |-> "PIN programming failed", t |-> ""],
  [r |-> 53, s |-> 225, d |-> "Fault Programming Key Code / Key Code verification failed", t |-> ""],
  [r |-> 54, s |-> 132, d |-> "No Key Codes in EEPROM", t |-> "Live data should say IMMO PROG as not NORM"],
  [r |-> 55, s |-> 122, d |-> "Immobilizer not yet programmed", t |-> "After entering the code this gets automatically erased"],
  [r |-> 56, s |-> 999, d |-> "EEPROM error", t |-> ""],
  [r |-> 81, s |-> 311, d |-> "Comms with engine ECU, short to supply in comm link 2 or 4", t |-> ""],
  [r |-> 82, s |-> 312, d |-> "Comms with engine ECU, short to ground in comm link 2 or 4", t |-> ""],
  [r |-> 83, s |-> 214, d |-> "Comms from engine ECU, wrong MIN code", t |-> "ie, Immobilizer is programmed for a different engine ECU"],
  [r |-> 84, s |-> 321, d |-> "Initiating signal from ECM, missing", t |-> ""],
  [r |-> 85, s |-> 326, d |-> "Reply signal from engine control module", t |-> ""],
  [r |-> 247, s |-> 333, d |-> "Control circuit to VGLA, fault in VGLA or LED circuit", t |-> ""],
  [r |-> 248, s |-> 336, d |-> "Control circuit to VGLA, fault in VGLA or LED circuit", t |-> "(P0600)"] >>
T_m44 == <<
  [r |-> 9, s |-> 415, d |-> "Boost Pressure sensor signal", t |-> ""],
  [r |-> 10, s |-> 212, d |-> "HO2S sensor signal, front", t |-> ""],
  [r |-> 12, s |-> 153, d |-> "HO2S sensor signal, rear", t |-> "(P0136 - faulty, P0137 - low, or P0138 - high)"],
  [r |-> 13, s |-> 521, d |-> "Front HO2S, preheating", t |-> ""],
  [r |-> 14, s |-> 522, d |-> "Rear HO2S, preheating malfunction", t |-> "(P0141)"],
  [r |-> 15, s |-> 435, d |-> "Front HO2S slow response", t |-> ""],
  [r |-> 16, s |-> 436, d |-> "Rear HO2S compensation", t |-> "(P0133) see 1st 3 items in Bing search for 'P0133 \"EFI-436\"' and 1st 3 items in Google search"],
  [r |-> 17, s |-> 425, d |-> "Rear HO2S, control (or possibly Temperature warning, level 1)", t |-> ""],
  [r |-> 19, s |-> 343, d |-> "Fuel Pump Relay", t |-> ""],
  [r |-> 24, s |-> 211, d |-> "CO Potentiometer", t |-> ""],
  [r |-> 26, s |-> 231, d |-> "Long term fuel trim, part load", t |-> "(P0171 or P0172) defective MAF, fuel pressure high/low (P0171/P0172), elbow at intake manifold (hidden underneath coolant thermostat) or elbow at PTC or vacuum leaks (if P0172), see OTP Volvo 850 DVD, see 7-step checkup in section including '2-3-1 (Adaptive HO2S Control Lean At Part Load)' of 'http://www.volvotips.com/index.php/850-2/volvo-850-s70-v70-c70-service-repair-manual/volvo-850-diagnostics-with-codes-obd/'"],
  [r |-> 27, s |-> 232, d |-> "Long term fuel trim, idling", t |-> "(P0172 or P0171) elbow at intake manifold (hidden underneath coolant thermostat) or elbow at PTC or vacuum leaks (if P0172), fuel pressure high/low (P0171/P0172), defective MAF, see OTP Volvo 850 DVD, see 10-step checkup in section '2-3-2 (Adaptive HO2S Control Provides Richer Mixture At Idle)' of 'http://www.volvotips.com/index.php/850-2/volvo-850-s70-v70-c70-service-repair-manual/volvo-850-diagnostics-with-codes-obd/'"],
  [r |-> 29, s |-> 666, d |-> "DTC in transmission CM", t |-> ""],
  [r |-> 40, s |-> 443, d |-> "Catalyst efficiency", t |-> ""],
  [r |-> 49, s |-> 542, d |-> "Misfire, multiple cylinders?", t |-> ""],
  [r |-> 50, s |-> 451, d |-> "Misfire, cylinder 1", t |-> "(P0301)"],
  [r |-> 51, s |-> 452, d |-> "Misfire, cylinder 2", t |-> "(P0302)"],
  [r |-> 52, s |-> 453, d |-> "Misfire, cylinder 3", t |-> "(P0303)"],
  [r |-> 53, s |-> 454, d |-> "Misfire, cylinder 4", t |-> "(P0304)"],
  [r |-> 54, s |-> 455, d |-> "Misfire, cylinder 5", t |-> "(P0305)"],
  [r |-> 55, s |-> 456, d |-> "Misfire, cylinder 6", t |-> "(P0306)"],
  [r |-> 57, s |-> 353, d |-> "Immobilizer", t |-> ""],
  [r |-> 61, s |-> 544, d |-> "Misfire, multiple cylinders?", t |-> ""],
  [r |-> 62, s |-> 543, d |-> "Misfire, at least one cylinder", t |-> "(P0300)"],
  [r |-> 63, s |-> 551, d |-> "Misfire with catalyst damage, cylinder 1", t |-> "(P0301)"],
  [r |-> 64, s |-> 552, d |-> "Misfire with catalyst damage, cylinder 2", t |-> "(P0302)"],
  [r |-> 65, s |-> 553, d |-> "Misfire with catalyst damage, cylinder 3", t |-> "(P0303)"],
  [r |-> 66, s |-> 554, d |-> "Misfire with catalyst damage, cylinder 4", t |-> "(P0304)"],
  [r |-> 67, s |-> 555, d |-> "Misfire with catalyst damage, cylinder 5", t |-> "(P0305)"],
  [r |-> 68, s |-> 556, d |-> "Misfire with catalyst damage, cylinder 6", t |-> "(P0306)"],
  [r |-> 75, s |-> 545, d |-> "Misfire with catalyst damage, at least one cylinder", t |-> "(P0300)"],
  [r |-> 77, s |-> 444, d |-> "Acceleration sensor signal", t |-> "(P1307 - low or P1308 - high) see OTP 850 DVD, TP-2318201, p149 and p268, for possible sources"],
  [r |-> 80, s |-> 442, d |-> "Pulsed secondary air injection system flow fault", t |-> "(P0410) see OTP 850 DVD, TP-2308202, p669 and p78 and p316"],
  [r |-> 81, s |-> 448, d |-> "Pulsed secondary air injection system pump flow fault", t |-> "(P0410) see OTP 850 DVD, TP-2308202, p669 and p78 and p361"],
  [r |-> 83, s |-> 446, d |-> "Pulsed secondary air injection system valve leakage", t |-> "(P0410) see OTP 850 DVD, TP-2308202, p669 and p78 and p344"],
  [r |-> 84, s |-> 445, d |-> "Pulsed secondary air injection system pump signal", t |-> "(P0410) see OTP 850 DVD, TP-2318201, p268 and p44"],
  [r |-> 85, s |-> 447, d |-> "Pulsed secondary air injection system solenoid valve signal", t |-> "(P0413 - missing or P0414 - low/high) see OTP 850 DVD, TP-2318201, p268 and p44"],
  [r |-> 86, s |-> 241, d |-> "EGR system", t |-> ""],
  [r |-> 89, s |-> 413, d |-> "EGR temperature sensor signal", t |-> ""],
  [r |-> 93, s |-> 315, d |-> "Canister purge valve leakage", t |-> ""],
  [r |-> 94, s |-> 611, d |-> "Fuel Tank system, large leakage", t |-> "(P0455) Pressure in fuel tank does not drop rapidly enough"],
  [r |-> 95, s |-> 614, d |-> "EVAP canister shut off valve flow fault", t |-> ""],
  [r |-> 96, s |-> 616, d |-> "EVAP canister shut off valve signal", t |-> ""],
  [r |-> 97, s |-> 612, d |-> "Fuel Tank system, small leakage", t |-> "(P0442) While EVAP canister shut-off valve is closed, the canister purge valve is pulsed until reached specific vacuum and this vacuum level has not stayed long enough. Check fuel cap seated and sealed properly, leaking fuel tank, filler pipe, EVAP canister or its shut-off valve, lines connecting any of those, or bad fuel tank pressure sensor"],
  [r |-> 98, s |-> 541, d |-> "Canister purge valve signal", t |-> ""],
  [r |-> 99, s |-> 621, d |-> "Fuel tank pressure sensor signal", t |-> ""],
  [r |-> 101, s |-> 112, d |-> "MFI Control Module fault", t |-> ""],
  [r |-> 103, s |-> 112, d |-> "Memory Fault (ROM) In Engine Control Module", t |-> ""],
  [r |-> 107, s |-> 132, d |-> "Battery Voltage", t |-> ""],
  [r |-> 109, s |-> 315, d |-> "Canister purge valve leakage", t |-> ""],
  [r |-> 110, s |-> 131, d |-> "RPM sensor signal missing", t |-> "on gearbox casing, also known as Crankshaft sensor, should get reading of 200 to 400 Ohms with multimeter. Two pole connector."],
  [r |-> 111, s |-> 214, d |-> "RPM sensor signal sporadic/faulty", t |-> "on gearbox casing, also known as Crankshaft sensor, should get reading of 200 to 400 Ohms with multimeter. Two pole connector."],
  [r |-> 112, s |-> 314, d |-> "Camshaft Position sensor signal", t |-> "(P0340) next to distributor, cannot verify ohm readings as its all over place from 2k to millions of ohms. When cranking you should get 1.5 to 2hz reading. Dont unplug sensor needs power to work. see OTP 850 DVD, TP-2308202, p262 for possible sources"],
  [r |-> 115, s |-> 121, d |-> "Mass Air Flow sensor signal", t |-> ""],
  [r |-> 117, s |-> 411, d |-> "Throttle Position sensor signal", t |-> ""],
  [r |-> 119, s |-> 422, d |-> "Atmospheric pressure sensor signal", t |-> ""],
  [r |-> 120, s |-> 311, d |-> "Engine RPM high for too long while no Vehicle Speed measured", t |-> "(P0500) Speedometer signal faulty; short circuit, open circuit, contact resistance, or faulty speedometer, ABS, or COMBI; see OTP 850 DVD: TP-2308202, p253, p669; see www.volvopedia.de/index.php?title=EFI-311"],
  [r |-> 121, s |-> 355, d |-> "Mass air flow sensor, faulty signal", t |-> ""],
  [r |-> 122, s |-> 112, d |-> "Fault in Engine Control Module NTC switch", t |-> ""],
  [r |-> 123, s |-> 123, d |-> "Engine Coolant Temperature sensor", t |-> "(P0116 - faulty, P0117 - low, P0118 - high, or P0115 - missing) see OTP 850 DVD: TP-2308202, p107, p668; see 'http://www.volvopedia.de/index.php?title=EFI-123#Motronic_4.4'"],
  [r |-> 124, s |-> 251, d |-> "Ambient Temperature sensor signal", t |-> "(P0111 - sporadic, P0112 - low, or P0113 - high) see OTP 850 DVD: TP-2318201, p105, p266"],
  [r |-> 127, s |-> 112, d |-> "Fault in Engine Control Module Temperature", t |-> ""],
  [r |-> 128, s |-> 432, d |-> "Temperature warning, level 1", t |-> ""],
  [r |-> 129, s |-> 513, d |-> "Temperature warning, level 2", t |-> ""],
  [r |-> 130, s |-> 225, d |-> "A/C pressure sensor signal", t |-> ""],
  [r |-> 150, s |-> 115, d |-> "Injector 1", t |-> ""],
  [r |-> 151, s |-> 125, d |-> "Injector 2", t |-> ""],
  [r |-> 152, s |-> 135, d |-> "Injector 3", t |-> ""],
  [r |-> 153, s |-> 145, d |-> "Injector 4", t |-> ""],
  [r |-> 154, s |-> 155, d |-> "Injector 5", t |-> ""],
  [r |-> 155, s |-> 165, d |-> "Injector 6", t |-> ""],
  [r |-> 164, s |-> 335, d |-> "Communication failure between TCM and ECM", t |-> "(P1618 - High or P1617 - Low/Missing/Faulty) check grounds 31/71, 31/32, 31/33; check TCM pin B15 to M44 pin B26 circuit & connections; see OTP 850 DVD: TP-2308032, pp275-280; TP-2318201, p43, p269"],
  [r |-> 168, s |-> 223, d |-> "Idle Air Control valve opening signal", t |-> ""],
  [r |-> 169, s |-> 245, d |-> "IAC valve closing signal", t |-> ""],
  [r |-> 170, s |-> 233, d |-> "Adaptive idle air trim", t |-> ""],
  [r |-> 180, s |-> 531, d |-> "Power stage group A", t |-> ""],
  [r |-> 181, s |-> 532, d |-> "Power stage group B", t |-> ""],
  [r |-> 182, s |-> 533, d |-> "Power stage group C", t |-> ""],
  [r |-> 183, s |-> 534, d |-> "Power stage group D", t |-> ""],
  [r |-> 184, s |-> 536, d |-> "Power stage group E", t |-> ""],
  [r |-> 185, s |-> 537, d |-> "Power stage group F?", t |-> ""],
  [r |-> 210, s |-> 143, d |-> "Front knock sensor", t |-> ""],
  [r |-> 211, s |-> 433, d |-> "Rear knock sensor", t |-> ""],
  [r |-> 222, s |-> 112, d |-> "Fault in Engine Control Module Knock Control", t |-> ""],
  [r |-> 225, s |-> 233, d |-> "Idle air trim", t |-> ""],
  [r |-> 229, s |-> 416, d |-> "Boost pressure reduction from TCM", t |-> ""],
  [r |-> 230, s |-> 414, d |-> "Boost pressure regulation", t |-> ""],
  [r |-> 237, s |-> 112, d |-> "Fault in Engine Control Module NTC switch", t |-> ""],
  [r |-> 238, s |-> 432, d |-> "Temperature warning, level 1", t |-> ""],
  [r |-> 239, s |-> 513, d |-> "Temperature warning, level 2", t |-> ""],
  [r |-> 241, s |-> 154, d |-> "EGR system leakage", t |-> ""],
  [r |-> 244, s |-> 535, d |-> "Turbocharger control valve signal", t |-> ""],
  [r |-> 253, s |-> 514, d |-> "Engine coolant fan, low speed", t |-> ""],
  [r |-> 254, s |-> 621, d |-> "Fuel tank pressure sensor signal", t |-> ""] >>
T_m44old == <<
  [r |-> 84, s |-> 445, d |-> "Pulsed secondary air injection system pump signal", t |-> ""] >>
T_msa == <<
  [r |-> 0, s |-> 131, d |-> "Engine Speed signal", t |-> ""],
  [r |-> 1, s |-> 719, d |-> "Secondary Engine Speed signal", t |-> ""],
  [r |-> 2, s |-> 132, d |-> "Battery Voltage", t |-> ""],
  [r |-> 3, s |-> 711, d |-> "Needle Lift sensor signal", t |-> ""],
  [r |-> 4, s |-> 732, d |-> "Accelerator Pedal Position sensor signal", t |-> ""],
  [r |-> 5, s |-> 123, d |-> "Engine Coolant Temperature sensor signal", t |-> ""],
  [r |-> 6, s |-> 122, d |-> "Intake Air Temperature sensor signal", t |-> ""],
  [r |-> 8, s |-> 712, d |-> "Fuel Temperature sensor signal", t |-> ""],
  [r |-> 9, s |-> 415, d |-> "Boost Pressure sensor signal", t |-> ""],
  [r |-> 10, s |-> 112, d |-> "Barometric Pressure signal", t |-> ""],
  [r |-> 10, s |-> 112, d |-> "Fault in Engine Control Module Barometric Pressure signal", t |-> ""],
  [r |-> 11, s |-> 121, d |-> "Mass Air Flow sensor signal", t |-> ""],
  [r |-> 12, s |-> 743, d |-> "Cruise Control switch signal", t |-> ""],
  [r |-> 13, s |-> 112, d |-> "Fault in Engine Control Module Reference Voltage", t |-> ""],
  [r |-> 15, s |-> 112, d |-> "Fault in Engine Control Module", t |-> ""],
  [r |-> 16, s |-> 311, d |-> "Vehicle Speed signal discrepancy", t |-> "neither cruise control nor A/C will activate, possibly due to VSS fault, COMBI->ECM fault, or COMBI fault"],
  [r |-> 17, s |-> 235, d |-> "Exhaust gas recirculation controller signal", t |-> ""],
  [r |-> 18, s |-> 242, d |-> "Turbocharger Control Valve signal", t |-> ""],
  [r |-> 20, s |-> 515, d |-> "Engine Coolant Fan, high speed signal", t |-> ""],
  [r |-> 25, s |-> 713, d |-> "Injection Timing, Advance Control Valve signal", t |-> ""],
  [r |-> 26, s |-> 323, d |-> "Malfunction Indicator Lamp circuit fault", t |-> ""],
  [r |-> 27, s |-> 721, d |-> "Glowplug Indicator Lamp signal", t |-> ""],
  [r |-> 32, s |-> 714, d |-> "Fuel Shut-off Valve signal", t |-> ""],
  [r |-> 33, s |-> 730, d |-> "Brake Pedal Switch signal", t |-> ""],
  [r |-> 34, s |-> 731, d |-> "Clutch Switch signal", t |-> ""],
  [r |-> 35, s |-> 724, d |-> "Engine Coolant Heater Relay signal", t |-> ""],
  [r |-> 36, s |-> 112, d |-> "Memory Fault (ROM) In Engine Control Module", t |-> ""],
  [r |-> 38, s |-> 514, d |-> "Engine Coolant Fan, low speed signal", t |-> ""],
  [r |-> 42, s |-> 725, d |-> "Main Relay signal", t |-> ""],
  [r |-> 43, s |-> 715, d |-> "Fuel Regulation", t |-> "EVRY mod?"],
  [r |-> 45, s |-> 726, d |-> "Terminal 15-supply to Engine Control Module", t |-> ""],
  [r |-> 46, s |-> 716, d |-> "Fuel Quantity Actuator signal", t |-> "EVRY mod? / change fuel filter"],
  [r |-> 47, s |-> 718, d |-> "Ignition Timing Control", t |-> ""],
  [r |-> 48, s |-> 335, d |-> "Communication failure between TCM and ECM", t |-> ""],
  [r |-> 49, s |-> 353, d |-> "Communication failure with Immobilizer", t |-> ""],
  [r |-> 50, s |-> 742, d |-> "Communication failure between TCM and ECM", t |-> ""],
  [r |-> 51, s |-> 225, d |-> "A/C Pressure sensor signal", t |-> ""],
  [r |-> 52, s |-> 717, d |-> "Fuel Quantity Regulator Position sensor signal", t |-> "EVRY mod?"],
  [r |-> 54, s |-> 732, d |-> "Accelerator pedal position sensor signal", t |-> ""],
  [r |-> 254, s |-> 131, d |-> "Engine Speed signal", t |-> ""] >>
T_ps == <<
  [r |-> 1, s |-> 112, d |-> "Legroom Motor 1, Pot signal too high", t |-> ""],
  [r |-> 2, s |-> 121, d |-> "Backrest Motor 2, Pot signal too high", t |-> ""],
  [r |-> 3, s |-> 122, d |-> "Seat Rear Edge Motor 3, Pot signal too high", t |-> ""],
  [r |-> 4, s |-> 211, d |-> "Seat Front Edge Motor 4, Pot signal too high", t |-> ""],
  [r |-> 5, s |-> 212, d |-> "Legroom Motor 1, Pot signal too low", t |-> ""],
  [r |-> 6, s |-> 222, d |-> "Backrest Motor 2, Pot signal too low", t |-> ""],
  [r |-> 7, s |-> 223, d |-> "Seat Rear Edge Motor 3, Pot signal too low", t |-> ""],
  [r |-> 8, s |-> 312, d |-> "Seat Front Edge Motor 4, Pot signal too low", t |-> ""],
  [r |-> 9, s |-> 123, d |-> "Legroom Motor 1 Movement when not activated", t |-> ""],
  [r |-> 10, s |-> 131, d |-> "Backrest Motor 2 Movement when not activated", t |-> ""],
  [r |-> 11, s |-> 132, d |-> "Seat Rear Edge Motor 3 Movement when not activated", t |-> ""],
  [r |-> 12, s |-> 133, d |-> "Seat Front Edge Motor 4 Movement when not activated", t |-> ""],
  [r |-> 13, s |-> 143, d |-> "Legroom Motor 1 moves in wrong direction", t |-> ""],
  [r |-> 14, s |-> 144, d |-> "Backrest Motor 2 moves in wrong direction", t |-> ""],
  [r |-> 15, s |-> 214, d |-> "Seat Rear Edge Motor 3 moves in wrong direction", t |-> ""],
  [r |-> 16, s |-> 224, d |-> "Seat Front Edge Motor 4 moves in wrong direction", t |-> ""],
  [r |-> 17, s |-> 323, d |-> "Memory 1, Fault in stored memory position", t |-> "try learn new position"],
  [r |-> 18, s |-> 322, d |-> "Memory 2, Fault in stored memory position", t |-> "try learn new position"],
  [r |-> 19, s |-> 321, d |-> "Memory 3, Fault in stored memory position", t |-> "try learn new position"],
  [r |-> 20, s |-> 424, d |-> "Control Panel not connected (spurious; ignore)", t |-> ""],
  [r |-> 21, s |-> 421, d |-> "Fault in control module", t |-> ""],
  [r |-> 22, s |-> 422, d |-> "Battery Voltage too low", t |-> ""],
  [r |-> 23, s |-> 423, d |-> "Control Panel button activated too long", t |-> ""],
  [r |-> 24, s |-> 411, d |-> "Legroom Motor 1 not calibrated", t |-> ""],
  [r |-> 25, s |-> 412, d |-> "Backrest Motor 2 not calibrated", t |-> ""],
  [r |-> 26, s |-> 413, d |-> "Seat Rear Edge Motor 3 not calibrated", t |-> ""],
  [r |-> 27, s |-> 414, d |-> "Seat Front Edge Motor 4 not calibrated", t |-> ""],
  [r |-> 28, s |-> 331, d |-> "Entry position not stored", t |-> ""],
  [r |-> 29, s |-> 332, d |-> "Original position not stored", t |-> ""] >>
T_rop == <<
  [r |-> 1, s |-> 412, d |-> "Control Module, Internal Fault", t |-> ""],
  [r |-> 99, s |-> 413, d |-> "Transit Safety Catch On", t |-> ""],
  [r |-> 101, s |-> 427, d |-> "ROPS warning Lamp, Faulty Signal", t |-> ""],
  [r |-> 102, s |-> 428, d |-> "ROPS warning Lamp, Signal too High", t |-> ""],
  [r |-> 103, s |-> 429, d |-> "Battery Voltage Signal too Low", t |-> ""],
  [r |-> 104, s |-> 430, d |-> "Solenoids S1, S2, faulty Signal crash bow", t |-> ""],
  [r |-> 105, s |-> 431, d |-> "Left Solenoid S1, Signal too Low", t |-> ""],
  [r |-> 106, s |-> 432, d |-> "Left Solenoid S1, Signal Missing", t |-> ""],
  [r |-> 107, s |-> 433, d |-> "Left Solenoid S1, Signal too High", t |-> ""],
  [r |-> 109, s |-> 441, d |-> "Right Solenoid S2, Signal too Low", t |-> ""],
  [r |-> 110, s |-> 442, d |-> "Right Solenoid S2, Signal Missing", t |-> ""],
  [r |-> 111, s |-> 443, d |-> "Right Solenoid S2, Signal too High", t |-> ""],
  [r |-> 113, s |-> 451, d |-> "Solenoids S1, S2, faulty counter Max No. of triggers Done", t |-> ""],
  [r |-> 120, s |-> 452, d |-> "Control Module, handling fault during Self Test", t |-> ""] >>
T_rti == <<
  [r |-> 16, s |-> 112, d |-> "Control Module, Internal Fault Memory circuits", t |-> ""],
  [r |-> 32, s |-> 113, d |-> "Control Module, Internal Fault, Internal comms", t |-> ""],
  [r |-> 48, s |-> 114, d |-> "Control Module, Internal Fault, Display screen comms", t |-> ""],
  [r |-> 64, s |-> 121, d |-> "CD-ROM player, temperature too high", t |-> ""],
  [r |-> 65, s |-> 122, d |-> "CD-ROM player, Internal Fault", t |-> ""],
  [r |-> 66, s |-> 123, d |-> "CD-ROM player, Fault in player circuits", t |-> ""],
  [r |-> 67, s |-> 125, d |-> "CD-ROM player, Fault in player circuits", t |-> ""],
  [r |-> 68, s |-> 124, d |-> "CD-ROM player, Fault in comms signal", t |-> ""],
  [r |-> 80, s |-> 115, d |-> "Control Module, Internal Fault, Internal Comms", t |-> ""],
  [r |-> 96, s |-> 131, d |-> "TMC receiver, faulty signal", t |-> ""],
  [r |-> 112, s |-> 141, d |-> "TMC/FM receiver, faulty signal", t |-> ""] >>
T_srs == <<
  [r |-> 1, s |-> 112, d |-> "Crash Sensor Module internal fault", t |-> ""],
  [r |-> 2, s |-> 211, d |-> "Driver Airbag short circuit", t |-> ""],
  [r |-> 3, s |-> 212, d |-> "Driver Airbag open circuit", t |-> ""],
  [r |-> 4, s |-> 213, d |-> "Driver Airbag short to ground", t |-> ""],
  [r |-> 5, s |-> 214, d |-> "Driver Airbag short to supply", t |-> ""],
  [r |-> 6, s |-> 221, d |-> "Passenger Airbag short circuit", t |-> ""],
  [r |-> 7, s |-> 222, d |-> "Passenger Airbag open circuit", t |-> ""],
  [r |-> 8, s |-> 223, d |-> "Passenger Airbag short to ground", t |-> ""],
  [r |-> 9, s |-> 224, d |-> "Passenger Airbag short to supply", t |-> ""],
  [r |-> 10, s |-> 231, d |-> "Left Seat Belt Tensioner short circuit", t |-> ""],
  [r |-> 11, s |-> 232, d |-> "Left Seat Belt Tensioner open circuit", t |-> ""],
  [r |-> 12, s |-> 233, d |-> "Left Seat Belt Tensioner short circuit to ground", t |-> ""],
  [r |-> 13, s |-> 234, d |-> "Left Seat Belt Tensioner short circuit to supply", t |-> ""],
  [r |-> 14, s |-> 241, d |-> "Right Seat Belt Tensioner short circuit", t |-> ""],
  [r |-> 15, s |-> 242, d |-> "Right Seat Belt Tensioner open circuit", t |-> ""],
  [r |-> 16, s |-> 243, d |-> "Right Seat Belt Tensioner short circuit to ground", t |-> ""],
  [r |-> 17, s |-> 244, d |-> "Right Seat Belt Tensioner short circuit to supply", t |-> ""],
  [r |-> 82, s |-> 127, d |-> "SRS Warning Light short circuit to ground or open circuit", t |-> ""],
  [r |-> 83, s |-> 128, d |-> "SRS Warning Light short circuit to supply", t |-> ""],
  [r |-> 101, s |-> 127, d |-> "SRS Warning Light short circuit to ground or open circuit", t |-> ""],
  [r |-> 102, s |-> 128, d |-> "SRS Warning Light short circuit to supply", t |-> ""],
  [r |-> 103, s |-> 129, d |-> "Battery Voltage signal too low", t |-> ""],
  [r |-> 104, s |-> 213, d |-> "Driver airbag short to ground", t |-> ""],
  [r |-> 105, s |-> 214, d |-> "Driver Airbag short to supply", t |-> ""],
  [r |-> 106, s |-> 233, d |-> "Left Seat Belt Tensioner short circuit to ground", t |-> ""],
  [r |-> 107, s |-> 234, d |-> "Left Seat Belt Tensioner short circuit to supply", t |-> ""],
  [r |-> 108, s |-> 243, d |-> "Right Seat Belt Tensioner short circuit to ground", t |-> ""],
  [r |-> 109, s |-> 244, d |-> "Right Seat Belt Tensioner short circuit to supply", t |-> ""],
  [r |-> 110, s |-> 223, d |-> "Passenger Airbag short circuit to ground", t |-> ""],
  [r |-> 111, s |-> 224, d |-> "Passenger Airbag short circuit to supply", t |-> ""],
  [r |-> 112, s |-> 313, d |-> "Left Rear Seat Belt Tensioner signal too low", t |-> ""],
  [r |-> 113, s |-> 314, d |-> "Left Rear Seat Belt Tensioner signal too high", t |-> ""],
  [r |-> 114, s |-> 323, d |-> "Right Rear Seat Belt Tensioner signal too low", t |-> ""],
  [r |-> 115, s |-> 324, d |-> "Right Rear Seat Belt Tensioner signal too high", t |-> ""],
  [r |-> 120, s |-> 211, d |-> "Driver Airbag short circuit", t |-> ""],
  [r |-> 121, s |-> 212, d |-> "Driver Airbag open circuit", t |-> ""],
  [r |-> 122, s |-> 231, d |-> "Left Seat Belt Tensioner short circuit", t |-> ""],
  [r |-> 123, s |-> 232, d |-> "Left Seat Belt Tensioner open circuit", t |-> ""],
  [r |-> 124, s |-> 241, d |-> "Right Seat Belt Tensioner short circuit", t |-> ""],
  [r |-> 125, s |-> 242, d |-> "Right Seat Belt Tensioner open circuit", t |-> ""],
  [r |-> 126, s |-> 221, d |-> "Passenger Airbag short circuit", t |-> ""],
  [r |-> 127, s |-> 222, d |-> "Passenger Airbag open circuit", t |-> ""],
  [r |-> 128, s |-> 311, d |-> "Left Rear Seat Belt Tensioner short circuit", t |-> ""],
  [r |-> 129, s |-> 312, d |-> "Left Rear Seat Belt Tensioner open circuit", t |-> ""],
  [r |-> 130, s |-> 321, d |-> "Right Rear Seat Belt Tensioner short circuit", t |-> ""],
  [r |-> 131, s |-> 322, d |-> "Right Rear Seat Belt Tensioner open circuit", t |-> ""],
  [r |-> 136, s |-> 210, d |-> "Not programmed for Driver Airbag, but airbag detected", t |-> ""],
  [r |-> 137, s |-> 230, d |-> "Not programmed for Left Seat Belt Tensioner, but tensioner detected", t |-> ""],
  [r |-> 138, s |-> 240, d |-> "Not programmed for Right Seat Belt Tensioner, but tensioner detected", t |-> ""],
  [r |-> 139, s |-> 220, d |-> "Not programmed for Passenger Airbag, but airbag detected", t |-> ""],
  [r |-> 140, s |-> 310, d |-> "Unexpected Left Seat Belt Tensioner configuration", t |-> ""],
  [r |-> 141, s |-> 320, d |-> "Unexpected Right Seat Belt Tensioner configuration", t |-> ""],
  [r |-> 199, s |-> 114, d |-> "Three collisions registered", t |-> ""] >>
T_vgla == <<
  [r |-> 65, s |-> 114, d |-> "Control Module, Fault in EEPROM", t |-> ""],
  [r |-> 66, s |-> 512, d |-> "Drivers Door Lock Switch, Unlocking Signal too Low / Short to Ground", t |-> ""],
  [r |-> 67, s |-> 521, d |-> "Drivers Central Locking Switch, Signal too Low / Short to Ground", t |-> ""],
  [r |-> 73, s |-> 511, d |-> "Drivers Door Lock Switch, Locking Signal too Low / Short to Ground", t |-> ""],
  [r |-> 74, s |-> 311, d |-> "Siren, Faulty Signal", t |-> ""],
  [r |-> 76, s |-> 312, d |-> "Siren, Internal Battery Fault", t |-> ""],
  [r |-> 77, s |-> 321, d |-> "Siren, Fault In the Power Supply", t |-> ""],
  [r |-> 79, s |-> 415, d |-> "Left ultrasonic sensor, Signal Faulty", t |-> ""],
  [r |-> 81, s |-> 416, d |-> "Left ultrasonic sensor, internal Fault", t |-> ""],
  [r |-> 82, s |-> 531, d |-> "Courtesy Lighting, Signal too Low / Short to Ground", t |-> ""],
  [r |-> 84, s |-> 421, d |-> "Glass breakage Sensor, Signal Faulty, to control module", t |-> ""],
  [r |-> 85, s |-> 422, d |-> "Glass breakage Sensor, Signal Faulty, microphone circuit", t |-> ""],
  [r |-> 86, s |-> 451, d |-> "Movement Sensor, Faulty Signal", t |-> ""],
  [r |-> 87, s |-> 413, d |-> "Right ultrasonic sensor, Signal Faulty", t |-> ""],
  [r |-> 88, s |-> 414, d |-> "Right ultrasonic sensor, internal Fault", t |-> ""],
  [r |-> 89, s |-> 432, d |-> "Tilt sensor, Internal fault", t |-> ""],
  [r |-> 96, s |-> 456, d |-> "SRS signal, Signal too Low / Short to Ground", t |-> ""],
  [r |-> 97, s |-> 452, d |-> "ECC afterblow, Signal too High", t |-> ""],
  [r |-> 98, s |-> 610, d |-> "Speed Signal Faulty", t |-> ""],
  [r |-> 99, s |-> 441, d |-> "Resistive wire, Signal too High", t |-> ""],
  [r |-> 100, s |-> 541, d |-> "Ignition Switch, Signal too Low", t |-> ""],
  [r |-> 101, s |-> 431, d |-> "Tilt sensor, Signal too Low", t |-> ""],
  [r |-> 102, s |-> 454, d |-> "Immobilizer, Signal too Low", t |-> ""],
  [r |-> 103, s |-> 525, d |-> "Central Locking switch Passenger Door, Signal too Low", t |-> ""],
  [r |-> 105, s |-> 522, d |-> "Internal Tailgate/Trunk Control Switch, Signal too Low", t |-> ""],
  [r |-> 106, s |-> 523, d |-> "External Tailgate/Trunk Lock Switch, Signal too Low", t |-> ""],
  [r |-> 108, s |-> 524, d |-> "Fuel Filler Lock Switch, Signal too Low", t |-> ""],
  [r |-> 109, s |-> 113, d |-> "Control Module, Control Module Not Programmed", t |-> ""],
  [r |-> 110, s |-> 455, d |-> "Immobilizer, VGLA code Signal Faulty", t |-> ""] >>
Table(a) ==
  CASE a = 1 -> T_abs
    [] a = 2 -> T_dsa
    [] a = 16 -> T_m44old
    [] a = 17 -> T_msa
    [] a = 24 -> T_add
    [] a = 41 -> T_ecc
    [] a = 45 -> T_vgla
    [] a = 46 -> T_ps
    [] a = 47 -> T_ps
    [] a = 65 -> T_immo
    [] a = 66 -> T_ccu
    [] a = 81 -> T_combi
    [] a = 88 -> T_srs
    [] a = 89 -> T_rop
    [] a = 98 -> T_rti
    [] a = 110 -> T_aw50
    [] a = 122 -> T_m44
    [] OTHER -> <<>>
=============================================================================
