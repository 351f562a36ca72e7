#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long texts stay reviewable)."""
import json, os
S = "mlx9064x/src/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": [S + f for f in files],
            "state": [dict(name=a, meaning=b, where=S + c) for a, b, c in state],
            "mechanism": [dict(name=a, where=S + b) for a, b in mech],
            "observe_at": list(observe),
            "hook_needed": None,
        },
    })
C = "mlx90640/eeprom.rs"; D = "mlx90641/eeprom.rs"; K = "calculations.rs"; R = "register.rs"; V = "driver.rs"

p("C01", "MLX90640 EEPROM decodes to the datasheet's calibration constants",
  "Loading any plausible MLX90640 EEPROM image (every field free, as long as the datasheet's 16-bit sums fit) yields exactly the constants the datasheet's bit layout defines: supply-voltage, PTAT, gain, temperature-gradient, sensitivity-slope and corner-temperature constants, the compensation pixels' constants for each subpage, the ADC resolution, and for each of the 768 working pixels its offset, sensitivity, voltage and ambient-temperature coefficients in row-major order. "
  "Words of the image that carry no such constant do not affect the result, and the MLX90640 reports no stored emissivity.",
  ["inputs"], "all 832-word EEPROM images whose intermediate sums fit in 16 bits; all pixels, both subpages",
  "The tests decode two fixed dumps and compare a handful of pixels, so most bit positions, signs, scale factors, rows and columns are never varied.",
  [C, "common.rs", "util.rs"],
  [("bit unpacking and row/column accumulation", C), ("sign extension helper", "util.rs")],
  observe=["Mlx90640Calibration through the CalibrationData trait"])

p("C02", "MLX90641 EEPROM decodes to the datasheet's calibration constants",
  "Loading any plausible, correctly checksummed MLX90641 EEPROM image yields exactly the constants the datasheet's bit layout defines: supply-voltage, PTAT, gain, emissivity, temperature-gradient, sensitivity-slope (8 ranges) and corner-temperature constants, compensation-pixel constants, the ADC resolution, and for each of the 192 working pixels a separate offset per subpage and its sensitivity, voltage and ambient-temperature coefficients. "
  "Words of the image that carry no such constant do not affect the result.",
  ["inputs"], "all 832-word images made of valid code words whose intermediate sums fit in 16 bits; all pixels, both subpages",
  "The tests decode one fixed dump (with constant pixel words) and compare single values, so most bit positions, signs, scales, pixels and the second subpage are never varied.",
  [D, "mlx90641/hamming.rs", "common.rs", "util.rs"],
  [("bit unpacking, combined words, per-pixel decode", D)],
  observe=["Mlx90641Calibration through the CalibrationData trait"])

p("C03", "MLX90641 Hamming code corrects one bit error and detects two",
  "For each of the 2048 data values the encoder produces the code word defined by the documented parity table, and decoding that word returns the value. "
  "Decoding a code word with any single bit flipped returns the original value; with any two bits flipped it returns a checksum error carrying the received word. "
  "Encoding a value wider than 11 bits is refused.",
  ["inputs", "fault_sequences"], "all 2^16 words, all data values, all single and double bit flips (exhaustive)",
  "The tests cover the words of one EEPROM dump and a few flips.",
  ["mlx90641/hamming.rs"], [("parity masks, syndrome, re-check", "mlx90641/hamming.rs")],
  observe=["mlx90641::hamming::{add_checksum, validate_checksum}"])

p("C04", "MLX90641 calibration survives bit errors in its EEPROM",
  "If every word of an MLX90641 EEPROM image that carries calibration data has at most one flipped bit, loading succeeds and every calibration constant is identical to that of the undamaged image. "
  "If some such word has two flipped bits, loading fails with a checksum error that names a damaged word as received; no calibration is ever produced from it.",
  ["inputs", "fault_sequences"], "all valid images, all patterns of 0, 1 or 2 flips per word, any set of damaged words",
  "The tests only load one undamaged dump; no test damages a word on its way into the calibration.",
  [D, "mlx90641/hamming.rs"], [("every word goes through the checksum decoder", D)],
  observe=["Mlx90641Calibration::from_data"])

p("C05", "Loading a truncated or oversized EEPROM dump never panics",
  "For both cameras, loading calibration from a byte buffer shorter than the full 1664-byte EEPROM returns an error, whatever its length and content. "
  "A buffer with extra bytes after the full EEPROM gives exactly the same result as the EEPROM alone, whatever those extra bytes are. "
  "In a build without overflow checks, loading a full-length buffer of any content returns a result and never panics.",
  ["inputs"], "all byte buffers of length 0 to several KiB with arbitrary content",
  "The tests only ever pass complete, well-formed dumps.",
  [C, D], [("length check before decoding", C), ("length check before decoding", D)],
  observe=["Mlx90640Calibration::from_data", "Mlx90641Calibration::from_data"])

p("C06", "Calibration read over the bus equals that decoded from the EEPROM bytes",
  "For both cameras and any EEPROM content, creating a driver (or loading calibration) over the bus at any device address gives exactly the same calibration, or the same decode error, as decoding the device's EEPROM bytes, and only the EEPROM range is read for it. "
  "A driver created over the bus and one created with that calibration supplied produce identical images and settings.",
  ["inputs", "configurations"], "all EEPROM contents, device addresses, both cameras",
  "The tests load over the bus once per camera from a fixed dump and do not compare with decoding the bytes.",
  [C, D, V], [("bus dump of the EEPROM range", C), ("bus dump of the EEPROM range", D), ("driver constructors", V)],
  observe=["CameraDriver::new / new_with_calibration", "FromI2C for the calibrations"])

p("C07", "Failed and outlier pixels are exactly those flagged in the EEPROM",
  "A pixel is reported failed exactly when all of its EEPROM calibration data is zero; on the MLX90640 a pixel is reported outlier exactly when its word is non-zero and carries the outlier flag, while on the MLX90641 the outlier set is the failed set. "
  "The flagged indices are row-major pixel numbers, enumerated once each in increasing order, and the any-flagged query is true exactly when that enumeration is non-empty. "
  "Any bit slice used as a set of flagged pixels enumerates exactly its set bits in the same way. "
  "Whether other pixels are flagged never changes a pixel's own constants.",
  ["inputs"], "all EEPROM images and sets of zeroed/flagged pixels, both cameras",
  "The tests check the flags of two dumps that contain at most a few bad pixels and never compare the neighbours' constants.",
  [C, D, "common.rs"], [("failed/outlier bit arrays", C), ("failed bit array", D), ("FlaggedPixels", "common.rs")],
  observe=["CalibrationData::failed_pixels / outlier_pixels"])

p("C08", "Sensitivity corrections chain continuously from the basic range",
  "For every loaded calibration of either camera there is one sensitivity correction and one slope per corner temperature; the correction of the camera's basic range (second on the MLX90640, third on the MLX90641) is exactly 1, and each other range's correction is that of its neighbour towards the basic range, multiplied (above) or divided (below) by 1 + slope x width of the lower of the two ranges.",
  ["inputs"], "all EEPROM slopes and corner temperatures, both cameras",
  "The tests compare a few coefficients for two fixed dumps.",
  ["common.rs", C, D], [("recursive correction", "common.rs")],
  observe=["CalibrationData::alpha_correction"])

p("C09", "Interleave compensation applies only where and as documented",
  "On the MLX90640 in chess mode no pixel and no compensation pixel is compensated; in interleave mode every pixel gets the documented 4-column by 2-row pattern built from the second and third EEPROM coefficients, and only subpage 1's compensation pixel gets the first coefficient. "
  "The MLX90641 never applies any compensation. "
  "Exactly one entry is yielded per pixel, in row-major order.",
  ["inputs", "configurations"], "all EEPROM interleave coefficients, both modes, both subpages, both cameras",
  "The tests check the pattern for one set of coefficients and the first columns only.",
  [C, D], [("pattern iterator", C)],
  observe=["CalibrationData::access_pattern_compensation_pixels / _cp"])

p("C10", "Subpages partition the image and the read plan covers each subpage",
  "For every camera, access pattern and subpage the membership sequence has exactly one entry per pixel; on the MLX90640 the two subpages are disjoint, together cover every pixel, and are a checkerboard (chess) or alternate rows (interleave) with pixel 0 in subpage 0, while on the MLX90641 both subpages contain every pixel. "
  "The resolution correction factor is 2 to the power of (calibrated bits - current bits) for every pair of resolutions.",
  ["inputs", "configurations"], "both cameras x 2 access patterns x 2 subpages x all pixels x 16 resolution pairs (exhaustive)",
  "The tests check one of the modes fully and only the default calibrated resolution.",
  ["mlx90640/mod.rs", "mlx90641/mod.rs"], [("pixels_in_subpage, resolution_correction", "mlx90640/mod.rs"), ("pixels_in_subpage, resolution_correction", "mlx90641/mod.rs")],
  observe=["MelexisCamera"])

p("C11", "Reading a frame puts every RAM word in its place",
  "For any RAM content, reading a frame for a subpage delivers each pixel of that subpage (in the active access pattern) at its row-major position in the buffer, unchanged, and delivers the per-frame values (ambient-voltage, PTAT, supply-voltage, gain, and that subpage's compensation pixel) from their documented addresses as signed words. "
  "Every byte it stores at a pixel position is that pixel's RAM word, bytes of the buffer beyond the image are left alone, only documented RAM is read, and at most one pixel read per image row is issued.",
  ["inputs", "configurations"], "all RAM contents, both cameras, access patterns and subpages, all device addresses",
  "The tests use RAM filled with one repeated value and only check that a sentinel disappears.",
  ["common.rs", "mlx90640/mod.rs", "mlx90640/address.rs", "mlx90641/mod.rs", "mlx90641/address.rs", K],
  [("read_ram", "common.rs"), ("pixel_ranges", "mlx90640/mod.rs"), ("pixel_ranges", "mlx90641/mod.rs"), ("RamData::from_i2c", K)],
  observe=["common::read_ram", "calculations::RamData::from_i2c"])

p("C12", "Per-frame values follow the documented formulas",
  "For any calibration and per-frame words for which the formulas are well-conditioned, the voltage deviation, supply voltage (including the ADC resolution correction applied to the measured voltage), artificial PTAT voltage, ambient temperature, gain and sensitivity-correction factor equal the datasheet formulas within single-precision rounding. "
  "None of them panics for any 16-bit input.",
  ["inputs"], "all signed 16-bit frame words, all calibration constants, all resolution corrections",
  "The tests evaluate the worked example of each datasheet (one point per formula, resolution correction 1 only).",
  [K], [("delta_v, v_dd, v_ptat_art, ambient_temperature, CommonIrData::new", K)],
  observe=["calculations::*"])

p("C13", "IR image equals the documented per-pixel formula for every subpage pixel",
  "For any calibration (including ones whose constants differ per pixel and per subpage), frame, emissivity, resolution correction, subpage and access pattern, every pixel of the subpage receives the documented IR value: gain-corrected raw value plus interleave compensation, minus the offset scaled for ambient temperature and supply voltage, divided by emissivity, minus the temperature-gradient-weighted compensation-pixel value of the same subpage when gradient compensation exists. "
  "The function returns that frame's ambient temperature.",
  ["inputs", "configurations"], "all calibrations, frames, emissivities, subpages, access patterns, both camera geometries, within single-precision rounding where well-conditioned",
  "The tests compute one pixel per camera with constant frames.",
  [K], [("raw_pixels_to_ir_data, per_pixel_v_ir", K)],
  observe=["calculations::raw_pixels_to_ir_data", "calculations::per_pixel_v_ir"])

p("C14", "Temperature image equals the documented temperature formula",
  "For any calibration and IR values, every pixel of the subpage receives the documented object temperature computed from its IR value, its own sensitivity less the gradient-weighted compensation-pixel sensitivity of the same subpage, the ambient-temperature sensitivity correction, the slope of the camera's basic range and the reflected temperature. "
  "When no reflected temperature is given, ambient temperature less the camera's self-heating (8 on the MLX90640, 5 on the MLX90641) is used.",
  ["inputs", "configurations"], "all calibrations, IR values, ambient and reflected temperatures, emissivities, subpages, both geometries, within single-precision rounding where well-conditioned",
  "The tests compute one pixel per camera and one recorded MLX90640 frame pair with a loose tolerance.",
  [K], [("raw_ir_to_temperatures, per_pixel_temperature, t_ar", K)],
  observe=["calculations::raw_ir_to_temperatures", "calculations::per_pixel_temperature", "calculations::t_ar"])

p("C15", "One-pass temperature conversion equals the two-step conversion",
  "For any calibration, frame, emissivity, reflected temperature, resolution correction, subpage and access pattern, converting raw pixels straight to temperatures gives the same image and ambient temperature as converting to IR values and then to temperatures, within single-precision rounding.",
  ["inputs", "configurations"], "all calibrations, frames and settings, both geometries",
  "No test runs both paths on the same frame except with one constant frame.",
  [K], [("raw_pixels_to_temperatures vs raw_pixels_to_ir_data + raw_ir_to_temperatures", K)],
  observe=["calculations::raw_pixels_to_temperatures"])

p("C16", "Processing a subpage changes exactly its pixels, each from its own data",
  "Converting a frame writes every pixel of the selected subpage and leaves every other destination element bit-for-bit unchanged. The same holds for any other selection of pixels the caller passes to the conversion functions: exactly the selected pixels are converted, to the values they have whatever else is selected, also when the selection ends before or after the image. "
  "A pixel's result depends only on its own raw word and the per-frame words, never on other pixels' words, on the previous destination content, or on earlier frames. "
  "Processing both subpages, in either order, leaves the same complete image.",
  ["inputs", "histories"], "all calibrations, frames, destinations, subpage orders, both geometries and access patterns",
  "The tests look at single pixels; no test checks that the other half of the image is preserved or that pixels do not leak into each other.",
  [K, V], [("valid-pixel filter over zipped iterators", K)],
  observe=["calculations::*", "CameraDriver image functions"])

p("C17", "Temperatures obey the physical laws the conversion models",
  "For any calibration with positive sensitivity and small slopes: an IR value of zero at emissivity 1 maps to the sensor's ambient temperature; a larger IR value never maps to a noticeably lower temperature; and at emissivity 1 the reflected temperature has no influence. "
  "With emissivity below 1, raising the reflected temperature never raises the object temperature; when reflected and ambient temperature are equal the reflection term cancels for every emissivity.",
  ["inputs"], "all IR values, sensitivities, slopes, ambient/reflected temperatures and emissivities in the sensor's range",
  "The tests check values at a single point; relations between points are never checked.",
  [K], [("per_pixel_temperature, t_ar", K)],
  observe=["calculations::per_pixel_temperature", "calculations::t_ar", "calculations::raw_ir_to_temperatures"])

p("C18", "Driver images match the device over any history of settings and frames",
  "Over any sequence of driver calls and camera frames, however long, each image (temperature or raw) produced by the driver equals the documented computation on the device's EEPROM, its RAM at the time of the call, the requested (or last measured) subpage, and the access pattern, resolution, emissivity and reflected temperature in force, with every pixel outside the subpage untouched. "
  "If the camera updates its frame while a call is reading it, the image is that computation on the words the call read, for one subpage that the camera reported during the call. "
  "Settings that somebody else changed on the device are in force as soon as a driver call has read them. "
  "The ambient temperature reported afterwards is the one of the most recent image.",
  ["histories", "inputs", "configurations"], "all EEPROMs, frame sequences and interleavings of setting changes, image calls and frame updates (between and during calls), both cameras",
  "The integration tests take at most two frames with the default settings and check a single pixel or one recorded result.",
  [V, K, "common.rs"],
  [("cached access pattern and resolution correction", V), ("image generation", V)],
  state=[("access_pattern / resolution_correction", "settings cached from the control register", V), ("emissivity / reflected_temperature", "processing settings", V)],
  observe=["CameraDriver::generate_*"])

p("C19", "Each new frame is delivered exactly once",
  "If no new data is flagged, a conditional image call reports false, reads nothing but the status, writes nothing to the device, and leaves the destination and ambient temperature unchanged. "
  "If new data is flagged, it delivers the last-updated subpage, reports true, and only after the frame has been read clears the new-data flag while leaving every other status bit as it was; frames are thus delivered once per camera update. "
  "Querying data availability reports the flagged subpage without clearing it, the explicit reset clears only that flag, and unconditional image calls never clear it.",
  ["histories", "inputs"], "all status register values, all interleavings of camera updates, queries, resets and image calls, both cameras",
  "The tests exercise one ready and one not-ready call with clean status bits.",
  [V, R], [("generate_image_if_ready, data_available, reset_data_available", V)],
  observe=["CameraDriver", "bus transactions"])

p("C20", "Changing one setting changes only that setting on the device",
  "From any register state, setting a driver option changes exactly that option's bits in the device's control or status register to the documented encoding, preserving every other bit including reserved ones; reading options back over any history returns the last value set, or what the device was changed to behind the driver's back. "
  "Setting an option to the value the device already has performs no write, a getter performs exactly one register read and no write, and a setter performs one read and at most one write.",
  ["histories", "inputs"], "all control and status register values, all setters and getters, all histories",
  "The tests set one or two options from the default register value.",
  [V, R], [("set_register_field macro", V), ("register field accessors", R)],
  observe=["CameraDriver getters and setters", "bus transactions"])

p("C21", "The driver touches only documented memory, at its own device address",
  "Over any history of driver calls, every bus transaction goes to the configured device address with a two-byte big-endian memory address; reads cover a non-zero whole number of words inside the EEPROM, the camera's documented RAM, or one register; writes target only the status or control register with one word. "
  "EEPROM and RAM are never written and the EEPROM is not read again after construction.",
  ["histories", "inputs", "configurations"], "all histories, device addresses, register states, both cameras",
  "The mock in the tests rejects a few illegal accesses, but only on the few paths the tests run.",
  ["common.rs", R, V, K], [("all bus access goes through read_ram, RamData and the register traits", "common.rs")],
  observe=["bus transactions"])

p("C22", "A bus error is reported faithfully and leaves the driver usable and consistent",
  "If any transaction of a driver call fails, the call stops there and returns an error of the matching kind (read or write) carrying the bus's own error value. "
  "A failed read leaves the destination image, ambient temperature, driver settings and device registers as they were; a failure while acknowledging the frame (the write, or a status read that belongs to it) leaves it flagged as new, its image and ambient temperature delivered or not; a failed setting write leaves the driver using the setting the device still has. "
  "Repeating the call once the bus works again gives the same result as if the fault had not happened. If it is not repeated, the calls that follow behave as if it had never been made (apart from an image it delivered and what it wrote to the device).",
  ["fault_sequences", "histories", "crash_points"], "a fault at every transaction index of every driver operation (including construction), in any reached state, both cameras",
  "No test injects a bus fault.",
  [V, "common.rs", K, R, "error.rs"], [("error mapping and ordering of side effects", V)],
  observe=["CameraDriver results", "bus transactions"])

p("C23", "Synchronizing discards old data, starts one measurement, and waits for it",
  "From any status register state, synchronizing first clears the new-data flag while enabling overwrite and starting a measurement, in a single status write that leaves all other bits alone; it then only polls the status and returns exactly when the camera reports new data, however many polls that takes. "
  "It reads no image data and leaves the new frame flagged, so the next conditional image call delivers that frame.",
  ["schedules", "inputs", "fault_sequences"], "all status values, all completion delays, faults at any poll, both cameras",
  "There is no test of synchronization.",
  [V], [("synchronize", V)],
  observe=["CameraDriver::synchronize", "bus transactions"])

p("C24", "Register values encode and decode losslessly",
  "For every 16-bit value of the status, control and I2C-configuration registers, each field reads as documented, re-encoding gives the same 16 bits, and setting any field to any value changes exactly that field's bits and reads back as set. "
  "A register made from a byte slice is its first two bytes, whatever follows them. "
  "Equality of two registers is equality of their non-reserved fields, their order agrees with it, the default values are the documented ones, and reading or writing a register over the bus uses its documented address.",
  ["inputs"], "all 65536 values of each register, all fields and field values (exhaustive)",
  "The tests check a handful of values per field with all other bits zero.",
  [R], [("mask constants and accessors", R)],
  observe=["StatusRegister, ControlRegister, I2cRegister"])

p("C25", "Frame rates, resolutions and their numeric forms convert consistently",
  "Converting a frame rate to Hz, to a frame duration, or a resolution to bits, yields the documented number, and converting a number back succeeds for exactly those numbers (every other byte or float, including NaN, infinities and near misses, is rejected), giving the original value. "
  "Order of frame rates and resolutions follows their numeric values, and the product of rate and duration is exactly one.",
  ["inputs"], "all u8 values and all f32 bit patterns (exhaustive)",
  "The tests check the valid numbers and a few invalid ones.",
  [R], [("TryFrom/From implementations", R)],
  observe=["FrameRate, Resolution conversions"])

p("C26", "Processing settings are remembered exactly and never reach the device",
  "Over any history, the effective emissivity is the last override, or the camera's stored emissivity (1 if it has none) when never overridden or after returning to the default; the reflected temperature is the last one set, initially none. "
  "Ambient temperature is unavailable until the first image and then that of the last successful image. "
  "None of these calls causes bus traffic, and height and width are always the camera's.",
  ["histories", "inputs"], "all sequences of settings and image calls, all values including NaN, both cameras",
  "The tests set and reset each value once.",
  [V], [("emissivity, reflected_temperature, ambient_temperature fields", V)],
  observe=["CameraDriver accessors"])

p("C27", "Frame processing never panics, whatever the device returns",
  "Once calibration has loaded, no content of RAM and of the registers (zero gain, zero PTAT, saturated or arbitrary words) makes any driver call or conversion panic or overflow an integer, for either camera and with any emissivity and reflected temperature. "
  "Pixels whose formula is undefined (also because the emissivity is zero or not a number, or the reflected temperature not finite) become non-finite values and do not affect other pixels.",
  ["inputs", "histories"], "all RAM contents and register values, all loaded calibrations, debug (overflow-checked) arithmetic",
  "The tests only process well-behaved frames.",
  [K, V, "common.rs"], [("float arithmetic on signed words", K)],
  observe=["CameraDriver and calculations under overflow checks"])

p("C28", "The std and libm builds compute the same results",
  "For any EEPROM image and frame, the library built without the standard library (libm feature) loads the same calibration and produces the same images and ambient temperature as the default std build, within a few units of single precision, for both cameras.",
  ["configurations", "inputs"], "both feature configurations, all EEPROM images and frames",
  "The repository's tests always enable std through dev-dependencies, so the libm build is never executed.",
  [K, C, D, "lib.rs"], [("num_traits::Float fallback", K)],
  observe=["two builds of the crate driven with the same cases"])

p("C29", "A user-supplied calibration is honoured in full",
  "A driver created with any implementation of the calibration interface produces the image computed from exactly the constants that implementation supplies, using the values it gives for the subpage being processed, its resolution, its emissivity default and its (optional) gradient compensation. "
  "Substituting an implementation that returns the same constants as the built-in one gives an identical image. "
  "A calibration with its own way of loading over the bus is loaded with exactly one call, for the driver's bus and device address; its error is returned unchanged, and otherwise the driver behaves as if that calibration had been supplied.",
  ["inputs", "configurations"], "all calibrations (constants differing per subpage and per pixel), both camera geometries, all settings",
  "No test supplies its own calibration implementation.",
  [V, K, "common.rs"], [("generic CalibrationData parameter", V)],
  observe=["CameraDriver::new_with_calibration and CameraDriver::new with custom types"])

p("C30", "Drivers and their copies are independent",
  "Over any interleaving of calls on several drivers (of either model, at different addresses of one shared bus, or a copy made from a driver at any point of its history), each driver behaves exactly as it would alone: the same results, images, settings and bus transactions, and it never accesses another driver's camera. Which thread a call comes from makes no difference. "
  "A copy continues from the settings and calibration the original had when it was copied, and neither affects the other afterwards.",
  ["histories", "schedules"], "all interleavings of any histories of two or three drivers; copies at any point of a history; any assignment of calls to threads",
  "The tests use one driver at a time and never copy one.",
  [V], [("Clone of CameraDriver", V), ("per-driver state", V)],
  observe=["CameraDriver (Clone), several on one bus"])

p("C31", "The temperatures of a scene are recovered",
  "A frame holding the words a calibrated camera measures for objects of known temperatures (the documented formulas, solved for the words) is turned by the driver into those temperatures, and into the sensor's own temperature, within what rounding the words to whole counts and the documented single correction step allow. "
  "This holds for any sensor temperature, supply voltage, gain, emissivity, reflected temperature, ADC resolution and access pattern, and frame after frame, also while the scene changes.",
  ["inputs", "histories", "configurations"], "all calibrations and scenes which the words can express, both cameras",
  "The tests compare a few pixels of one recorded frame with numbers taken from the implementation or the datasheet.",
  [V, K, C, D, "common.rs"], [("generate_image_if_ready", V), ("raw_pixels_to_temperatures", K)],
  observe=["CameraDriver over a simulated camera looking at a known scene"])

p("C32", "Errors name their cause",
  "Every error of a driver, at creation or later, shows its cause in its text and as its source: for an uncorrectable word the word itself (in hexadecimal), for a refused bus transaction the bus's own error value, for unusable data the message. "
  "Errors with different causes differ, and the same cause always gives equal errors.",
  ["inputs", "faults"], "all checksum words, all bus error values, all damaged words of an EEPROM loaded over the bus",
  "The tests only match error variants; no test looks at texts, sources, or the words reported.",
  ["error.rs", V, D], [("Display and source of Error and LibraryError", "error.rs")],
  observe=["Error, LibraryError: Display, Debug, source"])

p("C33", "Addresses and codes convert losslessly and name the documented memory",
  "Addresses convert from and to 16-bit numbers without change and order as those numbers do. Each named RAM address of each camera is the documented one; converting a number to a name succeeds exactly for the documented addresses, gives back the same number, and names compare and subtract as their addresses. "
  "Subpages and access patterns convert from exactly their documented codes and back. The constants of each camera model (size, addresses, basic temperature range, self heating) are the documented ones.",
  ["inputs"], "all 16-bit addresses, all codes",
  "The tests check a handful of addresses.",
  ["common.rs", "mlx90640/address.rs", "mlx90641/address.rs"], [("Address", "common.rs"), ("RamAddress", "mlx90640/address.rs"), ("RamAddress", "mlx90641/address.rs")],
  observe=["Address, RamAddress, Subpage, AccessPattern, MelexisCamera constants"])

p("C34", "Pixel sequences can be consumed in any way",
  "The sequences of per-pixel constants of a calibration, of flagged pixels, of subpage membership and of memory ranges hold the same items in the same order however they are consumed: item by item, by skipping, stepping, counting, folding, searching, through adaptors, or in any mixture; and what a sequence announces as its remaining length encloses what it delivers.",
  ["inputs", "histories"], "all sequences of consuming operations, all calibrations of both cameras, both subpages and access patterns",
  "The tests only collect whole sequences or take single items.",
  [C, D, "mlx90640/mod.rs", "mlx90641/mod.rs"], [("ChessboardIter, PixelAccessPatternCompensation", C), ("Mlx90640PixelSubpage, Mlx90640Pixels", "mlx90640/mod.rs"), ("SubpageInterleave", "mlx90641/mod.rs")],
  observe=["iterators returned by CalibrationData and MelexisCamera"])

p("C35", "Equal calibrations hold equal constants",
  "Two calibrations compare as equal only if every constant and flag they expose is equal; two calibrations decoded from the same image are equal, and a copy of a calibration is equal to it and exposes the same constants.",
  ["inputs"], "all pairs of EEPROM images, in particular those differing in one bit",
  "The tests never compare calibrations that differ.",
  [C, D], [("PartialEq and Clone of Mlx90640Calibration", C), ("PartialEq and Clone of Mlx90641Calibration", D)],
  observe=["Mlx90640Calibration, Mlx90641Calibration: PartialEq, Clone"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
