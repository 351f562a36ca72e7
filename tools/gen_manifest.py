#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
MODEL = "Random search with shrinking against an independent f64 reference written from the datasheets and the repository's formulas; trusts that reference and judges only where the formula is well-conditioned. "
HIST = "Random operation histories against a simulated camera that records every transaction; trusts the simulation of the documented register and memory behaviour. "
T = {
 "C01": ("property-based testing: differential against a reference EEPROM decoder, all fields free", MODEL + "Plausible EEPROMs only (16-bit sums fit; the sensitivity reference is below 0x8000); failed pixels' own constants are not judged."),
 "C02": ("property-based testing: differential against a reference EEPROM decoder, all fields free", MODEL + "Plausible EEPROMs made of valid code words; failed pixels' own constants are not judged."),
 "C03": ("exhaustive input enumeration against a reference Hamming code (generated-input search, complete)", "Every data value, every word, every single and double flip of every code word: complete for the codec."),
 "C04": ("property-based testing with injected bit errors (metamorphic: damaged vs undamaged image)", "Random images and error patterns of up to two flips per word over any set of calibration words; more than two flips per word is outside the code's guarantee."),
 "C05": ("property-based testing of load totality on arbitrary byte buffers, plus every length enumerated", "Every buffer length up to the full dump, random contents; panics only hunted in the build without overflow checks, as stated."),
 "C06": ("property-based differential testing: calibration over a simulated bus vs from bytes", HIST + "Run without overflow checks so that any EEPROM content can be used."),
 "C07": ("property-based testing against a reference and metamorphic pairs (flagging a pixel leaves the others alone)", MODEL),
 "C08": ("property-based testing of the defining recurrence over random slopes and corner temperatures", "The recurrence is checked on the values the library itself reports, within single-precision rounding."),
 "C09": ("property-based testing against a reference pattern, all coefficients", MODEL),
 "C10": ("exhaustive enumeration of cameras, patterns, subpages, pixels and resolution pairs", "Complete for membership, coverage of the read plan, and the correction factors."),
 "C11": ("property-based testing: random RAM read through a simulated bus, position-by-position oracle", HIST),
 "C12": ("property-based testing against the datasheet formulas with error bounds, plus totality over all 16-bit words", MODEL),
 "C13": ("property-based testing: differential of whole images against a reference with error bounds", MODEL),
 "C14": ("property-based testing: differential of whole images against a reference with error bounds", MODEL),
 "C15": ("property-based testing: one-pass vs two-step conversion (differential)", "Compares two routes through the library; tolerance from the reference's error bounds."),
 "C16": ("property-based metamorphic testing: pixel independence, untouched pixels, subpage order", "Bitwise comparisons where the same code runs on the same data, error-bounded elsewhere."),
 "C17": ("property-based metamorphic testing of physical laws", "Restricted to the temperature range of the camera and slopes for which the closed formula is well-conditioned."),
 "C18": ("stateful model-based testing: driver histories vs reference image of the simulated device", HIST + MODEL),
 "C19": ("stateful model-based testing with transaction-level oracle", HIST),
 "C20": ("stateful model-based testing plus every state of the two registers for every setter", HIST + "Each setter is run from all 65536 values of its register."),
 "C21": ("stateful testing with a bus monitor, also under injected faults", HIST),
 "C22": ("stateful testing with fault injection at every transaction, against a fault-free twin", HIST + "A failed transaction is assumed to have no effect on the device."),
 "C23": ("stateful testing with generated measurement delays and bus monitor", HIST),
 "C24": ("exhaustive enumeration of all 65536 values of each register and all field values; generated byte slices", "Complete for reading, writing and setting fields; equality is checked for every value against every single-bit and several multi-bit changes."),
 "C25": ("exhaustive enumeration of bytes and of all 2^32 float bit patterns", "Complete."),
 "C26": ("stateful model-based testing of settings over random histories", HIST),
 "C27": ("property-based robustness testing with overflow checks on (no-panic and non-finite oracle)", HIST + "EEPROMs that load; arbitrary RAM, registers, emissivity and reflected temperature."),
 "C28": ("property-based differential testing of two builds (std vs libm) in one process", "Tolerance from the reference's error bounds; x86-64 only."),
 "C29": ("property-based testing with generated calibration implementations vs reference, and mirrored built-in ones", HIST + MODEL),
 "C30": ("stateful property-based testing of interleaved drivers and copies (differential against each alone)", HIST + "What a driver does alone is the oracle; the other properties judge that."),
 "C31": ("property-based round trip: scene -> words (inverse physical model in f64) -> driver -> scene", "Random scenes with shrinking; tolerance is the effect of less than one count on each word, computed from the model, plus the documented approximation. Scenes the words cannot express are skipped and counted."),
 "C32": ("exhaustive enumeration of checksum words plus property-based fault injection at creation", "Complete over checksum words; bus error values are random."),
 "C33": ("exhaustive enumeration of addresses and codes against the documented memory map", "Complete over 16-bit addresses and byte codes."),
 "C34": ("property-based testing of iterator use: random sequences of consuming operations vs the list of items", "Random sequences with shrinking; the list itself is judged by the other properties."),
 "C35": ("property-based metamorphic testing: pairs of images differing in a few words", "Random pairs with shrinking; the constants are compared through the public trait."),
}
checks = []
for i in ids:
    t, n = T[i]
    checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                   "evidence_file": f"evidence/{i}.json", "technique": t, "level": "exploration", "level_note": n.strip()})
m = {"version": 1, "setup_cmd": "./build.sh checked plain libm", "checks": checks, "not_applicable": [],
     "notes": "No hooks: everything is checked through the public API. Replay a failure with "
              "'harness/target/release/mlxprop replay <file>' (target/plain for C05 and C06). Repaired defects are listed in KNOWN_FINDINGS."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
