#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (run after changing it)."""
import json, pathlib
here = pathlib.Path(__file__).resolve().parent.parent
diff = "stateless exhaustive enumeration of call sequences on the real code, differential oracle"
lock = "stateless exhaustive enumeration of call sequences on the real code in lock-step with a reference model"
T = {
 "C01": (diff + " (one call) and reference model", "all cut sets of short streams and all call-size sequences up to a depth at 30 Hz scale models of the block structure, plus boundary cuts at real rates"),
 "C02": (diff, "all 16 entry points, all channel counts 1..=64, all format mixtures up to a depth, exact sample grid"),
 "C03": (lock, "all block-level sequences over alphabets around both gates up to a depth; gate decisions nearer than 1e-8 are not judged"),
 "C04": (lock, "all 3 s-block level sequences over alphabets up to a depth, all block counts up to a bound"),
 "C05": (lock, "all 1000 bins and their edges, all level sequences up to a depth"),
 "C06": (lock, "every position x every window length over several ring wrap-arounds; every low rate; real rates at boundaries"),
 "C07": (lock, "every position, sign, channel, type and entry point of peaks in bounded streams"),
 "C08": (lock, "every position/phase of test signals, all channel counts, all rate classes, all call cuts up to a depth"),
 "C09": (diff + " (fresh twin)", "all histories x continuations over an operation menu up to a depth"),
 "C10": (lock, "all operation sequences over a reconfiguration menu up to a depth, every position, all channel-count pairs, rate pairs"),
 "C11": (lock, "all sequences of history changes and block levels up to a depth"),
 "C12": (lock, "all selections/orders of instances and block-level combinations up to a bound against the union model"),
 "C13": ("exhaustive enumeration of all segmentations of bounded streams on the real code, compared with the whole-stream model", "every subset of cut points of 1.7 s / 10 s streams, every level pattern up to a depth"),
 "C14": (lock + "; twin without queries", "all 128 mode-bit combinations, all single queries and orders between all operation sequences up to a depth"),
 "C15": ("exhaustive enumeration of invalid calls and allocation-failure points after all bounded histories, twin oracle", "every invalid call of a menu at every point of all bounded histories, every large allocation failed in turn"),
 "C16": (lock, "all types x channels x counts, all maps up to 5-6 channels, all type-change sequences up to a depth"),
 "C17": (lock, "every placement of every non-finite value in bounded streams, all sequences with them up to a depth"),
 "C18": (lock + " (through the C ABI)", "all sequences of C calls (valid, invalid, beyond 32 bits, NULL) up to a depth, bit-for-bit comparison with Rust"),
 "C19": ("exhaustive enumeration of calls x floating-point environments on the real code", "all 16 rounding/FTZ/DAZ environments x all calls up to a depth; x86-64 only"),
 "C20": ("exhaustive enumeration of all sample rates on the real code against the reference filter design", "every rate from 4 kHz up (quick: a dense grid above 200 kHz) by impulse response, every rate up to 6 kHz for stability; unstable low rates are a known finding"),
 "C21": ("exhaustive enumeration of interleavings and thread assignments under a controlled scheduler, reference-model oracle", "all interleavings of 2-3 scripts and all thread assignments at call granularity; preemption at every machine instruction for pairs of operations; one space of concurrent queries runs uncontrolled in addition"),
 "C22": (lock, "all seed/add sequences up to a depth, every seed position, all entry-point pairs"),
 "C23": ("exhaustive enumeration of call sequences on the real code under AddressSanitizer, MemorySanitizer, ThreadSanitizer and Miri as monitors", "all call sequences up to depth 3-4 natively, depth 2 interpreted, buffers of every small length, interpolators at every position, all pairs of calls on two threads"),
 "C24": ("exhaustive enumeration of call sequences on the real code compiled for 32-bit WebAssembly, compared with x86-64", "all call sequences up to depth 3-4, all level patterns, rates, windows around 2^32, quiet and extreme input"),
 "C25": ("exhaustive enumeration of call sequences on the real code, every allocation counted and every instruction single-stepped", "all sequences of 12 operations up to depth 5-6 in 4 modes, 400 successive changes of everything that can be changed, 30-200 hours of audio, work per call after hours of audio"),
 "C26": ("exhaustive enumeration of call sequences on pairs of analysers, one with changed gain, polarity and channel order, compared after every call", "all sequences of 9 operations up to depth 4-5 x 9 gains x channel orders x 3 modes, all orders of up to 5 channels, normalisation from -55..+40 LUFS to 5 targets"),
}
checks = []
for p, (tech, note) in T.items():
    checks.append({
        "property": p,
        "quick_cmd": f"bash check.sh {p} quick",
        "thorough_cmd": f"bash check.sh {p} thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": tech,
        "level": "model_checking",
        "level_note": note,
    })
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": []}
(here / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
