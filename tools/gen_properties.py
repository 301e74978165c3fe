#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)))

E, F, H, I, T, U, C = ("src/ebur128.rs", "src/filter.rs", "src/history.rs", "src/interp.rs",
                       "src/true_peak.rs", "src/utils.rs", "src/capi.rs")

p("C01", "Results do not depend on how a stream is cut into add_frames calls",
  "For every stream, every way of cutting it into consecutive add_frames calls (of any sizes, including empty calls) leaves the analyser with the same global, momentary, short-term, window, range, relative-threshold, gating-count/energy, sample-peak and true-peak results as adding the whole stream in one call. The prev_* peaks depend only on the frames of the last non-empty call (and, for the true peak, on the interpolator memory of the frames before it).",
  ["histories", "inputs", "configurations"],
  "all partitions of a stream into calls, all sample rates, channel counts, modes",
  "Tests feed one whole buffer (quickcheck: one add_frames call for the whole signal); only a handful of fixed streams are ever split. Carry-over of the unfinished 100 ms hop, the ring write position and the filter/interpolator state across calls is a property of all partitions.",
  [E, F, T], [("block loop of add_frames", E + ":add_frames"), ("interpolator memory", I + ":InterpF"), ("filter memory", F + ":Filter::process")],
  ["loudness_*", "sample_peak", "true_peak", "prev_*", "gating_block_count_and_energy"],
  [("needed_frames", "frames missing until the next gating block", E), ("audio_data_index", "ring write position", E), ("short_term_frame_counter", "frames since the last short-term block", E)])

p("C02", "All sample formats and layouts of the same audio measure the same",
  "The same audio handed over as i16, i32, f32 or f64 (full scale i16/i32 = 1.0), interleaved or planar, through add_frames or seed_frames, in any mixture of formats within one stream, yields the same results for every measurement and every channel. Each channel's samples are attributed to that channel, for every channel count from 1 to 64.",
  ["inputs", "configurations", "histories"],
  "all sample values incl. the extreme integers, all eight add and eight seed entry points, 1..64 channels, all lengths",
  "Tests use the same signal in every channel, so swapped or mis-strided channels are invisible; planar entry points are only exercised by a few unit tests on the Samples trait; seeding entry points and extreme integer values are hardly exercised.",
  [E, U, F, T], [("Samples abstraction", U + ":Interleaved, Planar"), ("Sample::MAX_AMPLITUDE / as_f64_raw", U + ":Sample"), ("public entry points", E + ":add_frames_*, seed_frames_*")],
  ["loudness_window", "sample_peak", "true_peak", "loudness_global"])

p("C03", "Integrated loudness is the two-stage gated mean of all 400 ms blocks",
  "With mode I (no histogram), loudness_global equals the BS.1770 gated loudness of exactly the 400 ms blocks that end at 400, 500, 600, ... ms of the stream: blocks below -70 LUFS are dropped, then blocks more than 10 LU below the mean energy of the remaining ones are dropped, and the rest is averaged. relative_threshold is that mean minus 10 LU (-70 if no block passed), gating_block_count_and_energy is the number and energy sum of exactly the averaged blocks (None if there are none), and loudness_global is -inf if there are none.",
  ["inputs", "histories", "configurations"],
  "all level sequences, all stream lengths (well past 5000 blocks), levels above full scale and below the gate",
  "The C comparison tests use short random or steady signals whose blocks nearly all pass both gates; block lists that straddle the gates in every order, or are long, are not sampled.",
  [E, H, F], [("block emission", E + ":add_frames"), ("gated_loudness_multiple", H), ("absolute gate", H + ":History::add"), ("block energy", F + ":calc_gating_block")],
  ["loudness_global", "relative_threshold", "gating_block_count_and_energy"],
  [("block_energy_history", "energies of the blocks above the absolute gate", E)])

p("C04", "Loudness range follows EBU Tech 3342 over all 3 s blocks",
  "With mode LRA (no histogram), loudness_range equals the difference between the 95% and 10% percentiles (nearest rank, rounding half up) of the loudness of exactly the 3 s blocks ending at 3, 4, 5, ... s that are at least -70 LUFS and not more than 20 LU below their mean energy; it is 0 when no block qualifies.",
  ["inputs", "histories", "configurations"],
  "all level sequences and block counts",
  "Tests check two EBU files and short signals with few short-term blocks; the percentile ranks, the gate and the 1 s hop for arbitrary level sequences and counts are not covered.",
  [E, H], [("short-term block emission", E + ":add_frames"), ("Queue::loudness_range", H), ("loudness_range_multiple", H)],
  ["loudness_range"], [("short_term_block_energy_history", "energies of the 3 s blocks above the gate", E)])

p("C05", "Histogram mode equals the reference on 0.1 LU quantised blocks",
  "With mode HISTOGRAM every block of at least -70 LUFS is counted in the 0.1 LU wide bin that contains it (bins start at -70 LUFS, everything at or above +29.9 LUFS counts in the last one), and loudness_global, relative_threshold, gating_block_count_and_energy and loudness_range equal the results of the same gating and percentile rules applied to the bin centres.",
  ["inputs", "histories", "configurations"],
  "all block levels (all 1000 bins and both sides of every boundary), all multisets of block levels",
  "The tests reach a handful of bins; each of the 1000 table entries, the binary search around each boundary and the index arithmetic of the gates and percentiles are separate cases.",
  [H, "src/histogram_bins.rs"], [("find_histogram_index", H), ("bin tables", "src/histogram_bins.rs"), ("Histogram::loudness_range", H), ("iter_gating_block_count_and_energy", H)],
  ["loudness_global", "relative_threshold", "gating_block_count_and_energy", "loudness_range"])

p("C06", "Momentary, short-term and window loudness cover exactly the last N ms",
  "At any point of any stream loudness_momentary, loudness_shortterm and loudness_window(w) are the weighted mean square of exactly the last 400 ms, 3 s and w ms of filtered audio (time before the start counts as silence), no matter how often the internal buffer wrapped around. Every window up to max_window() is accepted and every window that exceeds it by 200 ms or more is rejected with InvalidMode.",
  ["inputs", "histories", "configurations"],
  "all stream positions, all window lengths covering at least one frame, all configured maximum windows, all rates and channel counts",
  "Tests query after one fixed-length stream, with w = 1 ms and the default maximum window; positions relative to the wrap-around and other (window, max_window) pairs are not sampled.",
  [E, F], [("ring buffer", E + ":add_frames, energy_in_interval"), ("calc_gating_block", F), ("allocate_audio_data", E)],
  ["loudness_momentary", "loudness_shortterm", "loudness_window", "max_window"],
  [("audio_data", "ring of filtered samples, one stripe per channel", E)])

p("C07", "Sample peaks are the exact per-channel maxima",
  "sample_peak(c) is exactly the largest absolute sample value channel c has seen since creation, reset or a change of the channel count, relative to full scale, and prev_sample_peak(c) is the same over just the last non-empty add_frames call; both hold for every channel (whatever its type, including Unused), every position and sign of the peak, and no other channel's peak changes.",
  ["inputs", "histories", "configurations"],
  "all positions/signs/channels of the maximum, all call sequences, 1..64 channels",
  "Tests use identical or sine signals in all channels so position, attribution and the last-call scoping are not separated.",
  [F, E], [("peak scan", F + ":Filter::process"), ("peak accumulation", E + ":add_frames"), ("reset_peaks", F)],
  ["sample_peak", "prev_sample_peak"])

p("C08", "True peak is the peak of the 4x/2x/1x oversampled signal",
  "true_peak(c) and prev_true_peak(c) are (within 1e-5 of the signal's amplitude) the largest absolute value of channel c's signal after interpolation with the 49-tap Hann-windowed sinc, oversampled 4x below 96 kHz, 2x below 192 kHz and not at all from there on, and never less than the channel's sample peak. This holds for every channel count, independently of the other channels and of where calls are cut.",
  ["inputs", "configurations", "histories"],
  "all sample patterns within the interpolator's memory, all channel counts (specialised and generic code), all rates around the oversampling limits",
  "The interpolator comparison tests feed the same signal to all channels for at most 16 channels and one call; the memory across calls and the ring position of the taps for all alignments are not covered.",
  [T, I, E], [("UpsamplingScanner", T), ("InterpF::interpolate", I), ("max with sample peak", E + ":true_peak")],
  ["true_peak", "prev_true_peak"], [("RollingBuffer", "last 12/24 input frames", I)])

p("C09", "reset() makes an analyser indistinguishable from a fresh one",
  "After any history, reset() followed by any further use behaves exactly like a newly created analyser with the same mode, channels, rate, channel map, maximum window and maximum history. The configuration itself is not changed by reset().",
  ["histories", "inputs", "configurations"],
  "all operation histories before the reset (partial blocks, wrapped buffers, seeding, reconfiguration, non-finite input) and all uses after it",
  "Tests reset once after a finished stream and only look at the immediate values; state that matters only for later input (hop position, filters, interpolator, counters) is not observed.",
  [E, F, H, T, I], [("EbuR128::reset", E), ("Filter::reset", F), ("History::reset", H), ("TruePeak::reset", T)],
  ["every query after further add_frames"])

p("C10", "Reconfiguration clears the audio buffers and keeps the programme",
  "change_parameters and set_max_window (to a different value) discard the unfinished block and the buffered audio so that the next blocks consist of new audio only, keep the integrated and range history and (for an unchanged channel count) the recorded peaks, and the stream continues under the new rate, channel count and window. A changed channel count resets the channel map to the default and the peaks to zero; setting the current value again changes nothing at all.",
  ["histories", "configurations", "inputs"],
  "all sequences of adds and reconfigurations, including partial blocks before and repeated changes",
  "No test reconfigures an analyser that holds audio and then keeps measuring.",
  [E], [("change_parameters", E), ("set_max_window", E), ("allocate_audio_data", E)],
  ["every query", "channels/rate/channel_map/max_window/max_history"])

p("C11", "Bounded history keeps exactly the newest blocks",
  "With set_max_history (no histogram) loudness_global, relative_threshold, gating_block_count_and_energy and loudness_range are computed from exactly the newest history/100 ms gating blocks and history/3 s short-term blocks (those of at least -70 LUFS count); raising the limit loses nothing, lowering it drops only the oldest blocks, and no block is ever invented. Values below the minimum (3000 ms with mode S, else 400 ms) are raised to it.",
  ["histories", "configurations"],
  "all sequences of adds and limit changes, including limits hit exactly, far more blocks than the limit, and repeated shrinking and growing",
  "The only test of the limit drives the internal history with one limit set up front; shrinking a filled history was wrong on the original tree and no test noticed.",
  [H, E], [("Queue::add / set_max_size", H), ("set_max_history", E)],
  ["loudness_global", "loudness_range", "relative_threshold", "gating_block_count_and_energy", "max_history"],
  [("queue/max", "block energies and their limit", H)])

p("C12", "Multi-instance loudness and range equal the union of all blocks",
  "loudness_global_multiple and loudness_range_multiple return what a single analyser holding the blocks of all given instances would report, for any number of instances (including zero and one), in any order, with repetition, and with or without histogram; the instances themselves are unaffected. An instance without the needed mode, or a mixture of histogram and non-histogram instances for the range, gives InvalidMode.",
  ["inputs", "configurations", "histories"],
  "all distributions of block lists over instances, all orders, 0..40 instances, all mode mixtures",
  "One test combines two or three instances of one seeded stream; gating must be done on the union (not per instance), which most inputs do not distinguish.",
  [H, E], [("gated_loudness_multiple", H), ("loudness_range_multiple", H), ("loudness_global_multiple", E)],
  ["loudness_global_multiple", "loudness_range_multiple"])

p("C13", "Segmented analysis with seeding equals analysing the whole stream",
  "Cutting a stream at any multiples of 100 ms into chunks that overlap by 400 ms, seeding each later chunk's analyser with its first 100 ms and adding the rest, makes loudness_global_multiple over the chunks equal (within 1e-4 LU) loudness_global of the whole stream, with the same total set of gating blocks; with a correspondingly longer overlap (2 s plus the seed) the same holds for the loudness range.",
  ["histories", "inputs", "configurations"],
  "all segmentations, all entry points used for seeding and adding, all common rates, channel counts",
  "One example test with one fixed segmentation of one stream.",
  [E, F, T], [("seed_frames", E), ("Filter::seed", F), ("loudness_global_multiple", E)],
  ["loudness_global_multiple", "loudness_range_multiple"])

p("C14", "Modes gate which results exist but never change them; queries are pure",
  "Every query succeeds exactly when its mode is set (for short-term loudness: or the maximum window is at least 3 s; creation fails with InvalidMode without mode M; out-of-range channels give InvalidChannelIndex), and two analysers that differ only in their modes report the same value for every query both support (histogram mode aside). Queries never change any later result, however often and in whatever order they are made.",
  ["configurations", "histories"],
  "all 128 mode combinations, all queries, all interleavings of queries with input",
  "Tests almost always use all modes at once, so a measurement that silently depends on another mode's bookkeeping is invisible, as is a query with side effects.",
  [E, F], [("mode checks", E), ("per-mode bookkeeping", E + ":add_frames"), ("Filter::new flags", F)],
  ["every query"])

p("C15", "Invalid calls and failed allocations return errors and change nothing",
  "Every out-of-range argument (channel counts, rates, channel indices and types, channel maps, ragged or mismatching buffers, too long windows) and every failing allocation of an audio buffer is reported as an error, never as a panic or an abort. After a rejected call the analyser continues exactly as if the call had not been made.",
  ["inputs", "fault_sequences", "histories"],
  "all invalid arguments at every point of an operation history, failure of every audio buffer allocation",
  "Tests never pass invalid arguments and cannot make an allocation fail; three of these cases panicked or aborted on the original tree.",
  [E, U], [("argument checks", E), ("Interleaved::new / Planar::new", U), ("allocate_audio_data", E)],
  ["all fallible calls", "every query afterwards"])

p("C16", "Channel types decide exactly how each channel counts",
  "The loudness of a stream is the sum over its channels of weight times energy, where the weight is 0 for Unused, 1.41 for the +-110, +-60 and +-90 degree surround positions of the middle layer, 2 for DualMono and 1 for every other type; the default map is mono = Left, 2..: Left, Right, Center, Unused, LeftSurround, RightSurround, then Unused, with the special maps for 4 and 5 channels. Channel types set by set_channel and set_channel_map take effect for exactly the addressed channels and DualMono is accepted only for the only channel of a mono stream.",
  ["configurations", "inputs", "histories"],
  "all 32 types on all channels of all channel counts, all ways of setting the map, in every measurement",
  "No test calls set_channel or set_channel_map, and all channels carry the same signal, so weights and attribution cannot be told apart.",
  [E, F], [("default_channel_map", E), ("set_channel / set_channel_map", E), ("channel weights", F + ":calc_gating_block"), ("Unused skip", F + ":Filter::process")],
  ["loudness_*", "channel_map"])

p("C17", "Non-finite input is contained",
  "NaN or infinite samples never cause a panic or a hang in any call, never affect the peaks of other channels, peaks ignore NaN samples, and reset() removes every trace of them. With the histogram, loudness results stay NaN-free (a NaN block counts in the lowest bin); without it a NaN block makes loudness_global, relative_threshold and loudness_range NaN rather than silently wrong.",
  ["inputs", "histories", "configurations"],
  "all placements of NaN, +inf, -inf in a stream and all queries",
  "Two tests feed NaN once and look at one value.",
  [E, F, H], [("NaN handling in History", H), ("peak comparison", F)],
  ["every query"])

p("C18", "The C API is a faithful view of the Rust API",
  "Every C entry point performs the operation of its Rust counterpart on the same state and reports its outcome with the documented status code (0 success, 1 out of memory, 2 invalid mode, 3 invalid channel, 4 no change) and value, keeps the public mode/channels/samplerate fields of the state in step, and leaves the output untouched on errors. Arguments a C caller can pass but Rust cannot express (unknown channel types, values beyond 32 bits, NULL with zero frames or instances) are rejected or handled without undefined behaviour.",
  ["histories", "inputs", "configurations"],
  "all sequences of C calls over a small alphabet, all boundary arguments",
  "One example program makes one run through the C API; status codes, no-change detection and invalid arguments are not tested, and five of them were wrong on the original tree.",
  [C, "assets/ebur128.h"], [("C entry points", C), ("error mapping", C + ":From<Error> for i32")],
  ["all ebur128_* functions"], [("State", "public mirror of mode, channels, samplerate", C)])

p("C19", "The caller's floating-point environment is preserved",
  "No call changes the caller's floating-point control state (rounding mode, flush-to-zero, denormals-are-zero, exception masks), also if the call fails or processes several blocks. Subnormal and decaying-to-silence input gives the same results as without flush-to-zero up to negligible energies, and never slows down or corrupts later loud input.",
  ["histories", "inputs", "configurations"],
  "all calls under all initial control register settings",
  "No test inspects the control register.",
  [F], [("ftz guard", F + ":ftz")],
  ["MXCSR before/after", "loudness after silence"])

p("C20", "K-weighting is correct and stable at every accepted sample rate",
  "At every accepted sample rate (16..2822400 Hz) the loudness filter is stable, and from 4 kHz to 384 kHz its response to an impulse and the loudness of steady tones equal the BS.1770 pre-filter and RLB high-pass re-designed for that rate (within 0.01 LU), in particular the published coefficients at 48 kHz. A full-scale 997 Hz sine in one front channel measures -3.01 LUFS (within 0.05 LU) at every rate from 8 kHz up.",
  ["configurations", "inputs"],
  "all 2822385 sample rates",
  "Tests compare with the C library at random rates between 16 kHz and 224 kHz; low and high rates are never constructed.",
  [F], [("filter_coefficients", F), ("Filter::process", F)],
  ["loudness_window", "loudness_momentary"])

p("C21", "Analysers are independent of each other and of threads",
  "Any interleaving of operations on several analysers, on one thread or moved between several threads, in any schedule, gives each analyser the results it would have had alone; queries may run concurrently on a shared analyser with the same results.",
  ["schedules", "histories", "configurations"],
  "all interleavings of the operations of two or three analysers, all assignments of operations to threads",
  "Every test uses one analyser on one thread.",
  [E, F, T, I, H], [("no shared mutable state", "src/"), ("Send/Sync auto traits", E), ("thread-local MXCSR handling", F + ":ftz")],
  ["every query of each instance"])

p("C22", "Seeding warms up filters but never counts as measured audio",
  "seed_frames never changes any loudness, range, threshold, count, window or peak result at the time of the call, never advances or delays block boundaries, and afterwards acts only through the filter and interpolator memory: later input measures exactly like input that was preceded by the seeded audio in the same stream, without that audio's own contribution.",
  ["histories", "inputs", "configurations"],
  "all interleavings of seeding and adding, all lengths, all entry points",
  "One example test seeds before the first add and compares a global loudness.",
  [E, F, T], [("seed_frames", E), ("Filter::seed", F), ("TruePeak::seed", T)],
  ["every query"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
