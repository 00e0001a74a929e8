#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the property texts)."""
import json, os
FQ = "src/fpfind/freqcd.c"
PT = "src/fpfind/lib/parse_timestamps.py"
PE = "src/fpfind/lib/parse_epochs.py"
UT = "src/fpfind/lib/utils.py"
FP = "src/fpfind/fpfind.py"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
              "quantifier": {"over": over, "text": " ".join(text.split())},
              "why_tests_cant": " ".join(why.split()), "anchors": a})

NOFQ = "No stable test runs freqcd at all; its test files hold one three-event example and prose recipes. "

# ---------------------------------------------------------------- freqcd
prop("C01", "freqcd applies exactly the requested linear clock correction",
 """For every time-ordered event stream and every permitted static correction f, each forwarded event carries the time
 t + f*(t - t0) modulo 2^54 (t0 = time of the first event, unit 4 ps), to within two units, for normal and legacy (-x) encodings,
 for any gap between events shorter than the range of the counter (2^54 units of 4 ps, 20 hours) and across rollover of the 54-bit counter. '-f' counts units of 2^-34 and, together with
 '-d' in any option order, units of 0.1 ppb (rounded toward zero to 2^-34); a zero correction leaves the stream byte-identical.""",
 ["inputs", "configurations"], "all time-ordered event streams of any length and span x all corrections in range x -x x -d",
 NOFQ + "The law must hold for all timestamps up to 54 bits, all spans and all 4.2 million corrections, where integer truncation, overflow and rollover matter.",
 [FQ], [("timestamp correction arithmetic", FQ + ": digest events loop"), ("decimal conversion", FQ + ": FCORR_DTOB"), ("reference update", FQ + ": update reference timestamp")],
 ["output bytes of the freqcd process"],
 [("reference timestamp", "time from which the elapsed time is scaled", FQ + ": tsref"), ("accumulated correction", "correction carried over from earlier reference points", FQ + ": tsoverflowcorr")])
prop("C02", "freqcd output does not depend on how its input is delivered",
 """For a fixed input byte stream and a fixed static correction, the output byte stream is the same whatever the sizes, boundaries and timing of the
 pieces in which the input arrives (including pieces that split an event), and whether it comes from a regular file, pipe, FIFO or socket on stdin,
 or through '-i', and leaves through stdout or '-o'.""",
 ["schedules", "inputs"], "all splittings of an input stream into reads, all arrival schedules, all kinds of input/output handle",
 NOFQ + "Read boundaries are chosen by the kernel and by the timing of the producer; a test samples at most the one the pipe happens to give.",
 [FQ], [("partial event retention", FQ + ": discard previously processed rawevents"), ("reference update per read", FQ + ": update reference timestamp")],
 ["output bytes of the freqcd process for each delivery schedule"])
prop("C03", "freqcd forwards every event exactly once, in order, with payload intact",
 """For every input and every correction (static or updated at run time), the output consists of exactly one event per complete 8-byte input event, in input order,
 with the ten non-time bits of each event unchanged at their place. A trailing incomplete event is never emitted, and
 a time-ordered input gives a time-ordered output (modulo the 54-bit wrap).""",
 ["inputs", "schedules"], "all input streams, lengths (also not a multiple of 8), corrections and delivery schedules",
 NOFQ + "Loss, duplication or reordering shows only at particular buffer fill levels, wake-up orders and payloads.",
 [FQ], [("in/out buffers", FQ + ": inbuffer/outbuffer handling"), ("write out", FQ + ": write out events")],
 ["output bytes of the freqcd process, event by event"])
prop("C04", "freqcd obeys run-time correction updates, and only valid ones",
 """With '-F', every newline-terminated decimal integer of magnitude below 2^21 received on the correction stream (units of 2^-34, also under '-d') becomes the
 correction for the time elapsed after the last event forwarded so far, however its bytes are split over reads; before the first one the '-f' value applies, and after the stream
 closes the last one stays. Lines that are empty, not a complete decimal integer, out of range or overlong change nothing. A change never makes
 the output jump: between consecutive events it advances by the input time difference scaled by the active correction, up to two units.""",
 ["histories", "schedules", "inputs"], "all interleavings of event chunks and correction-stream chunks, all line contents and splits",
 NOFQ + "The update tests are shell recipes in comments; partial lines, garbage and the order of wake-ups are unbounded.",
 [FQ], [("frequency stream parser", FQ + ": Read frequency correction values"), ("value validation", FQ + ": readint")],
 ["output bytes of the freqcd process against a reference model fed with the same history"],
 [("partial line", "bytes of a value without newline yet", FQ + ": freqbytespartial/freqbuffer")])
prop("C05", "freqcd refuses corrections it cannot represent",
 """If the '-f' argument is not a complete decimal integer, or its magnitude is 2^21 or more (above 1220703 with '-d'), freqcd exits with nonzero status and a message on
 stderr, forwards no event and leaves an existing '-o' file untouched. Every in-range integer, including both extremes and with the options in any order, is accepted.""",
 ["inputs", "configurations"], "all option strings for -f, with and without -d, in any option order",
 NOFQ + "The dangerous values (32/64-bit wrap-around, sign extremes, trailing garbage, values that overflow in the unit conversion) are never tried.",
 [FQ], [("range check", FQ + ": check specified frequency correction is within-bounds"), ("integer parsing", FQ + ": readint / option parsing")],
 ["exit status, stderr, output bytes of the freqcd process"])
prop("C06", "freqcd has no memory error or undefined behaviour on any input",
 """For every command line, event stream, correction stream and delivery schedule, freqcd performs no out-of-bounds or use-after-free access, no read of uninitialised memory that affects
 its behaviour, and no undefined arithmetic (signed overflow, out-of-range shift or float-to-integer conversion).""",
 ["inputs", "schedules", "configurations"], "all argument vectors, event streams, correction streams, delivery schedules",
 NOFQ + "Tests observe only output; an overflow by one byte or an uninitialised read usually leaves the output of an ordinary run intact.",
 [FQ, "src/fpfind/lib/getopt.c", "src/fpfind/lib/getopt.h"], [("fixed-size buffers", FQ + ": FNAMELENGTH, FREQBUFSIZE, INBUFENTRIES"), ("integer arithmetic", FQ + ": digest events loop")],
 ["AddressSanitizer/UBSan/MemorySanitizer/valgrind reports of instrumented builds"])
prop("C07", "freqcd uses exactly the files it is given",
 """A file name given with '-i', '-o' or '-F' (any characters, up to 199 bytes) is opened verbatim: no other file is read, created or modified, and a longer or empty name is refused with nonzero
 status rather than shortened. An existing output file is replaced completely (no stale tail), a missing one is created (readable as the umask allows, not executable), input and correction files are never modified, and names that cannot be opened are refused with nonzero status and a message.""",
 ["inputs", "configurations"], "all file names and lengths for -i/-o/-F, existing or missing targets",
 NOFQ + "Names with spaces, special characters or near the length limit, and pre-existing longer outputs, are never used.",
 [FQ], [("file name options", FQ + ": option parsing"), ("open flags", FQ + ": set input and output handler")],
 ["directory contents before/after each run, exit status, output bytes"])
prop("C08", "freqcd output is always a prefix of the correct output, failures are reported",
 """Whatever system call fails, is interrupted or is short (reads, waits, writes), and whenever the process is killed, the bytes already written are a prefix of the correct output; events are never corrupted, reordered or
 invented. If freqcd ends by itself without having written everything it received, it says so on stderr; it never hangs after a failure.""",
 ["fault_sequences", "crash_points"], "every (system call index, errno or short count) single fault, sampled double faults, kill points",
 NOFQ + "No test injects a fault; each I/O call is a separate failure point.",
 [FQ], [("error exits of the main loop", FQ + ": main loop read/select/write checks")],
 ["output bytes, stderr and termination of the process under injected faults"])
prop("C09", "freqcd forwards events promptly and idles without burning CPU",
 """Once complete events have arrived, their corrected versions are written without needing further events, further corrections, or end of input, also while a correction stream is silent, active, closed, or has no writer yet.
 While waiting for input, freqcd uses practically no CPU, also after the correction stream has closed, and it terminates when the input ends.""",
 ["schedules", "histories"], "all arrival schedules, with and without a correction stream in each of its states",
 NOFQ + "Liveness over schedules: a test that feeds everything and closes cannot tell live forwarding from forwarding at the end.",
 [FQ], [("select loop", FQ + ": wait for data on inhandle and freqhandle"), ("write per wake-up", FQ + ": write out events")],
 ["time and content of output while the input stays open; CPU time of the idle process"])

# ---------------------------------------------------------------- timestamps
NOPT = "Only the output dtype for one file is tested, on values where most errors cannot show. "
prop("C10", "Timestamp readers decode every event exactly",
 """For every a0, a1, legacy a1 and a2 file, the readers return for each event, in file order, the 54-bit time and the 4-bit detector pattern stored in it: in the requested resolution exactly when
 fractional times are requested, and rounded down to whole units otherwise. The reading never alters the file, and holds for any number of events (including one or none), any pattern, any values of the unused bits and all three resolutions.""",
 ["inputs", "configurations"], "all event values (64-bit) x formats x legacy x resolution x fractional",
 NOPT + "Exactness of all 2^54 times needs values near powers of two, at 2^53..2^54 and mixed magnitudes.",
 [PT, "src/fpfind/lib/constants.py"], [("readers", PT + ": read_a0/read_a1/read_a2"), ("unit conversion", PT + ": _format_timestamps")],
 ["arrays returned by the readers against a pure-integer decoder"])
prop("C11", "Timestamp writers produce canonical files that read back identically",
 """Writing events (times in any of the three resolutions, 4-bit patterns) in any format, at once or as a stream of batches, yields the canonical encoding (64-bit words; low word first, swapped when legacy; fixed-width hexadecimal lines for a0/a2)
 of every event in order, with times rounded down to 4 ps; reading the file returns the same events. The result does not depend on how the events are split into batches.""",
 ["inputs", "configurations"], "all event lists x formats x legacy x resolution x batch splits",
 NOPT + "No writer is tested at all.",
 [PT], [("event packing", PT + ": _consolidate_events"), ("writers", PT + ": write_a*/swrite_a*")],
 ["bytes of written files against an independent encoder; read-back arrays"])
prop("C12", "Streaming readers return the same events as whole-file readers",
 """For every file and every buffer size of at least one event, the batches of a streaming reader, concatenated, are exactly the events of the whole-file reader (times and patterns, same resolution options); no batch exceeds the buffer size, and the announced
 number of batches is the number delivered.""",
 ["inputs", "configurations"], "all files x buffer sizes (boundary sizes in particular) x formats x options",
 NOPT + "Events at buffer boundaries are lost or torn only for particular combinations of size and buffer.",
 [PT], [("block streaming", PT + ": sread_a0/sread_a1/sread_a2")], ["batches yielded by the streams"])
prop("C13", "Timestamp conversion on the command line is lossless",
 """Converting any timestamp file between any two formats (including legacy variants) keeps every event's 54-bit time, 4-bit pattern and order and writes the canonical encoding of the target format, with identical bytes in streaming and '--inmemory' mode;
 converting there and back reproduces a canonical file byte for byte. The input file is not modified, and a missing input or output argument is refused without creating files.""",
 ["inputs", "configurations"], "all event lists x 4 input formats x 4 output formats x streaming/in-memory",
 NOPT + "The command line is never run.",
 [PT], [("main", PT + ": main"), ("stream writers", PT + ": swrite_a*")], ["output file bytes, input file bytes, exit status"])
prop("C14", "Pattern filtering selects exactly the documented events",
 """For every pattern list and filter: a fixed pattern keeps exactly the events with that pattern (inverted: all others); a bit mask keeps exactly the events containing any of its bits, reduced to those bits (inverted: removes those bits, drops events left empty by this, keeps events that had no detector).
 Kept events stay in order with their times, and the command line applies the same rule in streaming and in-memory mode.""",
 ["inputs", "configurations"], "all pattern lists x 16 patterns x mask x invert",
 NOPT + "Only docstring examples exist, and they are not run.",
 [PT], [("pattern mask", PT + ": get_pattern_mask"), ("command-line filter", PT + ": main event_filter")], ["returned mask and patterns; filtered output files"])
prop("C15", "Time filtering selects exactly the events within the closed interval",
 """For every time-ordered event list, resolution and pair of bounds in seconds (either may be absent), exactly the events with start <= time <= end (bounds and times compared as seconds in double precision) are kept, in order and unchanged; the command line selects the same events in streaming mode (independent of batch boundaries) and in-memory mode,
 and combines the filter with pattern filtering by conjunction.""",
 ["inputs", "configurations"], "all sorted time lists with duplicates x bounds (on, between and outside events, crossed) x resolutions x batching",
 NOPT + "Only docstring examples exist; boundary hits, duplicates and bounds falling between batches are not covered.",
 [PT], [("timing mask", PT + ": get_timing_mask"), ("command-line filter", PT + ": main event_filter/inline_filter")], ["returned mask; filtered output files"])
prop("C16", "Printed event statistics are correct",
 """For every file and filter, the statistics report states the exact number of (selected) events, of events per detector channel, of multi-detector and of no-detector events and the exact set of patterns, the size of the file (in units of 2^20 bytes) and the first and last event time, duration and event rate to the printed precision;
 streaming and in-memory reports agree. Files with no or one (selected) event are reported without error, and nothing is modified.""",
 ["inputs", "configurations"], "all event lists (incl. empty, single, multi-batch) x formats x filters x modes",
 NOPT + "The report is never produced in a test.",
 [PT], [("report", PT + ": print_statistics*, print_statistics_report")], ["stdout of the command line"])

# ---------------------------------------------------------------- epochs
NOPE = "The stable tests decode single hand-made T1 values; "
prop("C17", "T1 epoch files round-trip exactly",
 """For every epoch number, event list and detector list, the written T1 file is named after the epoch, has the T1 header (type 0x101, epoch, number of events, 49 bits per entry, 4 base bits), and reads back as the same events in order: the time being the epoch's position (its low 17 bits, or the full 32 bits on request) plus the time within the epoch,
 in any resolution - exact for fractional times up to the precision of the extended float, rounded down to whole units for integers - with the same detectors. A single detector value stands for all events; a detector list of another length is refused and no file is written or changed.""",
 ["inputs", "configurations"], "all 32-bit epochs x event lists x full_epoch x resolution x fractional",
 NOPE + "the writer and multi-event files are untested and 32-bit epochs with all options are an unbounded space.",
 [PE], [("T1 writer", PE + ": write_T1"), ("T1 reader", PE + ": read_T1")], ["file name and bytes; arrays returned"])
prop("C18", "T2 epoch files are decoded exactly",
 """For every well-formed T2 file (any epoch, any delta width and detector width that together stay below 32 bits, deltas in short or extended form in any mixture, and deltas that straddle 32-bit words), the reader returns the accumulated times and the detector values of all events in order,
 in any resolution, fractional or rounded down to whole units, with the low 17 bits or all bits of the epoch included as requested. An event count differing from the header, or a terminator with nonzero detector bits, is refused.""",
 ["inputs", "configurations"], "all epochs x widths x delta sequences x output options",
 NOPE + "T2 decoding is not covered by any stable test.",
 [PE], [("bit unpacking", PE + ": extract_bits"), ("T2 reader", PE + ": read_T2")], ["arrays returned, exceptions"])
prop("C19", "T3 files yield exact coincidence tallies and error rate",
 """For every T3 file, the tally counts each pair of single-detector outcomes exactly once in its cell of the 4x4 matrix, counts each side's invalid outcomes as garbage, reports the number of valid pairs, and the error rate is the share of equal-basis matching outcomes among all equal-basis outcomes rounded to 3 decimals
 (0.5 if there are none). A header that declares other than 8 bits per entry is refused or reported in the log; a consistent file gives no message.""",
 ["inputs"], "all sequences of outcome bytes of any length (all lengths modulo 4)",
 "No test reads a T3 file.",
 [PE], [("T3 reader", PE + ": read_T3")], ["fields of the returned record"])
prop("C20", "T4 files are decoded exactly",
 """For every well-formed T4 file (any index width and detector width, short and extended index differences), the reader returns the event indices and detector values of all entries in order; a count differing from the header, or a terminator with nonzero detector bits, is refused.""",
 ["inputs"], "all widths x index difference sequences x detector values",
 "No test reads a T4 file.",
 [PE], [("bit unpacking", PE + ": extract_bits"), ("T4 reader", PE + ": read_T4")], ["arrays returned, exceptions"])
prop("C21", "Damaged epoch files are refused, never half-read or read forever",
 """For every T1, T2, T3 or T4 file with a declared event count that is cut at any byte, the reader either raises an error or returns the complete content, in bounded time and memory; it never returns fewer or altered events. The same holds when the declared count or the final terminator is altered or words are removed at the end (for T3, whose reader tallies what is there, the inconsistent count is at least reported as an error in the log).""",
 ["crash_points", "inputs"], "every truncation point of every file; count and terminator alterations",
 "No test reads a damaged file; a crash of the writer can leave any prefix.",
 [PE], [("termination and length checks", PE + ": read_T1/read_T2/read_T3/read_T4, extract_bits")], ["exception or arrays returned, CPU time and memory of the reader"])
prop("C22", "The first common epoch and the contiguous run length are found exactly",
 """For every pair of epoch directories, the selection returns the smallest epoch present in both (not below the requested first epoch, if given) and the number of consecutive epochs present in both from there on, and reports none (length 0) if there is no such epoch.""",
 ["inputs"], "all pairs of sets of epoch names x optional first epoch",
 "Overlap selection is tested with no stable test; gaps, disjoint sets and requested epochs inside gaps are unbounded.",
 [UT], [("overlap search", UT + ": get_first_overlapping_epoch")], ["returned name and length"])
prop("C23", "Consecutive epochs concatenate to one continuous timeline",
 """Reading any run of consecutive T1 or T2 epochs, from any start epoch and skip, returns all events of exactly those epochs in order, with time differences equal to the true differences also where the epoch number crosses a multiple of 2^17, so that the two sides stay aligned with each other.
 A missing epoch in the run is an error.""",
 ["inputs", "histories"], "all start epochs (also around multiples of 2^17), run lengths, skips, file types",
 "No test concatenates epochs; the 17-bit wrap happens every 20 hours.",
 [UT, PE], [("epoch concatenation", UT + ": get_timestamp")], ["returned times"])
prop("C24", "Epoch names convert consistently between hex, integer and date",
 """Hexadecimal epoch name and integer convert into each other without loss for every epoch. The date of an epoch is its number times 2^32 x 125 ps after the Unix epoch in local time, and the epoch of a date is the one containing that second (8 hex digits; within two epochs when going back and forth, never later than the original), in any time zone; without argument it is the current epoch.""",
 ["inputs", "configurations"], "all epochs and dates x time zones",
 "No stable test; rounding at epoch and second boundaries.",
 [PE], [("conversions", PE + ": date2epoch, epoch2date, epoch2int, int2epoch")], ["returned values"])

# ---------------------------------------------------------------- fpfind
NOFP = "The fpfind tests need recorded data that is not in the repository, so no test runs the search. "
prop("C25", "fpfind recovers the true time and frequency offset",
 """For two event streams that share correlated pairs with target = reference*(1+df)+dt relative to a common time reference (the start of the later stream plus any skip), plus background events and jitter, with a clearly visible peak, |dt| <= 100 ms and |df| within the tracking range, fpfind prints df and dt equal to the true values up to the
 final resolution (dt) and that resolution over the separation (df), for both signs, any wraps, buffer order, resolution and skip settings.""",
 ["inputs", "configurations"], "all true offsets (both signs), event statistics, and parameter settings in the working range",
 NOFP + "Correct recovery must hold for all offsets, signs and parameters.",
 [FP, UT], [("search and refinement", FP + ": time_freq, fpfind"), ("cross-correlation", UT + ": generate_fft, get_xcorr, get_timing_delay_fft")], ["stdout of fpfind against the simulated truth"])
prop("C26", "fpfind never reports an offset for uncorrelated data",
 """For event streams without correlated pairs and a threshold well above the statistical fluctuation, fpfind fails with nonzero exit status and prints no result on stdout, with or without precompensation scan; the same holds if correlated data have a peak that stays below the threshold at every bin width (the initial one, doubled up to 10 us), however little; a peak that reaches it is accepted.""",
 ["inputs"], "independent random streams of all rates and durations x thresholds x precompensation",
 NOFP + "A false lock depends on random data.",
 [FP, UT], [("peak acceptance", FP + ": time_freq significance check"), ("statistics", UT + ": get_statistics")], ["exit status and stdout"])
prop("C27", "Swapping the inputs and inverted output agree",
 """The inverted output ('-V' bit 0) describes the inverse transformation: printed inverse (df', dt') satisfies (1+df)(1+df') = 1 and dt' = -dt/(1+df), and running with reference and target exchanged gives the same result within the resolution.""",
 ["inputs"], "all offsets of both signs and all data sets",
 NOFP + "Consistency of two runs over all data.",
 [FP], [("output inversion", FP + ": main flag handling")], ["stdout of paired runs"])
prop("C28", "All output formats describe the same result",
 """For one data set, all 16 output settings print one line with tab-separated fields that are views of one result: bit 0 inverts, bit 1 prints the frequency as the nearest integer in units of 2^-34 (directly usable by freqcd), bit 2 drops the time field, bit 3 prints time in 1/8 ns; times are rounded to the nearest integer.""",
 ["configurations", "inputs"], "all 16 output settings x all results",
 NOFP + "No test looks at the printed output.",
 [FP], [("output formatting", FP + ": main")], ["stdout for all settings"])
prop("C29", "Precompensation covers its scan range and stays invisible in the result",
 """The scan tries the start value first and then start +/- k*step alternating outwards (ordered: start, start+step, ... upwards), covering the range up to and including the stop value with no gaps or repeats. When a precompensation is needed to see the peak, fpfind with the scan enabled reports the total offset relative to the original data, equal to the truth,
 also with the full scan enabled (which tries all values and returns the first success); without it, and if all values fail, it fails.""",
 ["inputs", "configurations"], "all start/stop/step triples; all skews beyond the direct tracking range",
 NOFP + "The scan is never run.",
 [FP], [("scan list", FP + ": generate_precompensations"), ("scan loop", FP + ": fpfind")], ["list of precompensations; stdout"])
prop("C30", "Cross-correlation and delay candidates are exact",
 """For all event lists, even bin counts and bin widths, the computed cross-correlation equals the number of event pairs per wrapped bin difference, and the delay candidates of a histogram peak are the peak position and its wrapped negative counterpart, the smaller magnitude first; the same holds for the k highest bins and for the histogram laid out over signed delays. A filter given to the cross-correlation multiplies its spectrum; no argument is modified.""",
 ["inputs"], "all event lists x bin counts x bin widths",
 NOFP + "The FFT route has no comparison with direct counting.",
 [UT], [("binning and FFT", UT + ": generate_fft"), ("correlation", UT + ": get_xcorr"), ("delay candidates", UT + ": get_timing_delay_fft, get_delay_at_index_fft, get_top_k_delays_fft")], ["returned arrays against direct counting"])
prop("C31", "Epoch directories and timestamp files give the same answer",
 """The same events supplied as a1 files, as legacy a1 files with '-X', or as T2/T1 epoch directories give the same offsets within the resolution (identical for the two a1 variants); the requested first epoch and skipped epochs (for files, the skipped duration) move the time reference accordingly, also where epoch numbers cross a multiple of 2^17.""",
 ["inputs", "configurations"], "all data sets x input forms x first epoch/skip settings",
 NOFP + "The input paths are never compared.",
 [FP, UT, PE, PT], [("input selection", FP + ": main"), ("epoch reading", UT + ": get_timestamp")], ["stdout of paired runs"])
prop("C32", "fpfind results are reproducible and independent of diagnostics",
 """Repeating a run gives the same standard output byte for byte, and verbosity, quiet, log file, and passing the same settings through a saved and reloaded configuration file do not change it; diagnostics go only to stderr and the log file. Input files are never modified and no file is created except the requested log or configuration file.""",
 ["configurations", "histories"], "all settings x repetition x verbosity/log/config variations",
 NOFP + "Differences between paired runs are never compared.",
 [FP, "src/fpfind/lib/logging.py"], [("argument and config handling", FP + ": main"), ("logging", "src/fpfind/lib/logging.py: get_logger, set_logfile")], ["stdout, stderr, directory contents"])
prop("C33", "The reported frequency offset, fed to freqcd, removes the clock skew",
 """Feeding the integer printed by fpfind with output setting 3 to freqcd on the target stream, or the one with setting 2 on the reference stream, yields streams whose remaining skew is below the search accuracy, so that a second fpfind run reports a frequency offset near zero and an unchanged start offset.""",
 ["inputs", "histories"], "all data sets with skew of either sign",
 NOFP + "The sign and unit conventions of the two programs are only linked by documentation.",
 [FP, FQ], [("output units and sign", FP + ": main flag handling"), ("correction", FQ + ": digest events loop")], ["stdout of fpfind before and after; skew of the true pairs after correction"])
prop("C34", "Normalisation preserves relative timing",
 """Normalising event lists subtracts one common start time (the latest first event, plus the skip) from all of them, drops exactly the events before it and changes no difference between remaining events within or across lists; without relative preservation each list is first shifted to start at zero. Slicing keeps exactly the events in the half-open window, shifted to its start. Truncation to the common length keeps the first events of every list. The inputs are not modified.""",
 ["inputs"], "all event lists x skips x windows",
 NOFP + "Helpers are untested.",
 [UT], [("normalisation", UT + ": normalize_timestamps, slice_timestamps")], ["returned and original arrays"])
prop("C35", "fpplot aligns the streams with the offsets printed by fpfind",
 """Given the time and frequency offset of a data set, fpplot histograms reference against (target - time)/(1 + freq), so that true pairs fall at zero delay over the whole duration, for timestamp files (normal and legacy) and epoch directories, with skip, first epoch, width and duration honoured. The histogram is what is drawn and saved to the plot file named; with an input missing, fpplot fails and draws nothing.""",
 ["inputs", "configurations"], "all data sets, offsets of both signs, input forms and windows",
 "fpplot is not tested.",
 ["src/fpfind/fpplot.py", UT], [("alignment", "src/fpfind/fpplot.py: plotter"), ("input handling", "src/fpfind/fpplot.py: main")], ["arrays and window passed to the histogram routine"])
prop("C36", "The freqcd test-case generator writes and reads exactly the given events",
 """Timestamps given as arguments or interactively are written as one event each, in order, taken modulo 2^54, in normal or legacy encoding, to stdout or to the named file, which is replaced; given an event file or stdin, it prints the times in 4 ps units in order and leaves a named input file unmodified and no temporary file behind.""",
 ["inputs", "configurations"], "all timestamp lists x encodings x input and output routes",
 "The generator is used by one unstable test with three values.",
 ["src/fpfind/lib/generate_freqcd_testcase.py", PT], [("event encoding", "src/fpfind/lib/generate_freqcd_testcase.py: get_event"), ("routes", "src/fpfind/lib/generate_freqcd_testcase.py: main")], ["output bytes, stdout, directory contents"])
prop("C37", "The first freqcd run builds the program and behaves like any other run",
 """Running the installed freqcd stub for the first time compiles the program and produces the same output, exit status and files as the compiled program would, for relative and absolute file arguments, from any working directory and in any folder (also with white space in its name), whether called by absolute path, relative path or through PATH; from then on the compiled program is in its place, its path is recorded in freqcd_path, and no other file has been touched. If compilation is impossible, it fails with nonzero status and forwards nothing.""",
 ["configurations", "histories"], "invocation forms x working directories x arguments; compiler failure",
 "The stub is never run by a test.",
 ["src/fpfind/freqcd", "src/fpfind/_postinstall"], [("stub", "src/fpfind/freqcd"), ("compilation", "src/fpfind/_postinstall")], ["output bytes, exit status, directory contents of a scratch installation"])
prop("C38", "fpfind never reports an offset outside the allowed range",
 """Whatever the data, the search (without precompensation) never prints a frequency offset of magnitude 2^-13 or more, nor a time offset beyond 100 ms (up to its initial resolution): if the data show such an offset, it fails with nonzero exit status and prints no result.""",
 ["inputs"], "data with offsets around and beyond the limits, both signs",
 NOFP + "Limits are never exercised.",
 [FP, "src/fpfind/lib/constants.py"], [("bounds", FP + ": time_freq OOB checks")], ["exit status and stdout"])
prop("C39", "Peak significance is a sound figure of merit",
 """For every histogram the significance is (peak - mean background)/(background deviation) to three decimals, with the peak (and, with a window, everything within half the window of it) excluded from the background, and the background taken from the nearer half of the bins on either side; it does not change when a constant is added to, or a positive factor applied to all counts, and is zero for a flat background. The counts of the window beyond the background, their significance, the ratio of peak to background and the raw significance (highest of all bins used, against mean and deviation of all of them) follow from the same division of the bins. A figure that has no value (no signal, no or a flat background) is None, the significance of a flat background zero.""",
 ["inputs"], "all histograms and peak positions",
 NOFP + "Statistics are not tested.",
 [UT], [("statistics", UT + ": get_statistics, PeakStatistics")], ["returned values"])
prop("C40", "Damaged timestamp files never yield events that were not stored",
 """If an a0, a1, legacy a1 or a2 file is cut at any byte, or (text formats) has characters altered, inserted or deleted, line ends lost or foreign lines inserted, the whole-file readers either fail or return exactly the stored events (for a binary file the complete ones before the cut), and the streaming readers deliver a prefix of the stored events before failing or ending; no event is invented, altered or reordered and no text damage passes unnoticed. Conversion of such a file writes nothing but a prefix of the correct output, and a failed conversion has nonzero status and a message.""",
 ["crash_points", "inputs"], "all files x all cuts and alterations x readers, buffer sizes, conversion, statistics",
 "Tests only read complete files.",
 [PT], [("whole-file readers", PT + ": read_a0, read_a1, read_a2"), ("streaming readers", PT + ": sread_a0, sread_a1, sread_a2")], ["returned arrays, exit status, output bytes"])
prop("C41", "fpfind refuses unusable input",
 """Without both inputs, or with missing, empty, one-event or unreadable files, streams that do not overlap in time or end before the second correlation window, missing, empty, damaged or too few epochs, an epoch outside the data, or invalid option values, fpfind ends with nonzero status and a message on standard error, prints nothing on standard output, and creates or changes no file. Data that merely end early within the second window may alternatively give the true offsets, never others.""",
 ["inputs", "configurations"], "all kinds of unusable input x settings x cut positions",
 NOFP + "Failure paths are never exercised.",
 [FP, UT], [("argument and input checks", FP + ": main"), ("slicing and normalisation", UT + ": normalize_timestamps, slice_timestamps, get_first_overlapping_epoch")], ["exit status, stdout, stderr, directory contents"])
prop("C42", "Epoch headers are decoded exactly and mismatches are reported",
 """For every T1 to T4 file, the header reader returns each stored field exactly (epoch and length unsigned), and logs a warning that names the file exactly when the type tag is not one of that type, or the file name is not the hexadecimal epoch (with or without leading zeros); a header that is cut short is refused.""",
 ["inputs", "crash_points"], "all header field values x tags x file names x cuts",
 "Tests read a few matching headers.",
 [PE], [("header readers", PE + ": read_T1_header, read_T2_header, read_T3_header, read_T4_header")], ["returned fields, log messages"])
prop("C43", "freqcd sessions of any length need constant memory and open files",
 """However many events and correction updates (valid, invalid, split, overlong) pass through one freqcd process, and however slowly its output is consumed, its data memory and its number of open files and threads stay constant after start-up, and the correction law still holds for the last event as for the first.""",
 ["histories"], "all session lengths x correction traffic x consumers",
 "Tests run sessions of a few events.",
 [FQ], [("buffers", FQ + ": main loop")], ["data segment size, open files, threads; output events"])
prop("C44", "Overlapping and interrupted first runs of freqcd do no harm",
 """If several first runs of one freqcd installation overlap in time, in whatever interleaving of their compilations, each of them forwards its own stream correctly with status zero; if first runs are killed at any moment, the next run compiles the program and works, and the program remains in place afterwards.""",
 ["schedules", "crash_points"], "all interleavings of first runs x kill moments",
 "The stub is never run by a test.",
 ["src/fpfind/freqcd", "src/fpfind/_postinstall"], [("stub", "src/fpfind/freqcd"), ("compilation", "src/fpfind/_postinstall")], ["output bytes and exit status of every run"])
prop("C45", "No tool destroys the file it reads",
 """If the output name given to freqcd, to the timestamp converter or to the test-case generator leads (by the same or another spelling, a link or another folder) to a file it also reads events or corrections from, that file is left unmodified and the tool fails with a message, or it is replaced by the complete and correct result; other existing output files are replaced as usual.""",
 ["inputs", "configurations"], "tools x inputs x ways to name one file twice",
 "Tests use distinct names.",
 [FQ, PT, "src/fpfind/lib/generate_freqcd_testcase.py"], [("output handling", FQ + ": main, isinput"), ("output handling", PT + ": main"), ("output handling", "src/fpfind/lib/generate_freqcd_testcase.py: main")], ["bytes of input and output files, exit status"])
prop("C46", "Every fpfind search ends",
 """For every input (correlated, uncorrelated, identical, periodic, bunched, sparse or random data) and every separation, initial and final resolution, buffer order, wrap count, threshold and precompensation scan, fpfind ends after finitely many refinement steps, with a well-formed result or with a failure, a message and an empty standard output. With correlated data and a separation of at least 0.3 correlation windows - also below the usual ones - the result is the true offset to at least the initial resolution (and the width over which the offset itself spreads the peak within one window).""",
 ["inputs", "configurations"], "all data x all numeric settings",
 NOFP + "Non-termination needs unusual separations.",
 [FP], [("refinement loop", FP + ": time_freq"), ("candidate loop", FP + ": fpfind")], ["exit status, stdout, stderr, processor time"])
prop("C47", "Options from configuration files act exactly as on the command line",
 """Any set of fpfind options gives the same output and exit status whether given on the command line, in the file named by --config, in the file <script>.default.conf of the working directory (then also without any argument), or in a file written before by --save; where they conflict, the command line overrides --config, which overrides the default file. With --save the file is written and no search is run; reading a configuration changes no file. An option given nowhere acts exactly as its documented default (-k 1, -q 26, -R 16, -r 1, -s 6, -S 6, -V 0, -Z 0, --precomp-start 0, --precomp-step 0.1e-6, --precomp-stop 10e-6) given explicitly.""",
 ["configurations"], "all option sets x all ways to split them over the sources",
 "No test uses a configuration file.",
 [FP], [("option declarations and sources", FP + ": main")], ["stdout, exit status, directory contents"])
prop("C48", "fpfind diagnostics go where, and as far as, requested",
 """For every search, fpfind logs warnings and errors only, with -v also information, with -vv or more also debugging messages, as lines of time, level, place and text with aligned detail lines; a higher verbosity only adds messages. A log file (-L) replaces an old file of that name and holds exactly the messages shown on standard error; with --quiet no message is shown there, and the file stays complete. At -v a scan reports every candidate tried, in order and with its outcome, the first success being the printed result. Diagnostics never alter result or exit status.""",
 ["inputs", "configurations"], "all searches x verbosity x log file x quiet",
 "No test looks at messages.",
 [FP, "src/fpfind/lib/logging.py"], [("levels and destinations", FP + ": main"), ("message format", "src/fpfind/lib/logging.py: LoggingOverrideFormatter, set_logfile"), ("candidate reports", FP + ": fpfind")], ["stderr, log file, stdout, exit status"])
prop("C49", "System errors are never hidden",
 """Whenever the system reports an error to the timestamp converter, the test-case generator, fpfind or the epoch readers while they open or read an input file (any format, mode or position), open, write or close an output file, write standard output, or read or save a configuration, the tool fails with nonzero exit status and a message, unless its complete correct output is there all the same: it never ends successfully with missing, shortened or invented data, and what it wrote before the failure is a prefix of the correct output.""",
 ["faults", "crash points"], "tools x formats x modes x system calls x position x error",
 "No test has a failing disk, a full disk or a closed pipe.",
 [PT, PE, FP, "src/fpfind/lib/generate_freqcd_testcase.py"], [("whole-file reader", PT + ": read_a1"), ("streaming", PT + ": sread_*, swrite_*"), ("epochs", PE + ": read_T1, read_T2"), ("output", "src/fpfind/lib/generate_freqcd_testcase.py: fwrite, owrite"), ("result", FP + ": main")], ["exit status", "bytes of the output", "injected calls"])
DG, DX = "src/fpfind/lib/generate_freqdetuneg2.py", "src/fpfind/lib/g2_two_timestamps.py"
prop("C50", "Artificially detuned data sets have exactly the nominal drift",
 """For every legacy event file with in-range times, run in its folder, the detuning script (fpfind.lib.generate_freqdetuneg2) keeps exactly the events of pattern 1, unchanged and in order, in the a2 file, and in each of the eight detuned files (c4e10 to c4e3: ratios 1e-10 to 1e-3) exactly the events of pattern 8, in order and with this pattern, at the time t0 + (t - t0)(1 + ratio), t0 being the first event of the file, to within one 4 ps unit (and the double-precision rounding of the ratio, 3e-16 of the time elapsed). The source file stays unchanged.""",
 ["inputs"], "all event files",
 "No test runs the script; an error of a few units in a long data set is not visible in its use.",
 [DG], [("detuning", DG + ": detune"), ("ratios and files", DG)], ["bytes of the files written", "directory contents"])
prop("C51", "The slow cross-correlation counts every pair exactly once",
 """For all chronological event streams (integers, double or extended precision ns below 2^53, also empty), start times and whole bin widths, g2_two_timestamps.g2 counts each pair (event of the first, event of the second stream), both later than the start time by at most 2^27 ns, whose delay (second minus first) is below 10 ms, in exactly one bin, floor(delay / width) modulo 2^18, negative delays included. Pairs further apart are not counted, except possibly those with the last event of the first stream; the streams stay unchanged.""",
 ["inputs"], "all pairs of streams x start times x widths",
 "No test calls it.",
 [DX], [("window, exclusion and counting", DX + ": g2")], ["returned histogram"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
