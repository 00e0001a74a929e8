#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("runtime monitoring: exact-arithmetic oracle over recorded event streams of the real binary", "Every event of every run is compared with the correction law in exact rational arithmetic. Sampled streams and corrections; trusts the check's decoder."),
 "C02": ("runtime monitoring: differential oracle over delivery schedules (torn, delayed, byte-wise; pipe, FIFO, socket, file)", "Byte equality of outputs across schedules, hand-over confirmed by kernel queue state. Sampled schedules; timing of the kernel is not controlled beyond that."),
 "C03": ("runtime monitoring: exactly-once/order/payload checker over recorded input and output event logs", "Offline log checker over all events of each run; sampled inputs, schedules and run-time updates."),
 "C04": ("runtime monitoring: trace-specification checker of update histories with synchronised hand-over", "Each history is driven so that the active correction per event is known, then checked event by event. Sampled histories."),
 "C05": ("runtime monitoring: acceptance oracle over command lines, with output-file watch", "Listed edge cases are always run, the rest is sampled."),
 "C06": ("sanitizers: gcc ASan+UBSan, clang MSan, clang UBSan and valgrind memcheck builds under hostile workloads", "No report on any of the runs; sanitizers see executed paths only. Value-dependent uninitialised reads are judged by MSan/memcheck."),
 "C07": ("runtime monitoring: directory snapshot monitor with decoy files", "Directory contents before and after each run against a set model; sampled names including all lengths around the limit."),
 "C08": ("runtime monitoring: exhaustive single-fault injection into the recorded system-call trace (LD_PRELOAD), prefix oracle", "Per workload every traced read/write/wait call is failed, shortened or interrupted in its own run (sampled above a cap), plus kills and double faults."),
 "C09": ("runtime monitoring: promptness and CPU-time monitor of interactive sessions", "Waits for the complete output after every piece with a generous limit and bounds CPU time while idle."),
 "C10": ("runtime monitoring: independent exact decoder as oracle for the readers", "All events of generated files; formats, resolutions and options crossed; sampled contents."),
 "C11": ("runtime monitoring: independent encoder as oracle for written files, batch-split differential", "Byte comparison; sampled events and splits."),
 "C12": ("runtime monitoring: differential oracle streaming vs whole-file reader vs stored events", "Sampled files and buffer sizes."),
 "C13": ("runtime monitoring: command-line conversions compared with an independent encoder, directory snapshots", "All format pairs in turn; sampled contents; some cases span several streaming batches."),
 "C14": ("runtime monitoring: set oracle over filter results, all patterns/masks in turn", "All 64 filter settings; sampled lists; function and command line."),
 "C15": ("runtime monitoring: exact interval oracle over filter results", "Bounds exact in binary at and next to events; sampled lists; function and command line."),
 "C16": ("runtime monitoring: exact recount of every printed figure", "Every printed number is parsed and compared; sampled files and filters."),
 "C17": ("runtime monitoring: independent T1 decoder and exact time oracle", "Byte-level and reader-level comparison; sampled epochs and events."),
 "C18": ("runtime monitoring: independent T2 packer as oracle for the reader", "Sampled widths, epochs and deltas with extended-form and word-straddling mixtures."),
 "C19": ("runtime monitoring: direct recount oracle of coincidence tallies", "Sampled outcome lists covering all cells."),
 "C20": ("runtime monitoring: independent T4 packer as oracle for the reader", "Sampled widths and differences."),
 "C21": ("runtime monitoring: crash-point enumeration (cut at every byte) with CPU and memory limits", "Every cut of each sampled file, plus altered counts and terminators."),
 "C22": ("runtime monitoring: set-computation oracle over epoch directories", "Sampled directory pairs."),
 "C23": ("runtime monitoring: continuity checker over the merged timeline of two sides", "Sampled runs, half of them across the 17-bit rollover."),
 "C24": ("runtime monitoring: exact integer-arithmetic oracle in several time zones", "Sampled epochs, dates and zones including daylight-saving changes."),
 "C25": ("runtime monitoring: ground-truth oracle on synthetic correlated streams", "Printed offsets against exactly known ones; tolerances follow the final resolution (initial resolution where the documented early stop applies)."),
 "C26": ("runtime monitoring: no-output oracle on uncorrelated streams", "Failure status and empty stdout required; thresholds far above the fluctuation, so chance alarms are excluded in practice."),
 "C27": ("runtime monitoring: metamorphic oracle over normal, inverted and exchanged runs", "Inverse relations exact up to rounding; exchange up to the accuracy."),
 "C28": ("runtime monitoring: consistency checker over all 16 output views", "All views of each sampled data set."),
 "C29": ("runtime monitoring: sequence oracle for the scan and ground-truth oracle for searches that need it", "Sampled scan parameters; data sets for which the monitor confirms that the search without scan fails."),
 "C30": ("runtime monitoring: exact pair-count oracle over computed correlations", "Every bin of every sampled correlation."),
 "C31": ("runtime monitoring: differential oracle over input formats plus ground truth", "Sampled data sets and epoch layouts, a third across the 17-bit rollover."),
 "C32": ("runtime monitoring: byte-equality monitor over repeated processes with directory snapshots", "Sampled data sets and diagnostic options."),
 "C33": ("runtime monitoring: end-to-end ground-truth oracle fpfind -> freqcd -> fpfind", "Real freqcd binary; sampled data sets and sides."),
 "C34": ("runtime monitoring: exact-arithmetic oracle over normalised lists and slices", "Sampled lists with ties and boundary windows."),
 "C35": ("runtime monitoring: recording stand-in for the histogram with true-pair alignment checker", "Packages outside the repository (boiler, S15lib) are replaced by stand-ins, since they are not installed."),
 "C36": ("runtime monitoring: independent encoder oracle with directory snapshots", "Sampled times and routes; about a quarter of the runs are real processes."),
 "C37": ("runtime monitoring: differential run of a scratch installation against the compiled program", "Sampled invocation forms; compilation made impossible in four ways."),
 "C38": ("runtime monitoring: range oracle on data with true offsets around and beyond the limits", "Sampled offsets; data beyond the limits must fail."),
 "C39": ("runtime monitoring: exact-arithmetic oracle and metamorphic shift/scale checks", "Sampled histograms, windows and centres."),
 "C40": ("runtime monitoring: crash-point and corruption enumeration with a stored-events oracle", "Every cut of each sampled file, 40 alterations of each text file; readers, conversion and statistics."),
 "C41": ("runtime monitoring: refusal oracle (status, message, silent stdout, directory snapshot) over kinds of unusable input", "Kinds in turn with undamaged controls; sampled settings and cut positions."),
 "C42": ("runtime monitoring: independent header encoder and log monitor", "Sampled fields, tags and names; every cut of each header."),
 "C43": ("runtime monitoring: resource monitor (/proc) and law checker over long sessions", "Sessions of 10^4.6 to 10^5.4 events (thorough to 10^6.3), thousands of correction lines; growth after warm-up."),
 "C44": ("runtime monitoring: stress with injected delays (slow linker) and kills at random moments", "Sampled staggers and kill moments; the scheduler is not controlled beyond that."),
 "C45": ("runtime monitoring: input-preservation oracle over aliased output names", "Tools, inputs and aliases crossed; sampled contents."),
 "C46": ("runtime monitoring: termination watchdog (processor time) and result oracle over hostile data and settings", "A search that needs 90 s of processor time counts as endless; regular ones need up to 3 s."),
 "C48": ("runtime monitoring: log parser comparing verbosities, destinations and reported outcomes", "Sampled searches; the comparison assumes that searches are deterministic (C32)."),
 "C49": ("runtime monitoring: fault injection at the system call (strace), file-size limits and full or closed streams, with a prefix and completeness oracle", "One fault per run at a sampled call; errors of other kinds (e.g. memory) are not injected."),
 "C50": ("runtime monitoring: exact rational drift oracle over the files of each script run", "Sampled data sets of up to 3000 events."),
 "C51": ("runtime monitoring: exact pair-counting oracle", "Sampled streams of up to 250 events with boundary cases."),
 "C47": ("runtime monitoring: differential run of the option sources with directory snapshots", "Sampled option sets and splits."),
}
m = {"version": 1, "setup_cmd": "chmod +x check && ./check --selftest",
     "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo are needed: the monitors observe processes, files, arrays returned by the public functions, and (C08) library calls interposed from outside. VERIF_REPO selects another tree for experiments."}
for k in sorted(T):
    m["checks"].append({"property": k, "quick_cmd": "./check %s quick" % k, "thorough_cmd": "./check %s thorough" % k,
                        "technique": T[k][0], "level": "fault_enumeration" if k in ("C08", "C21", "C40") else "exploration", "level_note": T[k][1]})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
