#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

SEQ = "explicit enumeration of bounded executions of the real code, each compared with an independent reference model"
NOTE = {
 "P01": ("exhaustive enumeration of bounded inputs x configurations x write splits, run on the real Writer and Reader", "Every case of the listed finite space is run; nothing is sampled. Inputs outside the bounds are covered by structured families (sizes around every internal buffer limit, code-length extremes, window wraps)."),
 "P02": ("exhaustive enumeration of bounded Writer executions, output checked by an independent strict decoder", "Trusts harness/ref.go, itself cross-checked against the Go standard library on every output it can read."),
 "P03": ("exhaustive enumeration of bounded valid streams (all block/symbol/distance shapes) decoded by the real Reader against a reference decoder", "Trusts harness/ref.go, which was written from the RFCs and is compared with the Go standard library on every stream."),
 "P04": ("exhaustive enumeration of bounded bit strings and of single violations in every stream context, against a reference decoder", "Streams that only use an incomplete code may be refused at either of two points; both are allowed."),
 "P05": ("fault enumeration: every truncation point and every trailer/header corruption of a corpus, exhaustively", "All cut positions of all corpus files; every bit of headers and trailers."),
 "P06": ("exhaustive enumeration of bounded hostile container bytes, with panic and hang detection in worker processes", "A hang is no progress for 90 s, confirmed on a second, single run."),
 "P07": ("exhaustive enumeration of all slicings (compositions) of bounded inputs and read-size patterns; equality of outcomes", "All compositions for short files; all cut points and pairs for longer ones."),
 "P08": ("exhaustive enumeration of bounded Write/Flush sequences, every flushed prefix decoded by the reference decoder", ""),
 "P09": ("exhaustive enumeration of all operation sequences to a depth, against an explicit lifecycle model", ""),
 "P10": ("fault enumeration: every write/flush/sync call of bounded histories fails in every way, against a model", ""),
 "P11": ("fault enumeration: a read error at every byte position of a corpus, in every style, against the reference decoder", ""),
 "P12": ("exhaustive enumeration of prior histories x option merges, Reset instance compared with a fresh one", ""),
 "P13": ("exhaustive enumeration of bounded concatenations and buffer alignments, against the reference decoder", ""),
 "P14": ("exhaustive enumeration of bounded header values and gzip header layouts, against an RFC 1952 parser", ""),
 "P15": ("exhaustive enumeration of dictionaries x lengths x formats x mismatches, against the reference decoder", ""),
 "P16": ("exhaustive enumeration of lengths x alignments x splits, run on both the accelerated and the portable code, against bit-serial definitions", ""),
 "P17": ("stateless model checking: preemption-bounded exhaustive exploration of schedules of the real Reader under a controlled scheduler", ""),
 "P18": ("stateless model checking: preemption-bounded exhaustive exploration of schedules of the real Writer under a controlled scheduler, checked for linearizability", ""),
 "P19": ("exhaustive enumeration of bounded Writer executions, output parsed by the reference decoder and compared with the options", ""),
 "P20": ("exhaustive enumeration of bounded streams; event sequences compared with those computed by a reference decoder", ""),
 "P21": ("exhaustive enumeration of option values, names and bounded strings against a table", ""),
 "P22": ("exhaustive enumeration of bounded flag combinations and input faults, run as processes, judged by the reference decoder", ""),
 "P23": ("exhaustive enumeration of bounded Writer executions, block sizes computed by a reference parser", ""),
 "P24": ("exhaustive enumeration of interleavings of calls on independent instances (sequential, nested and under a controlled scheduler)", ""),
 "P25": ("exhaustive enumeration of bounded uses with hostile buffer reuse, compared with uses with private buffers", ""),
 "P26": ("exhaustive enumeration of bounded long-running executions; backlog, read-ahead, live memory and goroutines held against bounds at every checkpoint", "Bounds are several times the documented buffer sizes, so that only growth without bound or by a large factor is reported."),
 "P27": ("exhaustive enumeration of faults x positions x preceding streams x slicings; reported offsets against the reference decoder's position", "\"At/near\" is taken as: from the start of the faulty element to 16 bytes behind it."),
 "P29": ("crash-point enumeration: every crash point and torn tail of bounded Write/Flush histories, the surviving file decoded and held against what was promised", ""),
 "P30": ("exhaustive enumeration of bounded Writer executions and symbol frequencies; every block's codes compared with optimal ones computed by package-merge", "A margin of about 10 % is left where code words have to be limited in length and for the choice of block type."),
 "P31": ("exhaustive enumeration of bounded executions on a 32-bit build of the code, against the reference models of the other properties and against the 64-bit build", "Runs GOARCH=386 binaries; parts of the enumerations of the other properties, see the bounds."),
 "P28": ("differential exhaustive exploration: every execution of the bounded spaces repeated in enumerated surroundings (types, orders, pools, processes)", ""),
}
GEN = "Decides the property on every execution of the stated finite space, run on the code built from /repo's working tree; says nothing beyond those bounds. "
DONE = [l for l in open(V + "/tools/claimed.txt").read().split()]
allp = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {"version": 1,
     "setup_cmd": "./check.sh setup",
     "checks": [{"property": p,
                 "quick_cmd": "./check.sh %s quick" % p,
                 "thorough_cmd": "./check.sh %s thorough" % p,
                 "technique": NOTE[p][0],
                 "level": "model_checking",
                 "level_note": (GEN + NOTE[p][1]).strip()} for p in allp if p in DONE],
     "not_applicable": [{"property": p, "reason": "not claimed yet: the check is being built"} for p in allp if p not in DONE],
     "notes": "No hooks in /repo: the checks reach internal code through build overlays (harness/overlay) and, for P17, P18 and P24, through a rewritten copy of its synchronization (harness/xform). See DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
