#!/usr/bin/env python3
"""Writes MANIFEST.json (the table below is the source)."""
import json
T = "bounded exhaustive model checking of the real code"
C = {
 "C01": ("stateless exploration of all images over small alphabets x all settings, identity oracle", "Complete for every image of up to 12 pixels over two values (7 over three, all values for pairs), every filter/encoder/block size; structured families for every shape up to 40x40 and for layers, channels and programs. Larger contents are assumed to behave alike."),
 "C02": ("stateless exploration with the frozen C++ reference encoder as model, byte comparison", "Every enumerated image/configuration/program gives the reference's bytes. The reference used divides by 2, 4, 8 toward zero as the Rust format does; the difference to the unmodified reference is a listed known finding."),
 "C03": ("stateless exploration with the frozen C++ reference decoder as model, pixel comparison over all resolutions", "Streams produced by the reference are decoded by both; pixels and return values are equal on the enumerated space."),
 "C04": ("controlled scheduler: exhaustive task and result orders, plus exhaustive pairwise conflict check of recorded memory accesses", "All permutations of small regions, all preemption-bounded patterns of larger ones; the access recorder shows that tasks are independent, which makes orders of whole tasks sufficient."),
 "C05": ("exhaustive exploration of shapes around each threshold in each feature set and pool size, one reference for all", "Four feature sets x every pool size up to 20 on identical enumerated spaces are compared with one reference, hence with each other."),
 "C06": ("exhaustive fault enumeration: every buffer size and fill pattern", "Every buffer size from 0 to past sufficiency for the enumerated images; guard bytes around the buffer; buffers beyond 4 GiB."),
 "C07": ("exhaustive crash-point enumeration: every truncation position, model of the stream structure", "Every prefix of every enumerated stream at every resolution; the answer is predicted by an independent parser of the stream layout."),
 "C08": ("exhaustive enumeration of short byte strings and of all mutations of valid streams, with crash, hang and allocation monitors", "All headers and payloads in the stated alphabets and all single (and pairwise) word/bit mutations; release and debug-assertion builds."),
 "C09": ("stateless exploration of all images over small alphabets x all downsampling levels against a coefficient-domain model", "Independent model: coefficients, coarse levels, inverse filter; every level of every enumerated stream, images of up to 15 levels."),
 "C10": ("exhaustive enumeration of streams, truncations and damage; test mode compared with real decoding", "Every prefix and mutation enumerated; output canary checked."),
 "C11": ("exhaustive enumeration of field combinations and of header byte strings against a format model", "All pairs of interesting values of all fields, all values of each byte; release and overflow-checked builds."),
 "C12": ("exhaustive enumeration of color programs against a bit-level model and the reference", "All programs up to the stated length over the stated alphabets, covering arrays of longer ones, programs of thousands of steps or factors."),
 "C13": ("exhaustive enumeration of programs, samples and skip sets against an arithmetic model", "All skip sets, all small programs, all sample values at borders."),
 "C14": ("exhaustive enumeration of operation sequences and values against a bit-list model and the reference", "All values up to a bound and all boundary classes, all alignments, all widths, all sequences up to a depth; release and overflow-checked builds."),
 "C15": ("exhaustive enumeration of plane contents and shapes, reference filters as model", "All contents of lines and small planes over the alphabets (of samples, and of coefficients of the whole 16 bit range), impulses at every position of every shape."),
 "C16": ("exhaustive enumeration of all 65536 values x all 1024 qualities, reference and independent model", "Complete in value and quality at the finest level and in one plane with all levels; every shape up to the bound."),
 "C17": ("explicit-state search over coder states, each transition replayed on the implementation; exhaustive small planes against the reference", "The state graph of a coder model is searched breadth first (complete for turbo and first-row contextual states over the alphabets, bounded for fast) and every transition is executed by the real encoder and decoder."),
 "C18": ("stateless exploration of extreme images in a build with all run-time checks", "For each value the wavelet computes, the image that makes it extreme is executed under every setting; all black and white images of small shapes."),
 "C19": ("exhaustive enumeration of uniform images x settings x resolutions", "All 256 values x qualities x filters x encoders, all shapes up to the bound, all resolutions."),
 "C20": ("exhaustive enumeration of channel and layer structures, self-composition with single-plane coding", "All contents of small two-plane images; all structures of the list, all shapes up to the bound; counts beyond 16 bits."),
 "C21": ("exhaustive enumeration of lengths, steps and sizes against an index model by address", "Every length and step up to the bound, every list of sizes, every tile of every image size up to the bound."),
 "C22": ("exhaustive fault and fragmentation enumeration: choice-tree exploration of every transfer, every failure kind at every byte", "Every transfer is a choice point (whole, any shorter length, interrupted); all executions with up to 3 (thorough 5) deviations, all cuts in a 16 byte window of headers, every failure position and kind under nine regular paces."),
 "C23": ("exhaustive enumeration of operation sequences, and of nestings at every scheduling point of the controlled scheduler", "All sequences of length 3 (thorough 4) over 41 operations, all ordered pairs in new threads, every operation nested in every other at its scheduling points under five policies; with the real pool all pairs joined and all at once."),
 "C24": ("exhaustive enumeration of streams, prefixes, followers and buffer states with canaries; size model for every size and factor", "Every prefix and shape up to the bound with seven buffer states each; followers of 18 lengths and three contents; all sizes up to the bound and around powers of two."),
 "C25": ("exhaustive enumeration of settings, programs, structures, skip sets and sample types, self-composition of both interfaces", "Every shape up to the bound, every layer and channel structure up to 8x8, every skip set and chroma marking, eleven sample types."),
 "C26": ("exhaustive enumeration of the lengths of all slice arguments between inaccessible pages", "Every length of every slice argument from nothing to past sufficiency for small shapes, lengths around every row for larger ones; an access up to 16 MB away from a slice ends the process and is reported."),
 "C27": ("exhaustive enumeration of descriptive header fields x settings, self-composition with the plain header", "All combinations of 12 versions, 8 depths, 6 intents and 14 metadata sizes; each value of each at every shape up to the bound; covering arrays of all settings and programs."),
}
m = {
 "version": 1,
 "setup_cmd": "bash setup.sh",
 "checks": [{"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
             "technique": "model checking: " + t, "level": "model_checking", "level_note": n} for p, (t, n) in C.items()],
 "not_applicable": [],
 "notes": "No hooks in /repo: everything the harness needs is public. See DESIGN.md; known-findings.txt lists findings and repairs.",
}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
