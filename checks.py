"""Registry of the checks: what is compiled and run for each property."""

CHECKS = {}


class CheckError(Exception):
    """the check itself could not decide"""


NOT_APPLICABLE = {}
HOOKS = None

STATELESS = ("model checking: stateless exhaustive exploration of the real parser/converter code over a bounded space of "
             "inputs and call histories, in lock step with an explicit reference state machine")

COMMON = ["bounded: nothing is claimed beyond the alphabets, lengths and depths in coverage.bounds",
          "the reference model in harness/model.hpp states the documented grammar correctly"]

CHECKS["C01"] = {
    "level": "model_checking",
    "rule": "all lines over each setup's special characters up to the length bound, plus u w^k v pumped lines and "
            "column sweeps; non-trivial: an error is expected, or the columns differ from the raw line",
    "parts": [{"src": "c01.cpp", "defs": ["PART=%d" % i]} for i in range(7)],
    "assumptions": COMMON + ["delimiters sharing characters with quote, escape or trim are not considered"],
}

CHECKS["C03"] = {
    "level": "model_checking",
    "rule": "all texts over {text, delimiter, quote, escape, LF, CR, space} up to the length bound and all token "
            "sequences up to the token bound, per setup and limit; record pieces swept over buffer growth sizes; "
            "non-trivial: a record spans several lines or is malformed",
    "parts": [{"src": "c03.cpp", "defs": ["PART=%d" % i]} for i in range(8)],
    "assumptions": COMMON,
}

CHECKS["C02"] = {
    "level": "model_checking",
    "rule": "all tables of up to 2x2 / 3 cells with fields over {text, delimiter, quote, escape, space, LF, CR} up to the "
            "length bound, every encoding style per field, LF/CRLF, with/without final line end, file and buffer; "
            "non-trivial: at least one field is quoted, escaped or padded",
    "parts": [{"src": "c02.cpp", "defs": ["PART=%d" % i]} for i in range(6)],
    "assumptions": COMMON,
}

_MACHINE_RULE = ("all texts up to the length bound x all operation sequences up to the depth (repeated until the end of "
                 "the input and past it), files made of whole lines, long files; modes default/string_error/throw_on_error, "
                 "file and buffer; non-trivial: the run contains both successful and failing reads")
for _id, _n, _parts in (("C04", 4, 5), ("C14", 14, 6), ("C15", 15, 6)):
    CHECKS[_id] = {
        "level": "model_checking",
        "rule": _MACHINE_RULE,
        "parts": [{"src": "machine.cpp", "defs": ["CHECK=%d" % _n, "PART=%d" % i]} for i in range(_parts)],
        "assumptions": COMMON,
    }

_COOKIE = ["-Wl,--wrap=fopen"]
CHECKS["C05"] = {
    "level": "model_checking",
    "rule": "all texts up to the length bound x all fragmentations of the byte stream, every byte value (NUL included) in 11 places, line lengths swept over buffer growth; "
            "file and buffer run in lock step; non-trivial: fragmented or long input",
    "parts": [{"src": "c05.cpp", "defs": ["PART=%d" % i], "flags": _COOKIE} for i in range(6)]
             + [{"src": "c05.cpp", "defs": ["PART=%d" % i], "flags": _COOKIE + ["-U__unix__"]} for i in (0, 2, 4)],
    "assumptions": COMMON[:1] + ["the portable reader is exercised by undefining __unix__"],
}

CHECKS["C05"]["parts"].append({"src": "big.cpp", "defs": ["PART=5"], "shards": 2, "flags": _COOKIE})
CHECKS["C14"]["parts"].append({"src": "big.cpp", "defs": ["PART=14"], "shards": 2, "flags": _COOKIE})
CHECKS["C05"]["rule"] += "; a line longer than 2^31 bytes (thorough: 2^32) in both"
CHECKS["C14"]["rule"] += "; sources longer than 2^32 bytes"

_NOTES = {
    "C01": "bounded-exhaustive: every line up to length 5-9 (by alphabet) per setup against a reference automaton; longer lines only pumped",
    "C02": "bounded-exhaustive round trip of small tables under every per-field encoding; larger tables not covered",
    "C03": "bounded-exhaustive over texts and token sequences, plus sweeps over buffer growth sizes",
    "C04": "bounded-exhaustive over texts and operation sequences in lock step with the model",
    "C14": "bounded-exhaustive over texts and operation sequences in lock step with the model",
    "C15": "bounded-exhaustive over texts and operation sequences in lock step with the model",
    "C05": "bounded-exhaustive over texts and read fragmentations, file against buffer",
}
for _id, _n in _NOTES.items():
    CHECKS[_id]["note"] = _n
    CHECKS[_id].setdefault("technique", STATELESS)

CHECKS["C06"] = {
    "level": "model_checking",
    "technique": STATELESS,
    "note": "bounded-exhaustive lock step of the three modes; message wording is compared between modes, line numbers with the model",
    "rule": "all texts up to the length bound x all call sequences (reads, ignore_next, header functions) up to the depth, run in the "
            "three modes in lock step; converter calls on all lines; failing constructors; non-trivial: successes and failures in one run",
    "parts": [{"src": "c06.cpp", "defs": ["PART=%d" % i]} for i in range(6)],
    "assumptions": COMMON[:1] + ["the line number is compared for failed rows (use_fields and header errors carry no line number)"],
}

ENUM = ("model checking: explicit enumeration of every input of a bounded space, each executed on the real code and "
        "compared with an independent reference")
CHECKS["C07"] = {
    "level": "exploration",
    "technique": ENUM,
    "note": "exhaustive for all texts up to the length bound, all 8/16-bit values and windows around every limit; other long texts not covered",
    "rule": "all texts up to the length bounds, all values of 8/16-bit types with margins, windows around limits and wrap-around points, "
            "single-digit and single-byte changes, leading zero sweeps; in three surroundings; non-trivial: the text is an in-range literal",
    "parts": [{"src": "c07.cpp", "defs": ["PART=%d" % i]} for i in range(4)],
    "assumptions": COMMON[:1] + ["char types are covered by C09"],
}

CHECKS["C08"] = {
    "level": "exploration",
    "technique": ENUM,
    "note": "exhaustive for all texts up to the length bound; rounding on exact midpoints of selected mantissas in every binade; both builds",
    "rule": "all texts up to the length bounds, one-byte changes of literals, length sweeps across internal buffers, exact midpoints between "
            "neighbouring values of selected mantissas in every (quick: every 13th for double) binade; decided by exact big integer comparison; "
            "both with fast_float and with SSP_DISABLE_FAST_FLOAT, and in locales of another decimal point (of one and of two bytes); non-trivial: the text is a literal",
    "parts": [{"src": "c08.cpp", "defs": ["PART=%d" % i], "header": h} for h in ("include", "include_noff") for i in range(3)],
    "assumptions": COMMON[:1] + ["the default rounding mode is in effect", "values beyond the largest finite one round to infinity"],
}

CHECKS["C09"] = {
    "level": "exploration",
    "technique": ENUM,
    "note": "exhaustive for all texts up to the length bound, all one- and two-byte texts and one-byte changes of accepted spellings, for a fixed family of types",
    "rule": "all texts up to the length bounds, all 1- and 2-byte texts, one-byte changes and cuts of accepted spellings x 32 types "
            "(optional/variant nestings, user-defined extracts), by ss::extract and as columns; non-trivial: the conversion succeeds",
    "parts": [{"src": "c09.cpp", "defs": ["PART=%d" % i]} for i in range(6)],
    "assumptions": COMMON[:1] + ["the family of nested types is a selection"],
}

CHECKS["C10"] = {
    "level": "exploration",
    "technique": ENUM,
    "note": "exhaustive over all ax/nx parameter lists up to length 3 and all comparison parameters of a 4-value table, every value in a window, every position form",
    "rule": "every restriction x every parameter list over 4 values per type (up to 3 parameters) x every value in a window around the "
            "parameters and limits (all bytes for char) x 11 row shapes, in three error modes; non-trivial: the value is accepted",
    "parts": [{"src": "c10.cpp", "defs": ["PART=%d" % i], "opt": "-O0"} for i in range(8)],
    "assumptions": COMMON[:1] + ["NaN compares by the rules of the language"],
}

CHECKS["C11"] = {
    "level": "exploration",
    "technique": ENUM,
    "note": "exhaustive over all type lists up to length 4 of a 5-type alphabet and all rows of a 4/5-cell alphabet; access forms for 10 lists",
    "rule": "all 775 type lists up to length 4 over {int, string, void, restricted, optional} x all rows of up to 5 cells over good and bad "
            "cells; all access forms for 10 lists on all rows and all texts of up to 3 rows; non-trivial: the row converts",
    "parts": [{"src": "c11.cpp", "defs": ["PART=%d" % i], "opt": "-O0"} for i in range(12)],
    "assumptions": COMMON[:1],
}

CHECKS["C12"] = {
    "level": "model_checking",
    "technique": STATELESS,
    "note": "bounded-exhaustive over header lines, field lists and interleavings of header calls with reads; use_fields at the end of the input is only required not to succeed wrongly",
    "rule": "all header lines up to the length bound x 94 field lists x bodies; all sequences of reads, ignore_next and header calls up to the "
            "depth on 7-9 texts; wide headers; non-trivial: a row is read with a selection",
    "parts": [{"src": "c12.cpp", "defs": ["PART=%d" % i]} for i in range(8)],
    "assumptions": COMMON,
}

CHECKS["C13"] = {
    "level": "model_checking",
    "technique": STATELESS,
    "note": "exhaustive over 932 chain programs x callback results x texts of up to two (thorough: three) rows, against an interpreter of chains",
    "rule": "all chains of 1-2 alternatives (4 alternatives x 5 callback kinds each) and all chains of 3 (callbacks none or bool) x all "
            "callback results x texts of malformed, multiline, empty and well-formed rows up to the bound, past the end, after plain reads and "
            "with selected fields; 896 callbacks (8 forms x 14 kinds of results x alternatives x places), 12 forms of on_error; chains of 7 alternatives (up to five columns, void, "
            "objects) in 14 orders x all callback results, messages against plain reads; "
            "non-trivial: a later alternative succeeds, or a callback is called",
    "parts": [{"src": "c13.cpp", "defs": ["PART=%d" % i], "opt": "-O0"} for i in range(11)]
             + [{"src": "c13b.cpp", "defs": ["PART=%d" % i], "opt": "-O0"} for i in range(4)]
             + [{"src": "c13c.cpp", "defs": ["PART=%d" % i], "opt": "-O0"} for i in range(4)],
    "assumptions": COMMON,
}

CHECKS["C16"] = {
    "level": "model_checking",
    "technique": STATELESS.replace("an explicit reference state machine", "parsers that are never moved") + ", with allocation accounting",
    "note": "exhaustive over move/read sequences of three slots up to the depth (deepest level: every second sequence in quick); leaks by counting every malloc/free",
    "rule": "all sequences up to the depth over 24 operations on three slots (reads, ignore_next, use_fields, chains moved in the middle, "
            "move construction and assignment between slots, destruction), file and buffer, three modes; moves after every row of a 40-row "
            "file; each run compared with parsers which are not moved, all allocations accounted for; non-trivial: a parser is read after a move",
    "parts": [{"src": "c16.cpp", "defs": ["PART=%d" % i]} for i in range(3)],
    "assumptions": COMMON[:1] + ["moved-from parsers are only destroyed or assigned to"],
}

_SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_SANITIZE_VECTOR"]
CHECKS["C17"] = {
    "level": "model_checking",
    "technique": STATELESS.split(", in lock step")[0] + ", every execution monitored by the address and undefined behaviour sanitizers, valgrind and the library's assertions",
    "note": "bounded-exhaustive; what counts as a memory error is what ASan, UBSan, libstdc++ assertions and valgrind report on the executions explored",
    "rule": "all texts over {text, delimiter, LF, CR, NUL, 0xff, quote, escape, spacing} up to the length bound, every pair of 13 operations on "
            "short texts and texts of lines, sizes around buffer growth, buffer and file, both readers; all texts for extract without anything "
            "behind them; views compared with copies before every read; non-trivial: rows are delivered",
    "parts": [{"src": "c17.cpp", "defs": ["PART=%d" % i], "flags": _SAN} for i in range(12)]
             + [{"src": "c17.cpp", "defs": ["PART=%d" % i], "flags": _SAN + ["-U__unix__"]} for i in (0, 2)]
             + [{"src": "c17.cpp", "defs": ["PART=8"], "flags": _SAN, "header": "include_noff"}]
             + [{"src": "c16.cpp", "defs": ["PART=%d" % i, "VK_SANITIZED"], "flags": _SAN} for i in (0, 1)]
             + [{"src": "c17.cpp", "defs": ["PART=%d" % i, "VK_SMALL", "VK_NO_RLIMIT"], "flags": ["-g1"], "runner": ["valgrind", "-q", "--error-exitcode=78", "--exit-on-first-error=yes", "--leak-check=no"]} for i in (2, 4)],
    "assumptions": COMMON[:1] + ["memory errors which none of the monitors notices are missed"],
}

CHECKS["C22"] = {
    "level": "model_checking",
    "technique": STATELESS.replace("an explicit reference state machine", "the same call on a new object"),
    "note": "exhaustive over all histories of up to 3 (thorough: 4) calls of an alphabet of about 80-110 calls, 8 setups, three modes",
    "rule": "all sequences up to the depth of convert(line), split(line), convert(), convert(columns), copies and moves of the object over "
            "well-formed, malformed and empty lines, delimiters and types; the last call is compared with a new object; "
            "non-trivial: the call succeeds",
    "parts": [{"src": "c22.cpp", "defs": ["PART=%d" % i]} for i in range(8)],
    "assumptions": COMMON[:1] + ["with throw_on_error nothing is said about convert() without a line after a split which threw"],
}

CHECKS["C23"] = {
    "level": "model_checking",
    "technique": STATELESS,
    "note": "exhaustive over rows, read operations and places of the throwing user code within the bounds, against the model",
    "rule": "all texts of up to 3 (thorough: 4) rows of a 9-14 row alphabet x all sequences of up to 2 (thorough: 3) of 16 operations "
            "(repeated past the end) whose conversions, restrictions, constructors and callbacks throw, four kinds of exceptions, three modes, "
            "file and buffer; non-trivial: user code threw",
    "parts": [{"src": "c23.cpp", "defs": ["PART=%d" % i]} for i in range(4)],
    "assumptions": COMMON + ["user code does not throw ss::exception itself"],
}

FAULTS = ("model checking: stateless exhaustive exploration of the real parser code with every single fault of a run injected in turn "
          "(memory requests, reads of the file), rows compared with the reference model")
CHECKS["C20"] = {
    "level": "fault_enumeration",
    "technique": FAULTS,
    "note": "every memory request and every byte offset of the runs explored; runs are bounded (texts of up to 3 rows, short call sequences)",
    "rule": "texts of up to 3 rows of all kinds and all short texts x call sequences x modes x file/buffer: each memory request of the run fails "
            "in turn, alone or with all later ones of the call, including requests inside the C library; reading fails at each byte (once or for "
            "good, three errors, several fragmentations); files which cannot be opened; non-trivial: the fault happened",
    "parts": [{"src": "c20.cpp", "defs": ["PART=%d" % i], "flags": _COOKIE} for i in range(6)]
             + [{"src": "c20.cpp", "defs": ["PART=%d" % i], "flags": _COOKIE + ["-U__unix__"]} for i in (0, 2)],
    "assumptions": COMMON + ["requests made inside the C library (stdio) may be absorbed by it, or show as a file which cannot be opened",
                             "faults are injected at malloc/realloc/calloc and at the stream's read function"],
}

CHECKS["C18"] = {
    "level": "model_checking",
    "technique": "model checking: controlled scheduling of the real code, all interleavings of calls of up to three instances and all switches "
                 "between two threads at basic blocks up to a preemption bound, compared with each instance alone; a race detector as monitor",
    "note": "all call interleavings of pairs and triples within the step bound; thread switches at every basic block with one preemption, two with a stride",
    "rule": "10 kinds of parsers and converters with different data: all interleavings of up to 6 calls of pairs and 2-4 calls of triples; every "
            "kind inside the conversions, restrictions and callbacks of every kind which has them, up to three deep; two threads switched at every "
            "basic block (same kind; other pairs every 7th in quick), two switches with a stride; race detector on all pairs; non-trivial: a switch took place",
    "parts": [{"src": "c18.cpp", "defs": []},
              {"src": "c18.cpp", "defs": ["VK_SCHED"], "flags": ["-fsanitize-coverage=trace-pc", "-pthread"]},
              {"src": "c18.cpp", "defs": ["VK_SCHED"], "flags": ["-fsanitize-coverage=trace-pc", "-pthread", "-U__unix__"], "header": "include_noff"},
              {"src": "c18.cpp", "defs": ["VK_TSAN"], "flags": ["-fsanitize=thread", "-pthread"]},
              {"src": "c18.cpp", "defs": ["VK_TSAN"], "flags": ["-fsanitize=thread", "-pthread", "-U__unix__"], "header": "include_noff"}],
    "assumptions": ["bounded: the kinds, data, calls and switches in coverage.bounds", "switches happen between basic blocks of the code compiled from headers, not within the C library",
                    "sequentially consistent execution"],
}

CHECKS["C19"] = {
    "level": "exploration",
    "technique": ENUM.replace("input", "setup") + "; verdicts of the compiler on every option list, behaviour of permutations against the reference model",
    "note": "exhaustive over option lists up to length 2 (thorough: 3) of a 22-option alphabet, all 1000 or so valid combinations with all members; permutations of up to 3 options (thorough: all orders) and selected larger ones",
    "rule": "every list of up to 2 options (both orders of every choice of 3; thorough: every list of 3 and choice of 4) is compiled and the verdict compared with the "
            "documented rules; all members of all valid combinations; members that setups do not have; orders and wrappings run on all texts up to the "
            "length bound against the plain order and the model; non-trivial: a row is delivered",
    "python": "c19",
    "parts": [],
    "assumptions": ["a single NUL as matcher (the default of a disabled one) is not considered", "verdicts of g++ 13 in C++17 mode"],
}

CHECKS["C21"] = {
    "python": "c21",
    "level": "model_checking",
    "technique": STATELESS.replace("an explicit reference state machine", "the other forms of the library") + "; each form in a namespace of its own in one program",
    "note": "bounded-exhaustive lock step of the three forms over texts, call sequences, faults and values",
    "rule": "the headers without fast_float, ssp.hpp and the regenerated header in lock step: all texts up to the length bound and all files of up to 3 (4) lines of a "
            "10-20 line alphabet x all sequences of up to 2 (3) of 11 operations, 6 setups x three modes, file and buffer, line lengths up to 280 (1100), delimiters, "
            "failing memory requests and reads; all lines x 5 delimiters for converters; all texts and windows around limits for 23 types and 16 restrictions; "
            "a part of it under the address and undefined behaviour sanitizers; non-trivial: something was valid",
    "parts": [{"src": "c21.cpp", "defs": ["PART=%d" % i], "flags": _COOKIE, "header": "all"} for i in range(8)]
             + [{"src": "c21.cpp", "defs": ["PART=%d" % i], "flags": _COOKIE + ["-U__unix__"], "header": "all"} for i in (1,)]
             + [{"src": "c21.cpp", "defs": ["PART=%d" % i, "VK_SANITIZED"], "flags": _COOKIE + _SAN + u, "header": "all"} for i, u in ((1, []), (4, ["-U__unix__"]), (6, []), (7, []))],
    "assumptions": COMMON[:1],
}
