#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run after editing; the output is committed)."""
import json, os
L = "libmseed/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                          "observe_at": observe or [], "hook_needed": hook}})

prop("P01", "Packing then parsing returns exactly the samples and metadata",
 "Packing a time series into miniSEED 3 or 2 with any supported encoding and record length and parsing the emitted records returns the same identifier, sample rate, flags, publication version and extra headers, and the concatenated samples equal the input bit for bit. Every record starts at the time of its own first sample, no record is longer than the requested length, and the reported packed count equals the samples in the records. Without a flush only full records are emitted and they hold a prefix of the series; a value an encoding cannot represent is an error, never silently altered data.",
 ["inputs", "configurations"], "all valid record descriptions (identifier, time, rate, flags, extra headers), all sample sequences of every sample type, every encoding, record length and format version, with and without flush",
 "The unit tests pack one sine series per encoding at one record length and compare with reference files; they cannot cover all sample differences, record boundaries, rates, times and header combinations.",
 [L+"pack.c", L+"packdata.c", L+"unpack.c", L+"unpackdata.c", L+"parseutils.c"],
 [("record packers", L+"pack.c:106-860"), ("sample encoders and Steim differences", L+"packdata.c"), ("record parser and decoders", L+"unpack.c:74-1020, "+L+"unpackdata.c")],
 ["records given to the record handler", "packed sample count", "parsed record"])

prop("P02", "Emitted records conform to the miniSEED format specification",
 "Every record the library emits is valid for an independent reader of the published format: version 3 records have correct fixed header, lengths, CRC, identifier, extra headers and payload; version 2 records have a correct fixed header in one byte order, a power-of-two length given by blockette 1000, and a blockette chain that is ordered, inside the record and before the data. An independent decoder of the payload recovers the exact samples, including the Steim integration constants and frame counts. The bytes depend only on the input: identical input gives identical bytes, with no uninitialised content. A header packed on its own is the header of the record it belongs to and never exceeds its buffer.",
 ["inputs", "configurations"], "all packable record descriptions, encodings, record lengths, extra headers and format versions",
 "Tests compare with stored files the same code produced, for a handful of records; an error shared by packer and unpacker, or one that needs particular differences or lengths, passes.",
 [L+"pack.c", L+"packdata.c", L+"crc32c.c", L+"mseedformat.h"],
 [("version 3 header and CRC", L+"pack.c:155-590"), ("version 2 header and blockettes", L+"pack.c:591-1600"), ("encoders", L+"packdata.c")],
 ["bytes of the emitted records"])

prop("P03", "Records written by other software are decoded to the right values",
 "A valid version 2 or 3 record built independently of the library, in either byte order and with any documented data encoding including the legacy gain-ranged ones, parses to the identifier, start time, rate, flags, publication version, length and sample values the format specification assigns to its bytes. Version 2 blockettes for sample rate, timing quality, event detection, calibration, time exceptions and data extension appear as the documented extra headers with their values. A decoding request for more samples than the payload holds never returns invented samples. The raw header printer shows the stored field values of such records and finds nothing wrong in them, and counts each header field that is outside its valid range.",
 ["inputs"], "all well-formed records: byte orders, encodings, blockette chains, header field values, payload layouts a writer may choose",
 "Tests parse about twenty reference files; field values, blockette orders, Steim difference packings and gain-range codes are sampled at a few points only.",
 [L+"unpack.c", L+"unpackdata.c", L+"parseutils.c", L+"mseedformat.h"],
 [("version 2 header and blockette mapping", L+"unpack.c:257-1010"), ("version 3 header", L+"unpack.c:74-250"), ("decoders", L+"unpackdata.c"), ("rate and time derivation", L+"unpack.c:1452-1667")],
 ["parsed record, decoded samples, extra headers"])

prop("P04", "No input bytes can corrupt memory or hang a reader",
 "For any byte string of any length given to record detection, parsing, decoding, raw header printing, buffer and file reading, text and extra-header readers or the inspection program, processing finishes without reading or writing outside the buffers involved, without a crash and without looping forever. It ends in either a usable result whose fields are within their documented limits or a documented error.",
 ["inputs"], "all byte strings as buffers and files, all flag combinations, in particular near-valid records with contradictory lengths, offsets, counts and codes",
 "Tests feed only well-formed files; a malformed field that drives an out-of-bounds access is an input nobody stored.",
 [L+"parseutils.c", L+"unpack.c", L+"unpackdata.c", L+"fileutils.c", L+"tracelist.c", L+"extraheaders.c", L+"selection.c", "src/msi.c"],
 [("length detection", L+"parseutils.c:179-300"), ("bounds of payload", L+"unpack.c:1021-1120"), ("raw printing", L+"parseutils.c:316-1347"), ("decoder input limits", L+"unpackdata.c")],
 ["sanitizer reports, return codes, result fields"])

prop("P05", "Record checksums are exact and every corruption is rejected",
 "The checksum of any byte range equals the CRC-32C of those bytes whatever the length, memory alignment and split into consecutive pieces. With validation requested, a version 3 record is accepted if and only if its stored checksum matches its content, so any change confined to 32 consecutive bits before, inside or after the checksum field is always rejected with the invalid-checksum error; parsing never modifies the record's bytes.",
 ["inputs"], "all byte strings, alignments, chunkings; all records and all changed positions, for parsing, buffer reading and file reading",
 "A test checks one string's CRC; misaligned short buffers, chunk boundaries and positions of damage are not enumerated.",
 [L+"crc32c.c", L+"unpack.c", L+"pack.c"],
 [("table-driven CRC with alignment handling", L+"crc32c.c:307-410"), ("validation on parse", L+"unpack.c:74-250")],
 ["checksum value, parse return code"])

prop("P06", "Converting records between versions preserves data and metadata",
 "Rewriting a parsed version 2 record as version 3 without decoding, or decoding and re-packing it in either version, keeps identifier, start time, rate, flags, samples, encoding and every extra header that the target version can hold. Extra headers with a version 2 counterpart survive a version 3 to 2 to 3 passage with equal values. Copying a record yields an equal, fully independent record.",
 ["inputs", "configurations"], "all parsed records of either version and byte order, all extra header contents with counterparts in the other version",
 "The tests repack one or two files; flag bits, blockette fields and rate representations are combinations they do not reach.",
 [L+"pack.c", L+"unpack.c", L+"msrutils.c"],
 [("repack without decoding", L+"pack.c:394-488"), ("extra headers to blockettes", L+"pack.c:858-1600"), ("blockettes to extra headers", L+"unpack.c:480-960"), ("duplicate", L+"msrutils.c:121-200")],
 ["records before and after, parsed fields"])

prop("P07", "Trace lists hold every added record once, joined exactly when contiguous",
 "After adding records in any order, every sample of every record is in exactly one segment of the trace with that identifier (and version, when versions are split), in time order of the record it came from, and the segment's times, counts and rate describe its contents. Data are joined exactly when the gap to the existing segment's start or end is within the time tolerance and the rates are within the rate tolerance; with healing on, a record that bridges two segments joins them. The identifiers are in sorted order, all links and counters are mutually consistent, and looking up an identifier finds its trace if and only if it was added.",
 ["histories", "configurations"], "all sequences of added records (identifiers, versions, times, rates, sample types, overlaps, gaps), tolerances, with and without healing and version splitting",
 "Tests read a few files in file order; they do not exercise insertion orders, healing at both ends, tolerance boundaries or many identifiers.",
 [L+"tracelist.c"],
 [("placement search", L+"tracelist.c:364-815"), ("prepend, append and heal", L+"tracelist.c:988-1260"), ("sorted skip list", L+"tracelist.c:180-330")],
 ["trace list structure after every step"], [("segment list", "segments of one trace, in time order", L+"tracelist.c:364-815"), ("trace index", "sorted skip list of identifiers", L+"tracelist.c:180-330")])

prop("P08", "Packing a growing trace list never loses, repeats or mistimes samples",
 "For any interleaving of adding data and packing with or without flush, the records emitted for a trace followed by what is still buffered equal the samples added, each once, in order and with the right times. Without flush the remaining samples stay in the list with matching start time and counts; after a flush nothing packable remains; packing with the list preserved leaves it unchanged. The reported record and sample counts equal what the record handler received, and a failure is reported rather than absorbed.",
 ["histories", "configurations"], "all histories of add and pack steps over several traces, encodings, record lengths, versions, extra headers and flush choices",
 "One test drives one rolling buffer with one file; the remainder after each pack, empty segments and refills are histories it does not generate.",
 [L+"tracelist.c", L+"pack.c"],
 [("pack and trim segments", L+"tracelist.c:1850-2110"), ("record packing", L+"pack.c:106-390")],
 ["emitted records, list contents after each step"], [("buffered segment", "unpacked remainder and its start time", L+"tracelist.c:1936-2110")])

prop("P09", "Deferred unpacking from a record list equals direct reading",
 "Reading a buffer or file with a record list and unpacking each segment later gives the same traces, coverage and sample values, in caller-supplied or allocated memory, as reading with immediate unpacking. Each segment's record list names exactly the records that contributed, in time order with right positions and times. A destination that is too small or a record that cannot be decoded is an error and is never written past its end.",
 ["inputs", "histories"], "all record sequences, orders, encodings, buffer or file origins, segment selections and destination sizes",
 "Tests unpack one record list from one file in order; out-of-order records, healing and limits of the output buffer are not covered.",
 [L+"tracelist.c", L+"fileutils.c"],
 [("record list insertion", L+"tracelist.c:1266-1330"), ("deferred unpack", L+"tracelist.c:1614-1850"), ("direct unpack", L+"tracelist.c:865-987")],
 ["record list entries, unpacked samples"])

prop("P10", "Times convert exactly between numbers, calendar fields and text",
 "For every representable nanosecond time from the year 1678 on, printing in any time format and sub-second choice that keeps the digits and parsing it back returns the same time, the printed text is the proleptic Gregorian calendar date of that time, and coarser choices only drop digits. Calendar helpers agree with the Gregorian calendar for every year and day. A string with a field out of its range, a character no documented form has, or a time outside the representable range is reported as an error.",
 ["inputs"], "all nanosecond times in the representable range, all formats, all date strings including malformed ones",
 "Tests convert a few dozen fixed dates; leap years, year ends, negative epochs, sub-second combinations and field limits are infinite families.",
 [L+"genutils.c", L+"gmtime64.c"],
 [("printing", L+"genutils.c:859-1140"), ("calendar to time", L+"genutils.c:1167-1230"), ("text parsing", L+"genutils.c:1279-1620"), ("day-of-year", L+"genutils.c:741-850"), ("broken-down time", L+"gmtime64.c:72-200")],
 ["returned times and strings"])

prop("P11", "Sample times and record end times follow the sampling rate and leap seconds",
 "The time of sample n is the start time plus n periods to within rounding of one nanosecond plus floating-point precision, for rates given as frequency or as period, and never decreases with n except where a leap second is taken out. When a leap second of the loaded or built-in list lies completely inside the span, exactly one second is taken out (one also if the span holds several). A record's end time is the time of its last sample, and the rate helpers agree with each other. Loading a leap second file yields exactly the entries in the file, in order; a file that cannot be read is an error and a line that is no entry is reported and ignored.",
 ["inputs", "configurations"], "all start times, sample counts and rates; all leap second tables",
 "A few fixed computations are tested; long series, period rates, leap-second boundaries and custom tables are not.",
 [L+"genutils.c", L+"msrutils.c"],
 [("sample time", L+"genutils.c:1638-1675"), ("end time", L+"msrutils.c:202-226"), ("rate and period helpers", L+"msrutils.c:347-396"), ("leap second list", L+"genutils.c:1700-1853")],
 ["returned times"])

prop("P12", "Identifiers map to codes and back without loss; text copies stay in bounds",
 "Building a source identifier from network, station, location and channel codes and splitting it again returns the same codes for every valid set of codes, and malformed identifiers or too-small destinations are errors. Mapping between three-letter SEED channels and extended channels is one-to-one where defined and refuses everything else. The bounded string copy helpers produce the documented cleaned or padded text and never touch memory beyond the stated length plus the documented terminator.",
 ["inputs"], "all code sets and identifiers including odd characters, empty parts and lengths at the limits; all source strings and lengths",
 "Tests use a dozen identifiers; empty parts, limits and malformed forms are not enumerated.",
 [L+"genutils.c", L+"unpack.c"],
 [("split", L+"genutils.c:183-310"), ("build", L+"genutils.c:314-434"), ("channel mapping", L+"genutils.c:435-540"), ("string helpers", L+"genutils.c:545-730")],
 ["returned strings, return codes"])

prop("P13", "Selections match exactly the data their patterns and windows describe",
 "Data match a selection list if and only if some entry's identifier pattern matches under shell-style globbing, its version is unset or equal, and one of its time windows is absent, open or intersects the data's time range. Entries added by code set, by identifier pattern or from a selection file in any of its documented line forms behave identically, and reading, trace building and filtering with selections keep exactly the matching records. Invalid selection lines or dates are reported and never widen what is selected; the entries of valid lines that precede an invalid one may stay.",
 ["inputs", "configurations"], "all patterns, identifiers, time windows, versions and selection files",
 "Tests read one selection file and check a few matches; pattern syntax, window limits and file forms are unbounded.",
 [L+"selection.c", L+"fileutils.c"],
 [("matching", L+"selection.c:58-150"), ("adding", L+"selection.c:181-400"), ("file reading", L+"selection.c:428-660"), ("globbing", L+"selection.c:817-931")],
 ["match results, selected records"])

prop("P14", "Extra headers behave as one JSON document through any edits",
 "After any sequence of set, add, replace and get operations, with or without a shared parsed state, the extra headers equal a reference JSON document to which the same operations were applied, reads return the exact stored number, integer, string or boolean, and absent or differently typed paths are reported as such. The stored text is always valid compact JSON no longer than its field allows; an operation that cannot be honoured reports an error and leaves the headers as they were. Printing shows the same content.",
 ["histories", "inputs"], "all sequences of operations over all paths, types, values and prior header contents",
 "Tests perform one fixed series of sets and gets; arrays, escapes, deep paths, limits and shared state are histories.",
 [L+"extraheaders.c"],
 [("get by pointer", L+"extraheaders.c:150-300"), ("set by merge", L+"extraheaders.c:312-480"), ("event, calibration, timing, recenter", L+"extraheaders.c:493-990"), ("serialise, replace, print", L+"extraheaders.c:997-1227")],
 ["extra header text, returned values"])

prop("P15", "Reading a file returns exactly its records, whatever the layout",
 "Reading a file record by record returns every record in it, in order, with its exact bytes and the file offset where it starts, for any mix of versions and lengths, any amount of non-data between records when skipping is on, and any start offset or byte range requested. Data that is not a record, or is truncated, is reported as the documented error when skipping is off and never yields a record whose bytes are not in the file. Reading into a trace list and reading from an open descriptor or standard input give the same data as reading record by record.",
 ["inputs", "configurations"], "all files as sequences of records, padding, junk and truncation; all byte ranges, offsets, flags and read buffer positions",
 "Tests read a few well-formed files from the beginning; records that straddle the internal buffer, junk runs and ranges are not covered.",
 [L+"fileutils.c", L+"msio.c"],
 [("buffered scanning", L+"fileutils.c:257-580"), ("range parsing", L+"fileutils.c:1013-1064"), ("low level reads", L+"msio.c:183-600")],
 ["records, offsets, return codes"], [("read buffer state", "position, length and file offset of buffered data", L+"fileutils.c:160-250")])

prop("P16", "Writing files stores every record in order and failures are reported",
 "Writing a record or trace list to a file appends, or replaces when overwriting, exactly the records that packing the same data emits, returns the number of records written, and leaves the source samples unchanged. Reading the file back returns the written data after what was there before. When data cannot be stored, for example a full or unwritable destination, an error is returned.",
 ["inputs", "histories", "fault_sequences"], "all sequences of writes with overwrite or append over record and trace data, encodings, lengths and versions; write faults",
 "Tests write one file once and compare; histories of appends and write failures are not exercised.",
 [L+"fileutils.c", L+"pack.c", L+"tracelist.c"],
 [("record writing", L+"fileutils.c:865-955"), ("trace list writing", L+"fileutils.c:960-1010")],
 ["file content, return values"])

prop("P17", "The inspection program selects, counts and passes through exact records",
 "For any input files and any combination of its time, match, reject, selection, record-count and byte-range options, the inspection program processes exactly the records those options describe, its summary counts equal the files, records and samples processed, and output to a raw file contains those records' exact bytes in order. Per-record lines show each record's identifier, times, rate and counts. Unreadable or invalid input, and output that cannot be stored, lead to an error status and message.",
 ["inputs", "configurations"], "all input files and option combinations",
 "The repository's tests never run the program.",
 ["src/msi.c", L+"fileutils.c", L+"msrutils.c"],
 [("main loop and filters", "src/msi.c:75-387"), ("options", "src/msi.c:388-760"), ("glob matching of source names", "src/msi.c:867-985"), ("record printing", L+"msrutils.c:228-300")],
 ["program output, exit status, output files"])

prop("P18", "Trace, gap, sync and sample listings report the data exactly",
 "The trace list, gap list, synchronisation list and sample outputs of the library and the inspection program describe exactly the assembled data: one entry per segment with its times, rate and sample count, one gap or overlap entry per adjacent pair of segments within the requested size limits with its signed duration and sample count, and sample listings and binary sample files with every value in order. The totals printed equal the listed entries.",
 ["inputs", "configurations"], "all sets of traces, time formats, tolerances, gap limits and output options",
 "The repository's tests never check these listings.",
 [L+"tracelist.c", "src/msi.c"],
 [("trace listing", L+"tracelist.c:2120-2250"), ("sync listing", L+"tracelist.c:2252-2320"), ("gap listing", L+"tracelist.c:2325-2430"), ("sample output", "src/msi.c:200-340")],
 ["program output, binary output file"])

prop("P19", "Allocation failures and repeated use leak nothing and are reported",
 "Every operation releases all memory it allocated that it does not hand to the caller, on success and on every error path, and freeing what the caller owns releases the rest exactly once. If any single memory allocation fails, the operation returns its documented error or a correct result, without crashing, without corrupting what the caller already had, and the objects can still be freed: a record whose addition to a trace list fails is in the list either wholly or not at all. Reading that was told to skip what is not data may skip a record there was no memory for. Pre-allocation settings change memory use only, never results.",
 ["fault_sequences", "histories"], "all operations on all generated inputs, with every allocation made to fail in turn; all pre-allocation block sizes",
 "No test injects allocation failures or counts allocations.",
 [L+"genutils.c", L+"parseutils.c", L+"pack.c", L+"unpack.c", L+"tracelist.c", L+"fileutils.c", L+"extraheaders.c", L+"selection.c", L+"logging.c"],
 [("caller-supplied allocator", L+"libmseed.h:1345-1402"), ("error paths of each operation", L+"*.c"), ("pre-allocation", L+"genutils.c:47-100")],
 ["allocation balance through the allocator table, return codes"])

prop("P20", "Logged messages are delivered once, in order, complete and bounded",
 "Each message reaches the configured output for its level exactly once, with the configured prefix and the formatted text up to the documented limit, as one string that never exceeds its buffer. With the registry on, warnings and errors are retained in order up to the configured maximum, the oldest being dropped first, and are emitted in the order and number requested and then gone; freeing removes them all. Separate logging parameters do not affect each other.",
 ["histories", "configurations"], "all sequences of configuration, logging, emitting and clearing with messages of any length and level",
 "Tests log a few short messages; long messages, limits of the registry and interleavings are histories.",
 [L+"logging.c"],
 [("configuration", L+"logging.c:92-230"), ("formatting", L+"logging.c:258-440"), ("registry", L+"logging.c:443-657")],
 ["calls of the print functions, registry contents"], [("registry list", "retained messages and their count", L+"logging.c:443-510")])

prop("P21", "Converting sample types never changes a value without saying so",
 "Converting a segment's samples to integer, float or double yields for each sample the value that type assigns to it, rounding floating values to the nearest integer only when truncation was allowed and failing otherwise if any fraction would be lost. A failed conversion leaves the samples, their type and count unchanged and usable. Converting to a type that can hold the values and back restores the original values.",
 ["inputs"], "all sample arrays of every type, conversion targets and truncation choices",
 "Tests convert one short positive series; negative values, halves, limits and failures in mid-array are not covered.",
 [L+"tracelist.c"],
 [("conversion", L+"tracelist.c:1373-1515"), ("buffer trimming", L+"tracelist.c:1523-1590")],
 ["segment samples, type, sizes, return code"])

prop("P22", "Reading from a URL gives what reading the same bytes from a file gives",
 "Records and trace lists read from a URL are those that reading the same bytes from a file returns, with the same offsets and return codes, however the server delivers them: in pieces of any size, with or without a stated length, after redirects, and whether or not it honours a requested byte range. The requested range, added headers, user agent and credentials are what the server is sent. A server that cannot be reached, answers with an error status, or breaks off a transfer leads to an error and a message, never to a regular end of the data. The inspection program's listings and exit status follow the same rules.",
 ["inputs", "fault_sequences", "configurations"], "all files, delivery schedules, byte ranges, response codes and points at which a transfer breaks off",
 "The tests are not allowed a network and never read a URL.",
 [L+"msio.c", L+"fileutils.c", "src/msi.c"],
 [("opening and requesting", L+"msio.c:170-420"), ("receiving", L+"msio.c:30-150,490-620"), ("request settings", L+"msio.c:680-960"), ("record scanning", L+"fileutils.c:257-580"), ("-H and -u options", "src/msi.c:388-760")],
 ["records, offsets, return codes, messages, the requests a server receives"], [("transfer state", "paused, running, finished or failed transfer", L+"msio.c:490-620")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
