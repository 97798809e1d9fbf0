#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the texts live here so that they can be edited in one place)."""
import json, os
P = []

def prop(id, title, statement, over, quant, why, files, mechanism, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": quant},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in (state or [])],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
            "observe_at": observe or [],
            "hook_needed": hook,
        },
    })

prop("C01", "SubRip cues arrive complete and exact however the bytes are delivered",
 "Reading a well-formed SubRip document returns every cue exactly once, in document order, with its start and end times to the millisecond, its text lines (of any length, numbered from 0 within the cue, UTF-8 unchanged apart from removed markup and right-to-left-embedding marks) and the bold, italic, underline, colour and alignment its markup gives each run of text, with nothing carried over into the next cue. "
 "Collecting the result gives one subtitle per cue with one line per text line, ordered by start time. "
 "This holds for any byte-order mark, LF or CRLF endings, blank lines between cues, missing final newline, U+2028 line separators, and for any pattern in which the bytes arrive (short reads, tiny buffers, interleaving with other readers).",
 ["inputs", "schedules"],
 "every well-formed SubRip document x every way of delivering its bytes (memory, FILE*, by name; chunk sizes, stdio buffer sizes) x every interleaving with other readers at I/O points",
 "The tests read four small files and about fifteen single lines, each from a regular file in one gulp or through a private entry point; no test has a line over 255 bytes, a font tag that spans lines, a split delivery or a second reader.",
 ["src/subrip_reader.cc", "src/subrip_reader.h", "src/util.cc", "src/ssa_reader.cc", "src/colour.cc", "src/collect.h", "src/sub_time.cc", "src/subtitle.cc"],
 [("line state machine COUNTER/METADATA/CONTENT", "src/subrip_reader.cc read()"), ("markup scanner and colour stack", "src/subrip_reader.cc convert_line()"), ("line source", "src/util.cc get_line_file(), get_line_string()"), ("grouping", "src/collect.h")],
 [("state, rs", "current cue being assembled", "src/subrip_reader.cc read()")],
 ["Reader::subtitles()", "collect()"])

prop("C02", "WebVTT cues arrive complete and exact however the bytes are delivered",
 "Reading a well-formed WebVTT document returns every cue exactly once, in document order, with its start and end times to the millisecond and its text lines verbatim, numbered from 0 within the cue; header metadata, cue identifiers, cue settings and NOTE blocks contribute nothing. "
 "Collecting the result gives one subtitle per cue with one line per text line, ordered by start time. "
 "This holds for any byte-order mark, LF or CRLF endings, line length, missing final newline, U+2028 line separators, and for any pattern in which the bytes arrive.",
 ["inputs", "schedules"],
 "every well-formed WebVTT document (times with or without hours; any number of settings) x every way of delivering its bytes x interleavings with other readers at I/O points",
 "One test reads one two-cue file; it has no NOTE, no identifier, no settings, no long line and one delivery pattern.",
 ["src/web_vtt_reader.cc", "src/subrip_reader.cc", "src/util.cc", "src/collect.h"],
 [("line state machine HEADER/DATA/SUBTITLE/NOTE", "src/web_vtt_reader.cc read()"), ("time parsing", "src/subrip_reader.cc convert_time()")],
 None, ["Reader::subtitles()", "collect()"])

prop("C03", "SSA/ASS dialogue arrives complete and exact however the bytes are delivered",
 "Reading a well-formed SSA or ASS script returns the text of every Dialogue line, in script order and split at style changes and line breaks, with its start and end times to the centisecond and with the font, size, colours, bold, italic, underline, effect, alignment, margins and resulting screen position given by its style (the named one, else Default), its own non-zero margins and the supported override tags (i, b, u, an, pos, fs, c); \\N and \\n break lines, \\h is a non-breaking space, and other backslashes stand for themselves; other override tags, comments, unknown fields and other sections change nothing. "
 "The order in which a Format line declares the columns (style before margins, text last), commas in the text, comment lines, byte-order mark, line endings and line length do not matter, and neither does the pattern in which the bytes arrive.",
 ["inputs", "schedules"],
 "every well-formed script (numpad alignments, Style column before margin columns before Text) x every way of delivering its bytes x interleavings with other readers at I/O points",
 "The tests that run here read four files with at most a dozen lines of dialogue and a handful of single lines; column orders, margins such as 0000, unknown tags, long lines and split deliveries are not reached.",
 ["src/ssa_reader.cc", "src/ssa_reader.h", "src/util.cc", "src/raw_convert.cc", "src/locale_convert.cc", "src/font_size.cc"],
 [("section/Format/Style/Dialogue parsing", "src/ssa_reader.cc read()"), ("override tags and positions", "src/ssa_reader.cc parse_line(), parse_tag()")],
 [("styles", "styles by name", "src/ssa_reader.cc read()")],
 ["Reader::subtitles()", "collect()"])

prop("C04", "Textual STL subtitles arrive complete and exact however bytes are delivered",
 "Reading a well-formed textual STL document returns every subtitle exactly once, in document order, with its exact in and out timecodes whatever the spacing around the commas, its text split at line breaks with lines numbered from 0 within that subtitle, and the bold, italic, underline, font name and font size in force for each run of text given the settings and toggles seen so far; comments and unrecognised lines contribute nothing. "
 "This holds for LF or CRLF endings, with or without a final newline, for any line length and for any pattern in which the bytes arrive.",
 ["inputs", "schedules"],
 "every well-formed textual STL document x every way of delivering its bytes through an input stream or by name",
 "One test reads one file with two subtitles of at most two lines, each line terminated and each comma surrounded by spaces.",
 ["src/stl_text_reader.cc", "src/stl_text_reader.h"],
 [("line loop, settings, toggles", "src/stl_text_reader.cc STLTextReader()"), ("pushing of runs", "src/stl_text_reader.cc maybe_push()")],
 [("_subtitle", "settings and toggles carried from line to line", "src/stl_text_reader.h")],
 ["Reader::subtitles()", "collect()"])

prop("C05", "Binary EBU STL files are decoded exactly however the bytes are delivered",
 "Reading a well-formed binary EBU STL file returns every header field as stored and, for every subtitle that is not a comment, its text decoded from ISO 6937 to UTF-8 line by line with in and out times, row, justification, colour, italic and underline; text continued in extension blocks belongs to the same subtitle, user-data blocks contribute nothing, and rows beyond the declared screen are shifted uniformly onto it. "
 "It makes no difference whether the bytes come through a stream, a FILE* or a file name, or in what pieces they arrive.",
 ["inputs", "schedules"],
 "every well-formed binary STL file (Latin code table) x every way of delivering its bytes x interleavings with other readers at I/O points",
 "All four tests of this reader need private files that are not in the repository, so nothing of it is exercised by the tests that run.",
 ["src/stl_binary_reader.cc", "src/stl_binary_reader.h", "src/stl_binary_tables.cc", "src/iso6937.cc", "src/iso6937_tables.cc", "src/stl_util.cc"],
 [("block loop and control codes", "src/stl_binary_reader.cc read()"), ("code tables", "src/stl_binary_tables.cc"), ("character decoding", "src/iso6937.cc")],
 [("public header fields", "GSI block contents", "src/stl_binary_reader.h")],
 ["Reader::subtitles()", "Reader::metadata()"])

prop("C06", "What is written as binary STL reads back as the same subtitles",
 "Subtitles written as binary EBU STL and read back from storage have the same number and order of subtitles, the same in and out times to the nearest frame, the same lines of text at the same rows, the same italic and underline on every character, the same justification and the same programme details (language, titles, dates, names), whatever the length of the text. "
 "Characters which ISO 6937 lacks become the nearest that it has or are left out, a letter followed by a combining accent becomes the accented letter, and no two lines run together: lines meant for the same row go on successive ones, and lines off the screen go to its edge. This covers times under 24 hours with a known rate and the frame rates the writer accepts (23.976, 24, 25, 30); a subtitle too long for the format, or more subtitles than its header can count, is reported as an error. "
 "An independent decoder of the format sees the same content in the bytes as the library's own reader does.",
 ["inputs", "histories", "schedules"],
 "every list of subtitles in the stated domain x every legal pattern of short writes and short reads x every earlier content of the target file",
 "One test writes one file of two subtitles and never looks at the result; there is no round trip at all.",
 ["src/stl_binary_writer.cc", "src/stl_binary_reader.cc", "src/iso6937.cc", "src/iso6937_tables.cc", "src/stl_binary_tables.cc", "src/stl_util.cc", "src/sub_time.cc"],
 [("TTI block construction", "src/stl_binary_writer.cc make_tti_blocks()"), ("GSI block", "src/stl_binary_writer.cc write_stl_binary()"), ("decoding", "src/stl_binary_reader.cc read()")],
 None, ["bytes on storage", "Reader::subtitles()", "Reader::metadata()"])

prop("C07", "A binary STL write succeeds only if the whole file was stored",
 "Writing a binary STL file returns normally only if every byte of the complete file has been accepted by storage and the file closed without error; if opening, any write or the close fails, the caller gets an exception. "
 "Short and interrupted writes are completed, an older file of any size at the same name is fully replaced, and what a failed or killed write leaves behind is a leading part of the intended file. "
 "Such a torn file is never accepted as a complete one: reading it as binary STL either reports an error or returns every subtitle.",
 ["fault_sequences", "crash_points", "inputs"],
 "every set of subtitles x every open/write/close failure (no space, I/O error, permission, too many files) at every byte offset x every kill point between system calls",
 "The only writer test writes to a healthy disk and does not check the outcome.",
 ["src/stl_binary_writer.cc", "src/stl_binary_reader.cc"],
 [("output stream state check", "src/stl_binary_writer.cc write_stl_binary()"), ("declared block count checked while reading", "src/stl_binary_reader.cc read()")],
 None, ["exception or return of the writer", "bytes on storage", "reader run after the failure"])

prop("C08", "A read failure is never mistaken for the end of the document",
 "If storage or the input stream fails while a document is being read (an I/O error, an interrupted or timed-out read, at any byte), the reader reports an exception; it never returns normally with subtitles missing or text cut. "
 "If it does return normally after a failure that cleared by itself, the result is the one for the whole document.",
 ["fault_sequences", "inputs", "schedules"],
 "every supported format x every source kind (FILE*, stream, by name) x every failing read call, transient or permanent",
 "No test injects a read failure; every test source is a healthy regular file or string.",
 ["src/util.cc", "src/subrip_reader.cc", "src/ssa_reader.cc", "src/web_vtt_reader.cc", "src/stl_text_reader.cc", "src/stl_binary_reader.cc", "src/reader_factory.cc"],
 [("line source error check", "src/util.cc get_line_file()"), ("stream error check", "src/stl_text_reader.cc"), ("short block check", "src/stl_binary_reader.cc InputReader::read()")],
 None, ["exception or return of the reader constructor / factory"])

prop("C09", "A cut document yields its complete cues or an error, nothing invented",
 "If a document ends early at any byte (a cut transfer, a writer that died), then for the text formats every cue that was complete before the cut is returned exactly as it would be from the whole document, the cue being cut contributes at most the leading part of its text, and nothing else appears; the only alternative is a reported error, and none is reported when the cut falls between cues or in plain text. "
 "A binary STL file cut before its declared end is always reported as an error.",
 ["crash_points", "inputs"],
 "every well-formed document of every format x every cut offset x every source kind and delivery pattern",
 "No test reads an incomplete document.",
 ["src/subrip_reader.cc", "src/ssa_reader.cc", "src/web_vtt_reader.cc", "src/stl_text_reader.cc", "src/stl_binary_reader.cc", "src/util.cc"],
 [("line-at-a-time state machines", "each reader's read()"), ("block completeness check", "src/stl_binary_reader.cc")],
 None, ["Reader::subtitles()", "exceptions"])

prop("C10", "Damaged bytes are contained: result or exception, never a crash or hang",
 "Whatever bytes have been changed, inserted, dropped, duplicated or zeroed in a document of any supported format, reading it, collecting and dumping the result finishes, either normally or with an exception derived from std::exception. "
 "It never crashes, hangs, or touches memory that is not its own, and the library works normally afterwards.",
 ["fault_sequences", "inputs"],
 "every document of every format x every sequence of stored-byte damage (flip, overwrite, insert, delete, duplicate, zero a range) x source kind",
 "The tests only read intact files.",
 ["src/subrip_reader.cc", "src/ssa_reader.cc", "src/web_vtt_reader.cc", "src/stl_text_reader.cc", "src/stl_binary_reader.cc", "src/iso6937.cc", "src/util.cc"],
 [("validation and exceptions", "each reader"), ("undefined-code handling", "src/iso6937.cc")],
 None, ["process state under AddressSanitizer, UBSan and libstdc++ assertions"])

prop("C11", "Running out of memory fails cleanly and leaves the library usable",
 "If any memory allocation fails during a read, a collect, a dump or a write, the caller gets an exception (or, where the library could do without it, the normal result) and never a crash or a wrong result. "
 "Afterwards the same and any other operation, with memory available, behaves exactly as it would have in a fresh process.",
 ["fault_sequences", "histories"],
 "every operation on every format x every single or persistent allocation failure at every allocation index x every following operation",
 "No test makes an allocation fail.",
 ["src/iso6937.cc", "src/iso6937_tables.cc", "src/stl_binary_writer.cc", "src/stl_binary_reader.cc", "src/reader_factory.cc", "src/subrip_reader.cc", "src/ssa_reader.cc"],
 [("lazily built conversion tables", "src/iso6937.cc"), ("exception-safe containers", "all readers")],
 [("conversion tables", "process-wide, built on first use", "src/iso6937_tables.cc")],
 ["exception or return", "results of following operations"])

prop("C12", "Every outcome gives back the files and memory the operation took",
 "Opening by name, reading, dumping or writing leaves no file open and no memory held beyond the objects handed to the caller, whether it succeeds, rejects the document, hits an I/O error or runs out of memory; repeating the operation any number of times does not grow what the process holds.",
 ["fault_sequences", "histories"],
 "every operation on every format, by name or from a caller's source x success, malformed input, I/O failure and allocation failure at every point",
 "No test counts descriptors or allocations, and only success paths are run.",
 ["src/reader_factory.cc", "src/stl_binary_writer.cc", "src/stl_binary_reader.cc"],
 [("file handle ownership", "src/reader_factory.cc"), ("block buffers", "src/stl_binary_writer.cc"), ("input buffer", "src/stl_binary_reader.cc InputReader")],
 None, ["open descriptors", "live allocations"])

prop("C13", "Threads do not affect each other on separate documents or one finished reader",
 "Threads that read, collect, dump or write separate documents at the same time each get exactly the result they would get running alone, under every interleaving, including when the very first uses of the library coincide; so do threads which only query, collect or dump what one finished reader has read. "
 "They never access shared memory without synchronisation.",
 ["schedules", "inputs"],
 "every assignment of operations on distinct objects, or const operations on one reader, to 2-4 threads x every interleaving at the granularity of memory accesses",
 "All tests are single-threaded, and the test program builds the shared tables before any test runs.",
 ["src/iso6937.cc", "src/iso6937_tables.cc", "src/stl_binary_reader.cc", "src/stl_binary_writer.cc", "src/subrip_reader.cc", "src/ssa_reader.cc", "src/stl_binary_tables.cc"],
 [("one-time table construction", "src/iso6937.cc"), ("no mutable globals elsewhere", "all of src/")],
 [("conversion tables", "process-wide", "src/iso6937_tables.cc")],
 ["results per thread", "conflicting memory accesses"])

prop("C14", "An operation's result does not depend on what the process did before",
 "The outcome of reading or writing a document (subtitles, header details, exception and its message, bytes written) is the same in a fresh process and after any history of earlier operations on other documents, including failed, rejected and interrupted ones. "
 "Results already handed out never change afterwards.",
 ["histories", "fault_sequences"],
 "every operation x every sequence of up to a dozen earlier operations of any kind, format and outcome",
 "Each stable test is run in a process of its own on one document.",
 ["src/iso6937.cc", "src/iso6937_tables.cc", "src/subrip_reader.cc", "src/ssa_reader.cc", "src/stl_binary_reader.cc", "src/stl_binary_writer.cc", "src/raw_convert.cc"],
 [("no state outside the reader object", "all readers"), ("read-only conversion tables", "src/iso6937.cc")],
 [("conversion tables", "process-wide", "src/iso6937_tables.cc")],
 ["outcome records compared with a fresh process"])

prop("C15", "Results do not depend on the process locale",
 "The subtitles, numbers, header details and bytes that reading and writing produce are the same in every UTF-8 locale the process may have set, through the C or the C++ interface, whatever its decimal point, digit grouping or letter-case rules, and also when the locale changes between or during operations.",
 ["configurations", "histories", "inputs"],
 "every operation x every locale (decimal comma, various groupings, Turkish case rules) x every point at which the application switches locale between I/O calls",
 "The tests run in the C locale only.",
 ["src/raw_convert.cc", "src/locale_convert.cc", "src/stl_binary_reader.cc", "src/stl_binary_writer.cc", "src/subrip_reader.cc", "src/ssa_reader.cc", "src/reader_factory.cc"],
 [("conversion to and from the locale's number format", "src/raw_convert.cc"), ("case-insensitive tag match", "src/subrip_reader.cc")],
 None, ["outcome records compared with the C locale"])

prop("C16", "The same bytes give the same outcome from every kind of source",
 "For every sequence of bytes, well-formed or not, a reader's outcome (the subtitles, or the kind and text of the error it reports) is the same whether the bytes come from memory, from a FILE* or from a stream, and is the same for every way the source splits them into reads and every stdio buffer size.",
 ["inputs", "schedules"],
 "every byte sequence (well-formed, damaged, random, with NULs and very long lines) x every pair of deliveries",
 "Tests use one source per case and never compare two.",
 ["src/util.cc", "src/subrip_reader.cc", "src/ssa_reader.cc", "src/web_vtt_reader.cc", "src/stl_binary_reader.cc", "src/stl_text_reader.cc"],
 [("two line sources behind one parser", "src/util.cc get_line_file(), get_line_string()"), ("two block sources behind one parser", "src/stl_binary_reader.cc")],
 None, ["outcome records of the deliveries"])

prop("C17", "Opening by name picks the right format and reports files it cannot open",
 "Opening a file by name reads it with the format its name and header indicate (.srt as SubRip; .stl as binary or textual STL by header; letter case of the suffix ignored), gives no reader for other suffixes, and gives the same subtitles as handing the same bytes to that format's reader. "
 "A file that cannot be opened or whose header cannot be read is reported as an error, never as an empty document. "
 "The dump of the result, and the dumpsubs program, list every subtitle once, in order of start time, with its times, its lines and its italic and underline marks, and the program exits with success only then.",
 ["inputs", "fault_sequences", "configurations"],
 "every supported and unsupported name x every document x open failures, short reads of the header and read errors",
 "Neither opening by name nor the dump program has a test.",
 ["src/reader_factory.cc", "src/util.cc", "tools/dumpsubs.cc"],
 [("suffix and header check", "src/reader_factory.cc"), ("text rendering", "src/util.cc dump()"), ("exit status", "tools/dumpsubs.cc main()")],
 None, ["reader returned", "dump text", "exit status of the program"])

prop("C18", "A malformed SubRip or WebVTT document is rejected with a true error report",
 "A SubRip or WebVTT document whose timing line (the wrong number of parts), timestamp or colour is malformed, or a WebVTT document without its header, is rejected with the error type of that format; the error names what was found and what was expected, and for SubRip the number of the offending line. "
 "The report's context includes the offending line preceded by the lines just before it, as they stand in the document, however the bytes were delivered.",
 ["inputs", "schedules", "fault_sequences"],
 "every well-formed document with one malformation introduced at any cue x every way of delivering its bytes",
 "No running test reads a malformed document (the one that would needs a private file).",
 ["src/subrip_reader.cc", "src/web_vtt_reader.cc", "src/exceptions.cc", "src/exceptions.h"],
 [("line counting and context ring", "src/subrip_reader.cc read()"), ("error construction", "src/exceptions.cc")],
 [("_context", "last lines seen", "src/subrip_reader.h, src/web_vtt_reader.h")],
 ["exception type, message, line number and context"])

prop("C19", "Time arithmetic and conversion are exact",
 "Adding, scaling, comparing and converting times between frame rates gives the mathematically right value to the resolution of the result's rate, for all times and integer rates.",
 ["inputs"], "all times and rates",
 "Tests check a dozen values.",
 ["src/sub_time.cc", "src/rational.cc"], [("Time", "src/sub_time.cc")])

prop("C20", "Collecting arbitrary caller-made fragments conserves text and order",
 "Collecting any list of fragments made by a caller yields subtitles ordered by start time in which every fragment's text and style appears exactly once, fragments with the same times and vertical position that follow one another sharing a line.",
 ["inputs"], "all fragment lists",
 "Tests only collect what small files yield.",
 ["src/collect.h", "src/subtitle.cc", "src/raw_subtitle.cc", "src/vertical_position.cc"], [("collect()", "src/collect.h")])

prop("C21", "Vertical positions order consistently with their place on screen",
 "Comparing two vertical positions, each given as a proportion or as a line of so many from any reference point on the screen, orders them by their distance from the top of the screen.",
 ["inputs"], "all pairs of positions",
 "Tests check seven pairs.",
 ["src/vertical_position.cc"], [("operator<", "src/vertical_position.cc")])

prop("C22", "Documents converted to binary STL keep their text, times and emphasis",
 "Reading SubRip, WebVTT, SSA/ASS or binary STL documents, collecting their fragments (of one document, or of several together) and writing the result as binary STL stores every collected subtitle, in order of start time, with the times to the nearest frame at the chosen rate, its lines in order from the top of the screen (never run together), its italic and underlined characters, and the justification of its first line. "
 "Rows given by a binary STL document with 23 rows are kept; lines known only by their number within a subtitle, whatever alignment it asks for, keep their distances. "
 "It makes no difference how the sources and the target split the bytes, and reading the written file back gives what it says.",
 ["inputs", "histories", "schedules"],
 "every document or pair of documents (times under 24 hours, not starting together across documents) x every delivery of their bytes x every pattern of short writes x frame rates 24, 25, 30",
 "No test writes what a reader has read, nor collects fragments with times at different rates.",
 ["src/stl_binary_writer.cc", "src/collect.h", "src/sub_time.cc", "src/raw_subtitle.cc", "src/subtitle.cc", "src/subrip_reader.cc", "src/web_vtt_reader.cc", "src/ssa_reader.cc", "src/stl_binary_reader.cc", "src/iso6937.cc"],
 [("order of fragments", "src/sub_time.cc operator<, src/raw_subtitle.cc operator<"), ("grouping", "src/collect.h"), ("rows", "src/stl_binary_writer.cc make_tti_blocks(), vertical_position()")],
 None, ["bytes on storage", "Reader::subtitles() of the written file"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
