// Operations on libsub through its public interface, and what came of them.
#pragma once
#include "seam.h"
#include "collect.h"
#include "raw_subtitle.h"
#include "reader.h"
#include "stl_binary_tables.h"
#include "subtitle.h"
#include <map>
#include <string>
#include <vector>

namespace sim {

struct Outcome
{
	std::string kind;          ///< "ok" or the kind of exception
	std::string what;
	long line = -1;
	std::vector<std::string> context;
	bool no_reader = false;    ///< reader_factory gave nothing
	std::vector<sub::RawSubtitle> raws;
	std::vector<sub::Subtitle> subs;
	std::map<std::string, std::string> meta;
	std::string header;        ///< public header fields of a binary STL file
	std::string dump;
	bool collected = false, dumped = false;
	std::shared_ptr<sub::Reader> reader;   ///< the reader itself, if all went well
	// the source
	bool fired = false, fired_permanent = false;
	long first_at = -1;

	bool ok() const { return kind == "ok"; }
	/// everything observable, exactly
	std::string canon(bool with_errors = true) const;
};

/// fill in kind, what, ... from the exception being handled
void describe_exception(Outcome& o);

/// take all there is from a reader
/// flags for use(): 1 collects, 2 dumps; UNUSED only keeps the reader
enum { UNUSED = 8 };
void use(Outcome& o, std::shared_ptr<sub::Reader> r, int flags);

/** Read a document.
 *  @param fmt srt, vtt, ssa, stltext, stlbin
 *  @param src {"kind":"mem"|"file"|"stream", ...}
 *  @param flags 1: collect, 2: dump
 */
Outcome do_read(std::string const& fmt, std::string const& bytes, Value const& src, int flags = 3);
/// Read a file by name with reader_factory
Outcome do_read_name(std::string const& path, int flags = 3);

/// What to write to a binary STL file; see models.h for the form of the document
struct WriteJob
{
	std::vector<sub::Subtitle> subs;
	float fps = 25;
	sub::Language language = sub::LANGUAGE_UNKNOWN;
	std::string opt, oet, tpt, tet, tn, tcd, cd, rd;
	int rn = 0;
	std::string country, publisher, en, ecd;
};
Outcome do_write(WriteJob const& job, std::string const& path);

std::string esc(std::string const& s);
std::string show(sub::RawSubtitle const& r);
std::string show(sub::Subtitle const& s);

}
