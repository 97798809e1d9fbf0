// Executable reference models: abstract documents, how they look as bytes, and what reading them must give.
#pragma once
#include "outcome.h"
#include "rng.h"
#include "value.h"
#include <cstdint>
#include <map>
#include <sstream>
#include <string>
#include <vector>

namespace sim {

struct T { long h = 0, m = 0, s = 0, f = 0; long rate = 0; };   ///< rate 0: none known
bool same_time(T const& t, sub::Time const& a);
std::string show(T const& t);
inline T t_ms(long long ms) { T t; t.h = ms / 3600000; t.m = ms / 60000 % 60; t.s = ms / 1000 % 60; t.f = ms % 1000; t.rate = 1000; return t; }
double seconds(T const& t);

struct Col { double r = 1, g = 1, b = 1; };

long const NO_LINE = -99999;

/// An expected piece of text with its style and place
struct Run
{
	int cue = 0;
	std::string text;
	std::vector<size_t> ends;     ///< offset in the document just after each byte of text
	std::string font; bool has_font = false;
	double fprop = -1; long fpts = -1;
	int effect = -1;
	bool has_effcol = false; Col effcol;
	Col col;
	bool b = false, i = false, u = false;
	int href = sub::HORIZONTAL_CENTRE_OF_SCREEN; double hprop = 0;
	int vref = -1;
	bool has_vprop = false; double vprop = 0;
	long vline = NO_LINE, vlines = NO_LINE;
	T from, to;
	// SSA: position depends on how many lines the cue has
	bool ssa_pos = false; double ssa_margin = 0, ssa_ls = 0; int ssa_line = 0;
};

/// what the bytes of a document are
struct Seg { enum Kind { STRUCT, SAFE, TEXT, MARK, EOL } kind; size_t start, end; int cue; };

struct Doc
{
	std::string fmt;
	bool valid = true;
	std::string why;
	std::string bytes;
	std::vector<Seg> segs;
	std::vector<Run> runs;
	std::vector<std::vector<size_t>> breaks;   ///< SSA: per cue, offsets just after line breaks
	std::map<std::string, std::string> meta;   ///< binary STL: expected metadata()
	std::vector<std::pair<std::string, std::string>> fields;   ///< binary STL: expected public fields, as text
	int cues = 0;
	bool raw_only = false;   ///< only what the reader makes of it is known exactly, not what collect() does

	void invalid(std::string w) { if (valid) { valid = false; why = w; } }
	void emit(std::string const& s, Seg::Kind k, int cue = -1);
	/// lines of the document without their ends and byte-order mark
	std::vector<std::string> lines() const;
};

/// @param v {"fmt":"srt"|"vtt"|"ssa"|"stltext"|"stlbin", ...}
Doc build(Value const& v);
/// knobs: "big" long lines, "many" many cues, "binary_ok" ...
Value gen_doc(Rng& r, std::string const& fmt);

Doc build_srt(Value const& v);
Doc build_vtt(Value const& v);
Doc build_ssa(Value const& v);
Doc build_stltext(Value const& v);
Doc build_stlbin(Value const& v);
Value gen_srt(Rng& r);
Value gen_vtt(Rng& r);
Value gen_ssa(Rng& r);
Value gen_stltext(Rng& r);
Value gen_stlbin(Rng& r);

/// random text with no line breaks and none of some characters, n characters long
std::string gen_text(Rng& r, long n, std::string const& exclude);
/// a length in characters: mostly short, sometimes just around the size of some buffer
long gen_length(Rng& r);
long gen_any_length(Rng& r);
/// a piece of text cut into at most m pieces
bool starts(std::string const& s, size_t at, char const* what);
std::string replace(std::string s, std::string const& a, std::string const& b);
/// append text to a run, noting where each byte ends
void add_text(Doc& d, Run& r, std::string const& s);
std::string line_end(Value const& doc, size_t n);
std::string fmt(char const* f, ...) __attribute__((format(printf, 1, 2)));
Value gen_times(Rng& r, long n, long long unit_per_second, long long max_seconds, bool distinct = false);

/// merge neighbours with the same style and place; drop those with no text
std::vector<Run> canonical(std::vector<Run> const& r);
std::vector<sub::RawSubtitle> canonical(std::vector<sub::RawSubtitle> const& r);
/// @return "" or a description of the first difference
std::string compare(std::vector<Run> const& expected, std::vector<sub::RawSubtitle> const& actual);
/// what collect() must make of some fragments, compared with what it did
std::string compare_collected(std::vector<Run> const& expected, std::vector<sub::Subtitle> const& actual);
/// the dump that a document must give
std::string expected_dump(Doc const& d);
std::string compare_dump(Doc const& d, std::string const& actual);
std::string compare_header(Doc const& d, Outcome const& o);
/// everything about a read of a whole document
std::string compare_read(Doc const& d, Outcome const& o);

/// expected runs if the document stops at offset k. @param exact set if no error may be reported
std::vector<Run> cut_runs(Doc const& d, size_t k, bool& exact);
/// @return "" if an outcome is right for a document cut at k
std::string compare_cut(Doc const& d, size_t k, Outcome const& o);

//---- binary STL writing --------------------------------------------------------------------------
/// {"fps":25,"lang":9,...,"subs":[..]}
Value gen_write(Rng& r);
Value with_long_subtitle(Rng& r, Value v);
WriteJob build_write(Value const& v, bool& valid);
/// an independent decoder
struct Decoded
{
	bool ok = false;
	std::string why;
	std::map<std::string, std::string> fields;
	struct Ch { std::string c; bool i, u; int col; bool operator==(Ch const& o) const { return c == o.c && i == o.i && u == o.u; } };
	struct Line { long row; std::vector<Ch> chars; };
	/// what is known of the rows: each one, only how far they are apart, only their order, nothing, or not even where lines begin
	enum Rows { EXACT, APART, ORDER, ANY, RUN_ON };
	struct Sub
	{
		T from, to;
		T from_alt, to_alt;   ///< as good, if they have a rate
		long jc = 0;          ///< 0 for anything
		Rows rows = EXACT;
		/// rows that the first and the last lines may be on
		long first_min = -1000, first_max = 1000, last_min = -1000;
		std::vector<Line> lines;
	};
	std::vector<Sub> subs;
};
Decoded decode_stl(std::string const& bytes);
/// what should be in the file
Decoded expect_written(Value const& v);
/// what the library is to read from a file with this in it
Decoded as_read(Decoded d);
/// @return true if a job has a subtitle too long for the format
bool too_long(Value const& v);
/// pieces as collect() must arrange them: subtitles, then lines, then pieces
bool shared_places(std::vector<Run> const& r);
std::vector<std::vector<std::vector<Run>>> collected(std::vector<Run> const& r);
/** what some documents, read, collected together and written, must come to
 *  @param header what is to be in the header
 */
Decoded expect_converted(std::vector<Doc const*> docs, Value const& header);
/// leave out subtitles in which there is nothing
Decoded without_empty(Decoded d);
std::string compare_decoded(Decoded const& e, Decoded const& a, bool header = true);
/// what the library read, in the same form
Decoded from_read(Outcome const& o, long fps);

/// ISO 6937
std::string utf8(uint32_t c);
std::vector<uint32_t> utf8_decode(std::string const& s);
struct IsoCode { uint8_t dia, code; uint16_t u; };
std::vector<IsoCode> const& iso_table();

struct LangCode { char const* code; int value; char const* name; };
std::vector<LangCode> const& languages();

}
