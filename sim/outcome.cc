#include "outcome.h"
#include "exceptions.h"
#include "reader_factory.h"
#include "ssa_reader.h"
#include "stl_binary_reader.h"
#include "stl_binary_writer.h"
#include "stl_text_reader.h"
#include "subrip_reader.h"
#include "util.h"
#include "web_vtt_reader.h"
#include <boost/lexical_cast.hpp>
#include <charconv>
#include <ios>
#include <sstream>

using std::string;

namespace sim {

string esc(string const& s)
{
	Value v(s);
	return v.json();
}

static string num(double d)
{
	char b[64];
	auto r = std::to_chars(b, b + sizeof b, d, std::chars_format::general, 9);
	return string(b, r.ptr);
}

static string show(sub::Time const& t)
{
	std::ostringstream os;
	os.imbue(std::locale::classic());
	os << t;
	return os.str();
}

static string show(sub::Colour const& c) { return num(c.r) + "/" + num(c.g) + "/" + num(c.b); }

static string show(sub::VerticalPosition const& v)
{
	string r = "v(";
	if (v.proportional) r += "p" + num(*v.proportional);
	if (v.line) r += " l" + std::to_string(*v.line);
	if (v.lines) r += " of " + std::to_string(*v.lines);
	if (v.reference) r += " ref" + std::to_string(int(*v.reference));
	return r + ")";
}

static string show(sub::HorizontalPosition const& h) { return "h(" + std::to_string(int(h.reference)) + " " + num(h.proportional) + ")"; }

template <class T> static string show_style(T const& b)
{
	string r = esc(b.text);
	if (b.font) r += " font" + esc(*b.font);
	if (b.font_size.proportional()) r += " fp" + num(*b.font_size.proportional());
	if (b.font_size.points()) r += " pt" + std::to_string(*b.font_size.points());
	if (b.effect) r += " eff" + std::to_string(int(*b.effect));
	if (b.effect_colour) r += " effcol" + show(*b.effect_colour);
	r += " col" + show(b.colour);
	if (b.bold) r += " B";
	if (b.italic) r += " I";
	if (b.underline) r += " U";
	return r;
}

string show(sub::RawSubtitle const& s)
{
	string r = show_style(s) + " " + show(s.horizontal_position) + " " + show(s.vertical_position) + " " + show(s.from) + " -> " + show(s.to);
	if (s.fade_up) r += " up" + show(*s.fade_up);
	if (s.fade_down) r += " down" + show(*s.fade_down);
	return r;
}

string show(sub::Subtitle const& s)
{
	string r = show(s.from) + " -> " + show(s.to);
	if (s.fade_up) r += " up" + show(*s.fade_up);
	if (s.fade_down) r += " down" + show(*s.fade_down);
	for (auto const& l: s.lines) {
		r += "\n  line " + show(l.horizontal_position) + " " + show(l.vertical_position);
		for (auto const& b: l.blocks) r += "\n    " + show_style(b);
	}
	return r;
}

string Outcome::canon(bool with_errors) const
{
	AllocPause p;
	string r = kind + "\n";
	if (with_errors) {
		if (!ok()) r += "what " + esc(what) + "\n";
		if (line >= 0) r += "line " + std::to_string(line) + "\n";
	}
	if (no_reader) r += "no reader\n";
	for (auto const& x: raws) r += "raw " + show(x) + "\n";
	for (auto const& x: meta) r += "meta " + x.first + "=" + esc(x.second) + "\n";
	r += header;
	if (collected) for (auto const& x: subs) r += "sub " + show(x) + "\n";
	if (dumped) r += "dump " + esc(dump) + "\n";
	return r;
}

void describe_exception(Outcome& o)
{
	AllocPause p;
	try {
		throw;
	} catch (sub::WebVTTHeaderError& e) {
		o.kind = "WebVTTHeaderError"; o.what = e.what();
	} catch (sub::WebVTTError& e) {
		o.kind = "WebVTTError"; o.what = e.what();
		for (auto const& i: e.context()) o.context.push_back(i);
	} catch (sub::SubripError& e) {
		o.kind = "SubripError"; o.what = e.what(); o.line = e.line_number();
		for (auto const& i: e.context()) o.context.push_back(i);
	} catch (sub::SSAError& e) {
		o.kind = "SSAError"; o.what = e.what();
	} catch (sub::STLError& e) {
		o.kind = "STLError"; o.what = e.what();
	} catch (sub::XMLError& e) {
		o.kind = "XMLError"; o.what = e.what();
	} catch (sub::UnknownFrameRateError& e) {
		o.kind = "UnknownFrameRateError"; o.what = e.what();
	} catch (sub::ProgrammingError& e) {
		o.kind = "ProgrammingError"; o.what = e.what();
	} catch (std::bad_alloc& e) {
		o.kind = "bad_alloc"; o.what = "";
	} catch (boost::bad_lexical_cast& e) {
		o.kind = "bad_lexical_cast"; o.what = e.what();
	} catch (std::ios_base::failure& e) {
		o.kind = "ios_failure"; o.what = e.what();
	} catch (std::exception& e) {
		o.kind = "exception"; o.what = e.what();
	} catch (...) {
		o.kind = "non-standard exception";
	}
}

static string header_of(sub::STLBinaryReader const& r)
{
	AllocPause p;
	string h;
	auto i = [&](char const* n, long v) { h += string("field ") + n + "=" + std::to_string(v) + "\n"; };
	auto s = [&](char const* n, string const& v) { h += string("field ") + n + "=" + esc(v) + "\n"; };
	i("code_page_number", r.code_page_number);
	i("frame_rate", r.frame_rate);
	i("display_standard", r.display_standard);
	i("language_group", r.language_group);
	i("language", r.language);
	s("original_programme_title", r.original_programme_title);
	s("original_episode_title", r.original_episode_title);
	s("translated_programme_title", r.translated_programme_title);
	s("translated_episode_title", r.translated_episode_title);
	s("translator_name", r.translator_name);
	s("translator_contact_details", r.translator_contact_details);
	s("subtitle_list_reference_code", r.subtitle_list_reference_code);
	s("creation_date", r.creation_date);
	s("revision_date", r.revision_date);
	s("revision_number", r.revision_number);
	i("tti_blocks", r.tti_blocks);
	i("number_of_subtitles", r.number_of_subtitles);
	i("subtitle_groups", r.subtitle_groups);
	i("maximum_characters", r.maximum_characters);
	i("maximum_rows", r.maximum_rows);
	i("timecode_status", r.timecode_status);
	s("start_of_programme", r.start_of_programme);
	s("first_in_cue", r.first_in_cue);
	i("disks", r.disks);
	i("disk_sequence_number", r.disk_sequence_number);
	s("country_of_origin", r.country_of_origin);
	s("publisher", r.publisher);
	s("editor_name", r.editor_name);
	s("editor_contact_details", r.editor_contact_details);
	return h;
}

/// what a caller does with a reader
void use(Outcome& o, std::shared_ptr<sub::Reader> r, int flags)
{
	o.reader = r;
	if (flags & UNUSED) { o.kind = "ok"; return; }
	o.raws = r->subtitles();
	o.meta = r->metadata();
	if (auto b = std::dynamic_pointer_cast<sub::STLBinaryReader>(r)) o.header = header_of(*b);
	if (flags & 1) {
		o.subs = sub::collect<std::vector<sub::Subtitle>>(r->subtitles());
		o.collected = true;
	}
	if (flags & 2) {
		std::ostringstream os;
		os.imbue(std::locale::classic());
		sub::dump(r, os);
		if (!os) throw std::runtime_error("output stream failed");
		o.dump = os.str();
		o.dumped = true;
	}
	o.kind = "ok";
}

static void clear_results(Outcome& o)
{
	o.raws.clear(); o.subs.clear(); o.meta.clear(); o.header.clear(); o.dump.clear();
	o.collected = o.dumped = false;
}

Outcome do_read(string const& fmt, string const& bytes, Value const& src, int flags)
{
	Outcome o;
	string const kind = src["kind"].str_or("mem");
	trace("read op", long(fmt.size()), long(bytes.size()));
	std::unique_ptr<FileSource> fs;
	std::unique_ptr<StreamSource> ss;
	{
		AllocPause p;
		bool const stl = fmt.compare(0, 3, "stl") == 0;
		if (kind == "file" && fmt != "stltext") {
			fs.reset(new FileSource(bytes, src));
		} else if (stl) {
			ss.reset(new StreamSource(bytes, src));
		}
	}
	try {
		AllocResume resume;
		std::shared_ptr<sub::Reader> r;
		if (fmt == "srt") {
			if (fs) r.reset(new sub::SubripReader(fs->file())); else r.reset(new sub::SubripReader(bytes));
		} else if (fmt == "vtt") {
			if (fs) r.reset(new sub::WebVTTReader(fs->file())); else r.reset(new sub::WebVTTReader(bytes));
		} else if (fmt == "ssa") {
			if (fs) r.reset(new sub::SSAReader(fs->file())); else r.reset(new sub::SSAReader(bytes));
		} else if (fmt == "stltext") {
			r.reset(new sub::STLTextReader(ss->stream()));
		} else {
			if (fs) r.reset(new sub::STLBinaryReader(fs->file())); else r.reset(new sub::STLBinaryReader(ss->stream()));
		}
		use(o, r, flags);
	} catch (...) {
		describe_exception(o);
		clear_results(o);
	}
	Delivery* d = fs ? &fs->delivery : ss ? &ss->delivery() : nullptr;
	if (d) { o.fired = d->fired; o.fired_permanent = d->fired_permanent; o.first_at = d->first_at; }
	AllocPause p;
	fs.reset();
	ss.reset();
	return o;
}

Outcome do_read_name(string const& path, int flags)
{
	Outcome o;
	try {
		AllocResume resume;
		auto r = sub::reader_factory(path);
		if (r) {
			use(o, r, flags);
		} else {
			o.no_reader = true;
			o.kind = "ok";
		}
	} catch (...) {
		describe_exception(o);
		clear_results(o);
	}
	AllocPause p;
	if (auto c = find_config(path)) {
		o.fired = c->read.fired || c->open_failed;
		o.fired_permanent = c->read.fired_permanent || c->open_failed;
		o.first_at = c->read.first_at;
	}
	return o;
}

Outcome do_write(WriteJob const& j, string const& path)
{
	Outcome o;
	try {
		AllocResume resume;
		sub::write_stl_binary(j.subs, j.fps, j.language, j.opt, j.oet, j.tpt, j.tet, j.tn, j.tcd, j.cd, j.rd, j.rn, j.country, j.publisher, j.en, j.ecd, path);
		o.kind = "ok";
	} catch (...) {
		describe_exception(o);
	}
	return o;
}

}
