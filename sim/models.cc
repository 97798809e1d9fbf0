#include "models.h"
#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <cstring>

using std::string;
using std::vector;

namespace sim {

string fmt(char const* f, ...)
{
	char b[512];
	va_list a;
	va_start(a, f);
	vsnprintf(b, sizeof b, f, a);
	va_end(a);
	return b;
}

//---- small things ----------------------------------------------------------------------------------
string show(T const& t) { return fmt("%02ld:%02ld:%02ld:%ld", t.h, t.m, t.s, t.f) + (t.rate ? fmt(" @ %ld/1", t.rate) : string()); }
double seconds(T const& t) { return double(t.h * 3600 + t.m * 60 + t.s) + (t.rate ? double(t.f) / double(t.rate) : double(t.f) * 1e-6); }

static string show_time(sub::Time const& a)
{
	std::ostringstream os;
	os.imbue(std::locale::classic());
	os << a;
	return os.str();
}

bool same_time(T const& t, sub::Time const& a)
{
	if (a.hours() != t.h || a.minutes() != t.m || a.seconds() != t.s) return false;
	try {
		if (!t.rate) return a == sub::Time::from_hmsf(int(t.h), int(t.m), int(t.s), int(t.f));
		if (a.frames_at(sub::Rational(int(t.rate), 1)) != t.f) return false;
		return std::fabs(a.frames_at(sub::Rational(1000000, 1)) - double(t.f) * 1e6 / double(t.rate)) <= 1.0;
	} catch (std::exception&) {
		return false;
	}
}

bool starts(string const& s, size_t at, char const* what)
{
	size_t const n = strlen(what);
	if (at + n > s.size()) return false;
	for (size_t i = 0; i < n; ++i) {
		char c = s[at + i];
		if (c >= 'A' && c <= 'Z') c = char(c + 32);
		if (c != what[i]) return false;
	}
	return true;
}

string replace(string s, string const& a, string const& b)
{
	for (size_t p = 0; (p = s.find(a, p)) != string::npos; p += b.size()) s.replace(p, a.size(), b);
	return s;
}

void Doc::emit(string const& s, Seg::Kind k, int cue)
{
	if (s.empty()) return;
	segs.push_back(Seg{k, bytes.size(), bytes.size() + s.size(), cue});
	bytes += s;
}

vector<string> Doc::lines() const
{
	vector<string> r;
	size_t i = 0;
	string b = bytes;
	if (starts(b, 0, "\xef\xbb\xbf")) b.erase(0, 3);
	while (i < b.size()) {
		size_t e = b.find('\n', i);
		string l = b.substr(i, e == string::npos ? string::npos : e - i);
		while (!l.empty() && l.back() == '\r') l.pop_back();
		r.push_back(l);
		if (e == string::npos) break;
		i = e + 1;
	}
	return r;
}

void add_text(Doc& d, Run& r, string const& s)
{
	size_t const base = d.bytes.size();
	for (size_t i = 0; i < s.size(); ++i) {
		r.text += s[i];
		r.ends.push_back(base + i + 1);
	}
	d.emit(s, Seg::TEXT, r.cue);
}

string line_end(Value const& doc, size_t n)
{
	switch (doc["eol"].num()) {
	case 0: return "\n";
	case 1: return "\r\n";
	default: return (mix64(uint64_t(doc["eol"].num()) * 1000003u + n) & 1) ? "\r\n" : "\n";
	}
}

//---- UTF-8 ------------------------------------------------------------------------------------------
string utf8(uint32_t c)
{
	string r;
	if (c < 0x80) r += char(c);
	else if (c < 0x800) { r += char(0xc0 | (c >> 6)); r += char(0x80 | (c & 63)); }
	else if (c < 0x10000) { r += char(0xe0 | (c >> 12)); r += char(0x80 | ((c >> 6) & 63)); r += char(0x80 | (c & 63)); }
	else { r += char(0xf0 | (c >> 18)); r += char(0x80 | ((c >> 12) & 63)); r += char(0x80 | ((c >> 6) & 63)); r += char(0x80 | (c & 63)); }
	return r;
}

vector<uint32_t> utf8_decode(string const& s)
{
	vector<uint32_t> r;
	for (size_t i = 0; i < s.size();) {
		unsigned char c = (unsigned char) s[i];
		int n = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4;
		uint32_t v = n == 1 ? c : c & (0xff >> (n + 1));
		for (int k = 1; k < n; ++k) v = (v << 6) | (i + size_t(k) < s.size() ? (unsigned char) s[i + size_t(k)] & 63 : 0);
		r.push_back(v);
		i += size_t(n);
	}
	return r;
}

//---- text generation --------------------------------------------------------------------------------
long gen_length(Rng& r)
{
	long const x = r.below(100);
	if (x < 60) return r.range(1, 12);
	if (x < 85) return r.range(1, 60);
	if (x < 97) {
		static vector<long> const edges = { 31, 32, 63, 64, 110, 112, 113, 126, 127, 128, 254, 255, 256, 257, 509, 510, 511, 512, 513, 1022, 1023, 1024, 1025 };
		return std::max(1l, r.pick(edges) + r.range(-3, 3));
	}
	static vector<long> const big = { 2047, 2048, 4094, 4095, 4096, 4097, 8191, 8192 };
	return std::max(1l, r.pick(big) + r.range(-3, 3));
}

/// sometimes longer still (too long for the SubRip reader, which takes time that grows with the square of the length)
long gen_any_length(Rng& r)
{
	if (r.below(2500)) return gen_length(r);
	static vector<long> const huge = { 16384, 32767, 65535, 65536, 100000, 131072 };
	return r.pick(huge) + r.range(-300, 3);
}

string gen_text(Rng& r, long n, string const& exclude)
{
	static vector<uint32_t> const odd = {
		0xe9, 0xe8, 0xe0, 0xfc, 0xf6, 0xdf, 0xc5, 0xd8, 0xf1, 0xe7, 0x131, 0x130, 0x141, 0x10d, 0x17e, 0x3b1, 0x3a9, 0x416, 0x44f, 0x5d0, 0x627, 0x639, 0x65f,
		0x905, 0x93e, 0x3042, 0x30ab, 0x4e2d, 0x6587, 0xac00, 0x1f600, 0x1f1eb, 0x10348, 0xa0, 0x2014, 0x2018, 0x2019, 0x201c, 0x201d, 0x2026, 0x266a, 0x301,
		0x200b, 0x200d, 0x200e, 0x200f, 0x202a, 0x202c, 0x2027, 0x2029, 0xfffd, 0xffff, 0xe000, 0x20ab, 0x85
	};
	static string const punct = "!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~";
	// things that mean something elsewhere
	static vector<char const*> const special = {
		"1", "2", "42", "007", "-->", "00:00:01,000 --> 00:00:02,000", "00:00:01.000 --> 00:00:02.000", "NOTE", "NOTE x", "WEBVTT", "STYLE", "REGION", "Dialogue: 0,0:00:01.00,0:00:02.00,Default,,0,0,0,,x",
		"Format: Start, End, Text", "Style: Default,Arial,20", "[Events]", "[V4+ Styles]", "[Script Info]", "PlayResY: 100", "Comment: x", "$Bold = TRUE", "$FontSize = 10", "//x", ";x", "!: x", "00:00:01:00 , 00:00:02:00 , x",
		"a,b,,c", ", ", "a:b", "a=b", "= ", "&amp;", "&lt;b&gt;", "%s%n", "\t", "?", "null", "STL25.01", "\\", "|", "^I", "- Who?", "...", "Â ", "âª la la âª"
	};
	if (n < 40 && r.chance(3)) {
		string t = r.pick(special);
		for (auto& c: t) if (exclude.find(c) != string::npos) c = 'x';
		return t;
	}
	int const mix = int(r.below(4));
	string out;
	long made = 0;
	while (made < n) {
		string c;
		long const x = r.below(100);
		if (n > 80 && x < 70) {
			c = string(size_t(std::min(n - made, r.range(4, 30))), char('a' + r.below(26)));
			made += long(c.size()) - 1;
		}
		else if (x < 12) c = " ";
		else if (x < 60 || mix == 0) c = string(1, char((r.chance(30) ? 'A' : 'a') + r.below(26)));
		else if (x < 68) c = string(1, char('0' + r.below(10)));
		else if (x < 84 || mix == 1) c = string(1, punct[size_t(r.below(long(punct.size())))]);
		else c = utf8(r.pick(odd));
		if (c.size() == 1 && exclude.find(c[0]) != string::npos) c = "x";
		out += c;
		++made;
	}
	return out;
}

Value gen_times(Rng& r, long n, long long unit, long long max_seconds, bool distinct)
{
	// [from, to, from, to, ...], mostly ordered, sometimes not, some froms shared; distinct: no pair twice, none empty
	Value v = Value::arr();
	long long t = r.below(5) == 0 ? 0 : r.below(long(std::min<long long>(max_seconds * unit / 2, 4000 * unit)));
	if (r.chance(10)) t = std::max<long long>(0, max_seconds * unit - 40 * unit * n - r.below(long(unit)));
	vector<std::pair<long long, long long>> used;
	bool const shuffle = r.chance(25);
	int const again = !distinct && r.chance(20) ? int(r.range(3, 60)) : 0;
	for (long i = 0; i < n; ++i) {
		long long from, to;
		if (!used.empty() && again && r.chance(again)) {
			auto const u = r.chance(60) ? used.back() : r.pick(used);
			v.push(u.first);
			v.push(u.second);
			continue;
		}
		for (;;) {
			long const k = r.below(100);
			if (!used.empty() && k < 8) from = used.back().first;
			else if (shuffle && k < 40) from = r.below(long(std::min<long long>(max_seconds * unit - 10 * unit, 4000 * unit)));
			else { t += r.range(0, long(6 * unit)); if (r.chance(10)) t = (t / unit + 1) * unit; if (r.chance(5)) t = (t / (60 * unit) + 1) * 60 * unit - 1; from = t; }
			if (from >= max_seconds * unit - 10 * unit) from = max_seconds * unit - 10 * unit - 1 - r.below(long(50 * unit));
			if (from < 0) from = r.below(long(unit));
			to = from + (again && r.chance(5) ? 0 : r.range(1, long(8 * unit)));
			bool clash = false;
			for (auto const& u: used) if (u.first == from && u.second == to) clash = true;
			if (!clash) break;
		}
		used.emplace_back(from, to);
		v.push(from);
		v.push(to);
	}
	return v;
}

//---- comparison -------------------------------------------------------------------------------------
static bool near(double a, double b) { return std::fabs(a - b) < 2e-5; }

static bool same_ssa_line(Run const& a, Run const& b) { return a.ssa_pos == b.ssa_pos && (!a.ssa_pos || a.ssa_line == b.ssa_line); }

static bool same_but_text(Run const& a, Run const& b)
{
	return a.font == b.font && a.has_font == b.has_font && a.fprop == b.fprop && a.fpts == b.fpts && a.effect == b.effect
		&& a.has_effcol == b.has_effcol && a.effcol.r == b.effcol.r && a.effcol.g == b.effcol.g && a.effcol.b == b.effcol.b
		&& a.col.r == b.col.r && a.col.g == b.col.g && a.col.b == b.col.b && a.b == b.b && a.i == b.i && a.u == b.u
		&& a.href == b.href && a.hprop == b.hprop && a.vref == b.vref && a.has_vprop == b.has_vprop && a.vprop == b.vprop
		&& a.vline == b.vline && a.vlines == b.vlines && same_ssa_line(a, b)
		&& a.from.h == b.from.h && a.from.m == b.from.m && a.from.s == b.from.s && a.from.f == b.from.f
		&& a.to.h == b.to.h && a.to.m == b.to.m && a.to.s == b.to.s && a.to.f == b.to.f;
}

vector<Run> canonical(vector<Run> const& r)
{
	vector<Run> o;
	for (auto const& x: r) {
		if (x.text.empty()) continue;
		if (!o.empty() && same_but_text(o.back(), x)) {
			o.back().text += x.text;
			o.back().ends.insert(o.back().ends.end(), x.ends.begin(), x.ends.end());
		} else {
			o.push_back(x);
		}
	}
	return o;
}

static bool time_equal(sub::Time const& a, sub::Time const& b)
{
	try { return a == b; } catch (...) { return false; }
}

static bool opt_time_equal(boost::optional<sub::Time> const& a, boost::optional<sub::Time> const& b)
{
	if (!a && !b) return true;
	return a && b && time_equal(*a, *b);
}

template <class A, class B> static bool style_equal(A const& a, B const& b)
{
	return a.font == b.font && a.font_size.proportional() == b.font_size.proportional() && a.font_size.points() == b.font_size.points()
		&& a.effect == b.effect && bool(a.effect_colour) == bool(b.effect_colour) && (!a.effect_colour || *a.effect_colour == *b.effect_colour)
		&& a.colour == b.colour && a.bold == b.bold && a.italic == b.italic && a.underline == b.underline;
}

static bool raw_but_text(sub::RawSubtitle const& a, sub::RawSubtitle const& b)
{
	return style_equal(a, b) && a.horizontal_position.reference == b.horizontal_position.reference
		&& a.horizontal_position.proportional == b.horizontal_position.proportional
		&& a.vertical_position.proportional == b.vertical_position.proportional && a.vertical_position.line == b.vertical_position.line
		&& a.vertical_position.lines == b.vertical_position.lines && a.vertical_position.reference == b.vertical_position.reference
		&& time_equal(a.from, b.from) && time_equal(a.to, b.to) && opt_time_equal(a.fade_up, b.fade_up) && opt_time_equal(a.fade_down, b.fade_down);
}

vector<sub::RawSubtitle> canonical(vector<sub::RawSubtitle> const& r)
{
	vector<sub::RawSubtitle> o;
	for (auto const& x: r) {
		if (x.text.empty()) continue;
		if (!o.empty() && raw_but_text(o.back(), x)) o.back().text += x.text; else o.push_back(x);
	}
	return o;
}

template <class X> static string style_diff(Run const& e, X const& a)
{
	if (e.has_font != bool(a.font) || (e.has_font && e.font != *a.font)) return "font: expected " + (e.has_font ? esc(e.font) : string("none")) + ", got " + (a.font ? esc(*a.font) : string("none"));
	auto const p = a.font_size.proportional();
	if ((e.fprop >= 0) != bool(p) || (p && !near(e.fprop, *p))) return fmt("font size: expected proportion %g, got %g", e.fprop, p ? double(*p) : -1);
	auto const q = a.font_size.points();
	if ((e.fpts >= 0) != bool(q) || (q && e.fpts != *q)) return fmt("font size: expected %ld points, got %ld", e.fpts, q ? long(*q) : -1);
	if ((e.effect >= 0) != bool(a.effect) || (a.effect && int(*a.effect) != e.effect)) return "effect";
	if (e.has_effcol != bool(a.effect_colour)) return "presence of effect colour";
	if (e.has_effcol && !(near(e.effcol.r, a.effect_colour->r) && near(e.effcol.g, a.effect_colour->g) && near(e.effcol.b, a.effect_colour->b))) return "effect colour";
	if (!(near(e.col.r, a.colour.r) && near(e.col.g, a.colour.g) && near(e.col.b, a.colour.b)))
		return fmt("colour: expected %g/%g/%g, got %g/%g/%g", e.col.r, e.col.g, e.col.b, double(a.colour.r), double(a.colour.g), double(a.colour.b));
	if (e.b != a.bold) return e.b ? "bold missing" : "bold unexpected";
	if (e.i != a.italic) return e.i ? "italic missing" : "italic unexpected";
	if (e.u != a.underline) return e.u ? "underline missing" : "underline unexpected";
	return "";
}

static string place_diff(Run const& e, sub::HorizontalPosition const& h, sub::VerticalPosition const& v)
{
	if (int(h.reference) != e.href) return fmt("horizontal reference: expected %d, got %d", e.href, int(h.reference));
	if (!near(h.proportional, e.hprop)) return fmt("horizontal position: expected %g, got %g", e.hprop, double(h.proportional));
	if ((e.vref >= 0) != bool(v.reference) || (v.reference && int(*v.reference) != e.vref)) return fmt("vertical reference: expected %d, got %d", e.vref, v.reference ? int(*v.reference) : -1);
	if (e.has_vprop != bool(v.proportional) || (v.proportional && !near(*v.proportional, e.vprop)))
		return fmt("vertical position: expected %s%g, got %s%g", e.has_vprop ? "" : "none ", e.vprop, v.proportional ? "" : "none ", v.proportional ? double(*v.proportional) : 0.0);
	if ((e.vline != NO_LINE) != bool(v.line) || (v.line && *v.line != e.vline)) return fmt("line: expected %ld, got %ld", e.vline, v.line ? long(*v.line) : -1);
	if ((e.vlines != NO_LINE) != bool(v.lines) || (v.lines && *v.lines != e.vlines)) return fmt("of lines: expected %ld, got %ld", e.vlines, v.lines ? long(*v.lines) : -1);
	return "";
}

static string text_diff(string const& e, string const& a)
{
	if (e == a) return "";
	auto cut = [](string const& s, size_t at) {
		size_t const from = at > 30 ? at - 30 : 0;
		return fmt("(%lu bytes) ...", (unsigned long) s.size()) + esc(s.substr(from, 80));
	};
	size_t k = 0;
	while (k < e.size() && k < a.size() && e[k] == a[k]) ++k;
	return fmt("text differs at byte %lu: expected ", (unsigned long) k) + cut(e, k) + " got " + cut(a, k);
}

static string time_diff(Run const& e, sub::Time const& from, sub::Time const& to)
{
	if (!same_time(e.from, from)) return "start time: expected " + show(e.from) + ", got " + show_time(from);
	if (!same_time(e.to, to)) return "end time: expected " + show(e.to) + ", got " + show_time(to);
	return "";
}

string compare(vector<Run> const& expected, vector<sub::RawSubtitle> const& actual)
{
	auto const e = canonical(expected);
	auto const a = canonical(actual);
	for (size_t i = 0; i < std::max(e.size(), a.size()); ++i) {
		if (i >= a.size()) return fmt("piece %lu of %lu is missing: ", (unsigned long) i, (unsigned long) e.size()) + esc(e[i].text.substr(0, 60)) + " at " + show(e[i].from);
		if (i >= e.size()) return fmt("unexpected piece %lu: ", (unsigned long) i) + show(a[i]).substr(0, 300);
		string d = text_diff(e[i].text, a[i].text);
		if (d.empty()) d = time_diff(e[i], a[i].from, a[i].to);
		if (d.empty()) d = style_diff(e[i], a[i]);
		if (d.empty()) d = place_diff(e[i], a[i].horizontal_position, a[i].vertical_position);
		if (d.empty() && (a[i].fade_up || a[i].fade_down)) d = "unexpected fade";
		if (!d.empty()) return fmt("piece %lu ", (unsigned long) i) + "(" + esc(e[i].text.substr(0, 30)) + "): " + d;
	}
	return "";
}

//---- collected subtitles --------------------------------------------------------------------------------
namespace {
struct ELine { vector<Run> runs; };
struct ESub { vector<ELine> lines; };
}

static bool same_place(Run const& a, Run const& b)
{
	return a.vline == b.vline && a.vprop == b.vprop && a.vref == b.vref && same_ssa_line(a, b);
}

static bool same_times(Run const& a, Run const& b) { return seconds(a.from) == seconds(b.from) && seconds(a.to) == seconds(b.to); }

static vector<ESub> group(vector<Run> const& expected)
{
	auto r = canonical(expected);
	std::stable_sort(r.begin(), r.end(), [](Run const& a, Run const& b) { return seconds(a.from) < seconds(b.from); });
	vector<ESub> o;
	for (auto const& x: r) {
		if (o.empty() || !same_times(o.back().lines[0].runs[0], x)) o.emplace_back();
		auto& s = o.back();
		if (s.lines.empty() || !same_place(s.lines.back().runs.back(), x)) s.lines.emplace_back();
		s.lines.back().runs.push_back(x);
	}
	return o;
}

vector<vector<vector<Run>>> collected(vector<Run> const& r)
{
	vector<vector<vector<Run>>> o;
	for (auto const& s: group(r)) {
		o.emplace_back();
		for (auto const& l: s.lines) o.back().push_back(l.runs);
	}
	return o;
}

/// Pieces of different cues with the same times and place: they make one line, unless a piece with no text comes between them
bool shared_places(vector<Run> const& r)
{
	for (size_t i = 0; i < r.size(); ++i)
		for (size_t j = i + 1; j < r.size(); ++j)
			if (r[i].cue != r[j].cue && same_times(r[i], r[j]) && same_place(r[i], r[j])) return true;
	return false;
}

string compare_collected(vector<Run> const& expected, vector<sub::Subtitle> const& actual)
{
	auto const e = group(expected);
	bool const shared = shared_places(expected);
	// drop what has no text
	vector<sub::Subtitle> a;
	for (auto const& s: actual) {
		sub::Subtitle t = s;
		t.lines.clear();
		for (auto const& l: s.lines) {
			sub::Line k = l;
			k.blocks.clear();
			for (auto const& b: l.blocks) {
				if (b.text.empty()) continue;
				if (!k.blocks.empty() && style_equal(k.blocks.back(), b)) k.blocks.back().text += b.text; else k.blocks.push_back(b);
			}
			if (k.blocks.empty()) continue;
			if (shared && !t.lines.empty() && t.lines.back().vertical_position == k.vertical_position) {
				for (auto const& b: k.blocks) {
					auto& l = t.lines.back().blocks;
					if (style_equal(l.back(), b)) l.back().text += b.text; else l.push_back(b);
				}
			} else t.lines.push_back(k);
		}
		if (!t.lines.empty()) a.push_back(t);
	}
	for (size_t i = 0; i < std::max(e.size(), a.size()); ++i) {
		string const at = fmt("subtitle %lu: ", (unsigned long) i);
		if (i >= a.size()) return at + fmt("missing (expected %lu)", (unsigned long) e.size());
		if (i >= e.size()) return at + "unexpected " + show(a[i]).substr(0, 300);
		string d = time_diff(e[i].lines[0].runs[0], a[i].from, a[i].to);
		if (!d.empty()) return at + d;
		if (e[i].lines.size() != a[i].lines.size()) return at + fmt("expected %lu lines, got %lu", (unsigned long) e[i].lines.size(), (unsigned long) a[i].lines.size());
		for (size_t j = 0; j < e[i].lines.size(); ++j) {
			auto const& el = e[i].lines[j];
			auto const& al = a[i].lines[j];
			string const lat = at + fmt("line %lu: ", (unsigned long) j);
			d = place_diff(el.runs[0], al.horizontal_position, al.vertical_position);
			if (!d.empty()) return lat + d;
			// blocks differ only in style and text, so merge runs which differ in neither
			vector<Run> m;
			for (auto x: el.runs) {
				if (!m.empty()) {
					Run y = m.back();
					string const save = y.text;
					y.text = x.text; y.href = x.href; y.hprop = x.hprop;
					if (same_but_text(y, x)) { m.back().text = save + x.text; continue; }
				}
				m.push_back(x);
			}
			if (m.size() != al.blocks.size()) return lat + fmt("expected %lu blocks, got %lu", (unsigned long) m.size(), (unsigned long) al.blocks.size());
			for (size_t k = 0; k < m.size(); ++k) {
				d = text_diff(m[k].text, al.blocks[k].text);
				if (d.empty()) d = style_diff(m[k], al.blocks[k]);
				if (!d.empty()) return lat + fmt("block %lu: ", (unsigned long) k) + d;
			}
		}
		if (a[i].fade_up || a[i].fade_down) return at + "unexpected fade";
	}
	return "";
}

//---- dump -----------------------------------------------------------------------------------------------
static string place_text(Run const& r)
{
	string s;
	if (r.has_vprop) s = fmt("%.9g of screen", r.vprop);
	else if (r.vline != NO_LINE && r.vlines != NO_LINE) s = fmt("%ld lines of %ld", r.vline, r.vlines);
	static char const* const names[] = { "top", "centre", "bottom", "top of subtitle" };
	if (r.vref >= 0) s += string(" from ") + names[r.vref];
	return s;
}

string expected_dump(Doc const& d)
{
	string o;
	for (auto const& m: d.meta) o += m.first + ": " + m.second + "\n";
	int n = 0;
	for (auto const& s: group(d.runs)) {
		auto const& f = s.lines[0].runs[0];
		o += fmt("Subtitle %d at ", n++) + show(f.from) + " -> " + show(f.to) + "\n";
		for (auto const& l: s.lines) {
			o += "\t" + place_text(l.runs[0]) + "\t";
			bool i = false, u = false;
			for (auto const& r: l.runs) {
				if (r.i != i) o += r.i ? "<i>" : "</i>";
				if (r.u != u) o += r.u ? "<u>" : "</u>";
				i = r.i; u = r.u;
				o += r.text;
			}
			if (i) o += "</i>";
			if (u) o += "</u>";
			o += "\n";
		}
	}
	return o;
}

/// text with italic and underline marks as a list of marked characters
static string marked(string const& s)
{
	string o;
	bool i = false, u = false;
	for (size_t k = 0; k < s.size();) {
		if (!s.compare(k, 3, "<i>")) { i = true; k += 3; }
		else if (!s.compare(k, 4, "</i>")) { i = false; k += 4; }
		else if (!s.compare(k, 3, "<u>")) { u = true; k += 3; }
		else if (!s.compare(k, 4, "</u>")) { u = false; k += 4; }
		else { o += char('0' + (i ? 1 : 0) + (u ? 2 : 0)); o += s[k++]; }
	}
	if (i || u) o += "!unclosed";
	return o;
}

static vector<string> split_lines(string const& s)
{
	vector<string> r;
	size_t i = 0;
	while (i < s.size()) {
		size_t e = s.find('\n', i);
		if (e == string::npos) e = s.size();
		r.push_back(s.substr(i, e - i));
		i = e + 1;
	}
	return r;
}

static string dump_diff(string const& es, string const& as)
{
	auto e = split_lines(es), a = split_lines(as);
	auto parts = [](string const& l, string& place, string& text) {
		if (l.empty() || l[0] != '\t') return false;
		size_t const t = l.find('\t', 1);
		if (t == string::npos) return false;
		place = l.substr(1, t - 1);
		text = l.substr(t + 1);
		return true;
	};
	// lines with no text do not matter
	auto strip = [&](vector<string>& v) {
		vector<string> o;
		for (auto const& l: v) { string p, t; if (parts(l, p, t) && marked(t).empty()) continue; o.push_back(l); }
		v = o;
	};
	strip(e); strip(a);
	for (size_t i = 0; i < std::max(e.size(), a.size()); ++i) {
		if (i >= a.size()) return "dump lacks " + esc(e[i].substr(0, 200));
		if (i >= e.size()) return "dump has unexpected " + esc(a[i].substr(0, 200));
		if (e[i] == a[i]) continue;
		string ep, et, ap, at;
		bool ok = parts(e[i], ep, et) && parts(a[i], ap, at) && marked(et) == marked(at);
		if (ok && ep != ap) {
			char *e1, *a1;
			double const x = strtod(ep.c_str(), &e1), y = strtod(ap.c_str(), &a1);
			ok = e1 != ep.c_str() && a1 != ap.c_str() && std::fabs(x - y) < 1e-4 && !strcmp(e1, a1);
		}
		if (!ok) return "dump: expected " + esc(e[i].substr(0, 200)) + " got " + esc(a[i].substr(0, 200));
	}
	return "";
}

string compare_dump(Doc const& d, string const& actual) { return d.raw_only || shared_places(d.runs) ? "" : dump_diff(expected_dump(d), actual); }

string compare_header(Doc const& d, Outcome const& o)
{
	if (d.fmt != "stlbin") return o.meta.empty() ? "" : "unexpected metadata";
	for (auto const& m: d.meta) {
		auto i = o.meta.find(m.first);
		if (i == o.meta.end()) return "metadata lacks " + m.first;
		if (i->second != m.second) return "metadata " + m.first + ": expected " + esc(m.second) + ", got " + esc(i->second);
	}
	if (o.meta.size() != d.meta.size()) return "metadata has unexpected entries";
	if (!o.header.empty()) {
		for (auto const& f: d.fields) {
			string const want = "field " + f.first + "=" + f.second + "\n";
			if (o.header.find(want) == string::npos) {
				size_t p = o.header.find("field " + f.first + "=");
				return "header: expected " + want.substr(6) + " got " + (p == string::npos ? "nothing" : o.header.substr(p + 6, o.header.find('\n', p) - p - 6));
			}
		}
	}
	return "";
}

string compare_read(Doc const& d, Outcome const& o)
{
	if (!o.ok()) return "reported " + o.kind + " (" + o.what + ")";
	if (o.no_reader) return "no reader was found";
	string r = compare(d.runs, o.raws);
	if (!r.empty()) return r;
	r = compare_header(d, o);
	if (!r.empty()) return r;
	if (o.collected && !d.raw_only) {
		r = compare_collected(d.runs, o.subs);
		if (!r.empty()) return "collected: " + r;
	}
	if (o.dumped) {
		r = compare_dump(d, o.dump);
		if (!r.empty()) return r;
	}
	return "";
}

//---- cut documents --------------------------------------------------------------------------------------
vector<Run> cut_runs(Doc const& d, size_t k, bool& exact)
{
	exact = true;
	size_t limit = k;
	for (auto const& s: d.segs) {
		if (s.start < k && k < s.end && (s.kind == Seg::STRUCT || s.kind == Seg::MARK)) exact = false;
		if (s.kind == Seg::TEXT && s.start < k && k <= s.end && (d.fmt == "ssa" || d.fmt == "stltext")) {
			// spaces at the end of a line do not count
			size_t t = k;
			while (t > s.start && (d.bytes[t - 1] == ' ' || d.bytes[t - 1] == '\t')) --t;
			// ... unless there is something else before them, not text, on the same line: then also none of this text
			limit = t;
		}
	}
	vector<Run> o;
	for (auto r: d.runs) {
		size_t n = 0;
		while (n < r.ends.size() && r.ends[n] <= limit) ++n;
		r.text.resize(n);
		r.ends.resize(n);
		if (r.ssa_pos) {
			long breaks = 0;
			for (auto b: d.breaks[size_t(r.cue)]) if (b <= k) ++breaks;
			switch (r.vref) {
			case sub::TOP_OF_SCREEN: r.vprop = r.ssa_margin + double(r.ssa_line) * r.ssa_ls; break;
			case sub::BOTTOM_OF_SCREEN: r.vprop = r.ssa_margin + double(breaks - r.ssa_line) * r.ssa_ls; break;
			default: r.vprop = double(r.ssa_line) * r.ssa_ls - double(breaks + 1) * r.ssa_ls / 2; break;
			}
		}
		if (n) o.push_back(r);
	}
	return o;
}

string compare_cut(Doc const& d, size_t k, Outcome const& o)
{
	if (d.fmt == "stlbin") {
		if (k < d.bytes.size()) return o.ok() ? "a cut binary STL file was accepted" : "";
		return compare_read(d, o);
	}
	bool exact;
	auto const e = cut_runs(d, k, exact);
	if (d.fmt == "vtt" && k == 0) exact = false;
	if (!o.ok()) return exact ? "reported " + o.kind + " (" + o.what + ")" : "";
	string const r = compare(e, o.raws);
	if (r.empty() || exact) return r;
	// the cut is inside some markup: what there is of that may appear as text
	auto ce = canonical(e);
	auto ca = canonical(o.raws);
	if (ca.size() == ce.size() && !ce.empty()) {
		auto last = ca.back().text;
		auto const& el = ce.back().text;
		if (last.size() > el.size() && !last.compare(0, el.size(), el) && d.bytes.substr(0, k).find(last.substr(el.size())) != string::npos) {
			ca.back().text = el;
			if (compare(ce, ca).empty()) return "";
		}
	}
	if (ca.size() == ce.size() + 1) {
		auto const last = ca.back();
		ca.pop_back();
		if (compare(ce, ca).empty() && d.bytes.substr(0, k).find(last.text) != string::npos) {
			// it must belong to the cue being cut
			int cue = -1;
			for (auto const& s: d.segs) if (s.start < k && k < s.end) cue = s.cue;
			for (auto const& x: d.runs) if (x.cue == cue && same_time(x.from, last.from) && same_time(x.to, last.to)) return "";
			bool any = false;
			for (auto const& x: d.runs) if (x.cue == cue) any = true;
			if (!any) return "";
		}
	}
	return r;
}

//---- dispatch -------------------------------------------------------------------------------------------
Doc build(Value const& v)
{
	AllocPause p;
	string const f = v["fmt"].str();
	Doc d;
	if (f == "srt") d = build_srt(v);
	else if (f == "vtt") d = build_vtt(v);
	else if (f == "ssa") d = build_ssa(v);
	else if (f == "stltext") d = build_stltext(v);
	else if (f == "stlbin") d = build_stlbin(v);
	else d.invalid("unknown format");
	d.fmt = f;
	if (d.cues == 0) d.invalid("no cues");
	if (d.bytes.size() > 400000) d.invalid("too big");
	return d;
}

Value gen_doc(Rng& r, string const& f)
{
	Value v;
	if (f == "srt") v = gen_srt(r);
	else if (f == "vtt") v = gen_vtt(r);
	else if (f == "ssa") v = gen_ssa(r);
	else if (f == "stltext") v = gen_stltext(r);
	else v = gen_stlbin(r);
	v.set("fmt", f);
	return v;
}

static IsoCode const iso[] = {
#include "iso6937_ref.inc"
};
vector<IsoCode> const& iso_table() { static vector<IsoCode> const t(std::begin(iso), std::end(iso)); return t; }

static LangCode const langs[] = {
#include "languages.inc"
};
vector<LangCode> const& languages() { static vector<LangCode> const t(std::begin(langs), std::end(langs)); return t; }

}
