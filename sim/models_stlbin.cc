#include <set>
// binary EBU STL: documents for the reader, jobs for the writer, and an independent decoder
#include "models.h"
#include <algorithm>
#include <cmath>
#include <map>

using std::string;
using std::vector;

namespace sim {

static std::map<uint32_t, string> const& encoder()
{
	static std::map<uint32_t, string> const m = [] {
		std::map<uint32_t, string> m;
		for (auto const& c: iso_table()) {
			string s;
			if (c.dia) s += char(c.dia);
			s += char(c.code);
			m.emplace(c.u, s);
		}
		return m;
	}();
	return m;
}

static std::map<std::pair<int, int>, uint32_t> const& decoder()
{
	static std::map<std::pair<int, int>, uint32_t> const m = [] {
		std::map<std::pair<int, int>, uint32_t> m;
		for (auto const& c: iso_table()) m[std::make_pair(int(c.dia), int(c.code))] = c.u;
		return m;
	}();
	return m;
}

static string pad(string s, size_t n, char c = ' ') { s.resize(n, c); return s; }

static Col colour_of(long c) { Col o; o.r = c & 1; o.g = (c >> 1) & 1; o.b = (c >> 2) & 1; return o; }

static bool ignored_code(long x) { return (x >= 0x08 && x <= 0x1f && x != 0x0a) || (x >= 0x84 && x <= 0x8e && x != 0x8a); }

static long const FRAME_RATES[] = { 24, 25, 30 };

/// what the writer is to put for characters that ISO 6937 does not have: 0 for nothing
static bool substitute(uint32_t& c)
{
	if (encoder().count(c)) return true;
	switch (c) {
	case 0x201e: c = 0x201c; return true;
	case 0x2013: case 0x2014: c = 0x2015; return true;
	case 0x2010: case 0x2011: case 0x2012: c = '-'; return true;
	case 0x2032: c = '\''; return true;
	case 0x416: case 0x3b1: case 0x4e2d: case 0x20ac + 1: case 0x1f600: case 0x328: case 0x5d0: case 0x2033: c = 0; return true;
	}
	return false;
}

/// combining characters that ISO 6937 has as prefixes
static int combining(uint32_t c)
{
	static std::map<uint32_t, int> const m = { { 0x300, 0xc1 }, { 0x301, 0xc2 }, { 0x302, 0xc3 }, { 0x303, 0xc4 }, { 0x304, 0xc5 }, { 0x306, 0xc6 }, { 0x307, 0xc7 }, { 0x308, 0xc8 }, { 0x30a, 0xca }, { 0x327, 0xcb }, { 0x30b, 0xcd }, { 0x30c, 0xcf } };
	auto i = m.find(c);
	return i == m.end() ? 0 : i->second;
}

/// the characters that a block of text is written as
static vector<uint32_t> as_written(string const& text, bool& valid, bool& changed)
{
	vector<uint32_t> o;
	int base = -1;
	for (auto c: utf8_decode(text)) {
		if (int const dia = combining(c)) {
			changed = true;
			if (base >= 0) {
				auto i = decoder().find(std::make_pair(dia, base));
				if (i != decoder().end()) o.back() = i->second;
			}
			base = -1;
			continue;
		}
		auto e = encoder().find(c);
		base = e != encoder().end() && e->second.size() == 1 ? (unsigned char) e->second[0] : -1;
		uint32_t k = c;
		if (!substitute(k)) valid = false;
		if (k != c) changed = true;
		if (k) o.push_back(k);
	}
	return o;
}

static string text_of(Rng& r, long n, bool foreign = false)
{
	static vector<uint32_t> const others = { 0x201e, 0x2013, 0x2014, 0x2010, 0x2011, 0x2012, 0x2032, 0x416, 0x3b1, 0x4e2d, 0x20ad, 0x1f600, 0x328, 0x5d0, 0x2033, 0x301, 0x300, 0x308, 0x30c, 0x327, 0x301 };
	string o;
	auto const& t = iso_table();
	int const accents = int(r.below(80));
	for (long i = 0; i < n; ++i) {
		if (r.chance(14)) o += " ";
		else if (foreign && r.chance(15)) o += utf8(r.pick(others));
		else if (r.chance(accents)) o += utf8(t[size_t(r.below(long(t.size())))].u);
		else o += char((r.chance(30) ? 'A' : 'a') + r.below(26));
	}
	return o;
}

//---- documents for the reader ---------------------------------------------------------------------------
Doc build_stlbin(Value const& v)
{
	Doc d;
	long const fps = long(v["fps"].num(25));
	if (fps != 24 && fps != 25 && fps != 30) d.invalid("rate");
	auto field = [&](char const* n, size_t len) {
		string const s = v[n].str();
		if (s.size() > len || s.find('\0') != string::npos) d.invalid(string("field ") + n);
		return pad(s, len);
	};
	auto digits = [&](char const* n, size_t len) {
		long const x = long(v[n].num());
		string s = fmt("%0*ld", int(len), x);
		if (x < 0 || s.size() != len) { d.invalid(string("number ") + n); s = string(len, '0'); }
		return s;
	};

	//---- blocks
	long const mnr_file = long(v["mnr"].num(23));
	long const rows = mnr_file == 99 ? 12 : mnr_file;
	string body;
	vector<Run> runs;
	long highest = 0, blocks = 0, nsubs = 0;
	auto const& subs = v["subs"].a;
	for (size_t n = 0; n < subs.size(); ++n) {
		auto const& s = subs[n];
		bool const comment = s["cf"].flag();
		long long const from = s["from"].num(), to = s["to"].num();
		if (from < 0 || to < 0 || from >= 24ll * 3600 * fps || to >= 24ll * 3600 * fps) d.invalid("time");
		long const vp = long(s["vp"].num()), jc = long(s["jc"].num());
		if (vp < 0 || vp > 99 || jc < 0 || jc > 3) d.invalid("position");
		int const cue = comment ? -1 : d.cues++;
		if (!comment) ++nsubs;
		string text;
		bool it = false, ul = false;
		auto const& lines = s["lines"].a;
		if (lines.empty()) d.invalid("no lines");
		for (size_t j = 0; j < lines.size(); ++j) {
			if (j) text += '\x8a';
			Run r;
			r.cue = cue;
			auto tm = [&](long long t) { T x; x.h = long(t / fps / 3600); x.m = long(t / fps / 60 % 60); x.s = long(t / fps % 60); x.f = long(t % fps); x.rate = fps; return x; };
			r.from = tm(from); r.to = tm(to);
			r.vref = sub::TOP_OF_SCREEN;
			r.vline = vp + long(j);
			r.vlines = rows;
			r.href = jc == 1 ? sub::LEFT_OF_SCREEN : jc == 3 ? sub::RIGHT_OF_SCREEN : sub::HORIZONTAL_CENTRE_OF_SCREEN;
			r.i = it; r.u = ul;
			if (!comment) highest = std::max(highest, r.vline);
			bool any = false;
			auto flush = [&] { if (!r.text.empty() && !comment) runs.push_back(r); r.text.clear(); };
			for (auto const& e: lines[j].a) {
				string const k = e["k"].str();
				if (k == "t") {
					for (auto c: utf8_decode(e["t"].str())) {
						auto i = encoder().find(c);
						if (i == encoder().end()) { d.invalid("character"); continue; }
						text += i->second;
						r.text += utf8(c);
						any = true;
					}
				} else if (k == "c") {
					long const c = long(e["n"].num());
					if (c < 0 || c > 7) { d.invalid("colour"); continue; }
					flush();
					text += char(c);
					r.col = colour_of(c);
				} else if (k == "i") { flush(); it = e["on"].flag(); text += it ? '\x80' : '\x81'; r.i = it; }
				else if (k == "u") { flush(); ul = e["on"].flag(); text += ul ? '\x82' : '\x83'; r.u = ul; }
				else if (k == "x") {
					long const x = long(e["n"].num());
					if (!ignored_code(x)) { d.invalid("control code"); continue; }
					text += char(x);
				} else d.invalid("element");
			}
			if (j + 1 == lines.size() && !any && lines.size() > 1) d.invalid("empty last line");
			flush();
		}
		if (text.empty()) d.invalid("no text");
		if (text.size() > 20000) d.invalid("too long");
		// cut it into blocks
		auto const& split = s["split"].a;
		size_t o = 0;
		long ext = 0;
		if (s["end8f"].flag() && text.size() % 112 != 0) text += '\x8f';
		while (true) {
			size_t want = 112;
			if (!split.empty()) want = size_t(std::min(112ll, std::max(1ll, split[size_t(ext) % split.size()].num(112))));
			size_t const take = std::min(want, text.size() - o);
			bool const last = o + take == text.size();
			string b;
			b += char(v["sgn"].num(0));
			long const sn = long(s["sn"].num());
			if (sn < 0 || sn > 65535) d.invalid("number");
			b += char(sn & 255); b += char(sn >> 8);
			if (!last && ext >= 0xf0) d.invalid("too many extension blocks");
			b += char(last ? 255 : ext);
			b += char(s["cs"].num(0) & 3);
			for (long long t: { from, to }) { b += char(t / fps / 3600); b += char(t / fps / 60 % 60); b += char(t / fps % 60); b += char(t % fps); }
			b += char(vp); b += char(jc); b += char(comment ? 1 : 0);
			b += pad(text.substr(o, take), 112, '\x8f');
			body += b;
			++blocks;
			if (s["user"].a.size() > size_t(blocks % 3)) {
				// user data, which is no subtitle
				string const& u = s["user"].a[size_t(blocks % 3)].str();
				if (u.size() > 112) d.invalid("user data");
				b = b.substr(0, 3) + '\xfe' + (u.size() % 2 ? b.substr(4, 12) : string(12, '\0')) + u;
				b.resize(128, '\0');
				body += b;
				++blocks;
			}
			o += take;
			++ext;
			if (last) break;
		}
	}
	long const shift = highest > rows ? highest - rows : 0;
	for (auto& r: runs) r.vline -= shift;
	d.runs = runs;

	//---- header
	string h;
	string const cpn = v["cpn"].str_or("850");
	if (cpn.size() != 3 || cpn.find_first_not_of("0123456789") != string::npos || cpn[0] == '0') d.invalid("code page");
	string const dsc = v["dsc"].str_or("0"), cct = v["cct"].str_or("00"), tcs = v["tcs"].str_or("1");
	static std::map<string, std::pair<int, string>> const ds = { { " ", { 0, "Undefined" } }, { "0", { 1, "Open subtitling" } }, { "1", { 2, "Level 1 teletext" } }, { "2", { 3, "Level 2 teletext" } } };
	static std::map<string, std::pair<int, string>> const tc = { { "0", { 0, "Not intended for use" } }, { "1", { 1, "Intended for use" } } };
	if (!ds.count(dsc) || !tc.count(tcs) || cct != "00") { d.invalid("code"); return d; }
	size_t const li = size_t(v["lang"].num());
	if (li >= languages().size()) { d.invalid("language"); return d; }
	auto const& lang = languages()[li];
	h += cpn + fmt("STL%ld.01", fps) + dsc + cct + lang.code;
	struct F { char const* key; char const* name; char const* meta; size_t len; };
	static F const f1[] = {
		{ "opt", "original_programme_title", "Original programme title", 32 }, { "oet", "original_episode_title", "Original episode title", 32 },
		{ "tpt", "translated_programme_title", "Translated programme title", 32 }, { "tet", "translated_episode_title", "Translated episode title", 32 },
		{ "tn", "translator_name", "Translator name", 32 }, { "tcd", "translator_contact_details", "Translator contact details", 32 },
		{ "slr", "subtitle_list_reference_code", "Subtitle list reference code", 16 }, { "cd", "creation_date", "Creation date", 6 },
		{ "rd", "revision_date", "Revision date", 6 }, { "rn", "revision_number", "Revision number", 2 }
	};
	static F const f2[] = {
		{ "country", "country_of_origin", "Country of origin", 3 }, { "pub", "publisher", "Publisher", 32 }, { "en", "editor_name", "Editor name", 32 }, { "ecd", "editor_contact_details", "Editor contact details", 32 }
	};
	auto str = [&](F const& f) {
		string const s = field(f.key, f.len);
		h += s;
		d.meta[f.meta] = s;
		d.fields.emplace_back(f.name, esc(s));
	};
	for (auto const& f: f1) str(f);
	h += fmt("%05ld%05ld", blocks, nsubs) + digits("groups", 3) + digits("mnc", 2) + digits("mnr", 2) + tcs;
	string const tcp = v["tcp"].str_or("00000000"), tcf = v["tcf"].str_or("00000000");
	if (tcp.size() != 8 || tcf.size() != 8) d.invalid("programme times");
	h += tcp + tcf + digits("tnd", 1) + digits("dsn", 1);
	for (auto const& f: f2) str(f);
	h = pad(h, 448);
	h += pad(v["user"].str(), 576);
	if (v["user"].str().size() > 576 || h.size() != 1024) { d.invalid("header"); h.resize(1024, ' '); }
	if (rows < 1) d.invalid("rows");
	if (blocks > 99999) d.invalid("blocks");

	auto in = [&](char const* name, char const* meta, long x) { d.meta[meta] = std::to_string(x); d.fields.emplace_back(name, std::to_string(x)); };
	in("code_page_number", "Code page number", atol(cpn.c_str()));
	in("frame_rate", "Frame rate", fps);
	in("tti_blocks", "TTI blocks", blocks);
	in("number_of_subtitles", "Number of subtitles", nsubs);
	in("subtitle_groups", "Subtitle groups", long(v["groups"].num()));
	in("maximum_characters", "Maximum characters", long(v["mnc"].num()));
	in("maximum_rows", "Maximum rows", rows);
	in("disks", "Disks", long(v["tnd"].num()));
	in("disk_sequence_number", "Disk sequence number", long(v["dsn"].num()));
	d.meta["Display standard"] = ds.at(dsc).second;
	d.meta["Language group"] = "Latin";
	d.meta["Language"] = lang.name;
	d.meta["Timecode status"] = tc.at(tcs).second;
	d.meta["Start of programme"] = tcp;
	d.meta["First in cue"] = tcf;
	d.fields.emplace_back("language", std::to_string(lang.value));
	d.fields.emplace_back("start_of_programme", esc(tcp));
	d.fields.emplace_back("first_in_cue", esc(tcf));
	d.fields.emplace_back("display_standard", std::to_string(ds.at(dsc).first));
	d.fields.emplace_back("timecode_status", std::to_string(tc.at(tcs).first));

	d.emit(h, Seg::STRUCT);
	d.emit(body, Seg::STRUCT);
	return d;
}

static string ascii(Rng& r, long max) { string s; for (long i = r.range(0, max); i > 0; --i) s += char(r.chance(15) ? ' ' : r.chance(85) ? 'a' + r.below(26) : 33 + r.below(94)); return s; }

Value gen_stlbin(Rng& r)
{
	Value v = Value::obj();
	long const fps = FRAME_RATES[r.below(3)];
	v.set("fps", fps);
	static vector<char const*> const cpns = { "850", "437", "860", "863", "865" };
	v.set("cpn", r.pick(cpns)).set("dsc", string(1, " 012"[r.below(4)])).set("cct", "00").set("tcs", r.chance(50) ? "0" : "1");
	v.set("lang", r.below(long(languages().size())));
	for (auto k: { "opt", "oet", "tpt", "tet", "tn", "tcd", "pub", "en", "ecd" }) if (r.chance(60)) v.set(k, r.chance(20) ? pad(ascii(r, 32), 32, 'x') : ascii(r, 32));
	if (r.chance(10)) v.set("opt", "\x81\xe9\xff" + ascii(r, 20));
	v.set("slr", ascii(r, 16)).set("cd", fmt("%06ld", r.below(1000000))).set("rd", fmt("%06ld", r.below(1000000))).set("rn", fmt("%02ld", r.below(100))).set("country", "GBR");
	v.set("groups", r.range(1, 999)).set("mnc", r.range(0, 99));
	static vector<long> const mnrs = { 23, 11, 99, 12, 15, 2 };
	long const mnr = r.pick(mnrs);
	v.set("mnr", mnr).set("tnd", r.range(0, 9)).set("dsn", r.range(0, 9));
	if (r.chance(30)) v.set("tcp", fmt("%08ld", r.below(100000000))).set("tcf", fmt("%08ld", r.below(100000000)));
	if (r.chance(20)) v.set("user", ascii(r, 576));
	v.set("sgn", r.chance(80) ? 0 : r.range(1, 255));
	long const n = r.chance(5) ? r.range(10, 80) : r.few(1, 8);
	Value const times = gen_times(r, n, fps, 24 * 3600);
	Value subs = Value::arr();
	long const first = r.chance(10) ? r.range(250, 260) : r.chance(5) ? 32760 : r.chance(5) ? 65400 : r.range(0, 2);
	bool const same_number = r.chance(15);
	int const density = int(r.below(70));
	for (long i = 0; i < n; ++i) {
		Value s = Value::obj();
		s.set("from", times.a[size_t(2 * i)]).set("to", times.a[size_t(2 * i + 1)]);
		s.set("sn", same_number ? first : first + i).set("cs", r.chance(85) ? 0 : r.range(1, 3));
		s.set("vp", r.chance(70) ? r.range(1, std::min(mnr, 23l)) : r.range(0, 99)).set("jc", r.range(0, 3));
		if (i && r.chance(8)) s.set("cf", true);
		Value lines = Value::arr();
		long const nl = r.few(1, 4);
		for (long l = 0; l < nl; ++l) {
			Value line = Value::arr();
			if (l + 1 < nl && r.chance(15)) { lines.push(line); continue; }
			long const ne = 1 + (r.chance(density) ? r.few(1, 7) : 0);
			for (long k = 0; k < ne; ++k) {
				long const x = r.below(100);
				if (x < 45 || k + 1 == ne) line.push(Value::obj().set("k", "t").set("t", text_of(r, r.chance(85) ? r.range(1, 40) : r.range(100, 240))));
				else if (x < 60) line.push(Value::obj().set("k", "c").set("n", r.range(0, 7)));
				else if (x < 77) line.push(Value::obj().set("k", "i").set("on", r.chance(60)));
				else if (x < 92) line.push(Value::obj().set("k", "u").set("on", r.chance(60)));
				else { long c; do c = r.chance(60) ? r.range(8, 0x1f) : r.range(0x84, 0x8e); while (!ignored_code(c)); line.push(Value::obj().set("k", "x").set("n", c)); }
			}
			lines.push(line);
		}
		s.set("lines", lines);
		if (r.below(40) == 0) {
			// as many extension blocks as can be
			long most = 2;
			for (auto const& l: s["lines"].a) for (auto const& e: l.a) most += 2 + 2 * long(utf8_decode(e["t"].str()).size());
			if (r.chance(50)) most = most * 2 / 3;
			s.set("split", Value::arr().push(std::max(1l, std::min(112l, (most + 238) / 239))));
		} else if (r.chance(15)) { Value sp = Value::arr(); for (long k = r.range(1, 3); k > 0; --k) sp.push(r.range(20, 112)); s.set("split", sp); }
		if (r.chance(30)) s.set("end8f", true);
		if (r.chance(10)) {
			Value user = Value::arr();
			for (long k = r.range(1, 3); k > 0; --k) { string u; for (long q = r.range(0, 112); q > 0; --q) u += r.chance(30) ? char(r.range(1, 127)) : '\x20'; user.push(u); }
			s.set("user", user);
		}
		subs.push(s);
	}
	v.set("subs", subs);
	return v;
}

//---- jobs for the writer -----------------------------------------------------------------------------------
static char const* const FIELDS[] = { "opt", "oet", "tpt", "tet", "tn", "tcd", "publisher", "en", "ecd" };

/// nearest frame; -1 if there are two, or if it is beyond the day
static long long nearest(long long t, long rate, long fps)
{
	long long const n = 2 * (t % rate) * fps;
	long long const q = n / (2 * rate), rem = n % (2 * rate);
	if (rem == rate) return -1;
	long long const f = t / rate * fps + q + (rem > rate ? 1 : 0);
	return f >= 24ll * 3600 * fps ? -1 : f;
}

/// with this many one-byte characters, and the code that ends it, a subtitle needs more than 0xf0 blocks and a last one
static long const TOO_LONG = 0xf1 * 112;

Value gen_write(Rng& r)
{
	Value v = Value::obj();
	long const fps = FRAME_RATES[r.below(3)];
	v.set("fps", fps).set("lang", r.below(long(languages().size())));
	for (auto f: FIELDS) {
		string s = r.chance(20) ? pad(ascii(r, 32), 32, 'x') : ascii(r, 32);
		while (!s.empty() && s.back() == ' ') s.pop_back();
		v.set(f, r.chance(70) ? s : string());
	}
	v.set("cd", fmt("%06ld", r.below(1000000))).set("rd", fmt("%06ld", r.below(1000000))).set("rn", r.range(0, 99)).set("country", r.chance(50) ? "GBR" : "FRA");
	long const n = r.chance(8) ? r.range(10, 60) : r.few(1, 8);
	// times: in frames of some rate
	static vector<long> const rates = { 1000, 24, 25, 30, 48, 50, 60 };
	long const rate = r.chance(50) ? 1000 : r.chance(60) ? fps : r.pick(rates);
	Value const times = gen_times(r, n, rate, 24 * 3600, true);
	Value subs = Value::arr();
	bool const long_text = r.chance(15), foreign = r.chance(25);
	std::set<std::pair<long long, long long>> taken;
	for (long i = 0; i < n; ++i) {
		Value s = Value::obj();
		auto tm = [&](long long t) { if (r.chance(12)) t = t / rate * rate + rate - 1; return t; };
		long long from = tm(times.a[size_t(2 * i)].num()), to = tm(times.a[size_t(2 * i + 1)].num());
		while (from > 0 && nearest(from, rate, fps) < 0) --from;
		while (to > 0 && nearest(to, rate, fps) < 0) --to;
		while (taken.count(std::make_pair(nearest(from, rate, fps), nearest(to, rate, fps)))) do from = from > 0 ? from - 1 : 3600ll * rate; while (nearest(from, rate, fps) < 0);
		taken.emplace(nearest(from, rate, fps), nearest(to, rate, fps));
		s.set("rate", rate).set("from", from).set("to", to);
		s.set("h", r.range(0, 2));
		Value lines = Value::arr();
		// place: tidy rows, rows in any order or off the screen, or only known within the subtitle
		long const place = r.chance(70) ? 0 : r.range(1, 2);
		s.set("place", place);
		long row = place == 2 ? r.few(0, 2) : r.range(0, 18);
		for (long l = r.chance(3) ? r.range(12, 30) : r.few(1, 5); l > 0 && row <= 23; --l) {
			Value line = Value::obj();
			if (place == 1) row = r.chance(50) ? r.range(-4, 28) : std::max(0l, row + r.range(-1, 1));
			line.set("row", row).set("vref", r.range(-1, 2)).set("lineform", r.chance(60) ? 0 : r.range(1, 2)).set("off", r.range(-30, 30));
			if (place != 1) row += r.chance(75) ? 1 : r.range(1, 4);
			Value blocks = Value::arr();
			for (long b = r.few(1, 5); b > 0; --b) {
				Value k = Value::obj();
				k.set("t", text_of(r, long_text && r.chance(30) ? r.range(100, 1500) : r.chance(80) ? r.range(1, 20) : r.range(20, 130), foreign));
				if (r.chance(30)) k.set("i", true);
				if (r.chance(20)) k.set("u", true);
				blocks.push(k);
			}
			line.set("blocks", blocks);
			lines.push(line);
		}
		s.set("lines", lines);
		subs.push(s);
	}
	v.set("subs", subs);
	return v;
}

/// give a job a subtitle about as long as one can be
Value with_long_subtitle(Rng& r, Value v)
{
	Value subs = v["subs"];
	long const fill = TOO_LONG + (r.chance(50) ? r.range(-3, 2) : r.range(-3000, 40000));
	Value sub = subs.a[0], lines = Value::arr();
	long const n = r.chance(50) ? 1 : r.range(2, 12);
	long left = fill - (n - 1);
	for (long i = 0; i < n; ++i) {
		long const here = i + 1 == n ? left : r.range(1, std::max(1l, left * 2 / (n - i) - n));
		left -= here;
		Value block = Value::obj(), line = Value::obj();
		block.set("fill", here);
		line.set("row", 5 + i).set("vref", 0).set("lineform", 0).set("off", 0).set("blocks", Value::arr().push(block));
		lines.push(line);
	}
	sub.set("lines", lines).set("place", 0);
	subs.a[0] = sub;
	v.set("subs", subs);
	return v;
}

/// the rows that the lines of a subtitle are to be written on, in order of line
static vector<long> rows_of(Value const& s)
{
	vector<long> o;
	long next = 0;
	for (auto const& l: s["lines"].a) {
		long row = long(l["row"].num());
		if (s["place"].num() == 2) { row = std::max(row, next); next = row + 1; }
		o.push_back(std::max(0l, std::min(23l, row)));
	}
	return o;
}

static string text_of(Value const& block) { return block.has("fill") ? string(size_t(std::max(0ll, std::min(100000ll, block["fill"].num()))), 'x') : block["t"].str(); }

bool too_long(Value const& v)
{
	for (auto const& s: v["subs"].a) {
		// (lines are on successive rows, so one code is between each and the next)
		long n = long(s["lines"].a.size()) - 1;
		bool fill = false;
		for (auto const& l: s["lines"].a) for (auto const& b: l["blocks"].a) if (b.has("fill")) { fill = true; n += long(text_of(b).size()); }
		if (fill && n >= TOO_LONG) return true;
	}
	return false;
}

WriteJob build_write(Value const& v, bool& valid)
{
	AllocPause p;
	WriteJob j;
	valid = true;
	long const fps = long(v["fps"].num());
	if (fps != 24 && fps != 25 && fps != 30) { valid = false; return j; }
	j.fps = float(fps);
	size_t const li = size_t(v["lang"].num());
	if (li >= languages().size()) { valid = false; return j; }
	j.language = sub::Language(languages()[li].value);
	for (auto f: FIELDS) {
		string const s = v[f].str();
		if (s.size() > 32 || s.find('\0') != string::npos || (!s.empty() && s.back() == ' ')) valid = false;
	}
	j.opt = v["opt"].str(); j.oet = v["oet"].str(); j.tpt = v["tpt"].str(); j.tet = v["tet"].str(); j.tn = v["tn"].str(); j.tcd = v["tcd"].str();
	j.publisher = v["publisher"].str(); j.en = v["en"].str(); j.ecd = v["ecd"].str();
	j.cd = v["cd"].str(); j.rd = v["rd"].str(); j.country = v["country"].str();
	j.rn = int(v["rn"].num());
	if (j.cd.size() != 6 || j.rd.size() != 6 || j.country.size() != 3 || j.rn < 0 || j.rn > 99) { valid = false; return j; }
	if (v["subs"].a.empty()) valid = false;
	vector<std::pair<long long, long long>> seen;
	for (auto const& s: v["subs"].a) {
		sub::RawSubtitle dummy;
		long const rate = long(s["rate"].num());
		long long const from = s["from"].num(), to = s["to"].num();
		if (rate < 1 || rate > 1000 || from < 0 || to < 0) { valid = false; return j; }
		long long const nf = nearest(from, rate, fps), nt = nearest(to, rate, fps);
		if (nf < 0 || nt < 0) valid = false;
		for (auto const& x: seen) if (x.first == nf && x.second == nt) valid = false;
		seen.emplace_back(nf, nt);
		auto tm = [&](long long t) { long long q = t / rate; return sub::Time::from_hmsf(int(q / 3600), int(q / 60 % 60), int(q % 60), int(t % rate), sub::Rational(int(rate), 1)); };
		dummy.from = tm(from); dummy.to = tm(to);
		sub::Subtitle o(dummy);
		o.lines.clear();
		long last = -1;
		size_t bytes = 0;
		long const place = long(s["place"].num());
		bool some = false, fill = false;
		if (s["lines"].a.empty()) { valid = false; return j; }
		for (auto const& l: s["lines"].a) {
			sub::RawSubtitle raw;
			raw.from = o.from; raw.to = o.to;
			long const row = long(l["row"].num()), vref = long(l["vref"].num()), h = long(s["h"].num());
			if (vref < -1 || vref > 2 || h < 0 || h > 2 || place < 0 || place > 2) { valid = false; return j; }
			if (place == 1 ? (row < -10 || row > 40) : place == 2 ? (row < 0 || row > 22) : (row <= last || row > 23 || row < 0)) { valid = false; return j; }
			last = row;
			raw.horizontal_position.reference = sub::HorizontalReference(h);
			if (place == 2) raw.vertical_position.reference = sub::TOP_OF_SUBTITLE;
			else if (vref >= 0) raw.vertical_position.reference = sub::VerticalReference(vref);
			double const off = double(l["off"].num()) / 100.0;
			if (std::fabs(off) > 0.35) valid = false;
			if (place == 2) {
				raw.vertical_position.line = int(row);
				if (l["lineform"].num()) raw.vertical_position.lines = 32;
			} else if (l["lineform"].num() == 2) {
				raw.vertical_position.lines = 46;
				raw.vertical_position.line = int(vref == 1 ? 2 * row - 23 : vref == 2 ? 46 - 2 * row : 2 * row);
			} else if (l["lineform"].num()) {
				raw.vertical_position.lines = 92;
				long const top = 4 * row + 1;
				raw.vertical_position.line = int(vref == 1 ? top - 46 : vref == 2 ? 92 - top : top);
			} else {
				double const top = (double(row) + off) / 23.0;
				raw.vertical_position.proportional = float(vref == 1 ? top - 0.5 : vref == 2 ? 1 - top : top);
			}
			sub::Line line(raw);
			line.blocks.clear();
			size_t chars = 0;
			for (auto const& b: l["blocks"].a) {
				sub::RawSubtitle x = raw;
				x.text = text_of(b);
				if (b.has("fill")) fill = true;
				bool changed = false;
				chars += as_written(x.text, valid, changed).size();
				bytes += x.text.size() + 8;
				x.italic = b["i"].flag(); x.underline = b["u"].flag();
				line.blocks.push_back(sub::Block(x));
			}
			if (chars) some = true;
			if (fill && (l["blocks"].a.size() != 1 || !l["blocks"].a[0].has("fill") || text_of(l["blocks"].a[0]).empty() || place || row != long(s["lines"].a[0]["row"].num()) + long(&l - &s["lines"].a[0]) || l["blocks"].a[0]["i"].flag() || l["blocks"].a[0]["u"].flag())) valid = false;
			o.lines.push_back(line);
		}
		if (!some || (!fill && bytes > 20000)) valid = false;
		j.subs.push_back(o);
	}
	return j;
}

//---- the independent decoder --------------------------------------------------------------------------------
static void decode_text(Decoded::Sub& s, string const& text, long vp)
{
	bool i = false, u = false;
	int col = 7;
	Decoded::Line line;
	line.row = vp;
	int dia = 0;
	for (size_t k = 0; k < text.size(); ++k) {
		int const c = (unsigned char) text[k];
		if (c == 0x8f) break;
		if (c == 0x8a) { s.lines.push_back(line); line.chars.clear(); ++line.row; col = 7; dia = 0; continue; }
		if (c <= 7) { col = c; continue; }
		if (c == 0x80 || c == 0x81) { i = c == 0x80; continue; }
		if (c == 0x82 || c == 0x83) { u = c == 0x82; continue; }
		if (c < 0x20 || (c >= 0x84 && c <= 0x9f)) continue;
		if (c >= 0xc1 && c <= 0xcf) { dia = c; continue; }
		auto const x = decoder().find(std::make_pair(dia, c));
		line.chars.push_back(Decoded::Ch{ x == decoder().end() ? string("?") : utf8(x->second), i, u, col });
		dia = 0;
	}
	s.lines.push_back(line);
	// rows with nothing on them are only spacing
	vector<Decoded::Line> keep;
	for (auto const& l: s.lines) if (!l.chars.empty()) keep.push_back(l);
	s.lines = keep;
}

static string rtrim(string s) { while (!s.empty() && s.back() == ' ') s.pop_back(); return s; }

Decoded decode_stl(string const& b)
{
	Decoded d;
	auto fail = [&](string w) { d.ok = false; d.why = w; return d; };
	if (b.size() < 1024) return fail("shorter than a header");
	string const dfc = b.substr(3, 8);
	if (dfc.compare(0, 3, "STL") || dfc.compare(5, 3, ".01")) return fail("disk format code");
	long const fps = atol(dfc.substr(3, 2).c_str());
	if (fps < 1) return fail("rate");
	auto f = [&](char const* n, size_t o, size_t l) { d.fields[n] = rtrim(b.substr(o, l)); };
	f("cpn", 0, 3); f("dfc", 3, 8); f("dsc", 11, 1); f("cct", 12, 2); f("lang", 14, 2); f("opt", 16, 32); f("oet", 48, 32); f("tpt", 80, 32); f("tet", 112, 32);
	f("tn", 144, 32); f("tcd", 176, 32); f("cd", 224, 6); f("rd", 230, 6); f("rn", 236, 2); f("tns", 243, 5); f("mnc", 251, 2); f("country", 274, 3); f("publisher", 277, 32); f("en", 309, 32); f("ecd", 341, 32);
	// what every file of one disk says about itself
	if (d.fields["cpn"] != "850" && d.fields["cpn"] != "437") return fail("code page");
	if (d.fields["dsc"] != "0" && d.fields["dsc"] != "1" && d.fields["dsc"] != "2") return fail("display standard");
	auto number = [&](size_t o, size_t l, long lo, long hi) {
		string const x = b.substr(o, l);
		return x.find_first_not_of("0123456789") == string::npos && atol(x.c_str()) >= lo && atol(x.c_str()) <= hi;
	};
	if (!number(248, 3, 1, 255)) return fail("number of groups");
	if (!number(251, 2, 0, 99)) return fail("maximum characters");
	if (!number(253, 2, 23, 99)) return fail("maximum rows");
	if (!number(255, 1, 0, 1)) return fail("time code status");
	if (!number(256, 8, 0, 23595999) || !number(264, 8, 0, 23595999)) return fail("time code in the header");
	if (!number(272, 1, 1, 1) || !number(273, 1, 1, 1)) return fail("disk numbers");
	string const tnb = b.substr(238, 5);
	if (tnb.find_first_not_of("0123456789") != string::npos) return fail("number of blocks");
	long const n = atol(tnb.c_str());
	if (long(b.size()) != 1024 + 128 * n) return fail(fmt("%lu bytes but %ld blocks", (unsigned long) b.size(), n));
	string text;
	long expect_ext = 0;
	bool open = false;
	string first;
	for (long k = 0; k < n; ++k) {
		string const t = b.substr(size_t(1024 + 128 * k), 128);
		auto u = [&](size_t i) { return long((unsigned char) t[i]); };
		if (u(15) != 0) continue;
		long const ext = u(3);
		if (open) {
			if (t.substr(1, 2) != first.substr(1, 2) || t.substr(5, 8) != first.substr(5, 8)) return fail(fmt("block %ld does not continue the one before it", k));
		} else {
			first = t;
			expect_ext = 0;
			text.clear();
		}
		if (ext != 0xff && ext != expect_ext) return fail(fmt("block %ld has extension number %ld, not %ld", k, ext, expect_ext));
		++expect_ext;
		string piece = t.substr(16, 112);
		if (ext != 0xff) while (!piece.empty() && piece.back() == '\x8f') piece.pop_back();
		text += piece;
		open = ext != 0xff;
		if (!open) {
			auto v = [&](size_t i) { return long((unsigned char) first[i]); };
			Decoded::Sub s;
			s.from.h = v(5); s.from.m = v(6); s.from.s = v(7); s.from.f = v(8); s.from.rate = fps;
			s.to.h = v(9); s.to.m = v(10); s.to.s = v(11); s.to.f = v(12); s.to.rate = fps;
			for (auto const& x: { s.from, s.to }) if (x.h > 23 || x.m > 59 || x.s > 59 || x.f >= fps) return fail(fmt("block %ld has a bad time ", k) + show(x));
			s.jc = v(14);
			decode_text(s, text, v(13));
			d.subs.push_back(s);
		}
	}
	if (open) return fail("last block is to be continued");
	d.ok = true;
	return d;
}

static void expect_header(Decoded& d, Value const& v)
{
	d.fields["dfc"] = fmt("STL%lld.01", v["fps"].num());
	d.fields["cct"] = "00";
	d.fields["lang"] = languages()[size_t(v["lang"].num())].code;
	for (auto f: FIELDS) d.fields[f] = rtrim(v[f].str());
	d.fields["cd"] = v["cd"].str(); d.fields["rd"] = v["rd"].str(); d.fields["rn"] = fmt("%02lld", v["rn"].num()); d.fields["country"] = rtrim(v["country"].str());
}

/// put lines in order down the screen, with no more than one to a row
static void settle_rows(Decoded::Sub& s)
{
	std::stable_sort(s.lines.begin(), s.lines.end(), [](Decoded::Line const& a, Decoded::Line const& b) { return a.row < b.row; });
	vector<Decoded::Line> keep;
	for (size_t n = 0; n < s.lines.size(); ++n) if (n) s.lines[n].row = std::max(s.lines[n].row, s.lines[n - 1].row + 1);
	for (auto const& l: s.lines) if (!l.chars.empty()) keep.push_back(l);
	s.lines = keep;
}

/// what the reader makes of a file that has this in it: rows beyond the screen move everything up
Decoded as_read(Decoded d)
{
	long highest = 0;
	for (auto const& s: d.subs) for (auto const& l: s.lines) highest = std::max(highest, l.row);
	for (auto& s: d.subs) for (auto& l: s.lines) l.row -= std::max(0l, highest - 23);
	return d;
}

Decoded expect_written(Value const& v)
{
	Decoded d;
	d.ok = true;
	long const fps = long(v["fps"].num());
	expect_header(d, v);
	d.fields["tns"] = fmt("%05lu", (unsigned long) v["subs"].a.size());
	size_t longest = 0;
	bool foreign = false;
	for (auto const& s: v["subs"].a) {
		Decoded::Sub o;
		long const rate = long(s["rate"].num());
		auto tm = [&](long long t) { long long f = nearest(t, rate, fps); T x; x.h = long(f / fps / 3600); x.m = long(f / fps / 60 % 60); x.s = long(f / fps % 60); x.f = long(f % fps); x.rate = fps; return x; };
		o.from = tm(s["from"].num()); o.to = tm(s["to"].num());
		o.jc = long(s["h"].num()) == sub::LEFT_OF_SCREEN ? 1 : long(s["h"].num()) == sub::RIGHT_OF_SCREEN ? 3 : 2;
		vector<long> const rows = rows_of(s);
		o.rows = s["place"].num() == 2 ? Decoded::APART : Decoded::EXACT;
		for (size_t n = 0; n < rows.size(); ++n) {
			auto const& l = s["lines"].a[n];
			Decoded::Line k;
			k.row = rows[n];
			for (auto const& b: l["blocks"].a) {
				bool valid = true;
				for (auto c: as_written(text_of(b), valid, foreign)) k.chars.push_back(Decoded::Ch{ utf8(c), b["i"].flag(), b["u"].flag(), 7 });
			}
			longest = std::max(longest, k.chars.size());
			o.lines.push_back(k);
		}
		settle_rows(o);
		d.subs.push_back(o);
	}
	if (!foreign)   // otherwise it may count what could not be written
		d.fields["mnc"] = fmt("%02lu", (unsigned long) std::min<size_t>(longest, 99));
	return d;
}

string compare_decoded(Decoded const& e, Decoded const& a, bool header)
{
	if (!a.ok) return "not a valid file: " + a.why;
	if (header) for (auto const& f: e.fields) {
		auto i = a.fields.find(f.first);
		if (i == a.fields.end() || i->second != f.second) return "field " + f.first + ": expected " + esc(f.second) + ", got " + (i == a.fields.end() ? string("nothing") : esc(i->second));
	}
	for (size_t n = 0; n < std::max(e.subs.size(), a.subs.size()); ++n) {
		string const at = fmt("subtitle %lu of %lu: ", (unsigned long) n, (unsigned long) e.subs.size());
		if (n >= a.subs.size()) return at + "missing";
		if (n >= e.subs.size()) return at + "unexpected";
		auto x = e.subs[n];
		auto y = a.subs[n];
		if (x.rows == Decoded::ANY) {
			auto text = [](Decoded::Line const& l) { string s; for (auto const& c: l.chars) s += c.c + (c.i ? "/" : "") + (c.u ? "_" : ""); return s; };
			for (auto k: { &x.lines, &y.lines }) std::stable_sort(k->begin(), k->end(), [&](Decoded::Line const& a, Decoded::Line const& b) { return text(a) < text(b); });
		}
		if (x.rows == Decoded::RUN_ON) {
			for (auto k: { &x.lines, &y.lines }) {
				for (size_t l = 1; l < k->size(); ++l) (*k)[0].chars.insert((*k)[0].chars.end(), (*k)[l].chars.begin(), (*k)[l].chars.end());
				if (!k->empty()) k->resize(1);
			}
		}
		if (x.from_alt.rate && show(x.from_alt) == show(y.from)) x.from = x.from_alt;
		if (x.to_alt.rate && show(x.to_alt) == show(y.to)) x.to = x.to_alt;
		if (show(x.from) != show(y.from)) return at + "start time: expected " + show(x.from) + ", got " + show(y.from);
		if (show(x.to) != show(y.to)) return at + "end time: expected " + show(x.to) + ", got " + show(y.to);
		if (x.jc && x.jc != y.jc) return at + fmt("justification: expected %ld, got %ld", x.jc, y.jc);
		if (x.lines.size() != y.lines.size()) return at + fmt("expected %lu lines, got %lu", (unsigned long) x.lines.size(), (unsigned long) y.lines.size());
		if (!x.lines.empty() && (y.lines[0].row < x.first_min || y.lines[0].row > x.first_max)) return at + fmt("expected to start on row %ld to %ld, not %ld", x.first_min, x.first_max, y.lines[0].row);
		if (!x.lines.empty() && y.lines.back().row < x.last_min) return at + fmt("expected to end on row %ld or below, not %ld", x.last_min, y.lines.back().row);
		for (size_t l = 0; l < x.lines.size(); ++l) {
			string const la = at + fmt("line %lu: ", (unsigned long) l);
			long const down = x.rows == Decoded::APART ? y.lines[0].row - x.lines[0].row : 0;
			if (x.rows <= Decoded::APART && x.lines[l].row + down != y.lines[l].row) return la + fmt("expected on row %ld, got %ld", x.lines[l].row + down, y.lines[l].row);
			auto const& p = x.lines[l].chars;
			auto const& q = y.lines[l].chars;
			for (size_t c = 0; c < std::max(p.size(), q.size()); ++c) {
				string const ca = la + fmt("character %lu: ", (unsigned long) c);
				if (c >= q.size()) return ca + "missing " + esc(p[c].c);
				if (c >= p.size()) return ca + "unexpected " + esc(q[c].c);
				if (!(p[c] == q[c])) return ca + "expected " + esc(p[c].c) + (p[c].i ? " italic" : "") + (p[c].u ? " underlined" : "") + ", got " + esc(q[c].c) + (q[c].i ? " italic" : "") + (q[c].u ? " underlined" : "");
			}
		}
	}
	return "";
}

Decoded without_empty(Decoded d)
{
	vector<Decoded::Sub> keep;
	for (auto const& s: d.subs) if (!s.lines.empty()) keep.push_back(s);
	d.subs = keep;
	return d;
}

/// the frames that are nearest to a time; two if it is just between them
static vector<long long> nearest_frames(T const& t, long fps)
{
	long long const n = 2ll * t.f * fps, q = n / (2 * t.rate), rem = n % (2 * t.rate), s = (t.h * 3600ll + t.m * 60 + t.s) * fps;
	if (rem == t.rate) return { s + q, s + q + 1 };
	return { s + q + (rem > t.rate ? 1 : 0) };
}

static T of_frames(long long f, long fps)
{
	T x;
	x.h = long(f / fps / 3600); x.m = long(f / fps / 60 % 60); x.s = long(f / fps % 60); x.f = long(f % fps); x.rate = fps;
	return x;
}

Decoded expect_converted(vector<Doc const*> docs, Value const& header)
{
	Decoded d;
	long const fps = long(header["fps"].num());
	d.ok = true;
	expect_header(d, header);
	vector<Run> runs;
	int cues = 0;
	for (auto i: docs) {
		for (auto r: i->runs) { r.cue += cues; runs.push_back(r); }
		cues += i->cues + 1;
	}
	bool const shared = shared_places(runs);
	// (pieces of several cues may look like one when they are collected)
	std::map<string, std::set<int>> cues_at;
	for (auto const& r: runs) cues_at[show(r.from) + " " + show(r.to)].insert(r.cue);
	for (auto const& s: collected(runs)) {
		Decoded::Sub o;
		auto const& first = s[0][0];
		if (!first.from.rate || !first.to.rate) { d.ok = false; d.why = "no frame rate"; return d; }
		auto const from = nearest_frames(first.from, fps), to = nearest_frames(first.to, fps);
		if (std::max(from.back(), to.back()) >= 24ll * 3600 * fps) { d.ok = false; d.why = "24 hours or more"; return d; }
		o.from = of_frames(from[0], fps); o.to = of_frames(to[0], fps);
		if (from.size() > 1) o.from_alt = of_frames(from[1], fps);
		if (to.size() > 1) o.to_alt = of_frames(to[1], fps);
		o.jc = first.href == sub::LEFT_OF_SCREEN ? 1 : first.href == sub::RIGHT_OF_SCREEN ? 3 : 2;
		size_t size = 0;
		long next = 0;
		bool one_cue = cues_at[show(first.from) + " " + show(first.to)].size() == 1, one_reference = true, any_text = false;
		for (auto const& l: s) {
			Decoded::Line k;
			auto const& r = l[0];
			k.row = 0;
			if (r.vref == sub::TOP_OF_SUBTITLE || (r.vline != NO_LINE && r.vlines == NO_LINE && !r.has_vprop)) {
				k.row = std::max(r.vline, next);   // cues with the same times follow one another
				next = k.row + 1;
				o.rows = Decoded::APART;
			} else if (r.vref == sub::TOP_OF_SCREEN && r.vline != NO_LINE && r.vlines == 23) {
				k.row = std::max(0l, std::min(23l, r.vline));
			} else o.rows = Decoded::ORDER;
			for (auto const& b: l) {
				if (b.href != first.href) o.jc = 0;
				if (b.vref != first.vref) one_reference = false;
				bool valid = true, changed = false;
				for (auto c: as_written(b.text, valid, changed)) if (encoder().count(c)) { k.chars.push_back(Decoded::Ch{ utf8(c), b.i, b.u, 7 }); any_text = true; }
				size += b.text.size() + 10;
			}
			o.lines.push_back(k);
		}
		(void) any_text;
		if (size > 20000) { d.ok = false; d.why = "may be too long"; return d; }
		if (one_cue && one_reference && !o.lines.empty() && o.lines.size() <= 8) {
			bool blank = false;
			for (auto const& l: o.lines) if (l.chars.empty()) blank = true;
			if (o.rows == Decoded::APART) {
				// on the part of the screen that the alignment says, or at the bottom
				if (first.vref == sub::TOP_OF_SCREEN) o.first_max = 11;
				else if (first.vref == sub::VERTICAL_CENTRE_OF_SCREEN) { o.first_max = 12; o.last_min = 10; }
				else o.last_min = 12;
			} else if (o.rows == Decoded::ORDER && !blank && first.has_vprop) {
				double top = 1000;
				for (auto const& l: s) {
					double const v = l[0].vprop, f = l[0].vref == sub::BOTTOM_OF_SCREEN ? 1 - v : l[0].vref == sub::VERTICAL_CENTRE_OF_SCREEN ? 0.5 + v : v;
					top = std::min(top, f * 23);
				}
				top = std::max(0.0, std::min(23.0, top));
				o.first_min = long(top - 1); o.first_max = long(top + 2);
			}
		}
		if (o.rows == Decoded::ORDER) {
			if (!one_cue || !one_reference) o.rows = Decoded::ANY;
			vector<Decoded::Line> keep;
			for (auto const& l: o.lines) if (!l.chars.empty()) keep.push_back(l);
			o.lines = keep;
		} else {
			settle_rows(o);
			if (!one_cue && o.rows == Decoded::APART) o.rows = Decoded::ORDER;   // lines with nothing in them may come in between
		}
		if (shared && !one_cue) {
			if (o.rows == Decoded::ANY) { d.ok = false; d.why = "lines made of different cues"; return d; }
			o.rows = Decoded::RUN_ON;
		}
		d.subs.push_back(o);
	}
	return d;
}

Decoded from_read(Outcome const& o, long fps)
{
	Decoded d;
	if (!o.ok()) { d.why = o.kind + " " + o.what; return d; }
	if (o.no_reader) { d.why = "no reader"; return d; }
	d.ok = true;
	auto field = [&](char const* key, char const* name) {
		string const tag = string("field ") + name + "=";
		size_t p = o.header.find(tag);
		if (p == string::npos) return;
		string s = o.header.substr(p + tag.size(), o.header.find('\n', p) - p - tag.size());
		Value v;
		if (Value::parse(s, v) && v.kind == Value::STR) s = v.str();
		d.fields[key] = rtrim(s);
	};
	field("opt", "original_programme_title"); field("oet", "original_episode_title"); field("tpt", "translated_programme_title"); field("tet", "translated_episode_title");
	field("tn", "translator_name"); field("tcd", "translator_contact_details"); field("cd", "creation_date"); field("rd", "revision_date"); field("rn", "revision_number");
	field("country", "country_of_origin"); field("publisher", "publisher"); field("en", "editor_name"); field("ecd", "editor_contact_details");
	field("lang", "language"); field("tns", "number_of_subtitles"); field("mnc", "maximum_characters"); field("dfc", "frame_rate"); field("cct", "language_group");
	for (auto const& l: languages()) if (std::to_string(l.value) == d.fields["lang"]) { d.fields["lang"] = l.code; break; }
	d.fields["tns"] = fmt("%05ld", atol(d.fields["tns"].c_str()));
	d.fields["mnc"] = fmt("%02ld", atol(d.fields["mnc"].c_str()));
	d.fields["dfc"] = "STL" + d.fields["dfc"] + ".01";
	if (d.fields["cct"] == "0") d.fields["cct"] = "00";
	sub::RawSubtitle const* prev = nullptr;
	for (auto const& r: o.raws) {
		auto tm = [&](sub::Time const& t) { T x; x.h = t.hours(); x.m = t.minutes(); x.s = t.seconds(); x.rate = fps; try { x.f = t.frames_at(sub::Rational(int(fps), 1)); } catch (...) { x.f = -1; } return x; };
		T const from = tm(r.from), to = tm(r.to);
		bool const fresh = !prev || show(d.subs.back().from) != show(from) || show(d.subs.back().to) != show(to);
		if (fresh) {
			Decoded::Sub s;
			s.from = from; s.to = to;
			s.jc = r.horizontal_position.reference == sub::LEFT_OF_SCREEN ? 1 : r.horizontal_position.reference == sub::RIGHT_OF_SCREEN ? 3 : 2;
			d.subs.push_back(s);
		}
		prev = &r;
		if (r.text.empty()) continue;
		auto& s = d.subs.back();
		long row = -1000;
		if (r.vertical_position.line && r.vertical_position.lines && r.vertical_position.reference && *r.vertical_position.reference == sub::TOP_OF_SCREEN && *r.vertical_position.lines == 23) row = *r.vertical_position.line;
		if (s.lines.empty() || s.lines.back().row != row) { Decoded::Line l; l.row = row; s.lines.push_back(l); }
		for (auto c: utf8_decode(r.text)) s.lines.back().chars.push_back(Decoded::Ch{ utf8(c), r.italic, r.underline, 7 });
	}
	return d;
}

}
