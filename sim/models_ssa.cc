// SubStation Alpha
#include "models.h"
#include <algorithm>
#include <cstring>
#include <map>
#include <set>

using std::string;
using std::vector;

namespace sim {

static string cs_time(long long cs) { return fmt("%lld:%02lld:%02lld.%02lld", cs / 360000, cs / 6000 % 60, cs / 100 % 60, cs % 100); }

static bool is_hex(string const& s) { for (char c: s) if (!isxdigit((unsigned char) c)) return false; return !s.empty(); }
static int hex2(string const& s, size_t at) { return int(strtol(s.substr(at, 2).c_str(), nullptr, 16)); }

/// how a colour looks in a style. forms: 0 &Hbbggrr 1 &Haabbggrr 2 &Hbbggrr& 3 decimal
static string style_colour(Value const& v, Col& c, Doc& d)
{
	string const h = v["bgr"].str();
	if (h.size() != 6 || !is_hex(h)) { d.invalid("colour"); return "0"; }
	c.b = hex2(h, 0) / 255.0; c.g = hex2(h, 2) / 255.0; c.r = hex2(h, 4) / 255.0;
	switch (v["form"].num()) {
	case 0: return "&H" + h;
	case 1: { string const a = v["a"].str_or("00"); if (a.size() != 2 || !is_hex(a)) d.invalid("alpha"); return "&H" + a + h; }
	case 2: return "&H" + h + "&";
	default: return std::to_string(strtol(h.c_str(), nullptr, 16));
	}
}

namespace {
struct Style
{
	string font; bool has_font = false;
	long size = 72;
	Col prim, back;
	bool has_back = false, b = false, i = false, u = false, shadow = false;
	long align = 2, mv = 0, ml = 0, mr = 0;
};
}

static bool simple(string const& s) { return s.find_first_of("\r\n\v\f") == string::npos && s.find('\0') == string::npos; }

static vector<string> const unknown_tags = {
	"k20", "kf30", "fad(100,200)", "blur1", "bord2", "shad0", "frz30", "fnArial", "alpha&H80&", "1c&H0000FF&", "3c&H112233&", "4a&HFF&", "q2", "be1",
	"org(1,2)", "move(1,2,3,4)", "fscx100", "fscy90", "fsp2", "clip(0,0,10,10)", "iclip(0,0,5,5)", "p0", "fe0", "xbord1", "fax0.5", "a6", "ybord2", "pbo4"
};

Doc build_ssa(Value const& v)
{
	Doc d;
	if (v["bom"].flag()) d.emit("\xef\xbb\xbf", Seg::STRUCT);
	size_t ln = 0;
	auto eol = [&](int cue) { d.emit(line_end(v, ln++), Seg::EOL, cue); };
	auto line = [&](string const& s, int cue = -1) { if (!simple(s)) d.invalid("line"); d.emit(s, Seg::STRUCT, cue); eol(cue); };
	auto junk = [&](Value const& j) {
		for (auto const& x: j.a) {
			if (!x.str().empty() && x.str()[0] != ';') d.invalid("junk");
			if (!simple(x.str())) d.invalid("junk");
			d.emit(x.str(), Seg::SAFE);
			eol(-1);
		}
	};

	long px = 288, py = 288;
	line("[Script Info]");
	for (auto const& i: v["info"].a) {
		string const k = i["k"].str(), t = i["v"].str();
		if (k.empty() || k[0] == ';' || k[0] == '[' || k.find(':') != string::npos || k == "PlayResX" || k == "PlayResY") d.invalid("info");
		if (t.find('[') == 0) d.invalid("info");
		line(k + ": " + t);
	}
	if (v.has("px")) { px = long(v["px"].num()); line("PlayResX: " + std::to_string(px)); }
	junk(v["junk1"]);
	if (v.has("py")) { py = long(v["py"].num()); line("PlayResY: " + std::to_string(py)); }
	if (px < 1 || py < 1 || px > 10000 || py > 10000) d.invalid("resolution");
	auto other = [&](char const* where) {
		for (auto const& x: v["other"].a) {
			if (x["at"].str() != where) continue;
			string const h = x["name"].str();
			if (h.empty() || h == "Script Info" || h == "V4 Styles" || h == "V4+ Styles" || h == "Events" || h.find(']') != string::npos) d.invalid("section");
			line("[" + h + "]");
			for (auto const& l: x["lines"].a) {
				string const& s = l.str();
				for (auto k: { "[Script Info]", "[V4 Styles]", "[V4+ Styles]", "[Events]" }) if (s.find(k) != string::npos) d.invalid("line of a section");
				line(s);
			}
		}
	};
	if (v["garbage"].flag()) { eol(-1); line("[Aegisub Project Garbage]"); line("Last Style Storage: Default"); line("Video File: a:b,c.mkv"); line("PlayResX: 17"); }
	other("styles");

	//---- styles
	eol(-1);
	line(v["v4plus"].flag() ? "[V4+ Styles]" : "[V4 Styles]");
	string const csp = v["csp"].flag() ? ", " : ",";
	auto const& sf = v["sfmt"].a;
	std::set<string> scol;
	string f = "Format: ";
	for (size_t i = 0; i < sf.size(); ++i) {
		string const& n = sf[i].str();
		if (n.empty() || n.find_first_of(",:") != string::npos || !simple(n)) d.invalid("column");
		if (!scol.insert(n).second) d.invalid("column twice");
		f += (i ? csp : "") + n;
	}
	if (!scol.count("Name")) d.invalid("style columns");
	line(f);
	std::map<string, Style> styles;
	for (auto const& s: v["styles"].a) {
		Style st;
		string const name = s["name"].str();
		if (name.empty() || name[0] == '*' || name.find(',') != string::npos || name[0] == ' ' || name.back() == ' ' || !simple(name)) d.invalid("style name");
		string l = "Style: ";
		for (size_t i = 0; i < sf.size(); ++i) {
			string const& n = sf[i].str();
			string x;
			if (n == "Name") x = name;
			else if (n == "Fontname") { x = s["font"].str(); if (x.find(',') != string::npos || x.empty() || x[0] == ' ' || x.back() == ' ') d.invalid("font"); st.font = x; st.has_font = true; }
			else if (n == "Fontsize") { st.size = long(s["size"].num()); if (st.size < 1 || st.size > 1000) d.invalid("size"); x = std::to_string(st.size); }
			else if (n == "PrimaryColour") x = style_colour(s["prim"], st.prim, d);
			else if (n == "BackColour") { x = style_colour(s["back"], st.back, d); st.has_back = true; }
			else if (n == "Bold") { st.b = s["b"].flag(); x = st.b ? "-1" : "0"; }
			else if (n == "Italic") { st.i = s["i"].flag(); x = st.i ? "-1" : "0"; }
			else if (n == "Underline") { st.u = s["u"].flag(); x = st.u ? "-1" : "0"; }
			else if (n == "BorderStyle") { st.shadow = s["shadow"].flag(); x = st.shadow ? "1" : "3"; }
			else if (n == "Alignment") { st.align = long(s["align"].num()); if (st.align < 1 || st.align > 9) d.invalid("alignment"); x = std::to_string(st.align); }
			else if (n == "MarginV") { st.mv = long(s["mv"].num()); x = std::to_string(st.mv); }
			else if (n == "MarginL") { st.ml = long(s["ml"].num()); x = std::to_string(st.ml); }
			else if (n == "MarginR") { st.mr = long(s["mr"].num()); x = std::to_string(st.mr); }
			else x = n == "SecondaryColour" || n == "TertiaryColour" || n == "OutlineColour" ? "&H00FF00" : std::to_string(s["other"].num() % 100);
			l += (i ? csp : "") + x;
		}
		for (long m: { st.mv, st.ml, st.mr }) if (m < 0 || m > 5000) d.invalid("margin");
		styles[name] = st;
		line(l);
		junk(s["junk"]);
	}

	//---- events
	eol(-1);
	other("events");
	line("[Events]");
	auto const& ef = v["efmt"].a;
	std::map<string, size_t> ecol;
	f = "Format: ";
	for (size_t i = 0; i < ef.size(); ++i) {
		string const& n = ef[i].str();
		if (n.empty() || n.find_first_of(",:") != string::npos || !simple(n)) d.invalid("column");
		if (ecol.count(n)) d.invalid("column twice");
		ecol[n] = i;
		f += (i ? csp : "") + n;
	}
	if (!ecol.count("Start") || !ecol.count("End") || !ecol.count("Text") || ecol["Text"] + 1 != ef.size()) { d.invalid("event columns"); return d; }
	for (auto n: { "MarginL", "MarginR", "MarginV" }) if (ecol.count(n) && ecol.count("Style") && ecol[n] < ecol["Style"]) d.invalid("style after margin");
	line(f);
	auto const& ev = v["events"].a;
	for (size_t n = 0; n < ev.size(); ++n) {
		auto const& e = ev[n];
		string const type = e["type"].str();
		bool const dialogue = type == "Dialogue";
		if (!dialogue && type != "Comment" && type != "Sound") d.invalid("event");
		int const cue = dialogue ? d.cues++ : -1;
		if (dialogue) d.breaks.resize(size_t(d.cues));
		long long const from = e["from"].num(), to = e["to"].num();
		if (from < 0 || to < 0 || from >= 360000000ll || to >= 360000000ll) d.invalid("time");
		if (dialogue) {
			size_t last = n;
			for (size_t m = 0; m < n; ++m) {
				if (ev[m]["type"].str() != "Dialogue") continue;
				last = m;
				if (ev[m]["from"].num() == from && ev[m]["to"].num() == to) d.raw_only = true;
			}
			// whether pieces of neighbours with the same times are one depends on the last bit of their positions
			if (last < n && ev[last]["from"].num() == from && ev[last]["to"].num() == to) d.invalid("neighbours with the same times");
		}
		string prefix = type + ": ";
		string sname = e["style"].str();
		string const bare = sname.substr(std::min(sname.size(), sname.find_first_not_of('*') == string::npos ? sname.size() : sname.find_first_not_of('*')));
		if (sname.find(',') != string::npos || !simple(sname) || (!sname.empty() && (sname[0] == ' ' || sname.back() == ' ')) || (!bare.empty() && bare[0] == ' ')) d.invalid("style reference");
		long mm[3] = { 0, 0, 0 };
		char const* const mn[3] = { "MarginL", "MarginR", "MarginV" };
		for (size_t i = 0; i + 1 < ef.size(); ++i) {
			string const& c = ef[i].str();
			string x;
			if (c == "Start") x = cs_time(from);
			else if (c == "End") x = cs_time(to);
			else if (c == "Style") x = sname;
			else if (c == "Marked") x = "Marked=0";
			else if (c == "Layer") x = std::to_string(n % 4);
			else if (c == "Name" || c == "Actor") { x = e["name"].str(); if (x.find(',') != string::npos || !simple(x)) d.invalid("name"); }
			else if (c == "Effect") { x = e["effect"].str(); if (x.find(',') != string::npos || !simple(x)) d.invalid("effect"); }
			else {
				for (int k = 0; k < 3; ++k) if (c == mn[k]) {
					x = e[mn[k]].str_or("0");
					if (x.empty() || x.size() > 4 || x.find_first_not_of("0123456789") != string::npos) d.invalid("margin");
					mm[k] = atol(x.c_str());
				}
				if (x.empty()) x = "0";
			}
			prefix += x + csp;
		}
		d.emit(prefix, Seg::STRUCT, cue);

		Run s;
		s.cue = cue;
		s.from = t_ms(from * 10); s.to = t_ms(to * 10);
		Style st;
		Style const* named = nullptr;
		if (ecol.count("Style")) {
			if (styles.count(bare)) named = &styles[bare]; else if (styles.count("Default")) named = &styles["Default"];
		}
		long align = 2, ml = 0, mr = 0, mv = 0;
		Col prim;
		s.vref = sub::BOTTOM_OF_SCREEN;
		if (named) {
			st = *named;
			s.font = st.font; s.has_font = true; if (!st.has_font) s.has_font = false;
			s.col = prim = st.prim;
			s.has_effcol = st.has_back; s.effcol = st.back;
			s.b = st.b; s.i = st.i; s.u = st.u;
			if (st.shadow) s.effect = sub::SHADOW;
			align = st.align; ml = st.ml; mr = st.mr; mv = st.mv;
		}
		s.fprop = double(st.size) / double(py);
		if (mm[0]) ml = mm[0];
		if (mm[1]) mr = mm[1];
		if (mm[2]) mv = mm[2];
		double const ls = s.fprop * 1.2;
		auto place = [&] {
			static int const vr[] = { sub::BOTTOM_OF_SCREEN, sub::VERTICAL_CENTRE_OF_SCREEN, sub::TOP_OF_SCREEN };
			s.vref = vr[(align - 1) / 3];
			switch ((align - 1) % 3) {
			case 0: s.href = sub::LEFT_OF_SCREEN; s.hprop = double(ml) / double(px); break;
			case 1: s.href = sub::HORIZONTAL_CENTRE_OF_SCREEN; s.hprop = double(ml - mr) / (2.0 * double(px)); break;
			default: s.href = sub::RIGHT_OF_SCREEN; s.hprop = double(mr) / double(px); break;
			}
		};
		place();
		s.has_vprop = true;
		s.ssa_pos = true;
		s.ssa_ls = ls;
		s.ssa_margin = double(mv) / double(py);
		s.ssa_line = 0;
		size_t const start = d.bytes.size();
		size_t const first_run = d.runs.size();
		Run cur = s;
		bool text_seen = false, positioned = false;
		auto flush = [&] { if (!cur.text.empty()) d.runs.push_back(cur); cur = s; cur.text.clear(); cur.ends.clear(); };
		if (!dialogue) {
			string const& t = e["t"].str();
			if (!simple(t)) d.invalid("text");
			d.emit(t, Seg::SAFE);
			eol(-1);
			junk(e["junk"]);
			continue;
		}
		for (auto const& x: e["els"].a) {
			string const k = x["k"].str();
			if (k == "t") {
				string const& t = x["t"].str();
				if (t.empty() || !simple(t) || t.find_first_of("{}") != string::npos) d.invalid("text");
				for (size_t q = 0; (q = t.find('\\', q)) != string::npos; ++q) if (q + 1 == t.size() ? &x != &e["els"].a.back() : bool(strchr("nNh", t[q + 1]))) d.invalid("escape");
				add_text(d, cur, t);
				text_seen = true;
			} else if (k == "br") {
				d.emit(x["n"].flag() ? "\\n" : "\\N", Seg::MARK, cue);
				d.breaks[size_t(cue)].push_back(d.bytes.size());
				flush();
				++s.ssa_line;
				cur.ssa_line = s.ssa_line;
				text_seen = true;
			} else if (k == "h") {
				d.emit("\\h", Seg::MARK, cue);
				cur.text += "\xc2\xa0";
				cur.ends.push_back(d.bytes.size());
				cur.ends.push_back(d.bytes.size());
				text_seen = true;
			} else if (k == "note") {
				string const& t = x["t"].str();
				if (!simple(t) || t.find_first_of("{}") != string::npos || t.find(',') == 0) d.invalid("note");
				for (size_t q = 0; (q = t.find('\\', q)) != string::npos; ++q) if (q + 1 == t.size() || !strchr("nNh", t[q + 1])) d.invalid("tag in note");
				d.emit("{" + t + "}", Seg::MARK, cue);
			} else if (k == "tags") {
				string whole = "{";
				vector<std::function<void ()>> apply;
				if (x["tags"].a.empty()) d.invalid("tags");
				for (auto const& tv: x["tags"].a) {
					string const& t = tv.str();
					whole += "\\" + t;
					if (t == "b1") apply.push_back([&] { s.b = true; });
					else if (t == "b0") apply.push_back([&] { s.b = false; });
					else if (t == "i1") apply.push_back([&] { s.i = true; });
					else if (t == "i0" || t == "i") apply.push_back([&] { s.i = false; });
					else if (t == "u1") apply.push_back([&] { s.u = true; });
					else if (t == "u0") apply.push_back([&] { s.u = false; });
					else if (t == "c") apply.push_back([&] { s.col = prim; });
					else if (t.size() == 10 && !t.compare(0, 3, "c&H") && t[9] == '&' && is_hex(t.substr(3, 6)))
						apply.push_back([&, t] { s.col.b = hex2(t, 3) / 255.0; s.col.g = hex2(t, 5) / 255.0; s.col.r = hex2(t, 7) / 255.0; });
					else if (t.size() == 3 && !t.compare(0, 2, "an") && t[2] >= '1' && t[2] <= '9') {
						if (text_seen || positioned) d.invalid("alignment not at the start");
						apply.push_back([&, t] { align = t[2] - '0'; place(); });
					} else if (t.size() > 2 && !t.compare(0, 2, "fs") && t.find_first_not_of("0123456789.", 2) == string::npos && isdigit((unsigned char) t[2])) {
						if (std::count(t.begin(), t.end(), '.') > 1 || t.back() == '.' || t.size() > 9) d.invalid("font size");
						double n = 0, scale = 0;
						for (size_t i = 2; i < t.size(); ++i) { if (t[i] == '.') scale = 1; else { n = n * 10 + (t[i] - '0'); scale *= 10; } }
						if (scale > 0) n /= scale;
						apply.push_back([&, n] { s.fprop = n / double(py); });
					} else if (!t.compare(0, 4, "pos(")) {
						if (text_seen || positioned) d.invalid("position");
						size_t const comma = t.find(',');
						if (t.back() != ')' || comma == string::npos || t.find_first_not_of("0123456789.,", 4) != t.size() - 1) { d.invalid("position"); continue; }
						auto number = [&](string const& q) {
							if (q.empty() || !isdigit((unsigned char) q[0]) || q.back() == '.' || q.size() > 8 || std::count(q.begin(), q.end(), '.') > 1 || q.find(',') != string::npos) d.invalid("position");
							double n = 0, scale = 0;
							for (char c: q) { if (c == '.') scale = 1; else { n = n * 10 + (c - '0'); scale *= 10; } }
							return scale > 0 ? n / scale : n;
						};
						double const X = number(t.substr(4, comma - 4)), Y = number(t.substr(comma + 1, t.size() - comma - 2));
						positioned = true;
						apply.push_back([&, X, Y] { s.href = sub::LEFT_OF_SCREEN; s.hprop = X / double(px); s.vref = sub::TOP_OF_SCREEN; s.ssa_margin = double(mv + Y) / double(py); });
					} else if (std::find(unknown_tags.begin(), unknown_tags.end(), t) == unknown_tags.end()) {
						d.invalid("tag");
					}
				}
				d.emit(whole + "}", Seg::MARK, cue);
				for (auto const& a: apply) a();
				flush();
			} else {
				d.invalid("element");
			}
		}
		flush();
		string const text = d.bytes.substr(start);
		if (!text.empty() && (text[0] == ' ' || text[0] == '\t' || text.back() == ' ' || text.back() == '\t')) d.invalid("space at an end");
		// finish positions
		long const breaks = long(d.breaks[size_t(cue)].size());
		for (size_t i = first_run; i < d.runs.size(); ++i) {
			auto& r = d.runs[i];
			switch (r.vref) {
			case sub::TOP_OF_SCREEN: r.vprop = r.ssa_margin + double(r.ssa_line) * ls; break;
			case sub::BOTTOM_OF_SCREEN: r.vprop = r.ssa_margin + double(breaks - r.ssa_line) * ls; break;
			default: r.vprop = double(r.ssa_line) * ls - double(breaks + 1) * ls / 2; break;
			}
		}
		eol(cue);
		junk(e["junk"]);
	}
	other("end");
	long long const final = std::min(5ll, std::max(0ll, v["final"].num(1)));
	if (final == 0 && !d.segs.empty() && d.segs.back().kind == Seg::EOL) { d.bytes.resize(d.segs.back().start); d.segs.pop_back(); }
	for (long long i = 1; i < final; ++i) eol(-1);
	return d;
}

static string random_hex(Rng& r, int n) { string s; for (int i = 0; i < n; ++i) s += (r.chance(50) ? "0123456789abcdef" : "0123456789ABCDEF")[r.below(16)]; return s; }

template <class T> static void shuffle(Rng& r, vector<T>& v) { for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[size_t(r.below(long(i)))]); }

static Value gen_colour(Rng& r)
{
	return Value::obj().set("bgr", random_hex(r, 6)).set("form", r.range(0, 3)).set("a", random_hex(r, 2));
}

static Value gen_junk(Rng& r)
{
	Value j = Value::arr();
	while (r.chance(10)) j.push(r.chance(40) ? string() : ";" + gen_text(r, gen_length(r), ""));
	return j;
}

Value gen_ssa(Rng& r)
{
	Value v = Value::obj();
	v.set("bom", r.chance(25)).set("eol", r.chance(50) ? 0 : r.chance(70) ? 1 : int(r.range(2, 1000))).set("final", r.chance(30) ? 0 : r.range(1, 3));
	bool const plus = r.chance(60);
	v.set("v4plus", plus).set("csp", r.chance(40)).set("garbage", r.chance(15));
	Value sections = Value::arr();
	while (r.chance(12)) {
		static vector<char const*> const at = { "styles", "events", "end" };
		static vector<char const*> const names = { "Fonts", "Graphics", "Aegisub Extradata", "events", "Event", "V4++ Styles" };
		Value lines = Value::arr();
		for (long k = r.range(0, 5); k > 0; --k) {
			long const x = r.below(100);
			if (x < 50) { string s; for (long q = r.chance(50) ? 80 : r.range(1, 79); q > 0; --q) s += char(r.range(33, 96)); lines.push(s); }
			else if (x < 60) lines.push("fontname: chaucer_B0.ttf");
			else if (x < 70) lines.push("Dialogue: 0,0:00:01.00,0:00:02.00,Default,,0,0,0,,no");
			else if (x < 80) lines.push("Format: Start, End, Text");
			else if (x < 85) lines.push("PlayResY: 13");
			else lines.push(gen_text(r, gen_length(r), ""));
		}
		sections.push(Value::obj().set("at", r.pick(at)).set("name", r.pick(names)).set("lines", lines));
	}
	v.set("other", sections);
	Value info = Value::arr();
	for (long i = r.range(0, 4); i > 0; --i) {
		static vector<std::pair<char const*, char const*>> const k = { { "ScriptType", "v4.00" }, { "Title", "A: title, with things" }, { "Collisions", "Normal" }, { "Timer", "100.0000" }, { "WrapStyle", "0" }, { "Original Script", "x" }, { "PlayDepth", "0" } };
		auto const& x = r.pick(k);
		info.push(Value::obj().set("k", x.first).set("v", r.chance(80) ? string(x.second) : gen_text(r, gen_length(r), "[")));
	}
	v.set("info", info).set("junk1", gen_junk(r));
	static vector<long> const res = { 288, 384, 640, 480, 720, 1280, 1920, 1080, 100, 999 };
	if (r.chance(70)) v.set("px", r.pick(res));
	if (r.chance(70)) v.set("py", r.pick(res));

	vector<string> cols = { "Name" };
	static vector<string> const more = { "PrimaryColour", "Fontname", "Fontsize", "SecondaryColour", "BackColour", "Bold", "Italic", "BorderStyle", "Outline", "Shadow", "Alignment", "MarginL", "MarginR", "MarginV", "AlphaLevel", "Encoding", "Underline", "StrikeOut", "ScaleX", "Spacing", "Angle", "OutlineColour" };
	for (auto const& m: more) if (r.chance(85)) cols.push_back(m);
	if (r.chance(50)) shuffle(r, cols);
	Value sf = Value::arr();
	for (auto const& c: cols) sf.push(c);
	v.set("sfmt", sf);
	Value styles = Value::arr();
	long const ns = r.range(0, 4);
	vector<string> names;
	for (long i = 0; i < ns; ++i) {
		string const name = i && r.chance(10) ? r.pick(names) : i == 0 && r.chance(80) ? "Default" : r.chance(50) ? "Style " + std::to_string(i) : "s" + std::to_string(i) + gen_text(r, r.range(1, 8), ", ");
		names.push_back(name);
		Value s = Value::obj();
		static vector<char const*> const fonts = { "Arial", "Arial Black", "Helvetica Neue", "DejaVu Sans", "F\xc3\xbcnt" };
		s.set("name", name).set("font", r.pick(fonts)).set("size", r.chance(80) ? r.range(10, 72) : r.range(1, 300));
		s.set("prim", gen_colour(r)).set("back", gen_colour(r)).set("b", r.chance(30)).set("i", r.chance(30)).set("u", r.chance(20)).set("shadow", r.chance(50));
		s.set("align", r.chance(60) ? 2 : r.range(1, 9)).set("mv", r.chance(40) ? 0 : r.range(0, 120)).set("ml", r.range(0, 60)).set("mr", r.range(0, 60)).set("other", r.below(100)).set("junk", gen_junk(r));
		styles.push(s);
	}
	v.set("styles", styles);

	vector<string> head = { "Start", "End", r.chance(50) ? "Layer" : "Marked" };
	if (r.chance(95)) head.push_back("Style");
	vector<string> tail = { "Name", "Effect" };
	for (auto m: { "MarginL", "MarginR", "MarginV" }) if (r.chance(90)) tail.push_back(m);
	if (r.chance(40)) { shuffle(r, head); shuffle(r, tail); }
	Value ef = Value::arr();
	for (auto const& h: head) ef.push(h);
	for (auto const& t: tail) ef.push(t);
	ef.push("Text");
	v.set("efmt", ef);

	long const n = r.chance(5) ? r.range(10, 60) : r.few(1, 8);
	Value const times = gen_times(r, n, 100, r.chance(10) ? 100 * 3600 : 10 * 3600);
	Value evs = Value::arr();
	int const density = int(r.below(70));
	long long last_from = -1, last_to = -1;
	for (long i = 0; i < n; ++i) {
		if (r.chance(7)) evs.push(Value::obj().set("type", r.chance(70) ? "Comment" : "Sound").set("from", 0).set("to", 100).set("style", "Default").set("t", gen_text(r, gen_length(r), "")));
		Value e = Value::obj();
		long long const from = times.a[size_t(i * 2)].num();
		long long to = times.a[size_t(i * 2 + 1)].num();
		if (i && from == last_from && to == last_to) ++to;
		last_from = from;
		last_to = to;
		e.set("type", "Dialogue").set("from", from).set("to", to);
		string st = names.empty() || r.chance(10) ? (r.chance(50) ? "Default" : "Nope") : r.pick(names);
		if (r.chance(15)) st = "*" + st;
		e.set("style", st);
		bool const pos = r.chance(22);
		for (auto m: { "MarginL", "MarginR", "MarginV" }) {
			static vector<char const*> const zero = { "0", "0000", "00", "000" };
			e.set(m, r.chance(60) ? string(r.pick(zero)) : fmt(r.chance(50) ? "%04ld" : "%ld", r.range(1, 200)));
		}
		if (r.chance(20)) e.set("name", "Actor " + std::to_string(i));
		if (r.chance(10)) e.set("effect", "Scroll up;1;2");
		Value els = Value::arr();
		if (r.chance(12)) {
			Value t = Value::arr();
			t.push("an" + std::to_string(r.range(1, 9)));
			if (r.chance(30)) t.push("fs" + std::to_string(r.range(5, 90)));
			els.push(Value::obj().set("k", "tags").set("tags", t));
		}
		if (pos) {
			Value t = Value::arr();
			t.push(r.chance(60) ? fmt("pos(%ld,%ld)", r.range(0, 800), r.range(0, 800)) : fmt("pos(%ld.%ld,%ld.%02ld)", r.range(0, 800), r.range(0, 9), r.range(0, 800), r.range(0, 99)));
			els.push(Value::obj().set("k", "tags").set("tags", t));
		}
		long const ne = 1 + (r.chance(density) ? r.few(1, 9) : 0);
		for (long k = 0; k < ne; ++k) {
			long const x = r.below(100);
			if (x < 50 || ne == 1) {
				els.push(Value::obj().set("k", "t").set("t", gen_text(r, gen_any_length(r), "\\{}") + (r.chance(6) ? "\\" + string(r.chance(50) ? "temp" : "\\ ") + gen_text(r, gen_length(r), "\\{}") : "")));
			} else if (x < 65) {
				els.push(Value::obj().set("k", "br").set("n", r.chance(30)));
			} else if (x < 70) {
				els.push(Value::obj().set("k", "note").set("t", (r.chance(20) ? "note\\N" : "note ") + gen_text(r, r.range(1, 300), "\\{},")));
			} else if (x < 74) {
				els.push(Value::obj().set("k", "h"));
			} else {
				Value t = Value::arr();
				for (long q = r.few(1, 4); q > 0; --q) {
					static vector<char const*> const tags = { "i1", "i0", "i", "b1", "b0", "u1", "u0", "c" };
					long const y = r.below(100);
					if (y < 50) t.push(r.pick(tags));
					else if (y < 65) t.push("c&H" + random_hex(r, 6) + "&");
					else if (y < 75) t.push(r.chance(60) ? fmt("fs%ld", r.range(1, 200)) : fmt("fs%ld.%ld", r.range(1, 200), r.range(0, 9)));
					else t.push(r.pick(unknown_tags));
				}
				els.push(Value::obj().set("k", "tags").set("tags", t));
			}
		}
		auto fix = [&](Value& x, bool front) {
			if (x["k"].str() != "t") return;
			string t = x["t"].str();
			if (front) for (size_t q = 0; q < t.size() && t[q] == ' '; ++q) t[q] = '.';
			else for (size_t q = t.size(); q > 0 && t[q - 1] == ' '; --q) t[q - 1] = '.';
			if (!front && r.chance(4)) t += "\\";
			x.set("t", t);
		};
		if (!els.a.empty()) { fix(els.a.front(), true); fix(els.a.back(), false); }
		e.set("els", els).set("junk", gen_junk(r));
		evs.push(e);
	}
	v.set("events", evs);
	return v;
}

}
