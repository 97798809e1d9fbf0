// SubRip and WebVTT
#include "models.h"
#include <algorithm>

using std::string;
using std::vector;

namespace sim {

static string const LS = "\xe2\x80\xa8", RLE = "\xe2\x80\xab", BOM = "\xef\xbb\xbf";

static string repeat(string const& s, long long n) { string r; for (; n > 0; --n) r += s; return r; }

static string ms_time(long long ms, char sep)
{
	return fmt("%02lld:%02lld:%02lld%c%03lld", ms / 3600000, ms / 60000 % 60, ms / 1000 % 60, sep, ms % 1000);
}

//---- SubRip -------------------------------------------------------------------------------------------
static char const* const TOKENS[] = { "<b>", "{b}", "</b>", "{/b}", "<i>", "{i}", "</i>", "{/i}", "<u>", "{u}", "</u>", "{/u}", "<font", "</font>", "{\\" };

static bool is_hex(string const& s) { for (char c: s) if (!isxdigit((unsigned char) c)) return false; return true; }
static int hex2(string const& s, size_t at) { return int(strtol(s.substr(at, 2).c_str(), nullptr, 16)); }

/// how a font tag looks. @return "" if it makes no sense
static string font_tag(Value const& e, Col& c)
{
	string const form = e["form"].str();
	bool const up = e["up"].flag();
	string const open = up ? "<FONT " : "<font ";
	string const before = e["before"].str(), after = e["after"].str();
	for (auto const& x: { before, after }) if (x.find_first_of("<>{}#\n\r") != string::npos || x.find("color") != string::npos || x.find(LS) != string::npos || x.find(RLE) != string::npos) return "";
	if (!before.empty() && before.back() != ' ') return "";
	if (!after.empty() && after[0] != ' ') return "";
	if (form == "rgba") {
		long r = long(e["r"].num()), g = long(e["g"].num()), b = long(e["b"].num()), a = long(e["a"].num());
		for (long x: { r, g, b, a }) if (x < 0 || x > 255) return "";
		c.r = double(r) / 255; c.g = double(g) / 255; c.b = double(b) / 255;
		string const sp(size_t(std::min(3ll, std::max(0ll, e["sp"].num()))), ' ');
		return open + before + "color=\"rgba(" + sp + std::to_string(r) + sp + "," + std::to_string(g) + "," + sp + std::to_string(b) + sp + "," + sp + std::to_string(a) + sp + ")\"" + after + ">";
	}
	string const h = e["hex"].str();
	if (!is_hex(h) || (h.size() != 6 && h.size() != 8)) return "";
	c.r = hex2(h, 0) / 255.0; c.g = hex2(h, 2) / 255.0; c.b = hex2(h, 4) / 255.0;
	string const q = form == "dq" ? "\"" : form == "sq" ? "'" : "";
	return open + before + "color=" + q + "#" + h + q + after + ">";
}

Doc build_srt(Value const& v)
{
	Doc d;
	if (v["bom"].flag()) d.emit(BOM, Seg::STRUCT);
	size_t ln = 0;
	auto eol = [&](int cue) { d.emit(line_end(v, ln++), Seg::EOL, cue); };
	for (long long i = 0; i < std::min(20ll, v["lead"].num()); ++i) eol(-1);
	auto const& cues = v["cues"].a;
	for (size_t n = 0; n < cues.size(); ++n) {
		auto const& c = cues[n];
		int const cue = d.cues++;
		long long const from = c["from"].num(), to = c["to"].num();
		if (from < 0 || to < 0 || from >= 3600000000ll || to >= 3600000000ll) d.invalid("time");
		string const id = c["id"].str();
		if (id.empty() || id.find_first_not_of("0123456789 ") != string::npos || id[0] == ' ') d.invalid("id");
		d.emit(id, Seg::SAFE, cue);
		eol(cue);
		string sp(size_t(1 + std::min(3ll, std::max(0ll, c["sp"].num()))), ' ');
		string timing = ms_time(from, ',') + sp + "-->" + sp + ms_time(to, ',');
		if (c["coords"].flag()) timing += "  X1:0" + std::to_string(n % 9) + " X2:100 Y1:10 Y2:-20";
		timing += string(size_t(std::min(5ll, std::max(0ll, c["tail"].num()))), ' ');
		d.emit(timing, Seg::STRUCT, cue);
		eol(cue);

		Run s;
		s.cue = cue;
		s.from = t_ms(from); s.to = t_ms(to);
		s.vref = sub::TOP_OF_SUBTITLE;
		s.vline = 0;
		vector<Col> stack;
		bool first = true;
		if (c["lines"].a.empty()) d.invalid("no lines");
		for (auto const& line: c["lines"].a) {
			size_t const start = d.bytes.size();
			auto fresh = [&] { Run r = s; r.text.clear(); r.ends.clear(); return r; };
			Run cur = fresh();
			auto flush = [&] { if (!cur.text.empty()) d.runs.push_back(cur); cur = fresh(); };
			for (auto const& e: line.a) {
				string const k = e["k"].str();
				if (k == "t") {
					string const t = e["t"].str();
					if (t.empty() || t.find_first_of("\r\n") != string::npos || t.find('\0') != string::npos || t.find(LS) != string::npos || t.find(RLE) != string::npos || t.find(BOM) != string::npos) d.invalid("text");
					add_text(d, cur, t);
					first = false;
				} else if (k == "sep") {
					d.emit(LS, Seg::MARK, cue);
					flush();
					++s.vline;
					cur = fresh();
				} else if (k == "rle") {
					d.emit(RLE, Seg::MARK, cue);
				} else if (k == "on" || k == "off") {
					string const w = e["w"].str();
					if (w != "b" && w != "i" && w != "u") { d.invalid("tag"); continue; }
					bool const brace = e["brace"].flag();
					string t = string(k == "off" ? "/" : "") + w;
					if (e["up"].flag()) for (auto& ch: t) if (ch >= 'a' && ch <= 'z') ch = char(ch - 32);
					d.emit((brace ? "{" : "<") + t + (brace ? "}" : ">"), Seg::MARK, cue);
					flush();
					(w == "b" ? s.b : w == "i" ? s.i : s.u) = k == "on";
					cur = fresh();
				} else if (k == "font") {
					Col c;
					string const t = font_tag(e, c);
					if (t.empty()) { d.invalid("font tag"); continue; }
					d.emit(t, Seg::MARK, cue);
					flush();
					stack.push_back(s.col);
					s.col = c;
					cur = fresh();
				} else if (k == "fontend") {
					d.emit(e["up"].flag() ? "</FONT>" : "</font>", Seg::MARK, cue);
					flush();
					if (!stack.empty()) { s.col = stack.back(); stack.pop_back(); }
					cur = fresh();
				} else if (k == "ssa") {
					string const t = e["tag"].str();
					if (t.empty() || t.find_first_of("{}\\\r\n<>") != string::npos || t.find(LS) != string::npos || t.find(RLE) != string::npos) { d.invalid("ssa tag"); continue; }
					d.emit("{\\" + t + "}", Seg::MARK, cue);
					flush();
					if (t == "b1") s.b = true;
					else if (t == "b0") s.b = false;
					else if (t == "i1") s.i = true;
					else if (t == "i0") s.i = false;
					else if (t == "u1") s.u = true;
					else if (t == "u0") s.u = false;
					else if (t == "c") s.col = Col();
					else if (t.size() > 2 && t.size() < 5 && t.compare(0, 2, "fs") == 0 && t.find_first_not_of("0123456789", 2) == string::npos) s.fprop = atoi(t.c_str() + 2) / 288.0;
					else if (t.size() == 10 && t.compare(0, 3, "c&H") == 0 && t[9] == '&' && is_hex(t.substr(3, 6))) {
						s.col.b = hex2(t, 3) / 255.0; s.col.g = hex2(t, 5) / 255.0; s.col.r = hex2(t, 7) / 255.0;
					} else if (t.size() == 3 && t.compare(0, 2, "an") == 0 && t[2] >= '1' && t[2] <= '9') {
						if (!first) d.invalid("alignment not at the start of a cue");
						int const a = t[2] - '1';
						static int const h[] = { sub::LEFT_OF_SCREEN, sub::HORIZONTAL_CENTRE_OF_SCREEN, sub::RIGHT_OF_SCREEN };
						static int const vr[] = { sub::BOTTOM_OF_SCREEN, sub::VERTICAL_CENTRE_OF_SCREEN, sub::TOP_OF_SCREEN };
						s.href = h[a % 3];
						s.vref = vr[a / 3];
						first = false;
					} else {
						static vector<string> const other = { "k20", "kf35", "fad(100,200)", "blur2", "bord1", "shad0", "fnArial", "be1", "q2", "frz15", "fscx90", "fscy110", "fsp2", "clip(0,0,10,10)", "1c&H0000FF&", "alpha&H80&", "r" };
						if (std::find(other.begin(), other.end(), t) == other.end()) d.invalid("unknown ssa tag");
					}
					cur = fresh();
				} else {
					d.invalid("element");
				}
			}
			flush();
			++s.vline;
			// what was written must contain the marks intended and no others
			string const text = d.bytes.substr(start);
			if (text.empty() || text.find_first_not_of(' ') == string::npos) d.invalid("blank line");
			if (starts(text, 0, BOM.c_str())) d.invalid("byte order mark");
			for (size_t i = 0; i < text.size(); ++i) {
				for (auto tok: TOKENS) {
					if (!starts(text, i, tok)) continue;
					bool marked = false;
					for (auto s = d.segs.rbegin(); s != d.segs.rend() && s->end > start; ++s) if (s->kind == Seg::MARK && start + i >= s->start && start + i < s->end) marked = true;
					if (!marked) d.invalid("accidental markup");
				}
				if (!text.compare(i, 3, LS) || !text.compare(i, 3, RLE)) {
					bool marked = false;
					for (auto s = d.segs.rbegin(); s != d.segs.rend() && s->end > start; ++s) if (s->kind == Seg::MARK && start + i == s->start) marked = true;
					if (!marked) d.invalid("accidental separator");
				}
			}
			if (text.back() == '\r') d.invalid("carriage return");
			eol(cue);
		}
		long long const gap = std::min(20ll, std::max(1ll, c["gap"].num(1)));
		bool const last = n + 1 == cues.size();
		if (!last) for (long long i = 0; i < gap; ++i) eol(-1);
	}
	// final: 0 nothing after the last line, 1 its end, 2 a blank line, ...
	long long const final = std::min(5ll, std::max(0ll, v["final"].num(1)));
	if (final == 0 && !d.segs.empty() && d.segs.back().kind == Seg::EOL) { d.bytes.resize(d.segs.back().start); d.segs.pop_back(); }
	for (long long i = 1; i < final; ++i) eol(-1);
	return d;
}

static Value el(char const* k) { return Value::obj().set("k", k); }

static string random_hex(Rng& r, int n) { string s; for (int i = 0; i < n; ++i) s += (r.chance(50) ? "0123456789abcdef" : "0123456789ABCDEF")[r.below(16)]; return s; }

static Value gen_font(Rng& r)
{
	Value e = el("font");
	static vector<char const*> const forms = { "dq", "sq", "nq", "rgba" };
	string const form = r.pick(forms);
	e.set("form", form).set("up", r.chance(20));
	if (r.chance(30)) e.set("before", r.chance(50) ? "face=\"Arial Black\" " : "size=\"18\" ");
	if (r.chance(30)) e.set("after", r.chance(50) ? " face=\"Arial\"" : " size=24");
	if (form == "rgba") e.set("r", r.range(0, 255)).set("g", r.range(0, 255)).set("b", r.range(0, 255)).set("a", r.range(0, 255)).set("sp", r.range(0, 2));
	else e.set("hex", random_hex(r, r.chance(75) ? 6 : 8));
	return e;
}

Value gen_srt(Rng& r)
{
	Value v = Value::obj();
	v.set("bom", r.chance(25)).set("eol", r.chance(50) ? 0 : r.chance(70) ? 1 : int(r.range(2, 1000)));
	v.set("lead", r.chance(15) ? r.range(1, 4) : 0);
	v.set("final", r.chance(30) ? 0 : r.range(1, 3));
	long const n = r.chance(5) ? r.range(10, 60) : r.few(1, 8);
	Value const times = gen_times(r, n, 1000, r.chance(2) ? 999 * 3600 : 100 * 3600);
	Value cues = Value::arr();
	int const density = int(r.below(60));
	// the reader takes time quadratic in the length of a line, so only some documents have long ones
	bool const lengthy = r.chance(20);
	auto length = [&] { long const n = gen_length(r); return lengthy || n < 400 ? n : 1 + n % 300; };
	for (long i = 0; i < n; ++i) {
		Value c = Value::obj();
		c.set("id", r.chance(90) ? std::to_string(i + 1) : std::to_string(r.below(100000)));
		if (r.chance(5)) c.set("id", c["id"].str() + " ");
		c.set("from", times.a[size_t(i * 2)]).set("to", times.a[size_t(i * 2 + 1)]);
		if (r.chance(10)) c.set("sp", r.range(1, 3));
		if (r.chance(10)) c.set("coords", true);
		if (r.chance(15)) c.set("tail", r.range(1, 4));
		c.set("gap", r.chance(80) ? 1 : r.range(2, 5));
		Value lines = Value::arr();
		long const nl = r.few(1, 5);
		bool an = false;
		long open_fonts = 0;
		for (long l = 0; l < nl; ++l) {
			Value line = Value::arr();
			long const ne = 1 + (r.chance(density) ? r.few(1, 7) : 0);
			bool text = false;
			if (l == 0 && r.chance(8)) { line.push(el("ssa").set("tag", "an" + std::to_string(r.range(1, 9)))); an = true; }
			for (long k = 0; k < ne; ++k) {
				long const x = r.below(100);
				if (x < 48 || (k + 1 == ne && !text)) {
					string t = gen_text(r, length(), r.chance(70) ? "<{" : "{");
					// no accidental markup
					for (auto tok: TOKENS) for (size_t p = 0; p < t.size(); ++p) if (starts(t, p, tok)) t[p] = '(';
					while (!t.empty() && (t.back() == '<' || t.back() == '{')) t.back() = '>';
					for (size_t p = 0; p + 1 < t.size(); ++p) if ((t[p] == '<' || t[p] == '{') && p + 8 >= t.size()) t[p] = '-';
					if (t.find_first_not_of(' ') == string::npos) t += "y";
					line.push(el("t").set("t", t));
					text = true;
				} else if (x < 70) {
					static vector<char const*> const w = { "b", "i", "u" };
					line.push(el(r.chance(55) ? "on" : "off").set("w", r.pick(w)).set("brace", r.chance(25)).set("up", r.chance(15)));
				} else if (x < 79) {
					line.push(gen_font(r));
					++open_fonts;
				} else if (x < 87) {
					if (open_fonts > 0 || r.chance(30)) { line.push(el("fontend").set("up", r.chance(20))); --open_fonts; }
				} else if (x < 90) {
					line.push(el("sep"));
				} else if (x < 93) {
					line.push(el("rle"));
				} else {
					static vector<char const*> const tags = { "b1", "b0", "i1", "i0", "u1", "u0", "c", "k20", "fad(100,200)", "blur2", "fnArial", "fscx90", "fsp2", "clip(0,0,10,10)", "1c&H0000FF&", "r", "fs20", "fs7" };
					line.push(el("ssa").set("tag", r.chance(25) ? "c&H" + random_hex(r, 6) + "&" : string(r.pick(tags))));
				}
			}
			if (!text) {
				string t = gen_text(r, length(), "<{");
				if (t.find_first_not_of(' ') == string::npos) t += "z";
				line.push(el("t").set("t", t));
			}
			lines.push(line);
		}
		(void) an;
		c.set("lines", lines);
		cues.push(c);
	}
	v.set("cues", cues);
	return v;
}

//---- WebVTT -------------------------------------------------------------------------------------------
static bool plain(string const& s) { return s.find_first_of("\r\n") == string::npos && s.find('\0') == string::npos && s.find("-->") == string::npos; }

Doc build_vtt(Value const& v)
{
	Doc d;
	size_t ln = 0;
	auto eol = [&](int cue) { d.emit(line_end(v, ln++), Seg::EOL, cue); };
	string const head = v["head"].str();
	if (!plain(head) || (!head.empty() && head[0] != ' ' && head[0] != '\t')) d.invalid("header");
	d.emit((v["bom"].flag() ? BOM : "") + "WEBVTT", Seg::STRUCT);
	d.emit(head, Seg::SAFE);
	eol(-1);
	for (auto const& m: v["meta"].a) {
		if (!plain(m.str()) || m.str().empty() || !m.str().compare(0, 4, "NOTE") || m.str()[0] == ' ') d.invalid("metadata");
		d.emit(m.str(), Seg::SAFE);
		eol(-1);
	}
	long long const lead = std::min(20ll, std::max(1ll, v["lead"].num(1)));
	for (long long i = 0; i < lead; ++i) eol(-1);
	auto const& items = v["items"].a;
	for (size_t n = 0; n < items.size(); ++n) {
		auto const& c = items[n];
		string const k = c["k"].str();
		if (k == "note" || k == "style") {
			if (c["lines"].a.empty()) d.invalid("empty block");
			bool first = true;
			for (auto const& l: c["lines"].a) {
				string const& t = l.str();
				if (!plain(t) || t.empty()) d.invalid("block line");
				if (first && k == "note" && t != "NOTE" && t.compare(0, 5, "NOTE ") && t.compare(0, 5, "NOTE\t")) d.invalid("note");
				if (k == "style" && (!t.compare(0, 4, "NOTE") || (first && t != "STYLE" && t != "REGION"))) d.invalid("style");
				d.emit(t, Seg::SAFE);
				eol(-1);
				first = false;
			}
		} else if (k == "cue") {
			int const cue = d.cues++;
			long long const from = c["from"].num(), to = c["to"].num();
			if (from < 0 || to < 0 || from >= 3600000000ll || to >= 3600000000ll) d.invalid("time");
			string const id = c["id"].str();
			if (!id.empty()) {
				if (!plain(id) || id == "NOTE" || !id.compare(0, 5, "NOTE ") || !id.compare(0, 5, "NOTE\t") || starts(id, 0, "style") || starts(id, 0, "region") || !id.compare(0, 3, BOM)) d.invalid("id");
				d.emit(id, Seg::SAFE, cue);
				eol(cue);
			}
			string const gap = c["tab"].flag() ? "\t" : " ";
			string const sp = repeat(gap, 1 + std::min(3ll, std::max(0ll, c["sp"].num())));
			// hours can be left out if there are none
			auto stamp = [&](long long ms) { string const x = ms_time(ms, '.'); return ms < 3600000 && c["short"].flag() ? x.substr(3) : x; };
			string t = stamp(from) + sp + "-->" + sp + stamp(to);
			static vector<string> const settings = { "align:start", "line:7%", "position:10%", "size:35%", "vertical:rl", "region:fred" };
			for (long long i = 0; i < std::min(6ll, c["settings"].num()); ++i) t += sp + settings[size_t(i + (long long) n) % settings.size()];
			t += repeat(gap, std::min(5ll, std::max(0ll, c["tail"].num())));
			d.emit(t, Seg::STRUCT, cue);
			eol(cue);
			Run s;
			s.cue = cue;
			s.from = t_ms(from); s.to = t_ms(to);
			s.vref = sub::TOP_OF_SUBTITLE;
			s.vline = 0;
			if (c["lines"].a.empty()) d.invalid("no lines");
			for (auto const& l: c["lines"].a) {
				// pieces between line separators
				if (l.a.empty()) d.invalid("empty line");
				size_t const start = d.bytes.size();
				for (size_t p = 0; p < l.a.size(); ++p) {
					string const& x = l.a[p].str();
					if (!plain(x) || x.find(LS) != string::npos) d.invalid("text");
					if (p) d.emit(LS, Seg::MARK, cue);
					Run r = s;
					add_text(d, r, x);
					d.runs.push_back(r);
					++s.vline;
				}
				string const whole = d.bytes.substr(start);
				if (whole.empty() || whole.find("-->") != string::npos || !whole.compare(0, 3, BOM)) d.invalid("text");
				size_t seps = 0;
				for (size_t p = 0; (p = whole.find(LS, p)) != string::npos; ++p) ++seps;
				if (seps + 1 != l.a.size()) d.invalid("accidental separator");
				eol(cue);
			}
			size_t chars = 0;
			for (auto const& x: d.runs) if (x.cue == cue) chars += x.text.size();
			if (!chars) d.invalid("no text");
		} else {
			d.invalid("item");
		}
		long long const gap = std::min(20ll, std::max(1ll, c["gap"].num(1)));
		if (n + 1 < items.size()) for (long long i = 0; i < gap; ++i) eol(-1);
	}
	long long const final = std::min(5ll, std::max(0ll, v["final"].num(1)));
	if (final == 0 && !d.segs.empty() && d.segs.back().kind == Seg::EOL) { d.bytes.resize(d.segs.back().start); d.segs.pop_back(); }
	for (long long i = 1; i < final; ++i) eol(-1);
	return d;
}

Value gen_vtt(Rng& r)
{
	Value v = Value::obj();
	v.set("bom", r.chance(25)).set("eol", r.chance(50) ? 0 : r.chance(70) ? 1 : int(r.range(2, 1000)));
	if (r.chance(20)) v.set("head", r.chance(50) ? " - This file has cues" : "\tdescription " + gen_text(r, gen_length(r), ">"));
	if (r.chance(25)) {
		Value m = Value::arr();
		m.push("Kind: captions");
		if (r.chance(50)) m.push("Language: en-GB");
		if (r.chance(20)) m.push("X-TIMESTAMP-MAP=LOCAL:00:00:00.000,MPEGTS:900000");
		v.set("meta", m);
	}
	v.set("lead", r.chance(85) ? 1 : r.range(2, 4)).set("final", r.chance(30) ? 0 : r.range(1, 3));
	long const n = r.chance(5) ? r.range(10, 60) : r.few(1, 8);
	Value const times = gen_times(r, n, 1000, r.chance(2) ? 999 * 3600 : 100 * 3600);
	Value items = Value::arr();
	for (long i = 0; i < n; ++i) {
		if (r.chance(12)) {
			Value b = Value::obj();
			b.set("k", "note").set("gap", r.range(1, 2));
			Value ls = Value::arr();
			ls.push(r.chance(50) ? string("NOTE") : (r.chance(80) ? "NOTE " : "NOTE\t") + gen_text(r, r.range(1, 300), ">"));
			for (long k = r.few(0, 3); k > 0; --k) ls.push("c" + gen_text(r, r.range(1, 40), ">"));
			b.set("lines", ls);
			items.push(b);
		}
		if (i == 0 && r.chance(8)) {
			Value b = Value::obj();
			b.set("k", "style").set("gap", 1);
			Value ls = Value::arr();
			ls.push("STYLE").push("::cue {").push("  color: papayawhip;").push("}");
			b.set("lines", ls);
			items.push(b);
		}
		Value c = Value::obj();
		c.set("k", "cue").set("from", times.a[size_t(i * 2)]).set("to", times.a[size_t(i * 2 + 1)]);
		if (r.chance(40)) c.set("id", r.chance(60) ? std::to_string(i + 1) : (r.chance(80) ? "id " : r.chance(50) ? "NOTES " : "Note ") + gen_text(r, r.range(1, 300), ">"));
		if (r.chance(20)) c.set("settings", r.range(1, 6));
		if (r.chance(10)) c.set("sp", r.range(1, 3));
		if (r.chance(10)) c.set("tab", true);
		if (r.chance(20)) c.set("short", true);
		if (r.chance(15)) c.set("tail", r.range(1, 4));
		c.set("gap", r.chance(80) ? 1 : r.range(2, 5));
		Value lines = Value::arr();
		for (long l = r.few(1, 5); l > 0; --l) {
			Value pieces = Value::arr();
			for (long p = r.chance(90) ? 1 : r.range(2, 4); p > 0; --p) {
				string t = gen_text(r, gen_any_length(r), r.chance(50) ? "" : "<>");
				if (r.chance(10)) t = "<i>" + t + "</i>";
				if (r.chance(3)) t = "NOTE " + t;
				if (r.chance(3)) t += RLE;
				while (t.find("-->") != string::npos) t = replace(t, "-->", "->>");
				if (!pieces.a.empty() && r.chance(20)) t = "";
				pieces.push(t);
			}
			lines.push(pieces);
		}
		c.set("lines", lines);
		items.push(c);
	}
	v.set("items", items);
	return v;
}

}
