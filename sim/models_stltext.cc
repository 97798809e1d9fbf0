// textual STL
#include "models.h"
#include <algorithm>

using std::string;

namespace sim {

static string hmsf(long long t) { return fmt("%02lld:%02lld:%02lld:%02lld", t / 25 / 3600, t / 25 / 60 % 60, t / 25 % 60, t % 25); }
static T t_hmsf(long long t) { T r; r.h = long(t / 25 / 3600); r.m = long(t / 25 / 60 % 60); r.s = long(t / 25 % 60); r.f = long(t % 25); r.rate = 0; return r; }

static bool blank(char c) { return c == ' ' || c == '\t'; }

Doc build_stltext(Value const& v)
{
	Doc d;
	size_t ln = 0;
	auto eol = [&](int cue) { d.emit(line_end(v, ln++), Seg::EOL, cue); };
	Run s;
	s.vref = sub::TOP_OF_SUBTITLE;
	auto const& items = v["items"].a;
	for (size_t n = 0; n < items.size(); ++n) {
		auto const& c = items[n];
		string const k = c["k"].str();
		auto simple = [&](string const& t) { if (t.find_first_of("\r\n") != string::npos || t.find('\0') != string::npos) d.invalid("line"); };
		if (k == "set") {
			string const name = c["name"].str(), value = c["value"].str();
			simple(name); simple(value);
			if (name.find_first_of("=\t ") != string::npos || value.find('=') != string::npos || name.empty() || value.empty()) d.invalid("setting");
			if (blank(value[0]) || blank(value.back())) d.invalid("setting");
			string const sp1(size_t(std::min(3ll, std::max(0ll, c["sp1"].num()))), ' '), sp2(size_t(std::min(3ll, std::max(0ll, c["sp2"].num()))), ' ');
			d.emit("$" + name + sp1 + "=" + sp2 + value, Seg::STRUCT);
			if (name == "FontName") { s.font = value; s.has_font = true; }
			else if (name == "Bold") { if (value != "True" && value != "False") d.invalid("flag"); s.b = value == "True"; }
			else if (name == "Italic") { if (value != "True" && value != "False") d.invalid("flag"); s.i = value == "True"; }
			else if (name == "Underlined") { if (value != "True" && value != "False") d.invalid("flag"); s.u = value == "True"; }
			else if (name == "FontSize") {
				if (value.find_first_not_of("0123456789") != string::npos || value.size() > 4 || value[0] == '0') d.invalid("size");
				s.fpts = atol(value.c_str());
			}
		} else if (k == "junk") {
			string const& t = c["t"].str();
			simple(t);
			if (!t.empty() && t[0] == '$') d.invalid("junk");
			bool const comment = t.size() >= 2 && t[0] == '/' && t[1] == '/';
			// anything else must not look like a subtitle
			if (!comment && t.find(',') != string::npos && t.find(',', t.find(',') + 1) != string::npos && t.substr(0, t.find(',')).find(':') != string::npos) d.invalid("junk");
			if (!comment && t.find_first_not_of(" \t") != string::npos && (blank(t[0]))) d.invalid("junk");
			d.emit(t, Seg::SAFE);
		} else if (k == "sub") {
			int const cue = d.cues++;
			long long const from = c["from"].num(), to = c["to"].num();
			if (from < 0 || to < 0 || from >= 100ll * 3600 * 25 || to >= 100ll * 3600 * 25) d.invalid("time");
			auto sp = [&](char const* w) { return string(size_t(std::min(3ll, std::max(0ll, c[w].num()))), ' '); };
			d.emit(sp("s0") + hmsf(from) + sp("s1") + "," + sp("s2") + hmsf(to) + sp("s3") + ",", Seg::STRUCT, cue);
			size_t const start = d.bytes.size();
			s.cue = cue;
			s.from = t_hmsf(from); s.to = t_hmsf(to);
			s.vline = 0;
			Run cur = s;
			auto flush = [&] { if (!cur.text.empty()) d.runs.push_back(cur); cur = s; cur.text.clear(); cur.ends.clear(); };
			for (auto const& e: c["els"].a) {
				string const w = e["k"].str();
				if (w == "t") {
					string const& t = e["t"].str();
					simple(t);
					if (t.empty() || t.find_first_of("^|\v\f") != string::npos) d.invalid("text");
					add_text(d, cur, t);
				} else if (w == "br") {
					d.emit("|", Seg::MARK, cue);
					flush();
					++s.vline;
					cur.vline = s.vline;
				} else if (w == "tog") {
					string const x = e["x"].str();
					if (x.size() != 1 || blank(x[0]) || (x[0] & 0x80) || x[0] == '\r' || x[0] == '\n') { d.invalid("toggle"); continue; }
					d.emit("^" + x, Seg::MARK, cue);
					if (x == "B") s.b = !s.b; else if (x == "I") s.i = !s.i; else if (x == "U") s.u = !s.u;
					Run next = s;
					if (!cur.text.empty()) d.runs.push_back(cur);
					cur = next;
					cur.text.clear(); cur.ends.clear();
				} else {
					d.invalid("element");
				}
			}
			flush();
			string const text = d.bytes.substr(start);
			if (text.empty() || blank(text.back()) || text.find_first_not_of(" \t") == string::npos) d.invalid("text");
		} else {
			d.invalid("item");
		}
		if (n + 1 < items.size() || v["final"].num(1) > 0) eol(-1);
	}
	for (long long i = 1; i < std::min(5ll, v["final"].num(1)); ++i) eol(-1);
	return d;
}

Value gen_stltext(Rng& r)
{
	Value v = Value::obj();
	v.set("eol", r.chance(50) ? 0 : r.chance(70) ? 1 : int(r.range(2, 1000)));
	v.set("final", r.chance(30) ? 0 : r.range(1, 3));
	long const n = r.chance(5) ? r.range(10, 60) : r.few(1, 8);
	Value const times = gen_times(r, n, 25, r.chance(10) ? 100 * 3600 : 24 * 3600);
	Value items = Value::arr();
	int const density = int(r.below(70)), others = int(r.below(50));
	for (long i = 0; i < n; ++i) {
		while (r.chance(others)) {
			Value c = Value::obj();
			if (r.chance(60)) {
				c.set("k", "set").set("sp1", r.range(0, 1)).set("sp2", r.range(0, 1));
				static std::vector<char const*> const names = { "FontName", "FontSize", "Bold", "Italic", "Underlined", "TapeOffset", "HorzAlign", "VertAlign", "ColorIndex1" };
				string const name = r.pick(names);
				c.set("name", name);
				if (name == "FontName") c.set("value", r.chance(50) ? "Arial" : "Helvetica Neue " + std::to_string(r.below(99)));
				else if (name == "FontSize") c.set("value", std::to_string(r.range(1, 200)));
				else c.set("value", r.chance(50) ? "True" : "False");
			} else {
				static std::vector<char const*> const junk = { "", "//", "//Subtitle file", "// 00:00:01:02 , 00:00:03:04 , not this", "hello", "foo, bar, baz", "one, two", ",,", "  ", "===", "#x" };
				c.set("k", "junk").set("t", r.chance(80) ? string(r.pick(junk)) : "//" + gen_text(r, gen_length(r), ""));
			}
			items.push(c);
		}
		Value c = Value::obj();
		c.set("k", "sub").set("from", times.a[size_t(i * 2)]).set("to", times.a[size_t(i * 2 + 1)]);
		for (auto w: { "s1", "s2", "s3" }) c.set(w, r.range(0, 2));
		if (r.chance(10)) c.set("s0", r.range(1, 3));
		Value els = Value::arr();
		long const ne = 1 + (r.chance(density) ? r.few(1, 9) : 0);
		for (long k = 0; k < ne; ++k) {
			long const x = r.below(100);
			if (x < 55 || ne == 1) {
				string t = gen_text(r, gen_any_length(r), "^|");
				if (r.chance(40) && k == 0) t = " " + t;
				els.push(Value::obj().set("k", "t").set("t", t));
			} else if (x < 70) els.push(Value::obj().set("k", "br"));
			else {
				static std::vector<char const*> const t = { "B", "I", "U", "B", "I", "U", "x", "?", "^", "|", "b" };
				els.push(Value::obj().set("k", "tog").set("x", r.pick(t)));
			}
		}
		// the last thing must not be space
		if (els.a.back()["k"].str() == "t") { string t = els.a.back()["t"].str(); while (!t.empty() && (t.back() == ' ')) t.back() = '.'; els.a.back().set("t", t); }
		c.set("els", els);
		items.push(c);
	}
	v.set("items", items);
	return v;
}

}
