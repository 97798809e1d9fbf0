#include "props.h"
#include "exceptions.h"
#include "models.h"
#include "reader_factory.h"
#include "threads.h"
#include "web_vtt_reader.h"
#include <algorithm>
#include <clocale>
#include <cmath>
#include <cstring>
#include <fcntl.h>
#include <getopt.h>
#include <csignal>
#include <iostream>
#include <locale>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace sim { std::streambuf* real_cout = nullptr; }
int dumpsubs_main(int argc, char* argv[]);

using std::string;
using std::vector;

namespace sim {

void note_nontrivial() { if (shared) shared->nontrivial = 1; }
void note_known(string const& w) { if (shared) strncpy(shared->known, w.c_str(), sizeof(shared->known) - 1); }

static void fail(string const& cls, string const& msg) { throw Failed{cls, msg}; }
static void invalid(string const& why) { throw Invalid{why}; }

static vector<string> const FORMATS = { "srt", "vtt", "ssa", "stltext", "stlbin" };
string any_format(Rng& r) { return r.pick(FORMATS); }

//---- generating sources -----------------------------------------------------------------------------
static Value gen_chunks(Rng& r)
{
	static vector<long> const sizes = { 1, 2, 3, 5, 7, 11, 16, 64, 100, 127, 128, 254, 255, 256, 257, 511, 512, 513, 1000, 1024, 4095, 4096, 4097 };
	Value c = Value::arr();
	long const how = r.below(100);
	if (how < 25) return c;
	for (long n = how < 45 ? 1 : r.few(1, 7); n > 0; --n) c.push(r.chance(50) ? r.pick(sizes) : r.range(1, 40));
	return c;
}

static vector<string> kinds_of(string const& fmt)
{
	if (fmt == "srt") return { "mem", "file", "file", "file", "name", "name" };
	if (fmt == "stltext") return { "stream", "stream", "name" };
	if (fmt == "stlbin") return { "stream", "file", "name" };
	return { "mem", "file", "file", "file" };
}

Value gen_src(Rng& r, string const& fmt, bool)
{
	static vector<long> const bufs = { -1, -1, -1, 0, 1, 2, 3, 5, 16, 64, 254, 255, 256, 257, 1000, 4096 };
	Value s = Value::obj();
	s.set("kind", r.pick(kinds_of(fmt)));
	if (s["kind"].str() == "mem") return s;
	s.set("chunks", gen_chunks(r));
	if (s["kind"].str() != "name") s.set("buf", r.pick(bufs));
	if (s["kind"].str() == "file") s.set("seek", r.chance(50));
	return s;
}

static Value gen_faults(Rng& r, size_t size)
{
	static vector<char const*> const errs = { "EIO", "EIO", "EINTR", "EAGAIN", "ETIMEDOUT", "ESTALE", "EISDIR", "ECONNRESET" };
	Value f = Value::arr();
	for (long n = r.few(1, 3); n > 0; --n) {
		Value x = Value::obj();
		long const at = r.chance(8) ? 0 : r.chance(8) ? long(size) : r.chance(10) ? r.below(16) : r.below(long(size) + 1);
		x.set("at", at).set("err", r.pick(errs)).set("n", r.chance(50) ? -1 : r.range(1, 3));
		f.push(x);
	}
	return f;
}

Value gen_read_op(Rng& r, string const& f)
{
	Value op = Value::obj();
	return op.set("op", "read").set("doc", gen_doc(r, f)).set("src", gen_src(r, f));
}

static Value gen_sched(Rng& r, long n)
{
	Value s = Value::arr();
	for (long i = 0; i < n; ++i) s.push(r.below(6));
	return s;
}

static Value gen_write_cfg(Rng& r, bool interrupts)
{
	Value w = Value::obj();
	Value d = Value::obj();
	d.set("chunks", gen_chunks(r));
	if (interrupts && r.chance(30)) {
		Value f = Value::arr();
		for (long k = r.few(1, 3); k > 0; --k) f.push(Value::obj().set("at", r.chance(50) ? r.below(1500) : r.below(12000)).set("err", "EINTR").set("n", r.range(1, 3)));
		d.set("faults", f);
	}
	w.set("write", d);
	return w;
}

static vector<char const*> const WRITE_ERRS = { "ENOSPC", "EIO", "EDQUOT", "EFBIG", "EROFS", "ENOMEM" };
static vector<char const*> const OPEN_ERRS = { "EACCES", "EMFILE", "ENFILE", "ENOSPC", "EROFS", "ENOMEM", "EIO", "ENOENT", "EPERM" };

/// damage to stored bytes
static string first_difference(string const& a, string const& b);

static Value gen_damage(Rng& r)
{
	static vector<char const*> const ops = { "flip", "over", "insert", "delete", "dup", "zero", "token", "mark", "mark", "digit", "field", "field", "span" };
	static vector<char const*> const marks = { ",", ":", ".", "(", ")", "{", "}", "<", ">", "\\", "&", "#", "\"", "|", "^", "=", "$", "[", "]", " ", "\n", "(,)", "\\{}", ",.:", "\x8a\x8f", "-" };
	static vector<char const*> const tokens = {
		"<", ">", "{", "}", "{\\", "{\\}", "</", "<font", "<font color=", "<font color=\"#", "<font color=\"rgba(99999999999,0,0,0)\">", "</font>", "-->", " --> ", "\n", "\n\n", "\r", ",", ",,,,,,,,,", ":", "::", "=", "$", "$ = ", "$FontSize = x\n",
		"^", "|", "^B", "//", "\xe2\x80\xa8", "\xe2\x80\xab", "\xef\xbb\xbf", "\xff", "\xc3", "[", "]", "[Events]\n", "[V4+ Styles]\n", "Format: ", "Format: Text\n", "Dialogue: ", "Dialogue: 0,,,,,,,,,", "Style: ", "{\\pos(", "{\\pos(1,2,3)}", "{\\an}", "{\\an99}", "{\\fs}", "{\\c}", "{\\c&H", "{\\c&HFFFF&}",
		"NOTE", "WEBVTT", "-1", "99999999999999999999", "1e999", "nan", "0x10", "\\N", "\\n", "\\", "PlayResX: 0\n", "PlayResY: -5\n", "PlayResY: 99999999999\n", "00:00:00:00 , 00:00:00:00 , ", "\x8a\x8a", "\x8f", "\x80", "\xc1\xc1", "STL25.01", "STL00.01", "99999", "&H", "00000" };
	Value a = Value::arr();
	for (long n = r.few(1, 6); n > 0; --n) {
		Value d = Value::obj();
		string const op = r.pick(ops);
		d.set("op", op).set("at", r.chance(25) ? r.below(1152) : r.below(1 << 20));
		if (op == "token") d.set("op", r.chance(50) ? "insert" : "over").set("s", r.pick(tokens));
		else if (op == "flip") d.set("n", r.range(1, 255));
		else if (op == "mark") d.set("s", r.pick(marks)).set("n", r.below(12));
		else if (op == "digit") d.set("n", r.below(16));
		else if (op == "field") d.set("n", r.below(1 << 16));
		else if (op == "span") d.set("n", r.below(1 << 16)).set("s", r.pick(tokens));
		else if (op == "over" || op == "insert") {
			string s;
			for (long k = r.few(1, 12); k > 0; --k) s += char(r.chance(50) ? r.range(32, 126) : r.below(256));
			d.set("s", s);
		} else d.set("n", r.chance(80) ? r.range(1, 20) : r.range(1, 3000));
		a.push(d);
	}
	return a;
}

/// one of the fields of the line around some place is lost, doubled, emptied, or changes places with the next
static void damage_field(string& b, size_t at, size_t how)
{
	if (b.empty()) return;
	at = std::min(at, b.size() - 1);
	size_t start = b.rfind('\n', at);
	start = start == string::npos || start == at ? (start == at ? at : 0) : start + 1;
	size_t end = std::min(b.find('\n', at), b.size());
	if (start > end || end - start > 20000) return;
	char const sep = ",: =|(&;"[how % 8];
	how /= 8;
	vector<string> parts(1);
	for (size_t i = start; i < end; ++i) { if (b[i] == sep) parts.push_back(""); else parts.back() += b[i]; }
	size_t const k = how / 5 % parts.size();
	switch (how % 5) {
	case 0: parts.erase(parts.begin() + long(k)); break;
	case 1: parts.insert(parts.begin() + long(k), string(parts[k])); break;
	case 2: parts[k].clear(); break;
	case 3: std::swap(parts[k], parts[(k + 1) % parts.size()]); break;
	case 4: parts.resize(k); break;
	}
	string line;
	for (size_t i = 0; i < parts.size(); ++i) line += (i ? string(1, sep) : "") + parts[i];
	b.replace(start, end - start, line);
}

/// something in brackets is lost in whole or in part, or becomes something else
static void damage_span(string& b, size_t nth, size_t how, string const& token)
{
	static string const open = "({<[", close = ")}>]";
	size_t which = 4;
	for (size_t i = 0; i < 4; ++i) if (b.find(open[(how + i) % 4]) != string::npos) { which = (how + i) % 4; break; }
	if (which == 4) return;
	how /= 4;
	nth %= size_t(std::count(b.begin(), b.end(), open[which]));
	size_t i = 0;
	for (;; ++i) if (b[i] == open[which] && nth-- == 0) break;
	size_t const j = std::min(b.find(close[which], i), b.size());
	if (j - i > 5000) return;
	size_t const len = j - i - 1, part = len ? how / 8 % len : 0;
	switch (how % 8) {
	case 0: b.erase(i + 1, len); break;
	case 1: b.erase(i + 1, part); break;
	case 2: b.erase(i + 1 + part, len - part); break;
	case 3: b.replace(i + 1, len, token); break;
	case 4: b.insert(i + 1 + part, token); break;
	case 5: b.insert(j, b.substr(i, j - i)); break;
	case 6: b.erase(j, 1); break;
	case 7: if (len) damage_field(b, i + 1 + part, how / 8); break;
	}
}

static string apply_damage(string b, Value const& a)
{
	for (auto const& d: a.a) {
		string const op = d["op"].str();
		size_t const at = size_t(std::max(0ll, d["at"].num())) % (b.size() + 1);
		size_t const n = size_t(std::min(5000ll, std::max(0ll, d["n"].num())));
		string const& s = d["s"].str();
		if (op == "flip") { if (at < b.size()) b[at] = char(b[at] ^ int(n)); }
		else if (op == "over") { for (size_t i = 0; i < s.size() && at + i < b.size(); ++i) b[at + i] = s[i]; }
		else if (op == "insert") b.insert(at, s);
		else if (op == "delete") b.erase(at, n);
		else if (op == "dup") b.insert(at, b.substr(at, n));
		else if (op == "mark" || op == "digit") {
			// one of the characters that mean something (or digits) is dropped, doubled or becomes another
			size_t const how = n % (op == "digit" ? 16 : 12);
			string const set = op == "digit" ? "0123456789" : s;
			size_t const count = size_t(std::count_if(b.begin(), b.end(), [&](char c) { return set.find(c) != string::npos; }));
			if (count) {
				size_t nth = size_t(std::max(0ll, d["at"].num())) % count, i = 0;
				for (;; ++i) if (set.find(b[i]) != string::npos && nth-- == 0) break;
				if (how % 4 == 0) b.erase(i, 1);
				else if (how % 4 == 1) b.insert(i, 1, b[i]);
				else if (how % 4 == 2) b[i] = op == "digit" ? "-x9.,& \0"[how / 4] : ";,:"[how / 4];
				else b.insert(i, op == "digit" ? string(how / 4 * 6 + 1, '9') : string(1, "-.,"[how / 4]));
			}
		}
		else if (op == "field") damage_field(b, at, size_t(std::max(0ll, d["n"].num())));
		else if (op == "span") damage_span(b, size_t(std::max(0ll, d["at"].num())), size_t(std::max(0ll, d["n"].num())), s);
		else if (op == "zero") { for (size_t i = at; i < std::min(b.size(), at + n); ++i) b[i] = '\0'; }
		if (b.size() > 600000) break;
		bump("fault:stored bytes " + op);
	}
	return b;
}

/// bytes with no particular form, but some hope of getting somewhere
static string gen_raw(Rng& r, string const& fmt)
{
	string s;
	if (fmt == "vtt" && r.chance(80)) s = "WEBVTT\n\n";
	if (fmt == "ssa" && r.chance(70)) s = "[Script Info]\nPlayResY: 288\n[V4+ Styles]\nFormat: Name, Fontname, Fontsize, PrimaryColour, Bold, Alignment, MarginV\nStyle: Default,Arial,20,&H00FFFFFF,0,2,10\n[Events]\nFormat: Layer, Start, End, Style, Text\n";
	if (fmt == "stlbin" && r.chance(80)) {
		Rng q(r.next());
		Value v = gen_stlbin(q);
		v.set("fmt", "stlbin");
		s = build(v).bytes.substr(0, 1024);
	}
	for (long n = r.few(1, 12); n > 0; --n) {
		switch (r.below(9)) {
		case 0: for (long k = r.few(1, 30); k > 0; --k) s += char(r.below(256)); break;
		case 1: s += string(size_t(r.range(1, r.chance(70) ? 10 : 600)), char(r.below(256))); break;
		case 2: s += gen_text(r, r.range(1, r.chance(70) ? 20 : 700), ""); break;
		case 3: s += r.chance(50) ? "00:00:01,000 --> 00:00:02,000\n" : "00:00:01.000 --> 00:00:02.000\n"; break;
		case 4: s += "\n"; break;
		case 5: s += "1\n"; break;
		case 6: s += "Dialogue: 0,0:00:01.00,0:00:02.00,Default,he{\\i1}llo\n"; break;
		case 7: s += "00:00:01:00 , 00:00:02:00 , hello^Bworld|there\n"; break;
		case 8: s += string(1, '\0'); break;
		}
	}
	return s;
}

//---- running operations ---------------------------------------------------------------------------------
struct Prep
{
	string fmt, bytes;
	bool has_doc = false;
	Doc doc;
};

/// work out the bytes that an operation reads; throws Invalid
static Prep prepare(Value const& op)
{
	AllocPause p;
	Prep r;
	if (op.has("raw")) {
		r.bytes = op["raw"].str();
		r.fmt = op["fmt"].str();
	} else {
		r.doc = build(op["doc"]);
		if (!r.doc.valid) invalid(r.doc.why);
		r.bytes = r.doc.bytes;
		r.fmt = op["doc"]["fmt"].str();
		if (op.has("fmt")) r.fmt = op["fmt"].str();
		r.has_doc = !op.has("damage") && r.fmt == op["doc"]["fmt"].str();
	}
	if (op.has("damage")) r.bytes = apply_damage(r.bytes, op["damage"]);
	if (op.has("cut")) r.bytes.resize(std::min(r.bytes.size(), size_t(std::max(0ll, op["cut"].num()))));
	if (std::find(FORMATS.begin(), FORMATS.end(), r.fmt) == FORMATS.end()) invalid("format");
	return r;
}

static string suffix_of(string const& fmt) { return fmt == "srt" ? ".srt" : fmt.compare(0, 3, "stl") == 0 ? ".stl" : "." + fmt; }

static bool source_applies(string const& fmt, Value const& src)
{
	string const k = src["kind"].str();
	for (auto const& x: kinds_of(fmt)) if (x == k) return true;
	return false;
}

static Outcome read_prepared(Prep const& p, Value const& src, string const& tag, int flags = 3)
{
	AllocPause harness;
	string const k = src["kind"].str();
	if (!source_applies(p.fmt, src)) invalid("source kind");
	if (k != "name") return do_read(p.fmt, p.bytes, src, flags);
	string path;
	{
		AllocPause q;
		path = scratch() + "/" + tag + suffix_of(p.fmt);
		put_file(path, p.bytes);
		Value c = Value::obj();
		Value d = Value::obj();
		d.set("chunks", src["chunks"]).set("faults", src["faults"]);
		c.set("read", d);
		if (src.has("open_err")) c.set("open_err", src["open_err"]).set("open_n", src["open_n"]);
		configure(path, c);
	}
	Outcome o = do_read_name(path, flags);
	AllocPause q;
	remove_file(path);
	return o;
}

/// an operation of any kind
struct Done
{
	Outcome o;
	string written;
	bool write = false;
	string canon(bool errors = true) const
	{
		AllocPause p;
		string c = o.canon(errors);
		if (write) c += "written " + std::to_string(written.size()) + " " + std::to_string(hash_str(written)) + "\n";
		return c;
	}
};

struct Op
{
	bool write = false;
	Prep prep;
	Value src;
	WriteJob job;
	Value cfg;
	string tag;
};

static Op make_op(Value const& v, string const& tag)
{
	AllocPause p;
	Op o;
	o.tag = tag;
	if (v["op"].str() == "write") {
		o.write = true;
		bool ok;
		o.job = build_write(v["write"], ok);
		if (!ok) invalid("write job");
		o.cfg = v["cfg"];
	} else {
		o.prep = prepare(v);
		o.src = v["src"];
		if (!source_applies(o.prep.fmt, o.src)) invalid("source kind");
	}
	return o;
}

static Done run_op(Op const& op, int flags = 3)
{
	AllocPause harness;
	Done d;
	if (op.write) {
		d.write = true;
		string path;
		{
			AllocPause p;
			path = scratch() + "/" + op.tag + ".stl";
			remove_file(path);
			configure(path, op.cfg);
		}
		d.o = do_write(op.job, path);
		AllocPause p;
		get_file(path, d.written);
		remove_file(path);
		if (auto c = find_config(path)) d.o.fired = c->write.fired || c->open_failed || c->close_failed;
	} else {
		d.o = read_prepared(op.prep, op.src, op.tag, flags);
	}
	return d;
}

/// An operation of any kind, perhaps going wrong
static Value gen_op(Rng& r, int trouble)
{
	Value op = Value::obj();
	if (r.chance(20)) {
		op.set("op", "write").set("write", gen_write(r));
		Value c = gen_write_cfg(r, true);
		if (r.chance(trouble)) {
			if (r.chance(30)) c.set("open_err", r.pick(OPEN_ERRS));
			else if (r.chance(20)) c.set("close_err", r.pick(WRITE_ERRS));
			else {
				Value d = c["write"], f = Value::arr();
				f.push(Value::obj().set("at", r.chance(50) ? 0 : r.below(2500)).set("err", r.pick(WRITE_ERRS)).set("n", -1));
				d.set("faults", f);
				c.set("write", d);
			}
		}
		return op.set("cfg", c);
	}
	string const f = any_format(r);
	if (r.chance(trouble / 3)) {
		op.set("op", "read").set("fmt", f).set("raw", gen_raw(r, f)).set("src", gen_src(r, f));
	} else {
		op = gen_read_op(r, f);
		if (r.chance(trouble / 2)) op.set("damage", gen_damage(r));
	}
	if (r.chance(trouble / 2) && op["src"]["kind"].str() != "mem") {
		Value s = op["src"];
		s.set("faults", gen_faults(r, 1500));
		if (s["kind"].str() == "stream") { if (r.chance(30)) s.set("mask", true); s.set("exc", r.chance(60) ? "ios" : "runtime"); }
		if (s["kind"].str() == "name" && r.chance(20)) s.set("open_err", r.pick(OPEN_ERRS));
		op.set("src", s);
	}
	return op;
}

//==== C01 - C05: whole documents ==========================================================================
static string format_of(string const& prop)
{
	return prop == "C01" ? "srt" : prop == "C02" ? "vtt" : prop == "C03" ? "ssa" : prop == "C04" ? "stltext" : "stlbin";
}

static Value gen_whole(string const& prop, Rng& r)
{
	Value v = Value::obj();
	Value ops = Value::arr();
	string const f = format_of(prop);
	long const n = r.chance(65) ? 1 : r.range(2, 3);
	for (long i = 0; i < n; ++i) ops.push(gen_read_op(r, i == 0 || r.chance(60) ? f : any_format(r)));
	v.set("ops", ops);
	if (n > 1) v.set("sched", gen_sched(r, r.range(10, 400)));
	return v;
}

static void exec_whole(string const& prop, Value const& v)
{
	string const f = format_of(prop);
	vector<Op> ops;
	for (auto const& x: v["ops"].a) ops.push_back(make_op(x, "t" + std::to_string(ops.size())));
	if (ops.empty() || ops[0].prep.fmt != f || ops.size() > 6) invalid("no operation of this property's format");
	vector<Outcome> out(ops.size());
	vector<std::function<void ()>> fns;
	for (size_t i = 0; i < ops.size(); ++i) {
		if (ops[i].write || !ops[i].prep.has_doc || ops[i].src.has("faults")) invalid("operation");
		fns.push_back([&, i] { out[i] = run_op(ops[i]).o; });
	}
	Tasks::run(fns, v["sched"]);
	for (size_t i = 0; i < ops.size(); ++i) {
		trace("result", long(hash_str(out[i].canon())));
		if (ops[i].prep.fmt != f) continue;
		string const why = compare_read(ops[i].prep.doc, out[i]);
		if (!why.empty()) fail("read differs", "document " + std::to_string(i) + " (" + f + "): " + why);
	}
}

//==== C06: write and read back =============================================================================
static Value gen_round(Rng& r)
{
	Value v = Value::obj();
	v.set("write", gen_write(r)).set("cfg", gen_write_cfg(r, false)).set("src", gen_src(r, "stlbin"));
	if (r.chance(2)) v.set("write", with_long_subtitle(r, v["write"]));
	if (r.chance(30)) v.set("old", r.chance(50) ? r.below(1200) : r.below(20000));
	if (r.chance(20)) v.set("prev", gen_write(r));
	if (r.below(700) == 0) {
		v.set("bulk", r.chance(50) ? 100000 + r.range(-2, 2) : r.chance(50) ? r.range(1000, 70000) : r.range(99000, 120000));
		return v;
	}
	if (r.chance(4)) {
		Value w = v["write"];
		w.set("fps", 23976);
		v.set("write", w);
	}
	return v;
}

/// the writer knows four rates, but the reader makes 23.976 into 23: see known_findings.txt
static void exec_23976(Value const& v)
{
	Value w = v["write"];
	if (w["subs"].a.empty()) invalid("no subtitles");
	w.set("fps", 24);
	bool ok;
	WriteJob job = build_write(w, ok);
	if (!ok || too_long(w)) invalid("write job");
	job.fps = 24000.0f / 1001.0f;
	string const path = scratch() + "/k.stl";
	configure(path, v["cfg"]);
	Outcome const o = do_write(job, path);
	if (!o.ok()) fail("write refused at 23.976", o.kind + " " + o.what);
	Outcome const b = do_read_name(path, 0);
	if (!b.ok()) fail("read back", "reported " + b.kind + " " + b.what);
	vector<std::pair<sub::Time, sub::Time>> seen;
	for (auto const& x: b.raws) if (seen.empty() || !(seen.back().first == x.from) || !(seen.back().second == x.to)) seen.emplace_back(x.from, x.to);
	if (seen.size() != job.subs.size()) fail("read back", "number of subtitles at 23.976");
	bool known = false;
	for (size_t n = 0; n < seen.size(); ++n) {
		for (int e = 0; e < 2; ++e) {
			auto const& want = e ? job.subs[n].to : job.subs[n].from;
			auto const& got = e ? seen[n].second : seen[n].first;
			double const diff = std::fabs(want.all_as_seconds() - got.all_as_seconds());
			if (diff <= 0.5 / 23.976 + 1e-4) continue;
			// the known defect: frames counted at the true rate are taken to be at 23 per second
			double const whole = std::floor(want.all_as_seconds() + 1e-9);
			double const frac = want.all_as_seconds() - whole;
			double const as23 = whole + std::floor(frac * 23.976 + 0.5) / 23.0;
			if (std::fabs(as23 - got.all_as_seconds()) > 1.01 / 23) fail("times", "subtitle " + std::to_string(n) + " at 23.976: wanted " + std::to_string(want.all_as_seconds()) + ", got " + std::to_string(got.all_as_seconds()));
			known = true;
		}
	}
	if (known) note_known("fps-23.976: times in a file written at 23.976 frames per second are read back as if at 23 per second");
}

/// a job of very many short subtitles; the format has room for the numbers of 99999 blocks
static void exec_bulk(Value const& v)
{
	long const n = long(v["bulk"].num());
	if (n < 1 || n > 130000 || v["write"]["subs"].a.empty()) invalid("bulk");
	bool ok;
	WriteJob job = build_write(v["write"], ok);
	if (!ok || too_long(v["write"])) invalid("write job");
	long const fps = long(v["write"]["fps"].num());
	job.subs.clear();
	auto tm = [&](long f) { return sub::Time::from_hmsf(int(f / fps / 3600), int(f / fps / 60 % 60), int(f / fps % 60), int(f % fps), sub::Rational(int(fps), 1)); };
	{
		AllocPause p;
		for (long i = 0; i < n; ++i) {
			sub::RawSubtitle x;
			x.text = string(size_t(1 + i % 3), 'x');
			x.from = tm(i);
			x.to = tm(i + 1);
			x.vertical_position.reference = sub::TOP_OF_SUBTITLE;
			x.vertical_position.line = 0;
			job.subs.push_back(sub::Subtitle(x));
		}
	}
	string const path = scratch() + "/bulk.stl";
	configure(path, Value::obj());
	Outcome const o = do_write(job, path);
	if (n > 99999) {
		if (o.ok()) fail("too long", std::to_string(n) + " subtitles, more than the format can number, were written without an error");
		if (o.kind.find("non-std") != string::npos) fail("too long", "reported as " + o.kind);
		return;
	}
	if (!o.ok()) fail("write failed", o.kind + " " + o.what);
	string bytes;
	get_file(path, bytes);
	Decoded const d = decode_stl(bytes);
	if (!d.ok) fail("bytes written", "independent decoder: " + d.why);
	if (long(d.subs.size()) != n) fail("bytes written", std::to_string(d.subs.size()) + " subtitles instead of " + std::to_string(n));
	Outcome const b = do_read_name(path, 0);
	if (!b.ok()) fail("read back", b.kind + " " + b.what);
	if (long(b.raws.size()) != n) fail("read back", std::to_string(b.raws.size()) + " subtitles instead of " + std::to_string(n));
	for (long i = 0; i < n; ++i)
		if (!(b.raws[size_t(i)].from == tm(i)) || !(b.raws[size_t(i)].to == tm(i + 1)) || b.raws[size_t(i)].text != string(size_t(1 + i % 3), 'x')) fail("read back", "subtitle " + std::to_string(i) + " of " + std::to_string(n));
}

static void exec_round(Value const& v)
{
	if (v["write"]["fps"].num() == 23976) { exec_23976(v); return; }
	if (v.has("bulk")) { exec_bulk(v); return; }
	bool ok;
	WriteJob const job = build_write(v["write"], ok);
	if (!ok) invalid("write job");
	string const path = scratch() + "/round.stl";
	if (v.has("old")) put_file(path, string(size_t(std::min(30000ll, std::max(0ll, v["old"].num()))), 'o'));
	if (v.has("prev")) {
		WriteJob const prev = build_write(v["prev"], ok);
		if (!ok) invalid("earlier job");
		Outcome const o = do_write(prev, path);
		if (!o.ok()) fail("write failed", "earlier write: " + o.kind + " " + o.what);
	}
	configure(path, v["cfg"]);
	Outcome const o = do_write(job, path);
	if (too_long(v["write"])) {
		if (o.ok()) fail("too long", "a subtitle too long for the format was written without an error");
		if (o.kind.find("non-std") != string::npos) fail("too long", "reported as " + o.kind);
		return;
	}
	if (!o.ok()) fail("write failed", o.kind + " " + o.what);
	string bytes;
	get_file(path, bytes);
	trace("written", long(bytes.size()), long(hash_str(bytes)));
	Decoded const e = expect_written(v["write"]);
	Decoded const a = decode_stl(bytes);
	string why = compare_decoded(e, a);
	if (!why.empty()) fail("bytes written", "independent decoder: " + why);
	Prep p;
	p.fmt = "stlbin";
	p.bytes = bytes;
	Outcome const b = read_prepared(p, v["src"], "back");
	why = compare_decoded(as_read(e), from_read(b, long(v["write"]["fps"].num())));
	if (!why.empty()) fail("read back", why);
}

//==== C22: conversion =======================================================================================
/// put all times within a day
static void fold_times(Value& v, long long unit)
{
	for (auto& i: v.a) fold_times(i, unit);
	for (auto& i: v.o) {
		if ((i.first == "from" || i.first == "to") && i.second.kind == Value::INT) i.second = Value(i.second.num() % ((24 * 3600 - 1) * unit));
		else fold_times(i.second, unit);
	}
}

static Value gen_convert(Rng& r)
{
	static vector<string> const from = { "srt", "vtt", "ssa", "stlbin" };
	Value v = Value::obj(), docs = Value::arr();
	for (long n = r.chance(70) ? 1 : 2; n > 0; --n) {
		Value op = gen_read_op(r, r.pick(from));
		Value doc = op["doc"];
		if (doc["fmt"].str() != "stlbin") fold_times(doc, doc["fmt"].str() == "ssa" ? 100 : 1000);
		op.set("doc", doc);
		docs.push(op);
	}
	Value w = gen_write(r);
	w.set("subs", Value::arr());
	v.set("docs", docs).set("write", w).set("cfg", gen_write_cfg(r, false)).set("src", gen_src(r, "stlbin"));
	return v;
}

/// @return true if some piece of text begins with an accent for the character before it.
/// (Where the format keeps pieces apart which look the same there is no character before it in its piece.)
static bool accent_begins_piece(Value const& v)
{
	if (v.kind == Value::STR) {
		string const& s = v.str();
		return s.size() > 1 && ((unsigned char) s[0] == 0xcc || (unsigned char) s[0] == 0xcd);
	}
	for (auto const& i: v.a) if (accent_begins_piece(i)) return true;
	for (auto const& i: v.o) if (accent_begins_piece(i.second)) return true;
	return false;
}

/// @return true if every string is UTF-8 (which a scenario that was cut down may not be)
static bool all_utf8(Value const& v)
{
	if (v.kind == Value::STR) {
		string const& s = v.str();
		for (size_t i = 0; i < s.size(); ) {
			unsigned char const c = (unsigned char) s[i];
			size_t const n = c < 0x80 ? 1 : c >= 0xc2 && c < 0xe0 ? 2 : c >= 0xe0 && c < 0xf0 ? 3 : c >= 0xf0 && c < 0xf5 ? 4 : 0;
			if (!n || i + n > s.size()) return false;
			for (size_t k = 1; k < n; ++k) if (((unsigned char) s[i + k] & 0xc0) != 0x80) return false;
			i += n;
		}
		return true;
	}
	for (auto const& i: v.a) if (!all_utf8(i)) return false;
	for (auto const& i: v.o) if (!all_utf8(i.second)) return false;
	return true;
}

static void exec_convert(Value const& v)
{
	for (auto const& d: v["docs"].a) if (!all_utf8(d["doc"])) invalid("not UTF-8");
	for (auto const& d: v["docs"].a) if (d["doc"]["fmt"].str() != "stlbin" && accent_begins_piece(d["doc"])) invalid("a piece of text begins with an accent");
	vector<Prep> preps;
	vector<Doc const*> docs;
	for (auto const& d: v["docs"].a) preps.push_back(prepare(d));
	if (preps.empty()) invalid("no documents");
	for (auto const& p: preps) {
		if (!p.has_doc || p.doc.raw_only) invalid("not known what is to be collected");
		docs.push_back(&p.doc);
	}
	// how pieces from different documents would share a line depends on where they are, so have none that start together
	for (size_t i = 0; i < docs.size(); ++i)
		for (size_t j = i + 1; j < docs.size(); ++j)
			for (auto const& a: docs[i]->runs) for (auto const& b: docs[j]->runs) if (seconds(a.from) == seconds(b.from)) invalid("documents with cues at the same time");
	Value w = v["write"];
	Decoded const e = expect_converted(docs, w);
	if (!e.ok) invalid(e.why);
	vector<sub::RawSubtitle> raws;
	for (size_t i = 0; i < preps.size(); ++i) {
		Outcome const o = read_prepared(preps[i], v["docs"].a[i]["src"], "from" + std::to_string(i), 0);
		if (!o.ok()) fail("read refused", o.kind + " " + o.what);
		raws.insert(raws.end(), o.raws.begin(), o.raws.end());
	}
	// a job with no subtitles of its own, for the header
	Value one = Value::obj(), line = Value::obj();
	one.set("rate", 1000).set("from", 0).set("to", 0).set("h", 0).set("place", 0);
	line.set("row", 1).set("vref", 0).set("lineform", 0).set("off", 0).set("blocks", Value::arr().push(Value::obj().set("t", "x")));
	w.set("subs", Value::arr().push(one.set("lines", Value::arr().push(line))));
	bool ok;
	WriteJob job = build_write(w, ok);
	if (!ok) invalid("write job");
	job.subs = sub::collect<vector<sub::Subtitle>>(raws);
	string const path = scratch() + "/conv.stl";
	configure(path, v["cfg"]);
	Outcome const o = do_write(job, path);
	if (!o.ok()) fail("write failed", o.kind + " " + o.what);
	string bytes;
	get_file(path, bytes);
	trace("written", long(bytes.size()), long(hash_str(bytes)));
	string why = compare_decoded(without_empty(e), without_empty(decode_stl(bytes)));
	if (!why.empty()) fail("bytes written", "independent decoder: " + why);
	Prep p;
	p.fmt = "stlbin";
	p.bytes = bytes;
	Outcome const b = read_prepared(p, v["src"], "back");
	if (!b.ok()) fail("read back", b.kind + " " + b.what);
	// what the file says is what it reads back as, unless neighbours have come to have the same times
	Decoded d = decode_stl(bytes);
	for (size_t i = 1; i < d.subs.size(); ++i) if (show(d.subs[i].from) == show(d.subs[i - 1].from) && show(d.subs[i].to) == show(d.subs[i - 1].to)) return;
	// (how far the reader moves lines which are too low also depends on lines with nothing in them)
	d = without_empty(d);
	for (auto& x: d.subs) x.rows = Decoded::APART;
	why = compare_decoded(d, without_empty(from_read(b, long(w["fps"].num()))), false);
	if (!why.empty()) fail("read back", why);
}

//==== C07: writes that fail =================================================================================
static Value gen_fail_write(Rng& r)
{
	Value v = Value::obj();
	v.set("write", gen_write(r)).set("src", gen_src(r, "stlbin"));
	Value s = v["src"];
	if (s["kind"].str() == "name") s.set("kind", "file");
	v.set("src", s);
	if (r.chance(40)) v.set("old", r.chance(50) ? r.below(1200) : r.below(20000));
	if (r.chance(25)) v.set("oldjob", gen_write(r));
	if (r.chance(8)) { v.set("target", r.chance(50) ? "missing" : "dir"); return v; }
	Value c = gen_write_cfg(r, true);
	size_t n = 0;
	for (auto const& x: v["write"]["subs"].a) { size_t b = 0; for (auto const& l: x["lines"].a) for (auto const& k: l["blocks"].a) b += k["t"].str().size() + 2; n += 128 * (1 + b / 112); }
	long const size = long(1024 + n);
	long const mode = r.below(100);
	if (mode < 12) c.set("open_err", r.pick(OPEN_ERRS));
	else if (mode < 20) c.set("close_err", r.pick(WRITE_ERRS));
	else if (mode < 60) {
		Value d = c["write"], f = d["faults"];
		for (long k = r.few(1, 2); k > 0; --k) f.push(Value::obj().set("at", r.chance(10) ? 0 : r.chance(10) ? size - 1 : r.chance(10) ? size : r.below(size)).set("err", r.chance(10) ? "EAGAIN" : r.pick(WRITE_ERRS)).set("n", r.chance(70) ? -1 : r.range(1, 2)));
		d.set("faults", f);
		c.set("write", d);
	} else if (mode < 92) {
		c.set("kill_at", r.chance(40) ? r.below(4) : r.below(60)).set("kill_part", r.chance(30) ? 0 : r.chance(30) ? r.below(12) : r.below(size));
	}
	return v.set("cfg", c);
}

static void exec_fail_write(Value const& v)
{
	bool ok;
	WriteJob const job = build_write(v["write"], ok);
	if (!ok) invalid("write job");
	string const ref = scratch() + "/ref.stl";
	Outcome o = do_write(job, ref);
	if (!o.ok()) fail("write without faults failed", o.kind + " " + o.what);
	string intended;
	get_file(ref, intended);
	remove_file(ref);
	string const target = v["target"].str_or("plain");
	if (target != "plain" && target != "missing" && target != "dir") invalid("target");
	string const path = scratch() + (target == "missing" ? "/none/w.stl" : "/w.stl");
	if (target == "dir") mkdir(path.c_str(), 0777);
	string old;
	bool had_old = false;
	if (target == "plain") {
		if (v.has("oldjob")) {
			WriteJob const j = build_write(v["oldjob"], ok);
			if (!ok) invalid("old job");
			do_write(j, path);
			get_file(path, old);
			had_old = true;
		} else if (v.has("old")) {
			old = string(size_t(std::min(30000ll, std::max(0ll, v["old"].num()))), 'o');
			put_file(path, old);
			had_old = true;
		}
	}
	NameCfg* cfg = target == "plain" ? configure(path, v["cfg"]) : nullptr;
	bool killed = false, finished_ok = false, fault = target != "plain";
	string how;
	if (cfg && cfg->kill_at >= 0) {
		string res;
		int const st = nested([&] { return do_write(job, path).kind; }, res);
		if (WIFEXITED(st) && WEXITSTATUS(st) == KILLED) killed = true;
		else if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { finished_ok = res == "ok"; how = res; }
		else fail("crash", "the writing process died with status " + std::to_string(st));
		trace("nested", killed);
	} else {
		o = do_write(job, path);
		finished_ok = o.ok();
		how = o.kind + " " + o.what;
		if (cfg) fault = fault || cfg->write.fired || cfg->open_failed || cfg->close_failed;
		if (finished_ok && target != "plain") fail("lost failure", "writing to " + (target == "dir" ? string("a directory") : string("a missing directory")) + " reported success");
		if (finished_ok && cfg && cfg->open_failed) fail("lost failure", "the target could not be opened, but success was reported");
		if (finished_ok && cfg && cfg->close_failed) fail("lost failure", "closing failed, but success was reported");
		if (finished_ok && cfg && cfg->write.fired_permanent) fail("lost failure", "a write failed for good, but success was reported");
		if (!finished_ok) {
			bool only_eintr = fault && cfg && !cfg->open_failed && !cfg->close_failed;
			if (only_eintr) for (auto const& f: v["cfg"]["write"]["faults"].a) if (f["err"].str() != "EINTR" || f["n"].num(-1) < 0) only_eintr = false;
			if (!fault) fail("refused", "no fault was injected, but the write reported " + how);
			if (only_eintr) fail("refused", "only interrupted writes were injected, but the write reported " + how);
		}
	}
	if (fault || killed) note_nontrivial();
	string left;
	bool const exists = target == "plain" && get_file(path, left);
	trace("left", exists ? long(left.size()) : -1, long(hash_str(left)));
	if (finished_ok) {
		if (!exists) fail("lost data", "success was reported but there is no file");
		if (left != intended) fail("lost data", "success was reported but the file has " + std::to_string(left.size()) + " bytes, different from the " + std::to_string(intended.size()) + " intended");
		return;
	}
	if (!exists) return;
	if (had_old && left == old) return;
	if (left.size() > intended.size() || intended.compare(0, left.size(), left)) fail("mangled remains", "what a failed write left (" + std::to_string(left.size()) + " bytes) is not a leading part of the intended file");
	// the torn file
	Prep p;
	p.fmt = "stlbin";
	p.bytes = left;
	Value const src = v["src"];
	if (src["kind"].str() == "name") invalid("source");
	Outcome const t = read_prepared(p, src, "torn");
	if (t.ok()) {
		p.bytes = intended;
		Value plain = Value::obj();
		plain.set("kind", "stream");
		Outcome const w = read_prepared(p, plain, "whole");
		if (t.canon() != w.canon()) fail("torn file accepted", "the first " + std::to_string(left.size()) + " of " + std::to_string(intended.size()) + " bytes were read as a complete file with " + std::to_string(t.raws.size()) + " pieces of text");
	}
}

//==== C08: read failures ======================================================================================
static Value gen_read_fail(Rng& r)
{
	string f = any_format(r);
	Value op = gen_read_op(r, f);
	Value s = op["src"];
	if (s["kind"].str() == "mem") { s.set("kind", "file").set("chunks", gen_chunks(r)).set("buf", r.chance(50) ? -1 : r.range(0, 300)); }
	size_t const size = build(op["doc"]).bytes.size();
	s.set("faults", gen_faults(r, size));
	if (s["kind"].str() == "stream") { if (r.chance(30)) s.set("mask", true); s.set("exc", r.chance(60) ? "ios" : r.chance(60) ? "runtime" : "int"); }
	if (s["kind"].str() == "name" && r.chance(10)) s.set("open_err", r.pick(OPEN_ERRS)).set("open_n", r.chance(70) ? -1 : 1);
	return op.set("src", s);
}

static void exec_read_fail(Value const& v)
{
	Op op = make_op(v, "r");
	if (op.write || !op.prep.has_doc) invalid("operation");
	Value clean = op.src;
	clean.set("faults", Value::arr());
	if (clean.has("open_err")) clean.set("open_err", "").set("open_n", 0);
	Op base = op;
	base.src = clean;
	Outcome const b = run_op(base).o;
	if (!b.ok()) fail("clean read failed", b.kind + " " + b.what);
	clear_configs();
	Outcome const o = run_op(op).o;
	trace("outcome", long(hash_str(o.canon())), o.fired);
	if (!o.fired) {
		if (o.canon() != b.canon()) fail("differs with no fault", "no fault fired but the result is " + o.kind);
		return;
	}
	note_nontrivial();
	if (!o.ok()) return;
	if (o.no_reader) fail("no reader", "no reader was found for a file that could not be read");
	if (o.canon() != b.canon()) {
		string const why = compare_read(op.prep.doc, o);
		fail("failure taken for the end", "a read failed at byte " + std::to_string(o.first_at) + " of " + std::to_string(op.prep.bytes.size()) + ", but the reader returned normally: " + (why.empty() ? "result differs" : why));
	}
	if (o.fired_permanent && o.first_at >= 0 && o.first_at < long(op.prep.bytes.size())) fail("failure ignored", "reads failed for good from byte " + std::to_string(o.first_at) + " of " + std::to_string(op.prep.bytes.size()) + ", but the reader returned normally");
}

//==== C09: cut documents ========================================================================================
static Value gen_cut(Rng& r)
{
	string const f = any_format(r);
	Value op = gen_read_op(r, f);
	Doc const d = build(op["doc"]);
	long k;
	if (!d.segs.empty() && r.chance(60)) {
		auto const& s = r.pick(d.segs);
		k = long(r.chance(40) ? s.start : r.chance(50) ? s.end : s.start + size_t(r.below(long(s.end - s.start)))) + r.range(-1, 1);
	} else k = r.below(long(d.bytes.size()) + 1);
	if (f == "stlbin" && r.chance(50)) k = 1024 + 128 * r.below(1 + (long(d.bytes.size()) - 1024) / 128);
	op.set("cut", std::max(0l, std::min(k, long(d.bytes.size()))));
	Value s = op["src"];
	if (s["kind"].str() == "name" && f.compare(0, 3, "stl") == 0) { s.set("kind", "stream"); op.set("src", s); }
	return op;
}

static void exec_cut(Value const& v)
{
	Op op = make_op(v, "c");
	if (op.write || !op.prep.has_doc || op.src.has("faults")) invalid("operation");
	if (op.src["kind"].str() == "name" && op.prep.fmt.compare(0, 3, "stl") == 0) invalid("source");
	size_t const k = op.prep.bytes.size();
	bump("fault:cut");
	if (k < op.prep.doc.bytes.size()) note_nontrivial();
	// a binary file may be cut only before the end it declares
	Outcome const o = run_op(op).o;
	trace("outcome", long(hash_str(o.canon())), long(k));
	string const why = compare_cut(op.prep.doc, k, o);
	if (!why.empty()) fail("cut document", op.prep.fmt + " document of " + std::to_string(op.prep.doc.bytes.size()) + " bytes cut at " + std::to_string(k) + ": " + why);
}

//==== C10: damaged bytes ===========================================================================================
static Value gen_small_read(Rng& r)
{
	Value op;
	for (int i = 0; i < 20; ++i) {
		op = gen_read_op(r, any_format(r));
		if (build(op["doc"]).bytes.size() < 2500) break;
	}
	return op;
}

static Value gen_damaged(Rng& r)
{
	Value v = Value::obj();
	string const f = any_format(r);
	Value op;
	if (r.chance(25)) {
		op.set("op", "read").set("fmt", f).set("raw", gen_raw(r, f)).set("src", gen_src(r, f));
		if (r.chance(30)) op.set("damage", gen_damage(r));
	} else {
		op = gen_read_op(r, f);
		if (r.chance(92)) op.set("damage", gen_damage(r));
		if (r.chance(8)) {
			string const g = any_format(r);
			op.set("fmt", g).set("src", gen_src(r, g));
		}
	}
	v.set("op", op).set("follow", gen_small_read(r));
	return v;
}

static void exec_damaged(Value const& v)
{
	Op op = make_op(v["op"], "d"), follow = make_op(v["follow"], "f");
	if (op.write || follow.write || !follow.prep.has_doc || follow.src.has("faults")) invalid("operation");
	note_nontrivial();
	Outcome const o = run_op(op).o;
	trace("outcome", long(hash_str(o.canon())));
	probe(o.ok() ? "damage survived" : "damage reported as " + o.kind);
	if (o.kind == "non-standard exception") fail("foreign exception", "an exception not derived from std::exception");
	Outcome const b = run_op(follow).o;
	string const why = compare_read(follow.prep.doc, b);
	if (!why.empty()) fail("library damaged", "afterwards, reading a good " + follow.prep.fmt + " document: " + why);
}

//==== C11: out of memory ==============================================================================================
static Value gen_oom(Rng& r)
{
	Value v = Value::obj();
	Value op;
	if (r.chance(30)) {
		op = Value::obj();
		op.set("op", "write").set("write", gen_write(r)).set("cfg", gen_write_cfg(r, true));
	} else op = r.chance(70) ? gen_small_read(r) : gen_read_op(r, any_format(r));
	v.set("op", op);
	Value ats = Value::arr();
	for (long n = r.chance(40) ? 1 : r.range(2, 12); n > 0; --n) ats.push(Value::obj().set("at", r.chance(20) ? r.below(30) : r.below(1 << 20)).set("persistent", r.chance(35)));
	v.set("ats", ats);
	v.set("warm", r.chance(50));
	v.set("follow", r.chance(45) ? op : gen_op(r, 0));
	return v;
}

static void exec_oom(Value const& v)
{
	Op const op = make_op(v["op"], "o"), follow = make_op(v["follow"], "f");
	string normal, after;
	auto run_count = [&] {
		Done warm;
		if (v["warm"].flag()) warm = run_op(op);
		Alloc::begin_count();
		Done const d = run_op(op);
		long const n = Alloc::count();
		Alloc::stop();
		return std::to_string(n) + "\n" + d.canon();
	};
	int st = nested(run_count, normal);
	if (st) fail("crash", "without any fault, status " + std::to_string(st));
	st = nested([&] { return run_op(follow).canon(); }, after);
	if (st) fail("crash", "without any fault, status " + std::to_string(st));
	long const n = atol(normal.c_str());
	normal = normal.substr(normal.find('\n') + 1);
	if (n == 0) return;
	Done warm;
	if (v["warm"].flag()) warm = run_op(op);
	long at = 0;
	for (auto const& x: v["ats"].a) {
		at = long(std::max(0ll, x["at"].num())) % n;
		bool const persistent = x["persistent"].flag();
		clear_configs();
		Alloc::fail(at, persistent);
		Done const d = run_op(op);
		bool const fired = Alloc::fired();
		Alloc::stop();
		string const c = d.canon();
		trace("outcome", at, n, long(hash_str(c)));
		if (fired) { fault_fired(persistent ? "allocation, persistent" : "allocation, single"); note_nontrivial(); }
		if (!fired && c != normal) fail("differs with no fault", "no allocation failed but the outcome differs");
		if (d.o.ok() && c != normal) fail("wrong result", "allocation " + std::to_string(at) + " of " + std::to_string(n) + " failed; the operation returned normally with a different result: " + first_difference(normal, c));
		if (d.o.kind == "non-standard exception") fail("foreign exception", "an exception not derived from std::exception");
		probe(d.o.ok() ? "oom survived" : "oom reported as " + d.o.kind);
	}
	clear_configs();
	string const a = run_op(follow).canon();
	if (a != after) {
		size_t k = 0;
		while (k < a.size() && k < after.size() && a[k] == after[k]) ++k;
		k = k > 40 ? k - 40 : 0;
		fail("library damaged", "after allocation " + std::to_string(at) + " of " + std::to_string(n) + " failed, the next operation gave ..." + a.substr(k, 200) + "... instead of ..." + after.substr(k, 200));
	}
}

//==== C12: leaks =========================================================================================================
static Value gen_leak(Rng& r)
{
	Value v = Value::obj();
	Value ops = Value::arr();
	for (long n = r.few(1, 3); n > 0; --n) {
		Value op = gen_op(r, 60);
		if (r.chance(25)) op.set("oom", r.below(1 << 20)).set("persistent", r.chance(30));
		ops.push(op);
	}
	if (r.chance(40)) v.set("vary", true);
	return v.set("ops", ops);
}

/// the same operation on a document that is not quite the same, but as long
static Op varied(Op const& op, int k)
{
	Op o = op;
	char b[3];
	snprintf(b, sizeof b, "%02d", k % 60);
	string const n = b;
	o.tag += n;
	if (o.write) {
		o.job.opt = "programme " + n;
		o.job.cd = "0101" + n;
		if (!o.job.subs.empty() && !o.job.subs[0].lines.empty()) {
			sub::Block t;
			t.text = "number " + n;
			o.job.subs[0].lines[0].blocks.push_back(t);
		}
		return o;
	}
	string& d = o.prep.bytes;
	string const& f = o.prep.fmt;
	if (f == "srt") {
		string const c = "\n\n" + n + "\n00:00:" + n + ",0" + n + " --> 00:01:00,0" + n + "\n{\\an8}number {\\fs" + n + "}<font color=\"#0000" + n + "\">" + n + "</font>\n\n";
		d = c + d + c;
	} else if (f == "vtt") {
		size_t const e = d.find('\n');
		string const c = "\n\nNOTE number " + n + "\n\n" + n + "\n00:" + n + ".0" + n + " --> 01:00.0" + n + " line:" + n + "\nnumber " + n + "\n\n";
		if (e != string::npos) d.insert(e, c);
		d += c;
	} else if (f == "ssa") {
		d = "[Script Info]\n; number " + n + "\nTitle: number " + n + "\n[V4+ Styles]\nFormat: Name, Fontname, Fontsize\nStyle: n" + n + ",Font " + n + ",1" + n + "\n[Events]\nFormat: Start, End, Style, Text\n"
			"Dialogue: 0:00:" + n + "." + n + ",0:01:00." + n + ",n" + n + ",number {\\pos(1" + n + ",1" + n + ")\\fs" + n + "}" + n + "\n[Script Info]\n" + d;
	} else if (f == "stltext") {
		d = "not a subtitle " + n + "\n$FontName = number " + n + "\n$Unknown" + n + " = 1\n00:00:" + n + ":00 , 00:01:00:00 , number " + n + "\n" + d;
	} else {
		if (d.size() > 400) { d.replace(16, 2, n); d.replace(309, 2, n); }
		for (size_t i = 1024; i + 128 <= d.size(); i += 128) if (d[i + 16] >= 0x20 && d[i + 17] >= 0x20 && d[i + 18] >= 0x20) d.replace(i + 16, 2, n);
	}
	return o;
}

static void exec_leak(Value const& v)
{
	vector<Op> ops, clean;
	vector<long> oom;
	vector<bool> persistent;
	for (auto const& x: v["ops"].a) {
		Op const o = make_op(x, "l" + std::to_string(ops.size()));
		ops.push_back(o);
		Op c = o;
		c.src.set("faults", Value::arr());
		if (c.write) { Value w = Value::obj(); c.cfg = w; }
		clean.push_back(c);
		oom.push_back(x.has("oom") ? long(std::max(0ll, x["oom"].num())) : -1);
		persistent.push_back(x["persistent"].flag());
	}
	if (ops.empty()) invalid("no operations");
	string kinds;
	bool const vary = v["vary"].flag();
	int repetition = 0;
	auto once = [&] {
		kinds.clear();
		++repetition;
		for (size_t i = 0; i < ops.size(); ++i) {
			clear_configs();
			Op const op = vary ? varied(ops[i], 10 + repetition) : ops[i];
			if (oom[i] >= 0) Alloc::fail(oom[i], persistent[i]);
			{
				Done const d = run_op(op);
				Alloc::stop();
				kinds += d.o.kind + " ";
			}
			clear_configs();
		}
	};
	// what happens once only (tables, locales, ...) is not a leak
	for (size_t i = 0; i < clean.size(); ++i) {
		clear_configs();
		Alloc::begin_count();
		{ Done const d = run_op(clean[i]); }
		long const n = Alloc::count();
		Alloc::stop();
		if (oom[i] >= 0) oom[i] = n > 0 ? oom[i] % n : -1;
		clear_configs();
	}
	for (int k = 0; k < 2; ++k) once();
	kinds.reserve(500);
	struct M { long live, bytes, files, fds; };
	auto measure = [] { return M{ Alloc::live(), Alloc::live_bytes(), open_sim_files(), open_fds() }; };
	vector<M> m;
	m.reserve(8);
	m.push_back(measure());
	for (int k = 0; k < 4; ++k) {
		{ once(); kinds.shrink_to_fit(); kinds.reserve(500); }
		m.push_back(measure());
	}
	trace("measure", m[4].live - m[0].live, m[4].files, m[4].fds);
	note_nontrivial();
	auto grows = [&](long M::*f) { for (size_t k = 1; k < m.size(); ++k) if (!(m[k].*f > m[k - 1].*f)) return false; return true; };
	if (m[4].files > 0) fail("file left open", std::to_string(m[4].files) + " files opened by the library are still open; outcomes: " + kinds);
	if (grows(&M::fds)) fail("descriptors grow", "descriptors open: " + std::to_string(m[0].fds) + " then " + std::to_string(m[4].fds) + "; outcomes: " + kinds);
	if (grows(&M::live) || grows(&M::bytes)) fail("memory grows", std::to_string(m[4].live - m[0].live) + " blocks and " + std::to_string(m[4].bytes - m[0].bytes) + " bytes more after four repetitions; outcomes: " + kinds);
}

//==== C14: histories ========================================================================================================
static Value gen_history(Rng& r)
{
	Value v = Value::obj();
	Value h = Value::arr();
	for (long n = r.few(1, 12); n > 0; --n) {
		Value op = gen_op(r, 50);
		if (r.chance(15)) op.set("oom", r.below(2000)).set("persistent", r.chance(30));
		h.push(op);
	}
	Value op = gen_op(r, 35);
	if (op["op"].str() == "read" && op.has("doc") && r.chance(30)) {
		// an earlier document of the same name and size
		string const f = op["doc"]["fmt"].str();
		Value src = op["src"];
		if (f != "vtt" && f != "ssa" && !op.has("fmt") && r.chance(80)) { src.set("kind", "name"); src.set("faults", Value::arr()); op.set("src", src); }
		Value other = op;
		Value d = Value::obj();
		d.set("op", "flip").set("at", r.below(r.chance(50) ? 300 : 5000)).set("n", r.chance(50) ? 1 : r.range(2, 32));
		other.set("damage", Value::arr().push(d));
		h.push(other);
	}
	v.set("hist", h).set("op", op);
	return v;
}

static string first_difference(string const& a, string const& b)
{
	size_t k = 0;
	while (k < a.size() && k < b.size() && a[k] == b[k]) ++k;
	k = k > 60 ? k - 60 : 0;
	return "..." + a.substr(k, 200) + "... and ..." + b.substr(k, 200) + "...";
}

static void exec_history(Value const& v)
{
	Op const op = make_op(v["op"], "x");
	vector<Op> hist;
	for (auto const& x: v["hist"].a) hist.push_back(make_op(x, "x"));
	if (hist.size() > 14) invalid("history too long");
	string fresh;
	int const st = nested([&] { return run_op(op).canon(); }, fresh);
	if (st) fail("crash", "in a fresh process, status " + std::to_string(st));
	struct Kept { std::shared_ptr<sub::Reader> reader; string canon; int flags; };
	vector<Kept> kept;
	auto look = [](std::shared_ptr<sub::Reader> r) { Outcome o; use(o, r, 3); return o.canon(); };
	for (size_t i = 0; i < hist.size(); ++i) {
		clear_configs();
		if (v["hist"].a[i].has("oom")) Alloc::fail(long(v["hist"].a[i]["oom"].num()), v["hist"].a[i]["persistent"].flag());
		Done const d = run_op(hist[i]);
		Alloc::stop();
		trace("history", long(i), long(hash_str(d.canon())));
		if (d.o.reader) kept.push_back(Kept{ d.o.reader, look(d.o.reader), 3 });
	}
	clear_configs();
	if (!hist.empty()) note_nontrivial();
	Done const d = run_op(op);
	string const now = d.canon();
	trace("now", long(hash_str(now)));
	if (now != fresh) fail("depends on history", "in a fresh process and after " + std::to_string(hist.size()) + " operations: " + first_difference(fresh, now));
	for (auto const& k: kept) {
		string const c = look(k.reader);
		if (c != k.canon) fail("result changed", "a reader's results changed later: " + first_difference(k.canon, c));
	}
}

//==== C15: locales =============================================================================================================
static vector<string> const LOCALES = { "C", "de_DE.UTF-8", "fr_FR.UTF-8", "hi_IN.UTF-8", "tr_TR.UTF-8", "C.UTF-8" };

namespace {
/// digit grouping and decimal point of no country
struct OddPunct : std::numpunct<char>
{
	OddPunct(char p, char t, string g) : point(p), sep(t), group(g) {}
	char point, sep;
	string group;
	char do_decimal_point() const override { return point; }
	char do_thousands_sep() const override { return sep; }
	string do_grouping() const override { return group; }
	string do_truename() const override { return "wahr"; }
	string do_falsename() const override { return "falsch"; }
};
}

static void set_locale(Value const& s)
{
	AllocPause p;
	string const name = s["loc"].str();
	long const how = long(s["how"].num());
	if (name == "odd") {
		std::locale const base = how == 0 ? std::locale::classic() : std::locale();
		std::locale::global(std::locale(base, new OddPunct(how & 1 ? ',' : ';', how & 2 ? '.' : '\'', how & 4 ? "\1" : "\3\2")));
		fault_fired("locale odd");
		return;
	}
	if (std::find(LOCALES.begin(), LOCALES.end(), name) == LOCALES.end()) invalid("locale");
	try {
		if (how == 0) {
			if (!setlocale(LC_ALL, name.c_str())) { bump("note:locale not available"); return; }
		} else if (how == 1) {
			std::locale::global(std::locale(name));
		} else {
			// C++ only
			string const now = setlocale(LC_ALL, nullptr);
			std::locale::global(std::locale(name));
			setlocale(LC_ALL, now.c_str());
		}
		fault_fired("locale " + name + (how == 0 ? " (C)" : how == 1 ? " (C and C++)" : " (C++)"));
	} catch (std::runtime_error&) {
		bump("note:locale not available");
	}
	trace("locale", long(hash_str(name)), how);
}

static Value gen_locale(Rng& r)
{
	Value v = Value::obj();
	v.set("op", gen_op(r, 15));
	if (r.chance(70)) {
		Value op = v["op"];
		if (op["src"]["kind"].str() == "mem") { Value s = op["src"]; s.set("kind", "file").set("chunks", gen_chunks(r)); op.set("src", s); v.set("op", op); }
	}
	Value st = Value::arr();
	for (long n = r.few(1, 5); n > 0; --n) {
		Value s = Value::obj();
		s.set("at", st.a.empty() && r.chance(80) ? 0 : r.chance(60) ? r.below(8) : r.below(60)).set("loc", r.chance(20) ? string("odd") : r.pick(LOCALES)).set("how", r.range(0, 5));
		if (s["loc"].str() != "odd") s.set("how", r.range(0, 2));
		st.push(s);
	}
	return v.set("steps", st);
}

static void exec_locale(Value const& v)
{
	Op const op = make_op(v["op"], "x");
	string plain;
	int const st = nested([&] { return run_op(op).canon(false); }, plain);
	if (st) fail("crash", "in the C locale, status " + std::to_string(st));
	vector<Value> steps;
	for (auto const& s: v["steps"].a) steps.push_back(s);
	long k = 0;
	auto apply = [&] { for (auto const& s: steps) if (s["at"].num() == k) set_locale(s); };
	apply();
	k = 1;
	bool inside = false;
	at_io = [&] { if (inside) return; inside = true; apply(); ++k; inside = false; };
	Done const d = run_op(op);
	at_io = nullptr;
	std::locale::global(std::locale::classic());
	setlocale(LC_ALL, "C");
	note_nontrivial();
	string const c = d.canon(false);
	trace("outcome", long(hash_str(c)), k);
	if (c != plain) fail("depends on locale", "in the C locale and with locales " + v["steps"].json() + ": " + first_difference(plain, c) + (d.o.ok() ? "" : " (" + d.o.what + ")"));
}

//==== C16: two sources ==============================================================================================================
static Value gen_two(Rng& r)
{
	string const f = any_format(r);
	Value op;
	long const how = r.below(100);
	if (how < 35) { op = gen_read_op(r, f); }
	else if (how < 65) { op = gen_read_op(r, f); op.set("damage", gen_damage(r)); }
	else if (how < 75) { op = gen_read_op(r, f); op.set("cut", r.below(4000)); }
	else { op = Value::obj(); op.set("op", "read").set("fmt", f).set("raw", gen_raw(r, f)); }
	auto src = [&] {
		Value s = gen_src(r, f);
		while (s["kind"].str() == "name" && f != "srt") s = gen_src(r, f);
		return s;
	};
	op.set("src", src());
	op.set("src2", src());
	return op;
}

static string rtrim_line(string s) { while (!s.empty() && (s.back() == '\r' || s.back() == '\n')) s.pop_back(); return s; }

static void exec_two(Value const& v)
{
	Op a = make_op(v, "a");
	if (a.write) invalid("operation");
	Op b = a;
	b.src = v["src2"];
	if (a.src.has("faults") || b.src.has("faults")) invalid("faults");
	if (a.prep.fmt != "srt" && (a.src["kind"].str() == "name" || b.src["kind"].str() == "name")) invalid("source");
	if (!source_applies(b.prep.fmt, b.src)) invalid("source kind");
	note_nontrivial();
	auto full = [](Outcome const& o) { string c = o.canon(); for (auto const& l: o.context) c += "context " + esc(rtrim_line(l)) + "\n"; return c; };
	Outcome const x = run_op(a).o, y = run_op(b).o;
	trace("outcomes", long(hash_str(x.canon())), long(hash_str(y.canon())));
	string const cx = full(x), cy = full(y);
	if (cx != cy) fail("sources differ", a.prep.fmt + " from " + a.src.json() + " and from " + b.src.json() + ": " + first_difference(cx, cy));
}

//==== C17: by name ====================================================================================================================
static string case_variant(string const& s, long n) { string r = s; for (size_t i = 0; i < r.size(); ++i) if (n >> i & 1) r[i] = char(toupper(r[i])); return r; }

/// comments that are nearly the start of a binary file
static vector<char const*> const NOT_BINARY = { "// STL25.10", "// STL", "// STL25", "// STL25.0", "//.STL30.00 x", "// STL25x01", "// STM25.01", "// stl25.01", "//STL25.01", "//  STL25.01", "// STL24,01", "//", "// EBU.01", "//STL v1.01", "// My STL.01", "//STLSTL.01", "// ST25L.01", "//...25.01 STL" };

static Value gen_name(Rng& r)
{
	Value v = Value::obj();
	string const f = r.chance(40) ? "srt" : r.chance(50) ? "stltext" : "stlbin";
	long const how = r.below(100);
	v.set("doc", gen_doc(r, f)).set("case", r.below(16));
	static vector<char const*> const stems = { "a", "a.b", "x.stl", "y.srt", "no ext", ".hidden", "\xc3\xa9t\xc3\xa9", "stl", "" };
	v.set("stem", r.pick(stems));
	Value rd = Value::obj();
	rd.set("chunks", gen_chunks(r));
	v.set("read", rd);
	if (f == "stltext" && r.chance(25)) v.set("first", r.below(long(NOT_BINARY.size())));
	if (r.chance(10)) v.set("before", gen_doc(r, "stlbin"));
	if (how < 45) v.set("mode", "open");
	else if (how < 55) {
		static vector<char const*> const bad = { ".txt", ".ssa", ".vtt", ".ass", "", ".srtx", ".st", ".sub", ".STLL", ".xml", ".sr" };
		v.set("mode", "unsupported").set("suffix", r.pick(bad));
	} else if (how < 70) {
		v.set("mode", "unopenable").set("suffix", r.chance(50) ? ".srt" : ".stl").set("why", r.chance(60) ? "error" : r.chance(50) ? "missing" : "dir").set("err", r.pick(OPEN_ERRS));
	} else if (how < 80) {
		Value fl = Value::arr();
		fl.push(Value::obj().set("at", r.below(12)).set("err", r.chance(60) ? "EIO" : "ESTALE").set("n", r.chance(60) ? -1 : r.range(1, 2)));
		rd.set("faults", fl);
		v.set("mode", "header").set("read", rd);
	} else {
		v.set("mode", "program").set("limit", r.chance(50) ? -1 : r.chance(20) ? -2 : r.below(3000));
		if (r.chance(25)) {
			static vector<char const*> const bad = { ".txt", ".ssa", "" };
			if (r.chance(40)) v.set("suffix", r.pick(bad));
			else if (r.chance(20)) v.set("names", r.chance(50) ? 0 : 2);
			else if (r.chance(40)) v.set("why", "missing");
			else { rd.set("faults", gen_faults(r, 2000)); v.set("read", rd); }
		}
	}
	return v;
}

/// the program's own main() in a process of its own
static int run_program(string const& path, string const& out, long limit, long names)
{
	string r;
	return nested([&]() -> string {
		std::cout.rdbuf(nullptr);
		int const fd = open(limit == -2 ? "/dev/full" : out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666);
		if (fd < 0) _exit(98);
		dup2(fd, 1);
		int const null = open("/dev/null", O_WRONLY);
		(void) null;
		if (limit >= 0) {
			signal(SIGXFSZ, SIG_IGN);
			struct rlimit l = { rlim_t(limit), rlim_t(limit) };
			setrlimit(RLIMIT_FSIZE, &l);
		}

		std::cout.rdbuf(real_cout);
		std::cout.clear();
		signal(SIGABRT, SIG_DFL);
		string a0 = "dumpsubs", a1 = path, a2 = path;
		char* argv[] = { &a0[0], &a1[0], &a2[0], nullptr };
		argv[names + 1] = nullptr;
		optind = 1;
		int rc = 0;
		try {
			rc = dumpsubs_main(int(names) + 1, argv);
		} catch (...) {
			// as if it had not been caught
			rc = 134;
		}
		std::cout.flush();
		fflush(stdout);
		_exit(rc & 0xff);
	}, r);
}

static void exec_name(Value const& v)
{
	Doc d = build(v["doc"]);
	if (!d.valid) invalid(d.why);
	if (v.has("first")) {
		size_t const n = size_t(v["first"].num());
		if (d.fmt != "stltext" || n >= NOT_BINARY.size()) invalid("first line");
		d.bytes = NOT_BINARY[n] + string(d.bytes.empty() ? "" : "\n") + d.bytes;
	}
	if (d.fmt != "srt" && d.fmt != "stltext" && d.fmt != "stlbin") invalid("format");
	string const mode = v["mode"].str();
	string suffix = v.has("suffix") ? v["suffix"].str() : case_variant(suffix_of(d.fmt), long(v["case"].num()));
	string lower;
	for (char c: suffix) lower += char(tolower(c));
	bool const supported = lower == ".srt" || lower == ".stl";
	string const stem = v["stem"].str();
	if (stem.find('/') != string::npos || stem.find('\0') != string::npos) invalid("name");
	string path = scratch() + "/n" + stem + suffix;
	if (suffix.empty() && stem.find('.') != string::npos) invalid("name");
	note_nontrivial();
	auto config = [&](bool open_err) {
		Value c = Value::obj();
		c.set("read", v["read"]);
		if (open_err) c.set("open_err", v["err"].str_or("EACCES"));
		return configure(path, c);
	};
	if (v.has("before")) {
		Doc const b = build(v["before"]);
		if (!b.valid || b.fmt != "stlbin") invalid("earlier document");
		put_file(path + "b.stl", b.bytes);
		do_read_name(path + "b.stl");
		remove_file(path + "b.stl");
	}
	if (mode == "open") {
		if (v["read"].has("faults") || v.has("suffix")) invalid("faults");
		put_file(path, d.bytes);
		config(false);
		Outcome const o = do_read_name(path);
		trace("open", long(hash_str(o.canon())));
		if (o.no_reader) fail("wrong reader", "no reader for " + esc(stem + suffix));
		string why = compare_read(d, o);
		if (!why.empty()) fail("wrong reader", "opening " + esc(stem + suffix) + " (" + d.fmt + "): " + why);
		Value src = Value::obj();
		src.set("kind", d.fmt == "srt" ? "mem" : "stream");
		Outcome const b = do_read(d.fmt, d.bytes, src);
		if (b.canon() != o.canon()) fail("differs from the format's reader", first_difference(o.canon(), b.canon()));
	} else if (mode == "unsupported") {
		if (supported) invalid("suffix is supported");
		put_file(path, d.bytes);
		config(false);
		Outcome const o = do_read_name(path);
		if (o.ok() && !o.no_reader) fail("wrong reader", "a reader was found for the unsupported name " + esc(stem + suffix));
	} else if (mode == "unopenable") {
		if (!supported || v["read"].has("faults")) invalid("suffix");
		string const why = v["why"].str();
		if (why == "error") { put_file(path, d.bytes); config(true); }
		else if (why == "dir") mkdir(path.c_str(), 0777);
		else if (why != "missing") invalid("reason");
		fault_fired("unopenable " + why);
		Outcome const o = do_read_name(path);
		trace("unopenable", long(hash_str(o.canon())));
		if (o.ok()) fail("unopenable file accepted", "a file that cannot be opened (" + why + ", " + esc(stem + suffix) + ") was reported as " + (o.no_reader ? "having no reader" : "a document with " + std::to_string(o.raws.size()) + " pieces of text"));
		if (o.kind == "non-standard exception") fail("foreign exception", o.kind);
	} else if (mode == "header") {
		if (!supported || !v["read"].has("faults")) invalid("suffix");
		put_file(path, d.bytes);
		auto c = config(false);
		Outcome const o = do_read_name(path);
		trace("header", long(hash_str(o.canon())));
		if (!c->read.fired) return;
		if (o.ok()) {
			string const why = o.no_reader ? "no reader" : compare_read(d, o);
			if (!why.empty()) fail("unreadable header accepted", "a file whose first bytes could not be read was taken as a document: " + why);
			if (c->read.fired_permanent) fail("unreadable header accepted", "a file whose first bytes cannot be read was taken as a document");
		}
	} else if (mode == "program") {
		long const limit = long(v["limit"].num(-1));
		bool const missing = v["why"].str() == "missing";
		if (!missing) put_file(path, d.bytes);
		if (limit == -2 && expected_dump(d).empty()) invalid("nothing to write");
		config(false);
		string const out = scratch() + "/out.txt";
		long const names = long(v["names"].num(1));
		if (names < 0 || names > 2) invalid("names");
		int const st = run_program(path, out, limit, names);
		bool const success = WIFEXITED(st) && WEXITSTATUS(st) == 0;
		if (WIFEXITED(st) && WEXITSTATUS(st) == 98) invalid("cannot set up output");
		if (WIFEXITED(st) && WEXITSTATUS(st) == 99) fail("crash", "the program crashed");
		string text;
		get_file(out, text);
		remove_file(out);
		if (names != 1) {
			if (success) fail("exit status", "the program was given " + std::to_string(names) + " files and reported success");
			return;
		}
		// warnings about lines that were not recognised come first
		if (d.fmt == "stltext" && text.compare(0, 12, "Subtitle 0 a")) {
			size_t const p = text.find("\nSubtitle 0 a");
			if (p != string::npos) text.erase(0, p + 1);
			else text.clear();
		}
		trace("program", st, long(hash_str(text)));
		string const why = limit == -2 ? "nothing could be written" : compare_dump(d, text);
		if (success && (missing || !supported)) fail("success of the program", "the program reported success for " + esc(stem + suffix) + (missing ? " which does not exist" : ""));
		if (success && !why.empty()) fail("success of the program", "exit status 0, but " + why);
		if (limit >= 0 && long(text.size()) >= limit) fault_fired("output limit");
		if (limit == -2) fault_fired("output device full");
		if (!success && supported && !missing && limit == -1 && !v["read"].has("faults")) fail("program failed", "status " + std::to_string(st) + " for a good file");
	} else invalid("mode");
}

//==== C18: malformed documents ============================================================================================================
static Value gen_malformed(Rng& r)
{
	Value op = gen_read_op(r, r.chance(60) ? "srt" : "vtt");
	op.set("cue", r.below(60)).set("how", r.below(1000));
	return op;
}

static void exec_malformed(Value const& v)
{
	Op op = make_op(v, "m");
	if (op.write || !op.prep.has_doc || op.src.has("faults")) invalid("operation");
	Doc const& d = op.prep.doc;
	bool const srt = d.fmt == "srt";
	if (!srt && d.fmt != "vtt") invalid("format");
	long const how = long(std::max(0ll, v["how"].num()));
	string const sep = srt ? "," : ".";
	string const good = "00:00:01" + sep + "000";
	// what to put in place of which part
	size_t from = string::npos, to = 0;
	string with, found, expected, type = srt ? "SubripError" : "WebVTTError";
	int const cue = int(v["cue"].num()) % std::max(1, d.cues);
	vector<Seg const*> fonts;
	for (auto const& s: d.segs) if (s.kind == Seg::MARK && starts(d.bytes, s.start, "<font")) fonts.push_back(&s);
	if (srt && !fonts.empty() && how % 3 == 0) {
		auto const& s = *fonts[size_t(v["cue"].num()) % fonts.size()];
		static vector<string> const bad = { "<font color=\"#12345\">", "<font color=\"red\">", "<font size=\"3\">", "<font>", "<font color='#1234567'>", "<font color=\"rgba(1,2,3)\">", "<font color=\"rgba(1,2,3,x)\">", "<font color=\"#fffffffff\">", "<font color=#>", "<FONT COLOUR=\"#ffffff\">" };
		from = s.start; to = s.end;
		with = bad[size_t(how / 3) % bad.size()];
		found = with.substr(5, with.size() - 6);
		expected = "colour";
	} else if (!srt && how % 5 == 0) {
		type = "WebVTTHeaderError";
		static vector<string> const bad = { "XEBVTT", "webvtt", "WEBVT", "", "1", "00:00:01.000 --> 00:00:02.000", "\nWEBVTT", " WEBVTT", "SUBVTT" };
		from = 0; to = d.segs[0].end;
		with = bad[size_t(how / 5) % bad.size()];
		// what follows the word on the same line goes with it
		for (size_t i = 1; i < d.segs.size() && d.segs[i].kind == Seg::SAFE && d.segs[i].cue < 0; ++i) if (d.segs[i].start == to && with.size() < 6) { to = d.segs[i].end; break; }
		if (v["doc"]["bom"].flag()) with = "\xef\xbb\xbf" + with;
	} else {
		Seg const* t = nullptr;
		for (auto const& s: d.segs) if (s.kind == Seg::STRUCT && s.cue == cue && s.start > 0) { t = &s; break; }
		if (!t) invalid("no timing line");
		from = t->start; to = t->end;
		struct Bad { string text, found, expected; };
		auto stamp = [&](string b, string e, bool second) {
			return Bad{ second ? good + " --> " + b : b + " --> " + good, b, e };
		};
		string const kw = "time";
		static string const X = "zz";
		vector<Bad> all = {
			{ good + " -->", good + " -->", kw }, { "--> " + good, "--> " + good, kw }, { "-->", "-->", kw }, { good + "-->" + good, good + "-->" + good, kw }
		};
		if (srt) all.insert(all.end(), { { good + " --> " + good + " X1:0", good + " --> " + good + " X1:0", kw }, { good, good, kw }, { "hello", "hello", kw }, { good + " " + good, good + " " + good, kw }, { "how are you today", "how are you today", kw } });
		for (int k = 0; k < 2; ++k) {
			all.push_back(stamp("xx:00:01" + sep + "000", "hour", k));
			all.push_back(stamp("00:1z:01" + sep + "000", "minute", k));
			all.push_back(stamp("00:00:q1" + sep + "000", "second", k));
			all.push_back(stamp("00:00:01" + sep + "00o", "millisecond", k));
			all.push_back(stamp("00:00:01" + sep, "millisecond", k));
			all.push_back(stamp(":00:01" + sep + "000", "hour", k));
			all.push_back(stamp("00::01" + sep + "000", "minute", k));
			all.push_back(stamp("00:00:" + sep + "000", "second", k));
			all.push_back(stamp("00:00:01", kw, k));
			all.push_back(stamp(string("00:00:01") + (srt ? "." : ",") + "000", kw, k));
			if (srt) all.push_back(stamp("00:01" + sep + "000", kw, k));
			all.push_back(stamp("00:00:00:01" + sep + "000", kw, k));
			all.push_back(stamp("99999999999:00:01" + sep + "000", "hour", k));
			all.push_back(stamp("soon", kw, k));
		}
		auto const& b = all[size_t(how) % all.size()];
		with = b.text; found = b.found; expected = b.expected;
	}
	Doc m;
	m.bytes = d.bytes.substr(0, from) + with + d.bytes.substr(to);
	auto const lines = m.lines();
	size_t line = 1 + size_t(std::count(m.bytes.begin(), m.bytes.begin() + long(from), '\n'));
	op.prep.bytes = m.bytes;
	bump("fault:malformation");
	note_nontrivial();
	Outcome const o = run_op(op).o;
	trace("outcome", long(hash_str(o.canon())));
	string const what = "with " + esc(with) + " on line " + std::to_string(line) + ": ";
	if (o.ok()) fail("accepted", what + "the document was accepted");
	if (o.kind != type) fail("wrong type of error", what + "reported as " + o.kind + " (" + o.what + "), not " + type);
	if (type == "WebVTTHeaderError") return;
	if (o.what.find(found) == string::npos) fail("found part missing", what + "the message does not say what was found: " + o.what);
	size_t const rest = o.what.find(found) + found.size();
	if (o.what.find(expected, rest) == string::npos) fail("expected part missing", what + "the message does not say that a " + expected + " was expected: " + o.what);
	if (srt && o.line != long(line)) fail("wrong line number", what + "reported line " + std::to_string(o.line));
	if (srt && o.what.find(std::to_string(line)) == string::npos) fail("wrong line number", what + "the message does not give the line: " + o.what);
	// the context
	vector<string> ctx;
	for (auto const& l: o.context) ctx.push_back(rtrim_line(l));
	bool good_ctx = false;
	size_t const L = line - 1;
	for (size_t start = 0; start <= L && !good_ctx; ++start) {
		if (start + ctx.size() <= L || start + ctx.size() > lines.size()) continue;
		if (L - start < std::min<size_t>(L, 2)) continue;
		good_ctx = std::equal(ctx.begin(), ctx.end(), lines.begin() + long(start));
	}
	if (!good_ctx) {
		string s;
		for (auto const& l: ctx) s += "\n    " + esc(l);
		fail("wrong context", what + "the context is not the lines leading up to it:" + s);
	}
}

#ifdef SIM_THREADS
//==== C13: threads =======================================================================================================================
static Value gen_threads(Rng& r)
{
	Value v = Value::obj();
	Value ths = Value::arr();
	long const n = r.chance(70) ? 2 : r.range(2, MAX_THREADS);
	// the same kind of work in every thread meets the same code at the same time
	string const fmt = any_format(r);
	long const alike = r.below(100);
	int tries = 0;
	for (long i = 0; i < n; ++i) {
		Value ops = Value::arr();
		for (long k = r.few(1, 3); k > 0; --k) {
			Value op;
			if (r.below(100) < alike) {
				op = Value::obj();
				if (fmt == "stlbin" && r.chance(50)) op.set("op", "write").set("write", gen_write(r)).set("cfg", gen_write_cfg(r, true));
				else { op = gen_read_op(r, fmt); if (r.chance(10)) op.set("damage", gen_damage(r)); }
			} else op = gen_op(r, 20);
			// long documents take long under the scheduler and show nothing more
			if (op.json().size() > 12000 && tries++ < 20) { ++k; continue; }
			ops.push(op);
		}
		ths.push(ops);
	}
	if (r.chance(25)) {
		// one result used by all
		Value op = gen_read_op(r, fmt);
		for (int k = 0; k < 5 && op.json().size() > 12000; ++k) op = gen_read_op(r, fmt);
		v.set("shared", op);
		for (auto& t: ths.a) {
			size_t const at = size_t(r.below(long(t.a.size()) + 1));
			Value const use = Value::obj().set("op", "shared");
			if (r.chance(60)) t.a = { use }; else t.a.insert(t.a.begin() + long(at), use);
		}
	}
	v.set("threads", ths);
	if (r.chance(20)) v.set("warm", gen_op(r, 10));
	Value points = Value::arr();
	static vector<char const*> const kinds = { "a", "s", "l", "i", "o" };
	// a run favours some kinds of place
	vector<char const*> some;
	for (long k = r.range(1, 3); k > 0; --k) some.push_back(r.pick(kinds));
	for (long k = r.chance(30) ? r.range(1, 3) : r.chance(40) ? r.range(1, 12) : r.range(1, 80); k > 0; --k) {
		string const kind = r.pick(some);
		long const most = kind == "a" ? 300000 : kind == "s" ? 5000 : kind == "l" ? 12 : kind == "i" ? 20 : 2;
		// the place of a point matters more than its distance: all magnitudes alike
		long n = 1;
		for (long bits = r.below(19); bits > 0; --bits) n = n * 2 + r.below(2);
		if (n > most) n = r.range(1, most);
		points.push(Value::obj().set("k", kind).set("n", std::min(n, most)).set("to", r.below(12)));
	}
	v.set("sched", Value::obj().set("first", r.below(12)).set("points", points));
	return v;
}

static void exec_threads(Value const& v)
{
	vector<vector<Op>> ops;
	for (auto const& t: v["threads"].a) {
		vector<Op> o;
		for (auto const& x: t.a) {
			if (x["op"].str() == "shared") { Op u; u.tag = "shared"; o.push_back(u); }
			else o.push_back(make_op(x, "t" + std::to_string(ops.size()) + "_" + std::to_string(o.size())));
		}
		ops.push_back(o);
	}
	if (ops.empty() || int(ops.size()) > MAX_THREADS) invalid("threads");
	Op shared_op;
	std::shared_ptr<sub::Reader> shared;
	if (v.has("shared")) shared_op = make_op(v["shared"], "shared");
	auto make_shared = [&] {
		if (!v.has("shared")) return;
		clear_configs();
		shared = run_op(shared_op, UNUSED).o.reader;
		if (!shared) invalid("no result to share");
	};
	vector<string> alone, together(ops.size());
	Op warm;
	bool const warmed = v.has("warm");
	if (warmed) warm = make_op(v["warm"], "w");
	auto work = [&](size_t i) {
		string r;
		for (auto const& o: ops[i]) {
			thread_point();
			if (o.tag == "shared") {
				if (!shared) invalid("no result to share");
				Outcome x;
				try { AllocResume resume; use(x, shared, 3); } catch (...) { describe_exception(x); }
				r += x.canon() + "----\n";
			} else {
				r += run_op(o).canon() + "----\n";
			}
		}
		return r;
	};
	for (size_t i = 0; i < ops.size(); ++i) {
		string r;
		int const st = nested([&] { make_shared(); return work(i); }, r);
		if (st) fail("crash", "alone, status " + std::to_string(st));
		alone.push_back(r);
	}
	clear_configs();
	if (warmed) run_op(warm);
	make_shared();
	clear_configs();
	vector<std::function<void ()>> fns;
	for (size_t i = 0; i < ops.size(); ++i) fns.push_back([&, i] { together[i] = work(i); });
	run_threads(fns, v["sched"]);
	for (size_t i = 0; i < ops.size(); ++i) {
		trace("result", long(i), long(hash_str(together[i])));
		if (together[i] != alone[i]) fail("depends on other threads", "thread " + std::to_string(i) + " of " + std::to_string(ops.size()) + ", alone and with the others: " + first_difference(alone[i], together[i]));
	}
}
#endif

//==== dispatch ==============================================================================================================================
vector<string> properties()
{
#ifdef SIM_THREADS
	return { "C13" };
#endif
	return { "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C14", "C15", "C16", "C17", "C18", "C22" };
}

Value gen(string const& p, Rng& r)
{
	if (p == "C01" || p == "C02" || p == "C03" || p == "C04" || p == "C05") return gen_whole(p, r);
	if (p == "C06") return gen_round(r);
	if (p == "C07") return gen_fail_write(r);
	if (p == "C22") return gen_convert(r);
	if (p == "C08") return gen_read_fail(r);
	if (p == "C09") return gen_cut(r);
	if (p == "C10") return gen_damaged(r);
	if (p == "C11") return gen_oom(r);
	if (p == "C12") return gen_leak(r);
	if (p == "C14") return gen_history(r);
	if (p == "C15") return gen_locale(r);
	if (p == "C16") return gen_two(r);
	if (p == "C17") return gen_name(r);
	if (p == "C18") return gen_malformed(r);
#ifdef SIM_THREADS
	if (p == "C13") return gen_threads(r);
#endif
	return Value();
}

void exec(string const& p, Value const& v)
{
	if (p == "C01" || p == "C02" || p == "C03" || p == "C04" || p == "C05") exec_whole(p, v);
	else if (p == "C06") exec_round(v);
	else if (p == "C07") exec_fail_write(v);
	else if (p == "C22") exec_convert(v);
	else if (p == "C08") exec_read_fail(v);
	else if (p == "C09") exec_cut(v);
	else if (p == "C10") exec_damaged(v);
	else if (p == "C11") exec_oom(v);
	else if (p == "C12") exec_leak(v);
	else if (p == "C14") exec_history(v);
	else if (p == "C15") exec_locale(v);
	else if (p == "C16") exec_two(v);
	else if (p == "C17") exec_name(v);
	else if (p == "C18") exec_malformed(v);
#ifdef SIM_THREADS
	else if (p == "C13") exec_threads(v);
#endif
	else throw Invalid{"unknown property"};
}

}
