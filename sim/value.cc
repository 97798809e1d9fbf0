#include "value.h"
#include <cstdio>
#include <cstring>

namespace sim {

static void write_string(std::string& r, std::string const& s)
{
	r += '"';
	for (unsigned char c: s) {
		switch (c) {
		case '"': r += "\\\""; break;
		case '\\': r += "\\\\"; break;
		case '\n': r += "\\n"; break;
		case '\r': r += "\\r"; break;
		case '\t': r += "\\t"; break;
		default:
			if (c < 0x20 || c >= 0x7f) {
				char b[8];
				snprintf(b, sizeof b, "\\u%04x", c);
				r += b;
			} else {
				r += char(c);
			}
		}
	}
	r += '"';
}

void Value::write(std::string& r) const
{
	switch (kind) {
	case NUL: r += "null"; break;
	case BOOL: r += i ? "true" : "false"; break;
	case INT: r += std::to_string(i); break;
	case STR: write_string(r, s); break;
	case ARR: {
		r += '[';
		bool first = true;
		for (auto const& v: a) { if (!first) r += ','; first = false; v.write(r); }
		r += ']';
		break;
	}
	case OBJ: {
		r += '{';
		bool first = true;
		for (auto const& p: o) { if (!first) r += ','; first = false; write_string(r, p.first); r += ':'; p.second.write(r); }
		r += '}';
		break;
	}
	}
}

namespace {
struct Parser
{
	char const* p;
	char const* e;
	bool ok = true;
	void ws() { while (p < e && (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r')) ++p; }
	std::string string()
	{
		std::string r;
		++p;
		while (p < e && *p != '"') {
			if (*p == '\\' && p + 1 < e) {
				++p;
				switch (*p) {
				case 'n': r += '\n'; break;
				case 'r': r += '\r'; break;
				case 't': r += '\t'; break;
				case 'b': r += '\b'; break;
				case 'f': r += '\f'; break;
				case 'u': {
					if (e - p < 5) { ok = false; return r; }
					unsigned v = 0;
					char b[5] = { p[1], p[2], p[3], p[4], 0 };
					v = unsigned(strtoul(b, nullptr, 16));
					r += char(v & 0xff);
					p += 4;
					break;
				}
				default: r += *p;
				}
				++p;
			} else {
				r += *p++;
			}
		}
		if (p >= e) ok = false; else ++p;
		return r;
	}
	Value value()
	{
		ws();
		if (p >= e) { ok = false; return Value(); }
		if (*p == '{') {
			Value v = Value::obj();
			++p; ws();
			if (p < e && *p == '}') { ++p; return v; }
			while (ok && p < e) {
				ws();
				if (p >= e || *p != '"') { ok = false; break; }
				auto k = string();
				ws();
				if (p >= e || *p != ':') { ok = false; break; }
				++p;
				v.o.emplace_back(k, value());
				ws();
				if (p < e && *p == ',') { ++p; continue; }
				if (p < e && *p == '}') { ++p; return v; }
				ok = false;
			}
			return v;
		}
		if (*p == '[') {
			Value v = Value::arr();
			++p; ws();
			if (p < e && *p == ']') { ++p; return v; }
			while (ok && p < e) {
				v.a.push_back(value());
				ws();
				if (p < e && *p == ',') { ++p; continue; }
				if (p < e && *p == ']') { ++p; return v; }
				ok = false;
			}
			return v;
		}
		if (*p == '"') return Value(string());
		if (!strncmp(p, "true", 4)) { p += 4; return Value(true); }
		if (!strncmp(p, "false", 5)) { p += 5; return Value(false); }
		if (!strncmp(p, "null", 4)) { p += 4; return Value(); }
		char* q;
		long long n = strtoll(p, &q, 10);
		if (q == p) { ok = false; return Value(); }
		p = q;
		return Value(n);
	}
};
}

bool Value::parse(std::string const& text, Value& out)
{
	Parser ps{text.data(), text.data() + text.size()};
	out = ps.value();
	ps.ws();
	return ps.ok && ps.p == ps.e;
}

}
