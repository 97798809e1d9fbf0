// JSON-like tree: the form of every scenario and replay file.  Strings are byte strings.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <map>
#include <string>
#include <utility>
#include <vector>

namespace sim {

class Value
{
public:
	enum Kind { NUL, BOOL, INT, STR, ARR, OBJ };
	Kind kind = NUL;
	long long i = 0;
	std::string s;
	std::vector<Value> a;
	std::vector<std::pair<std::string, Value>> o;

	Value() {}
	Value(bool b) : kind(BOOL), i(b) {}
	Value(int v) : kind(INT), i(v) {}
	Value(long v) : kind(INT), i(v) {}
	Value(long long v) : kind(INT), i(v) {}
	Value(unsigned v) : kind(INT), i(v) {}
	Value(unsigned long v) : kind(INT), i((long long) v) {}
	Value(char const* v) : kind(STR), s(v) {}
	Value(std::string v) : kind(STR), s(std::move(v)) {}
	static Value arr() { Value v; v.kind = ARR; return v; }
	static Value obj() { Value v; v.kind = OBJ; return v; }

	bool has(std::string const& k) const { return find(k) != nullptr; }
	Value const* find(std::string const& k) const {
		for (auto const& p: o) if (p.first == k) return &p.second;
		return nullptr;
	}
	Value const& operator[](std::string const& k) const {
		static Value const none;
		auto f = find(k);
		return f ? *f : none;
	}
	Value const& operator[](char const* k) const { return (*this)[std::string(k)]; }
	Value& set(std::string const& k, Value v) {
		for (auto& p: o) if (p.first == k) { p.second = std::move(v); return *this; }
		kind = OBJ;
		o.emplace_back(k, std::move(v));
		return *this;
	}
	Value& push(Value v) { kind = ARR; a.push_back(std::move(v)); return *this; }

	long long num(long long d = 0) const { return (kind == INT || kind == BOOL) ? i : d; }
	bool flag() const { return (kind == INT || kind == BOOL) && i; }
	std::string const& str() const { return s; }
	std::string str_or(std::string const& d) const { return kind == STR ? s : d; }
	size_t size() const { return kind == ARR ? a.size() : kind == OBJ ? o.size() : s.size(); }

	std::string json() const { std::string r; write(r); return r; }
	void write(std::string& r) const;
	static bool parse(std::string const& text, Value& out);
};

}
