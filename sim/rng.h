// The only source of randomness: splitmix64 / xoshiro256**, seeded from one integer.
#pragma once
#include <cstdint>
#include <string>
#include <vector>

namespace sim {

inline uint64_t mix64(uint64_t z)
{
	z += 0x9e3779b97f4a7c15ull;
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}

inline uint64_t hash_bytes(uint64_t h, void const* p, size_t n)
{
	auto c = static_cast<unsigned char const*>(p);
	for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 0x100000001b3ull; }
	return h;
}

inline uint64_t hash_str(std::string const& s, uint64_t h = 0xcbf29ce484222325ull) { return hash_bytes(h, s.data(), s.size()); }

class Rng
{
public:
	explicit Rng(uint64_t seed) { for (auto& x: s) { seed = mix64(seed); x = seed; } }
	uint64_t next()
	{
		auto rotl = [](uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
		uint64_t const r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
		s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
		return r;
	}
	/// uniform in [0, n)
	long below(long n) { return n <= 1 ? 0 : long(next() % uint64_t(n)); }
	/// uniform in [a, b]
	long range(long a, long b) { return a + below(b - a + 1); }
	bool chance(int percent) { return below(100) < percent; }
	template <class T> T const& pick(std::vector<T> const& v) { return v[below(long(v.size()))]; }
	/// small number, geometric-ish, in [a, b]
	long few(long a, long b) { long n = a; while (n < b && chance(60)) ++n; return n; }
private:
	uint64_t s[4];
};

}
