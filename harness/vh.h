// Common runtime-monitoring harness: deterministic case generation, forked
// workers, monitors that record violations / observed events / distinct cases.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <functional>
#include <array>
#include <sstream>
#include <iostream>
#include <algorithm>
#include <exception>
#include <stdexcept>
#include <typeinfo>
#include <limits>
#include <memory>
#include <complex>
#include <iomanip>

namespace vh
{
struct Rng
{
	uint64_t s;
	explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ULL + 0x1234567ULL) { next(); next(); }
	uint64_t next()
	{
		uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
		return z ^ (z >> 31);
	}
	double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
	double uni(double a, double b) { return a + (b - a) * u(); }
	double sym(double a) { return uni(-a, a); }
	double logu(double a, double b) { return std::exp(uni(std::log(a), std::log(b))); }
	int range(int a, int b) { return a + int(next() % uint64_t(b - a + 1)); } // inclusive
	bool chance(double p) { return u() < p; }
	double sgn() { return (next() & 1) ? 1.0 : -1.0; }
	double normal()
	{
		double a = u(); if(a < 1e-300) a = 1e-300;
		return std::sqrt(-2 * std::log(a)) * std::cos(6.283185307179586 * u());
	}
	template<class T> const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
	template<class T> T pick(std::initializer_list<T> l) { return *(l.begin() + next() % l.size()); }
	template<class T> void shuffle(std::vector<T>& v)
	{
		for(size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[next() % i]);
	}
};

uint64_t hash_str(const std::string& s);
inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdULL; }
inline uint64_t dbits(double d) { uint64_t u; std::memcpy(&u, &d, 8); return u; }

struct Case
{
	const char* fam;
	long idx;
	uint64_t seed;
	bool thorough;
	Rng rng;
	uint64_t h = 1469598103934665603ULL;
	bool failed = false;
	// monitors
	bool check(bool ok, const char* key, const char* fmt = nullptr, ...) __attribute__((format(printf, 4, 5)));
	bool near(double a, double b, double atol, double rtol, const char* key, const char* fmt = nullptr, ...)
	__attribute__((format(printf, 7, 8)));
	void fail(const std::string& key, const std::string& msg);
	void ev(const char* name, long n = 1); // observed events
	void note(uint64_t v) { h = mix(h, v); }
	void note(double v) { h = mix(h, dbits(v)); }
	void note(const std::string& s) { h = mix(h, hash_str(s)); }
	void nontrivial();      // case (with the noted signature) really exercised the property
	void sample(const std::string& s);
};

typedef void (*Fn)(Case&);
struct Reg { Reg(const char* n, long q, long t, Fn f, int chunk = 1); };
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
const std::string& scratch(); // scratch directory private to this worker
}
#define FAMILY(NAME, Q, T) \
	static void fam_ ## NAME(vh::Case& c); \
	static vh::Reg reg_ ## NAME(#NAME, Q, T, fam_ ## NAME); \
	static void fam_ ## NAME(vh::Case& c)
