// Common runtime of all harnesses: seeded randomness, observation counters,
// violation records, distinct-case accounting and a breadcrumb of the case
// currently running, which is reported when the code under test dies or hangs.
#pragma once
#include <algorithm>
#include <array>
#include <cassert>
#include <cerrno>
#include <cmath>
#include <complex>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <iomanip>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <numeric>
#include <random>
#include <set>
#include <string>
#include <tuple>
#include <type_traits>
#include <unordered_set>
#include <utility>
#include <vector>
#include <new>
#include <signal.h>
#include <sys/time.h>
#include <unistd.h>

namespace vh {

struct RNG {
	uint64_t s;
	explicit RNG(uint64_t seed = 1) : s(seed) {}
	uint64_t operator()() {
		uint64_t z = (s += 0x9E3779B97F4A7C15ull);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	typedef uint64_t result_type;
	static constexpr uint64_t min() { return 0; }
	static constexpr uint64_t max() { return ~uint64_t(0); }
	uint64_t below(uint64_t n) { return n ? (*this)() % n : 0; }
	int range(int lo, int hi) { return lo + int(below(uint64_t(hi - lo) + 1)); }
	bool coin(int one_in = 2) { return below(one_in) == 0; }
	double uniform() { return double((*this)() >> 11) * 0x1p-53; }
	double normal() {
		double u = 1.0 - uniform(), v = uniform();
		return std::sqrt(-2.0 * std::log(u)) * std::cos(6.283185307179586 * v);
	}
	template <typename T> void choose(T *out, int n, int k) { // k distinct of 0..n-1, unordered
		std::set<int> got;
		for (int j = n - k; j < n; ++j) {
			int t = int(below(uint64_t(j) + 1));
			if (!got.insert(t).second) got.insert(j);
		}
		int i = 0;
		for (int v : got) out[i++] = T(v);
		for (int j = k - 1; j > 0; --j) std::swap(out[j], out[below(uint64_t(j) + 1)]);
	}
};

inline uint64_t mix(uint64_t h, uint64_t v) {
	h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
	h *= 0xFF51AFD7ED558CCDull;
	return h ^ (h >> 32);
}
inline uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 0xcbf29ce484222325ull) {
	const unsigned char *b = static_cast<const unsigned char *>(p);
	size_t i = 0;
	for (; i + 8 <= n; i += 8) { uint64_t w; std::memcpy(&w, b + i, 8); h = mix(h, w); }
	uint64_t w = 0;
	for (; i < n; ++i) w = (w << 8) | b[i];
	return mix(h, w ^ n);
}

struct State {
	uint64_t seed = 1;
	int shard = 0, shards = 1;
	bool thorough = false;
	double scale = 1.0;
	std::string section;		// optional filter: run only this section
	std::string only_key;
	uint64_t evals = 0, next_sample = 2;
	std::unordered_set<uint64_t> distinct;
	uint64_t distinct_overflow = 0;
	std::map<std::string, uint64_t> counters;
	std::vector<std::string> samples;
	std::map<std::string, std::pair<uint64_t, std::string>> viols;
	char crumb[2048] = "start";
	volatile uint64_t tick = 0;
	uint64_t last_tick = 0;
	int same = 0;
	int hang_limit = 60;
	std::map<std::string, std::vector<uint32_t>> digests;	// for comparison across builds
	std::string hash_file;	// where to leave the hashes of the distinct cases
};
inline State &st() { static State s; return s; }

inline void die_note(const char *why) {
	// async-signal-safe
	char buf[2304];
	int n = 0;
	const char *a = "\n@@DEATH why=";
	for (const char *p = a; *p; ++p) buf[n++] = *p;
	for (const char *p = why; *p && n < 200; ++p) buf[n++] = *p;
	const char *b = " case=";
	for (const char *p = b; *p; ++p) buf[n++] = *p;
	for (const char *p = st().crumb; *p && n < 2290; ++p) buf[n++] = *p == '\n' ? ' ' : *p;
	buf[n++] = '\n';
	ssize_t r = ::write(2, buf, n);
	(void)r;
}
inline void on_signal(int sig) {
	switch (sig) {
	case SIGABRT: die_note("abort"); break;
	case SIGSEGV: die_note("segv"); break;
	case SIGBUS: die_note("bus"); break;
	case SIGFPE: die_note("fpe"); break;
	case SIGILL: die_note("ill"); break;
	case SIGTERM: die_note("killed"); break;
	default: die_note("signal");
	}
	::signal(sig, SIG_DFL);
	::raise(sig);
}
inline void on_prof(int) {
	State &s = st();
	if (s.tick == s.last_tick) {
		if (++s.same >= s.hang_limit) {
			die_note("hang");
			::_exit(77);
		}
	} else {
		s.same = 0;
		s.last_tick = s.tick;
	}
}

inline bool sanitized() {
#if defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(memory_sanitizer) || __has_feature(thread_sanitizer)
	return true;
#endif
#endif
#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
	return true;
#endif
	return false;
}

} // namespace vh
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
namespace vh {
inline void san_death() { die_note("sanitizer"); }

inline void init(int argc, char **argv) {
	State &s = st();
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if (a == "--seed") s.seed = std::strtoull(val().c_str(), nullptr, 0);
		else if (a == "--shard") s.shard = std::atoi(val().c_str());
		else if (a == "--shards") s.shards = std::atoi(val().c_str());
		else if (a == "--thorough") s.thorough = true;
		else if (a == "--scale") s.scale = std::atof(val().c_str());
		else if (a == "--section") s.section = val();
		else if (a == "--hashes") s.hash_file = val();
		else if (a == "--hang") s.hang_limit = std::atoi(val().c_str());
	}
	if (s.shards < 1) s.shards = 1;
	if (sanitized()) {
		if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(san_death);
		::signal(SIGABRT, on_signal);
	} else {
		// handlers run on their own stack, so that stack overflows are told as well
		static char alt[1 << 16];
		stack_t ss;
		std::memset(&ss, 0, sizeof ss);
		ss.ss_sp = alt;
		ss.ss_size = sizeof alt;
		::sigaltstack(&ss, nullptr);
		for (int sig : {SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL}) {
			struct sigaction sa;
			std::memset(&sa, 0, sizeof sa);
			sa.sa_handler = on_signal;
			sa.sa_flags = SA_ONSTACK | SA_RESETHAND;
			::sigaction(sig, &sa, nullptr);
		}
	}
	::signal(SIGTERM, on_signal);
	::signal(SIGPROF, on_prof);
	struct itimerval tv;
	tv.it_interval.tv_sec = 1; tv.it_interval.tv_usec = 0;
	tv.it_value = tv.it_interval;
	::setitimer(ITIMER_PROF, &tv, nullptr);
}

inline RNG rng(uint64_t salt) {
	State &s = st();
	return RNG(mix(mix(mix(0x5eed, s.seed), salt), uint64_t(s.shard) + 1));
}
// randomness that every shard shares (for enumerations split by mine())
inline RNG rng_shared(uint64_t salt) {
	return RNG(mix(mix(mix(0x5eed, st().seed), salt), 0));
}
inline bool mine(uint64_t i) { return i % uint64_t(st().shards) == uint64_t(st().shard); }
// number of repetitions for this shard: q over all shards in quick, t in thorough
inline int reps(double q, double t) {
	State &s = st();
	double n = (s.thorough ? t : q) * s.scale / s.shards;
	return n < 1 ? 1 : int(n);
}
inline bool section(const char *name) {
	State &s = st();
	return s.section.empty() || s.section == name;
}

__attribute__((format(printf, 1, 2)))
inline void crumb(const char *fmt, ...) {
	State &s = st();
	va_list ap;
	va_start(ap, fmt);
	std::vsnprintf(s.crumb, sizeof s.crumb, fmt, ap);
	va_end(ap);
	s.tick = s.tick + 1;
}
inline void eval(uint64_t n = 1) {
	State &s = st();
	s.evals += n;
	s.tick = s.tick + 1;
	if (s.evals >= s.next_sample && s.samples.size() < 6) { // the case just finished, written out
		s.next_sample = s.evals * 9 + 3;
		s.samples.push_back(std::string(s.crumb).substr(0, 400));
	}
}
inline void distinct(uint64_t h) {
	State &s = st();
	if (s.distinct.size() < 200000) s.distinct.insert(h);
	else if (!s.distinct.count(h)) ++s.distinct_overflow;
}
inline void count(const char *name, uint64_t n = 1) { st().counters[name] += n; }
inline void digest(const char *name, uint64_t h) { st().digests[name].push_back(uint32_t(h ^ h >> 32)); }
inline void count_max(const char *name, uint64_t v) {
	uint64_t &c = st().counters[name];
	if (v > c) c = v;
}
__attribute__((format(printf, 1, 2)))
inline void sample(const char *fmt, ...) {
	State &s = st();
	if (s.samples.size() >= 6) return;
	char buf[600];
	va_list ap;
	va_start(ap, fmt);
	std::vsnprintf(buf, sizeof buf, fmt, ap);
	va_end(ap);
	s.samples.push_back(buf);
}
inline std::string jstr(const std::string &x) {
	std::string o = "\"";
	for (unsigned char c : x) {
		if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
		else if (c < 32 || c > 126) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
		else o += char(c);
	}
	return o + "\"";
}
inline int finish() {
	State &s = st();
	struct itimerval tv;
	std::memset(&tv, 0, sizeof tv);
	::setitimer(ITIMER_PROF, &tv, nullptr);
	if (!s.hash_file.empty()) {
		if (FILE *f = std::fopen(s.hash_file.c_str(), "wb")) {
			for (uint64_t h : s.distinct) std::fwrite(&h, 8, 1, f);
			std::fclose(f);
		}
	}
	std::string o = "@@RESULT {\"evaluations\":" + std::to_string(s.evals);
	o += ",\"distinct\":" + std::to_string(s.distinct.size());
	o += ",\"counters\":{";
	bool first = true;
	for (auto &c : s.counters) {
		if (!first) o += ",";
		first = false;
		o += jstr(c.first) + ":" + std::to_string(c.second);
	}
	o += "},\"samples\":[";
	first = true;
	for (auto &c : s.samples) {
		if (!first) o += ",";
		first = false;
		o += jstr(c);
	}
	o += "],\"violations\":[";
	first = true;
	for (auto &v : s.viols) {
		if (!first) o += ",";
		first = false;
		o += "{\"key\":" + jstr(v.first) + ",\"count\":" + std::to_string(v.second.first) + ",\"witness\":" + jstr(v.second.second) + "}";
	}
	o += "],\"digests\":{";
	first = true;
	for (auto &d : s.digests) {
		if (!first) o += ",";
		first = false;
		o += jstr(d.first) + ":[";
		for (size_t i = 0; i < d.second.size(); ++i) o += (i ? "," : "") + std::to_string(d.second[i]);
		o += "]";
	}
	o += "}}\n";
	std::fflush(stdout);
	std::fputs(o.c_str(), stdout);
	std::fflush(stdout);
	return 0;
}
// Record an oracle verdict. The key names what failed (stable across runs),
// the witness is the concrete input; the first witness per key is kept.
__attribute__((format(printf, 3, 4)))
inline bool check(bool ok, const char *key, const char *fmt, ...) {
	if (__builtin_expect(ok, 1)) return true;
	State &s = st();
	auto &v = s.viols[key];
	if (v.first++ == 0) {
		char buf[1800];
		va_list ap;
		va_start(ap, fmt);
		std::vsnprintf(buf, sizeof buf, fmt, ap);
		va_end(ap);
		v.second = std::string(buf) + " | case: " + s.crumb;
		// stop early once a violation has been seen often enough
	}
	if (v.first >= 2000) { finish(); std::fflush(stdout); ::_exit(0); }
	return false;
}
template <typename T>
inline std::string show(const T *p, int n, int max = 40) {
	std::string o = "[";
	for (int i = 0; i < n && i < max; ++i) {
		if (i) o += ",";
		o += std::to_string(p[i]);
	}
	if (n > max) o += ",..+" + std::to_string(n - max);
	return o + "]";
}

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VH_ASAN 1
#endif
#endif
#ifdef __SANITIZE_ADDRESS__
#define VH_ASAN 1
#endif
#ifdef VH_ASAN
} // namespace vh
extern "C" void __asan_poison_memory_region(void const volatile *, size_t);
extern "C" void __asan_unpoison_memory_region(void const volatile *, size_t);
namespace vh {
#endif

// Memory whose content the code under test may not rely on: undefined for valgrind, in its build.
#ifdef VH_VALGRIND
} // namespace vh
#include <valgrind/memcheck.h>
namespace vh {
inline void forget(void *p, size_t n) { VALGRIND_MAKE_MEM_UNDEFINED(p, n); }
#else
inline void forget(void *, size_t) {}
#endif

// A buffer of exact size with canaries on both sides; under ASan the canaries are
// redzones, so that reads outside are told as well.
template <typename T>
struct Guarded {
	static const int PAD = 64;
	std::vector<unsigned char> raw;
	T *p;
	size_t n;
	unsigned char pat;
	Guarded(const Guarded &) = delete;
	explicit Guarded(size_t n_, size_t align = alignof(T), size_t offset = 0, unsigned char pat_ = 0xC5) : n(n_), pat(pat_) {
		if (align < alignof(T)) align = alignof(T);
		raw.resize(n * sizeof(T) + 2 * PAD + 2 * align + offset);
		for (size_t i = 0; i < raw.size(); ++i) raw[i] = canary(i);
		uintptr_t a = reinterpret_cast<uintptr_t>(raw.data()) + PAD;
		a = (a + align - 1) / align * align + offset;
		p = reinterpret_cast<T *>(a);
#ifdef VH_ASAN
		unsigned char *lo = reinterpret_cast<unsigned char *>(p), *hi = lo + n * sizeof(T);
		__asan_poison_memory_region(raw.data(), lo - raw.data());
		__asan_poison_memory_region(hi, raw.data() + raw.size() - hi);
#endif
	}
#ifdef VH_ASAN
	~Guarded() { __asan_unpoison_memory_region(raw.data(), raw.size()); }
#endif
	unsigned char canary(size_t i) const { return (unsigned char)(pat + i * 29); }	// a byte shuffle must not go unseen
	bool intact() const {
#ifdef VH_ASAN
		return true;
#endif
		const unsigned char *lo = reinterpret_cast<const unsigned char *>(p), *hi = lo + n * sizeof(T);
		for (const unsigned char *q = raw.data(); q < lo; ++q) if (*q != canary(q - raw.data())) return false;
		for (const unsigned char *q = hi; q < raw.data() + raw.size(); ++q) if (*q != canary(q - raw.data())) return false;
		return true;
	}
	T &operator[](size_t i) { return p[i]; }
	const T &operator[](size_t i) const { return p[i]; }
};

// An object placed in memory prefilled with a pattern: behaviour may not depend
// on what was there before.
template <typename T>
struct Placed {
	void *mem;
	T *obj;
	template <typename... A>
	explicit Placed(int fill, A &&...a) {
		size_t al = alignof(T) < 64 ? 64 : alignof(T);
		size_t sz = (sizeof(T) + al - 1) / al * al;
		mem = ::aligned_alloc(al, sz);
		std::memset(mem, fill, sz);
		forget(mem, sz);
		if constexpr (sizeof...(A) == 0)
			obj = new (mem) T;	// default initialisation: members keep what the memory held
		else
			obj = new (mem) T(std::forward<A>(a)...);
	}
	Placed(const Placed &) = delete;
	~Placed() { obj->~T(); ::free(mem); }
	T &operator*() { return *obj; }
	T *operator->() { return obj; }
};

} // namespace vh
