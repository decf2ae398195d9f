// Polar codes. Sections: E encoders, K constructions, S successive cancellation,
// L list decoding, P parity-aided list decoding.
#include "vh.hh"
#ifdef VERIF_NEON
#include "neon_shim.hh"
#endif
#include "simd.hh"
#include "polar_helper.hh"
#include "polar_encoder.hh"
#include "polar_freezer.hh"
#include "polar_sequence.hh"
#include "polar_decoder.hh"
#include "polar_list_decoder.hh"
#include "polar_parity_aided.hh"
#include "polarref.hh"
using namespace vh;
using namespace pref;

template <typename T> struct Lanes { static const int N = 1; typedef T V; static V get(const T &t, int) { return t; } static void set(T &t, int, V v) { t = v; } };
template <typename V_, int W> struct Lanes<SIMD<V_, W>> { static const int N = W; typedef V_ V; static V get(const SIMD<V_, W> &t, int k) { return t.v[k]; } static void set(SIMD<V_, W> &t, int k, V v) { t.v[k] = v; } };

static std::string fshow(const uint32_t *f, int level)
{
	std::string s;
	char b[16];
	for (int i = 0; i < std::max(1, (1 << level) / 32) && i < 16; ++i) { std::snprintf(b, sizeof b, "%08x ", f[i]); s += b; }
	return s;
}

#if PART == 0
template <typename T>
static void encode_one(RNG &r, const uint32_t *frozen, int level, const char *type, const char *kind, int msgbits = -1, int stride = -1, int first = 0)
{
	typedef Lanes<T> LN;
	const int N = 1 << level;
	Parity par; par.stride = stride; par.first = first;
	std::string lay = layout(frozen, level, par);
	int K = std::count(lay.begin(), lay.end(), 'm');
	std::vector<std::vector<int>> msg(LN::N, std::vector<int>(K));
	Guarded<T> m(K, alignof(T)), c(N, alignof(T));
	std::memset((void *)c.p, r.coin() ? 0xff : 0x11, N * sizeof(T));
	for (int k = 0; k < LN::N; ++k)
		for (int i = 0; i < K; ++i) {
			msg[k][i] = msgbits >= 0 ? 1 - 2 * (msgbits >> i & 1) : r.coin() ? 1 : -1;
			LN::set(m[i], k, msg[k][i]);
		}
	std::vector<uint32_t> fr(frozen, frozen + (N + 31) / 32);
	crumb("polar encoders type=%s level=%d K=%d stride=%d first=%d frozen=%s%s msg=%s", type, level, K, stride, first, kind, fshow(frozen, level).c_str(), show(msg[0].data(), K).c_str());
	distinct(hash_bytes(msg[0].data(), K * sizeof(int), mix(hash_bytes(fr.data(), fr.size() * 4, level), mix(hash_bytes(type, std::strlen(type)), stride * 1000 + first))));
	std::vector<std::vector<int>> want(LN::N);
	for (int k = 0; k < LN::N; ++k) want[k] = transform(expand(msg[k], lay));
	if (stride < 0) { CODE::PolarEncoder<T> enc; enc(c.p, m.p, frozen, level); }
	else { CODE::PolarParityEncoder<T> enc; enc(c.p, m.p, frozen, level, stride, first); }
	bool ok = true;
	for (int k = 0; k < LN::N; ++k)
		for (int i = 0; i < N; ++i)
			ok = ok && LN::get(c[i], k) == 1 - 2 * want[k][i];
	check(ok, stride < 0 ? "encoder-not-the-transform" : "parity-encoder-rule", "codeword is not the transform of the message with frozen%s positions", stride < 0 ? "" : " and parity");
	bool same = c.intact() && m.intact();
	for (int k = 0; k < LN::N; ++k) for (int i = 0; i < K; ++i) same = same && LN::get(m[i], k) == msg[k][i];
	check(same, "encoder-writes-outside", "something besides the codeword was changed");
	eval();
	count(stride < 0 ? "encoded" : "parity_encoded");
	if (stride >= 0 || !closed_upward(frozen, level)) return;
	std::memset((void *)c.p, 0x55, N * sizeof(T));
	CODE::PolarSysEnc<T> sys;
	sys(c.p, m.p, frozen, level);
	for (int k = 0; k < LN::N; ++k) {
		std::vector<int> x(N);
		bool bip = true, syst = true, cw = true;
		int j = 0;
		for (int i = 0; i < N; ++i) {
			int v = LN::get(c[i], k);
			bip = bip && (v == 1 || v == -1) && LN::get(c[i], k) == v;
			x[i] = v < 0;
			if (!fget(frozen, i)) syst = syst && v == msg[k][j++];
		}
		x = transform(x);	// its own inverse
		for (int i = 0; i < N; ++i) if (fget(frozen, i)) cw = cw && !x[i];
		check(bip && cw, "systematic-not-a-codeword", "frozen positions do not carry zero");
		check(syst, "systematic-message", "information positions do not carry the message");
	}
	check(c.intact() && m.intact(), "encoder-writes-outside", "something besides the codeword was changed");
	count("systematic_encoded");
	eval();
}

template <typename T>
static void encoders(const char *type)
{
	RNG r = rng(0xE0 + hash_bytes(type, std::strlen(type)));
	static uint32_t f[1 << 15];
	for (int level = 1; level <= 3; ++level) // every frozen set, every message where few
		for (uint32_t set = 0; set < (1u << (1 << level)); ++set) {
			if (!mine(set)) continue;
			f[0] = set | (level < 5 ? uint32_t(r()) << (1 << level) : 0);	// bits beyond the length do not matter
			int K = (1 << level) - __builtin_popcount(set);
			for (int m = 0; m < 1 << K; ++m) encode_one<T>(r, f, level, type, "exhaustive ", m);
			for (int stride = 0; stride <= 3; ++stride)
				for (int first = 0; first <= 3; ++first) encode_one<T>(r, f, level, type, "exhaustive ", -1, stride, first);
		}
	for (int it = reps(400, 20000); it > 0; --it) {
		int level = it % 16 == 0 ? r.range(11, 14) : r.range(1, 10);
		const char *kind;
		int K = make_frozen(r, f, level, r.below(2), kind);
		encode_one<T>(r, f, level, type, kind);
		int stride = r.coin(4) ? r.below(1 << level) : r.below(40), first = r.coin(4) ? r.below(K + 2) : r.below(40);
		encode_one<T>(r, f, level, type, kind, -1, stride, first);
	}
	for (int it = reps(1, 12); it > 0; --it)
		for (int level = 15; level <= (Lanes<T>::N > 1 ? 16 : 20); ++level) {
			if (!st().thorough && it == 1 && (level + st().seed + hash_bytes(type, std::strlen(type))) % 2) continue;
			const char *kind;
			int K = make_frozen(r, f, level, r.below(2), kind);
			encode_one<T>(r, f, level, type, kind);
			encode_one<T>(r, f, level, type, kind, -1, r.coin() ? r.range(1, 40) : r.range(1000, 70000), r.coin() ? r.below(40) : r.below(K + 1));
			count("long_codes");
		}
}

static void constructions()
{
	RNG r = rng(0xC0);
	static CODE::PolarCodeConst0<20> *con = new CODE::PolarCodeConst0<20>;
	static CODE::PolarSeqConst0<20> *seq = new CODE::PolarSeqConst0<20>;
	static CODE::PolarCodeConst0<5> con5;
	for (int it = reps(300, 10000); it > 0; --it) {
		int level = it % 75 == 0 ? r.range(17, 20) : it % 12 == 0 ? r.range(11, 16) : r.range(1, 10);
		int N = 1 << level, words = (N + 31) / 32;
		double pe;
		switch (r.below(6)) {
		case 0: pe = std::exp(-1.); break;
		case 1: pe = r.coin() ? 0.5 : r.coin() ? 0.25 : 0.75; if (r.coin()) level = r.range(1, 5), N = 1 << level, words = 1; break;
		case 2: pe = std::pow(10., -8 * r.uniform()); break;
		case 3: pe = 1 - std::pow(10., -8 * r.uniform()); break;
		default: pe = r.uniform() * 0.98 + 0.01;
		}
		int K;
		switch (r.below(6)) {
		case 0: K = r.below(std::min(N, 6) + 1); break;
		case 1: K = N - r.below(std::min(N, 6) + 1); break;
		default: K = r.below(N + 1);
		}
		std::vector<long double> p(N);
		for (int i = 0; i < N; ++i) { // the worse of two channels comes first
			long double q = pe;
			for (int b = level - 1; b >= 0; --b) q = i >> b & 1 ? q * q : q * (2 - q);
			p[i] = q;
		}
		auto worse = [&](long double a, long double b) { return a > b * (1 + 1e-9L) + 1e-290L; };
		Guarded<uint32_t> f(words, 4);
		for (int i = 0; i < words; ++i) f[i] = uint32_t(r());
		uint32_t before = f[0];
		crumb("construction level=%d K=%d pe=%.17g", level, K, pe);
		distinct(mix(mix(level, K), hash_bytes(&pe, sizeof pe)));
		bool small = level <= 5 && r.coin();
		if (small) { if (pe == std::exp(-1.)) con5(f.p, level, K); else con5(f.p, level, K, pe); }
		else { if (pe == std::exp(-1.)) (*con)(f.p, level, K); else (*con)(f.p, level, K, pe); }
		int got = 0;
		long double worst_info = -1, best_frozen = 2;
		int wi = -1, bf = -1;
		for (int i = 0; i < N; ++i)
			if (fget(f.p, i)) { if (p[i] < best_frozen) { best_frozen = p[i]; bf = i; } }
			else { ++got; if (p[i] > worst_info) { worst_info = p[i]; wi = i; } }
		check(got == K, "construction-count", "%d information positions instead of %d", got, K);
		check(!(wi >= 0 && bf >= 0 && worse(worst_info, best_frozen)), "construction-order", "position %d (%Lg) informs while %d (%Lg) is frozen", wi, worst_info, bf, best_frozen);
		auto nested = [&]() { // judged where the worse position is not saturated at one
			for (int i = 0; i < N; ++i)
				if (!fget(f.p, i) && p[i] < 1 - 1e-9L)
					for (int b = 0; b < level; ++b)
						if (fget(f.p, i | 1 << b)) return false;
			return true;
		};
		check(nested(), "construction-not-nested", "a position is frozen although a provably worse one informs");
		check(f.intact() && (level >= 5 || before >> N == f[0] >> N), "construction-writes-outside", "bits beyond the length were changed");
		count("constructed");
		eval();
		Guarded<int> s(N, 4);
		if (pe == std::exp(-1.)) (*seq)(s.p, level); else (*seq)(s.p, level, pe);
		std::vector<char> seen(N, 0);
		bool perm = s.intact();
		for (int i = 0; i < N; ++i) { if (s[i] < 0 || s[i] >= N || seen[s[i]]) { perm = false; break; } seen[s[i]] = 1; }
		if (check(perm, "sequence-not-a-permutation", "sequence repeats or leaves positions")) {
			bool mono = true;
			long double least = 2;
			for (int i = 0; i < N; ++i) { mono = mono && !worse(p[s[i]], least); least = std::min(least, p[s[i]]); }
			check(mono, "sequence-order", "sequence is not sorted from the least to the most reliable position");
			std::vector<int> at(N);
			for (int i = 0; i < N; ++i) at[s[i]] = i;
			bool nest = true;
			for (int i = 0; i < N; ++i) for (int b = 0; b < level; ++b) nest = nest && (at[i] <= at[i | 1 << b] || p[i] >= 1 - 1e-9L);
			check(nest, "sequence-not-nested", "a position comes after a provably better one");
			count("sequences");
			eval();
		}
		// threshold freezer
		double th;
		switch (r.below(4)) {
		case 0: th = 0.5; break;
		case 1: th = double(p[r.below(N)]); break;	// exactly on a position
		default: th = std::pow(10., -12 * r.uniform());
		}
		for (int i = 0; i < words; ++i) f[i] = uint32_t(r());
		before = f[0];
		CODE::PolarFreezer fz;
		bool defaults = r.coin(5);
		if (defaults) { th = 0.5; pe = 0.5; for (int i = 0; i < N; ++i) { long double q = pe; for (int b = level - 1; b >= 0; --b) q = i >> b & 1 ? q * q : q * (2 - q); p[i] = q; } }
		crumb("freezer level=%d pe=%.17g threshold=%.17g", level, pe, th);
		int k = defaults ? fz(f.p, level) : fz(f.p, level, pe, th);
		int n = 0;
		bool right = true;
		// probabilities without any rounding: judged on the threshold as well
		const bool exact = (pe == 0.5 && level <= 5) || ((pe == 0.25 || pe == 0.75) && level <= 4);
		if (exact) count("exact_freezers");
		for (int i = 0; i < N; ++i) {
			n += !fget(f.p, i);
			if (exact) right = right && fget(f.p, i) == (p[i] > (long double)th);
			else if (worse(p[i], th)) right = right && fget(f.p, i);
			else if (worse(th, p[i])) right = right && !fget(f.p, i);
		}
		check(k == n, "freezer-count", "returned %d, but %d positions inform", k, n);
		check(right, "freezer-threshold", "a position on the wrong side of the threshold");
		check(nested(), "freezer-not-nested", "a position is frozen although a provably worse one informs");
		check(f.intact() && (level >= 5 || before >> N == f[0] >> N), "freezer-writes-outside", "bits beyond the length were changed");
		count("freezers");
		eval();
	}
}

static void run()
{
	if (section("E")) {
		encoders<int8_t>("int8");
		encoders<int>("int");
		encoders<float>("float");
		encoders<SIMD<int8_t, 32>>("int8x32");
		encoders<SIMD<int8_t, 16>>("int8x16");
		encoders<SIMD<float, 8>>("floatx8");
		encoders<SIMD<int16_t, 16>>("int16x16");
	}
	if (section("K")) constructions();
}
#endif

// soft inputs; sat: 8 bit values. Returns the amplitude class for the report.
static void make_soft(RNG &r, std::vector<double> &in, const std::vector<int> &cw, bool sat, const char *&kind)
{
	int N = in.size();
	const int rich[3] = {1, 2, sat ? 6 : 7};	// half of the inputs from kinds with few ties
	switch (r.coin() ? rich[r.below(3)] : int(r.below(sat ? 7 : 8))) {
	case 0: { kind = "clean"; int a = r.range(1, 127); for (int i = 0; i < N; ++i) in[i] = a * (1 - 2 * cw[i]); break; }
	case 1: { kind = "noisy"; double s = 5 + 60 * r.uniform(); int a = r.range(5, 60); for (int i = 0; i < N; ++i) in[i] = std::nearbyint(a * (1 - 2 * cw[i]) + s * r.normal()); break; }
	case 2: { kind = "random"; for (int i = 0; i < N; ++i) in[i] = r.range(-127, 127); break; }
	case 3: { kind = "tiny"; int a = r.range(1, 3); for (int i = 0; i < N; ++i) in[i] = r.range(-a, a); break; }
	case 4: { kind = "erasures"; int a = r.range(1, 127); for (int i = 0; i < N; ++i) in[i] = r.coin(5) ? 0 : a * (1 - 2 * cw[i]) * (r.coin(8) ? -1 : 1); break; }
	case 5: { kind = "extreme"; for (int i = 0; i < N; ++i) in[i] = r.coin() ? 127 : -127; break; }
	case 6: { kind = "odd"; for (int i = 0; i < N; ++i) in[i] = (2 * r.range(0, 20) + 1) * (r.coin() ? 1 : -1); break; }
	default: { kind = "loud"; int a = std::max(1, (1 << 24) / N >> r.below(10)); for (int i = 0; i < N; ++i) in[i] = r.range(-a, a); break; }
	}
	if (!(sat || !std::strcmp(kind, "loud"))) return;
	if (sat) for (int i = 0; i < N; ++i) in[i] = std::max(-127.0, std::min(127.0, in[i]));
}

static void count_level(int level) { char b[24]; std::snprintf(b, sizeof b, "level_%02d", level); count(b); }

#if PART >= 1 && PART <= 2
template <typename T, int MAX_M>
static void sc_run(const char *type, double q, double t, int lo, int hi)
{
	typedef Lanes<T> LN;
	typedef typename LN::V V;
	const bool sat = sizeof(V) == 1;
	RNG r = rng(0x5C + MAX_M + hash_bytes(type, std::strlen(type)));
	Placed<CODE::PolarDecoder<T, MAX_M>> dec(r.range(0, 255));
	std::vector<uint32_t> frb((1 << hi) / 32);
	for (int it = reps(q, t); it > 0; --it) {
		int level = hi == 20 ? lo + it % 16 : r.range(lo, r.coin(3) ? hi : std::min(hi, 8)), N = 1 << level;
		count_level(level);
		const char *fk, *sk;
		uint32_t *frozen = frb.data();
		int K = make_frozen(r, frozen, level, 0, fk);
		std::string lay = layout(frozen, level, Parity());
		Guarded<T> in(N, alignof(T)), msg(K, alignof(T));
		std::vector<std::vector<double>> soft(LN::N, std::vector<double>(N));
		std::vector<std::vector<int>> sent(LN::N, std::vector<int>(K));
		std::vector<const char *> kinds(LN::N);
		for (int k = 0; k < LN::N; ++k) {
			for (auto &b : sent[k]) b = r.coin() ? 1 : -1;
			make_soft(r, soft[k], transform(expand(sent[k], lay)), sat, kinds[k]);
			for (int i = 0; i < N; ++i) LN::set(in[i], k, V(soft[k][i]));
		}
		std::memset((void *)msg.p, 0x33, K * sizeof(T));
		crumb("sc type=%s level=%d K=%d frozen=%s %s soft=%s", type, level, K, fk, fshow(frozen, level).c_str(), kinds[0]);
		(*dec)(msg.p, in.p, frozen, level);
		for (int k = 0; k < LN::N; ++k) {
			std::vector<int> want;
			int settled = sc(want, soft[k], frozen, level, sat);
			distinct(hash_bytes(soft[k].data(), N * sizeof(double), hash_bytes(frozen, N / 8, level)));
			int bad = -1;
			for (int i = 0; i < settled && bad < 0; ++i) if (LN::get(msg[i], k) != want[i]) bad = i;
			std::vector<int> got(K);
			for (int i = 0; i < K; ++i) got[i] = int(LN::get(msg[i], k));
			check(bad < 0, "sc-decision", "lane %d: decision %d is %d instead of %d (soft %s %s)", k, bad, bad < 0 ? 0 : got[bad], bad < 0 ? 0 : want[bad], kinds[k], show(soft[k].data(), N, 64).c_str());
			if (!std::strcmp(kinds[k], "clean")) {
				check(got == sent[k], "sc-noiseless", "lane %d: a clean codeword does not decode to its message", k);
				count("clean_decoded");
			}
			count("decisions_compared", settled);
			count("decisions_open", K - settled);
			count(settled == K ? "fully_settled" : "partly_settled");
			eval();
		}
		bool same = in.intact() && msg.intact();
		for (int k = 0; k < LN::N; ++k) for (int i = 0; i < N; ++i) same = same && LN::get(in[i], k) == V(soft[k][i]);
		check(same, "sc-writes-outside", "something besides the message was changed");
		count(K == 0 ? "no_information" : K == N ? "all_information" : "mixed");
	}
	// every pattern of one word at leaf level: frozen patterns per byte of the shortest code
	if (lo <= 5) {
		uint32_t w = 0;
		for (int b = 0; b < 256; ++b) {
			if (!mine(b)) continue;
			for (int pos = 0; pos < 4; ++pos) {
				w = uint32_t(r());
				w = (w & ~(0xffu << 8 * pos)) | uint32_t(b) << 8 * pos;
				if (r.coin(4)) w = uint32_t(b) << 8 * pos;
				if (r.coin(4)) w = ~(uint32_t(b) << 8 * pos);
				int K = 32 - __builtin_popcount(w);
				std::string lay = layout(&w, 5, Parity());
				Guarded<T> in(32, alignof(T)), msg(K, alignof(T));
				std::vector<std::vector<double>> soft(LN::N, std::vector<double>(32));
				for (int k = 0; k < LN::N; ++k) for (int i = 0; i < 32; ++i) { soft[k][i] = (2 * r.range(0, 62) + 1) * (r.coin() ? 1 : -1); LN::set(in[i], k, V(soft[k][i])); }
				crumb("sc type=%s level=5 frozen=%08x", type, w);
				(*dec)(msg.p, in.p, &w, 5);
				for (int k = 0; k < LN::N; ++k) {
					std::vector<int> want;
					int settled = sc(want, soft[k], &w, 5, sat), bad = -1;
					for (int i = 0; i < settled && bad < 0; ++i) if (LN::get(msg[i], k) != want[i]) bad = i;
					check(bad < 0, "sc-decision", "lane %d: decision %d is wrong (soft %s)", k, bad, show(soft[k].data(), 32).c_str());
					eval();
					count("leaf_patterns");
				}
			}
		}
	}
}
static void run()
{
	if (!section("S")) return;
#if PART == 1
	sc_run<int8_t, 12>("int8", 900, 60000, 5, 11);
	sc_run<float, 12>("float", 900, 60000, 5, 11);
	sc_run<int8_t, 20>("int8-20", 80, 960, 5, 20);
	if (st().thorough) sc_run<float, 20>("float-20", 32, 320, 5, 20);
#else
	sc_run<SIMD<int8_t, 32>, 10>("int8x32", 60, 4000, 5, 10);
	sc_run<SIMD<float, 8>, 10>("floatx8", 120, 8000, 5, 10);
	sc_run<SIMD<int8_t, 16>, 9>("int8x16", 60, 4000, 5, 9);
	sc_run<double, 9>("double", 300, 20000, 5, 9);
#endif
}
#endif

#if PART >= 3
template <typename T, int MAX_M>
static void list_run(const char *type, bool aided, double q, double t, int hi, int ref_hi)
{
	typedef Lanes<T> LN;
	typedef typename LN::V V;
	const int L = LN::N;
	const bool sat = sizeof(V) == 1;
	int logL = 0;
	while ((2 << logL) <= L) ++logL;
	RNG r = rng(0x15 + MAX_M + aided * 77 + hash_bytes(type, std::strlen(type)));
	typedef CODE::PolarListDecoder<T, MAX_M> Plain;
	typedef CODE::PolarParityDecoder<T, MAX_M> Aided;
	std::unique_ptr<Placed<Plain>> plain(aided ? nullptr : new Placed<Plain>(r.range(0, 255)));
	std::unique_ptr<Placed<Aided>> par_dec(aided ? new Placed<Aided>(r.range(0, 255)) : nullptr);
	std::vector<uint32_t> frb((1 << hi) / 32);
	for (int it = reps(q, t); it > 0; --it) {
		int level = hi == 16 ? 5 + it % 12 : it % 40 == 0 ? hi : it % 8 == 0 ? r.range(5, hi) : r.range(5, std::min(hi, 7)), N = 1 << level;
		count_level(level);
		const char *fk, *sk;
		uint32_t *frozen = frb.data();
		make_frozen(r, frozen, level, aided ? 2 : 1, fk);
		// now and then the highest penalties there are: few messages in a long code, and strong values against them
		bool dear = it % 20 == 7;
		if (dear) {
			fk = "dear ";
			level = std::min(hi, 13), N = 1 << level;
			for (int i = 0; i < N / 32; ++i) frozen[i] = ~uint32_t(0);
			for (int k = r.below(8); k > 0; --k) { int i = r.coin() ? N - 1 - r.below(16) : r.below(N); frozen[i / 32] &= ~(uint32_t(1) << i % 32); }
		}
		frozen[(N - 1) / 32] &= ~(uint32_t(1) << 31);	// the most reliable position always informs
		Parity par;
		int free = 0;
		for (int i = 0; i < N; ++i) free += !fget(frozen, i);
		if (aided) {
			par.stride = r.coin(3) ? r.below(3) : r.below(40);
			par.first = r.coin(3) ? r.below(4) : r.below(std::min(free + 2, 40));
			if (par.first == 0 && par.stride == 0) par.first = 1;
		}
		std::string lay = layout(frozen, level, par);
		int K = std::count(lay.begin(), lay.end(), 'm');
		if (K < 1) continue;
		std::vector<int> sent(K);
		for (auto &b : sent) b = r.coin() ? 1 : -1;
		std::vector<double> soft(N);
		std::vector<int> cw = transform(expand(sent, lay));
		make_soft(r, soft, cw, sat, sk);
		if (dear) {
			sk = "dear";
			int a = sat ? (r.coin() ? 127 : r.range(20, 127)) : (1 << 24) / N;
			for (int i = 0; i < N; ++i) soft[i] = r.coin() ? a : -a;
		} else if (it % 40 == 0 || (level > 10 && r.coin())) { sk = "clean"; int a = r.coin() ? 127 : r.range(1, 127); for (int i = 0; i < N; ++i) soft[i] = a * (1 - 2 * cw[i]); }
		if (!sat && !dear && r.coin(6)) { sk = "real"; for (auto &v : soft) v = float(r.normal() * 3); }	// metrics compared with a tolerance
		const bool exact = std::strcmp(sk, "real") != 0;
		Guarded<V> in(N, alignof(V));
		Guarded<T> msg(K, alignof(T));
		Guarded<int> rank(L, 4);
		for (int i = 0; i < N; ++i) in[i] = V(soft[i]);
		std::memset((void *)msg.p, 0x33, K * sizeof(T));
		bool want_rank = !r.coin(8);
		crumb("list type=%s L=%d level=%d K=%d stride=%d first=%d frozen=%s %s soft=%s %s", type, L, level, K, par.stride, par.first, fk, fshow(frozen, level).c_str(), sk, show(soft.data(), N, 64).c_str());
		distinct(hash_bytes(soft.data(), N * sizeof(double), hash_bytes(frozen, N / 8, mix(level, par.stride * 64 + par.first))));
		if (aided) (**par_dec)(want_rank ? rank.p : nullptr, msg.p, in.p, frozen, level, par.stride, par.first);
		else (**plain)(want_rank ? rank.p : nullptr, msg.p, in.p, frozen, level);
		eval();
		count(aided ? "aided_lists" : "lists");
		bool same = in.intact() && msg.intact() && rank.intact();
		for (int i = 0; i < N; ++i) same = same && in[i] == V(soft[i]);
		check(same, "list-writes-outside", "something besides messages and ranks was changed");
		// paths: all lanes, or as many as there are messages
		int paths = K < logL ? 1 << K : L;
		std::vector<std::vector<int>> got(paths, std::vector<int>(K));
		bool bip = true;
		for (int k = 0; k < paths; ++k)
			for (int i = 0; i < K; ++i) {
				V v = LN::get(msg[i], k);
				bip = bip && (v == 1 || v == -1);
				got[k][i] = int(v);
			}
		if (!check(bip, "list-not-bipolar", "a message value is neither +1 nor -1")) continue;
		std::set<std::vector<int>> uniq(got.begin(), got.end());
		check(int(uniq.size()) == paths, "list-duplicate", "%d different messages in %d paths", int(uniq.size()), paths);
		count("paths", paths);
		if (!std::strcmp(sk, "clean")) {
			check(got[0] == sent, "list-noiseless", "a clean codeword is not ranked first");
			count("clean_decoded");
		}
		if (level > 13 && !st().thorough) continue;
		// with saturation the penalty depends on whether frozen subtrees are charged at the root: any way will do, but one for all
		const int caps[3] = {32, 1, 1 << 20};
		const int ways = sat ? 3 : 1;
		double tol = exact ? 0 : 1e-3;
		std::vector<double> pm(paths);
		bool sorted = false, ranks = false;
		std::string shown;
		for (int w = 0; w < ways && !(sorted && ranks); ++w) {
			for (int k = 0; k < paths; ++k) pm[k] = penalty(got[k], lay, soft, level, sat, caps[w]);
			if (w == 0) shown = show(pm.data(), paths);
			sorted = true;
			ranks = !want_rank || rank[0] == 0;
			for (int k = 1; k < paths; ++k) {
				sorted = sorted && pm[k] >= pm[k - 1] - tol;
				if (want_rank) {
					int step = rank[k] - rank[k - 1];
					if (pm[k] > pm[k - 1] + tol) ranks = ranks && step == 1;
					else if (exact) ranks = ranks && step == 0;
					else ranks = ranks && (step == 0 || step == 1);
				}
			}
		}
		for (int k = 1; want_rank && k < paths; ++k) count(rank[k] > rank[k - 1] ? "rank_steps" : "rank_ties");
		check(sorted, "list-order", "penalties are not rising: %s", shown.c_str());
		check(ranks, "list-ranks", "ranks %s for penalties %s", show(rank.p, paths).c_str(), shown.c_str());
		if (!sat && exact) // in exact arithmetic the penalty is what the codeword disagrees with
			for (int k = 0; k < std::min(paths, 2); ++k) {
				std::vector<int> c = transform(expand(got[k], lay));
				double d = 0;
				for (int i = 0; i < N; ++i) if ((soft[i] < 0) != (c[i] != 0)) d += std::abs(soft[i]);
				check(d == pm[k], "model", "reference models disagree: %g %g", d, pm[k]);
			}
		if (level > ref_hi) continue;
		if (K <= logL && !sat && exact) { // complete list: the likelihood order of the whole code
			std::vector<double> all;
			for (int m = 0; m < 1 << K; ++m) {
				std::vector<int> b(K);
				for (int i = 0; i < K; ++i) b[i] = 1 - 2 * (m >> i & 1);
				std::vector<int> c = transform(expand(b, lay));
				double d = 0;
				for (int i = 0; i < N; ++i) if ((soft[i] < 0) != (c[i] != 0)) d += std::abs(soft[i]);
				all.push_back(d);
			}
			std::sort(all.begin(), all.end());
			all.resize(paths);
			check(all == pm, "list-not-most-likely", "penalties %s instead of %s", show(pm.data(), paths).c_str(), show(all.data(), paths).c_str());
			count("complete_lists");
		}
		bool open = false, found = false;
		double best = 0;
		for (int w = 0; w < ways && !open && !found; ++w) {
			bool decided;
			std::vector<Found> ref = scl(lay, soft, level, sat, L, decided, caps[w]);
			if (!decided) { open = true; break; }
			std::set<std::vector<int>> want;
			for (auto &f : ref) want.insert(f.msg);
			found = uniq == want;
			if (w == 0) best = ref[0].pm;
		}
		if (open) { count("cut_ties"); continue; }
		check(found, "list-survivors", "survivors differ from list decoding by penalty; best penalty %g against %g", pm[0], best);
		count("survivors_compared");
	}
}
static void run()
{
	bool l = section("L"), p = section("P");
#if PART == 3
	if (l) list_run<SIMD<int8_t, 32>, 10>("int8x32", false, 500, 30000, 10, 8);
	if (l) list_run<SIMD<float, 8>, 10>("floatx8", false, 800, 60000, 10, 9);
#elif PART == 4
	if (l) list_run<SIMD<int8_t, 16>, 10>("int8x16", false, 700, 40000, 10, 8);
	if (l) list_run<SIMD<float, 4>, 9>("floatx4", false, 800, 60000, 9, 9);
	if (l) list_run<SIMD<int8_t, 4>, 9>("int8x4", false, 800, 60000, 9, 9);
#elif PART == 5
	if (p) list_run<SIMD<int8_t, 32>, 10>("int8x32", true, 500, 30000, 10, 8);
	if (p) list_run<SIMD<float, 8>, 10>("floatx8", true, 800, 60000, 10, 9);
#elif PART == 6
	if (p) list_run<SIMD<int8_t, 16>, 10>("int8x16", true, 700, 40000, 10, 8);
	if (p) list_run<SIMD<float, 4>, 9>("floatx4", true, 800, 60000, 9, 9);
#elif PART == 7
	if (l) list_run<SIMD<int8_t, 64>, 9>("int8x64", false, 200, 10000, 9, 7);
	if (l) list_run<SIMD<float, 16>, 9>("floatx16", false, 400, 20000, 9, 8);
	if (l) list_run<SIMD<int8_t, 32>, 16>("int8x32-long", false, 48, 240, 16, 5);
#elif PART == 8
	if (p) list_run<SIMD<int8_t, 8>, 9>("int8x8", true, 800, 60000, 9, 9);
	if (p) list_run<SIMD<float, 16>, 9>("floatx16", true, 400, 20000, 9, 8);
	if (p) list_run<SIMD<int8_t, 32>, 16>("int8x32-long", true, 48, 240, 16, 5);
#endif
}
#endif

int main(int argc, char **argv)
{
	vh::init(argc, argv);
	run();
	return vh::finish();
}
