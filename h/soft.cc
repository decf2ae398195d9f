// Hadamard, simplex and short BCH codes against exhaustive likelihood and nearest-codeword search.
// PART 0: Hadamard, 1: simplex, 2..4: short BCH
#include "vh.hh"
#include "hadamard_encoder.hh"
#include "hadamard_decoder.hh"
#include "simplex_encoder.hh"
#include "simplex_decoder.hh"
#include "short_bch_code_encoder.hh"
#include "short_bch_code_decoder.hh"
using namespace vh;

static int par_of(unsigned x) { return __builtin_parity(x); }

// draws a soft vector; cw(i) is the bit of some codeword
template <typename F>
static void draw(RNG &r, int8_t *v, int n, F bit, const char *&kind)
{
	switch (r.below(9)) {
	case 0: kind = "alphabet-1,0,1"; for (int i = 0; i < n; ++i) v[i] = r.range(-1, 1); break;
	case 1: kind = "signs"; { int a = r.coin() ? 1 : r.range(1, 127); for (int i = 0; i < n; ++i) v[i] = r.coin() ? a : -a; } break;
	case 2: kind = "uniform"; for (int i = 0; i < n; ++i) v[i] = r.range(-128, 127); break;
	case 3: kind = "corners"; { static const int c[7] = {-128, -127, -1, 0, 1, 126, 127}; for (int i = 0; i < n; ++i) v[i] = c[r.below(7)]; } break;
	case 4: kind = "full-scale-codeword"; for (int i = 0; i < n; ++i) v[i] = bit(i) ? (r.coin(8) ? -127 : -128) : 127; break;
	case 5: case 6: { kind = "noisy-codeword"; double sg = 10 + 110 * r.uniform(); int a = r.range(5, 90);
		for (int i = 0; i < n; ++i) v[i] = int8_t(std::max(-128., std::min(127., std::nearbyint((bit(i) ? -a : a) + sg * r.normal())))); } break;
	case 7: { kind = "erased-codeword"; int p = r.range(2, 12); for (int i = 0; i < n; ++i) v[i] = r.coin(p) ? 0 : bit(i) ? -1 : 1; } break;
	default: { kind = "sparse"; int p = r.range(2, 16); for (int i = 0; i < n; ++i) v[i] = r.coin(p) ? r.range(-3, 3) : 0; } break;
	}
	if (r.coin(4)) v[r.below(n)] = r.range(-128, 127);
}

// the maximum of all correlations: -1 when shared
template <typename S>
static int ml(const std::vector<std::vector<int8_t>> &book, const S *v, int n)
{
	long best = std::numeric_limits<long>::min();
	int who = -1, many = 0;
	for (size_t m = 0; m < book.size(); ++m) {
		long c = 0;
		for (int i = 0; i < n; ++i) c += long(book[m][i]) * v[i];
		if (c > best) { best = c; who = int(m); many = 1; }
		else if (c == best) ++many;
	}
	return many == 1 ? who : -1;
}

template <template <int> class ENC, template <int> class DEC, int K, bool HAD>
static void biorth(double q, double t)
{
	const int W = 1 << K, N = HAD ? W / 2 : W - 1;
	const char *name = HAD ? "hadamard" : "simplex";
	std::vector<std::vector<int8_t>> book(W, std::vector<int8_t>(N));
	for (int m = 0; m < W; ++m)
		for (int i = 0; i < N; ++i)
			book[m][i] = 1 - 2 * par_of(HAD ? m & (i | N) : m & (i + 1));
	Placed<ENC<K>> enc(int(st().seed * 37 + K));
	DEC<K> dec;
	char key[80];
	for (int m = 0; m < W; ++m) {
		Guarded<int8_t> g(N, 1, m & 7);
		crumb("%s<%d> encode msg=%d", name, K, m);
		(*enc)(g.p, m);
		std::snprintf(key, sizeof key, "%s:encode", name);
		check(!std::memcmp(g.p, book[m].data(), N) && g.intact(), key, "codeword of message %d differs", m);
		int d = dec(g.p);
		std::snprintf(key, sizeof key, "%s:clean", name);
		check(d == m, key, "own codeword decoded to %d", d);
		eval();
		distinct(mix(mix(HAD, K), m));
		count("codewords");
	}
	std::snprintf(key, sizeof key, "%s:ml", name);
	std::vector<int8_t> v(N);
	auto one = [&](const char *kind) {
		crumb("%s<%d> decode %s %s", name, K, kind, show(v.data(), N, 64).c_str());
		int want = ml(book, v.data(), N);
		Guarded<int8_t> g(N, 1, st().evals & 7);
		std::memcpy(g.p, v.data(), N);
		int got = dec(g.p);
		check(got == want, key, "decoded %d, most likely is %d (-1: shared)", got, want);
		check(!std::memcmp(g.p, v.data(), N), "soft:input-changed", "input changed");
		count(want < 0 ? "ties" : "unique_maxima");
		eval();
		distinct(hash_bytes(v.data(), N, mix(HAD, K)));
	};
	// every vector over an alphabet, as far as that is affordable
	std::vector<int8_t> al;
	double budget = st().thorough ? 3e6 : 3e5;
	static const int order[] = {-1, 1, 0, -128, 127, 2, -2, -127, 3, -3, 64, -64, 5, -5, 126, 7, -7};
	for (int a : order) {
		if (std::pow(double(al.size() + 1), N) > budget) break;
		al.push_back(a);
	}
	if (N == 2) { al.clear(); for (int a = -128; a < 128; ++a) al.push_back(a); }
	if (al.size() >= 2) {
		uint64_t total = 1;
		for (int i = 0; i < N; ++i) total *= al.size();
		for (uint64_t x = 0; x < total; ++x) {
			if (!mine(x)) continue;
			uint64_t y = x;
			for (int i = 0; i < N; ++i) { v[i] = al[y % al.size()]; y /= al.size(); }
			one("enumerated");
		}
		count("vectors_enumerated", total / st().shards);
	}
	RNG r = rng(mix(HAD, K));
	for (int n = reps(q, t); n--;) {
		unsigned m = r.below(W);
		const char *kind = "";
		draw(r, v.data(), N, [&](int i) { return book[m][i] < 0; }, kind);
		if (r.coin(5)) { // a crafted tie: halfway between two codewords
			unsigned m2 = r.below(W);
			for (int i = 0; i < N; ++i) v[i] = (book[m][i] + book[m2][i]) / 2 * (r.coin(30) ? 2 : 1);
			kind = "halfway";
		}
		one(kind);
	}
}

// long codes against a transform in wide integers
template <template <int> class ENC, template <int> class DEC, int K, bool HAD>
static void biorth_long(double q, double t)
{
	const int W = 1 << K, L = HAD ? W / 2 : W, N = HAD ? L : L - 1;
	const char *name = HAD ? "hadamard" : "simplex";
	Placed<ENC<K>> enc(int(st().seed * 41 + K));
	Placed<DEC<K>> dec(int(st().seed * 43 + K));
	RNG r = rng(mix(HAD * 100 + 1000, K));
	std::vector<int8_t> v(N);
	std::vector<int64_t> s(L);
	char key[80];
	for (int n = reps(q, t); n--;) {
		int m = r.coin(20) ? (r.coin() ? W - 1 : 1 << (K - 1)) : int(r.below(W));
		crumb("%s<%d> encode msg=%d", name, K, m);
		Guarded<int8_t> g(N, 1, r.below(64));
		(*enc)(g.p, m);
		auto sym = [&](int m, int i) { return int8_t(1 - 2 * par_of(HAD ? m & (i | L) : m & (i + 1))); };
		int bad = -1;
		for (int i = 0; i < N && bad < 0; ++i) if (g.p[i] != sym(m, i)) bad = i;
		std::snprintf(key, sizeof key, "%s:encode", name);
		check(bad < 0 && g.intact(), key, "codeword of message %d differs at %d", m, bad);
		eval();
		std::snprintf(key, sizeof key, "%s:clean", name);
		int d = (*dec)(g.p);
		check(d == m, key, "own codeword decoded to %d", d);
		const char *kind = "";
		draw(r, v.data(), N, [&](int i) { return sym(m, i) < 0; }, kind);
		int shape = r.below(5), m2 = int(r.below(W));
		if (shape == 0) { kind = "halfway"; for (int i = 0; i < N; ++i) v[i] = (sym(m, i) + sym(m2, i)) * 63; }
		if (shape == 1) { kind = "nearly halfway"; for (int i = 0; i < N; ++i) v[i] = (sym(m, i) + sym(m2, i)) * 63; v[r.below(N)] += r.coin() ? 1 : -1; }
		if (shape == 2) { kind = "loudest"; for (int i = 0; i < N; ++i) v[i] = sym(m, i) < 0 ? -128 : 127; }
		// the correlation with every codeword: a row of signs for position i (augmented) or i+1 (simplex)
		std::fill(s.begin(), s.end(), 0);
		for (int i = 0; i < N; ++i) s[HAD ? i : i + 1] = v[i];
		for (int h = 1; h < L; h *= 2)
			for (int i = 0; i < L; i += 2 * h)
				for (int j = i; j < i + h; ++j) { int64_t a = s[j], b = s[j + h]; s[j] = a + b; s[j + h] = a - b; }
		int64_t best = std::numeric_limits<int64_t>::min();
		int want = -1, many = 0;
		for (int i = 0; i < L; ++i)
			for (int f = 0; f < (HAD ? 2 : 1); ++f) {
				int64_t c = f ? -s[i] : s[i];
				if (c > best) { best = c; want = i + f * L; many = 1; } else if (c == best) ++many;
			}
		if (many > 1) want = -1;
		crumb("%s<%d> decode %s, message %d", name, K, kind, m);
		std::memcpy(g.p, v.data(), N);
		int got = (*dec)(g.p);
		std::snprintf(key, sizeof key, "%s:ml", name);
		check(got == want, key, "decoded %d, most likely is %d (-1: shared)", got, want);
		check(!std::memcmp(g.p, v.data(), N) && g.intact(), "soft:input-changed", "input changed");
		count(want < 0 ? "ties" : "unique_maxima");
		count("long_words");
		eval();
		distinct(hash_bytes(v.data(), N, mix(HAD, K)));
	}
}

// ------------------------------------------------------------------ short BCH
struct RefCode {
	int N, K, P; unsigned G;
	unsigned rem(unsigned x) const {
		for (int i = N - 1; i >= P; --i)
			if (x >> i & 1) x ^= G << (i - P);
		return x;
	}
	unsigned enc(unsigned m) const { return (m << P) | rem(m << P); }
};

template <int N, int K, int G, int T>
static void bch(double qh, double qs, double ts)
{
	const int P = N - K, W = 1 << K;
	RefCode ref{N, K, P, unsigned(G)};
	char cfg[60];
	std::snprintf(cfg, sizeof cfg, "ShortBCH<%d,%d,0x%x,%d>", N, K, G, T);
	crumb("%s construct", cfg);
	Placed<CODE::ShortBCHCodeEncoder<N, K, G>> enc(int(st().seed * 91 + K));
	Placed<CODE::ShortBCHCodeDecoder<N, K, G, T>> dec(int(st().seed * 57 + N));
	RNG r = rng(mix(mix(N, K), mix(G, T)));
	// reference coset leaders: remainder -> pattern of weight up to T
	std::vector<int> lead(1u << P, -1);
	lead[0] = 0;
	for (int a = 0; a < N; ++a)
		for (int b = a; b < (T >= 2 ? N : a + 1); ++b)
			for (int c = b; c < (T >= 3 ? N : b + 1); ++c) {
				unsigned e = (1u << a) | (1u << b) | (1u << c);
				unsigned s = ref.rem(e);
				if (lead[s] >= 0 && lead[s] != int(e)) { std::fprintf(stderr, "bad code %s\n", cfg); std::exit(3); }
				lead[s] = int(e);
			}
	auto nearest = [&](unsigned w) { int p = lead[ref.rem(w)]; return p < 0 ? -1 : int(w ^ unsigned(p)); };
	if (section("E") || section("H")) {
		int step = st().thorough ? 1 : std::max(1, W / 20000);
		for (int m = step == 1 ? 0 : int(r.below(step)); m < W; m += step) {
			crumb("%s encode msg=%d", cfg, m);
			int cw = (*enc)(m);
			check(unsigned(cw) == ref.enc(m), "shortbch:encode", "codeword %#x instead of %#x", cw, ref.enc(m));
			if (m % 7 == 0) {
				Guarded<int8_t> g(N, 1, m & 3);
				int cw2 = (*enc)(g.p, m);
				bool ok = cw2 == int(ref.enc(m)) && g.intact();
				for (int i = 0; i < N; ++i) ok = ok && g.p[i] == (ref.enc(m) >> i & 1 ? -1 : 1);
				check(ok, "shortbch:encode-bipolar", "bipolar codeword differs");
				int8_t in[32];
				std::memcpy(in, g.p, N);
				int got = (*dec)(g.p);
				check(got == cw2, "shortbch:clean-soft", "own bipolar codeword decoded to %d", got);
			}
			eval();
		}
	}
	// hard decisions: every word of short codes, else all patterns on random codewords and random words
	auto hard = [&](unsigned w) {
		crumb("%s hard word=%#x", cfg, w);
		int got = (*dec)(int(w)), want = nearest(w);
		check(got == want, "shortbch:hard", "decoded %d, codeword within the radius is %d", got, want);
		count(want < 0 ? "hard_failures" : "hard_corrections");
		eval();
	};
	if (N <= 17 || (N <= 23 && st().thorough)) {
		for (unsigned w = 0; w < (1u << N); ++w) if (mine(w)) { hard(w); if (w % 61 == 0) distinct(mix(mix(N, K), mix(G * 4 + T, w))); }
		count("words_enumerated", (1u << N) / st().shards);
	}
	for (int n = reps(qh, qh * 20); n--;) {
		unsigned w = r.coin() ? unsigned(r()) & ((1u << N) - 1) : ref.enc(r.below(W));
		if (r.coin()) { int k = r.range(0, T + 2), at[8]; r.choose(at, N, std::min(k, N)); for (int i = 0; i < std::min(k, N); ++i) w ^= 1u << at[i]; }
		hard(w);
		distinct(mix(mix(N, K), mix(G * 4 + T, w)));
	}
	// every syndrome at least once
	for (unsigned s = 0; s < (1u << P); ++s) if (mine(s)) { unsigned w = ref.enc(r.below(W)) ^ s; hard(w); }
	// soft decisions
	std::vector<std::vector<int8_t>> book;
	if (K <= 4)
		for (int m = 0; m < W; ++m) {
			book.emplace_back(N);
			for (int i = 0; i < N; ++i) book[m][i] = ref.enc(m) >> i & 1 ? -1 : 1;
		}
	auto corr = [&](const int8_t *v, unsigned w) { long c = 0; for (int i = 0; i < N; ++i) c += (w >> i & 1 ? -1 : 1) * long(v[i]); return c; };
	std::vector<int8_t> v(N);
	for (int n = reps(qs, ts); n--;) {
		unsigned tx = ref.enc(r.below(W));
		const char *kind = "";
		draw(r, v.data(), N, [&](int i) { return tx >> i & 1; }, kind);
		int shape = r.below(6);
		if (shape == 0) { // graded reliabilities: distinct magnitudes with errors on the small ones
			kind = "graded";
			int at[32]; r.choose(at, N, N);
			for (int i = 0; i < N; ++i) v[at[i]] = (1 + i * 4) * (tx >> at[i] & 1 ? -1 : 1);
			int k = r.range(0, 2 * T);
			for (int j = 0; j < k; ++j) { int i = std::min<int>(N - 1, r.below(r.coin() ? T + 2 : 2 * T + 3)); v[at[i]] = -v[at[i]]; }
		} else if (shape == 1) { // one magnitude, errors within the radius: must be corrected
			kind = "flat";
			int a = r.range(1, 127), k = r.range(0, T), at[8];
			for (int i = 0; i < N; ++i) v[i] = tx >> i & 1 ? -a : a;
			r.choose(at, N, k);
			for (int i = 0; i < k; ++i) v[at[i]] = -v[at[i]];
			crumb("%s soft %s %s", cfg, kind, show(v.data(), N).c_str());
			int got = (*dec)(v.data());
			check(got == int(tx), "shortbch:flat", "decoded %d instead of %u: %d equally reliable errors are within the radius", got, tx, k);
			count("flat_radius_corrections");
		} else if (shape == 2) { // strongly wrong values, so that even the best candidate correlates badly
			kind = "hostile";
			for (int i = 0; i < N; ++i) v[i] = (tx >> i & 1 ? -1 : 1) * r.range(1, 4);
			int k = r.range(T, std::min(N, 2 * T)), at[8];
			r.choose(at, N, k);
			for (int i = 0; i < k; ++i) v[at[i]] = (tx >> at[i] & 1 ? 1 : -1) * (i < T ? 127 - i : 1);
		}
		crumb("%s soft %s %s", cfg, kind, show(v.data(), N).c_str());
		Guarded<int8_t> g(N, 1, r.below(8));
		std::memcpy(g.p, v.data(), N);
		int got = (*dec)(g.p);
		check(!std::memcmp(g.p, v.data(), N), "soft:input-changed", "input changed");
		eval();
		distinct(hash_bytes(v.data(), N, mix(mix(N, K), mix(G, T))));
		if (K <= 4) {
			int want = ml(book, v.data(), N);
			if (want >= 0) want = int(ref.enc(want));
			check(got == want, "shortbch:ml", "decoded %d, most likely codeword is %d (-1: shared)", got, want);
			count(want < 0 ? "soft_ties" : "soft_unique");
			continue;
		}
		check(got == -1 || (got >= 0 && unsigned(got) < (1u << N) && ref.rem(got) == 0), "shortbch:soft-not-codeword", "result %d is no codeword", got);
		unsigned hd = 0;
		for (int i = 0; i < N; ++i) hd |= unsigned(v[i] < 0) << i;
		int h = nearest(hd);
		if (got >= 0 && h >= 0)
			check(corr(v.data(), got) >= corr(v.data(), h), "shortbch:soft-worse-than-hard", "result %d is less likely than the hard decision's %d", got, h);
		// the candidates are settled when the least reliable positions are
		std::vector<int> pos(N);
		for (int i = 0; i < N; ++i) pos[i] = i;
		std::stable_sort(pos.begin(), pos.end(), [&](int a, int b) { return std::abs(int(v[a])) < std::abs(int(v[b])); });
		bool settled = std::abs(int(v[pos[T - 1]])) < std::abs(int(v[pos[T]]));
		if (!settled) { count("soft_unsettled"); continue; }
		std::set<int> cand;
		for (int j = 0; j < (1 << T); ++j) {
			unsigned f = 0;
			for (int i = 0; i < T; ++i) f |= unsigned(j >> i & 1) << pos[i];
			int d = nearest(hd ^ f);
			if (d >= 0) cand.insert(d);
		}
		long best = std::numeric_limits<long>::min();
		int who = -1, many = 0;
		for (int c : cand) {
			long m = corr(v.data(), c);
			if (m > best) { best = m; who = c; many = 1; } else if (m == best) ++many;
		}
		int want = many == 1 ? who : -1;
		count(cand.empty() ? "soft_no_candidate" : want < 0 ? "soft_ties" : "soft_unique");
		check(got == want, "shortbch:chase", "decoded %d, best of the %d candidates from the %d least reliable bits is %d (-1: none or shared)", got, int(cand.size()), T, want);
	}
}

int main(int argc, char **argv)
{
	init(argc, argv);
#if PART == 0
	biorth<CODE::HadamardEncoder, CODE::HadamardDecoder, 2, true>(3000, 200000);
	biorth<CODE::HadamardEncoder, CODE::HadamardDecoder, 3, true>(20000, 1000000);
	biorth<CODE::HadamardEncoder, CODE::HadamardDecoder, 4, true>(20000, 1000000);
	biorth<CODE::HadamardEncoder, CODE::HadamardDecoder, 5, true>(20000, 1000000);
	biorth<CODE::HadamardEncoder, CODE::HadamardDecoder, 6, true>(20000, 1000000);
	biorth<CODE::HadamardEncoder, CODE::HadamardDecoder, 7, true>(8000, 400000);
	biorth<CODE::HadamardEncoder, CODE::HadamardDecoder, 8, true>(2000, 100000);
	biorth<CODE::HadamardEncoder, CODE::HadamardDecoder, 9, true>(1000, 30000);
	biorth<CODE::HadamardEncoder, CODE::HadamardDecoder, 10, true>(300, 8000);
	biorth<CODE::HadamardEncoder, CODE::HadamardDecoder, 12, true>(20, 400);
	biorth_long<CODE::HadamardEncoder, CODE::HadamardDecoder, 11, true>(100, 4000);
	biorth_long<CODE::HadamardEncoder, CODE::HadamardDecoder, 13, true>(60, 2000);
	biorth_long<CODE::HadamardEncoder, CODE::HadamardDecoder, 15, true>(24, 800);
	biorth_long<CODE::HadamardEncoder, CODE::HadamardDecoder, 16, true>(16, 400);
	biorth_long<CODE::HadamardEncoder, CODE::HadamardDecoder, 17, true>(12, 300);
	biorth_long<CODE::HadamardEncoder, CODE::HadamardDecoder, 18, true>(8, 200);
#elif PART == 1
	biorth<CODE::SimplexEncoder, CODE::SimplexDecoder, 2, false>(20000, 1000000);
	biorth<CODE::SimplexEncoder, CODE::SimplexDecoder, 3, false>(20000, 1000000);
	biorth<CODE::SimplexEncoder, CODE::SimplexDecoder, 4, false>(20000, 1000000);
	biorth<CODE::SimplexEncoder, CODE::SimplexDecoder, 5, false>(20000, 1000000);
	biorth<CODE::SimplexEncoder, CODE::SimplexDecoder, 6, false>(8000, 400000);
	biorth<CODE::SimplexEncoder, CODE::SimplexDecoder, 7, false>(2000, 100000);
	biorth<CODE::SimplexEncoder, CODE::SimplexDecoder, 8, false>(1000, 30000);
	biorth<CODE::SimplexEncoder, CODE::SimplexDecoder, 9, false>(300, 8000);
	biorth<CODE::SimplexEncoder, CODE::SimplexDecoder, 11, false>(20, 400);
	biorth_long<CODE::SimplexEncoder, CODE::SimplexDecoder, 10, false>(100, 4000);
	biorth_long<CODE::SimplexEncoder, CODE::SimplexDecoder, 12, false>(60, 2000);
	biorth_long<CODE::SimplexEncoder, CODE::SimplexDecoder, 14, false>(24, 800);
	biorth_long<CODE::SimplexEncoder, CODE::SimplexDecoder, 16, false>(16, 400);
	biorth_long<CODE::SimplexEncoder, CODE::SimplexDecoder, 17, false>(8, 200);
	biorth_long<CODE::SimplexEncoder, CODE::SimplexDecoder, 18, false>(6, 150);
#elif PART == 2
	bch<23, 12, 0b101011100011, 3>(40000, 60000, 3000000);
	bch<23, 12, 0b110001110101, 3>(40000, 60000, 3000000);
	bch<23, 12, 0b101011100011, 1>(10000, 10000, 300000);
	bch<19, 8, 0b101011100011, 3>(20000, 20000, 600000);
#elif PART == 3
	bch<31, 16, 0b1000111110101111, 3>(40000, 60000, 3000000);
	bch<31, 21, 0b11101101001, 2>(40000, 60000, 3000000);
	bch<17, 9, 0b100111001, 2>(20000, 20000, 600000);
	bch<30, 15, 0b1000111110101111, 2>(20000, 20000, 600000);
	bch<28, 14, 0b110010100101101, 1>(10000, 10000, 300000);
#elif PART == 4
	bch<15, 5, 0b10100110111, 3>(10000, 40000, 2000000);
	bch<15, 7, 0b111010001, 2>(10000, 20000, 600000);
	bch<15, 11, 0b10011, 1>(10000, 20000, 600000);
	bch<7, 4, 0b1011, 1>(3000, 40000, 2000000);
	bch<7, 3, 0b10111, 1>(3000, 40000, 2000000);
	bch<3, 1, 0b111, 1>(100, 20000, 300000);
	bch<5, 1, 0b11111, 2>(100, 20000, 300000);
	bch<7, 1, 0b1111111, 3>(300, 20000, 300000);
	bch<15, 4, 0b101011100011, 3>(3000, 40000, 2000000);
	bch<15, 4, 0b111101011001, 3>(3000, 40000, 2000000);
	bch<31, 21, 0b11101101001, 1>(10000, 10000, 300000);
	bch<19, 4, 0b1100101111011011, 3>(3000, 40000, 1000000);
	bch<18, 3, 0b1100010110101001, 3>(1000, 20000, 600000);
	bch<16, 1, 0b1111010100111101, 3>(1000, 20000, 300000);
	bch<18, 4, 0b110011010100111, 2>(1000, 20000, 600000);
	bch<16, 2, 0b101111001010111, 1>(1000, 20000, 300000);
#endif
	return finish();
}
