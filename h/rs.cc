// Reed Solomon: correction within the radius (C), verdict soundness (V), encoder (E).
#include "vh.hh"
#include "gfref.hh"
#include "galois_field.hh"
#include "reed_solomon_encoder.hh"
#include "reed_solomon_decoder.hh"
#ifndef PART
#define PART 0
#endif
using vh::RNG;

static bool WANT_C() { return vh::section("C"); }
static bool WANT_V() { return vh::section("V"); }
static bool WANT_E() { return vh::section("E"); }

static int gcd(int a, int b) { return b ? gcd(b, a % b) : a; }
static void note(uint64_t h) { vh::distinct(h); }

// the workload and the oracle know the code by its parameters only
template <typename TYPE>
struct Base {
	const int M, POLY, NR, FCR, N, K;
	RefField F;
	RNG rng;
	char name[96];
	std::vector<uint32_t> gen; // ascending coefficients of the reference generator
	virtual void make() = 0;
	virtual void drop() = 0;
	virtual void enc(const TYPE *data, TYPE *parity, int dl, bool values) = 0;
	virtual int dec(TYPE *data, TYPE *parity, TYPE *erasures, int f, int dl, bool values) = 0;
	virtual int syn(const TYPE *data, const TYPE *parity, TYPE *syndromes, int dl, bool values) = 0;
	virtual bool parameters() = 0;
	Base(int M_, int POLY_, int NR_, int FCR_) : M(M_), POLY(POLY_), NR(NR_), FCR(FCR_), N((1 << M_) - 1), K(N - NR_), F(M_, POLY_),
		rng(vh::rng(vh::mix(M * 1000003 + POLY, NR * 1009 + FCR + sizeof(TYPE) * 7))) {
		std::snprintf(name, sizeof name, "RS(%d,%d) GF(2^%d,0x%x) u%d FCR=%d", N, K, M, POLY, int(8 * sizeof(TYPE)), FCR);
		gen.assign(1, 1);
		for (int i = 0; i < NR; ++i) {
			std::vector<uint32_t> g(gen.size() + 1, 0);
			uint32_t r = F.pw(uint64_t(FCR) + i);
			for (size_t j = 0; j < gen.size(); ++j) { g[j + 1] ^= gen[j]; g[j] ^= F.mul(gen[j], r); }
			gen = g;
		}
	}
	void ref_encode(const TYPE *data, TYPE *parity, int dl) {
		std::vector<uint32_t> w(dl + NR, 0);
		for (int i = 0; i < dl; ++i) w[i] = data[i];
		for (int i = 0; i < dl; ++i) {
			uint32_t q = w[i];
			if (!q) continue;
			for (int j = 0; j <= NR; ++j) w[i + j] ^= F.mul(q, gen[NR - j]);
		}
		for (int i = 0; i < NR; ++i) parity[i] = TYPE(w[dl + i]);
	}
	TYPE rnd_sym(int flavour) {
		switch (flavour) {
		case 0: return 0;
		case 1: return TYPE(N);
		case 2: return TYPE(rng.below(4) ? 0 : rng.below(N + 1));
		default: return TYPE(rng.below(uint64_t(N) + 1));
		}
	}
	int pick_len() {
		switch (rng.below(6)) {
		case 0: return 1;
		case 1: return K;
		case 2: return 1 + int(rng.below(K < 5 ? K : 5));
		case 3: return K - int(rng.below(K < 5 ? K : 5));
		default: return 1 + int(rng.below(K));
		}
	}
	void encoder_case(int dl) {
		vh::Guarded<TYPE> d(dl), p(NR);
		std::vector<TYPE> keep(dl), want(NR);
		int fl = int(rng.below(6));
		for (int i = 0; i < dl; ++i) d[i] = keep[i] = rnd_sym(fl);
		if (rng.coin(4)) { for (int i = 0; i < dl; ++i) d[i] = keep[i] = 0; d[rng.below(dl)] = TYPE(1 + rng.below(N)); for (int i = 0; i < dl; ++i) keep[i] = d[i]; }
		if (rng.coin(4)) {
			// the register at rest for a while: stretches without feedback, of zeros and of anything
			std::vector<uint32_t> reg(NR, 0);
			int style = 0, left = 0;
			for (int i = 0; i < dl; ++i) {
				if (!left--) { style = int(rng.below(3)); left = int(rng.below(rng.coin() ? NR + 5 : 6)); }
				d[i] = keep[i] = style == 0 ? TYPE(reg[0]) : style == 1 ? TYPE(0) : rnd_sym(5);
				uint32_t fb = d[i] ^ reg[0];
				for (int j = 0; j < NR; ++j) reg[j] = (j + 1 < NR ? reg[j + 1] : 0) ^ (fb ? F.mul(fb, gen[NR - 1 - j]) : 0);
			}
			vh::count("messages_with_the_register_at_rest");
		}
		for (int i = 0; i < NR; ++i) p[i] = TYPE(rng.below(uint64_t(N) + 1)); // stale content
		vh::crumb("%s encode len=%d data=%s", name, dl, vh::show(keep.data(), dl).c_str());
		enc(d.p, p.p, dl, rng.coin());
		ref_encode(keep.data(), want.data(), dl);
		vh::eval();
		note(vh::hash_bytes(keep.data(), dl * sizeof(TYPE), vh::mix(POLY, NR * 100 + FCR)));
		bool same = std::equal(want.begin(), want.end(), p.p), kept = std::equal(keep.begin(), keep.end(), d.p);
		vh::check(same, "rs-encode-parity", "%s len=%d got %s want %s", name, dl, vh::show(p.p, NR).c_str(), vh::show(want.data(), NR).c_str());
		vh::check(kept && d.intact() && p.intact(), "rs-encode-touches-more", "%s len=%d", name, dl);
	}
	// decode a word given as codeword + errors; oracle: independent algebra
	// mode: within radius -> must restore; else soundness
	void decode_case(int dl, int e, int f, int erase_style, bool expect_fix, int cwflavour) {
		int len = dl + NR;
		std::vector<TYPE> cw(len);
		for (int i = 0; i < dl; ++i) cw[i] = rnd_sym(cwflavour);
		ref_encode(cw.data(), cw.data() + dl, dl);
		std::vector<int> pos(e + f);
		rng.choose(pos.data(), len, e + f);
		if (rng.coin(5)) { int b = int(rng.below(len - (e + f) + 1)); for (int i = 0; i < e + f; ++i) pos[i] = b + i; for (int i = e + f - 1; i > 0; --i) std::swap(pos[i], pos[rng.below(i + 1)]); } // burst
		std::vector<TYPE> rx = cw;
		std::vector<TYPE> er(f + 1);
		int wrong = 0;
		for (int i = 0; i < f; ++i) {
			er[i] = TYPE(pos[i]);
			switch (erase_style) {
			case 0: rx[pos[i]] = 0; break;
			case 1: break; // erased but correct
			case 2: rx[pos[i]] ^= TYPE(1 + rng.below(N)); break;
			default: rx[pos[i]] = TYPE(rng.below(uint64_t(N) + 1));
			}
			wrong += rx[pos[i]] != cw[pos[i]];
		}
		for (int i = f; i < e + f; ++i) { rx[pos[i]] ^= TYPE(rng.coin(4) ? 1 : 1 + rng.below(N)); ++wrong; }
		run(cw, rx, er, f, dl, wrong, expect_fix);
	}
	void run(const std::vector<TYPE> &cw, const std::vector<TYPE> &rx, const std::vector<TYPE> &er, int f, int dl, int wrong, bool expect_fix) {
		int len = dl + NR;
		vh::Guarded<TYPE> d(dl), p(NR), eg(f);
		for (int i = 0; i < dl; ++i) d[i] = rx[i];
		for (int i = 0; i < NR; ++i) p[i] = rx[dl + i];
		for (int i = 0; i < f; ++i) eg[i] = er[i];
		const std::vector<TYPE> &er0 = er;
		if (len <= 64) vh::crumb("%s decode data_len=%d received=%s erasures=%s", name, dl, vh::show(rx.data(), len, 64).c_str(), vh::show(er0.data(), f).c_str());
		else vh::crumb("%s decode data_len=%d erasures=%s wrong=%d word-hash=%llx", name, dl, vh::show(er0.data(), f).c_str(), wrong, (unsigned long long)vh::hash_bytes(rx.data(), len * sizeof(TYPE)));
		int ret;
		TYPE *ep = f ? eg.p : (rng.coin() ? nullptr : eg.p);
		ret = dec(d.p, p.p, ep, f, dl, rng.coin());
		std::vector<TYPE> out(len);
		for (int i = 0; i < dl; ++i) out[i] = d[i];
		for (int i = 0; i < NR; ++i) out[dl + i] = p[i];
		vh::eval();
		vh::check(d.intact() && p.intact() && eg.intact(), "rs-decode-out-of-bounds", "%s", name);
		if (wrong || f) note(vh::hash_bytes(rx.data(), len * sizeof(TYPE), vh::mix(vh::mix(POLY, NR * 100 + FCR), vh::hash_bytes(er0.data(), f * sizeof(TYPE)))));
		if (expect_fix) {
			vh::count("within_radius_decodes");
			vh::check(out == cw, "rs-not-restored", "%s dl=%d erasures=%d wrong=%d ret=%d", name, dl, f, wrong, ret);
			vh::check(ret == wrong, "rs-correction-count", "%s dl=%d erasures=%d wrong=%d ret=%d", name, dl, f, wrong, ret);
		} else {
			sound(rx, out, ret, dl, f);
		}
	}
	void sound(const std::vector<TYPE> &rx, const std::vector<TYPE> &out, int ret, int dl, int f) {
		int len = dl + NR, diff = 0;
		for (int i = 0; i < len; ++i) diff += rx[i] != out[i];
		if (ret < 0) {
			vh::count("verdict_failure");
			vh::check(ret == -1, "rs-verdict-range", "%s ret=%d", name, ret);
			vh::check(diff == 0, "rs-failure-modifies-word", "%s dl=%d erasures=%d changed=%d", name, dl, f, diff);
		} else {
			vh::count(ret ? "verdict_corrected" : "verdict_clean");
			bool ok = ref_is_codeword(F, out.data(), len, FCR, NR);
			vh::check(ok, "rs-success-non-codeword", "%s dl=%d erasures=%d ret=%d changed=%d received=%s", name, dl, f, ret, diff, vh::show(rx.data(), len, 64).c_str());
			if (ok) vh::check(diff == ret, "rs-verdict-count", "%s dl=%d ret=%d changed=%d", name, dl, ret, diff);
		}
	}
	// the syndromes alone
	void syndrome_case(int dl, int kind) {
		int len = dl + NR;
		vh::Guarded<TYPE> d(dl), p(NR), s(NR);
		std::vector<TYPE> w(len, 0);
		if (kind >= 2) {
			for (int i = 0; i < dl; ++i) w[i] = rnd_sym(kind == 5 ? 2 : 5);
			ref_encode(w.data(), w.data() + dl, dl);
			if (kind == 3) w[rng.below(len)] ^= TYPE(1 + rng.below(N));
			if (kind == 4) for (int k = 1 + int(rng.below(4)); k--;) w[rng.below(len)] = TYPE(rng.below(uint64_t(N) + 1));
			if (kind >= 6) for (int i = 0; i < len; ++i) w[i] = rnd_sym(kind == 7 ? 1 : 5);
		} else if (kind) w[rng.coin() ? rng.below(len) : rng.coin() ? len - 1 : 0] = TYPE(1 + rng.below(N));
		for (int i = 0; i < dl; ++i) d[i] = w[i];
		for (int i = 0; i < NR; ++i) p[i] = w[dl + i], s[i] = TYPE(rng.below(uint64_t(N) + 1));
		vh::crumb("%s syndromes len=%d word=%s", name, dl, vh::show(w.data(), len, 64).c_str());
		int got = syn(d.p, p.p, s.p, dl, rng.coin());
		std::vector<uint32_t> want(NR);
		int nonzero = 0, bad = -1;
		for (int i = 0; i < NR; ++i) {
			uint32_t x = F.pw(uint64_t(FCR) + i), a = 0;
			for (int j = 0; j < len; ++j) a = F.mul(a, x) ^ w[j];
			want[i] = a;
			nonzero += !!a;
			if (bad < 0 && s[i] != a) bad = i;
		}
		vh::eval();
		note(vh::hash_bytes(w.data(), len * sizeof(TYPE), vh::mix(POLY, NR * 100 + FCR)));
		vh::count(nonzero ? nonzero == NR ? "no_syndrome_zero" : "some_syndromes_zero" : "all_syndromes_zero");
		vh::check(bad < 0, "rs-syndrome", "%s len=%d syndrome %d is %d, the word at that root is %d", name, dl, bad, bad < 0 ? 0 : int(s[bad]), bad < 0 ? 0 : int(want[bad]));
		vh::check(got == nonzero, "rs-syndrome-count", "%s len=%d returned %d, %d are not zero", name, dl, got, nonzero);
		bool kept = d.intact() && p.intact() && s.intact();
		for (int i = 0; i < len && kept; ++i) kept = (i < dl ? d[i] : p[i - dl]) == w[i];
		vh::check(kept, "rs-syndrome-touches-more", "%s len=%d", name, dl);
	}
	void all(int ncorr, int nvd, int nenc, bool exhaustive_cosets) {
		make();
		vh::count("code_configurations");
		if (WANT_E()) vh::check(parameters(), "rs-parameters", "%s announces other dimensions", name);
		if (vh::section("Y")) {
			vh::count("constants_checked");
			vh::check(parameters(), "rs-parameters", "%s announces other dimensions", name);
			for (int i = 0; i < nvd / 2 + 24; ++i) syndrome_case(pick_len(), i % 8);
			for (int dl = 1; dl <= K && dl <= 40; ++dl) syndrome_case(dl, int(rng.below(8)));
		}
		if (WANT_E()) {
			for (int i = 0; i < nenc; ++i) encoder_case(pick_len());
			for (int dl = 1; dl <= K && dl <= 40; ++dl) encoder_case(dl);
			encoder_case(K);
		}
		if (WANT_C()) {
			// every (errors, erasures) split at least once
			for (int f = 0; f <= NR; ++f)
				for (int e = 0; 2 * e + f <= NR; ++e) {
					if (NR > 20 && !(2 * e + f >= NR - 1 || f == 0 || e == 0) && rng.below(6)) continue;
					if (NR > 254 && rng.below(2 * e + f >= NR - 1 || f == 0 || e == 0 ? 8 : 30)) continue;
					int n = N > 5000 ? 1 : 2;
					for (int r = 0; r < n; ++r) {
						int dl = pick_len();
						if (dl + NR < e + f) dl = K;
						decode_case(dl, e, f, int(rng.below(4)), true, int(rng.below(6)));
					}
				}
			for (int i = 0; i < ncorr; ++i) {
				int e = int(rng.below(NR / 2 + 1));
				if (rng.coin(3)) e = std::min(int(rng.below(4)), NR / 2);
				int f = int(rng.below(NR - 2 * e + 1));
				if (rng.coin()) f = NR - 2 * e; // boundary
				if (rng.coin(4)) { f = 0; }
				decode_case(pick_len(), e, f, int(rng.below(4)), true, int(rng.below(6)));
			}
			if (N <= 255 && NR <= 32) { // all single errors, all double error position pairs (or a sample of them)
				for (int i = 0; i < N; ++i)
					if (NR >= 2) {
						std::vector<TYPE> cw(N, 0), rx;
						if (rng.coin()) { for (int j = 0; j < K; ++j) cw[j] = rnd_sym(5); ref_encode(cw.data(), cw.data() + K, K); }
						rx = cw; rx[i] ^= TYPE(1 + rng.below(N));
						run(cw, rx, std::vector<TYPE>(1), 0, K, 1, true);
					}
			}
			pairs();
			for (int i = 0; i < ncorr / 2; ++i) sparse();
		}
		if (WANT_V()) {
			for (int i = 0; i < nvd; ++i) {
				int dl = pick_len(), len = dl + NR;
				int f = rng.coin() ? 0 : int(rng.below(NR + 1));
				int e = int(rng.below(len - f + 1));
				if (rng.coin()) e = std::min(len - f, (NR - f) / 2 + int(rng.below(4)));
				decode_case(dl, e, f, int(rng.below(4)), false, int(rng.below(6)));
			}
			for (int i = 0; i < nvd / 4; ++i) crafted();
			if (exhaustive_cosets) cosets();
		}
		drop();
	}
	// words whose syndromes have a prescribed sparse shape (most syndromes zero)
	void crafted() {
		// choose syndromes, find a word on NR consecutive positions: solve by elimination (Vandermonde) - here via random
		// search in the parity area: solve NR x NR linear system
		int dl = pick_len(), len = dl + NR;
		std::vector<uint32_t> syn(NR, 0);
		int style = int(rng.below(4));
		if (style == 0) syn[rng.below(NR)] = 1 + uint32_t(rng.below(N));
		else if (style == 1) { syn[rng.below(NR)] = 1 + uint32_t(rng.below(N)); syn[rng.below(NR)] = 1 + uint32_t(rng.below(N)); }
		else if (style == 2) { for (int i = NR / 2; i < NR; ++i) syn[i] = uint32_t(rng.below(uint64_t(N) + 1)); }
		else { int per = 1 + int(rng.below(NR)); uint32_t v = 1 + uint32_t(rng.below(N)); for (int i = 0; i < NR; ++i) if (i % per == per - 1) syn[i] = rng.coin() ? v : 1 + uint32_t(rng.below(N)); }
		std::vector<uint32_t> par = solve(syn, len);
		std::vector<TYPE> cw(len, 0), rx(len, 0);
		for (int i = 0; i < dl; ++i) cw[i] = rnd_sym(5);
		ref_encode(cw.data(), cw.data() + dl, dl);
		rx = cw;
		for (int i = 0; i < NR; ++i) rx[dl + i] ^= TYPE(par[i]);
		vh::count("crafted_syndromes");
		run(cw, rx, std::vector<TYPE>(1), 0, dl, 1, false);
	}
	std::vector<uint32_t> solve(const std::vector<uint32_t> &syn, int) {
		// par_j at power NR-1-j: sum_j par_j alpha^((FCR+i)(NR-1-j)) = syn_i
		std::vector<std::vector<uint32_t>> A(NR, std::vector<uint32_t>(NR + 1));
		for (int i = 0; i < NR; ++i) {
			for (int j = 0; j < NR; ++j) A[i][j] = F.pw(uint64_t(FCR + i) * uint64_t(NR - 1 - j));
			A[i][NR] = syn[i];
		}
		for (int c = 0; c < NR; ++c) {
			int r = c;
			while (r < NR && !A[r][c]) ++r;
			std::swap(A[r], A[c]);
			uint32_t iv = F.inv(A[c][c]);
			for (int k = c; k <= NR; ++k) A[c][k] = F.mul(A[c][k], iv);
			for (int i = 0; i < NR; ++i) if (i != c && A[i][c]) {
				uint32_t q = A[i][c];
				for (int k = c; k <= NR; ++k) A[i][k] ^= F.mul(q, A[c][k]);
			}
		}
		std::vector<uint32_t> x(NR);
		for (int i = 0; i < NR; ++i) x[i] = A[i][NR];
		return x;
	}
	// Errors inside the radius with long runs of zero syndromes: w wrong symbols of which w-1 consecutive syndromes vanish,
	// or wrong symbols in a coset of a subgroup (most syndromes and locator coefficients vanish).
	void sparse() {
		if (NR < 2) return;
		int e = 1 + int(rng.below(NR / 2)), f = rng.coin() ? 0 : int(rng.below(NR - 2 * e + 1));
		if (rng.coin(3)) { e = int(rng.below(NR / 2 + 1)); f = NR - 2 * e; }
		int w = e + f;
		if (!w) return;
		std::vector<int> pos(w); // as power of the symbol's locator
		int style = int(rng.below(4));
		bool equal = false;
		if (style == 0) {
			std::vector<int> div;
			for (int d = 2; d <= w; ++d) if (N % d == 0) div.push_back(d);
			if (div.size()) {
				w = div[rng.below(div.size())];
				if (e > w) e = w;
				f = w - e;
				int b = int(rng.below(N));
				for (int i = 0; i < w; ++i) pos[i] = int((b + int64_t(i) * (N / w)) % N);
				pos.resize(w);
				equal = rng.coin();
			} else style = 1;
		}
		if (style == 1) { // geometric progression
			int step, b = int(rng.below(N));
			do step = 1 + int(rng.below(N - 1)); while (gcd(step, N) > N / w);
			for (int i = 0; i < w; ++i) pos[i] = int((b + int64_t(i) * step) % N);
		}
		if (style > 1) rng.choose(pos.data(), N, w);
		int o = rng.coin() ? FCR : FCR + int(rng.below(NR));
		if (rng.coin(4)) o = FCR - int(rng.below(w));
		if (rng.coin(4)) o = FCR + NR - w + 1;
		o = ((o % N) + N) % N;
		uint32_t c = 1 + uint32_t(rng.below(N));
		std::vector<TYPE> cw(N, 0), rx;
		if (rng.coin()) { for (int j = 0; j < K; ++j) cw[j] = rnd_sym(5); ref_encode(cw.data(), cw.data() + K, K); }
		rx = cw;
		std::vector<TYPE> er(f + 1);
		for (int i = w - 1; i > 0; --i) std::swap(pos[i], pos[rng.below(i + 1)]);
		for (int i = 0; i < w; ++i) {
			uint32_t m = c;
			if (!equal) {
				m = F.mul(m, F.inv(F.pw(uint64_t(pos[i]) * o)));
				for (int j = 0; j < w; ++j) if (j != i) m = F.mul(m, F.inv(F.pw(pos[i]) ^ F.pw(pos[j])));
			}
			rx[N - 1 - pos[i]] ^= TYPE(m);
			if (i < f) er[i] = TYPE(N - 1 - pos[i]);
		}
		vh::count("sparse_syndrome_patterns");
		run(cw, rx, er, f, K, w, true);
	}
	// double errors: every ratio class of the two-root case is met
	void pairs() {
		if (NR < 4) return;
		int total = N <= 63 ? N * (N - 1) / 2 : 800;
		if (N > 5000) total = 6;
		int done = 0;
		for (int a = 0; a < N && done < total; ++a)
			for (int b = a + 1; b < N && done < total; ++b) {
				int x = a, y = b;
				if (N > 63) { x = int(rng.below(N)); do y = int(rng.below(N)); while (y == x); }
				std::vector<TYPE> cw(N, 0), rx(N, 0);
				rx[x] = TYPE(1 + rng.below(N)); rx[y] = TYPE(1 + rng.below(N));
				run(cw, rx, std::vector<TYPE>(1), 0, K, 2, true);
				++done;
				vh::count("double_error_pairs");
			}
	}
	// every coset of the code: data zero, every parity word
	void cosets() {
		uint64_t total = 1;
		for (int i = 0; i < NR; ++i) total *= N + 1;
		std::vector<TYPE> zero(N, 0);
		for (uint64_t c = 0; c < total; ++c) {
			if (!vh::mine(c)) continue;
			std::vector<TYPE> rx(N, 0);
			uint64_t t = c;
			for (int i = 0; i < NR; ++i) { rx[K + i] = TYPE(t % (N + 1)); t /= N + 1; }
			run(zero, rx, std::vector<TYPE>(1), 0, K, 1, false);
			vh::count("cosets_enumerated");
		}
	}
};

template <int M_, int POLY_, typename TYPE, int NR_, int FCR_>
struct RS final : Base<TYPE> {
	typedef CODE::GaloisField<M_, POLY_, TYPE> GF;
	typedef typename GF::ValueType VT;
	typedef typename GF::IndexType IT;
	CODE::ReedSolomonEncoder<NR_, FCR_, GF> *e;
	CODE::ReedSolomonDecoder<NR_, FCR_, GF> *d;
	RS() : Base<TYPE>(M_, POLY_, NR_, FCR_) {}
	void make() override { e = new typename std::remove_pointer<decltype(e)>::type; d = new typename std::remove_pointer<decltype(d)>::type; }
	void drop() override { delete e; delete d; }
	bool flip = false; // the full length is the default: say it, or leave it out
	bool parameters() override {
		typedef typename std::remove_pointer<decltype(e)>::type E;
		typedef typename std::remove_pointer<decltype(d)>::type D;
		return int(E::NR) == NR_ && int(E::N) == this->N && int(E::K) == this->K && int(E::NP) == NR_ && int(D::NR) == NR_ && int(D::N) == this->N && int(D::K) == this->K && int(D::NP) == NR_;
	}
	int syn(const TYPE *data, const TYPE *parity, TYPE *syndromes, int dl, bool values) override {
		const VT *vd = reinterpret_cast<const VT *>(data), *vp = reinterpret_cast<const VT *>(parity);
		VT *vs = reinterpret_cast<VT *>(syndromes);
		if (dl == this->K && (flip = !flip)) return values ? d->compute_syndromes(vd, vp, vs) : d->compute_syndromes(data, parity, syndromes);
		return values ? d->compute_syndromes(vd, vp, vs, dl) : d->compute_syndromes(data, parity, syndromes, dl);
	}
	void enc(const TYPE *data, TYPE *parity, int dl, bool values) override {
		if (dl == this->K && (flip = !flip)) {
			if (values) (*e)(reinterpret_cast<const VT *>(data), reinterpret_cast<VT *>(parity));
			else (*e)(data, parity);
		} else if (values) (*e)(reinterpret_cast<const VT *>(data), reinterpret_cast<VT *>(parity), dl);
		else (*e)(data, parity, dl);
	}
	int dec(TYPE *data, TYPE *parity, TYPE *erasures, int f, int dl, bool values) override {
		if (dl == this->K && (flip = !flip)) {
			vh::count("calls_with_defaults");
			if (values) return f ? (*d)(reinterpret_cast<VT *>(data), reinterpret_cast<VT *>(parity), reinterpret_cast<IT *>(erasures), f) : (*d)(reinterpret_cast<VT *>(data), reinterpret_cast<VT *>(parity));
			return f ? (*d)(data, parity, erasures, f) : (*d)(data, parity);
		}
		if (values) return (*d)(reinterpret_cast<VT *>(data), reinterpret_cast<VT *>(parity), reinterpret_cast<IT *>(erasures), f, dl);
		return (*d)(data, parity, erasures, f, dl);
	}
};
template <int M, int POLY, typename TYPE, int NR, int FCR>
void go(int nc, int nv, int ne, bool cos = false) {
	RS<M, POLY, TYPE, NR, FCR> t;
	t.all(vh::reps(nc, nc * 20.), vh::reps(nv, nv * 20.), vh::reps(ne, ne * 10.), cos);
}
template <int M, int POLY, typename TYPE>
struct Inst { CODE::GaloisField<M, POLY, TYPE> *g; Inst() : g(new CODE::GaloisField<M, POLY, TYPE>) {} ~Inst() { delete g; } };
#define FIELD(M, P, T) Inst<M, P, T> inst_; (void)inst_;

template <int M, int POLY, typename TYPE>
void small() { FIELD(M, POLY, TYPE)
	go<M, POLY, TYPE, 2, 0>(4000, 4000, 600, true);
	go<M, POLY, TYPE, 4, 1>(4000, 4000, 600, M <= 4);
	go<M, POLY, TYPE, 5, 0>(3000, 3000, 400, M <= 3);
}
template <int M, int POLY, typename TYPE>
void medium() { FIELD(M, POLY, TYPE)
	go<M, POLY, TYPE, 4, 0>(3000, 3000, 300);
	go<M, POLY, TYPE, 7, 1>(2000, 2000, 300);
}
template <int POLY>
void octets() { FIELD(8, POLY, uint8_t)
	go<8, POLY, uint8_t, 4, 0>(1500, 1000, 60);
	go<8, POLY, uint8_t, 16, 1>(600, 400, 60);
}

// every first root
template <int M, int POLY, typename TYPE, int NR, int FCR>
void sweep() {
	go<M, POLY, TYPE, NR, FCR>(400, 400, 60);
	if constexpr (FCR + 2 < (1 << M)) sweep<M, POLY, TYPE, NR, FCR + 1>();
}

int main(int argc, char **argv) {
	vh::init(argc, argv);
#if PART == 0
	{ FIELD(2, 0b111, uint8_t)
		go<2, 0b111, uint8_t, 1, 0>(2000, 2000, 300, true);
		go<2, 0b111, uint8_t, 2, 1>(2000, 2000, 300, true);
		go<2, 0b111, uint8_t, 2, 2>(2000, 2000, 300, true); }
	{ FIELD(3, 0b1011, uint8_t)
		go<3, 0b1011, uint8_t, 1, 0>(2000, 2000, 300, true);
		go<3, 0b1011, uint8_t, 2, 1>(2000, 2000, 300, true);
		go<3, 0b1011, uint8_t, 3, 2>(2000, 2000, 300, true);
		go<3, 0b1011, uint8_t, 4, 0>(2000, 2000, 300, true);
		go<3, 0b1011, uint8_t, 5, 3>(2000, 2000, 300, true);
		go<3, 0b1011, uint8_t, 6, 6>(2000, 2000, 300, true); }
	small<3, 0b1101, uint8_t>();
	{ FIELD(4, 0b10011, uint8_t)
		go<4, 0b10011, uint8_t, 1, 1>(2000, 2000, 300, true);
		go<4, 0b10011, uint8_t, 3, 0>(2000, 2000, 300, true);
		go<4, 0b10011, uint8_t, 4, 0>(8000, 8000, 1000, true);
		go<4, 0b10011, uint8_t, 4, 3>(3000, 3000, 300, true);
		go<4, 0b10011, uint8_t, 6, 14>(3000, 6000, 300);
		go<4, 0b10011, uint8_t, 8, 1>(3000, 6000, 300);
		go<4, 0b10011, uint8_t, 13, 2>(3000, 3000, 300);
		go<4, 0b10011, uint8_t, 14, 7>(3000, 3000, 300); }
	small<4, 0b11001, uint8_t>();
#elif PART == 1
	small<5, 0b100101, uint8_t>(); small<5, 0b101001, uint8_t>(); small<5, 0b101111, uint8_t>();
	small<5, 0b110111, uint8_t>(); small<5, 0b111011, uint8_t>(); small<5, 0b111101, uint8_t>();
	small<5, 0b100101, uint16_t>();
#elif PART == 2
	medium<6, 0b1000011, uint8_t>(); medium<6, 0b1011011, uint8_t>(); medium<6, 0b1100001, uint8_t>();
	medium<6, 0b1100111, uint8_t>(); medium<6, 0b1101101, uint8_t>(); medium<6, 0b1110011, uint8_t>();
	medium<7, 0b10001001, uint8_t>(); medium<7, 0b10000011, uint8_t>(); medium<7, 0b10111111, uint8_t>(); medium<7, 0b11101111, uint8_t>();
#elif PART == 3
	octets<0b100011101>(); octets<0b100101011>(); octets<0b100101101>(); octets<0b101001101>();
	octets<0b101011111>(); octets<0b101100011>(); octets<0b101100101>(); octets<0b101101001>();
#elif PART == 4
	octets<0b101110001>(); octets<0b110000111>(); octets<0b110001101>(); octets<0b110101001>();
	octets<0b111000011>(); octets<0b111001111>(); octets<0b111100111>(); octets<0b111110101>();
#elif PART == 5
	{ FIELD(8, 0b100011101, uint8_t)
		go<8, 0b100011101, uint8_t, 16, 0>(4000, 2000, 300);
		go<8, 0b100011101, uint8_t, 32, 112>(1500, 600, 200);
		go<8, 0b100011101, uint8_t, 1, 254>(1500, 1500, 200, true);
		go<8, 0b100011101, uint8_t, 2, 0>(1500, 1500, 200, true);
		go<8, 0b100011101, uint8_t, 3, 1>(1500, 1500, 200);
		go<8, 0b100011101, uint8_t, 254, 0>(60, 40, 100);
		go<8, 0b100011101, uint8_t, 64, 2>(300, 200, 100); }
	{ FIELD(8, 0b110000111, uint16_t) // CCSDS field in a wider type
		go<8, 0b110000111, uint16_t, 32, 112>(800, 500, 200);
		go<8, 0b110000111, uint16_t, 4, 5>(1500, 1500, 200); }
	{ FIELD(9, 0b1000010001, uint16_t)
		go<9, 0b1000010001, uint16_t, 4, 0>(1500, 1000, 100);
		go<9, 0b1000010001, uint16_t, 20, 1>(500, 300, 100); }
	{ FIELD(10, 0b10000001001, uint16_t)
		go<10, 0b10000001001, uint16_t, 5, 3>(1000, 800, 100);
		go<10, 0b10000001001, uint16_t, 30, 0>(200, 150, 60); }
#elif PART == 6
	{ FIELD(11, 0b100000000101, uint16_t) go<11, 0b100000000101, uint16_t, 6, 1>(400, 300, 60); }
	{ FIELD(12, 0b1000001010011, uint16_t) go<12, 0b1000001010011, uint16_t, 8, 0>(250, 200, 40); go<12, 0b1000001010011, uint16_t, 4, 2>(250, 200, 40); }
	{ FIELD(13, 0b10000000011011, uint16_t) go<13, 0b10000000011011, uint16_t, 5, 1>(120, 100, 30); }
	{ FIELD(14, 0b100000000101011, uint16_t) go<14, 0b100000000101011, uint16_t, 4, 0>(80, 60, 20); }
	{ FIELD(15, 0b1000000000000011, uint16_t) go<15, 0b1000000000000011, uint16_t, 4, 1>(40, 30, 16); }
	{ FIELD(16, 0b10001000000001011, uint16_t)
		go<16, 0b10001000000001011, uint16_t, 4, 0>(32, 24, 8);
		go<16, 0b10001000000001011, uint16_t, 11, 1>(16, 16, 8);
		go<16, 0b10001000000001011, uint16_t, 64, 1>(8, 8, 4); }
	{ FIELD(16, 0b10000000000101101, uint32_t) go<16, 0b10000000000101101, uint32_t, 6, 2>(24, 16, 8); }
#elif PART == 7
	{ FIELD(3, 0b1011, uint8_t) sweep<3, 0b1011, uint8_t, 3, 0>(); sweep<3, 0b1011, uint8_t, 4, 0>(); }
	{ FIELD(4, 0b11001, uint8_t) sweep<4, 0b11001, uint8_t, 4, 0>(); }
#elif PART == 8
	{ FIELD(4, 0b10011, uint16_t) sweep<4, 0b10011, uint16_t, 7, 0>(); }
	{ FIELD(9, 0b1000110011, uint16_t)
		go<9, 0b1000110011, uint16_t, 256, 1>(40, 30, 10); }
	{ FIELD(8, 0b101110001, uint8_t)
		go<8, 0b101110001, uint8_t, 8, 127>(600, 300, 60);
		go<8, 0b101110001, uint8_t, 9, 128>(600, 300, 60);
		go<8, 0b101110001, uint8_t, 10, 129>(600, 300, 60);
		go<8, 0b101110001, uint8_t, 8, 200>(600, 300, 60);
		go<8, 0b101110001, uint8_t, 12, 250>(600, 300, 60); }
	{ FIELD(12, 0b1000001010011, uint16_t) go<12, 0b1000001010011, uint16_t, 6, 3000>(150, 100, 20); go<12, 0b1000001010011, uint16_t, 5, 4092>(150, 100, 20); }
	{ FIELD(16, 0b10001000000001011, uint16_t)
		go<16, 0b10001000000001011, uint16_t, 6, 40001>(16, 8, 6);
		go<16, 0b10001000000001011, uint16_t, 5, 65532>(16, 8, 6); }
#endif
	return vh::finish();
}
