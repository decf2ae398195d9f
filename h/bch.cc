// BCH: correction within the radius (C), verdict soundness (V), encoders (E).
#include "vh.hh"
#include "gfref.hh"
#include "galois_field.hh"
#include "bose_chaudhuri_hocquenghem_encoder.hh"
#include "bose_chaudhuri_hocquenghem_decoder.hh"
#ifndef PART
#define PART 0
#endif
using vh::RNG;

template <typename ENC, size_t... I>
static ENC *make_many(const std::vector<int> &m, std::index_sequence<I...>) { return new ENC({m[I]...}); }
template <typename ENC>
static ENC *make(const std::vector<int> &m) {
	switch (m.size()) {
	case 1: return new ENC({m[0]});
	case 2: return new ENC({m[0], m[1]});
	case 3: return new ENC({m[0], m[1], m[2]});
	case 4: return new ENC({m[0], m[1], m[2], m[3]});
	case 5: return new ENC({m[0], m[1], m[2], m[3], m[4]});
	case 6: return new ENC({m[0], m[1], m[2], m[3], m[4], m[5]});
	case 7: return new ENC({m[0], m[1], m[2], m[3], m[4], m[5], m[6]});
	case 8: return new ENC({m[0], m[1], m[2], m[3], m[4], m[5], m[6], m[7]});
	case 9: return new ENC({m[0], m[1], m[2], m[3], m[4], m[5], m[6], m[7], m[8]});
	case 10: return new ENC({m[0], m[1], m[2], m[3], m[4], m[5], m[6], m[7], m[8], m[9]});
	case 12: return new ENC({m[0], m[1], m[2], m[3], m[4], m[5], m[6], m[7], m[8], m[9], m[10], m[11]});
	case 16: return new ENC({m[0], m[1], m[2], m[3], m[4], m[5], m[6], m[7], m[8], m[9], m[10], m[11], m[12], m[13], m[14], m[15]});
	case 92: return make_many<ENC>(m, std::make_index_sequence<92>());
	}
	std::fprintf(stderr, "unsupported number of minimal polynomials %d\n", int(m.size()));
	std::exit(3);
}

// minimal polynomials of alpha^fcr .. alpha^(fcr+nr-1), each once
static std::vector<int> minpolys(const RefField &F, int fcr, int nr) {
	std::set<uint32_t> done;
	std::vector<int> out;
	for (int i = 0; i < nr; ++i) {
		uint32_t e = uint32_t(fcr + i) % F.N;
		if (done.count(e)) continue;
		std::vector<uint32_t> poly(1, 1);
		uint32_t c = e;
		do {
			done.insert(c);
			std::vector<uint32_t> g(poly.size() + 1, 0);
			for (size_t j = 0; j < poly.size(); ++j) { g[j + 1] ^= poly[j]; g[j] ^= F.mul(poly[j], F.pw(c)); }
			poly = g;
			c = uint32_t(uint64_t(c) * 2 % F.N);
		} while (c != e);
		int v = 0;
		for (size_t j = 0; j < poly.size(); ++j) v |= int(poly[j]) << j;
		out.push_back(v);
	}
	return out;
}
static std::vector<uint8_t> product(const std::vector<int> &mp) {
	std::vector<uint8_t> g(1, 1); // ascending
	for (int m : mp) {
		int d = 31 - __builtin_clz(m);
		std::vector<uint8_t> r(g.size() + d, 0);
		for (size_t i = 0; i < g.size(); ++i) if (g[i]) for (int j = 0; j <= d; ++j) r[i + j] ^= (m >> j) & 1;
		g = r;
	}
	return g;
}
static std::vector<uint8_t> remainder(const std::vector<uint8_t> &g, const uint8_t *bits, int dl) {
	int np = int(g.size()) - 1;
	std::vector<uint8_t> w(dl + np, 0);
	for (int i = 0; i < dl; ++i) w[i] = bits[i];
	for (int i = 0; i < dl; ++i) if (w[i]) for (int j = 0; j <= np; ++j) w[i + j] ^= g[np - j];
	return std::vector<uint8_t>(w.begin() + dl, w.end());
}
// messages that leave the register at rest for a while: stretches without feedback, of zeros and of anything
static void quiet(RNG &r, const std::vector<uint8_t> &g, uint8_t *bits, int dl) {
	int np = int(g.size()) - 1, style = 0, left = 0, rest = r.coin() ? int(r.below(np + 9)) : 0;
	std::vector<uint8_t> reg(np, 0);
	for (int i = 0; i < dl; ++i) {
		if (i >= dl - rest) style = 0;	// and at rest at the end
		else if (!left--) { style = int(r.below(3)); left = int(r.below(r.coin() ? np + 9 : 12)); }
		bits[i] = style == 0 ? reg[0] : style == 1 ? 0 : r() & 1;
		bool fb = bits[i] != reg[0];
		for (int j = 0; j < np; ++j) reg[j] = uint8_t((j + 1 < np ? reg[j + 1] : 0) ^ (fb && g[np - 1 - j]));
	}
	vh::count("messages_with_the_register_at_rest");
}
static bool bit(const uint8_t *p, int i) { return (p[i >> 3] >> (7 - (i & 7))) & 1; }
static void put(uint8_t *p, int i, bool v) { p[i >> 3] = uint8_t((p[i >> 3] & ~(0x80 >> (i & 7))) | (v ? 0x80 >> (i & 7) : 0)); }

// packed encoder of any length/generator against schoolbook division
template <int N, int K>
void packed_encoder(const std::vector<int> &mp, int n, const char *what) {
	RNG rng = vh::rng(N * 131 + K);
	const int NP = N - K;
	typedef CODE::BoseChaudhuriHocquenghemEncoder<N, K> ENC;
	std::vector<uint8_t> g = product(mp);
	if (int(g.size()) != NP + 1) { std::fprintf(stderr, "bad configuration %s: degree %d != %d\n", what, int(g.size()) - 1, NP); std::exit(3); }
	ENC *enc = make<ENC>(mp);
	vh::count("encoder_configurations");
	for (int r = 0; r < n; ++r) {
		int dl = r < 12 && r < K ? r + 1 : rng.coin(4) ? K : 1 + int(rng.below(K));
		int D = (dl + 7) / 8, P = (NP + 7) / 8;
		vh::Guarded<uint8_t> d(D), p(P);
		std::vector<uint8_t> keep(D), bits(dl);
		int style = int(rng.below(4));
		for (int i = 0; i < D; ++i) d[i] = style == 0 ? 0 : style == 1 ? 255 : uint8_t(rng());
		if (style == 0) put(d.p, int(rng.below(dl)), 1);
		if (rng.coin(8)) for (int i = 0; i < D; ++i) d[i] = 0;
		if (rng.coin(3)) {
			quiet(rng, g, bits.data(), dl);
			if (dl % 8 && rng.coin()) d[D - 1] = 0;	// the rest of the last byte may be anything
			for (int i = 0; i < dl; ++i) put(d.p, i, bits[i]);
		}
		for (int i = 0; i < D; ++i) keep[i] = d[i];
		for (int i = 0; i < dl; ++i) bits[i] = bit(d.p, i);
		for (int i = 0; i < P; ++i) p[i] = uint8_t(rng());
		vh::crumb("%s encoder<%d,%d> len=%d data=%s", what, N, K, dl, vh::show(keep.data(), D).c_str());
		(*enc)(d.p, p.p, dl);
		std::vector<uint8_t> want = remainder(g, bits.data(), dl);
		bool ok = true;
		for (int i = 0; i < NP; ++i) ok = ok && bit(p.p, i) == bool(want[i]);
		vh::eval();
		vh::distinct(vh::hash_bytes(bits.data(), dl, vh::mix(N, K)));
		vh::check(ok, "bch-encode-parity", "%s <%d,%d> len=%d", what, N, K, dl);
		vh::check(std::equal(keep.begin(), keep.end(), d.p) && d.intact() && p.intact(), "bch-encode-touches-more", "%s <%d,%d> len=%d", what, N, K, dl);
	}
	delete enc;
}

// the workload and the oracle know the code by its parameters only
template <typename TYPE>
struct Base {
	const int M, POLY, NR, FCR, K, N, NP;
	RefField F;
	RNG rng;
	std::vector<int> mp;
	std::vector<uint8_t> g;
	char name[96];
	virtual void enc_packed(const uint8_t *data, uint8_t *parity, int dl) = 0;
	virtual void enc_values(const TYPE *data, TYPE *parity, int dl) = 0;
	virtual int dec_packed(uint8_t *data, uint8_t *parity, TYPE *erasures, int f, int dl) = 0;
	virtual int dec_values(TYPE *data, TYPE *parity, TYPE *erasures, int f, int dl) = 0;
	virtual int syn(const uint8_t *data, const uint8_t *parity, TYPE *syndromes, int dl, bool values) = 0;
	virtual int syn_values(const TYPE *data, const TYPE *parity, TYPE *syndromes, int dl) = 0;
	virtual bool parameters() = 0;
	Base(int M_, int POLY_, int NR_, int FCR_, int K_) : M(M_), POLY(POLY_), NR(NR_), FCR(FCR_), K(K_), N((1 << M_) - 1), NP(N - K_),
		F(M, POLY), rng(vh::rng(vh::mix(M * 1000003 + POLY, NR * 1009 + FCR + 77))) {
		std::snprintf(name, sizeof name, "BCH(%d,%d) GF(2^%d,0x%x) roots %d from %d", N, K, M, POLY, NR, FCR);
		mp = minpolys(F, FCR, NR);
		g = product(mp);
		if (int(g.size()) != NP + 1) { std::fprintf(stderr, "bad configuration %s: degree %d\n", name, int(g.size()) - 1); std::exit(3); }
		vh::count("code_configurations");
	}
	int pick_len() {
		switch (rng.below(6)) {
		case 0: return 1;
		case 1: return K;
		case 2: return 1 + int(rng.below(K < 9 ? K : 9));
		case 3: return K - int(rng.below(K < 9 ? K : 9));
		default: return 1 + int(rng.below(K));
		}
	}
	std::vector<uint8_t> codeword(int dl) {
		std::vector<uint8_t> b(dl);
		int style = int(rng.below(5));
		for (int i = 0; i < dl; ++i) b[i] = style == 0 ? 0 : style == 1 ? 1 : rng() & 1;
		if (style == 4) quiet(rng, g, b.data(), dl);
		std::vector<uint8_t> p = remainder(g, b.data(), dl);
		b.insert(b.end(), p.begin(), p.end());
		return b;
	}
	bool is_codeword(const std::vector<uint8_t> &w) {
		std::vector<uint8_t> t(w);
		int len = int(w.size());
		for (int i = 0; i + NP < len; ++i) if (t[i]) for (int j = 0; j <= NP; ++j) t[i + j] ^= g[NP - j];
		for (int i = len - NP; i < len; ++i) if (t[i]) return false;
		return true;
	}
	void encode_case(int dl) {
		std::vector<uint8_t> cw = codeword(dl);
		vh::Guarded<TYPE> d(dl), p(NP);
		vh::Guarded<uint8_t> pd((dl + 7) / 8), pp((NP + 7) / 8);
		bool blank = rng.coin();
		for (size_t i = 0; i < pd.n; ++i) pd[i] = blank ? 0 : uint8_t(rng());
		for (size_t i = 0; i < pp.n; ++i) pp[i] = uint8_t(rng());
		for (int i = 0; i < dl; ++i) { d[i] = cw[i]; put(pd.p, i, cw[i]); }
		for (int i = 0; i < NP; ++i) p[i] = TYPE(rng() & 1);
		vh::crumb("%s encode len=%d data=%s", name, dl, vh::show(cw.data(), dl, 64).c_str());
		enc_values(d.p, p.p, dl);
		enc_packed(pd.p, pp.p, dl);
		bool a = true, b = true, keep = true;
		for (int i = 0; i < NP; ++i) { a = a && p[i] == cw[dl + i]; b = b && bit(pp.p, i) == bool(cw[dl + i]); }
		for (int i = 0; i < dl; ++i) keep = keep && d[i] == cw[i] && bit(pd.p, i) == bool(cw[i]);
		vh::eval();
		vh::distinct(vh::hash_bytes(cw.data(), dl, vh::mix(POLY, NR * 100 + FCR)));
		vh::check(a, "bch-reference-encode-parity", "%s len=%d", name, dl);
		vh::check(b, "bch-encode-parity", "%s len=%d", name, dl);
		vh::check(keep && d.intact() && p.intact() && pd.intact() && pp.intact(), "bch-encode-touches-more", "%s len=%d", name, dl);
	}
	// which: 0 packed, 1 reference
	void run(const std::vector<uint8_t> &rx, const std::vector<int> &era, int dl, const std::vector<uint8_t> *cw, int wrong, int which) {
		int len = dl + NP, f = int(era.size());
		vh::Guarded<TYPE> er(f);
		for (int i = 0; i < f; ++i) er[i] = TYPE(era[i]);
		TYPE *ep = f || rng.coin() ? er.p : nullptr;
		std::vector<uint8_t> out(len);
		if (len <= 130) vh::crumb("%s %s decode data_len=%d received=%s erasures=%s", name, which ? "reference" : "packed", dl, vh::show(rx.data(), len, 130).c_str(), vh::show(era.data(), f).c_str());
		else vh::crumb("%s %s decode data_len=%d wrong=%d erasures=%s", name, which ? "reference" : "packed", dl, wrong, vh::show(era.data(), f).c_str());
		int ret;
		bool guard, pad = true;
		if (which) {
			vh::Guarded<TYPE> d(dl), p(NP);
			for (int i = 0; i < dl; ++i) d[i] = rx[i];
			for (int i = 0; i < NP; ++i) p[i] = rx[dl + i];
			ret = dec_values(d.p, p.p, ep, f, dl);
			for (int i = 0; i < dl; ++i) { out[i] = uint8_t(d[i]); pad = pad && d[i] <= 1; }
			for (int i = 0; i < NP; ++i) { out[dl + i] = uint8_t(p[i]); pad = pad && p[i] <= 1; }
			guard = d.intact() && p.intact();
		} else {
			vh::Guarded<uint8_t> d((dl + 7) / 8), p((NP + 7) / 8);
			uint8_t junk = uint8_t(rng());
			for (size_t i = 0; i < d.n; ++i) d[i] = junk;
			for (size_t i = 0; i < p.n; ++i) p[i] = junk;
			for (int i = 0; i < dl; ++i) put(d.p, i, rx[i]);
			for (int i = 0; i < NP; ++i) put(p.p, i, rx[dl + i]);
			ret = dec_packed(d.p, p.p, ep, f, dl);
			for (int i = 0; i < dl; ++i) out[i] = bit(d.p, i);
			for (int i = 0; i < NP; ++i) out[dl + i] = bit(p.p, i);
			for (int i = dl; i < int(d.n) * 8; ++i) pad = pad && bit(d.p, i) == bit(&junk, i & 7);
			guard = d.intact() && p.intact();
		}
		vh::eval();
		vh::check(guard && pad && er.intact(), "bch-decode-touches-more", "%s dl=%d", name, dl);
		if (wrong || f) {
			uint64_t h = vh::mix(vh::mix(POLY, NR * 100 + FCR), which);
			h = vh::hash_bytes(rx.data(), len, h);
			for (int e : era) h = vh::mix(h, e);
			vh::distinct(h);
		}
		if (cw) {
			vh::count("within_radius_decodes");
			vh::check(out == *cw, which ? "bch-reference-not-restored" : "bch-not-restored", "%s dl=%d erasures=%d wrong=%d ret=%d", name, dl, f, wrong, ret);
			vh::check(ret == wrong, which ? "bch-reference-correction-count" : "bch-correction-count", "%s dl=%d erasures=%d wrong=%d ret=%d", name, dl, f, wrong, ret);
		}
		if (vh::section("V")) {
			int diff = 0;
			for (int i = 0; i < len; ++i) diff += out[i] != rx[i];
			if (ret < 0) {
				vh::count("verdict_failure");
				vh::check(ret == -1, "bch-verdict-range", "%s ret=%d", name, ret);
				vh::check(diff == 0, "bch-failure-modifies-word", "%s dl=%d erasures=%d changed=%d", name, dl, f, diff);
			} else {
				vh::count(ret ? "verdict_corrected" : "verdict_clean");
				bool ok = is_codeword(out);
				vh::check(ok, "bch-success-non-codeword", "%s dl=%d erasures=%d ret=%d changed=%d", name, dl, f, ret, diff);
				if (ok) vh::check(diff == ret, "bch-verdict-count", "%s dl=%d ret=%d changed=%d", name, dl, ret, diff);
			}
		}
	}
	void pattern(int dl, int e, int f, int style, bool within, int which) {
		int len = dl + NP;
		std::vector<uint8_t> cw = codeword(dl), rx = cw;
		std::vector<int> pos(e + f), era;
		rng.choose(pos.data(), len, e + f);
		if (rng.coin(5)) { int b = int(rng.below(len - (e + f) + 1)); for (int i = 0; i < e + f; ++i) pos[i] = b + i; for (int i = e + f - 1; i > 0; --i) std::swap(pos[i], pos[rng.below(i + 1)]); }
		int wrong = 0;
		for (int i = 0; i < f; ++i) {
			era.push_back(pos[i]);
			if (style == 0) rx[pos[i]] = 0;
			else if (style == 2) rx[pos[i]] ^= 1;
			else if (style == 3) rx[pos[i]] = rng() & 1;
			wrong += rx[pos[i]] != cw[pos[i]];
		}
		for (int i = f; i < e + f; ++i) { rx[pos[i]] ^= 1; ++wrong; }
		run(rx, era, dl, within ? &cw : nullptr, wrong, which);
	}
	// the syndromes alone, by both interfaces
	void syndrome_case(int dl, int kind) {
		int len = dl + NP;
		std::vector<uint8_t> w(len, 0);
		if (kind >= 2) w = codeword(dl);
		if (kind == 1) w[rng.coin() ? rng.below(len) : rng.coin() ? len - 1 : 0] = 1;
		if (kind == 3) w[rng.below(len)] ^= 1;
		if (kind == 4) for (int k = 1 + int(rng.below(6)); k--;) w[rng.below(len)] ^= 1;
		if (kind >= 5) for (int i = 0; i < len; ++i) w[i] = kind == 6 ? 1 : rng() & 1;
		vh::crumb("%s syndromes len=%d word=%s", name, dl, vh::show(w.data(), len, 64).c_str());
		std::vector<uint32_t> want(NR);
		int nonzero = 0;
		for (int i = 0; i < NR; ++i) {
			uint32_t x = F.pw(uint64_t(FCR) + i), a = 0;
			for (int j = 0; j < len; ++j) a = F.mul(a, x) ^ w[j];
			want[i] = a;
			nonzero += !!a;
		}
		vh::Guarded<TYPE> d(dl), p(NP), s(NR), t(NR);
		vh::Guarded<uint8_t> pd((dl + 7) / 8), pp((NP + 7) / 8);
		for (size_t i = 0; i < pd.n; ++i) pd[i] = uint8_t(rng());
		for (size_t i = 0; i < pp.n; ++i) pp[i] = uint8_t(rng());
		for (int i = 0; i < dl; ++i) { d[i] = w[i]; put(pd.p, i, w[i]); }
		for (int i = 0; i < NP; ++i) { p[i] = w[dl + i]; put(pp.p, i, w[dl + i]); }
		for (int i = 0; i < NR; ++i) { s[i] = TYPE(rng.below(uint64_t(N) + 1)); t[i] = TYPE(rng.below(uint64_t(N) + 1)); }
		int got = syn(pd.p, pp.p, s.p, dl, rng.coin()), ref = syn_values(d.p, p.p, t.p, dl);
		int bad = -1, worse = -1;
		for (int i = NR - 1; i >= 0; --i) { if (s[i] != want[i]) bad = i; if (t[i] != want[i]) worse = i; }
		vh::eval(2);
		vh::distinct(vh::hash_bytes(w.data(), len, vh::mix(POLY, NR * 100 + FCR)));
		vh::count(nonzero ? nonzero == NR ? "no_syndrome_zero" : "some_syndromes_zero" : "all_syndromes_zero");
		vh::check(bad < 0, "bch-syndrome", "%s len=%d packed: syndrome %d", name, dl, bad);
		vh::check(worse < 0, "bch-reference-syndrome", "%s len=%d one symbol per bit: syndrome %d", name, dl, worse);
		vh::check(got == nonzero && ref == nonzero, "bch-syndrome-count", "%s len=%d returned %d (packed), %d (symbols), %d are not zero", name, dl, got, ref, nonzero);
		bool kept = d.intact() && p.intact() && s.intact() && t.intact() && pd.intact() && pp.intact();
		for (int i = 0; i < len && kept; ++i) kept = (i < dl ? d[i] : p[i - dl]) == w[i] && bit(i < dl ? pd.p : pp.p, i < dl ? i : i - dl) == bool(w[i]);
		vh::check(kept, "bch-syndrome-touches-more", "%s len=%d", name, dl);
	}
	void all(int nc, int nv, int ne) {
		if (vh::section("E")) vh::check(parameters(), "bch-parameters", "%s announces other dimensions", name);
		if (vh::section("Y")) {
			vh::count("constants_checked");
			vh::check(parameters(), "bch-parameters", "%s announces other dimensions", name);
			for (int i = 0; i < nv / 2 + 24; ++i) syndrome_case(pick_len(), i % 8);
			for (int dl = 1; dl <= K && dl <= 40; ++dl) syndrome_case(dl, int(rng.below(8)));
		}
		if (vh::section("E")) {
			for (int i = 0; i < ne; ++i) encode_case(i < 20 && i < K ? i + 1 : pick_len());
		}
		if (vh::section("C")) {
			for (int which = 0; which < 2; ++which) {
				for (int f = 0; f <= NR; ++f)
					for (int e = 0; 2 * e + f <= NR; ++e) {
						if (N > 5000 && 2 * e + f < NR - 1 && rng.below(12)) continue;
						if (NR > 254 && rng.below(2 * e + f >= NR - 1 ? 8 : 200)) continue;
						int dl = pick_len();
						if (dl + NP < e + f) dl = K;
						pattern(dl, e, f, int(rng.below(4)), true, which);
					}
				for (int i = 0; i < nc; ++i) {
					int e = int(rng.below(NR / 2 + 1)), f = int(rng.below(NR - 2 * e + 1));
					if (rng.coin()) f = NR - 2 * e;
					if (rng.coin(4)) f = 0;
					int dl = pick_len();
					if (dl + NP < e + f) dl = K;
					pattern(dl, e, f, int(rng.below(4)), true, which);
				}
				// every single error and pairs of errors
				for (int i = 0; i < N && N <= 1023; i += NR > 254 ? 50 : 1) {
					if (NR < 2) break;
					std::vector<uint8_t> cw = codeword(K), rx = cw;
					rx[i] ^= 1;
					run(rx, {}, K, &cw, 1, which);
				}
				// cosets of subgroups: most syndromes and locator coefficients vanish
				for (int d = 3; d <= NR && N <= 1023; ++d) {
					if (N % d) continue;
					for (int r = 0; r < (NR > 254 ? 1 : 12); ++r) {
						int e = 2 * d <= NR && rng.coin() ? d : int(rng.below(NR - d + 1)), b = int(rng.below(N)), wrong = 0;
						if (e > d) e = d;
						std::vector<uint8_t> cw = codeword(K), rx = cw;
						std::vector<int> era;
						for (int i = 0; i < d; ++i) {
							int q = (b + i * (N / d)) % N;
							rx[q] ^= 1; ++wrong;
							if (i >= e) era.push_back(q);
						}
						run(rx, era, K, &cw, wrong, which);
						vh::count("coset_patterns");
					}
				}
				int total = N <= 63 ? N * (N - 1) / 2 : N <= 1023 ? 1500 : 6, done = 0;
				for (int a = 0; a < N && NR >= 4 && done < total; ++a)
					for (int b = a + 1; b < N && done < total; ++b) {
						int x = a, y = b;
						if (N > 63) { x = int(rng.below(N)); do y = int(rng.below(N)); while (y == x); }
						std::vector<uint8_t> cw = codeword(K), rx = cw;
						rx[x] ^= 1; rx[y] ^= 1;
						run(rx, {}, K, &cw, 2, which);
						++done;
						vh::count("double_error_pairs");
					}
			}
		}
		if (vh::section("V")) {
			for (int which = 0; which < 2; ++which)
				for (int i = 0; i < nv; ++i) {
					int dl = pick_len(), len = dl + NP;
					int f = rng.coin() ? 0 : int(rng.below(std::min(NR, len) + 1));
					int e = rng.coin() ? std::min(len - f, (NR - f) / 2 + int(rng.below(4))) : int(rng.below(len - f + 1));
					pattern(dl, e, f, int(rng.below(4)), false, which);
				}
			if (NP <= 16) { // every coset
				for (uint32_t c = 0; c < (1u << NP); ++c) {
					if (!vh::mine(c)) continue;
					std::vector<uint8_t> cw = codeword(K), rx = cw;
					for (int i = 0; i < NP; ++i) rx[K + i] ^= (c >> i) & 1;
					run(rx, {}, K, nullptr, 1, int(c & 1));
					vh::count("cosets_enumerated");
				}
			}
		}
	}
};
// number of message bits from the cyclotomic cosets of the roots
constexpr int messages(int M, int NR, int FCR) {
	int N = (1 << M) - 1, np = 0;
	for (int e = 0; e < N; ++e) {
		int c = e;
		bool hit = false;
		do {
			for (int i = 0; i < NR; ++i) hit = hit || (FCR + i) % N == c;
			c = c * 2 % N;
		} while (c != e);
		np += hit;
	}
	return N - np;
}
template <int M_, int POLY_, typename TYPE, int NR_, int FCR_, int K_>
struct BCH final : Base<TYPE> {
	static_assert(K_ > 0, "no message bits");
	typedef CODE::GaloisField<M_, POLY_, TYPE> GF;
	typedef CODE::BoseChaudhuriHocquenghemEncoder<GF::N, K_> ENC;
	typedef CODE::BoseChaudhuriHocquenghemDecoder<NR_, FCR_, K_, GF> DEC;
	typedef CODE::BoseChaudhuriHocquenghemEncoderReference<NR_, FCR_, K_, GF> ENCR;
	typedef CODE::BoseChaudhuriHocquenghemDecoderReference<NR_, FCR_, K_, GF> DECR;
	typedef typename GF::ValueType VT;
	typedef typename GF::IndexType IT;
	GF *inst;
	ENC *enc; ENCR *encr; DEC *dec; DECR *decr;
	BCH() : Base<TYPE>(M_, POLY_, NR_, FCR_, K_) { inst = new GF; enc = make<ENC>(this->mp); encr = make<ENCR>(this->mp); dec = new DEC; decr = new DECR; }
	~BCH() { delete enc; delete encr; delete dec; delete decr; delete inst; }
	bool flip = false; // the full length is the default: say it, or leave it out
	bool def(int dl) { return dl == K_ && (flip = !flip); }
	void enc_packed(const uint8_t *data, uint8_t *parity, int dl) override { if (def(dl)) (*enc)(data, parity); else (*enc)(data, parity, dl); }
	void enc_values(const TYPE *data, TYPE *parity, int dl) override {
		const VT *d = reinterpret_cast<const VT *>(data);
		VT *p = reinterpret_cast<VT *>(parity);
		if (def(dl)) (*encr)(d, p); else (*encr)(d, p, dl);
	}
	int dec_packed(uint8_t *data, uint8_t *parity, TYPE *erasures, int f, int dl) override {
		if (def(dl)) return f ? (*dec)(data, parity, erasures, f) : (*dec)(data, parity);
		return (*dec)(data, parity, erasures, f, dl);
	}
	int dec_values(TYPE *data, TYPE *parity, TYPE *erasures, int f, int dl) override {
		VT *d = reinterpret_cast<VT *>(data), *p = reinterpret_cast<VT *>(parity);
		IT *e = reinterpret_cast<IT *>(erasures);
		if (def(dl)) return f ? (*decr)(d, p, e, f) : (*decr)(d, p);
		return (*decr)(d, p, e, f, dl);
	}
	int syn(const uint8_t *data, const uint8_t *parity, TYPE *syndromes, int dl, bool values) override {
		VT *s = reinterpret_cast<VT *>(syndromes);
		if (def(dl)) return values ? dec->compute_syndromes(data, parity, s) : dec->compute_syndromes(data, parity, syndromes);
		return values ? dec->compute_syndromes(data, parity, s, dl) : dec->compute_syndromes(data, parity, syndromes, dl);
	}
	int syn_values(const TYPE *data, const TYPE *parity, TYPE *syndromes, int dl) override {
		const VT *d = reinterpret_cast<const VT *>(data), *p = reinterpret_cast<const VT *>(parity);
		VT *s = reinterpret_cast<VT *>(syndromes);
		return def(dl) ? decr->compute_syndromes(d, p, s) : decr->compute_syndromes(d, p, s, dl);
	}
	bool parameters() override {
		return int(ENC::N) == GF::N && int(ENC::K) == K_ && int(ENC::NP) == GF::N - K_ && int(DEC::N) == GF::N && int(DEC::K) == K_ && int(DEC::NP) == GF::N - K_ && int(DEC::NR) == NR_ &&
			int(ENCR::N) == GF::N && int(ENCR::K) == K_ && int(ENCR::NP) == GF::N - K_ && int(ENCR::NR) == NR_ && int(DECR::N) == GF::N && int(DECR::K) == K_ && int(DECR::NP) == GF::N - K_ && int(DECR::NR) == NR_;
	}
};
template <int M, int POLY, typename TYPE, int NR, int FCR, int K>
void go(int nc, int nv, int ne) {
	BCH<M, POLY, TYPE, NR, FCR, K> t;
	t.all(vh::reps(nc, nc * 25.), vh::reps(nv, nv * 25.), vh::reps(ne, ne * 20.));
}

template <int M, int POLY, typename TYPE, int NR, int FCR>
void any(int n) { go<M, POLY, TYPE, NR, FCR, messages(M, NR, FCR)>(n, n, n / 4); }

// every first root
template <int M, int POLY, typename TYPE, int NR, int FCR>
void sweep(int n) {
	if constexpr (messages(M, NR, FCR) > 0) any<M, POLY, TYPE, NR, FCR>(n);
	if constexpr (FCR + 2 < (1 << M)) sweep<M, POLY, TYPE, NR, FCR + 1>(n);
}

// encoders of the same length with different generators used in turns
template <int N, int K>
void two_generators(const std::vector<int> &a, const std::vector<int> &b, int n) {
	RNG rng = vh::rng(N * 77 + K);
	typedef CODE::BoseChaudhuriHocquenghemEncoder<N, K> ENC;
	ENC *enc[2] = {make<ENC>(a), make<ENC>(b)};
	std::vector<uint8_t> g[2] = {product(a), product(b)};
	const int NP = N - K;
	for (int r = 0; r < n; ++r) {
		int w = int(rng.below(2)), dl = 1 + int(rng.below(K)), D = (dl + 7) / 8;
		if (r % 50 == 49) { int o = int(rng.below(2)); delete enc[o]; enc[o] = make<ENC>(o ? b : a); }
		vh::Guarded<uint8_t> d(D), p((NP + 7) / 8);
		std::vector<uint8_t> bits(dl);
		for (int i = 0; i < D; ++i) d[i] = uint8_t(rng());
		for (int i = 0; i < dl; ++i) bits[i] = bit(d.p, i);
		vh::crumb("one of two encoders<%d,%d> len=%d", N, K, dl);
		(*enc[w])(d.p, p.p, dl);
		std::vector<uint8_t> want = remainder(g[w], bits.data(), dl);
		bool ok = true;
		for (int i = 0; i < NP; ++i) ok = ok && bit(p.p, i) == bool(want[i]);
		vh::eval();
		vh::distinct(vh::hash_bytes(bits.data(), dl, vh::mix(N * 2 + w, K)));
		vh::check(ok, "bch-encoders-disturb-each-other", "<%d,%d> len=%d", N, K, dl);
	}
	delete enc[0]; delete enc[1];
}
template <int M, int P1, int P2, int NR, int FCR>
void two_references(int n) {
	const int K = messages(M, NR, FCR), N = (1 << M) - 1, NP = N - K;
	typedef CODE::GaloisField<M, P1, uint8_t> GF;
	typedef CODE::BoseChaudhuriHocquenghemEncoderReference<NR, FCR, K, GF> ENC;
	typedef typename GF::ValueType VT;
	RNG rng = vh::rng(N * 79 + K);
	GF *inst = new GF;
	std::vector<int> mp[2] = {minpolys(RefField(M, P1), FCR, NR), minpolys(RefField(M, P2), FCR, NR)};
	std::vector<uint8_t> g[2] = {product(mp[0]), product(mp[1])};
	ENC *enc[2] = {make<ENC>(mp[0]), make<ENC>(mp[1])};
	for (int r = 0; r < n; ++r) {
		int w = int(rng.below(2)), dl = 1 + int(rng.below(K));
		vh::Guarded<uint8_t> d(dl), p(NP);
		for (int i = 0; i < dl; ++i) d[i] = rng() & 1;
		vh::crumb("one of two reference encoders<%d,%d> len=%d", N, K, dl);
		(*enc[w])(reinterpret_cast<const VT *>(d.p), reinterpret_cast<VT *>(p.p), dl);
		std::vector<uint8_t> want = remainder(g[w], d.p, dl);
		vh::eval();
		vh::distinct(vh::hash_bytes(d.p, dl, vh::mix(N * 2 + w + 1000, K)));
		vh::check(std::equal(want.begin(), want.end(), p.p), "bch-encoders-disturb-each-other", "reference <%d,%d> len=%d", N, K, dl);
	}
	delete enc[0]; delete enc[1]; delete inst;
}

int main(int argc, char **argv) {
	vh::init(argc, argv);
#if PART == 0
	go<3, 0b1011, uint8_t, 2, 1, 4>(3000, 3000, 300);
	go<3, 0b1011, uint8_t, 3, 0, 3>(3000, 3000, 300);
	go<3, 0b1101, uint8_t, 6, 1, 1>(3000, 3000, 300);
	go<4, 0b10011, uint8_t, 2, 1, 11>(3000, 3000, 300);
	go<4, 0b10011, uint8_t, 4, 1, 7>(6000, 6000, 600);
	go<4, 0b10011, uint8_t, 6, 1, 5>(6000, 6000, 600);
	go<4, 0b10011, uint8_t, 14, 1, 1>(3000, 3000, 300);
	go<4, 0b11001, uint8_t, 3, 0, 10>(3000, 3000, 300);
	go<4, 0b11001, uint8_t, 5, 0, 6>(3000, 3000, 300);
	go<4, 0b10011, uint16_t, 7, 0, 4>(3000, 3000, 300);
#elif PART == 1
	go<5, 0b100101, uint8_t, 2, 1, 26>(2000, 2000, 300);
	go<5, 0b100101, uint8_t, 4, 1, 21>(4000, 4000, 300);
	go<5, 0b100101, uint8_t, 6, 1, 16>(3000, 3000, 300);
	go<5, 0b101111, uint8_t, 10, 1, 11>(3000, 3000, 300);
	go<5, 0b111101, uint8_t, 14, 1, 6>(3000, 3000, 300);
	go<5, 0b110111, uint8_t, 5, 0, 20>(3000, 3000, 300);
	go<5, 0b101001, uint8_t, 4, 28, 20>(3000, 3000, 300);
	go<6, 0b1000011, uint8_t, 4, 1, 51>(2000, 2000, 300);
	go<6, 0b1101101, uint8_t, 8, 1, 39>(2000, 2000, 300);
	go<6, 0b1011011, uint8_t, 20, 1, 18>(2000, 2000, 300);
#elif PART == 2
	go<7, 0b10001001, uint8_t, 20, 1, 64>(1500, 1500, 200);
	go<7, 0b10000011, uint8_t, 4, 1, 113>(1500, 1500, 200);
	go<7, 0b10111111, uint8_t, 12, 1, 85>(1000, 1000, 200);
	go<8, 0b100011101, uint8_t, 36, 1, 131>(500, 500, 200);
	go<8, 0b100101011, uint8_t, 4, 1, 239>(1000, 1000, 200);
	go<8, 0b101101001, uint8_t, 10, 1, 215>(600, 600, 200);
	go<8, 0b100011101, uint16_t, 5, 0, 238>(600, 600, 200);
#elif PART == 3
	go<9, 0b1000010001, uint16_t, 4, 1, 493>(600, 600, 100);
	go<10, 0b10000001001, uint16_t, 16, 1, 943>(200, 200, 60);
	go<14, 0b100000000101011, uint16_t, 24, 1, 16215>(12, 16, 24);
	go<15, 0b1000000000101101, uint16_t, 24, 1, 32587>(8, 10, 10);
#elif PART == 4
	go<16, 0b10000000000101101, uint16_t, 24, 1, 65343>(4, 6, 8);
	// encoders of other lengths: parity widths around byte boundaries
	if (vh::section("E")) {
		packed_encoder<12, 11>({0b11}, vh::reps(400, 8000), "parity bit");
		packed_encoder<7, 4>({0b1011}, vh::reps(400, 8000), "hamming");
		packed_encoder<40, 33>({0b11, 0b1000011}, vh::reps(400, 8000), "7 parity bits");
		packed_encoder<30, 22>({0b100000111}, vh::reps(400, 8000), "crc8");
		packed_encoder<30, 21>({0b11, 0b100011101}, vh::reps(400, 8000), "9 parity bits");
		packed_encoder<23, 12>({0b101011100011}, vh::reps(400, 8000), "golay");
		packed_encoder<100, 85>({0b1000000000000011}, vh::reps(300, 6000), "15 parity bits");
		packed_encoder<100, 84>({0b10001000000100001}, vh::reps(300, 6000), "crc16");
		packed_encoder<100, 83>({0b11, 0b10001000000100001}, vh::reps(300, 6000), "17 parity bits");
		packed_encoder<200, 176>({0b1100001100100110011111011}, vh::reps(300, 6000), "crc24");
		packed_encoder<250, 219>({0b10001000000100001, 0b1000000000000011}, vh::reps(300, 6000), "31 parity bits");
		packed_encoder<250, 218>({0b10001000000100001, 0b10001000000001011}, vh::reps(300, 6000), "32 parity bits");
		packed_encoder<250, 217>({0b11, 0b10001000000100001, 0b10001000000001011}, vh::reps(300, 6000), "33 parity bits");
		packed_encoder<77, 57>({0b100101, 0b111101, 0b110111, 0b101111}, vh::reps(300, 6000), "20 parity bits");
		packed_encoder<50, 38>({0b1000011, 0b1010111}, vh::reps(300, 6000), "12 parity bits");
	}
	if (vh::section("E")) {
		two_generators<15, 7>(minpolys(RefField(4, 0b10011), 1, 4), minpolys(RefField(4, 0b11001), 1, 4), vh::reps(1000, 20000));
		two_generators<31, 21>(minpolys(RefField(5, 0b100101), 1, 4), minpolys(RefField(5, 0b111101), 1, 4), vh::reps(1000, 20000));
		two_generators<127, 113>(minpolys(RefField(7, 0b10001001), 1, 4), minpolys(RefField(7, 0b10111111), 1, 4), vh::reps(1000, 20000));
		two_references<4, 0b10011, 0b11001, 4, 1>(vh::reps(1000, 20000));
		two_references<6, 0b1000011, 0b1101101, 4, 1>(vh::reps(1000, 20000));
	}
#elif PART == 5
	go<10, 0b10000001001, uint16_t, 256, 1, 123>(40, 30, 10);
	any<3, 0b1011, uint8_t, 2, 2>(400); any<3, 0b1011, uint8_t, 2, 3>(400); any<3, 0b1101, uint8_t, 2, 5>(400); any<3, 0b1011, uint8_t, 3, 3>(400);
	any<3, 0b1011, uint16_t, 1, 0>(400); any<3, 0b1101, uint8_t, 2, 6>(400);
	any<4, 0b10011, uint8_t, 2, 3>(600); any<4, 0b11001, uint8_t, 2, 5>(600); any<4, 0b10011, uint8_t, 2, 7>(600); any<4, 0b10011, uint8_t, 3, 9>(600);
	any<4, 0b10011, uint8_t, 4, 10>(600); any<4, 0b11001, uint8_t, 1, 5>(600); any<4, 0b10011, uint8_t, 4, 13>(600); any<4, 0b11001, uint16_t, 6, 12>(600);
	any<4, 0b10011, uint8_t, 2, 11>(600); any<4, 0b10011, uint8_t, 1, 10>(600);
	any<5, 0b100101, uint8_t, 3, 7>(600); any<5, 0b111011, uint8_t, 4, 15>(600); any<5, 0b101111, uint8_t, 6, 30>(600); any<5, 0b100101, uint16_t, 5, 11>(600);
#elif PART == 6
	sweep<4, 0b10011, uint8_t, 3, 0>(200); sweep<5, 0b110111, uint8_t, 4, 0>(100);
	any<6, 0b1000011, uint8_t, 2, 20>(600); any<6, 0b1000011, uint8_t, 2, 21>(600); any<6, 0b1101101, uint8_t, 3, 8>(600); any<6, 0b1011011, uint8_t, 1, 9>(600);
	any<6, 0b1100001, uint8_t, 5, 60>(600); any<6, 0b1110011, uint8_t, 6, 27>(600); any<6, 0b1100111, uint16_t, 4, 41>(600);
	any<8, 0b100011101, uint8_t, 2, 84>(300); any<8, 0b101110001, uint8_t, 3, 17>(300); any<8, 0b100101101, uint8_t, 4, 51>(300); any<8, 0b110001101, uint8_t, 5, 252>(300);
	any<8, 0b100011101, uint8_t, 7, 3>(300); any<8, 0b111100111, uint8_t, 4, 119>(300);
	any<9, 0b1000010001, uint16_t, 2, 73>(200); any<9, 0b1000010001, uint16_t, 3, 219>(200);
	any<10, 0b10000001001, uint16_t, 2, 33>(120); any<10, 0b10000001001, uint16_t, 2, 341>(120);
	any<12, 0b1000001010011, uint16_t, 4, 5>(40); any<12, 0b1000001010011, uint16_t, 2, 585>(40); any<12, 0b1000001010011, uint16_t, 3, 1364>(40);
#endif
	return vh::finish();
}
