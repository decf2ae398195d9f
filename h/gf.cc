// Galois field tables (T), bitwise reference field (R), prime fields (P).
#include "vh.hh"
#include "gfref.hh"
#include "galois_field.hh"
#include "prime_field.hh"
#ifndef PART
#define PART 0
#endif
using vh::RNG;

static uint64_t clmulmod(uint64_t a, uint64_t b, int m, uint64_t poly) {
	unsigned __int128 p = 0;
	for (int i = 0; i < m; ++i) if ((b >> i) & 1) p ^= (unsigned __int128)a << i;
	for (int i = 2 * m - 2; i >= m; --i) if ((uint64_t)(p >> i) & 1) p ^= (unsigned __int128)poly << (i - m);
	return uint64_t(p);
}

// table based field, on one instance
template <int M, int POLY, typename TYPE>
struct Tab {
	typedef CODE::GaloisField<M, POLY, TYPE> GF;
	typedef typename GF::ValueType V;
	typedef typename GF::IndexType I;
	typedef CODE::GaloisFieldReference<M, POLY, TYPE> R;
	static const int Q = GF::Q, N = GF::N;
	RefField F;
	char name[64];
	Tab() : F(M, POLY) { std::snprintf(name, sizeof name, "GF(2^%d,0x%x) u%d", M, POLY, int(8 * sizeof(TYPE))); vh::count("fields"); }
	static void bad(bool ok, const char *key, const char *name, uint32_t a, uint32_t b, uint32_t c, uint32_t got, uint32_t want) {
		if (__builtin_expect(!ok, 0)) vh::check(false, key, "%s a=%u b=%u c=%u got=%u want=%u", name, a, b, c, got, want);
	}
#define EQ(expr, want, key) do { uint32_t g_ = uint32_t(expr), w_ = uint32_t(want); bad(g_ == w_, key, name, a, b, c, g_, w_); } while (0)
	void pair(uint32_t a, uint32_t b) {
		uint32_t c = 0;
		uint32_t prod = F.slow(a, b);
		V va{TYPE(a)}, vb{TYPE(b)};
		R ra{TYPE(a)}, rb{TYPE(b)};
		EQ((va * vb).v, prod, "gf-mul");
		EQ((va + vb).v, a ^ b, "gf-add");
		EQ((va - vb).v, a ^ b, "gf-sub");
		EQ((-va).v, a, "gf-neg");
		EQ((ra * rb).v, prod, "gfref-mul");
		EQ((ra + rb).v, a ^ b, "gfref-add");
		EQ((ra - rb).v, a ^ b, "gfref-sub");
		EQ((-ra).v, a, "gfref-neg");
		EQ(va == vb, a == b, "gf-eq"); EQ(va != vb, a != b, "gf-ne");
		EQ(ra == rb, a == b, "gfref-eq"); EQ(ra != rb, a != b, "gfref-ne");
		{ V t(va); EQ((t *= vb).v, prod, "gf-mul-assign"); EQ(t.v, prod, "gf-mul-assign"); }
		{ V t(va); EQ((t += vb).v, a ^ b, "gf-add-assign"); EQ(t.v, a ^ b, "gf-add-assign"); }
		{ R t(ra); EQ((t *= rb).v, prod, "gfref-mul-assign"); EQ(t.v, prod, "gfref-mul-assign"); }
		{ R t(ra); EQ((t += rb).v, a ^ b, "gfref-add-assign"); EQ(t.v, a ^ b, "gfref-add-assign"); }
		EQ(bool(va), a != 0, "gf-bool"); EQ(int(va), a, "gf-int");
		if (b) {
			// quotient: the value that times b gives a
			V q = va / vb;
			EQ(F.slow(q.v, b), a, "gf-div");
			R rq = ra / rb;
			EQ(F.slow(rq.v, b), a, "gfref-div");
			EQ(rq.v, q.v, "gf-div-disagree");
			I ib = index(vb);
			EQ((va * ib).v, prod, "gf-mul-value-index");
			EQ((ib * va).v, prod, "gf-mul-index-value");
			EQ(F.slow((va / ib).v, b), a, "gf-div-value-index");
			{ V t(va); EQ((t *= ib).v, prod, "gf-mul-assign-index"); EQ(t.v, prod, "gf-mul-assign-index"); }
			if (a) {
				I ia = index(va);
				EQ(value(ia * ib).v, prod, "gf-mul-index");
				EQ(F.slow(value(ia / ib).v, b), a, "gf-div-index");
				EQ(F.slow((ia / vb).v, b), a, "gf-div-index-value");
				{ I t(ia); t *= ib; EQ(value(t).v, prod, "gf-mul-assign-index2"); }
				{ I t(ia); t /= ib; EQ(F.slow(value(t).v, b), a, "gf-div-assign-index"); }
			}
		}
		vh::eval();
	}
	void triple(uint32_t a, uint32_t b, uint32_t c) {
		uint32_t want = F.slow(a, b) ^ c;
		V va{TYPE(a)}, vb{TYPE(b)}, vc{TYPE(c)};
		EQ(fma(va, vb, vc).v, want, "gf-fma");
		EQ((va * (vb + vc)).v, F.slow(a, b) ^ F.slow(a, c), "gf-distributive");
		if (a) EQ(fma(index(va), vb, vc).v, want, "gf-fma-index-value");
		if (b) EQ(fma(va, index(vb), vc).v, want, "gf-fma-value-index");
		if (a && b) EQ(fma(index(va), index(vb), vc).v, want, "gf-fma-index-index");
		vh::eval();
	}
	void singles() {
		uint32_t b = 0, c = 0;
		std::vector<uint8_t> hit(Q, 0);
		for (uint32_t a = 1; a < uint32_t(Q); ++a) {
			V va{TYPE(a)};
			I ia = index(va);
			EQ(ia.i < uint32_t(N), 1, "gf-index-range");
			EQ(int(ia), ia.i, "gf-index-int");
			EQ(hit[ia.i], 0, "gf-index-bijective");
			hit[ia.i] = 1;
			EQ(value(ia).v, a, "gf-index-value-roundtrip");
			EQ(F.slow(rcp(va).v, a), 1, "gf-rcp");
			EQ(F.slow(value(rcp(ia)).v, a), 1, "gf-rcp-index");
			EQ(F.slow(rcp(R{TYPE(a)}).v, a), 1, "gfref-rcp");
			EQ(value(ia).v, F.ex[ia.i], "gf-index-is-log");
			vh::eval();
		}
		uint32_t a = 0;
		EQ(V::zero().v, 0, "gf-zero");
		EQ(value(I(0)).v, 1, "gf-one");
	}
	void exhaustive(int triples) {
		GF *g = new GF;
		RNG rng = vh::rng(vh::mix(M, POLY));
		vh::crumb("%s all single operands", name);
		singles();
		for (uint32_t a = 0; a < uint32_t(Q); ++a) {
			vh::crumb("%s all pairs with a=%u", name, a);
			for (uint32_t b = 0; b < uint32_t(Q); ++b) pair(a, b);
			vh::distinct(vh::mix(vh::mix(M, POLY), a));
		}
		vh::count("fields_with_all_pairs");
		if (M <= 5) {
			for (uint32_t a = 0; a < uint32_t(Q); ++a) for (uint32_t b = 0; b < uint32_t(Q); ++b) for (uint32_t c = 0; c < uint32_t(Q); ++c) triple(a, b, c);
		} else for (int i = 0; i < triples; ++i) { uint32_t a = rng.below(Q), b = rng.below(Q), c = rng.below(Q); vh::distinct(vh::mix(vh::mix(vh::mix(POLY, a), b), c)); triple(a, b, c); }
		delete g;
		GF *h = new GF; // a second life of the tables
		for (int i = 0; i < 200; ++i) pair(rng.below(Q), rng.below(Q));
		delete h;
	}
	void sampled(int pairs, int triples) {
		GF *g = new GF;
		RNG rng = vh::rng(vh::mix(M, POLY));
		vh::crumb("%s all single operands", name);
		singles();
		std::vector<uint32_t> corner = {0, 1, 2, 3, uint32_t(N), uint32_t(N - 1), uint32_t(Q / 2), uint32_t(Q / 2 - 1), uint32_t(Q / 2 + 1), uint32_t(POLY & N), F.ex[N - 1], F.ex[N - 2], F.ex[N / 2], F.ex[N / 2 + 1]};
		for (uint32_t a : corner) { vh::crumb("%s corner a=%u", name, a); for (uint32_t b : corner) { pair(a, b); for (uint32_t c : corner) triple(a, b, c); } }
		for (uint32_t a : corner) { vh::crumb("%s row a=%u", name, a); for (uint32_t b = 0; b < uint32_t(Q); ++b) pair(a, b); }
		for (uint32_t a = 1; a < uint32_t(Q); ++a) { uint32_t s = F.ex[N - F.lg[a]]; pair(a, s); pair(a, a); } // index sums around the modulus
		for (uint32_t i = 0; i < uint32_t(N); ++i) { // a*b with index sum N-1, N, N+1
			uint32_t a = F.ex[i], b1 = F.ex[(2 * N - 1 - i) % N], b2 = F.ex[(2 * N + 1 - i) % N];
			pair(a, b1); pair(a, b2);
		}
		for (int i = 0; i < pairs; ++i) {
			uint32_t a = rng.below(Q), b = rng.below(Q);
			if (!(i & 1023)) vh::crumb("%s random pairs from a=%u b=%u", name, a, b);
			vh::distinct(vh::mix(vh::mix(POLY, a), b));
			pair(a, b);
		}
		for (int i = 0; i < triples; ++i) { uint32_t a = rng.below(Q), b = rng.below(Q), c = rng.below(Q); triple(a, b, c); }
		delete g;
	}
};
template <int M, int POLY, typename TYPE> void ex() { Tab<M, POLY, TYPE> t; t.exhaustive(vh::reps(20000, 400000)); }
template <int M, int POLY, typename TYPE> void sa() { Tab<M, POLY, TYPE> t; t.sampled(vh::reps(400000, 20000000.), vh::reps(50000, 2000000)); }

// bitwise field without tables, up to 32 bits wide
template <int M, int64_t POLY, typename TYPE>
void ref(int n) {
	typedef CODE::GaloisFieldReference<M, POLY, TYPE> R;
	char name[64];
	std::snprintf(name, sizeof name, "GFRef(2^%d,0x%llx) u%d", M, (long long)POLY, int(8 * sizeof(TYPE)));
	const uint64_t N = (uint64_t(1) << M) - 1;
	RNG rng = vh::rng(vh::mix(M, POLY));
	vh::count("reference_fields");
	std::vector<uint64_t> corner = {0, 1, 2, 3, N, N - 1, N / 2, N / 2 + 1, N / 2 + 2, uint64_t(POLY) & N, (uint64_t(POLY) & N) >> 1};
	for (int i = 0; i < n; ++i) {
		uint64_t a = rng() & N, b = rng() & N;
		if (i < int(corner.size() * corner.size())) { a = corner[i / corner.size()]; b = corner[i % corner.size()]; }
		else if (rng.coin(4)) a >>= rng.below(M);
		else if (rng.coin(4)) b >>= rng.below(M);
		else if (rng.coin(8)) a = uint64_t(1) << rng.below(M);
		a &= N; b &= N;
		uint64_t want = clmulmod(a, b, M, POLY);
		R ra{TYPE(a)}, rb{TYPE(b)};
		vh::crumb("%s a=%llu b=%llu", name, (long long)a, (long long)b);
		vh::check((ra * rb).v == want, "gfref-mul", "%s a=%llu b=%llu got=%llu want=%llu", name, (long long)a, (long long)b, (long long)(ra * rb).v, (long long)want);
		vh::check((ra + rb).v == (a ^ b) && (ra - rb).v == (a ^ b) && (-ra).v == a, "gfref-add", "%s a=%llu b=%llu", name, (long long)a, (long long)b);
		{ R t(ra); t *= rb; vh::check(t.v == want, "gfref-mul-assign", "%s", name); }
		{ R t(ra); t += rb; vh::check(t.v == (a ^ b), "gfref-add-assign", "%s", name); }
		vh::check((ra == rb) == (a == b) && (ra != rb) == (a != b), "gfref-eq", "%s", name);
		if (a) {
			uint64_t r = rcp(ra).v;
			vh::check(r <= N && clmulmod(r, a, M, POLY) == 1, "gfref-rcp", "%s a=%llu got=%llu", name, (long long)a, (long long)r);
		}
		if (b) {
			uint64_t q = (ra / rb).v;
			vh::check(q <= N && clmulmod(q, b, M, POLY) == a, "gfref-div", "%s a=%llu b=%llu got=%llu", name, (long long)a, (long long)b, (long long)q);
		}
		vh::eval();
		vh::distinct(vh::mix(vh::mix(POLY, a), b));
	}
}

// integers modulo a prime
template <typename TYPE, TYPE P>
struct Prime {
	typedef CODE::PrimeField<TYPE, P> PF;
	char name[48];
	static uint64_t mulm(uint64_t a, uint64_t b) { return uint64_t((unsigned __int128)a * b % P); }
	static uint64_t powm(uint64_t a, uint64_t e) { uint64_t r = 1 % P; for (; e; e >>= 1, a = mulm(a, a)) if (e & 1) r = mulm(r, a); return r; }
	void chk(bool ok, const char *key, uint64_t a, uint64_t b, uint64_t got) { if (__builtin_expect(!ok, 0)) vh::check(false, key, "%s a=%llu b=%llu got=%llu", name, (long long)a, (long long)b, (long long)got); }
	void pair(uint64_t a, uint64_t b) {
		PF x{TYPE(a)}, y{TYPE(b)};
		uint64_t s = (a + b) % P, d = (a + (P - b)) % P, m = mulm(a, b), n = (P - a) % P;
		chk((x + y)() == s, "pf-add", a, b, (x + y)());
		chk((x - y)() == d, "pf-sub", a, b, (x - y)());
		chk((x * y)() == m, "pf-mul", a, b, (x * y)());
		chk((-x)() == n, "pf-neg", a, b, (-x)());
		// unreduced forms are congruent
		chk(reduce(add(x, y))() == s, "pf-lazy-add", a, b, add(x, y)());
		chk(reduce(sub(x, y))() == d, "pf-lazy-sub", a, b, sub(x, y)());
		chk(reduce(mul(x, y))() == m, "pf-lazy-mul", a, b, mul(x, y)());
		chk(reduce(neg(x))() == n, "pf-lazy-neg", a, b, neg(x)());
		chk((x == y) == (a == b) && (x != y) == (a != b), "pf-eq", a, b, 0);
		{ PF t(x); t += y; chk(t() == s, "pf-add-assign", a, b, t()); }
		{ PF t(x); t -= y; chk(t() == d, "pf-sub-assign", a, b, t()); }
		{ PF t(x); t *= y; chk(t() == m, "pf-mul-assign", a, b, t()); }
		if (b) {
			uint64_t q = (x / y)();
			chk(q < P && mulm(q, b) == a, "pf-div", a, b, q);
			{ PF t(x); t /= y; chk(t() == q, "pf-div-assign", a, b, t()); }
			chk(reduce(div(x, y))() == q, "pf-lazy-div", a, b, q);
			uint64_t r = rcp(y)();
			chk(r < P && mulm(r, b) == 1 % P, "pf-rcp", a, b, r);
		}
		vh::eval();
	}
	void power(uint64_t a, uint64_t e) {
		uint64_t got = pow(PF(TYPE(a)), TYPE(e))();
		chk(got == powm(a, e), "pf-pow", a, e, got);
		vh::eval();
	}
	void all(int n) {
		std::snprintf(name, sizeof name, "GF(%llu) u%d", (long long)P, int(8 * sizeof(TYPE)));
		vh::count("prime_fields");
		RNG rng = vh::rng(uint64_t(P) * 8 + sizeof(TYPE));
		uint64_t lim = std::numeric_limits<TYPE>::max();
		if (P <= 1024) {
			for (uint64_t a = 0; a < P; ++a) { vh::crumb("%s all pairs with a=%llu", name, (long long)a); for (uint64_t b = 0; b < P; ++b) { pair(a, b); power(a, b); vh::distinct(vh::mix(vh::mix(P, a), b)); } }
			vh::count("prime_fields_with_all_pairs");
		}
		std::vector<uint64_t> corner = {0, 1, 2 % P, uint64_t(P - 1), uint64_t(P - 2), uint64_t(P / 2), uint64_t(P / 2 + 1) % P};
		for (uint64_t a : corner) for (uint64_t b : corner) { vh::crumb("%s corner %llu %llu", name, (long long)a, (long long)b); pair(a, b); power(a, lim - b); power(a, b); }
		for (int i = 0; i < n; ++i) {
			uint64_t a = rng.coin(6) ? P - 1 - rng.below(std::min<uint64_t>(P, 8)) : rng.below(P), b = rng.coin(6) ? rng.below(std::min<uint64_t>(P, 8)) : rng.below(P);
			vh::crumb("%s a=%llu b=%llu", name, (long long)a, (long long)b);
			pair(a, b);
			power(a, rng() & lim);
			uint64_t v = rng() & lim; // reduction of any representable value
			chk(reduce(PF(TYPE(v)))() == v % P, "pf-reduce", v, 0, reduce(PF(TYPE(v)))());
			vh::distinct(vh::mix(vh::mix(P, a), b));
		}
	}
};
template <typename TYPE, TYPE P> void pf() { Prime<TYPE, P> t; t.all(vh::reps(60000, 4000000)); }

int main(int argc, char **argv) {
	vh::init(argc, argv);
#if PART == 0
	ex<2, 0b111, uint8_t>(); ex<3, 0b1011, uint8_t>(); ex<3, 0b1101, uint8_t>(); ex<4, 0b10011, uint8_t>(); ex<4, 0b11001, uint8_t>();
	ex<5, 0b100101, uint8_t>(); ex<5, 0b101001, uint8_t>(); ex<5, 0b101111, uint8_t>(); ex<5, 0b110111, uint8_t>(); ex<5, 0b111011, uint8_t>(); ex<5, 0b111101, uint8_t>();
	ex<4, 0b10011, uint16_t>(); ex<5, 0b100101, uint32_t>();
	ex<6, 0b1000011, uint8_t>(); ex<6, 0b1011011, uint8_t>(); ex<6, 0b1100001, uint8_t>(); ex<6, 0b1100111, uint8_t>(); ex<6, 0b1101101, uint8_t>(); ex<6, 0b1110011, uint8_t>();
#elif PART == 1
	ex<7, 0b10000011, uint8_t>(); ex<7, 0b10001001, uint8_t>(); ex<7, 0b10001111, uint8_t>(); ex<7, 0b10111111, uint8_t>(); ex<7, 0b11101111, uint8_t>();
	ex<8, 0b100011101, uint8_t>(); ex<8, 0b100101011, uint8_t>(); ex<8, 0b100101101, uint8_t>(); ex<8, 0b101001101, uint8_t>(); ex<8, 0b101011111, uint8_t>();
	ex<8, 0b101100011, uint8_t>(); ex<8, 0b101100101, uint8_t>(); ex<8, 0b101101001, uint8_t>();
#elif PART == 2
	ex<8, 0b101110001, uint8_t>(); ex<8, 0b110000111, uint8_t>(); ex<8, 0b110001101, uint8_t>(); ex<8, 0b110101001, uint8_t>();
	ex<8, 0b111000011, uint8_t>(); ex<8, 0b111001111, uint8_t>(); ex<8, 0b111100111, uint8_t>(); ex<8, 0b111110101, uint8_t>();
	ex<8, 0b100011101, uint16_t>(); ex<8, 0b110000111, uint32_t>(); ex<9, 0b1000010001, uint16_t>();
#elif PART == 3
	sa<10, 0b10000001001, uint16_t>(); sa<11, 0b100000000101, uint16_t>(); sa<12, 0b1000001010011, uint16_t>(); sa<13, 0b10000000011011, uint16_t>();
	sa<14, 0b100000000101011, uint16_t>(); sa<15, 0b1000000000101101, uint16_t>(); sa<15, 0b1000000000000011, uint32_t>();
#elif PART == 4
	sa<16, 0b10001000000001011, uint16_t>(); sa<16, 0b10000000000101101, uint16_t>(); sa<16, 0b10000000000101101, uint32_t>();
	sa<20, 0b100000000000000001001, uint32_t>();
#elif PART == 5
	{ int n = vh::reps(150000, 10000000);
	ref<8, 0x11b, uint8_t>(n); ref<8, 0x11b, uint32_t>(n); ref<4, 0x1f, uint8_t>(n); ref<9, 0x203, uint16_t>(n); ref<12, 0x1053, uint16_t>(n); ref<12, 0x1053, uint32_t>(n); ref<17, 0x20009, uint32_t>(n); ref<24, 0x1000087, uint32_t>(n);
	ref<31, 0x80000009, uint32_t>(n); ref<32, 0x100400007, uint32_t>(n); ref<32, 0x10000008d, uint32_t>(n); ref<16, 0x1002d, uint32_t>(n); ref<16, 0x1002b, uint16_t>(n); ref<2, 7, uint8_t>(n); ref<3, 0xb, uint32_t>(n); }
#elif PART == 6
	pf<uint32_t, 2>(); pf<uint32_t, 3>(); pf<uint32_t, 251>(); pf<uint32_t, 5>(); pf<uint32_t, 7>(); pf<uint32_t, 17>(); pf<uint32_t, 127>();
	pf<uint32_t, 257>(); pf<uint32_t, 65521>(); pf<uint32_t, 8191>(); pf<uint64_t, 257>(); pf<uint64_t, 65537>(); pf<uint64_t, 1009>();
	pf<uint64_t, 2147483647>(); pf<uint64_t, 4294967291>(); pf<uint64_t, 998244353>();
#endif
	return vh::finish();
}
