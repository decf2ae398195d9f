// Erasure coding: Cauchy Reed Solomon recovery (R), vector-path independence (S), prime field (P).
#include "vh.hh"
#include "neon_shim.hh"
#include "gfref.hh"
#include "galois_field.hh"
#include "prime_field.hh"
#include "cauchy_reed_solomon_erasure_coding.hh"
#include "cauchy_prime_field_erasure_coding.hh"
#ifndef PART
#define PART 0
#endif
using vh::RNG;

template <int M, int POLY, typename TYPE>
struct CRS {
	typedef CODE::GaloisField<M, POLY, TYPE> GF;
	typedef CODE::CauchyReedSolomonErasureCoding<GF> CODEC;
	typedef typename GF::ValueType VT;
	static const int N = GF::N;
	RefField F;
	RNG rng;
	GF *inst;
	CODEC *crs;
	char name[64];
	CRS() : F(M, POLY), rng(vh::rng(vh::mix(M, POLY))) {
		std::snprintf(name, sizeof name, "CRS GF(2^%d,0x%x) u%d", M, POLY, int(8 * sizeof(TYPE)));
		inst = new GF; crs = new CODEC;
		vh::count("code_configurations");
	}
	~CRS() { delete crs; delete inst; }
	TYPE sym(int style) { return style == 0 ? 0 : style == 1 ? TYPE(N) : style == 2 ? TYPE(1u << rng.below(M)) : TYPE(rng.below(uint64_t(N) + 1)); }
	void enc(int api, const TYPE *d, TYPE *b, int id, int len, int cnt) {
		if (api == 0) crs->encode(static_cast<const void *>(d), static_cast<void *>(b), id, int(len * sizeof(TYPE)), cnt);
		else if (api == 1) crs->encode(d, b, id, len, cnt);
		else crs->encode(reinterpret_cast<const VT *>(d), reinterpret_cast<VT *>(b), id, len, cnt);
	}
	void dec(int api, TYPE *d, const TYPE *bs, const TYPE *ids, int idx, int len, int cnt) {
		if (api == 0) crs->decode(static_cast<void *>(d), static_cast<const void *>(bs), ids, idx, int(len * sizeof(TYPE)), cnt);
		else if (api == 1) crs->decode(d, bs, ids, idx, len, cnt);
		else crs->decode(reinterpret_cast<VT *>(d), reinterpret_cast<const VT *>(bs), reinterpret_cast<const VT *>(ids), idx, len, cnt);
	}
	// any cnt distinct blocks recover every original block
	void recover(int cnt, int len, const std::vector<int> &ids, int decodes) {
		std::vector<TYPE> id(cnt);
		for (int i = 0; i < cnt; ++i) id[i] = TYPE(ids[i]);
		size_t align = rng.coin() ? 64 : sizeof(TYPE), off = align == 64 && rng.coin(3) ? sizeof(TYPE) * rng.below(17) : 0;
		vh::Guarded<TYPE> orig(size_t(cnt) * len, align, off), blocks(size_t(cnt) * len, align, off), out(len, align, off);
		int style = int(rng.below(6));
		for (size_t i = 0; i < orig.n; ++i) orig[i] = sym(style);
		uint64_t h0 = vh::hash_bytes(orig.p, orig.n * sizeof(TYPE));
		vh::crumb("%s cnt=%d len=%d align=%d+%d ids=%s data=%s", name, cnt, len, int(align), int(off), vh::show(ids.data(), cnt, 60).c_str(), vh::show(orig.p, int(orig.n), 60).c_str());
		for (int i = 0; i < cnt; ++i) enc(int(rng.below(3)), orig.p, blocks.p + size_t(len) * i, id[i], len, cnt);
		uint64_t h1 = vh::hash_bytes(blocks.p, blocks.n * sizeof(TYPE)), h2 = vh::hash_bytes(id.data(), id.size() * sizeof(TYPE));
		std::vector<int> order(cnt);
		for (int i = 0; i < cnt; ++i) order[i] = i;
		for (int i = cnt - 1; i > 0; --i) std::swap(order[i], order[rng.below(i + 1)]);
		for (int q = 0; q < cnt && q < decodes; ++q) {
			int i = order[q];
			for (int j = 0; j < len; ++j) out[j] = TYPE(rng());
			dec(int(rng.below(3)), out.p, blocks.p, id.data(), i, len, cnt);
			bool ok = std::equal(out.p, out.p + len, orig.p + size_t(len) * i);
			vh::check(ok, "crs-not-recovered", "%s cnt=%d len=%d block=%d", name, cnt, len, i);
			vh::eval();
		}
		vh::check(orig.intact() && blocks.intact() && out.intact(), "crs-out-of-bounds", "%s", name);
		vh::check(h0 == vh::hash_bytes(orig.p, orig.n * sizeof(TYPE)) && h1 == vh::hash_bytes(blocks.p, blocks.n * sizeof(TYPE)) && h2 == vh::hash_bytes(id.data(), id.size() * sizeof(TYPE)), "crs-modifies-input", "%s", name);
		vh::distinct(vh::mix(vh::mix(h0, h2), vh::mix(cnt, len)));
	}
	std::vector<int> pick_ids(int cnt) {
		int total = N + 1 - cnt;
		std::vector<int> ids(cnt);
		switch (rng.below(4)) {
		case 0: for (int i = 0; i < cnt; ++i) ids[i] = cnt + i; break; // the first ones
		case 1: for (int i = 0; i < cnt; ++i) ids[i] = N - i; break; // the last ones, descending
		default: rng.choose(ids.data(), total, cnt); for (int &v : ids) v += cnt;
		}
		return ids;
	}
	void random_recoveries(int n, int maxcnt, int maxlen) {
		for (int i = 0; i < n; ++i) {
			int cnt = 1 + int(rng.below(std::min(maxcnt, (N + 1) / 2)));
			if (rng.coin(6)) cnt = 1 + int(rng.below(2));
			if ((N + 1) / 2 < cnt) cnt = (N + 1) / 2;
			int len = 1 + int(rng.below(maxlen));
			if (rng.coin(3)) len = 32 * (1 + int(rng.below(1 + maxlen / 32)));
			recover(cnt, len, pick_ids(cnt), cnt > 24 ? 6 : cnt);
		}
	}
	// every subset of blocks
	void subsets() {
		for (int cnt = 1; cnt <= (N + 1) / 2; ++cnt) {
			int total = N + 1 - cnt;
			for (uint32_t m = 0; m < (1u << total); ++m) {
				if (__builtin_popcount(m) != cnt) continue;
				std::vector<int> ids;
				for (int i = 0; i < total; ++i) if ((m >> i) & 1) ids.push_back(cnt + i);
				if (rng.coin()) for (int i = cnt - 1; i > 0; --i) std::swap(ids[i], ids[rng.below(i + 1)]);
				recover(cnt, 1 + int(rng.below(4)), ids, cnt);
				vh::count("subsets_enumerated");
			}
		}
	}
	// byte-exact result for any address alignment, length and interface
	void paths(int n, int maxcnt) {
		for (int r = 0; r < n; ++r) {
			int cnt = 1 + int(rng.below(std::min(maxcnt, (N + 1) / 2)));
			int len;
			switch (rng.below(5)) {
			case 0: len = 1 + int(rng.below(70)); break;
			case 1: len = 16 * (1 + int(rng.below(8))); break;
			case 2: len = 32 * (1 + int(rng.below(8))); break;
			case 3: len = 32 * (1 + int(rng.below(4))) + (rng.coin() ? 1 : -1); break;
			default: len = 64 * (1 + int(rng.below(3)));
			}
			size_t oa = rng.coin() ? 0 : sizeof(TYPE) * rng.below(32 / sizeof(TYPE)), ob = rng.coin() ? 0 : sizeof(TYPE) * rng.below(32 / sizeof(TYPE));
			if (rng.coin(6)) oa = 16;
			if (rng.coin(6)) ob = 16;
			vh::Guarded<TYPE> d(size_t(cnt) * len, 64, oa), b(len, 64, ob);
			int style = int(rng.below(8));
			for (size_t i = 0; i < d.n; ++i) d[i] = sym(style);
			for (int i = 0; i < len; ++i) b[i] = TYPE(rng()); // stale content
			int id = rng.coin(8) ? cnt : rng.coin(8) ? N : cnt + int(rng.below(uint64_t(N) + 1 - cnt));
			int api = int(rng.below(3));
			vh::crumb("%s encode api=%d cnt=%d len=%d id=%d data@+%d block@+%d data=%s", name, api, cnt, len, id, int(oa), int(ob), vh::show(d.p, int(d.n), 80).c_str());
			enc(api, d.p, b.p, id, len, cnt);
			int badi = -1;
			std::vector<TYPE> want(len, 0);
			for (int k = 0; k < cnt; ++k) {
				uint32_t a = F.inv(uint32_t(id) ^ uint32_t(k));
				for (int i = 0; i < len; ++i) want[i] ^= TYPE(F.mul(a, d[size_t(len) * k + i]));
			}
			for (int i = 0; i < len && badi < 0; ++i) if (b[i] != want[i]) badi = i;
			bool vec = oa % 32 == 0 && ob % 32 == 0 && len % 32 == 0;
			vh::count(vec ? "aligned_cases" : "unaligned_cases");
			vh::check(badi < 0, vec ? "crs-encode-aligned" : "crs-encode-unaligned", "%s cnt=%d len=%d id=%d offsets %d %d first wrong symbol %d", name, cnt, len, id, int(oa), int(ob), badi);
			vh::check(d.intact() && b.intact(), "crs-out-of-bounds", "%s len=%d offsets %d %d", name, len, int(oa), int(ob));
			vh::eval();
			vh::distinct(vh::hash_bytes(d.p, d.n * sizeof(TYPE), vh::mix(vh::mix(id, len), oa * 64 + ob)));
			// decoding path: single unknown block through the same alignments
			if (cnt <= 6) {
				std::vector<int> ids = pick_ids(cnt);
				std::vector<TYPE> tid(ids.begin(), ids.end());
				vh::Guarded<TYPE> bl(size_t(cnt) * len, 64, oa), o(len, 64, ob);
				for (int k = 0; k < cnt; ++k) {
					for (int i = 0; i < len; ++i) bl[size_t(len) * k + i] = 0;
					for (int j = 0; j < cnt; ++j) { uint32_t a = F.inv(uint32_t(ids[k]) ^ uint32_t(j)); for (int i = 0; i < len; ++i) bl[size_t(len) * k + i] ^= TYPE(F.mul(a, d[size_t(len) * j + i])); }
				}
				int idx = int(rng.below(cnt));
				for (int i = 0; i < len; ++i) o[i] = TYPE(rng());
				vh::crumb("%s decode api=%d cnt=%d len=%d idx=%d ids=%s blocks@+%d out@+%d", name, api, cnt, len, idx, vh::show(ids.data(), cnt).c_str(), int(oa), int(ob));
				dec(api, o.p, bl.p, tid.data(), idx, len, cnt);
				vh::check(std::equal(o.p, o.p + len, d.p + size_t(len) * idx), vec ? "crs-decode-aligned" : "crs-decode-unaligned", "%s cnt=%d len=%d offsets %d %d", name, cnt, len, int(oa), int(ob));
				vh::check(o.intact() && bl.intact(), "crs-out-of-bounds", "%s len=%d", name, len);
				vh::eval();
			}
		}
	}
	// every coefficient/operand nibble of the vector path (one data block, all identifiers)
	void all_products() {
		if (M != 8) return;
		vh::Guarded<TYPE> d(256, 64), b(256, 64);
		for (int i = 0; i < 256; ++i) d[i] = TYPE(i);
		for (int id = 1; id <= N; ++id) {
			vh::crumb("%s all products with identifier %d", name, id);
			enc(1, d.p, b.p, id, 256, 1);
			uint32_t a = F.inv(id);
			for (int i = 0; i < 256; ++i) vh::check(b[i] == F.mul(a, i), "crs-encode-aligned", "%s id=%d value=%d", name, id, i);
			vh::eval();
			vh::count("identifiers_with_all_values");
		}
	}
	void all_words(int ids) {
		if (M != 16) return;
		vh::Guarded<TYPE> d(65536, 64), b(65536, 64);
		for (int i = 0; i < 65536; ++i) d[i] = TYPE(i);
		for (int r = 0; r < ids; ++r) {
			int id = 1 + int(rng.below(N));
			vh::crumb("%s all words with identifier %d", name, id);
			enc(1, d.p, b.p, id, 65536, 1);
			uint32_t a = F.inv(id);
			int badi = -1;
			for (int i = 0; i < 65536; ++i) if (b[i] != F.mul(a, i)) badi = i;
			vh::check(badi < 0, "crs-encode-aligned", "%s id=%d value=%d", name, id, badi);
			vh::eval();
			vh::count("identifiers_with_all_values");
		}
	}
};

template <typename PF, typename IO, int MAX_LEN>
struct CPF {
	typedef CODE::CauchyPrimeFieldErasureCoding<PF, IO, MAX_LEN> CODEC;
	static const int P = int(PF::P), TOP = P - 1;
	RNG rng;
	char name[64];
	vh::Placed<CODEC> codec;
	CPF(int fill) : rng(vh::rng(vh::mix(P, sizeof(typename std::remove_reference<decltype(PF().v)>::type) * 64 + MAX_LEN))), codec(fill) {
		std::snprintf(name, sizeof name, "CPF(%d) io%d max %d", P, int(sizeof(IO) * 8), MAX_LEN);
		vh::count("code_configurations");
	}
	static uint64_t pw(uint64_t a, uint64_t e) { uint64_t r = 1; for (a %= P; e; e >>= 1, a = a * a % P) if (e & 1) r = r * a % P; return r; }
	void one(int cnt, int len, int style, const std::vector<int> &ids, int decodes) {
		vh::Guarded<IO> orig(size_t(cnt) * len), blocks(size_t(cnt) * len), out(len);
		std::vector<IO> id(cnt), subs(cnt);
		for (int i = 0; i < cnt; ++i) id[i] = IO(ids[i]);
		for (size_t i = 0; i < orig.n; ++i) orig[i] = IO(style == 0 ? 0 : style == 1 ? TOP - 1 : style == 2 ? i % TOP : rng.below(TOP));
		if (style == 3) { // make the largest field value appear in the first block: choose the last data block accordingly
			uint64_t inv_last = 0;
			int k = cnt - 1;
			inv_last = uint64_t(ids[0] + k) % P; // 1/a_0k
			for (int i = 0; i < len; ++i) {
				if (rng.coin(3)) continue;
				uint64_t sum = 0;
				for (int j = 0; j < k; ++j) sum = (sum + pw(ids[0] + j, P - 2) * orig[size_t(len) * j + i]) % P;
				uint64_t want = (uint64_t(TOP) + P - sum) % P * inv_last % P;
				if (want < uint64_t(TOP)) orig[size_t(len) * k + i] = IO(want);
			}
		}
		vh::crumb("%s cnt=%d len=%d ids=%s data=%s", name, cnt, len, vh::show(ids.data(), cnt, 60).c_str(), vh::show(orig.p, int(orig.n), 60).c_str());
		uint64_t h0 = vh::hash_bytes(orig.p, orig.n * sizeof(IO));
		for (int i = 0; i < cnt; ++i) {
			int s = codec->encode(orig.p, blocks.p + size_t(len) * i, ids[i], len, cnt);
			subs[i] = IO(s);
			vh::check(s >= 0 && s < TOP, "cpf-substitute-range", "%s substitute=%d", name, s);
			if (i < 3) { // the block is the Cauchy combination with the largest value replaced
				for (int j = 0; j < len; ++j) {
					uint64_t sum = 0;
					for (int k = 0; k < cnt; ++k) sum = (sum + pw(ids[i] + k, P - 2) * orig[size_t(len) * k + j]) % P;
					bool top = sum == uint64_t(TOP);
					if (top) vh::count("substituted_symbols");
					vh::check(blocks[size_t(len) * i + j] == (top ? uint64_t(s) : sum), "cpf-block-value", "%s cnt=%d len=%d id=%d symbol=%d", name, cnt, len, ids[i], j);
					vh::check(top || sum != uint64_t(s), "cpf-substitute-collides", "%s cnt=%d len=%d id=%d substitute=%d", name, cnt, len, ids[i], s);
				}
			}
		}
		std::vector<int> order(cnt);
		for (int i = 0; i < cnt; ++i) order[i] = i;
		for (int i = cnt - 1; i > 0; --i) std::swap(order[i], order[rng.below(i + 1)]);
		uint64_t h1 = vh::hash_bytes(blocks.p, blocks.n * sizeof(IO));
		for (int q = 0; q < cnt && q < decodes; ++q) {
			int i = order[q];
			for (int j = 0; j < len; ++j) out[j] = IO(rng());
			codec->decode(out.p, blocks.p, subs.data(), id.data(), i, len, cnt);
			vh::check(std::equal(out.p, out.p + len, orig.p + size_t(len) * i), "cpf-not-recovered", "%s cnt=%d len=%d block=%d", name, cnt, len, i);
			vh::eval();
		}
		vh::check(orig.intact() && blocks.intact() && out.intact(), "cpf-out-of-bounds", "%s", name);
		vh::check(h0 == vh::hash_bytes(orig.p, orig.n * sizeof(IO)) && h1 == vh::hash_bytes(blocks.p, blocks.n * sizeof(IO)), "cpf-modifies-input", "%s", name);
		vh::distinct(vh::mix(h0, vh::hash_bytes(ids.data(), cnt * sizeof(int), len)));
	}
	void all(int n, int maxcnt) {
		for (int r = 0; r < n; ++r) {
			int lim = P / 4 < 1 ? 1 : P / 4;
			int cnt = 1 + int(rng.below(std::min(maxcnt, lim)));
			if (rng.coin(5)) cnt = 1 + int(rng.below(std::min(3, lim)));
			if (rng.coin(20)) cnt = std::min(maxcnt, lim);
			int total = P / 2 - cnt;
			std::vector<int> ids(cnt);
			switch (rng.below(4)) {
			case 0: for (int i = 0; i < cnt; ++i) ids[i] = cnt + i; break;
			case 1: for (int i = 0; i < cnt; ++i) ids[i] = P / 2 - 1 - i; break;
			default: rng.choose(ids.data(), total, cnt); for (int &v : ids) v += cnt;
			}
			int len = rng.coin(4) ? MAX_LEN : 1 + int(rng.below(rng.coin() ? std::min(MAX_LEN, 40) : MAX_LEN));
			one(cnt, len, int(rng.below(6)), ids, cnt > 24 ? 5 : cnt);
		}
	}
};

int main(int argc, char **argv) {
	vh::init(argc, argv);
	bool R = vh::section("R"), S = vh::section("S");
	(void)R; (void)S;
#if PART == 0
	{ CRS<2, 0b111, uint8_t> c; if (R) for (int i = 0; i < vh::reps(100, 2000); ++i) c.subsets(); if (S) c.paths(vh::reps(2000, 40000), 2); }
	{ CRS<3, 0b1011, uint8_t> c; if (R) for (int i = 0; i < vh::reps(200, 4000); ++i) c.subsets(); if (S) c.paths(vh::reps(2000, 40000), 4); }
	{ CRS<4, 0b10011, uint8_t> c; if (R) for (int i = 0; i < vh::reps(4, 100); ++i) c.subsets(); if (S) c.paths(vh::reps(3000, 60000), 8); }
	{ CRS<8, 0b100011101, uint16_t> c; if (R) c.random_recoveries(vh::reps(600, 20000), 128, 60); if (S) c.paths(vh::reps(3000, 60000), 12); }
	{ CRS<12, 0b1000001010011, uint16_t> c; if (R) c.random_recoveries(vh::reps(600, 20000), 100, 60); if (S) c.paths(vh::reps(3000, 60000), 12); }
#elif PART == 1
	{ CRS<8, 0b100011101, uint8_t> c; if (R) c.random_recoveries(vh::reps(3000, 100000), 128, 200); if (S) { c.all_products(); c.paths(vh::reps(30000, 1000000), 12); c.paths(vh::reps(500, 20000), 128); } }
	{ CRS<8, 0b101100011, uint8_t> c; if (R) c.random_recoveries(vh::reps(1500, 40000), 128, 100); if (S) { c.all_products(); c.paths(vh::reps(10000, 300000), 12); } }
#elif PART == 2
	{ CRS<16, 0b10001000000001011, uint16_t> c; if (R) { c.random_recoveries(vh::reps(1500, 50000), 80, 200); c.random_recoveries(vh::reps(40, 1500), 700, 48); } if (S) { c.all_words(vh::reps(60, 4000)); c.paths(vh::reps(20000, 600000), 10); } }
	{ CRS<16, 0b10000000000101101, uint16_t> c; if (R) c.random_recoveries(vh::reps(600, 20000), 60, 200); if (S) c.paths(vh::reps(8000, 200000), 10); }
#elif PART == 3
	{ for (int f = 0; f < 2; ++f) { CPF<CODE::PrimeField<uint32_t, 257>, uint8_t, 255> c(f ? 0xA5 : 0); c.all(vh::reps(900, 30000), 64); } }
	{ CPF<CODE::PrimeField<uint32_t, 257>, uint8_t, 40> c(0xff); c.all(vh::reps(900, 30000), 64); }
	{ CPF<CODE::PrimeField<uint32_t, 17>, uint8_t, 15> c(0xff); c.all(vh::reps(4000, 100000), 4); }
	{ CPF<CODE::PrimeField<uint64_t, 257>, uint8_t, 100> c(0xff); c.all(vh::reps(900, 30000), 64); }
#elif PART == 4
	{ for (int f = 0; f < 2; ++f) { CPF<CODE::PrimeField<uint64_t, 65537>, uint16_t, 1024> c(f ? 0xA5 : 0); c.all(vh::reps(120, 6000), 40); c.all(vh::reps(8, 400), 300); } }
	{ CPF<CODE::PrimeField<uint64_t, 65537>, uint16_t, 16> c(0xff); c.all(vh::reps(700, 20000), 60); c.all(vh::reps(8, 300), 2000); }
	{ CPF<CODE::PrimeField<uint64_t, 65537>, uint16_t, 65535> c(0x5a); c.all(vh::reps(8, 300), 3); }
#endif
	return vh::finish();
}
