// Codecs layered the way a receiver layers them: the message sent has to come back.
// PART 0: erasure-coded packets, scrambled and interleaved Reed-Solomon; 1: inner codes and headers;
// 2: LDPC with an outer BCH code; 3: CRC-aided polar lists.
#include "vh.hh"
#include "neon_shim.hh"
#ifndef PART
#define PART 0
#endif
using vh::RNG;
typedef std::vector<uint8_t> Bytes;

#if PART == 0
#include "galois_field.hh"
#include "prime_field.hh"
#include "crc.hh"
#include "xorshift.hh"
#include "interleave.hh"
#include "permute.hh"
#include "reed_solomon_encoder.hh"
#include "reed_solomon_decoder.hh"
#include "cauchy_reed_solomon_erasure_coding.hh"
#include "cauchy_prime_field_erasure_coding.hh"

// what a channel may do to a packet so that a 32 bit check is sure to tell: a burst of up to 32 bits
static void burst_bits(RNG &rng, Bytes &p)
{
	int bits = int(p.size()) * 8, len = std::min(bits, 1 + int(rng.below(32))), at = int(rng.below(uint64_t(bits - len) + 1));
	uint32_t mask = uint32_t(rng()) | 1u | 1u << (len - 1);
	for (int i = 0; i < len; ++i) if (mask >> i & 1) p[(at + i) / 8] ^= uint8_t(1 << (at + i) % 8);
}
static uint32_t seal(const Bytes &p, size_t n)
{
	static CODE::CRC<uint32_t> crc(0x8F6E37A0);
	crc.reset(0xFFFFFFFFu);
	for (size_t i = 0; i < n; ++i) crc(p[i]);
	return ~crc();
}
static void put32(Bytes &p, uint32_t v) { for (int i = 0; i < 4; ++i) p.push_back(uint8_t(v >> 8 * i)); }
static bool genuine(const Bytes &p)
{
	size_t n = p.size() - 4; uint32_t v = 0;
	for (int i = 0; i < 4; ++i) v |= uint32_t(p[n + i]) << 8 * i;
	return v == seal(p, n);
}
// a stream of packets: some lost, some damaged, some twice, in any order
static std::vector<Bytes> deliver(RNG &rng, const std::vector<Bytes> &sent, int keep, std::vector<char> &bad)
{
	int n = int(sent.size());
	std::vector<int> ord(n); for (int i = 0; i < n; ++i) ord[i] = i;
	for (int i = n - 1; i > 0; --i) std::swap(ord[i], ord[rng.below(i + 1)]);
	std::vector<std::pair<Bytes, char>> got;
	for (int i = 0; i < n; ++i) {
		if (i < keep) { got.push_back({sent[ord[i]], 0}); if (rng.coin(6)) got.push_back({sent[ord[i]], 0}); }
		if (i >= keep ? rng.coin() : rng.coin(6)) { Bytes p = sent[ord[i]]; burst_bits(rng, p); got.push_back({p, 1}); }
	}
	for (int i = int(got.size()) - 1; i > 0; --i) std::swap(got[i], got[rng.below(i + 1)]);
	std::vector<Bytes> r; for (auto &g : got) { r.push_back(g.first); bad.push_back(g.second); }
	return r;
}
template <int M, int POLY, typename TYPE>
static void packets(const char *name, int runs)
{
	typedef CODE::GaloisField<M, POLY, TYPE> GF;
	RNG rng = vh::rng(M * 77);
	GF *inst = new GF; auto *crs = new CODE::CauchyReedSolomonErasureCoding<GF>;
	for (int it = 0; it < runs; ++it) {
		int cnt = 1 + int(rng.below(rng.coin() ? 5 : 60)), len = 1 + int(rng.below(rng.coin() ? 40 : 600));
		int spare = int(rng.below(30)), blocks = cnt + spare;
		if (cnt + blocks > GF::Q) continue;
		std::vector<TYPE> data(size_t(cnt) * len); for (auto &d : data) d = TYPE(rng());
		std::vector<Bytes> sent;
		vh::crumb("%s %d blocks of %d values, %d sent, run %d", name, cnt, len, blocks, it);
		int first = cnt + int(rng.below(uint64_t(GF::Q - cnt - blocks) + 1));
		std::vector<TYPE> one(len);
		for (int b = 0; b < blocks; ++b) {
			crs->encode(data.data(), one.data(), first + b, len, cnt);
			Bytes p; put32(p, uint32_t(first + b)); const uint8_t *q = reinterpret_cast<const uint8_t *>(one.data()); p.insert(p.end(), q, q + len * sizeof(TYPE));
			put32(p, seal(p, p.size())); sent.push_back(p);
		}
		std::vector<char> bad; auto got = deliver(rng, sent, cnt + int(rng.below(uint64_t(spare) + 1)), bad);
		std::vector<TYPE> in, ids; int have = 0; std::set<uint32_t> seen;
		for (size_t k = 0; k < got.size(); ++k) {
			bool g = genuine(got[k]);
			vh::check(g == !bad[k], "chain-crc", "%s: packet %d %s", name, int(k), bad[k] ? "damaged, but passes the check" : "unharmed, but fails the check");
			vh::count(bad[k] ? "packets_damaged" : "packets_intact");
			uint32_t id; std::memcpy(&id, got[k].data(), 4);
			if (bad[k] || have == cnt || !seen.insert(id).second) continue;
			ids.push_back(TYPE(id)); size_t o = in.size(); in.resize(o + len); std::memcpy(&in[o], got[k].data() + 4, len * sizeof(TYPE)); ++have;
		}
		std::vector<TYPE> out(size_t(cnt) * len);
		for (int i = 0; i < cnt; ++i) crs->decode(out.data() + size_t(i) * len, in.data(), ids.data(), i, len, cnt);
		vh::check(out == data, "chain-packets", "%s: the file assembled from %d packets is not the file sent", name, cnt);
		vh::eval(); vh::distinct(vh::hash_bytes(in.data(), in.size() * sizeof(TYPE))); vh::count("files");
	}
	delete crs; delete inst;
}
static void prime_packets(int runs)
{
	typedef CODE::PrimeField<uint64_t, 65537> PF;
	const int MAX = 600;
	RNG rng = vh::rng(4711);
	auto *cpf = new CODE::CauchyPrimeFieldErasureCoding<PF, uint16_t, MAX>;
	for (int it = 0; it < runs; ++it) {
		int cnt = 1 + int(rng.below(rng.coin() ? 5 : 40)), len = 1 + int(rng.below(rng.coin() ? 40 : MAX)), spare = int(rng.below(20)), blocks = cnt + spare;
		std::vector<uint16_t> data(size_t(cnt) * len), one(len); for (auto &d : data) d = uint16_t(rng.coin(9) ? 65535 : rng());
		int first = cnt + int(rng.below(uint64_t(32768 - cnt - blocks)));
		vh::crumb("CPF(65537) %d blocks of %d values, %d sent from %d, run %d", cnt, len, blocks, first, it);
		std::vector<Bytes> sent;
		for (int b = 0; b < blocks; ++b) {
			int sub = cpf->encode(data.data(), one.data(), first + b, len, cnt);
			Bytes p; put32(p, uint32_t(first + b)); put32(p, uint32_t(sub)); const uint8_t *q = reinterpret_cast<const uint8_t *>(one.data()); p.insert(p.end(), q, q + len * 2);
			put32(p, seal(p, p.size())); sent.push_back(p);
		}
		std::vector<char> bad; auto got = deliver(rng, sent, cnt + int(rng.below(uint64_t(spare) + 1)), bad);
		std::vector<uint16_t> in, ids, subs; int have = 0; std::set<uint32_t> seen;
		for (size_t k = 0; k < got.size(); ++k) {
			bool g = genuine(got[k]);
			vh::check(g == !bad[k], "chain-crc", "CPF: packet %d %s", int(k), bad[k] ? "damaged, but passes the check" : "unharmed, but fails the check");
			vh::count(bad[k] ? "packets_damaged" : "packets_intact");
			uint32_t h[2]; std::memcpy(h, got[k].data(), 8);
			if (bad[k] || have == cnt || !seen.insert(h[0]).second) continue;
			ids.push_back(uint16_t(h[0])); subs.push_back(uint16_t(h[1])); size_t o = in.size(); in.resize(o + len); std::memcpy(&in[o], got[k].data() + 8, len * 2); ++have;
		}
		std::vector<uint16_t> out(size_t(cnt) * len);
		for (int i = 0; i < cnt; ++i) cpf->decode(out.data() + size_t(i) * len, in.data(), subs.data(), ids.data(), i, len, cnt);
		vh::check(out == data, "chain-packets", "CPF: the file assembled from %d packets is not the file sent", cnt);
		vh::eval(); vh::distinct(vh::hash_bytes(in.data(), in.size() * 2)); vh::count("files");
	}
	delete cpf;
}
// DEPTH codewords, written one after the other, sent interleaved: a burst of DEPTH times the radius
template <int DEPTH, int NR, int FCR, int LEN>
static void bursts(int runs)
{
	typedef CODE::GaloisField<8, 0b100011101, uint8_t> GF;
	const int N = LEN + NR, SIZE = DEPTH * N;
	RNG rng = vh::rng(DEPTH * 1000 + LEN);
	GF *inst = new GF; CODE::ReedSolomonEncoder<NR, FCR, GF> enc; CODE::ReedSolomonDecoder<NR, FCR, GF> dec; CODE::ReverseFisherYatesShuffle<SIZE> unshuffle; CODE::FisherYatesShuffle<SIZE> shuffle;
	std::vector<uint8_t> msg(size_t(DEPTH) * LEN), a(SIZE), b(SIZE), mark(SIZE), m2(SIZE);
	for (int it = 0; it < runs; ++it) {
		for (auto &m : msg) m = uint8_t(rng());
		uint32_t key = uint32_t(rng()) | 1;
		CODE::Xorshift32 scr(key);
		for (int d = 0; d < DEPTH; ++d) {
			for (int i = 0; i < LEN; ++i) a[d * N + i] = msg[d * LEN + i] ^ uint8_t(scr());
			enc(a.data() + d * N, a.data() + d * N + LEN, LEN);
		}
		bool perm = rng.coin(3);
		std::fill(mark.begin(), mark.end(), 0);
		if (perm) { b = a; shuffle(b.data()); } else CODE::Interleave<SIZE, DEPTH>(b.data(), a.data());
		// unknown bursts (2) and known ones (1), together as long as every codeword can bear
		int known = 0, unknown = 0, shape = int(rng.below(4));
		if (!perm) {
			int budget = NR, e = shape == 0 ? NR / 2 : shape == 1 ? 0 : int(rng.below(NR / 2 + 1)); budget -= 2 * e;
			int f = shape == 3 ? int(rng.below(uint64_t(budget) + 1)) : budget;
			unknown = e * DEPTH; known = f * DEPTH;
			int total = unknown + known, gap = SIZE - total, at = int(rng.below(uint64_t(gap) + 1)), mid = int(rng.below(uint64_t(gap - at) + 1));
			bool kf = rng.coin(); int p = at;
			for (int k = 0; k < 2; ++k) {
				bool isk = (k == 0) == kf; int n = isk ? known : unknown;
				for (int i = 0; i < n; ++i, ++p) { if (isk) { mark[p] = 1; b[p] = uint8_t(rng()); } else { mark[p] = 2; b[p] ^= uint8_t(1 + rng.below(255)); } }
				p += mid;
			}
		} else {
			int hits = int(rng.below(uint64_t(DEPTH) * NR + 1));
			int at = int(rng.below(uint64_t(SIZE - hits) + 1)), kind = 1 + int(rng.below(2));
			for (int p = at; p < at + hits; ++p) { mark[p] = uint8_t(kind); b[p] ^= kind == 2 ? uint8_t(1 + rng.below(255)) : uint8_t(rng()); }
			(kind == 1 ? known : unknown) = hits;
		}
		vh::crumb("%d x RS(%d,%d) FCR %d %s key=%x burst: %d unknown, %d known, run %d", DEPTH, N, LEN, FCR, perm ? "shuffled" : "interleaved", key, unknown, known, it);
		if (perm) { a = b; m2 = mark; unshuffle(a.data()); unshuffle(m2.data()); } else { CODE::Deinterleave<SIZE, DEPTH>(a.data(), b.data()); CODE::Deinterleave<SIZE, DEPTH>(m2.data(), mark.data()); }
		scr.reset(key);
		for (int d = 0; d < DEPTH; ++d) {
			uint8_t era[N]; int f = 0, e = 0;
			for (int i = 0; i < N; ++i) { if (m2[d * N + i] == 1) era[f++] = uint8_t(i); else e += m2[d * N + i] == 2; }
			bool fits = 2 * e + f <= NR;
			if (fits) {
				int r = dec(a.data() + d * N, a.data() + d * N + LEN, f ? era : nullptr, f, LEN);
				vh::check(r >= 0, "chain-burst", "codeword %d of %d with %d errors and %d erasures is given up: %d", d, DEPTH, e, f, r);
				vh::count("codewords_within_radius");
			} else vh::count("codewords_beyond");
			vh::check(perm || fits, "chain-interleave", "a burst spreads unevenly: codeword %d of %d has %d errors and %d erasures", d, DEPTH, e, f);
			for (int i = 0; i < LEN; ++i) {
				uint8_t x = a[d * N + i] ^ uint8_t(scr());
				if (fits && !vh::check(x == msg[d * LEN + i], "chain-burst", "codeword %d of %d: byte %d is %d instead of %d", d, DEPTH, i, x, msg[d * LEN + i])) break;
			}
		}
		vh::eval(DEPTH); vh::distinct(vh::hash_bytes(b.data(), b.size())); vh::count("transmissions");
	}
	delete inst;
}
int main(int argc, char **argv)
{
	vh::init(argc, argv);
	packets<8, 0b100011101, uint8_t>("CRS GF(2^8)", vh::reps(1000, 20000));
	packets<16, 0b10001000000001011, uint16_t>("CRS GF(2^16)", vh::reps(120, 2000));
	prime_packets(vh::reps(120, 2000));
	int n = vh::reps(1000, 30000);
	bursts<1, 32, 0, 223>(n); bursts<2, 32, 1, 223>(n); bursts<5, 16, 0, 188>(n); bursts<12, 16, 0, 188>(n); bursts<16, 64, 1, 100>(n); bursts<8, 4, 0, 20>(n); bursts<3, 32, 112, 1>(n);
	// more codewords than symbols in one, and as many
	bursts<40, 4, 0, 8>(n); bursts<96, 6, 1, 9>(n / 2); bursts<24, 8, 0, 16>(n); bursts<255, 16, 1, 17>(n / 10);
	return vh::finish();
}
#endif

#if PART == 1
#include "galois_field.hh"
#include "bitman.hh"
#include "bitstream.hh"
#include "mls.hh"
#include "crc.hh"
#include "reed_solomon_encoder.hh"
#include "reed_solomon_decoder.hh"
#include "bose_chaudhuri_hocquenghem_encoder.hh"
#include "bose_chaudhuri_hocquenghem_decoder.hh"
#include "hadamard_encoder.hh"
#include "hadamard_decoder.hh"
#include "simplex_encoder.hh"
#include "simplex_decoder.hh"
#include "short_bch_code_encoder.hh"
#include "short_bch_code_decoder.hh"
#include "osd.hh"

template <int K> struct Had { static const int BITS = K, N = 1 << (K - 1), RADIUS = (N / 2 - 1) / 2; CODE::HadamardEncoder<K> e; CODE::HadamardDecoder<K> d; void enc(int8_t *c, int m) { e(c, m); } int dec(const int8_t *c) { return d(c); } static const char *name() { return "Hadamard"; } static const bool SOFT = true; };
template <int K> struct Sim { static const int BITS = K, N = (1 << K) - 1, RADIUS = ((N + 1) / 2 - 1) / 2; CODE::SimplexEncoder<K> e; CODE::SimplexDecoder<K> d; void enc(int8_t *c, int m) { e(c, m); } int dec(const int8_t *c) { return d(c); } static const char *name() { return "simplex"; } static const bool SOFT = true; };
template <int NN, int K, int POLY, int T> struct Sho { static const int BITS = K, N = NN, RADIUS = T; CODE::ShortBCHCodeEncoder<NN, K, POLY> e; CODE::ShortBCHCodeDecoder<NN, K, POLY, T> d;
	void enc(int8_t *c, int m) { int w = e(m); for (int i = 0; i < N; ++i) c[i] = 1 - 2 * (w >> i & 1); }
	int dec(const int8_t *c) { int w = 0; for (int i = 0; i < N; ++i) w |= (c[i] < 0) << i; int r = d(w); return r < 0 ? -1 : r >> (N - K); } static const char *name() { return "short BCH"; } static const bool SOFT = false; };
// every symbol of an outer codeword is sent as a word of an inner code
template <typename INNER, int POLY, int NR, int FCR>
static void nested(int runs)
{
	typedef CODE::GaloisField<INNER::BITS, POLY, uint8_t> GF;
	const int N = GF::N, K = N - NR, B = INNER::N;
	RNG rng = vh::rng(B * 131 + NR);
	GF *inst = new GF; CODE::ReedSolomonEncoder<NR, FCR, GF> enc; CODE::ReedSolomonDecoder<NR, FCR, GF> dec; INNER in;
	for (int it = 0; it < runs; ++it) {
		int len = rng.coin() ? K : 1 + int(rng.below(K)), n = len + NR;
		std::vector<uint8_t> w(n), got(n), era; for (int i = 0; i < len; ++i) w[i] = uint8_t(rng.below(N + 1));
		enc(w.data(), w.data() + len, len);
		int lost = 0, dead = int(rng.below(NR / 2 + 1)), erased = int(rng.below(uint64_t(NR - 2 * dead) + 1)); if (dead + erased > n) continue;
		std::vector<int> which(n); for (int i = 0; i < n; ++i) which[i] = i;
		for (int i = n - 1; i > 0; --i) std::swap(which[i], which[rng.below(i + 1)]);
		std::vector<char> state(n, 0); for (int i = 0; i < dead; ++i) state[which[i]] = 2; for (int i = dead; i < dead + erased; ++i) state[which[i]] = 1;
		vh::crumb("%s(%d,%d) inside RS(%d,%d): %d blocks destroyed, %d silent, run %d", INNER::name(), B, int(INNER::BITS), n, len, dead, erased, it);
		for (int i = 0; i < n; ++i) {
			std::vector<int8_t> c(B);
			in.enc(c.data(), w[i]);
			int amp = 1 + int(rng.below(127)); for (auto &x : c) x = int8_t(x * amp);
			if (state[i] == 2) for (auto &x : c) x = int8_t(rng.range(-127, 127));
			else if (state[i] == 1) std::fill(c.begin(), c.end(), 0);
			else { std::vector<int> f(INNER::RADIUS); int k = rng.coin() ? INNER::RADIUS : int(rng.below(INNER::RADIUS + 1)); rng.choose(f.data(), B, k); for (int j = 0; j < k; ++j) c[f[j]] = int8_t(-c[f[j]]); vh::count("inner_blocks_at_the_radius", k == INNER::RADIUS); }
			int r = in.dec(c.data());
			if (state[i] == 0 && !vh::check(r == w[i], "chain-inner", "%s: block %d decodes to %d instead of %d", INNER::name(), i, r, w[i])) break;
			if (state[i] == 1 && INNER::SOFT) { vh::check(r < 0, "chain-silent", "%s: silence at block %d decodes to %d", INNER::name(), i, r); vh::count("silent_blocks"); }
			if ((state[i] == 1 && !INNER::SOFT) || r < 0) { era.push_back(uint8_t(i)); got[i] = uint8_t(rng.below(N + 1)); ++lost; } else got[i] = uint8_t(r);
			if (state[i] == 2 && r >= 0 && r != w[i]) vh::count("inner_blocks_mistaken");
		}
		int r = dec(got.data(), got.data() + len, era.empty() ? nullptr : era.data(), int(era.size()), len);
		vh::check(r >= 0 && got == w, "chain-outer", "outer code returns %d with %d erasures", r, lost);
		vh::eval(); vh::distinct(vh::hash_bytes(w.data(), w.size(), it)); vh::count("nested_words");
	}
	delete inst;
}
// a header: fields and a CRC packed into bits, a linear code, whitened by a maximum length sequence
template <int N, int K, int O>
static void header(const char *name, std::initializer_list<int> minpols, double noise, int runs)
{
	const int KW = (K + 7) / 8, NW = (N + 7) / 8;
	RNG rng = vh::rng(N * 3 + K);
	static int8_t genmat[N * K];
	CODE::BoseChaudhuriHocquenghemGenerator<N, K>::matrix(genmat, true, minpols);
	CODE::BoseChaudhuriHocquenghemEncoder<N, K> enc(minpols);
	CODE::LinearEncoder<N, K> lin;
	auto *osd = new CODE::OrderedStatisticsDecoder<N, K, O>;
	CODE::CRC<uint16_t> crc(0xA8F4);
	for (int it = 0; it < runs; ++it) {
		CODE::Bitstream<K> bs; bs.reset();
		std::vector<bool> bits;
		crc.reset();
		for (int i = 0; i < K - 16; ++i) { bool b = rng.coin(); bits.push_back(b); bs.putbit(b); crc(b); }
		uint16_t sum = crc();
		for (int i = 0; i < 16; ++i) bs.putbit(sum >> i & 1);
		uint8_t msg[KW] = {}, par[(N - K + 7) / 8], cw[NW], hard[NW];
		bs.seek(0); for (int i = 0; i < K; ++i) CODE::set_be_bit(msg, i, bs.getbit());
		enc(msg, par); lin(cw, msg, genmat);
		bool same = true;
		for (int i = 0; i < N; ++i) same = CODE::get_be_bit(cw, i) == (i < K ? CODE::get_be_bit(msg, i) : CODE::get_be_bit(par, i - K)) && same;
		vh::check(same, "chain-header-encoders", "%s: generator matrix and BCH encoder disagree", name);
		int8_t soft[N]; CODE::MLS mls, mls2; int flips = 0;
		for (int i = 0; i < N; ++i) {
			double x = (CODE::get_be_bit(cw, i) ^ mls()) ? -1 : 1; x += noise * rng.normal();
			double v = std::nearbyint(32 * x); soft[i] = int8_t(std::max(-127., std::min(127., v)));
			flips += (soft[i] < 0) != bool(CODE::get_be_bit(cw, i) ^ mls2());
		}
		vh::crumb("%s header, %d of %d signs wrong, run %d", name, flips, N, it);
		CODE::MLS demask; for (int i = 0; i < N; ++i) if (demask()) soft[i] = int8_t(-soft[i]);
		bool unique = (*osd)(hard, soft, genmat);
		crc.reset(); bool right = unique;
		for (int i = 0; i < K - 16; ++i) { bool b = CODE::get_be_bit(hard, i); crc(b); right = right && b == bits[i]; }
		for (int i = 0; i < 16; ++i) crc(CODE::get_be_bit(hard, K - 16 + i));
		vh::check(right && crc() == 0, "chain-header", "%s: header not recovered: unique=%d crc=%x", name, unique, unsigned(crc()));
		vh::eval(); vh::distinct(vh::hash_bytes(soft, N)); vh::count("headers"); vh::count_max("header_sign_errors_max", flips);
	}
	delete osd;
}
int main(int argc, char **argv)
{
	vh::init(argc, argv);
	int n = vh::reps(500, 10000);
	nested<Had<8>, 0b100011101, 32, 0>(n); nested<Had<6>, 0b1000011, 16, 1>(n); nested<Had<4>, 0b10011, 4, 0>(n * 4); nested<Had<3>, 0b1011, 2, 1>(n * 4);
	nested<Sim<8>, 0b100011101, 16, 1>(n); nested<Sim<5>, 0b100101, 8, 0>(n * 2); nested<Sim<3>, 0b1011, 4, 0>(n * 4);
	nested<Sho<15, 5, 0b10100110111, 3>, 0b100101, 8, 1>(n * 2); nested<Sho<15, 7, 0b111010001, 2>, 0b10001001, 20, 0>(n);
	header<255, 71, 2>("BCH(255,71)", {
		0b100011101, 0b101110111, 0b111110011, 0b101101001,
		0b110111101, 0b111100111, 0b100101011, 0b111010111,
		0b000010011, 0b101100101, 0b110001011, 0b101100011,
		0b100011011, 0b100111111, 0b110001101, 0b100101101,
		0b101011111, 0b111111001, 0b111000011, 0b100111001,
		0b110101001, 0b000011111, 0b110000111, 0b110110001}, 0.45, vh::reps(200, 6000));
	header<127, 64, 2>("BCH(127,64)", {
		0b10001001, 0b10001111, 0b10011101,
		0b11110111, 0b10111111, 0b11010101,
		0b10000011, 0b11101111, 0b11001011}, 0.35, vh::reps(400, 12000));
	return vh::finish();
}
#endif

#if PART == 2
#include "galois_field.hh"
#include "bitman.hh"
#include "interleave.hh"
#include "bose_chaudhuri_hocquenghem_encoder.hh"
#include "bose_chaudhuri_hocquenghem_decoder.hh"
#include "simd.hh"
#include "rotate.hh"
#include "ldpc_encoder.hh"
#include "ldpc_decoder.hh"
#include "dvb_tables.hh"

// a frame of the broadcast standard: BCH outside, LDPC inside, bits interleaved by columns
int main(int argc, char **argv)
{
	vh::init(argc, argv);
	typedef DVB_T2_TABLE_B7 TABLE;
	typedef CODE::GaloisField<14, 0b100000000101011, uint16_t> GF;
	const int N = TABLE::N, K = TABLE::K, KB = K - 168, T = 12, COLS = 12;
	RNG rng = vh::rng(9);
	GF *inst = new GF;
	CODE::BoseChaudhuriHocquenghemEncoder<16383, 16215> bch({
		0b100000000101011, 0b100100101000001, 0b100011001000111,
		0b101010110010001, 0b110101101010101, 0b110001110001001,
		0b110110011100101, 0b100111100100001, 0b100011000001111,
		0b101101001001001, 0b101100000010001, 0b110010111101111});
	auto *unbch = new CODE::BoseChaudhuriHocquenghemDecoder<24, 1, 16215, GF>;
	auto *enc = new CODE::LDPCEncoder<TABLE>; auto *dec = new CODE::LDPCDecoder<TABLE, 1>;
	std::vector<int8_t> code(N), sent(N), wire(N), soft(N);
	Bytes frame(K / 8), back(K / 8);
	int runs = vh::reps(600, 20000);
	for (int it = 0; it < runs; ++it) {
		for (int i = 0; i < KB / 8; ++i) frame[i] = uint8_t(rng());
		bch(frame.data(), frame.data() + KB / 8, KB);
		for (int i = 0; i < K; ++i) code[i] = 1 - 2 * CODE::get_be_bit(frame.data(), i);
		(*enc)(code.data(), code.data() + K); sent = code;
		CODE::Interleave<N, COLS>(wire.data(), code.data());
		// light noise, noise at the edge with few rounds, or residual errors injected
		int kind = int(rng.below(3)); double sigma = kind == 1 ? 0.42 + 0.08 * rng.uniform() : 0.30 + 0.08 * rng.uniform();
		int trials = kind == 1 ? 1 + int(rng.below(6)) : 25, hard = 0;
		vh::crumb("LDPC(16200,13320)+BCH sigma=%.3f trials=%d run %d", sigma, trials, it);
		for (int i = 0; i < N; ++i) {
			double v = std::nearbyint(4. / (sigma * sigma) * (wire[i] + sigma * rng.normal()));
			wire[i] = int8_t(std::max(-127., std::min(127., v)));
		}
		CODE::Deinterleave<N, COLS>(soft.data(), wire.data());
		for (int i = 0; i < N; ++i) hard += (soft[i] < 0) != (sent[i] < 0);
		int left = (*dec)(soft.data(), soft.data() + K, trials);
		if (kind != 1) vh::check(left >= 0, "chain-ldpc", "light noise, %d wrong signs, not decoded", hard);
		if (kind == 2) { int f[T]; int k = 1 + int(rng.below(T)); rng.choose(f, K, k); for (int i = 0; i < k; ++i) soft[f[i]] = int8_t(soft[f[i]] < 0 ? 5 : -5); }
		int wrong = 0;
		for (int i = 0; i < K; ++i) { bool b = soft[i] < 0; CODE::set_be_bit(back.data(), i, b); wrong += b != (sent[i] < 0); }
		vh::check(kind != 0 || !wrong, "chain-ldpc", "light noise, %d wrong signs, decoded to another word", hard);
		vh::count_max("sign_errors_max", hard); vh::eval(); vh::distinct(vh::hash_bytes(soft.data(), soft.size()));
		if (wrong > T) { vh::count("frames_beyond"); continue; }
		int r = (*unbch)(back.data(), back.data() + KB / 8, nullptr, 0, KB);
		vh::check(r == wrong && back == frame, "chain-frame", "the inner decoder left %d wrong bits (%d wrong signs on the wire), the outer returns %d", wrong, hard, r);
		vh::count(wrong ? "frames_with_residual_errors" : "frames_clean"); vh::count("frames");
	}
	delete enc; delete dec; delete unbch; delete inst;
	return vh::finish();
}
#endif

#if PART == 3
#include "crc.hh"
#include "simd.hh"
#include "xorshift.hh"
#include "interleave.hh"
#include "permute.hh"
#include "polar_helper.hh"
#include "polar_encoder.hh"
#include "polar_freezer.hh"
#include "polar_sequence.hh"
#include "polar_decoder.hh"
#include "polar_list_decoder.hh"
#include "polar_parity_aided.hh"

// CRC and polar list: the checksum picks the path
template <typename VALUE, int L, int M>
static void lists(const char *name, int runs)
{
	typedef SIMD<VALUE, L> TYPE;
	const int N = 1 << M;
	RNG rng = vh::rng(L * 100 + M);
	auto *dec = new CODE::PolarListDecoder<TYPE, M>; auto *par = new CODE::PolarParityDecoder<TYPE, M>;
	auto *seq = new CODE::PolarSeqConst0<M>; std::vector<int> order(N); (*seq)(order.data(), M, 0.3);
	std::vector<uint32_t> frozen(std::max(1, N / 32));
	std::vector<VALUE> msg(N), cw(N), mid(N);
	TYPE *path = new (std::align_val_t(64)) TYPE[N];
	CODE::CRC<uint32_t> crc(0xD419CC15);
	for (int it = 0; it < runs; ++it) {
		int K = N / 4 + int(rng.below(N / 4 + 1)); bool parity = rng.coin(); int S = 32, F = K % (S + 1);
		std::fill(frozen.begin(), frozen.end(), 0);
		for (int i = 0; i < N - K; ++i) frozen[order[i] / 32] |= 1u << order[i] % 32;
		int D = parity ? K - K / (S + 1) : K;
		crc.reset();
		for (int i = 0; i < D - 32; ++i) { bool b = rng.coin(); crc(b); msg[i] = VALUE(1 - 2 * b); }
		uint32_t sum = crc(); for (int i = 0; i < 32; ++i) msg[D - 32 + i] = VALUE(1 - 2 * int(sum >> i & 1));
		if (parity) { CODE::PolarParityEncoder<VALUE> e; e(cw.data(), msg.data(), frozen.data(), M, S, F); } else { CODE::PolarEncoder<VALUE> e; e(cw.data(), msg.data(), frozen.data(), M); }
		CODE::FisherYatesShuffle<N> sh; CODE::ReverseFisherYatesShuffle<N> un; sh(cw.data());
		bool light = rng.coin(); double sigma = light ? 0.45 * rng.uniform() : 0.6 + 0.5 * rng.uniform(); int flips = 0;
		for (int i = 0; i < N; ++i) { double x = cw[i] + sigma * rng.normal(); flips += (x < 0) != (cw[i] < 0); mid[i] = CODE::PolarHelper<VALUE>::quant(16 * x); }
		un(mid.data());
		vh::crumb("%s M=%d K=%d %s sigma=%.3f wrong signs=%d run %d", name, M, K, parity ? "parity aided" : "list", sigma, flips, it);
		int rank[L];
		if (parity) (*par)(rank, path, mid.data(), frozen.data(), M, S, F); else (*dec)(rank, path, mid.data(), frozen.data(), M);
		int pick = -1;
		for (int k = 0; k < L && pick < 0; ++k) {
			crc.reset(); for (int i = 0; i < D; ++i) crc(path[i].v[k] < 0);
			if (crc() == 0) pick = k;
		}
		if (pick < 0 && !light) { vh::count("lists_without_a_match"); vh::eval(); continue; } // too much noise, and the CRC says so
		bool right = pick >= 0; for (int i = 0; i < D && right; ++i) right = (path[i].v[pick] < 0) == (msg[i] < 0);
		vh::check(right, "chain-polar", "message not among the paths that pass the CRC (path %d)", pick);
		vh::eval(); vh::distinct(vh::hash_bytes(mid.data(), N * sizeof(VALUE))); vh::count("polar_frames"); vh::count(pick ? "picked_by_crc" : "picked_first"); vh::count_max("polar_sign_errors_max", flips);
	}
	::operator delete[](path, std::align_val_t(64)); delete dec; delete par; delete seq;
}
int main(int argc, char **argv)
{
	vh::init(argc, argv);
	lists<int8_t, 32, 10>("int8 x32", vh::reps(400, 12000)); lists<int8_t, 16, 8>("int8 x16", vh::reps(2000, 60000)); lists<float, 8, 9>("float x8", vh::reps(800, 20000)); lists<int8_t, 32, 12>("int8 x32", vh::reps(80, 2000)); lists<float, 8, 11>("float x8", vh::reps(60, 2000));
	return vh::finish();
}
#endif
