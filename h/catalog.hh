// Every codec and utility class of the library behind one interface: make an object in
// memory of chosen content, copy it, generate an input, run one call and return all its
// outputs as bytes. GROUP selects a family so that the harnesses compile in parallel.
#pragma once
#include "vh.hh"
#ifdef VERIF_NEON
#include "neon_shim.hh"
#endif
#ifndef GROUP
#define GROUP PART
#endif
#if GROUP <= 1
#include "galois_field.hh"
#include "reed_solomon_encoder.hh"
#include "reed_solomon_decoder.hh"
#include "bose_chaudhuri_hocquenghem_encoder.hh"
#include "bose_chaudhuri_hocquenghem_decoder.hh"
#elif GROUP == 2
#include "galois_field.hh"
#include "prime_field.hh"
#include "cauchy_reed_solomon_erasure_coding.hh"
#include "cauchy_prime_field_erasure_coding.hh"
#elif GROUP == 3
#include "hadamard_encoder.hh"
#include "hadamard_decoder.hh"
#include "simplex_encoder.hh"
#include "simplex_decoder.hh"
#include "short_bch_code_encoder.hh"
#include "short_bch_code_decoder.hh"
#include "osd.hh"
#elif GROUP == 4
#include "ldpc_encoder.hh"
#include "ldpc_decoder.hh"
#include "dvb_tables.hh"
#include "syn_tables.hh"
#elif GROUP == 5 || GROUP == 6
#include "polar_encoder.hh"
#include "polar_decoder.hh"
#include "polar_freezer.hh"
#include "polar_sequence.hh"
#include "polar_list_decoder.hh"
#include "polar_parity_aided.hh"
#elif GROUP == 7
#include "crc.hh"
#include "xorshift.hh"
#include "mls.hh"
#include "bitman.hh"
#include "bitstream.hh"
#include "sort.hh"
#include "permute.hh"
#include "interleave.hh"
#include "exclusive_reduce.hh"
#include "simd.hh"
#include "simd_sort.hh"
#include "rotate.hh"
#endif

namespace vh {
// one instance of a field for the whole program
template <typename GF> GF &field() { static GF *gf = new GF; return *gf; }
}

namespace cat {
using namespace vh;
typedef std::vector<uint8_t> Bytes;

struct Codec {
	std::string name;
	int cost;			// roughly, in microseconds per call
	bool portable;			// same outputs in every build
	std::function<std::shared_ptr<void>(int fill)> make;
	std::function<std::shared_ptr<void>(const void *from, int fill)> clone;
	std::function<void(void *to, const void *from)> assign;
	std::function<Bytes(RNG &)> gen;
	std::function<Bytes(void *obj, const Bytes &in, int dirt)> call;
};

inline std::vector<Codec> &all() { static std::vector<Codec> c; return c; }

template <typename T, typename... A>
std::shared_ptr<void> build(int fill, A &&...a)
{
	size_t al = alignof(T) < 64 ? 64 : alignof(T), sz = (sizeof(T) + al - 1) / al * al;
	void *mem = ::aligned_alloc(al, sz);
	std::memset(mem, fill, sz);
	forget(mem, sz);
	if constexpr (sizeof...(A) == 0)
		new (mem) T;
	else
		new (mem) T(std::forward<A>(a)...);
	return std::shared_ptr<void>(mem, [](void *p) { static_cast<T *>(p)->~T(); ::free(p); });
}

// gen: RNG -> Bytes; call: (T &, const Bytes &, int dirt) -> Bytes
template <typename T, typename G, typename C>
void add(const std::string &name, int cost, bool portable, G gen, C call, std::function<std::shared_ptr<void>(int)> make = nullptr)
{
	Codec c;
	c.name = name; c.cost = cost; c.portable = portable;
	if constexpr (std::is_default_constructible<T>::value)
		c.make = [](int fill) { return build<T>(fill); };
	if (make)
		c.make = make;
	c.clone = [](const void *from, int fill) { return build<T>(fill, *static_cast<const T *>(from)); };
	if constexpr (std::is_copy_assignable<T>::value)
		c.assign = [](void *to, const void *from) { *static_cast<T *>(to) = *static_cast<const T *>(from); };
	c.gen = gen;
	c.call = [call](void *o, const Bytes &in, int dirt) { return call(*static_cast<T *>(o), in, dirt); };
	all().push_back(std::move(c));
}

// ---- plain values in and out of byte strings
struct Out {
	Bytes b;
	template <typename T> Out &put(const T &v) { const uint8_t *p = reinterpret_cast<const uint8_t *>(&v); b.insert(b.end(), p, p + sizeof(T)); return *this; }
	template <typename T> Out &put(const T *p, size_t n) { const uint8_t *q = reinterpret_cast<const uint8_t *>(p); b.insert(b.end(), q, q + n * sizeof(T)); return *this; }
};
// what was handed over for reading, to be compared when the buffer goes (effects.cc)
struct Given { const void *p; Bytes was; };
struct Watch { bool on = false, changed = false; uint64_t compared = 0; std::vector<Given> given; };
inline Watch &watch() { static Watch w; return w; }
inline void leave(const void *p, size_t bytes)
{
	Watch &w = watch();
	if (!w.on) return;
	for (size_t i = 0; i < w.given.size();) {
		const char *q = static_cast<const char *>(w.given[i].p), *lo = static_cast<const char *>(p);
		if (q < lo || q >= lo + bytes) { ++i; continue; }
		++w.compared;
		if (std::memcmp(q, w.given[i].was.data(), w.given[i].was.size())) w.changed = true;
		w.given.erase(w.given.begin() + long(i));
	}
}
struct In {
	const Bytes &b;
	size_t at = 0;
	explicit In(const Bytes &b) : b(b) {}
	template <typename T> T get() { T v; std::memcpy(&v, &b[at], sizeof(T)); at += sizeof(T); return v; }
	template <typename T> void get(T *p, size_t n) { if (n) std::memcpy(p, &b[at], n * sizeof(T)); if (n && watch().on) watch().given.push_back({p, Bytes(b.begin() + long(at), b.begin() + long(at + n * sizeof(T)))}); at += n * sizeof(T); }
};
// a heap buffer of exact size with previous content
template <typename T> struct Buf {
	T *p; size_t n;
	Buf(size_t n, int dirt) : n(n) { p = static_cast<T *>(::malloc(n * sizeof(T) + (n == 0))); std::memset(static_cast<void *>(p), dirt, n * sizeof(T)); if (dirt) forget(p, n * sizeof(T)); }
	Buf(const Buf &) = delete;
	~Buf() { leave(p, n * sizeof(T)); ::free(p); }
	T &operator[](size_t i) { return p[i]; }
	operator T *() { return p; }
};
template <typename T> struct ABuf { // aligned for vector types
	T *p; size_t n;
	ABuf(size_t n, int dirt) : n(n) { size_t s = (n * sizeof(T) + 63) / 64 * 64; p = static_cast<T *>(::aligned_alloc(64, s ? s : 64)); std::memset(static_cast<void *>(p), dirt, s); if (dirt) forget(p, s); }
	ABuf(const ABuf &) = delete;
	~ABuf() { leave(p, n * sizeof(T)); ::free(p); }
	T &operator[](size_t i) { return p[i]; }
	operator T *() { return p; }
};


// soft values around a bipolar word: clean, noisy, hopeless, tied, extreme
inline void soften(RNG &r, int8_t *s, int n, int lowest = -128)
{
	int how = r.range(0, 7);
	int spread = how <= 1 ? 6 : how == 2 ? 14 : 30;	// integers only: the same input in every build
	int amp = r.range(1, 127);
	for (int i = 0; i < n; ++i) {
		int v = s[i];
		if (how <= 3) {
			v *= 32;
			for (int k = 0; k < 8; ++k) v += r.range(-spread, spread);
		}
		else if (how == 4) v *= amp;
		else if (how == 5) v = r.range(-128, 127);
		else if (how == 6) v = r.coin(8) ? -v * 3 : v * 3;
		else v = r.coin(3) ? 0 : r.coin() ? 127 : -128;
		s[i] = int8_t(std::max(lowest, std::min(127, v)));
	}
}

#if GROUP == 0
template <int M, int POLY, typename T, int NR, int FCR> void rs()
{
	typedef CODE::GaloisField<M, POLY, T> GF;
	field<GF>();
	typedef CODE::ReedSolomonEncoder<NR, FCR, GF> ENC;
	typedef CODE::ReedSolomonDecoder<NR, FCR, GF> DEC;
	const int K = GF::N - NR;
	std::string n = "rs(M=" + std::to_string(M) + ",NR=" + std::to_string(NR) + ",FCR=" + std::to_string(FCR) + ")";
	auto length = [=](RNG &r) { return r.coin(3) ? K : r.range(1, r.coin() ? K : std::min(K, 20)); };
	add<ENC>(n + " encoder", 20, true, [=](RNG &r) { Out o; int dl = length(r); o.put(dl); for (int i = 0; i < dl; ++i) o.put(T(r.below(GF::N + 1))); return o.b; },
		[=](ENC &enc, const Bytes &b, int dirt) {
			In in(b); int dl = in.get<int>(); Buf<T> d(dl, 0), p(NR, dirt & int(GF::N)); in.get(d.p, dl);
			enc(d.p, p.p, dl);
			return Out().put(d.p, dl).put(p.p, NR).b; });
	auto enc = [] { static ENC *e = new ENC; return e; };	// made when first used, for C37
	add<DEC>(n + " decoder", 60, true, [=](RNG &r) {
			Out o; int dl = length(r), e, s;
			std::vector<T> w(dl + NR);
			for (int i = 0; i < dl; ++i) w[i] = T(r.below(GF::N + 1));
			(*enc())(w.data(), w.data() + dl, dl);
			if (r.coin(3)) { e = r.range(0, std::min(dl + NR, NR)); s = r.range(0, NR); } else { s = r.range(0, NR); e = (NR - s) / 2; if (r.coin(4)) e = std::min(e + 1, dl + NR); }
			s = std::min(s, dl + NR);
			std::vector<int> pos(dl + NR); for (int i = 0; i < dl + NR; ++i) pos[i] = i;
			for (int i = dl + NR - 1; i > 0; --i) std::swap(pos[i], pos[r.below(i + 1)]);
			std::vector<T> era(NR);
			for (int i = 0; i < s; ++i) { era[i] = T(pos[i]); w[pos[i]] = T(r.below(GF::N + 1)); }
			for (int i = 0; i < e && s + i < dl + NR; ++i) w[pos[s + i]] ^= T(1 + r.below(GF::N));
			if (r.coin(10)) for (auto &x : w) x = T(r.below(GF::N + 1));
			o.put(dl).put(s).put(w.data(), w.size()).put(era.data(), NR);
			return o.b; },
		[=](DEC &dec, const Bytes &b, int) {
			In in(b); int dl = in.get<int>(), s = in.get<int>(); Buf<T> d(dl, 0), p(NR, 0), era(s, 0);
			in.get(d.p, dl); in.get(p.p, NR); in.get(era.p, s);
			int rv = dec(d.p, p.p, era.p, s, dl);
			return Out().put(rv).put(d.p, dl).put(p.p, NR).b; });
}
inline void fill_catalog()
{
	rs<4, 0x13, uint8_t, 6, 1>();
	rs<4, 0x13, uint8_t, 5, 0>();
	rs<8, 0x11d, uint8_t, 32, 0>();
	rs<8, 0x187, uint8_t, 16, 112>();
	rs<8, 0x11d, uint16_t, 7, 1>();
	rs<10, 0x409, uint16_t, 20, 1>();
}
#elif GROUP == 1
template <typename GF, int NR, int FCR, int K> void bch(std::initializer_list<int> polys)
{
	field<GF>();
	const int N = GF::N, NP = N - K;
	typedef typename GF::value_type T;
	typedef typename GF::ValueType VT;
	typedef typename GF::IndexType IT;
	typedef CODE::BoseChaudhuriHocquenghemEncoder<N, K> ENC;
	typedef CODE::BoseChaudhuriHocquenghemDecoder<NR, FCR, K, GF> DEC;
	typedef CODE::BoseChaudhuriHocquenghemEncoderReference<NR, FCR, K, GF> RENC;
	typedef CODE::BoseChaudhuriHocquenghemDecoderReference<NR, FCR, K, GF> RDEC;
	std::string n = "bch(" + std::to_string(N) + "," + std::to_string(K) + ",FCR=" + std::to_string(FCR) + ")";
	auto length = [=](RNG &r) { return r.coin(3) ? K : r.range(1, r.coin() ? K : std::min(K, 40)); };
	const int DB = (K + 7) / 8, PB = (NP + 7) / 8;
	add<ENC>(n + " encoder", 20, true, [=](RNG &r) { Out o; o.put(length(r)); for (int i = 0; i < DB; ++i) o.put(uint8_t(r())); return o.b; },
		[=](ENC &enc, const Bytes &b, int dirt) {
			In in(b); int dl = in.get<int>(); Buf<uint8_t> d(DB, 0), p(PB, dirt); in.get(d.p, DB);
			enc(d.p, p.p, dl);
			if (NP % 8) p[PB - 1] &= uint8_t(0xff << (8 - NP % 8));
			return Out().put(d.p, DB).put(p.p, PB).b; },
		[=](int fill) { return build<ENC>(fill, polys); });
	add<RENC>(n + " reference encoder", 60, true, [=](RNG &r) { Out o; int dl = length(r); o.put(dl); for (int i = 0; i < dl; ++i) o.put(uint8_t(r.coin())); return o.b; },
		[=](RENC &enc, const Bytes &b, int dirt) {
			In in(b); int dl = in.get<int>(); Buf<VT> d(dl, 0), p(NP, dirt & 1);
			for (int i = 0; i < dl; ++i) d[i] = VT(in.get<uint8_t>());
			enc(d.p, p.p, dl);
			Out o; for (int i = 0; i < dl; ++i) o.put(d[i].v); for (int i = 0; i < NP; ++i) o.put(p[i].v);
			return o.b; },
		[=](int fill) { return build<RENC>(fill, polys); });
	auto enc = [=] { static ENC *e = new ENC(polys); return e; };
	auto received = [=](RNG &r) {
		Out o; int dl = length(r), e, s, len = dl + NP;
		std::vector<uint8_t> d(DB), p(PB);
		for (auto &x : d) x = uint8_t(r());
		(*enc())(d.data(), p.data(), dl);
		std::vector<uint8_t> w(len);
		for (int i = 0; i < dl; ++i) w[i] = d[i / 8] >> (7 - i % 8) & 1;
		for (int i = 0; i < NP; ++i) w[dl + i] = p[i / 8] >> (7 - i % 8) & 1;
		if (r.coin(3)) { e = r.range(0, NR); s = r.range(0, NR); } else { s = r.coin() ? 0 : r.range(0, NR); e = (NR - s) / 2; if (r.coin(4)) ++e; }
		std::vector<int> pos(len); for (int i = 0; i < len; ++i) pos[i] = i;
		for (int i = len - 1; i > 0; --i) std::swap(pos[i], pos[r.below(i + 1)]);
		s = std::min(s, len);
		std::vector<int> era(NR, 0);
		for (int i = 0; i < s; ++i) { era[i] = pos[i]; w[pos[i]] = r.coin(); }
		for (int i = 0; i < e && s + i < len; ++i) w[pos[s + i]] ^= 1;
		if (r.coin(10)) for (auto &x : w) x = r.coin();
		o.put(dl).put(s).put(w.data(), len).put(era.data(), NR);
		return o.b; };
	add<DEC>(n + " decoder", 60, true, received, [=](DEC &dec, const Bytes &b, int) {
			In in(b); int dl = in.get<int>(), s = in.get<int>(); Buf<uint8_t> d((dl + 7) / 8, 0), p(PB, 0); Buf<T> era(s, 0);
			for (int i = 0; i < dl; ++i) d[i / 8] |= in.get<uint8_t>() << (7 - i % 8);
			for (int i = 0; i < NP; ++i) p[i / 8] |= in.get<uint8_t>() << (7 - i % 8);
			for (int i = 0; i < s; ++i) era[i] = T(in.get<int>());
			int rv = dec(d.p, p.p, era.p, s, dl);
			return Out().put(rv).put(d.p, d.n).put(p.p, p.n).b; });
	add<RDEC>(n + " reference decoder", 60, true, received, [=](RDEC &dec, const Bytes &b, int) {
			In in(b); int dl = in.get<int>(), s = in.get<int>(); Buf<VT> d(dl, 0), p(NP, 0); Buf<IT> era(s, 0);
			for (int i = 0; i < dl; ++i) d[i] = VT(in.get<uint8_t>());
			for (int i = 0; i < NP; ++i) p[i] = VT(in.get<uint8_t>());
			for (int i = 0; i < s; ++i) era[i] = IT(in.get<int>());
			int rv = dec(d.p, p.p, era.p, s, dl);
			Out o; o.put(rv); for (int i = 0; i < dl; ++i) o.put(d[i].v); for (int i = 0; i < NP; ++i) o.put(p[i].v);
			return o.b; });
}
inline void fill_catalog()
{
	static const std::initializer_list<int> a = {0x13, 0x1f, 0x7}, b = {0x11d, 0x177, 0x1f3, 0x169}, c = {0b1000011, 0b1010111, 0b1100111};
	bch<CODE::GaloisField<4, 0x13, uint8_t>, 6, 1, 5>(a);
	bch<CODE::GaloisField<8, 0x11d, uint8_t>, 8, 1, 255 - 32>(b);
	bch<CODE::GaloisField<6, 0b1000011, uint16_t>, 6, 1, 63 - 18>(c);
}
#elif GROUP == 2
template <int M, int POLY, typename T> void crs()
{
	typedef CODE::GaloisField<M, POLY, T> GF;
	field<GF>();
	typedef CODE::CauchyReedSolomonErasureCoding<GF> C;
	std::string n = "crs(M=" + std::to_string(M) + ")";
	auto gen = [=](RNG &r) {
		Out o; int cnt = r.range(1, M == 4 ? 7 : r.coin(8) ? 60 : 12), len = r.coin() ? r.range(1, 40) : 16 * r.range(1, 6), off = r.range(0, 3), idx = r.range(0, cnt - 1);
		o.put(cnt).put(len).put(off).put(idx);
		std::vector<int> ids(GF::N - cnt + 1); for (size_t i = 0; i < ids.size(); ++i) ids[i] = cnt + int(i);
		for (int i = 0; i < cnt; ++i) { std::swap(ids[i], ids[i + r.below(ids.size() - i)]); o.put(T(ids[i])); }
		for (int i = 0; i < cnt * len; ++i) o.put(T(r.below(GF::N + 1)));
		return o.b; };
	auto align = [](void *p, int off) { return reinterpret_cast<T *>((reinterpret_cast<uintptr_t>(p) + 63) / 64 * 64 + (off ? off * sizeof(T) : 0)); };
	add<C>(n + " encode", 20, true, gen, [=](C &c, const Bytes &b, int dirt) {
			In in(b); int cnt = in.get<int>(), len = in.get<int>(), off = in.get<int>(); in.get<int>();
			std::vector<T> ids(cnt); in.get(ids.data(), cnt);
			Buf<uint8_t> da(cnt * len * sizeof(T) + 128, 0), ba(len * sizeof(T) + 128, dirt & int(GF::N));
			T *d = align(da.p, off), *k = align(ba.p, off); in.get(d, cnt * len);
			Out o;
			for (int i = 0; i < cnt && i < 3; ++i) { c.encode(d, k, ids[i], len, cnt); o.put(k, len); }
			return o.b; });
	add<C>(n + " decode", 40, true, gen, [=](C &c, const Bytes &b, int dirt) {
			In in(b); int cnt = in.get<int>(), len = in.get<int>(), off = in.get<int>(), idx = in.get<int>();
			std::vector<T> ids(cnt); in.get(ids.data(), cnt);
			Buf<uint8_t> da(cnt * len * sizeof(T) + 128, 0), ba(len * sizeof(T) + 128, dirt & int(GF::N));
			T *d = align(da.p, off), *k = align(ba.p, off); in.get(d, cnt * len);
			c.decode(k, d, ids.data(), idx, len, cnt);
			return Out().put(k, len).b; });
}
template <typename PF, typename IO, int MAX> void cpf()
{
	typedef CODE::CauchyPrimeFieldErasureCoding<PF, IO, MAX> C;
	const int TOP = int(PF::P) - 1;
	std::string n = "cpf(" + std::to_string(PF::P) + ")";
	auto gen = [=](RNG &r) {
		Out o; int cnt = r.range(1, 10), len = r.range(1, std::min(MAX, 40)), idx = r.range(0, cnt - 1), style = r.range(0, 3);
		o.put(cnt).put(len).put(idx);
		for (int i = 0, id = cnt; i < cnt; ++i, id += 1 + r.range(0, 8)) o.put(IO(id));
		for (int i = 0; i < cnt; ++i) o.put(IO(r.below(TOP)));
		for (int i = 0; i < cnt * len; ++i) o.put(IO(style == 0 ? 0 : style == 1 ? TOP - 1 : r.below(TOP)));
		return o.b; };
	add<C>(n + " encode", 20, true, gen, [=](C &c, const Bytes &b, int dirt) {
			In in(b); int cnt = in.get<int>(), len = in.get<int>(); in.get<int>();
			Buf<IO> ids(cnt, 0), subs(cnt, 0), d(cnt * len, 0), k(len, dirt); in.get(ids.p, cnt); in.get(subs.p, cnt); in.get(d.p, cnt * len);
			Out o;
			for (int i = 0; i < cnt && i < 3; ++i) { int s = c.encode(d.p, k.p, ids[i], len, cnt); o.put(s).put(k.p, len); }
			return o.b; });
	add<C>(n + " decode", 40, true, gen, [=](C &c, const Bytes &b, int dirt) {
			In in(b); int cnt = in.get<int>(), len = in.get<int>(), idx = in.get<int>();
			Buf<IO> ids(cnt, 0), subs(cnt, 0), d(cnt * len, 0), k(len, dirt); in.get(ids.p, cnt); in.get(subs.p, cnt); in.get(d.p, cnt * len);
			c.decode(k.p, d.p, subs.p, ids.p, idx, len, cnt);
			return Out().put(k.p, len).b; });
}
inline void fill_catalog()
{
	crs<4, 0x13, uint8_t>();
	crs<8, 0x11d, uint8_t>();
	crs<8, 0x187, uint8_t>();
	crs<16, 0x1100b, uint16_t>();
	cpf<CODE::PrimeField<uint32_t, 257>, uint8_t, 64>();
	cpf<CODE::PrimeField<uint32_t, 65537>, uint16_t, 64>();
}
#elif GROUP == 3
template <template <int> class ENC, template <int> class DEC, int K, bool FULL> void biorth(const char *name)
{
	const int W = FULL ? 1 << (K - 1) : (1 << K) - 1;
	std::string n = std::string(name) + "(" + std::to_string(K) + ")";
	typedef ENC<K> E; typedef DEC<K> D;
	auto enc = [] { static E *e = new E; return e; };
	add<E>(n + " encoder", 1, true, [=](RNG &r) { return Out().put(r.range(0, (1 << K) - 1)).b; },
		[=](E &e, const Bytes &b, int dirt) { In in(b); Buf<int8_t> c(W, dirt); e(c.p, in.get<int>()); return Out().put(c.p, W).b; });
	add<D>(n + " decoder", 2, true, [=](RNG &r) { std::vector<int8_t> c(W); (*enc())(c.data(), r.range(0, (1 << K) - 1)); soften(r, c.data(), W); return Out().put(c.data(), W).b; },
		[=](D &d, const Bytes &b, int) { In in(b); Buf<int8_t> c(W, 0); in.get(c.p, W); int v = d(c.p); return Out().put(v).put(c.p, W).b; });
}
template <int N, int K, int POLY, int T> void sbch()
{
	typedef CODE::ShortBCHCodeEncoder<N, K, POLY> E;
	typedef CODE::ShortBCHCodeDecoder<N, K, POLY, T> D;
	std::string n = "short bch(" + std::to_string(N) + "," + std::to_string(K) + ")";
	auto enc = [] { static E *e = new E; return e; };
	add<E>(n + " encoder", 1, true, [=](RNG &r) { return Out().put(r.range(0, (1 << K) - 1)).b; },
		[=](E &e, const Bytes &b, int dirt) { In in(b); int m = in.get<int>(); Buf<int8_t> c(N, dirt); int x = e(m), y = e(c.p, m); (void)y; return Out().put(x).put(c.p, N).b; });
	add<D>(n + " decoder", 5, true, [=](RNG &r) {
			std::vector<int8_t> c(N); int m = r.range(0, (1 << K) - 1); (*enc())(c.data(), m); soften(r, c.data(), N);
			int h = r.coin() ? int(r.below(uint64_t(1) << N)) : (*enc())(m) ^ int(1u << r.below(N)) ^ int(1u << r.below(N));
			return Out().put(h).put(c.data(), N).b; },
		[=](D &d, const Bytes &b, int) { In in(b); int h = in.get<int>(); Buf<int8_t> c(N, 0); in.get(c.p, N); int x = d(h), y = d(c.p); return Out().put(x).put(y).put(c.p, N).b; });
}
template <int N, int K, int O, int L> void osd()
{
	typedef CODE::OrderedStatisticsDecoder<N, K, O> D;
	typedef CODE::OrderedStatisticsListDecoder<N, K, O, L> LD;
	std::string n = "osd(" + std::to_string(N) + "," + std::to_string(K) + "," + std::to_string(O) + ")";
	auto gen = [=](RNG &r) {
		std::vector<int8_t> g(N * K), s(N);
		bool bern = r.coin();
		for (int j = 0; j < K; ++j) for (int i = 0; i < N; ++i) g[N * j + i] = i < K ? i == j : int8_t(bern ? r.coin() : (i + j) % 3 == 0);
		if (r.coin()) for (int k = 0; k < 3 * N; ++k) { int a = r.range(0, N - 1), c = r.range(0, N - 1); for (int j = 0; j < K; ++j) std::swap(g[N * j + a], g[N * j + c]); }
		for (int j = 0; j < K; ++j) { int bit = r.coin(); for (int i = 0; i < N; ++i) s[i] ^= bit & g[N * j + i]; }
		for (auto &x : s) x = x ? -1 : 1;
		soften(r, s.data(), N);
		return Out().put(s.data(), N).put(g.data(), N * K).b; };
	const int HB = (N + 7) / 8;
	auto trim = [=](uint8_t *h) { if (N % 8) h[HB - 1] &= uint8_t(0xff << (8 - N % 8)); };
	add<D>(n, 100, true, gen, [=](D &d, const Bytes &b, int dirt) {
			In in(b); Buf<int8_t> s(N, 0), g(N * K, 0); Buf<uint8_t> h(HB, dirt); in.get(s.p, N); in.get(g.p, N * K);
			bool u = d(h.p, s.p, g.p); trim(h.p);
			return Out().put(u).put(h.p, HB).put(s.p, N).put(g.p, N * K).b; });
	add<LD>(n + " list " + std::to_string(L), 100, true, gen, [=](LD &d, const Bytes &b, int dirt) {
			In in(b); Buf<int8_t> s(N, 0), g(N * K, 0); Buf<uint8_t> h(HB * L, dirt); Buf<int> rank(L, dirt); in.get(s.p, N); in.get(g.p, N * K);
			d(rank.p, h.p, s.p, g.p);
			for (int i = 0; i < L; ++i) trim(h.p + HB * i);
			return Out().put(rank.p, L).put(h.p, HB * L).put(s.p, N).b; });
}
inline void fill_catalog()
{
	biorth<CODE::HadamardEncoder, CODE::HadamardDecoder, 2, true>("hadamard");
	biorth<CODE::HadamardEncoder, CODE::HadamardDecoder, 3, true>("hadamard");
	biorth<CODE::HadamardEncoder, CODE::HadamardDecoder, 4, true>("hadamard");
	biorth<CODE::HadamardEncoder, CODE::HadamardDecoder, 5, true>("hadamard");
	biorth<CODE::HadamardEncoder, CODE::HadamardDecoder, 8, true>("hadamard");
	biorth<CODE::SimplexEncoder, CODE::SimplexDecoder, 2, false>("simplex");
	biorth<CODE::SimplexEncoder, CODE::SimplexDecoder, 3, false>("simplex");
	biorth<CODE::SimplexEncoder, CODE::SimplexDecoder, 4, false>("simplex");
	biorth<CODE::SimplexEncoder, CODE::SimplexDecoder, 5, false>("simplex");
	biorth<CODE::SimplexEncoder, CODE::SimplexDecoder, 8, false>("simplex");
	sbch<23, 12, 0b101011100011, 3>();
	sbch<15, 5, 0b10100110111, 3>();
	sbch<7, 4, 0b1011, 1>();
	osd<16, 5, 2, 4>();
	osd<31, 8, 3, 16>();
	osd<63, 20, 2, 32>();
	osd<127, 36, 1, 16>();
}
#elif GROUP == 4
template <typename T> void ldpc(const char *name, int cost)
{
	const int K = T::K, R = T::N - T::K;
	typedef CODE::LDPCEncoder<T> E;
	auto enc = [] { static E *e = new E; return e; };
	add<E>(std::string(name) + " encoder", cost, true, [=](RNG &r) { Out o; bool few = r.coin(4); for (int i = 0; i < K; ++i) o.put(int8_t(few ? (r.coin(40) ? -1 : 1) : r.coin() ? -1 : 1)); return o.b; },
		[=](E &e, const Bytes &b, int dirt) { In in(b); Buf<int8_t> m(K, 0), p(R, dirt); in.get(m.p, K); e(m.p, p.p); return Out().put(m.p, K).put(p.p, R).b; });
	auto gen = [=](RNG &r) {
		std::vector<int8_t> w(K + R); for (int i = 0; i < K; ++i) w[i] = r.coin() ? -1 : 1;
		(*enc())(w.data(), w.data() + K); soften(r, w.data(), K + R);
		return Out().put(r.range(0, 1) ? r.range(0, 5) : 15).put(w.data(), K + R).b; };
	typedef CODE::LDPCDecoder<T, 1> D;
	add<D>(std::string(name) +
#ifdef __AVX2__
		" wide"
#else
		" narrow"
#endif
		" decoder", cost * 10, true, gen, [=](D &d, const Bytes &b, int) {
			In in(b); int tr = in.get<int>(); Buf<int8_t> m(K, 0), p(R, 0); in.get(m.p, K); in.get(p.p, R);
			int v = d(m.p, p.p, tr); return Out().put(v).put(m.p, K).put(p.p, R).b; });
}
inline void fill_catalog()
{
	ldpc<Syn<30, 4, 2, 3, 2, 2, 2>>("ldpc(240)", 5);
	ldpc<Syn<60, 3, 2, 3, 2, 3, 3>>("ldpc(420)", 5);
	ldpc<Syn<30, 5, 2, 3, 2, 3, 6, 1>>("ldpc(270,twins)", 5);
	ldpc<Syn<90, 5, 3, 5, 4, 3, 5>>("ldpc(1080)", 20);
	ldpc<DVB_T2_TABLE_B7>("ldpc(B7)", 400);
}
#elif GROUP == 5 || GROUP == 6
inline void frozen_set(RNG &r, uint32_t *f, int level)
{
	int n = 1 << level, how = r.range(0, 3);
	for (int i = 0; i < std::max(1, n / 32); ++i) f[i] = 0;
	int thr = r.range(0, n);
	for (int i = 0; i < n; ++i) {
		bool fr = how == 0 ? r.coin() : how == 1 ? __builtin_popcount(i) < level / 2 + 1 : how == 2 ? i < thr : __builtin_popcount(i) * n / level + i < n;
		if (fr) f[i / 32] |= 1u << i % 32;
	}
	f[(n - 1) / 32] &= ~(1u << (n - 1) % 32);
}
inline int informed(const uint32_t *f, int n) { int k = 0; for (int i = 0; i < n; ++i) k += !(f[i / 32] >> i % 32 & 1); return k; }
template <typename T> T widen(int v) { if constexpr (std::is_arithmetic<T>::value) return T(v); else return vdup<T>(v); }

#if GROUP == 5
template <typename T, int MAX> void sc(const char *name)
{
	typedef CODE::PolarDecoder<T, MAX> D;
	add<D>(std::string("polar sc ") + name, 20, true, [=](RNG &r) {
			Out o; int level = r.range(5, MAX), n = 1 << level, K;
			std::vector<uint32_t> f(n / 32); frozen_set(r, f.data(), level); K = informed(f.data(), n);
			std::vector<int8_t> m(K), c(n);
			for (auto &x : m) x = r.coin() ? -1 : 1;
			CODE::PolarEncoder<int8_t> e; e(c.data(), m.data(), f.data(), level); soften(r, c.data(), n, -127);
			o.put(level).put(f.data(), f.size()).put(c.data(), n);
			return o.b; },
		[=](D &d, const Bytes &b, int dirt) {
			In in(b); int level = in.get<int>(), n = 1 << level; Buf<uint32_t> f(n / 32, 0); in.get(f.p, n / 32);
			int K = informed(f.p, n);
			ABuf<T> c(n, 0), m(K, dirt);
			for (int i = 0; i < n; ++i) {
				int v = in.get<int8_t>();
				if constexpr (std::is_arithmetic<T>::value) c[i] = T(v);
				else for (int k = 0; k < T::SIZE; ++k) c[i].v[k] = typename T::value_type(k & 1 ? v : -v / (k + 1));
			}
			d(m.p, c.p, f.p, level);
			Out o;
			if constexpr (std::is_arithmetic<T>::value) o.put(m.p, K); else for (int i = 0; i < K; ++i) o.put(m[i].v, T::SIZE);
			return o.b; });
}
template <typename T> void enc(const char *name)
{
	typedef CODE::PolarEncoder<T> E; typedef CODE::PolarSysEnc<T> S; typedef CODE::PolarParityEncoder<T> P;
	auto gen = [=](RNG &r) {
		Out o; int level = r.range(5, 10), n = 1 << level;
		std::vector<uint32_t> f(n / 32); frozen_set(r, f.data(), level); int K = informed(f.data(), n);
		int stride = r.range(1, 40), first = r.range(0, 40);
		o.put(level).put(stride).put(first).put(f.data(), f.size());
		for (int i = 0; i < K; ++i) o.put(int8_t(r.coin() ? 1 : -1));
		return o.b; };
	auto common = [=](auto &e, const Bytes &b, int dirt, auto run) {
		In in(b); int level = in.get<int>(), stride = in.get<int>(), first = in.get<int>(), n = 1 << level; Buf<uint32_t> f(n / 32, 0); in.get(f.p, n / 32);
		int K = informed(f.p, n); ABuf<T> m(K, 0), c(n, dirt);
		for (int i = 0; i < K; ++i) m[i] = widen<T>(in.get<int8_t>());
		run(e, c.p, m.p, f.p, level, stride, first);
		Out o;
		for (int i = 0; i < n; ++i) if constexpr (std::is_arithmetic<T>::value) o.put(c[i]); else o.put(c[i].v, T::SIZE);
		return o.b; };
	add<E>(std::string("polar encoder ") + name, 10, true, gen, [=](E &e, const Bytes &b, int dirt) { return common(e, b, dirt, [](E &e, T *c, const T *m, const uint32_t *f, int l, int, int) { e(c, m, f, l); }); });
	add<S>(std::string("polar systematic encoder ") + name, 10, true, gen, [=](S &e, const Bytes &b, int dirt) { return common(e, b, dirt, [](S &e, T *c, const T *m, const uint32_t *f, int l, int, int) { e(c, m, f, l); }); });
	add<P>(std::string("polar parity encoder ") + name, 10, true, gen, [=](P &e, const Bytes &b, int dirt) { return common(e, b, dirt, [](P &e, T *c, const T *m, const uint32_t *f, int l, int s, int fi) { e(c, m, f, l, s, fi); }); });
}
inline void fill_catalog()
{
	sc<int8_t, 10>("int8");
	sc<SIMD<int8_t, 16>, 8>("int8x16");
	sc<SIMD<int8_t, 32>, 8>("int8x32");
	sc<float, 9>("float");
	sc<SIMD<float, 4>, 7>("floatx4");
	enc<int8_t>("int8");
	enc<SIMD<int8_t, 32>>("int8x32");
	enc<float>("float");
	typedef CODE::PolarFreezer F; typedef CODE::PolarCodeConst0<10> C; typedef CODE::PolarSeqConst0<10> S;
	auto gen = [](RNG &r) { int level = r.range(1, 10), n = 1 << level; return Out().put(level).put(r.range(0, n)).put(r.range(1, 99) / 100.0).b; };
	add<F>("polar freezer", 10, false, gen, [](F &f, const Bytes &b, int dirt) { In in(b); int l = in.get<int>(); in.get<int>(); double p = in.get<double>(); int n = 1 << l; Buf<uint32_t> z((n + 31) / 32, 0); if (n >= 32) std::memset(z.p, dirt, z.n * 4); int k = f(z.p, l, p, 0.3); return Out().put(k).put(z.p, z.n).b; });
	add<C>("polar construction", 20, false, gen, [](C &f, const Bytes &b, int dirt) { In in(b); int l = in.get<int>(), k = in.get<int>(); double p = in.get<double>(); int n = 1 << l; Buf<uint32_t> z((n + 31) / 32, 0); if (n >= 32) std::memset(z.p, dirt, z.n * 4); f(z.p, l, k, p); return Out().put(z.p, z.n).b; });
	add<S>("polar sequence", 20, false, gen, [](S &f, const Bytes &b, int dirt) { In in(b); int l = in.get<int>(); in.get<int>(); double p = in.get<double>(); Buf<int> z(1 << l, dirt); f(z.p, l, p); return Out().put(z.p, z.n).b; });
}
#else
template <typename T, int MAX, bool PAR> void list(const char *name)
{
	typedef typename std::conditional<PAR, CODE::PolarParityDecoder<T, MAX>, CODE::PolarListDecoder<T, MAX>>::type D;
	typedef typename T::value_type V;
	const int L = T::SIZE;
	add<D>(std::string(PAR ? "polar parity list " : "polar list ") + name, 100, true, [=](RNG &r) {
			Out o; int level = r.range(5, MAX), n = 1 << level, K, stride = r.range(1, 40), first = r.range(0, 40);
			std::vector<uint32_t> f(n / 32); frozen_set(r, f.data(), level); K = informed(f.data(), n);
			std::vector<int8_t> m(K), c(n);
			for (auto &x : m) x = r.coin() ? -1 : 1;
			if (PAR) { CODE::PolarParityEncoder<int8_t> e; e(c.data(), m.data(), f.data(), level, stride, first); }
			else { CODE::PolarEncoder<int8_t> e; e(c.data(), m.data(), f.data(), level); }
			soften(r, c.data(), n, -127);
			o.put(level).put(stride).put(first).put(f.data(), f.size()).put(c.data(), n);
			return o.b; },
		[=](D &d, const Bytes &b, int dirt) {
			In in(b); int level = in.get<int>(), stride = in.get<int>(), first = in.get<int>(), n = 1 << level; Buf<uint32_t> f(n / 32, 0); in.get(f.p, n / 32);
			int K = informed(f.p, n), msgs = K;
			if (PAR) { msgs = 0; int count = first; for (int i = 0; i < K; ++i) if (count) { --count; ++msgs; } else count = stride; }
			Buf<V> c(n, 0); ABuf<T> m(K, dirt); Buf<int> rank(L, dirt);
			for (int i = 0; i < n; ++i) c[i] = V(in.get<int8_t>());
			if (msgs < 1) return Bytes();
			if constexpr (PAR) d(rank.p, m.p, c.p, f.p, level, stride, first); else d(rank.p, m.p, c.p, f.p, level);
			int live = msgs < 8 ? std::min(L, 1 << msgs) : L;
			Out o; o.put(rank.p, live);
			for (int i = 0; i < msgs; ++i) for (int k = 0; k < live; ++k) o.put(m[i].v[k]);
			return o.b; });
}
inline void fill_catalog()
{
	list<SIMD<int8_t, 8>, 7, false>("int8x8");
	list<SIMD<int8_t, 16>, 8, false>("int8x16");
	list<SIMD<int8_t, 32>, 8, false>("int8x32");
	list<SIMD<float, 4>, 7, false>("floatx4");
	list<SIMD<int8_t, 8>, 7, true>("int8x8");
	list<SIMD<int8_t, 16>, 8, true>("int8x16");
	list<SIMD<int8_t, 32>, 8, true>("int8x32");
	list<SIMD<float, 4>, 7, true>("floatx4");
}
#endif
#elif GROUP == 7
inline Bytes random_bytes(RNG &r, int lo, int hi) { int n = r.range(lo, hi); Bytes b(n); for (auto &x : b) x = uint8_t(r()); return b; }
template <typename T> void crc(const char *name, T poly, T start)
{
	typedef CODE::CRC<T> C;
	add<C>(std::string("crc ") + name, 2, true, [](RNG &r) { return random_bytes(r, 1, 60); },
		[=](C &c, const Bytes &b, int) { c.reset(start); for (uint8_t x : b) c(x); c(bool(b[0] & 1)); c(uint32_t(b.size())); return Out().put(c()).b; },
		[=](int fill) { return build<C>(fill, poly); });
}
template <typename P> void prng(const char *name)
{
	add<P>(name, 2, true, [](RNG &r) { return Out().put(r.range(1, 40)).b; }, [](P &p, const Bytes &b, int) { In in(b); int n = in.get<int>(); p.reset(); Out o; for (int i = 0; i < n; ++i) o.put(p()); return o.b; });
}
template <typename V> void lanes(const char *name)
{
	struct Nop { int x; };
	const int W = V::SIZE;
	add<Nop>(std::string("vector order ") + name, 2, true, [=](RNG &r) { Out o; int hi = r.coin() ? 127 : 3; for (int i = 0; i < W; ++i) o.put(typename V::value_type(r.range(0, hi))); return o.b; },
		[=](Nop &, const Bytes &b, int) { In in(b); V v; in.get(v.v, W); V s = vsort(v); auto p = vorder(v); V z = vshuf(v, p); return Out().put(s.v, W).put(p.v, W).put(z.v, W).b; });
	typedef CODE::Rotate<V, W - 1> R;
	add<R>(std::string("rotate ") + name, 2, true, [=](RNG &r) { Out o; o.put(r.range(2 - W, W - 2)); for (int i = 0; i < W; ++i) o.put(typename V::value_type(r.range(-100, 100))); return o.b; },
		[=](R &rot, const Bytes &b, int) { In in(b); int s = in.get<int>(); V v; in.get(v.v, W); V z = rot(v, s); return Out().put(z.v, W - 1).b; });
}
// arithmetic on whole vectors, corner values included; only what is defined for the type on every build
template <typename V> void algebra(const char *name)
{
	struct Nop { int x; };
	typedef typename V::value_type T;
	typedef typename V::uint_type U;
	const int W = V::SIZE;
	add<Nop>(std::string("vector algebra ") + name, 3, true, [=](RNG &r) {
			Out o;
			for (int i = 0; i < 3 * W; ++i) {
				T v;
				if constexpr (std::is_floating_point<T>::value) v = T(r.range(-3, 3)) * T(0.5);
				else if (sizeof(T) <= 2 && r.coin(3)) v = r.coin() ? std::numeric_limits<T>::min() : std::numeric_limits<T>::max();
				else if (sizeof(T) <= 2) v = T(r());
				else v = T(r.range(-1000, 1000));
				o.put(v);
			}
			return o.b; },
		[=](Nop &, const Bytes &b, int) {
			In in(b);
			V x, y, z;
			in.get(x.v, W); in.get(y.v, W); in.get(z.v, W);
			Out o;
			auto see = [&](auto v) { for (int i = 0; i < W; ++i) {
					U l;
					std::memcpy(&l, v.v + i, sizeof l);
					if (std::is_floating_point<typename decltype(v)::value_type>::value && U(l << 1) == 0) l = 0;
					o.put(l);
				} };	// the sign of a zero is open
			see(vadd(x, y)); see(vsub(x, y)); see(vmin(x, y)); see(vmax(x, y));
			see(vclamp(x, -1, 1));
			see(vceqz(x)); see(vceq(x, y)); see(vcgt(x, y)); see(vcgtz(x)); see(vcltz(x)); see(vclez(x));
			if constexpr (std::is_integral<T>::value) see(vbsl(vcgt(x, y), vunsigned(z), vunsigned(y)));
			if constexpr (std::is_signed<T>::value) { see(vsignum(x)); see(vsign(x, y)); see(vneg(vmax(x, vdup<V>(-100)))); }
			if constexpr (std::is_integral<T>::value && std::is_signed<T>::value && sizeof(T) <= 2) { see(vqadd(x, y)); see(vqsub(x, y)); see(vqabs(x)); }
			if constexpr (std::is_integral<T>::value && sizeof(T) <= 2) { see(vqsub(vunsigned(x), vunsigned(y))); }
			return o.b; });
}
template <int N> void perms()
{
	std::string n = std::to_string(N);
	auto gen = [](RNG &r) { Out o; for (int i = 0; i < N; ++i) o.put(uint8_t(r())); return o.b; };
	typedef CODE::FisherYatesShuffle<N> F; typedef CODE::ReverseFisherYatesShuffle<N> R;
	add<F>("shuffle " + n, 3, true, gen, [](F &f, const Bytes &b, int) { Bytes x(b); f(x.data()); return x; });
	add<R>("unshuffle " + n, 3, true, gen, [](R &f, const Bytes &b, int) { Bytes x(b); f(x.data()); return x; });
}
inline void fill_catalog()
{
	crc<uint8_t>("8", 0xD5, 3);
	crc<uint16_t>("16", 0xA001, 0xffff);
	crc<uint32_t>("32", 0xEDB88320u, ~0u);
	crc<uint64_t>("64", 0xC96C5795D7870F42ull, 7);
	prng<CODE::Xorshift32>("xorshift32");
	prng<CODE::Xorshift64>("xorshift64");
	prng<CODE::Xorwow>("xorwow");
	prng<CODE::Xorshift128>("xorshift128");
	typedef CODE::MLS M;
	add<M>("mls", 2, true, [](RNG &r) { return Out().put(r.range(1, 200)).b; }, [](M &m, const Bytes &b, int) { In in(b); int n = in.get<int>(); m.reset(5); Out o; for (int i = 0; i < n; ++i) o.put(m()); return o.b; },
		[](int fill) { return build<M>(fill, 0b1000000001001, 3); });
	lanes<SIMD<int8_t, 16>>("int8x16");
	lanes<SIMD<int8_t, 32>>("int8x32");
	lanes<SIMD<float, 8>>("floatx8");
	lanes<SIMD<int32_t, 4>>("int32x4");
	algebra<SIMD<int8_t, 16>>("int8x16");
	algebra<SIMD<int8_t, 32>>("int8x32");
	algebra<SIMD<int8_t, 48>>("int8x48");
	algebra<SIMD<int8_t, 64>>("int8x64");
	algebra<SIMD<int16_t, 8>>("int16x8");
	algebra<SIMD<int16_t, 16>>("int16x16");
	algebra<SIMD<int32_t, 8>>("int32x8");
	algebra<SIMD<float, 4>>("floatx4");
	algebra<SIMD<float, 8>>("floatx8");
	perms<7>(); perms<64>(); perms<333>();
	typedef CODE::MergeSort<int, 200> MS;
	add<MS>("merge sort", 5, true, [](RNG &r) { Out o; int n = r.range(0, 200), hi = r.coin() ? 5 : 100000; for (int i = 0; i < n; ++i) o.put(r.range(-hi, hi)); return o.b; },
		[](MS &ms, const Bytes &b, int) { int n = b.size() / 4; Buf<int> a(n, 0); In in(b); in.get(a.p, n); ms(a.p, n); return Out().put(a.p, n).b; });
}
#endif
}
