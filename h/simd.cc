// Vector operations (C25), in-register sorting (C27), lane rotation (C31).
// PART 0..9: one lane type each of float double int8 int16 int32 int64 uint8 uint16 uint32 uint64; PART 10, 11: rotation.
#include "vh.hh"
#ifdef VERIF_NEON
#include "neon_shim.hh"
#endif
#include "simd.hh"
#include "simd_sort.hh"
#include "rotate.hh"
using namespace vh;

static const char *backend =
#ifdef __ARM_NEON
	"neon";
#elif defined(__AVX2__)
	"avx2";
#elif defined(__SSE4_1__)
	"sse4.1";
#else
	"generic";
#endif

template <typename T> struct Name;
#define N(t) template <> struct Name<t> { static const char *s() { return #t; } };
N(float) N(double) N(int8_t) N(int16_t) N(int32_t) N(int64_t) N(uint8_t) N(uint16_t) N(uint32_t) N(uint64_t)
#undef N

template <typename T> struct Lane
{
	typedef typename std::make_unsigned<T>::type U;
	static const bool FLT = false, SGN = std::is_signed<T>::value;
	static T any(RNG &r)
	{
		const T lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
		switch (r.range(0, 7)) {
		case 0: return lo + T(r.range(0, 1));
		case 1: return hi - T(r.range(0, 1));
		case 2: return T(r.range(-2, 2));
		case 3: return T(U(1) << r.range(0, int(sizeof(T)) * 8 - 1));
		case 4: return T(r.range(-20, 20));
		default: return T(r() >> r.range(0, 8));
		}
	}
	// operands whose sum, difference and product exist in the type (the 8 and 16 bit types wrap by definition)
	static T safe(RNG &r)
	{
		if (sizeof(T) < 4)
			return any(r);
		int64_t x = int64_t(r() >> r.range(sizeof(T) == 4 ? 34 : 2, 63));
		return T(SGN && r.coin() ? -x : x);
	}
	static T tame(RNG &r) { return sizeof(T) < 4 ? any(r) : T(r.range(-40000, 40000)); }
};

template <typename F, typename B> struct FLane
{
	typedef B U;
	static const bool FLT = true, SGN = true;
	static F any(RNG &r)
	{
		switch (r.range(0, 7)) {
		case 0: return F(r.range(-3, 3));
		case 1: return F(r.coin() ? 1 : -1) * std::numeric_limits<F>::max();
		case 2: return F(r.coin() ? 1 : -1) * std::numeric_limits<F>::min();
		case 3: return F(r.range(-127, 127));
		case 4: return F(r.normal() * 1e20);
		case 5: return F(r.normal() * 1e-20);
		default: return F(r.normal());
		}
	}
	static F safe(RNG &r) { F x = any(r); return std::abs(x) > F(1e30) ? F(1e15) : x; }
	static F tame(RNG &r) { return std::floor(F(r.normal() * 1000)) / 8; }
};
template <> struct Lane<float> : FLane<float, uint32_t> {};
template <> struct Lane<double> : FLane<double, uint64_t> {};

template <typename V> static std::string lanes(V a)
{
	return show(a.v, V::SIZE, 12);
}

template <typename T, int W> struct Ops
{
	typedef SIMD<T, W> V;
	typedef typename Lane<T>::U U;
	typedef SIMD<U, W> VU;
	typedef typename std::conditional<Lane<T>::FLT, T, typename std::make_signed<U>::type>::type S_;
	static V fill(RNG &r, int kind)
	{
		V a;
		for (int i = 0; i < W; ++i)
			a.v[i] = kind == 0 ? Lane<T>::any(r) : kind == 1 ? Lane<T>::safe(r) : Lane<T>::tame(r);
		return a;
	}
	static VU bits(RNG &r)
	{
		VU a;
		for (int i = 0; i < W; ++i)
			a.v[i] = r.coin(4) ? 0 : r.coin(4) ? U(-1) : U(r());
		return a;
	}
	static U raw(T x) { U u; std::memcpy(&u, &x, sizeof(u)); return u; }
	static U mask(bool c) { return c ? U(-1) : U(0); }

	template <typename R, typename F, typename A, typename B>
	static void judge(const char *op, R got, F ref, A a, B b, bool bitwise = false)
	{
		eval();
		for (int i = 0; i < W; ++i) {
			auto want = ref(i);
			typename R::value_type w = want, g = got.v[i];
			bool ok = bitwise ? std::memcmp(&w, &g, sizeof(w)) == 0 : w == g;
			if (!ok) {
				char key[80];
				std::snprintf(key, sizeof(key), "%s/%s/%s", op, Name<T>::s(), backend);
				check(false, key, "%s on %d lanes of %s (%s): lane %d is %.17g, expected %.17g; a=%s b=%s", op, W, Name<T>::s(), backend, i,
					double(g), double(w), lanes(a).c_str(), lanes(b).c_str());
				return;
			}
		}
	}
#define J1(op, R, expr) { R g = op(a); judge(#op, g, [&](int i) -> typename R::value_type { T x = a.v[i]; (void)x; return expr; }, a, a); }
#define J2(op, R, expr) { R g = op(a, b); judge(#op, g, [&](int i) -> typename R::value_type { T x = a.v[i], y = b.v[i]; (void)x; (void)y; return expr; }, a, b); }
#define B2(op, expr) { VU g = op(p, q); judge(#op, g, [&](int i) -> U { U x = p.v[i], y = q.v[i]; (void)y; return U(expr); }, p, q); }

	static void shuffle(RNG &r)
	{
		V a = fill(r, 0);
		VU b;
		int how = r.range(0, 3), k = r.range(0, W - 1);
		for (int i = 0; i < W; ++i)
			b.v[i] = U(how == 0 ? r.range(0, W - 1) : how == 1 ? (i + k) % W : how == 2 ? W - 1 - i : k);
		V g = vshuf(a, b);
		judge("vshuf", g, [&](int i) { return a.v[b.v[i]]; }, a, b, true);
	}
	static void common(RNG &r)
	{
		T x = Lane<T>::any(r);
		judge("vdup", vdup<V>(x), [&](int) { return x; }, V(vdup<V>(x)), V(vdup<V>(x)), true);
		V z = vzero<V>();
		judge("vzero", z, [&](int) { return T(0); }, z, z, true);
		V a = fill(r, 0);
		VU au;
		for (int i = 0; i < W; ++i)
			au.v[i] = raw(a.v[i]);
		VU ra = vreinterpret<VU>(a);
		judge("vreinterpret", ra, [&](int i) { return au.v[i]; }, au, au, true);
		V back = vreinterpret<V>(au);
		judge("vreinterpret", back, [&](int i) { return a.v[i]; }, au, au, true);
		shuffle(r);
	}
	static void order(RNG &r, bool tell)
	{
		V a;
		int how = r.range(0, 5);
		for (int i = 0; i < W; ++i)
			a.v[i] = how == 0 ? Lane<T>::any(r) : how == 1 ? T(r.range(0, 1)) : how == 2 ? T(r.range(0, 3)) : how == 3 ? T(i / 2)
				: how == 4 ? T(W - i) : Lane<T>::tame(r);
		if (how == 1 && Lane<T>::SGN)
			for (int i = 0; i < W; ++i)
				a.v[i] = T(a.v[i] * T(2) - T(1));
		std::vector<int> idx(W);
		for (int i = 0; i < W; ++i)
			idx[i] = i;
		std::stable_sort(idx.begin(), idx.end(), [&](int x, int y) { return a.v[x] < a.v[y]; });
		V s = vsort(a);
		auto p = vorder(a);
		static_assert(std::is_same<decltype(p), VU>::value, "order of lanes has the unsigned type");
		eval();
		distinct(hash_bytes(a.v, sizeof(T) * W, W));
		bool okv = true, oki = true, both = true;
		for (int i = 0; i < W; ++i) {
			okv = okv && s.v[i] == a.v[idx[i]];
			oki = oki && p.v[i] == U(idx[i]);
			both = both && (p.v[i] < U(W) || W > 255) && (W > 255 || s.v[i] == a.v[p.v[i] % W]);
		}
		check(okv, "vsort", "vsort of %d %s lanes %s gives %s", W, Name<T>::s(), lanes(a).c_str(), lanes(s).c_str());
		check(oki, "vorder", "vorder of %d %s lanes %s gives %s", W, Name<T>::s(), lanes(a).c_str(), lanes(p).c_str());
		check(both, "agree", "vorder and vsort disagree on %s", lanes(a).c_str());
		bool tie = false;
		for (int i = 1; i < W; ++i)
			tie = tie || a.v[idx[i]] == a.v[idx[i - 1]];
		count(tie ? "orders_with_ties" : "orders_without_ties");
	}
	static void order_all()
	{
		// every key sequence over three values
		if (W > 8)
			return;
		int n = 1;
		for (int i = 0; i < W; ++i)
			n *= 3;
		for (int c = 0; c < n; ++c) {
			V a;
			int k = c;
			for (int i = 0; i < W; ++i, k /= 3)
				a.v[i] = T(k % 3);
			std::vector<int> idx(W);
			for (int i = 0; i < W; ++i)
				idx[i] = i;
			std::stable_sort(idx.begin(), idx.end(), [&](int x, int y) { return a.v[x] < a.v[y]; });
			V s = vsort(a);
			auto p = vorder(a);
			bool ok = true;
			for (int i = 0; i < W; ++i)
				ok = ok && s.v[i] == a.v[idx[i]] && p.v[i] == U(idx[i]);
			eval();
			distinct(mix(mix(W, sizeof(T)), c));
			count("sequences_enumerated");
			check(ok, "order_all", "%d %s lanes %s sorted to %s order %s", W, Name<T>::s(), lanes(a).c_str(), lanes(s).c_str(), lanes(p).c_str());
		}
	}
};

// signed and floating lanes
template <typename T, int W> static void signed_ops(RNG &r)
{
	typedef Ops<T, W> O;
	typedef typename O::V V;
	typedef typename O::VU VU;
	typedef typename O::U U;
	auto judge = [](auto... x) { O::judge(x...); };
	auto mask = [](bool c) { return c ? U(-1) : U(0); };
	V a = O::fill(r, 0), b = O::fill(r, 0);
	for (int i = 0; i < W; ++i)
		if (r.coin(4))
			b.v[i] = a.v[i];
	distinct(hash_bytes(a.v, sizeof(T) * W, hash_bytes(b.v, sizeof(T) * W, W)));
	{ VU g = vmask(a); judge("vmask", g, [&](int i) -> U { return O::raw(a.v[i]); }, a, a); }
	J1(vcgtz, VU, mask(x > 0)) J1(vceqz, VU, mask(x == 0)) J1(vcltz, VU, mask(x < 0)) J1(vclez, VU, mask(x <= 0))
	J2(vceq, VU, mask(x == y)) J2(vcgt, VU, mask(x > y))
	J2(vmin, V, std::min(x, y)) J2(vmax, V, std::max(x, y))
	J1(vsignum, V, T((x > 0) - (x < 0)))
	{
		T lo = Lane<T>::any(r), hi = Lane<T>::any(r);
		if (lo > hi)
			std::swap(lo, hi);
		V g = vclamp(a, lo, hi);
		judge("vclamp", g, [&](int i) -> T { return std::min(std::max(a.v[i], lo), hi); }, a, vdup<V>(lo));
		V h = vclamp(a, lo, lo);
		judge("vclamp", h, [&](int) -> T { return lo; }, a, vdup<V>(lo));
	}
	// the smallest integer of the 32 and 64 bit types has no negative
	if (!Lane<T>::FLT && sizeof(T) >= 4)
		for (int i = 0; i < W; ++i)
			if (a.v[i] == std::numeric_limits<T>::min())
				a.v[i] += 1;
	J1(vneg, V, T(-x)) J1(vabs, V, T(x < 0 ? -x : x))
	J2(vsign, V, T(((y > 0) - (y < 0)) * x))
	a = O::fill(r, 1); b = O::fill(r, 1);
	J2(vadd, V, T(x + y)) J2(vsub, V, T(x - y))
	a = O::fill(r, 2); b = O::fill(r, 2);
	J2(vmul, V, T(x * y)) J2(vadd, V, T(x + y)) J2(vsub, V, T(x - y))
}

template <typename T, int W> static void integer_ops(RNG &r)
{
	typedef Ops<T, W> O;
	typedef typename O::V V;
	typedef typename O::VU VU;
	typedef typename O::U U;
	auto judge = [](auto... x) { O::judge(x...); };
	V a = O::fill(r, 0);
	{ VU g = vunsigned(a); judge("vunsigned", g, [&](int i) { return U(a.v[i]); }, a, a); }
	{ VU p = O::bits(r); V g = vsigned(p); judge("vsigned", g, [&](int i) { return T(p.v[i]); }, p, p); }
	J1(vqabs, V, T(x == std::numeric_limits<T>::min() ? std::numeric_limits<T>::max() : x < 0 ? -x : x))
}

template <typename T, int W> static void saturating_ops(RNG &r)
{
	typedef Ops<T, W> O;
	typedef typename O::V V;
	auto judge = [](auto... x) { O::judge(x...); };
	const int lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
	V a = O::fill(r, 0), b = O::fill(r, 0);
	J2(vqadd, V, T(std::min(std::max(int(x) + int(y), lo), hi)))
	J2(vqsub, V, T(std::min(std::max(int(x) - int(y), lo), hi)))
}

template <typename T, int W> static void unsigned_ops(RNG &r)
{
	typedef Ops<T, W> O;
	typedef typename O::V V;
	typedef typename O::VU VU;
	typedef typename O::U U;
	auto judge = [](auto... x) { O::judge(x...); };
	VU p = O::bits(r), q = O::bits(r), m = O::bits(r);
	distinct(hash_bytes(p.v, sizeof(T) * W, hash_bytes(q.v, sizeof(T) * W, W)));
	{ VU g = vnot(p); judge("vnot", g, [&](int i) { return U(~p.v[i]); }, p, p); }
	B2(vorr, x | y) B2(vand, x & y) B2(veor, x ^ y) B2(vbic, x & U(~y))
	{ VU g = vbsl(m, p, q); judge("vbsl", g, [&](int i) { return U((m.v[i] & p.v[i]) | (U(~m.v[i]) & q.v[i])); }, p, q); }
	V a = O::fill(r, 0), b = O::fill(r, 0);
	for (int i = 0; i < W; ++i)
		if (r.coin(4))
			b.v[i] = a.v[i];
	J2(vcgt, VU, x > y ? U(-1) : U(0))
}

template <typename T, int W> static void unsigned_sub(RNG &r)
{
	typedef Ops<T, W> O;
	typedef typename O::V V;
	auto judge = [](auto... x) { O::judge(x...); };
	V a = O::fill(r, 0), b = O::fill(r, 0);
	J2(vqsub, V, T(x > y ? x - y : 0))
}

template <typename T, int W> static void copysign_ops(RNG &r)
{
	typedef Ops<T, W> O;
	typedef typename O::V V;
	typedef typename O::U U;
	V a = O::fill(r, 0), b = O::fill(r, 0);
	const U top = U(1) << (sizeof(T) * 8 - 1);
	for (int i = 0; i < W; ++i)
		if (r.coin(4))
			b.u[i] = r.coin() ? top : 0;
	V g = vcopysign(a, b);
	typename O::VU gu;
	for (int i = 0; i < W; ++i)
		gu.v[i] = g.u[i];
	O::judge("vcopysign", gu, [&](int i) -> U { return (a.u[i] & ~top) | (b.u[i] & top); }, a, b);
}

// every value of a byte against every other
template <typename T, int W> static void byte_pairs()
{
	typedef Ops<T, W> O;
	typedef SIMD<T, W> V;
	typedef typename O::VU VU;
	typedef uint8_t U;
	auto judge = [](auto... x) { O::judge(x...); };
	auto mask = [](bool c) { return c ? U(-1) : U(0); };
	for (int k = 0; k < 65536; k += W) {
		V a, b;
		for (int i = 0; i < W; ++i) {
			a.v[i] = T((k + i) & 255);
			b.v[i] = T((k + i) >> 8);
		}
		const int lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
		if constexpr (std::is_signed<T>::value) {
			J2(vqadd, V, T(std::min(std::max(int(x) + int(y), lo), hi))) J2(vadd, V, T(x + y)) J2(vsub, V, T(x - y)) J2(vmul, V, T(x * y))
			J2(vsign, V, T(((y > 0) - (y < 0)) * x)) J2(vmin, V, std::min(x, y)) J2(vmax, V, std::max(x, y)) J2(vceq, VU, mask(x == y))
			J1(vqabs, V, T(x == lo ? hi : x < 0 ? -x : x)) J1(vabs, V, T(x < 0 ? -x : x)) J1(vneg, V, T(-x)) J1(vsignum, V, T((x > 0) - (x < 0)))
			J1(vcgtz, VU, mask(x > 0)) J1(vceqz, VU, mask(x == 0)) J1(vcltz, VU, mask(x < 0)) J1(vclez, VU, mask(x <= 0))
		} else {
			VU p = a, q = b;
			B2(vorr, x | y) B2(vand, x & y) B2(veor, x ^ y) B2(vbic, x & U(~y))
		}
		J2(vcgt, VU, mask(x > y))
		J2(vqsub, V, T(std::min(std::max(int(x) - int(y), lo), hi)))
		distinct(mix(mix(77, W), k));
	}
	count("byte_tables");
}

template <typename T, int W> static void all_ops(uint64_t salt)
{
	typedef Ops<T, W> O;
#if !defined(ONLY_SORT)
	if (section("O")) {
		RNG r = rng(mix(salt, W));
		crumb("%s x %d operations", Name<T>::s(), W);
		int n = reps(4000, 400000) / (W > 16 ? 4 : 1);
		for (int i = 0; i < n; ++i) {
			O::common(r);
			if constexpr (Lane<T>::SGN)
				signed_ops<T, W>(r);
			else
				unsigned_ops<T, W>(r);
			if constexpr (Lane<T>::SGN && !Lane<T>::FLT)
				integer_ops<T, W>(r);
			if constexpr (Lane<T>::SGN && sizeof(T) < 4)
				saturating_ops<T, W>(r);
			if constexpr (!Lane<T>::SGN && sizeof(T) < 4)
				unsigned_sub<T, W>(r);
			if constexpr (Lane<T>::FLT)
				copysign_ops<T, W>(r);
		}
		if constexpr (sizeof(T) == 1)
			if (mine(W))
				byte_pairs<T, W>();
		count("type_width_pairs");
	}
#endif
#if !defined(ONLY_OPS)
	if (section("S")) {
		RNG r = rng(mix(salt, 1000 + W));
		crumb("%s x %d sort", Name<T>::s(), W);
		int n = reps(3000, 300000) / (W > 16 ? 4 : 1);
		for (int i = 0; i < n; ++i)
			O::order(r, false);
		if (mine(W))
			O::order_all();
	}
#endif
}

template <typename T> static void all_widths(uint64_t salt)
{
	const int L = 16 / sizeof(T);
	all_ops<T, 1>(salt);
	all_ops<T, 3>(salt);
	if constexpr (L != 4)
		all_ops<T, 4>(salt);
	if constexpr (L != 8 && L != 4)
		all_ops<T, 8>(salt);
	all_ops<T, L>(salt);
	if constexpr (2 * L != 4)
		all_ops<T, 2 * L>(salt);
	all_ops<T, 3 * L>(salt);
	if constexpr (4 * L != 8)
		all_ops<T, 4 * L>(salt);
	all_ops<T, 8 * L>(salt);
}

template <typename T, int SIZE, int W> static void rotation(uint64_t salt)
{
	typedef SIMD<T, SIZE> V;
	RNG r = rng(mix(mix(salt, SIZE), W));
	crumb("rotate %d of %d lanes of %s", W, SIZE, Name<T>::s());
	auto judge = [&](CODE::Rotate<V, W> &rot, V a, int s) {
		V g = rot(a, s);
		eval();
		distinct(mix(hash_bytes(a.v, sizeof(T) * SIZE, W), uint64_t(int64_t(s))));
		bool ok = true;
		int bad = 0;
		for (int i = 0; i < W; ++i)
			if (!(g.v[((i + s) % W + W) % W] == a.v[i])) {
				ok = false;
				bad = i;
			}
		check(ok, "rotate", "%d of %d lanes of %s by %d: lane %d lost, %s -> %s", W, SIZE, Name<T>::s(), s, bad, lanes(a).c_str(), lanes(g).c_str());
	};
	Placed<CODE::Rotate<V, W>> rot(r.range(0, 255));
	// every shift, random walk through shifts on one object, and copies of it
	for (int rep = 0; rep < std::max(1, reps(6, 300)); ++rep)
		for (int s = 1 - W; s < W; ++s) {
			V a;
			for (int i = 0; i < SIZE; ++i)
				a.v[i] = rep ? Lane<T>::any(r) : T(i + 1);
			judge(*rot, a, s);
		}
	count("widths_with_all_shifts");
	for (int i = 0, n = reps(40, 2000); i < n; ++i) {
		V a;
		for (int j = 0; j < SIZE; ++j)
			a.v[j] = Lane<T>::any(r);
		judge(*rot, a, r.range(1 - W, W - 1));
		if (i % 16 == 0) {
			CODE::Rotate<V, W> twin = *rot;
			judge(twin, a, r.range(1 - W, W - 1));
			int s = r.range(1 - W, W - 1);
			V b = twin(twin(a, s), -s);
			check(std::equal(a.v, a.v + W, b.v), "inverse", "rotation by %d and back changed the lanes", s);
		}
	}
}
template <typename T, int SIZE, int... W> static void rotations(uint64_t salt, std::integer_sequence<int, W...>)
{
	(rotation<T, SIZE, W + 1>(salt), ...);
}
template <typename T, int SIZE> static void rot_all(uint64_t salt) { rotations<T, SIZE>(salt, std::make_integer_sequence<int, SIZE>()); }

int main(int argc, char **argv)
{
	init(argc, argv);
#if PART == 0
	all_widths<float>(1);
#elif PART == 1
	all_widths<double>(2);
#elif PART == 2
	all_widths<int8_t>(3);
#elif PART == 3
	all_widths<int16_t>(4);
#elif PART == 4
	all_widths<int32_t>(5);
#elif PART == 5
	all_widths<int64_t>(6);
#elif PART == 6
	all_widths<uint8_t>(7);
#elif PART == 7
	all_widths<uint16_t>(8);
#elif PART == 8
	all_widths<uint32_t>(9);
#elif PART == 9
	all_widths<uint64_t>(10);
#elif PART == 10
	rot_all<int8_t, 16>(11);
	rot_all<int8_t, 32>(12);
#elif PART == 11
	rot_all<int8_t, 1>(13);
	rot_all<int8_t, 7>(14);
	rot_all<uint8_t, 16>(15);
	rot_all<float, 8>(16);
	rot_all<float, 4>(16);
	rot_all<int16_t, 8>(17);
	rot_all<int16_t, 16>(17);
	rot_all<int32_t, 8>(18);
	rot_all<int64_t, 4>(19);
	rot_all<double, 4>(20);
	rotation<int8_t, 48, 48>(21);
	rotation<int8_t, 64, 64>(22);
	rotation<int8_t, 64, 45>(23);
	rotation<int8_t, 48, 30>(24);
	rotation<int8_t, 128, 45>(25);
	rotation<int8_t, 128, 128>(25);
#endif
	return finish();
}
