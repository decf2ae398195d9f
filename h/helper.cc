// Arithmetic primitives of the polar codes (C41): every value type, scalar and vector, every backend.
#include "vh.hh"
#ifdef VERIF_NEON
#include "neon_shim.hh"
#endif
#include "polar_helper.hh"
using namespace vh;

template <typename T> struct Kind;
template <> struct Kind<int8_t> { static const char *name() { return "int8"; } };
template <> struct Kind<int16_t> { static const char *name() { return "int16"; } };
template <> struct Kind<int32_t> { static const char *name() { return "int32"; } };
template <> struct Kind<float> { static const char *name() { return "float"; } };
template <> struct Kind<double> { static const char *name() { return "double"; } };

// the definition, per lane
template <typename T> struct Def
{
	static T signum(T v) { return v > 0 ? 1 : v < 0 ? -1 : 0; }
	static T qabs(T a) { return a < 0 ? -a : a; }
	static T qadd(T a, T b) { return a + b; }
	static T mul(T a, T b) { return a * b; }
	static T prod(T a, T b) { T x = qabs(a), y = qabs(b), m = x < y ? x : y; return (a > 0 && b > 0) || (a < 0 && b < 0) ? m : a == 0 || b == 0 ? 0 : -m; }
	static T madd(T a, T b, T c) { return a * b + c; }
};
template <> struct Def<int8_t>
{
	typedef int8_t T;
	static int cl(int v) { return v < -127 ? -127 : v > 127 ? 127 : v; }
	static T signum(T v) { return v > 0 ? 1 : v < 0 ? -1 : 0; }
	static T qabs(T a) { return std::abs(cl(a)); }
	static T qadd(T a, T b) { return cl(int(a) + int(b)); }
	static T mul(T a, T b) { return int(a) * int(b); }
	static T prod(T a, T b) { int m = std::min(std::abs(cl(a)), std::abs(cl(b))); return (a > 0) == (b > 0) ? (a && b ? m : 0) : (a && b ? -m : 0); }
	static T madd(T a, T b, T c) { return cl(int(a) * cl(b) + cl(c)); }
};

template <typename T> static T draw(RNG &r)
{
	if (sizeof(T) == 1) return r.coin(30) ? T(r.coin() ? 127 : -127) : r.coin(20) ? T(r.range(-2, 2)) : T(r.range(-127, 127));
	if (std::is_same<T, int16_t>::value) return r.coin(10) ? T(r.coin() ? 16383 : -16383) : r.coin(20) ? T(r.range(-2, 2)) : T(r.range(-16383, 16383));
	if (std::is_same<T, int32_t>::value) return r.coin(20) ? T(r.range(-2, 2)) : T(r.range(-1000000000, 1000000000));
	// exactly representable sums and products, so that the order of rounding does not matter
	return r.coin(20) ? T(r.range(-1, 1)) : T(r.range(-(1 << 18), 1 << 18)) * T(std::ldexp(1.0, r.range(-2, 2)));
}
template <typename T> static T hard(RNG &r) { return T(r.coin(10) ? 0 : r.coin() ? 1 : -1); }

template <typename T> static std::string str(T v) { char b[40]; std::snprintf(b, sizeof b, "%.17g", double(v)); return b; }

#define SAME(OP, got, want, ...) do { T g_ = (got), w_ = (want); eval(); \
	if (!(g_ == w_)) { std::string s_; for (T x_ : std::initializer_list<T>{__VA_ARGS__}) s_ += " " + str(x_); \
		check(false, (std::string("helper:" OP ":") + where).c_str(), "%s: %s of%s is %s instead of %s", where, OP, s_.c_str(), str(g_).c_str(), str(w_).c_str()); } } while (0)

template <typename T> static void one_scalar(const char *where, T a, T b, T h, T k, T c)
{
	typedef CODE::PolarHelper<T> H;
	typedef Def<T> D;
	SAME("signum", H::signum(a), D::signum(a), a);
	SAME("qabs", H::qabs(a), D::qabs(a), a);
	SAME("qmin", H::qmin(a, b), b < a ? b : a, a, b);
	SAME("qadd", H::qadd(a, b), D::qadd(a, b), a, b);
	SAME("qmul", H::qmul(h, k), D::mul(h, k), h, k);
	SAME("prod", H::prod(a, b), D::prod(a, b), a, b);
	SAME("madd", H::madd(h, b, c), D::madd(h, b, c), h, b, c);
	distinct(mix(mix(hash_bytes(&a, sizeof a), hash_bytes(&b, sizeof b)), mix(hash_bytes(&c, sizeof c), int(h) * 3 + sizeof(T) * 16)));
}

template <typename T> static void scalar(double q, double t)
{
	const char *where = Kind<T>::name();
	typedef CODE::PolarHelper<T> H;
	RNG r = rng(sizeof(T) + 100 * std::is_floating_point<T>::value);
	crumb("PolarHelper<%s>", where);
	SAME("one", H::one(), T(1), T(1));
	SAME("zero", H::zero(), T(0), T(0));
	if (sizeof(T) == 1)
		for (int a = -128; a < 128; ++a)
			for (int b = -128; b < 128; ++b) {
				if (a > -128 && b > -128) { one_scalar<T>(where, a, b, a < 0 ? -1 : 1, b < 0 ? -1 : 1, a); one_scalar<T>(where, a, b, a & 2 ? -1 : 1, 0, b); one_scalar<T>(where, b, a, 0, 1, b); one_scalar<T>(where, a, a, a & 1 ? 1 : -1, 1, b); }
				else { SAME("qabs", H::qabs(a), Def<T>::qabs(a), T(a)); SAME("prod", H::prod(a, b), Def<T>::prod(a, b), T(a), T(b)); SAME("signum", H::signum(a), Def<T>::signum(a), T(a)); }
			}
	for (int n = reps(q, t); n--;) {
		T a = draw<T>(r), b = r.coin(15) ? a : r.coin(15) ? T(-a) : draw<T>(r);
		one_scalar<T>(where, a, b, hard<T>(r), hard<T>(r), r.coin(15) ? b : draw<T>(r));
	}
	count("types");
}

// conversions of channel values to 8 bit: nearest, saturated to plus and minus 127
template <typename IN> static void quant(const char *from)
{
	RNG r = rng(sizeof(IN) + 31 * std::is_floating_point<IN>::value);
	auto one = [&](double v) {
		IN in = IN(v);
		double x = double(in), f = std::floor(x), d = x - f;
		double want = d < 0.5 ? f : d > 0.5 ? f + 1 : std::fmod(f, 2) == 0 ? f : f + 1;
		want = std::min(127.0, std::max(-127.0, want));
		int got = CODE::PolarHelper<int8_t>::quant(in);
		crumb("quantise %s %.17g", from, x);
		check(got == int(want), (std::string("helper:quant:") + from).c_str(), "%.17g is quantised to %d instead of %d", x, got, int(want));
		eval();
		distinct(mix(hash_bytes(&in, sizeof in), 77));
	};
	for (int i = -600; i <= 600; ++i) { one(i); one(i / 2.0); one(i / 4.0); one(i / 2.0 + 1e-5); one(i / 2.0 - 1e-5); one(i * 1000.0); if (!std::is_integral<IN>::value) { one(i * 1e20); one(i * 1e-20); } }
	for (int n = reps(2000, 100000); n--;) one(r.normal() * 60);
	count("quantisers");
}

template <typename T, int W> static void vector(double q, double t)
{
	typedef SIMD<T, W> V;
	typedef CODE::PolarHelper<V> H;
	typedef Def<T> D;
	char where[40];
	std::snprintf(where, sizeof where, "SIMD<%s,%d>", Kind<T>::name(), W);
	RNG r = rng(mix(sizeof(T) + 100 * std::is_floating_point<T>::value, W));
	crumb("PolarHelper<%s>", where);
	V one = H::one(), zero = H::zero();
	for (int i = 0; i < W; ++i) { SAME("one", one.v[i], T(1), T(1)); SAME("zero", zero.v[i], T(0), T(0)); }
	for (int n = reps(q, t); n--;) {
		V a, b, c, h, k;
		bool all = sizeof(T) == 1 && r.coin(10);
		for (int i = 0; i < W; ++i) {
			a.v[i] = draw<T>(r); b.v[i] = r.coin(15) ? a.v[i] : r.coin(15) ? T(-a.v[i]) : draw<T>(r); c.v[i] = r.coin(15) ? b.v[i] : draw<T>(r);
			h.v[i] = hard<T>(r); k.v[i] = hard<T>(r);
			if (all && r.coin()) a.v[i] = r.range(-128, 127);
			if (all && r.coin(20)) b.v[i] = r.range(-128, 127);
		}
		V s = H::signum(a), ab = H::qabs(a), ad = H::qadd(a, b), m = H::qmul(h, k), p = H::prod(a, b), f = H::madd(h, all ? c : b, c);
		if constexpr (sizeof(T) > 1) { // the 8 bit vectors offer no minimum
			V l = H::qmin(a, b);
			for (int i = 0; i < W; ++i) SAME("qmin", l.v[i], b.v[i] < a.v[i] ? b.v[i] : a.v[i], a.v[i], b.v[i]);
		}
		for (int i = 0; i < W; ++i) {
			T x = a.v[i], y = b.v[i], z = c.v[i], u = h.v[i];
			SAME("signum", s.v[i], D::signum(x), x);
			SAME("qabs", ab.v[i], D::qabs(x), x);
			if (sizeof(T) > 1 || int(x) + int(y) >= -127) SAME("qadd", ad.v[i], D::qadd(x, y), x, y);
			else { check(ad.v[i] <= -127, "helper:qadd:saturation", "%s: %d plus %d is %d", where, int(x), int(y), int(ad.v[i])); eval(); } // -128 stands for -127
			SAME("qmul", m.v[i], D::mul(u, k.v[i]), u, k.v[i]);
			SAME("prod", p.v[i], D::prod(x, y), x, y);
			SAME("madd", f.v[i], D::madd(u, all ? z : y, z), u, all ? z : y, z);
		}
		distinct(mix(hash_bytes(a.v, sizeof(T) * W), hash_bytes(b.v, sizeof(T) * W)));
	}
	count("vector_types");
}
int main(int argc, char **argv)
{
	init(argc, argv);
	scalar<int8_t>(100000, 4000000); scalar<int32_t>(100000, 4000000); scalar<float>(100000, 4000000); scalar<double>(100000, 4000000); scalar<int16_t>(100000, 4000000);
	quant<float>("float"); quant<double>("double"); quant<int>("int");
	vector<int8_t, 1>(20000, 400000); vector<int8_t, 4>(10000, 200000); vector<int8_t, 8>(10000, 200000); vector<int8_t, 16>(10000, 400000); vector<int8_t, 32>(10000, 400000); vector<int8_t, 64>(6000, 200000); vector<int8_t, 128>(3000, 100000); vector<int8_t, 256>(1000, 50000); vector<int8_t, 24>(3000, 100000); vector<int8_t, 48>(3000, 100000);
	vector<float, 1>(20000, 400000); vector<float, 2>(10000, 200000); vector<float, 4>(10000, 200000); vector<float, 8>(10000, 200000); vector<float, 16>(6000, 200000); vector<float, 32>(3000, 100000); vector<float, 64>(1000, 50000); vector<float, 12>(3000, 100000);
	vector<double, 1>(20000, 400000); vector<double, 2>(10000, 200000); vector<double, 4>(10000, 200000); vector<double, 8>(10000, 200000); vector<double, 16>(3000, 100000); vector<double, 32>(1000, 50000); vector<double, 6>(3000, 100000);
	return finish();
}
