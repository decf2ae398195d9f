// C44: calls outside the limits the interface states are stopped by an assertion. Every call runs in a child of its
// own, which reports how it ended: by an assertion (abort or trap), in another deadly way, or by delivering a result.
// Calls at the limits have to deliver one.
#include "vh.hh"
#include "gfref.hh"
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <climits>
#if PART == 0
#include "galois_field.hh"
#include "reed_solomon_encoder.hh"
#include "reed_solomon_decoder.hh"
#include "cauchy_reed_solomon_erasure_coding.hh"
#include "prime_field.hh"
#include "cauchy_prime_field_erasure_coding.hh"
#elif PART == 1
#include "galois_field.hh"
#include "bose_chaudhuri_hocquenghem_encoder.hh"
#include "bose_chaudhuri_hocquenghem_decoder.hh"
#elif PART == 2
#include "osd.hh"
#else
#include "polar_decoder.hh"
#include "polar_list_decoder.hh"
#include "polar_parity_aided.hh"
#include "polar_freezer.hh"
#include "polar_sequence.hh"
#endif
using vh::RNG;

enum End { DELIVERED, STOPPED, DIED, STUCK };
static std::string told; // what the child had to say
template <typename F>
static End run(F f)
{
	int fd[2];
	if (::pipe(fd)) ::abort();
	pid_t pid = ::fork();
	if (pid == 0) {
		struct itimerval off;
		std::memset(&off, 0, sizeof off);
		::setitimer(ITIMER_PROF, &off, nullptr);
		for (int s : {SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGTRAP, SIGTERM, SIGPROF, SIGALRM}) ::signal(s, SIG_DFL);
		struct rlimit none = {0, 0};
		::setrlimit(RLIMIT_CORE, &none);
		::dup2(fd[1], 2);
		::close(fd[0]);
		struct rlimit cpu = {4, 5};
		::setrlimit(RLIMIT_CPU, &cpu);
		f();
		::_exit(0);
	}
	::close(fd[1]);
	told.clear();
	char b[512];
	for (ssize_t n; (n = ::read(fd[0], b, sizeof b)) > 0 || (n < 0 && errno == EINTR);) if (n > 0 && told.size() < 600) told.append(b, size_t(n));
	::close(fd[0]);
	int st = 0;
	while (::waitpid(pid, &st, 0) < 0 && errno == EINTR);
	vh::st().tick = vh::st().tick + 1;
	if (WIFEXITED(st)) return WEXITSTATUS(st) ? STOPPED : DELIVERED;
	int sig = WTERMSIG(st);
	if (sig == SIGABRT || sig == SIGILL || sig == SIGTRAP) return STOPPED;
	return sig == SIGXCPU || sig == SIGKILL ? STUCK : DIED;
}
static const char *WORDS[] = {"delivered a result", "was stopped", "died of a signal", "never ended"};
template <typename F>
static void judge(bool refuse, const std::string &what, const std::string &detail, F f)
{
	vh::crumb("%s %s", what.c_str(), detail.c_str());
	End e = run(f);
	vh::eval();
	vh::distinct(vh::hash_bytes(detail.data(), detail.size(), vh::hash_bytes(what.data(), what.size())));
	vh::count(refuse ? "misuses" : "uses_at_the_limit");
	if (refuse) vh::check(e == STOPPED, ("accepted:" + what).c_str(), "%s: %s %s", what.c_str(), detail.c_str(), WORDS[e]);
	else vh::check(e == DELIVERED, ("refused:" + what).c_str(), "%s: %s %s: %s", what.c_str(), detail.c_str(), WORDS[e], told.c_str());
}
static std::string num(const char *n, long v) { return std::string(n) + "=" + std::to_string(v); }
template <typename T> static void keep(const T &v) { asm volatile("" : : "r,m"(v) : "memory"); }

#if PART == 0
template <int M, int POLY, typename TYPE, int NR, int FCR>
static void rs(RNG &r)
{
	typedef CODE::GaloisField<M, POLY, TYPE> GF;
	typedef typename GF::ValueType VT;
	typedef typename GF::IndexType IT;
	typedef CODE::ReedSolomonEncoder<NR, FCR, GF> ENC;
	typedef CODE::ReedSolomonDecoder<NR, FCR, GF> DEC;
	const int N = (1 << M) - 1, K = N - NR;
	GF *gf = new GF;
	ENC *enc = new ENC;
	DEC *dec = new DEC;
	char name[80];
	std::snprintf(name, sizeof name, "RS(%d,%d)/u%d", N, K, int(8 * sizeof(TYPE)));
	std::vector<TYPE> data(3 * N + 4, 0), parity(NR + 4, 0), era(N + 4, 0), syn(NR + 4, 0);
	for (auto &v : data) v = TYPE(r.below(N + 1));
	for (int i = 0; i < N; ++i) era[i] = TYPE(i % NR);
	TYPE *d = data.data(), *p = parity.data(), *e = era.data(), *s = syn.data();
	VT *vd = reinterpret_cast<VT *>(d), *vp = reinterpret_cast<VT *>(p), *vs = reinterpret_cast<VT *>(s);
	IT *ie = reinterpret_cast<IT *>(e);
	std::vector<int> bad = {0, -1, -K, K + 1, K + 2, N, N + 1, 2 * N, INT_MIN, INT_MAX}, good = {1, 2, K - 1, K};
	for (int k = 0; k < 4; ++k) { bad.push_back(K + 1 + int(r.below(N))); bad.push_back(-1 - int(r.below(N))); good.push_back(1 + int(r.below(K))); }
	for (int no = 0; no < 2; ++no)
		for (int len : no ? good : bad) {
			if (len > K && no) continue;
			judge(!no, std::string(name) + " encoder", num("data_len", len), [&] { (*enc)(d, p, len); });
			judge(!no, std::string(name) + " encoder (values)", num("data_len", len), [&] { (*enc)(vd, vp, len); });
			judge(!no, std::string(name) + " decoder", num("data_len", len), [&] { (*dec)(d, p, static_cast<TYPE *>(nullptr), 0, len); });
			judge(!no, std::string(name) + " decoder (values)", num("data_len", len), [&] { (*dec)(vd, vp, static_cast<IT *>(nullptr), 0, len); });
			judge(!no, std::string(name) + " syndromes", num("data_len", len), [&] { dec->compute_syndromes(d, p, s, len); });
			judge(!no, std::string(name) + " syndromes (values)", num("data_len", len), [&] { dec->compute_syndromes(vd, vp, vs, len); });
		}
	std::vector<int> few = {-1, -2, NR + 1, NR + 2, N, 2 * NR + 1, INT_MIN}, fine = {0, 1, NR - 1, NR};
	for (int no = 0; no < 2; ++no)
		for (int f : no ? fine : few) {
			for (int i = 0; i < N; ++i) era[i] = TYPE(i);
			judge(!no, std::string(name) + " decoder", num("erasures_count", f), [&] { (*dec)(d, p, e, f, K); });
			judge(!no, std::string(name) + " decoder (values)", num("erasures_count", f), [&] { (*dec)(vd, vp, ie, f, K); });
			// a word without errors does not excuse them
			judge(!no, std::string(name) + " decoder", num("clean word, erasures_count", f), [&] { std::fill(data.begin(), data.end(), TYPE(0)); std::fill(parity.begin(), parity.end(), TYPE(0)); (*dec)(d, p, e, f, K); });
		}
	delete enc; delete dec; delete gf;
}
template <int M, int POLY, typename TYPE>
static void crs(RNG &r)
{
	typedef CODE::GaloisField<M, POLY, TYPE> GF;
	typedef typename GF::ValueType VT;
	typedef CODE::CauchyReedSolomonErasureCoding<GF> CRS;
	const int N = (1 << M) - 1;
	GF *gf = new GF;
	CRS *crs = new CRS;
	char name[80];
	std::snprintf(name, sizeof name, "Cauchy RS GF(2^%d)/u%d", M, int(8 * sizeof(TYPE)));
	const int LEN = 64;
	std::vector<TYPE> data(LEN * 8), block(LEN);
	for (auto &v : data) v = TYPE(r.below(N + 1));
	TYPE *d = data.data(), *b = block.data();
	for (int cnt : {1, 2, 5, 8}) {
		std::vector<int> bad = {cnt - 1, 0, -1, N + 1, N + 2, INT_MIN, INT_MAX}, good = {cnt, cnt + 1, N - 1, N};
		for (int k = 0; k < 3; ++k) { bad.push_back(int(r.below(cnt))); bad.push_back(N + 1 + int(r.below(N))); good.push_back(cnt + int(r.below(N + 1 - cnt))); }
		for (int no = 0; no < 2; ++no)
			for (int id : no ? good : bad) {
				std::string det = num("block_count", cnt) + " " + num("block_identifier", id);
				judge(!no, std::string(name) + " encode", det, [&] { crs->encode(d, b, id, LEN, cnt); });
				judge(!no, std::string(name) + " encode (values)", det, [&] { crs->encode(reinterpret_cast<VT *>(d), reinterpret_cast<VT *>(b), id, LEN, cnt); });
				judge(!no, std::string(name) + " encode (bytes)", det, [&] { crs->encode(static_cast<const void *>(d), static_cast<void *>(b), id, int(LEN * sizeof(TYPE)), cnt); });
			}
	}
	if (sizeof(TYPE) > 1) {
		std::vector<TYPE> id(2);
		id[0] = 7; id[1] = 9;
		for (int by = 1; by <= int(4 * sizeof(TYPE)); ++by) {
			bool odd = by % int(sizeof(TYPE));
			judge(odd, std::string(name) + " encode (bytes)", num("block_bytes", by), [&] { crs->encode(static_cast<const void *>(d), static_cast<void *>(b), 5, by, 2); });
			judge(odd, std::string(name) + " decode (bytes)", num("block_bytes", by), [&] { crs->decode(static_cast<void *>(b), static_cast<const void *>(d), id.data(), 0, by, 2); });
		}
	}
	delete crs; delete gf;
}
template <typename PF, typename IO, int MAX_LEN>
static void cpf(RNG &r)
{
	typedef CODE::CauchyPrimeFieldErasureCoding<PF, IO, MAX_LEN> CPF;
	CPF *c = new CPF;
	const int P = int(PF::P);
	char name[80];
	std::snprintf(name, sizeof name, "Cauchy PF(%d) max %d", P, MAX_LEN);
	std::vector<IO> data((MAX_LEN + 64) * 4), block(MAX_LEN + 64), subs(4, IO(P - 2)), ids(4);
	for (auto &v : data) v = IO(r.below(P - 1));
	IO *d = data.data(), *b = block.data();
	for (int i = 0; i < 4; ++i) ids[i] = IO(i + 4);
	for (int cnt : {1, 2, 3}) {
		std::vector<int> bad = {cnt - 1, 0, -1, P / 2, P / 2 + 1, P - 1, P, INT_MIN, INT_MAX}, good = {cnt, cnt + 1, P / 2 - 1};
		for (int k = 0; k < 3; ++k) { bad.push_back(int(r.below(cnt))); bad.push_back(P / 2 + int(r.below(P))); good.push_back(cnt + int(r.below(P / 2 - cnt))); }
		for (int no = 0; no < 2; ++no)
			for (int id : no ? good : bad)
				judge(!no, std::string(name) + " encode", num("block_count", cnt) + " " + num("block_id", id), [&] { c->encode(d, b, id, std::min(MAX_LEN, 10), cnt); });
	}
	for (int len : {1, MAX_LEN - 1, MAX_LEN, MAX_LEN + 1, MAX_LEN + 2, MAX_LEN + 60}) {
		if (len < 1) continue;
		judge(len > MAX_LEN, std::string(name) + " encode", num("block_len", len), [&] { c->encode(d, b, 5, len, 2); });
		judge(len > MAX_LEN, std::string(name) + " decode", num("block_len", len), [&] { c->decode(b, d, subs.data(), ids.data(), 1, len, 3); });
	}
	delete c;
}
static bool primitive(uint32_t poly, int m)
{
	uint32_t a = 1, n = (1u << m) - 1;
	for (uint32_t i = 0; i < n; ++i) {
		if (i && a == 1) return false;
		a <<= 1;
		if (a >> m & 1) a ^= poly;
	}
	return a == 1;
}
template <int M, int POLY, typename TYPE>
static void polynomial()
{
	char det[80];
	std::snprintf(det, sizeof det, "GF(2^%d) polynomial 0x%x/u%d", M, POLY, int(8 * sizeof(TYPE)));
	bool p = primitive(POLY, M);
	vh::count(p ? "primitive_polynomials" : "other_polynomials");
	judge(!p, "field construction", det, [] { auto *g = new CODE::GaloisField<M, POLY, TYPE>; keep(g); });
	if (p) {
		judge(true, "second instance of a field", det, [] { auto *g = new CODE::GaloisField<M, POLY, TYPE>; keep(g); auto *h = new CODE::GaloisField<M, POLY, TYPE>; keep(h); });
		judge(false, "a field after another", det, [] { auto *g = new CODE::GaloisField<M, POLY, TYPE>; keep(g); delete g; g = new CODE::GaloisField<M, POLY, TYPE>; keep(g); });
	}
}
template <int M, typename TYPE, int LOW = 0>
static void polynomials()
{
	polynomial<M, (1 << M) + LOW, TYPE>();
	if constexpr (LOW + 1 < (1 << M)) polynomials<M, TYPE, LOW + 1>();
}
template <int M, int POLY, typename TYPE>
static void field(RNG &r)
{
	typedef CODE::GaloisField<M, POLY, TYPE> GF;
	typedef typename GF::ValueType VT;
	typedef typename GF::IndexType IT;
	const int N = (1 << M) - 1;
	char name[80];
	std::snprintf(name, sizeof name, "GF(2^%d)/u%d", M, int(8 * sizeof(TYPE)));
	std::string n(name);
	// without an instance
	volatile int one = 1, zero = 0, two = 2;
	judge(true, n + " without an instance", "index", [&] { keep(int(index(VT(TYPE(two))))); });
	judge(true, n + " without an instance", "value", [&] { keep(int(value(IT(TYPE(two))))); });
	judge(true, n + " without an instance", "product", [&] { keep(int(VT(TYPE(two)) * VT(TYPE(one + 2)))); });
	judge(true, n + " without an instance", "quotient", [&] { keep(int(VT(TYPE(two)) / VT(TYPE(one + 2)))); });
	judge(true, n + " without an instance", "reciprocal", [&] { keep(int(rcp(VT(TYPE(two))))); });
	GF *gf = new GF;
	judge(true, n + " after its instance is gone", "product", [&] { delete gf; keep(int(VT(TYPE(two)) * VT(TYPE(one + 2)))); });
	for (int k = 0; k < 12; ++k) {
		TYPE v = TYPE(k == 0 ? N : k == 1 ? 1 : 1 + r.below(N)), i = TYPE(k == 0 ? N - 1 : k == 1 ? 0 : r.below(N));
		std::string det = num("by zero, value", v) + " " + num("index", i);
		judge(true, n + " value / value", det, [&] { keep(int(VT(v) / VT(TYPE(zero)))); });
		judge(true, n + " index / value", det, [&] { keep(int(IT(i) / VT(TYPE(zero)))); });
		det = num("value", v) + " " + num("index", i);
		judge(false, n + " value / value", det, [&] { keep(int(VT(TYPE(zero)) / VT(v))); });
		judge(false, n + " index / value", det, [&] { keep(int(IT(i) / VT(v))); });
	}
	judge(true, n + " 0 / 0", "", [&] { keep(int(VT(TYPE(zero)) / VT(TYPE(zero)))); });
	judge(true, n + " index of 0", "", [&] { keep(int(index(VT(TYPE(zero))))); });
	judge(true, n + " reciprocal of 0", "", [&] { keep(int(rcp(VT(TYPE(zero))))); });
	judge(false, n + " index of 1", "", [&] { keep(int(index(VT(TYPE(one))))); });
	judge(false, n + " reciprocal of the largest", "", [&] { keep(int(rcp(VT(TYPE(N + zero))))); });
	// elements out of range
	long top = (1l << (8 * sizeof(TYPE))) - 1;
	judge(false, n + " element", num("value", N), [&] { VT v(TYPE(N + zero)); keep(int(v)); });
	judge(false, n + " element", num("index", N - 1), [&] { IT i(TYPE(N - 1 + zero)); keep(int(i)); });
	judge(true, n + " element", num("index", N), [&] { IT i(TYPE(N + zero)); keep(int(i)); });
	for (long x : {long(N) + 1, long(N) + 2, 2l * N, top}) {
		if (x <= N || x > top) continue;
		judge(true, n + " element", num("value", x), [&] { VT v(TYPE(x + zero)); keep(int(v)); });
		judge(true, n + " element", num("index", x), [&] { IT i(TYPE(x + zero)); keep(int(i)); });
	}
	delete gf;
}
template <int M, int64_t POLY, typename TYPE>
static void reference(RNG &r)
{
	typedef CODE::GaloisFieldReference<M, POLY, TYPE> RF;
	const long N = long((int64_t(1) << M) - 1), top = (1l << (8 * sizeof(TYPE))) - 1;
	std::string n = "reference GF(2^" + std::to_string(M) + ")/u" + std::to_string(8 * sizeof(TYPE));
	volatile long zero = 0;
	judge(true, n + " reciprocal of 0", "", [&] { keep(rcp(RF(TYPE(zero))).v); });
	judge(true, n + " by zero", "0 / 0", [&] { keep((RF(TYPE(zero)) / RF(TYPE(zero))).v); });
	for (int k = 0; k < 6; ++k) {
		TYPE v = TYPE(k == 0 ? 1 : k == 1 ? N : 1 + r.below(uint64_t(N)));
		judge(true, n + " by zero", num("value", long(v)), [&] { keep((RF(v) / RF(TYPE(zero))).v); });
		judge(false, n + " quotient", num("value", long(v)), [&] { keep((RF(TYPE(zero)) / RF(v)).v); });
	}
	for (long x : {N, N + 1, 2 * N, top}) if (x <= top) judge(x > N, n + " element", num("value", x), [&] { RF v(TYPE(x + zero)); keep(v.v); });
}
int main(int argc, char **argv)
{
	vh::init(argc, argv);
	RNG r = vh::rng(44);
	for (int again = vh::reps(1, 10); again-- > 0;) {
		rs<4, 0b10011, uint8_t, 4, 1>(r);
		rs<5, 0b100101, uint8_t, 1, 0>(r);
		rs<6, 0b1000011, uint16_t, 7, 3>(r);
		rs<8, 0b100011101, uint8_t, 16, 0>(r);
		rs<8, 0b110000111, uint8_t, 32, 112>(r);
		rs<12, 0b1000001010011, uint16_t, 6, 1>(r);
		crs<4, 0b10011, uint8_t>(r);
		crs<8, 0b100011101, uint8_t>(r);
		crs<12, 0b1000001010011, uint16_t>(r);
		crs<16, 0b10001000000001011, uint16_t>(r);
		cpf<CODE::PrimeField<uint64_t, 257>, uint8_t, 200>(r);
		cpf<CODE::PrimeField<uint64_t, 257>, uint8_t, 255>(r);
		cpf<CODE::PrimeField<uint64_t, 65537>, uint16_t, 1000>(r);
		field<3, 0b1011, uint8_t>(r);
		field<4, 0b11001, uint16_t>(r);
		field<7, 0b10001001, uint8_t>(r);
		field<8, 0b100011101, uint8_t>(r);
		field<8, 0b100011101, uint16_t>(r);
		field<12, 0b1000001010011, uint16_t>(r);
		field<16, 0b10001000000001011, uint16_t>(r);
		reference<5, 0b100101, uint8_t>(r);
		reference<8, 0b100011011, uint8_t>(r);
		reference<13, 0b10000000011011, uint16_t>(r);
		polynomials<2, uint8_t>();
		polynomials<3, uint8_t>();
		polynomials<4, uint8_t>();
		polynomials<5, uint8_t>();
		polynomials<6, uint8_t>();
		polynomial<8, 0b100011011, uint8_t>(); // irreducible, not primitive
		polynomial<8, 0b100011101, uint16_t>();
		polynomial<8, 0b100000000, uint8_t>();
		polynomial<8, 0b111111111, uint8_t>();
		polynomial<12, 0b1000001010011, uint16_t>();
		polynomial<12, 0b1000000001001, uint16_t>();
		polynomial<16, 0b10001000000001011, uint16_t>();
		polynomial<16, 0b10000000000000001, uint16_t>();
		polynomial<16, 0b10000000000101011, uint16_t>();
	}
	return vh::finish();
}
#elif PART == 1
template <typename ENC>
static ENC *make(const std::vector<int> &m)
{
	switch (m.size()) {
	case 0: return new ENC(std::initializer_list<int>{});
	case 1: return new ENC({m[0]});
	case 2: return new ENC({m[0], m[1]});
	case 3: return new ENC({m[0], m[1], m[2]});
	case 4: return new ENC({m[0], m[1], m[2], m[3]});
	case 5: return new ENC({m[0], m[1], m[2], m[3], m[4]});
	case 6: return new ENC({m[0], m[1], m[2], m[3], m[4], m[5]});
	case 7: return new ENC({m[0], m[1], m[2], m[3], m[4], m[5], m[6]});
	case 8: return new ENC({m[0], m[1], m[2], m[3], m[4], m[5], m[6], m[7]});
	case 9: return new ENC({m[0], m[1], m[2], m[3], m[4], m[5], m[6], m[7], m[8]});
	}
	::abort();
}
template <int M, int POLY, typename TYPE, int NR, int FCR, int K>
static void bch(RNG &r, const std::vector<int> &mp)
{
	typedef CODE::GaloisField<M, POLY, TYPE> GF;
	typedef typename GF::ValueType VT;
	typedef typename GF::IndexType IT;
	typedef CODE::BoseChaudhuriHocquenghemEncoder<GF::N, K> ENC;
	typedef CODE::BoseChaudhuriHocquenghemDecoder<NR, FCR, K, GF> DEC;
	typedef CODE::BoseChaudhuriHocquenghemEncoderReference<NR, FCR, K, GF> ENCR;
	typedef CODE::BoseChaudhuriHocquenghemDecoderReference<NR, FCR, K, GF> DECR;
	const int N = GF::N, NP = N - K;
	GF *gf = new GF;
	char name[80];
	std::snprintf(name, sizeof name, "BCH(%d,%d)/u%d", N, K, int(8 * sizeof(TYPE)));
	std::string n(name);
	// lists of minimal polynomials
	auto degree = [](int m) { return 31 - __builtin_clz(unsigned(m)); };
	auto list = [&](bool bad, const std::vector<int> &m, const char *why) {
		std::string det = why;
		for (int v : m) det += " " + std::to_string(v);
		judge(bad, n + " encoder construction", det, [&] { keep(make<ENC>(m)); });
		judge(bad, n + " reference encoder construction", det, [&] { keep(make<ENCR>(m)); });
	};
	list(false, mp, "right");
	{ std::vector<int> m(mp); std::reverse(m.begin(), m.end()); list(false, m, "reversed"); }
	list(true, {}, "empty");
	for (size_t i = 0; i < mp.size(); ++i) {
		std::vector<int> m(mp);
		m.erase(m.begin() + i);
		list(true, m, "one missing");
		m = mp; m.insert(m.begin() + r.below(m.size() + 1), mp[i]);
		list(true, m, "one twice");
		m = mp; m[i] = 0; list(true, m, "zero");
		m = mp; m[i] = -m[i]; list(true, m, "negative");
		m = mp; m.insert(m.begin() + i, 0); list(true, m, "a zero more");
		m = mp; m.push_back(-1); list(true, m, "a negative more");
		m = mp; m.push_back(3); list(true, m, "degree one too high");
		m = mp; if (degree(m[i]) > 1) { m[i] = m[i] >> 1 | 1; list(true, m, "degree one too low"); }
		m = mp; if (degree(m[i]) < M) { m[i] = m[i] << 1 | 1; list(true, m, "degree one too high"); }
		m = mp; m[i] ^= 1 << (degree(m[i]) + 1) | 1 << (degree(m[i]) + 2); list(true, m, "degree two too high");
	}
	ENC *enc = make<ENC>(mp); ENCR *encr = make<ENCR>(mp); DEC *dec = new DEC; DECR *decr = new DECR;
	std::vector<uint8_t> pd(3 * N / 8 + 8), pp(NP / 8 + 8);
	std::vector<TYPE> data(3 * N + 8), parity(NP + 8), era(N + 4), syn(NR + 4);
	for (auto &v : pd) v = uint8_t(r());
	for (auto &v : data) v = TYPE(r.coin());
	TYPE *e = era.data(), *s = syn.data();
	VT *vd = reinterpret_cast<VT *>(data.data()), *vp = reinterpret_cast<VT *>(parity.data()), *vs = reinterpret_cast<VT *>(s);
	IT *ie = reinterpret_cast<IT *>(e);
	std::vector<int> bad = {0, -1, -K, K + 1, K + 2, K + 8, N, N + 1, 2 * N, INT_MIN, INT_MAX}, good = {1, 2, K - 1, K};
	for (int k = 0; k < 4; ++k) { bad.push_back(K + 1 + int(r.below(N))); bad.push_back(-1 - int(r.below(N))); good.push_back(1 + int(r.below(K))); }
	for (int no = 0; no < 2; ++no)
		for (int len : no ? good : bad) {
			if (no && (len < 1 || len > K)) continue;
			judge(!no, n + " encoder", num("data_len", len), [&] { (*enc)(pd.data(), pp.data(), len); });
			judge(!no, n + " reference encoder", num("data_len", len), [&] { (*encr)(vd, vp, len); });
			judge(!no, n + " decoder", num("data_len", len), [&] { (*dec)(pd.data(), pp.data(), static_cast<TYPE *>(nullptr), 0, len); });
			judge(!no, n + " reference decoder", num("data_len", len), [&] { (*decr)(vd, vp, static_cast<IT *>(nullptr), 0, len); });
			judge(!no, n + " syndromes", num("data_len", len), [&] { dec->compute_syndromes(pd.data(), pp.data(), s, len); });
			judge(!no, n + " syndromes (values)", num("data_len", len), [&] { dec->compute_syndromes(pd.data(), pp.data(), vs, len); });
			judge(!no, n + " reference syndromes", num("data_len", len), [&] { decr->compute_syndromes(vd, vp, vs, len); });
		}
	std::vector<int> few = {-1, -2, NR + 1, NR + 2, N, 2 * NR + 1, INT_MIN}, fine = {0, 1, NR - 1, NR};
	for (int clean = 0; clean < 2; ++clean) {
		if (clean) { std::fill(pd.begin(), pd.end(), 0); std::fill(pp.begin(), pp.end(), 0); std::fill(data.begin(), data.end(), TYPE(0)); std::fill(parity.begin(), parity.end(), TYPE(0)); }
		for (int no = 0; no < 2; ++no)
			for (int f : no ? fine : few) {
				for (int i = 0; i < N; ++i) era[i] = TYPE(i);
				const char *what = clean ? "clean word, erasures_count" : "erasures_count";
				judge(!no, n + " decoder", num(what, f), [&] { (*dec)(pd.data(), pp.data(), e, f, K); });
				judge(!no, n + " reference decoder", num(what, f), [&] { (*decr)(vd, vp, ie, f, K); });
			}
	}
	delete enc; delete encr; delete dec; delete decr; delete gf;
}
int main(int argc, char **argv)
{
	vh::init(argc, argv);
	RNG r = vh::rng(45);
	for (int again = vh::reps(1, 10); again-- > 0;) {
		bch<4, 0b10011, uint8_t, 2, 1, 11>(r, {0b10011});
		bch<4, 0b10011, uint8_t, 4, 1, 7>(r, {0b10011, 0b11111});
		bch<4, 0b10011, uint8_t, 6, 1, 5>(r, {0b10011, 0b11111, 0b00111});
		bch<5, 0b100101, uint8_t, 6, 1, 16>(r, {0b100101, 0b111101, 0b110111});
		bch<8, 0b100011101, uint16_t, 4, 1, 239>(r, {0b100011101, 0b101110111});
		bch<8, 0b100011101, uint8_t, 1, 0, 254>(r, {0b11});
	}
	return vh::finish();
}
#elif PART == 2
static int rank(std::vector<std::vector<int8_t>> m)
{
	int rk = 0, rows = int(m.size()), cols = int(m[0].size());
	for (int c = 0; c < cols && rk < rows; ++c) {
		int p = rk;
		while (p < rows && !m[p][c]) ++p;
		if (p == rows) continue;
		std::swap(m[p], m[rk]);
		for (int i = rk + 1; i < rows; ++i) if (m[i][c]) for (int j = 0; j < cols; ++j) m[i][j] ^= m[rk][j];
		++rk;
	}
	return rk;
}
template <int N, int K>
static void osd(RNG &r, int n)
{
	auto *dec = new CODE::OrderedStatisticsDecoder<N, K, 1>;
	auto *list = new CODE::OrderedStatisticsListDecoder<N, K, 1, 4>;
	for (int k = 0; k < n; ++k) {
		std::vector<std::vector<int8_t>> g(K, std::vector<int8_t>(N));
		int style = int(r.below(7));
		for (auto &row : g) for (auto &v : row) v = r.coin();
		switch (style) {
		case 0: for (auto &row : g) for (int j = 0; j < K; ++j) row[j] = 0; break; // no pivot among the first columns
		case 1: { int z = int(r.below(K)); for (auto &v : g[z]) v = 0; } break;
		case 2: if (K > 1) { int a = int(r.below(K)), b = (a + 1 + int(r.below(K - 1))) % K; g[a] = g[b]; } break;
		case 3: { int a = int(r.below(K)); std::vector<int8_t> s(N); for (int b = 0; b < K; ++b) if (b != a && r.coin()) for (int i = 0; i < N; ++i) s[i] ^= g[b][i]; g[a] = s; } break;
		case 4: { int live = int(r.below(N - 1)) + 1; for (auto &row : g) for (int i = live; i < N; ++i) row[i] = 0; } break; // few columns in use
		case 5: { for (int i = 0; i < K; ++i) for (int j = 0; j < N; ++j) g[i][j] = j >= N - K ? j - (N - K) == i : r.coin(); } break; // unit matrix at the end
		default: break;
		}
		bool full = rank(g) == K;
		std::vector<int8_t> mat, soft(N);
		for (auto &row : g) mat.insert(mat.end(), row.begin(), row.end());
		for (auto &v : soft) v = int8_t(r.range(-127, 127));
		std::vector<uint8_t> hard(4 * (N / 8 + 1) + 4 * N);
		int rk[4];
		std::string det = "style " + std::to_string(style) + " matrix hash " + std::to_string(vh::hash_bytes(mat.data(), mat.size()));
		std::string nm = "(" + std::to_string(N) + "," + std::to_string(K) + ")";
		vh::count(full ? "matrices_of_full_rank" : "matrices_of_lower_rank");
		judge(!full, "OSD" + nm + " generator matrix", det, [&] { (*dec)(hard.data(), soft.data(), mat.data()); });
		judge(!full, "OSD list" + nm + " generator matrix", det, [&] { (*list)(rk, hard.data(), soft.data(), mat.data()); });
	}
	delete dec; delete list;
}
template <int N, int K>
static void generator(RNG &, std::vector<int> mp)
{
	typedef CODE::BoseChaudhuriHocquenghemGenerator<N, K> G;
	auto list = [&](bool bad, const std::vector<int> &m, const char *why) {
		std::string det = why;
		for (int v : m) det += " " + std::to_string(v);
		std::vector<int8_t> p(N * K + 4 * N);
		auto call = [&](int how) {
			auto f = [&](std::initializer_list<int> l) { if (how) G::matrix(p.data(), how > 1, l); else G::poly(p.data(), l); };
			switch (m.size()) {
			case 0: f({}); break;
			case 1: f({m[0]}); break;
			case 2: f({m[0], m[1]}); break;
			case 3: f({m[0], m[1], m[2]}); break;
			case 4: f({m[0], m[1], m[2], m[3]}); break;
			default: ::abort();
			}
		};
		std::string nm = "generator(" + std::to_string(N) + "," + std::to_string(K) + ")";
		judge(bad, nm + " polynomial", det, [&] { call(0); });
		judge(bad, nm + " matrix", det, [&] { call(1); });
		judge(bad, nm + " systematic matrix", det, [&] { call(2); });
	};
	auto degree = [](int m) { return 31 - __builtin_clz(unsigned(m)); };
	list(false, mp, "right");
	list(true, {}, "empty");
	for (size_t i = 0; i < mp.size(); ++i) {
		std::vector<int> m(mp);
		m.erase(m.begin() + i); list(true, m, "one missing");
		m = mp; m.push_back(mp[i]); list(true, m, "one twice");
		m = mp; m[i] = 0; list(true, m, "zero");
		m = mp; m[i] = -m[i]; list(true, m, "negative");
		m = mp; m[i] &= ~1; list(true, m, "even");
		m = mp; m[i] = 1 << degree(m[i]); list(true, m, "a power alone");
		m = mp; m.push_back(3); list(true, m, "degree one too high");
		m = mp; if (degree(m[i]) > 1) { m[i] = m[i] >> 1 | 1; list(true, m, "degree one too low"); }
	}
}
int main(int argc, char **argv)
{
	vh::init(argc, argv);
	RNG r = vh::rng(46);
	osd<8, 4>(r, vh::reps(150, 3000));
	osd<15, 7>(r, vh::reps(150, 3000));
	osd<12, 11>(r, vh::reps(100, 3000));
	osd<64, 24>(r, vh::reps(60, 1000));
	osd<127, 16>(r, vh::reps(40, 1000));
	generator<15, 11>(r, {0b10011});
	generator<15, 7>(r, {0b10011, 0b11111});
	generator<15, 5>(r, {0b10011, 0b11111, 0b00111});
	generator<31, 16>(r, {0b100101, 0b111101, 0b110111});
	generator<63, 45>(r, {0b1000011, 0b1010111, 0b1100111});
	return vh::finish();
}
#else
template <int MAX_M>
static void levels(RNG &r)
{
	typedef SIMD<int8_t, 16> LT;
	auto *sc = new CODE::PolarDecoder<int8_t, MAX_M>;
	auto *scf = new CODE::PolarDecoder<float, MAX_M>;
	auto *ld = new CODE::PolarListDecoder<LT, MAX_M>;
	auto *pd = new CODE::PolarParityDecoder<LT, MAX_M>;
	auto *fz = new CODE::PolarCodeConst0<MAX_M>;
	auto *sq = new CODE::PolarSeqConst0<MAX_M>;
	const int TOP = 1 << 21;
	std::vector<int8_t> msg(1 << (MAX_M + 1)), code(TOP, 1);
	std::vector<float> fm(1 << (MAX_M + 1)), fc(TOP, 1);
	std::vector<uint32_t> frozen(TOP / 32, 0);
	std::vector<int> seq(TOP);
	std::vector<LT> lm(1 << (MAX_M + 1));
	for (auto &v : code) v = int8_t(r.range(-127, 127));
	for (size_t i = 0; i < frozen.size(); ++i) frozen[i] = uint32_t(r());
	for (int level = 0; level <= 20; ++level) {
		bool out = level > MAX_M, in = level >= 5 && level <= MAX_M;
		std::string det = num("level", level) + " " + num("MAX_M", MAX_M);
		judge(!in, "successive cancellation decoder", det, [&] { (*sc)(msg.data(), code.data(), frozen.data(), level); });
		judge(!in, "successive cancellation decoder (float)", det, [&] { (*scf)(fm.data(), fc.data(), frozen.data(), level); });
		judge(!in, "list decoder", det, [&] { (*ld)(nullptr, lm.data(), code.data(), frozen.data(), level); });
		judge(!in, "parity list decoder", det, [&] { (*pd)(nullptr, lm.data(), code.data(), frozen.data(), level, 7, 3); });
		if (!in && !out) continue; // small codes can be constructed
		judge(out, "frozen set", det, [&] { (*fz)(frozen.data(), level, 1 << (level - 1)); });
		judge(out, "reliability sequence", det, [&] { (*sq)(seq.data(), level); });
	}
	delete sc; delete scf; delete ld; delete pd; delete fz; delete sq;
}
int main(int argc, char **argv)
{
	vh::init(argc, argv);
	RNG r = vh::rng(47);
	for (int again = vh::reps(1, 10); again-- > 0;) {
		levels<5>(r);
		levels<8>(r);
		levels<11>(r);
	}
	return vh::finish();
}
#endif
