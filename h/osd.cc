// Ordered statistics decoding against an independent most-reliable-basis search.
// Sections: D decoder, L list decoder, G generator matrices and linear encoder.
#include "vh.hh"
#include "osd.hh"
#include "galois_field.hh"
using namespace vh;

typedef std::vector<uint8_t> Bits;

static bool full_rank(const int8_t *g, int N, int K)
{
	std::vector<Bits> m(K, Bits(N));
	for (int j = 0; j < K; ++j) for (int i = 0; i < N; ++i) m[j][i] = g[N * j + i];
	int rank = 0;
	for (int c = 0; c < N && rank < K; ++c) {
		int p = rank;
		while (p < K && !m[p][c]) ++p;
		if (p == K) continue;
		std::swap(m[p], m[rank]);
		for (int j = 0; j < K; ++j) if (j != rank && m[j][c]) for (int i = 0; i < N; ++i) m[j][i] ^= m[rank][i];
		++rank;
	}
	return rank == K;
}

// a random full-rank generator matrix of one of several shapes
static void make_matrix(RNG &r, int8_t *g, int N, int K, const char *&kind)
{
	int shape = r.below(5);
	for (;;) {
		switch (shape) {
		case 0: kind = "random"; for (int i = 0; i < N * K; ++i) g[i] = r.coin(); break;
		case 1: kind = "systematic"; for (int j = 0; j < K; ++j) for (int i = 0; i < N; ++i) g[N * j + i] = i < K ? i == j : r.coin(); break;
		case 2: { kind = "repeated-columns";	// few distinct columns, zero columns, so that many positions depend on others
			std::vector<Bits> cols(K + r.below(3), Bits(K));
			for (auto &c : cols) for (auto &b : c) b = r.coin();
			if (r.coin()) for (auto &b : cols[0]) b = 0;
			for (int i = 0; i < N; ++i) { auto &c = cols[r.below(cols.size())]; for (int j = 0; j < K; ++j) g[N * j + i] = c[j]; }
			break; }
		case 3: kind = "sparse"; for (int i = 0; i < N * K; ++i) g[i] = r.coin(4); break;
		default: kind = "information-last"; for (int j = 0; j < K; ++j) for (int i = 0; i < N; ++i) g[N * j + i] = i >= N - K ? i - (N - K) == j : r.coin(); break;
		}
		if (full_rank(g, N, K)) return;
		if (r.coin(4)) shape = r.below(2);
	}
}

struct Ref {
	int N, K;
	std::vector<Bits> rows;		// reduced to the identity on the basis
	std::vector<int> basis;
	bool unique_basis;
	std::vector<int> v;
	Ref(const int8_t *g, const int8_t *soft, int N, int K) : N(N), K(K), v(N) {
		for (int i = 0; i < N; ++i) v[i] = std::max<int>(soft[i], -127);
		rows.assign(K, Bits(N));
		for (int j = 0; j < K; ++j) for (int i = 0; i < N; ++i) rows[j][i] = g[N * j + i];
		std::vector<int> ord(N);
		for (int i = 0; i < N; ++i) ord[i] = i;
		std::stable_sort(ord.begin(), ord.end(), [&](int a, int b) { return std::abs(v[a]) > std::abs(v[b]); });
		int rank = 0;
		for (int c : ord) {
			if (rank == K) break;
			int p = rank;
			while (p < K && !rows[p][c]) ++p;
			if (p == K) continue;
			std::swap(rows[p], rows[rank]);
			for (int j = 0; j < K; ++j) if (j != rank && rows[j][c]) for (int i = 0; i < N; ++i) rows[j][i] ^= rows[rank][i];
			basis.push_back(c);
			++rank;
		}
		// the basis is the only most reliable one if no outside position could replace an equally reliable one
		std::vector<char> in(N);
		for (int b : basis) in[b] = 1;
		unique_basis = true;
		for (int x = 0; x < N; ++x) if (!in[x])
			for (int j = 0; j < K; ++j) if (rows[j][x] && std::abs(v[basis[j]]) <= std::abs(v[x])) unique_basis = false;
		// zero values have no sign: their hard decision is the same whatever the order
	}
	long metric(const Bits &c) const { long s = 0; for (int i = 0; i < N; ++i) s += (c[i] ? -1 : 1) * v[i]; return s; }
	Bits base() const {
		Bits c(N, 0);
		for (int j = 0; j < K; ++j) if (v[basis[j]] < 0) for (int i = 0; i < N; ++i) c[i] ^= rows[j][i];
		return c;
	}
	bool member(const Bits &c) const {
		Bits t = c;
		for (int j = 0; j < K; ++j) if (t[basis[j]]) for (int i = 0; i < N; ++i) t[i] ^= rows[j][i];
		for (int i = 0; i < N; ++i) if (t[i]) return false;
		return true;
	}
	int flips(const Bits &c) const { int n = 0; for (int j = 0; j < K; ++j) n += c[basis[j]] != (v[basis[j]] < 0); return n; }
	template <typename F> void each(int O, F f) const { Bits c = base(); long m = metric(c); rec(O, 0, c, m, f); }
	template <typename F> void rec(int O, int from, Bits &c, long m, F f) const {
		f(c, m);
		if (!O) return;
		for (int j = from; j < K; ++j) {
			long d = 0;
			for (int i = 0; i < N; ++i) if (rows[j][i]) { d += (c[i] ? 2 : -2) * v[i]; c[i] ^= 1; }
			rec(O - 1, j + 1, c, m + d, f);
			for (int i = 0; i < N; ++i) c[i] ^= rows[j][i];
		}
	}
};

static Bits unpack(const uint8_t *p, int N) { Bits b(N); for (int i = 0; i < N; ++i) b[i] = p[i / 8] >> (7 - i % 8) & 1; return b; }

static void draw(RNG &r, int8_t *v, int N, int K, int O, const Bits &cw, const int8_t *gen, const char *&kind)
{
	switch (r.below(13)) {
	case 11: case 12: { // a second codeword as likely as the first: erased or outvoted where they differ
		kind = "twins";
		Bits d(N, 0);
		for (int n = 1 + r.below(3); n--;) { int j = r.below(K); for (int i = 0; i < N; ++i) d[i] ^= gen[N * j + i]; }
		bool zeros = r.coin(); int flat = r.coin(3) ? r.range(1, 127) : 0, sum = 0;
		for (int i = 0; i < N; ++i) {
			int m = flat ? flat : 1 + r.below(127);
			v[i] = d[i] && zeros ? 0 : cw[i] ? -m : m;
		}
		if (!zeros) { // pairs of opposite sign where they differ
			int last = -1;
			for (int i = 0; i < N; ++i) if (d[i]) { if (last < 0) last = i; else { int m = std::abs(v[last]); v[i] = cw[i] ? m : -m; last = -1; } ++sum; }
			if (last >= 0) v[last] = 0;
		}
		if (r.coin(8)) { int i = r.below(N); v[i] = r.range(-128, 127); }
		break; }
	case 10: { kind = "far-order";	// a codeword with about O errors among its most reliable positions
		std::vector<int> pos(N);
		for (int i = 0; i < N; ++i) pos[i] = i;
		for (int i = N - 1; i > 0; --i) std::swap(pos[i], pos[r.below(i + 1)]);
		for (int i = 0; i < N; ++i) { int m = std::max(1, 127 - i % 128); v[pos[i]] = cw[pos[i]] ? -m : m; }
		int first = std::min(N, K + int(r.below(2))), n = O + r.below(2);
		if (r.coin()) for (int i = 0; i < n; ++i) { int p = pos[r.below(first)]; v[p] = -std::abs(v[p]) * (cw[p] ? -1 : 1); }
		else { int at = r.below(std::max(1, first - n + 1)); for (int i = at; i < std::min(N, at + n); ++i) v[pos[i]] = -v[pos[i]]; }
		break; }
	case 8: { kind = "contrary-graded";	// distinct but similar reliabilities, signs at random: many flips pay
		std::vector<int> mag(N);
		int top = r.coin(30) ? 30 : 127;
		for (int i = 0; i < N; ++i) mag[i] = std::max(1, top - i % 128);
		for (int i = N - 1; i > 0; --i) std::swap(mag[i], mag[r.below(i + 1)]);
		for (int i = 0; i < N; ++i) v[i] = r.coin() ? mag[i] : -mag[i];
		break; }
	case 0: kind = "uniform"; for (int i = 0; i < N; ++i) v[i] = r.range(-128, 127); break;
	case 1: kind = "zero"; for (int i = 0; i < N; ++i) v[i] = 0; break;
	case 2: kind = "ties"; for (int i = 0; i < N; ++i) v[i] = r.range(-2, 2); break;
	case 3: kind = "flat"; { int k = r.range(1, 127); for (int i = 0; i < N; ++i) v[i] = cw[i] ? -k : k; for (int n = r.below(4); n--;) { int i = r.below(N); v[i] = -v[i]; } } break;
	case 4: case 5: case 6: { // distinct reliabilities
		kind = "graded";
		std::vector<int> mag(128);
		for (int i = 0; i < 128; ++i) mag[i] = i;
		for (int i = 127; i > 0; --i) std::swap(mag[i], mag[r.below(i + 1)]);
		int bad = r.below(4);
		for (int i = 0; i < N; ++i) {
			int m = mag[i % 128];
			bool flip = bad == 3 ? r.coin() : r.below(128) >= uint64_t(std::min(127, 64 + (bad + 1) * m / 2));
			v[i] = (cw[i] != flip) ? -m : m;
		}
		break; }
	case 7: { kind = "noisy"; double sg = 10 + 60 * r.uniform(); int a = r.range(10, 60);
		for (int i = 0; i < N; ++i) v[i] = int8_t(std::max(-128., std::min(127., std::nearbyint((cw[i] ? -a : a) + sg * r.normal())))); break; }
	default: kind = "contrary"; { // the reliable positions outvoted by the rest
		for (int i = 0; i < N; ++i) { int m = 60 + r.below(20); v[i] = r.coin() ? m : -m; } for (int n = r.below(5); n--;) v[r.below(N)] = r.coin() ? 127 : -127; } break;
	}
	if (r.coin(6)) v[r.below(N)] = -128;
}

template <int N, int K, int O, int L>
static void osd(double q, double t, std::initializer_list<int> minpols = {})
{
	const int NW = (N + 7) / 8, KW = (K + 7) / 8;
	RNG r = rng(mix(mix(N, K), mix(O, L)));
	Placed<CODE::OrderedStatisticsDecoder<N, K, O>> dec(r.range(0, 255));
	Placed<CODE::OrderedStatisticsListDecoder<N, K, O, L>> lst(r.range(0, 255));
	CODE::LinearEncoder<N, K> enc;
	Guarded<int8_t> gm(N * K);
	std::vector<int8_t> gen(N * K);
	const char *gk = "", *sk = "";
	char cfg[80];
	int left = 0;
	for (int n = reps(q, t); n--;) {
		if (!left--) {
			left = r.range(1, 12);
			if (minpols.size() && r.coin(3)) {
				gk = "bch";
				CODE::BoseChaudhuriHocquenghemGenerator<N, K>::matrix(gen.data(), r.coin(), minpols);
				if (!full_rank(gen.data(), N, K)) check(false, "osd:generator-rank", "generator matrix lacks rank");
			} else make_matrix(r, gen.data(), N, K, gk);
			std::memcpy(gm.p, gen.data(), N * K);
		}
		std::vector<uint8_t> msg(KW);
		for (auto &b : msg) b = r();
		Bits cw(N, 0);
		for (int j = 0; j < K; ++j) if (msg[j / 8] >> (7 - j % 8) & 1) for (int i = 0; i < N; ++i) cw[i] ^= gen[N * j + i];
		int8_t soft[N];
		draw(r, soft, N, K, O, cw, gen.data(), sk);
		Guarded<int8_t> sg(N, 1, r.below(8));
		std::memcpy(sg.p, soft, N);
		std::snprintf(cfg, sizeof cfg, "OSD<%d,%d,%d,%d> G=%s", N, K, O, L, gk);
		std::string gs;
		if (N * K <= 260) gs = show(gen.data(), N * K, 260);
		crumb("%s soft=%s %s G=%s", cfg, sk, show(soft, N, 130).c_str(), gs.c_str());
		distinct(hash_bytes(soft, N, hash_bytes(gen.data(), N * K, mix(O, L))));
		if (section("G")) {
			Guarded<uint8_t> out(NW, 1, r.below(4));
			for (int i = 0; i < NW; ++i) out[i] = r();
			enc(out.p, msg.data(), gm.p);
			check(unpack(out.p, N) == cw && out.intact(), "osd:linear-encoder", "product with the generator matrix differs");
			eval();
		}
		if (!section("D") && !section("L")) continue;
		Ref ref(gen.data(), soft, N, K);
		// zero values: their decided bit is 0 for the code under test
		bool full = O >= K;
		bool strict = full || ref.unique_basis;
		std::vector<long> ms;
		ref.each(O, [&](const Bits &, long m) { ms.push_back(m); });
		std::sort(ms.rbegin(), ms.rend());
		bool uniq = ms.size() < 2 || ms[0] != ms[1];
		count(strict ? "basis_settled" : "basis_ambiguous");
		if (section("D")) {
			Guarded<uint8_t> out(NW, 1, r.below(4));
			for (int i = 0; i < NW; ++i) out[i] = r();
			bool u = (*dec)(out.p, sg.p, gm.p);
			Bits c = unpack(out.p, N);
			check(out.intact(), "osd:overrun", "bytes beside the output changed");
			check(!std::memcmp(sg.p, soft, N) && !std::memcmp(gm.p, gen.data(), N * K), "osd:input-changed", "input changed");
			if (check(ref.member(c), "osd:not-a-codeword", "hard output is no codeword: %s", show(c.data(), N, 130).c_str()) && strict) {
				long m = ref.metric(c);
				check(m == ms[0], "osd:not-best", "correlation %ld, best candidate has %ld", m, ms[0]);
				if (!full) check(ref.flips(c) <= O, "osd:order", "codeword differs in %d of the basis positions", ref.flips(c));
				check(u == uniq, "osd:unique-verdict", "reported %s, best correlations are %ld and %ld", u ? "unique" : "shared", ms[0], ms.size() > 1 ? ms[1] : 0L);
				count(uniq ? "unique_optimum" : "shared_optimum");
				if (ms[0] < 0) count("negative_optimum");
			}
			eval();
		}
		if (section("L") && ms.size() >= size_t(L)) {
			Guarded<uint8_t> out(NW * L, 1, r.below(4));
			for (int i = 0; i < NW * L; ++i) out[i] = r();
			Guarded<int> rank(L);
			for (int i = 0; i < L; ++i) rank[i] = int(r());
			(*lst)(rank.p, out.p, sg.p, gm.p);
			check(out.intact() && rank.intact(), "osld:overrun", "bytes beside the output changed");
			check(!std::memcmp(sg.p, soft, N) && !std::memcmp(gm.p, gen.data(), N * K), "osld:input-changed", "input changed");
			std::set<Bits> seen;
			std::vector<long> got;
			bool members = true;
			for (int j = 0; j < L; ++j) {
				Bits c = unpack(out.p + j * NW, N);
				members = check(ref.member(c), "osld:not-a-codeword", "entry %d is no codeword", j) && members;
				check(seen.insert(c).second, "osld:duplicate", "entry %d repeats an earlier one", j);
				got.push_back(ref.metric(c));
				if (strict && !full) check(ref.flips(c) <= O, "osld:order", "entry %d differs in %d of the basis positions", j, ref.flips(c));
			}
			if (members) {
				check(rank[0] == 0, "osld:rank-start", "first rank is %d", rank[0]);
				for (int j = 1; j < L; ++j) {
					check(got[j] <= got[j - 1], "osld:unsorted", "entry %d has correlation %ld after %ld", j, got[j], got[j - 1]);
					check(rank[j] == rank[j - 1] + (got[j] != got[j - 1]), "osld:rank", "rank %d after %d with correlations %ld after %ld", rank[j], rank[j - 1], got[j], got[j - 1]);
				}
				if (strict)
					for (int j = 0; j < L; ++j)
						check(got[j] == ms[j], "osld:not-best", "entry %d has correlation %ld, the candidates' is %ld", j, got[j], ms[j]);
			}
			count("lists");
			if (ms[L - 1] < 0) count("lists_with_negative_scores");
			eval();
		}
	}
}

// generator matrices of the BCH constructor against shifted products of the minimal polynomials
template <int N, int K>
static void gens(std::initializer_list<int> minpols)
{
	const int NP = N - K;
	crumb("generator matrix (%d,%d)", N, K);
	std::vector<int> g{1};
	for (int m : minpols) {
		std::vector<int> n(g.size() + 31 - __builtin_clz(m), 0);
		for (size_t i = 0; i < g.size(); ++i) for (int b = 0; m >> b; ++b) if (m >> b & 1) n[i + b] ^= g[i];
		g = n;
	}
	if (int(g.size()) != NP + 1) { std::fprintf(stderr, "bad generator\n"); std::exit(3); }
	for (int fill : {0, 1, -1, 85}) {
		Guarded<int8_t> m(N * K, 1, 3);
		std::memset(m.p, fill, N * K);
		CODE::BoseChaudhuriHocquenghemGenerator<N, K>::matrix(m.p, false, minpols);
		bool ok = m.intact();
		for (int j = 0; j < K; ++j) for (int i = 0; i < N; ++i) ok = ok && m[N * j + i] == (i >= j && i <= j + NP ? g[NP - (i - j)] : 0);
		check(ok, "osd:generator", "rows are not shifted generator polynomials");
		eval();
		std::memset(m.p, fill, N * K);
		CODE::BoseChaudhuriHocquenghemGenerator<N, K>::matrix(m.p, true, minpols);
		ok = m.intact();
		for (int j = 0; j < K; ++j) {
			std::vector<int> row(N);
			for (int i = 0; i < N; ++i) { row[i] = m[N * j + i]; if (i < K) ok = ok && row[i] == (i == j); }
			for (int i = 0; i < K; ++i) if (row[i]) for (int k = 0; k <= NP; ++k) row[i + k] ^= g[NP - k];
			for (int i = 0; i < N; ++i) ok = ok && !row[i];
		}
		check(ok, "osd:generator-systematic", "rows are not systematic multiples of the generator");
		Guarded<int8_t> p(NP + 1, 1, 1);
		std::memset(p.p, fill, NP + 1);
		CODE::BoseChaudhuriHocquenghemGenerator<N, K>::poly(p.p, minpols);
		ok = p.intact();
		for (int i = 0; i <= NP; ++i) ok = ok && p[i] == g[NP - i];
		check(ok, "osd:generator-poly", "generator polynomial differs");
		eval(2);
		distinct(mix(mix(N, K), fill));
		count("generator_matrices");
	}
}

int main(int argc, char **argv)
{
	init(argc, argv);
#define M127 {0b10001001, 0b10001111, 0b10011101, 0b11110111, 0b10111111, 0b11010101, 0b10000011, 0b11101111, 0b11001011}
#if PART == 0
	if (section("G")) {
		gens<7, 4>({0b1011}); gens<15, 5>({0b10011, 0b11111, 0b00111}); gens<15, 7>({0b10011, 0b11111}); gens<15, 11>({0b10011});
		gens<31, 16>({0b100101, 0b111101, 0b110111}); gens<31, 26>({0b100101}); gens<127, 64>(M127); gens<23, 12>({0b110001110101}); gens<255, 247>({0b100011101});
		gens<15, 1>({0b10011, 0b11111, 0b00111, 0b11001});
	}
	osd<15, 5, 0, 1>(12000, 100000, {0b10011, 0b11111, 0b00111});
	osd<15, 5, 1, 4>(24000, 200000, {0b10011, 0b11111, 0b00111});
	osd<15, 5, 2, 16>(24000, 200000, {0b10011, 0b11111, 0b00111});
	osd<15, 5, 5, 32>(24000, 200000, {0b10011, 0b11111, 0b00111});
	osd<8, 4, 4, 16>(32000, 300000);
#elif PART == 1
	osd<7, 4, 3, 5>(32000, 300000, {0b1011});
	osd<16, 6, 6, 64>(12000, 60000);
	osd<12, 3, 3, 8>(32000, 300000);
	osd<9, 1, 1, 2>(16000, 100000);
	osd<8, 8, 2, 16>(16000, 100000);
	osd<24, 6, 5, 17>(12000, 60000);
#elif PART == 2
	osd<31, 16, 2, 16>(12000, 100000, {0b100101, 0b111101, 0b110111});
	osd<24, 12, 3, 8>(9600, 80000);
	osd<33, 9, 4, 3>(12000, 80000);
	osd<17, 10, 1, 11>(24000, 100000);
#elif PART == 3
	osd<63, 30, 2, 32>(3200, 30000);
	osd<127, 64, 2, 16>(240, 6000, M127);
	osd<128, 20, 1, 16>(4000, 30000);
	osd<127, 64, 4, 4>(4, 40, M127);
	osd<64, 12, 6, 16>(400, 3000);
	osd<48, 8, 6, 12>(1200, 12000);
	osd<40, 9, 5, 20>(1200, 12000);
	osd<24, 12, 3, 200>(800, 8000);
	osd<300, 6, 2, 8>(800, 8000);	// more than 2^15 of correlation
	osd<517, 9, 1, 10>(400, 4000);
	osd<1023, 3, 3, 8>(400, 4000);
#endif
	return finish();
}
