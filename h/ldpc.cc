// LDPC codes: the check matrix is expanded from the table by the rule of ETSI EN 302 755
// and judges encoder, verdict and message passing.  PART: 0..2 synthetic tables, 3..6 DVB tables.
// Sections: E encoder, D decoder, H history
#include "vh.hh"
#include "neon_shim.hh"
#include "ldpc_encoder.hh"
#include "ldpc_decoder.hh"
#include "dvb_tables.hh"
using namespace vh;

#if defined(__AVX2__)
static const int LANES = 30;
#else
static const int LANES = 15;
#endif

#include "syn_tables.hh"

// ------------------------------------------------------------- the check matrix
template <typename T>
struct Matrix {
	static const int M = T::M, K = T::K, N = T::N, R = N - K, Q = R / M;
	std::vector<std::vector<int>> rows;	// message bits of each check
	Matrix() : rows(R) {
		const int *p = T::POS;
		int g = 0;
		for (int i = 0; T::LEN[i]; ++i)
			for (int r = 0; r < T::LEN[i]; ++r, ++g) {
				for (int d = 0; d < T::DEG[i]; ++d)
					for (int t = 0; t < M; ++t)
						rows[(p[d] + t * Q) % R].push_back(g * M + t);
				p += T::DEG[i];
			}
	}
	template <typename V> int unsatisfied(const V *msg, const V *par) const {
		int bad = 0;
		for (int r = 0; r < R; ++r) {
			int s = par[r] < 0;
			bool zero = par[r] == 0 || (r && par[r - 1] == 0);
			if (r) s ^= par[r - 1] < 0;
			for (int b : rows[r]) { s ^= msg[b] < 0; zero = zero || msg[b] == 0; }
			bad += s || zero;
		}
		return bad;
	}
};

static int sat(int x) { return x > 127 ? 127 : x < -128 ? -128 : x; }

// The layered rule in plain integers: checks are taken in the order the vectors take them.
// Links of one layer that meet in one vector are 'twins': only one of them writes per round,
// in turn from the last to the first; their order is given from outside.
template <typename T, int BETA>
struct Model {
	typedef Matrix<T> MX;
	static const int M = T::M, R = T::N - T::K, Q = R / M, D = LANES, W = M / D;
	struct Link { int kind, bit, n; };
	struct Layer { std::vector<std::vector<int>> words; };	// per row: message bits, sorted by vector word
	const MX &mx;
	std::vector<int> msg, par;
	std::vector<std::vector<int>> bl;	// per row, message links then own parity then previous parity
	std::vector<std::vector<std::vector<int>>> group;	// per layer: groups of link positions (indices into rows[r], same for all rows of the layer)
	int groups = 0;
	static int word(int bit) { int g = bit / M, m = bit % M; return g * W + m % W; }
	explicit Model(const MX &m) : mx(m) {
		group.resize(Q * W);
		for (int i = 0; i < Q; ++i) for (int j = 0; j < W; ++j) {
			int r = Q * j + i;	// lane 0
			std::map<int, std::vector<int>> by;
			for (size_t k = 0; k < mx.rows[r].size(); ++k) by[word(mx.rows[r][k])].push_back(int(k));
			for (auto &b : by) if (b.second.size() > 1) { group[i * W + j].push_back(b.second); ++groups; }
		}
	}
	std::vector<std::vector<int>> turn;	// per layer, per group: rounds done
	void start(const int8_t *m, const int8_t *p) {
		msg.assign(m, m + T::K);
		par.assign(p, p + R);
		bl.assign(R, {});
		for (int r = 0; r < R; ++r) bl[r].assign(mx.rows[r].size() + 2, 0);
		round = 0;
	}
	int round = 0;
	// order: bit g tells whether group g (numbered over all layers, pairs only) is reversed
	void update(uint64_t order = 0) {
		int gi = 0;
		for (int i = 0; i < Q; ++i) for (int j = 0; j < W; ++j) {
			auto &gr = group[i * W + j];
			struct Write { int *where; int v; };
			std::vector<Write> ws;
			std::vector<char> closed;
			for (size_t k = 0; k < mx.rows[Q * j + i].size(); ++k) closed.push_back(0);
			for (auto &g : gr) {
				int c = int(g.size());
				int pick = (c - 1 - round % c);
				if (order >> gi & 1) pick = c - 1 - pick;
				++gi;
				for (int x = 0; x < c; ++x) closed[g[x]] = x != pick;
			}
			for (int n = 0; n < D; ++n) {
				int r = Q * (W * n + j) + i;
				auto &row = mx.rows[r];
				int deg = int(row.size()) + (r ? 2 : 1);
				int inp[64], mag[64], sign = 0, min0 = 127, min1 = 127;
				for (int k = 0; k < deg; ++k) {
					int s = k < int(row.size()) ? msg[row[k]] : k == int(row.size()) ? par[r] : par[r - 1];
					inp[k] = sat(s - bl[r][k]);
					int a = std::min(127, std::abs(inp[k]));
					mag[k] = std::max(0, a - BETA);
					if (mag[k] < min0) { min1 = min0; min0 = mag[k]; } else if (mag[k] < min1) min1 = mag[k];
					sign ^= inp[k] < 0;
				}
				for (int k = 0; k < deg; ++k) {
					int o = std::min(31, mag[k] == min0 ? min1 : min0);
					if (sign ^ (inp[k] < 0)) o = -o;
					int old = bl[r][k];
					if (old && (old > 0) != (o >= 0)) o = 0;
					int t = sat(inp[k] + o);
					if (k < int(row.size())) {
						// rows of one layer list their links in the same order
						if (closed[k]) continue;
						bl[r][k] = o;
						ws.push_back({&msg[row[k]], t});
					} else {
						bl[r][k] = o;
						ws.push_back({k == int(row.size()) ? &par[r] : &par[r - 1], t});
					}
				}
			}
			for (auto &w : ws) *w.where = w.v;
		}
		++round;
	}
	bool good() const { return !mx.unsatisfied(msg.data(), par.data()); }
};

template <typename T>
static void encode(const char *name, double q, double t)
{
	static const Matrix<T> mx;
	const int K = T::K, R = T::N - T::K;
	RNG r = rng(mix(K, R));
	Placed<CODE::LDPCEncoder<T>> enc(r.range(0, 255));
	for (int n = reps(q, t); n-- > 0;) {
		std::vector<int8_t> data(K);
		int shape = r.below(5);
		for (int i = 0; i < K; ++i) data[i] = shape == 0 ? 1 : shape == 1 ? -1 : r.coin() ? 1 : -1;
		if (shape == 2) { for (auto &d : data) d = 1; for (int k = r.range(1, 3); k--;) data[r.below(K)] = -1; }
		Guarded<int8_t> in(K, 1, r.below(4)), out(R, 1, r.below(4));
		std::memcpy(in.p, data.data(), K);
		std::memset(out.p, r.range(0, 255), R);
		crumb("%s encode shape=%d", name, shape);
		(*enc)(in.p, out.p);
		bool pm = true;
		for (int i = 0; i < R; ++i) pm = pm && (out[i] == 1 || out[i] == -1);
		check(pm, "ldpc:parity-values", "parity holds something else than +-1");
		int bad = mx.unsatisfied(data.data(), out.p);
		check(!bad, "ldpc:encoder", "%d of %d checks are odd", bad, R);
		check(!std::memcmp(in.p, data.data(), K), "ldpc:message-changed", "message changed");
		check(in.intact() && out.intact(), "ldpc:overrun", "bytes beside the buffers changed");
		eval();
		distinct(hash_bytes(data.data(), K, K * 31 + R));
		count("checks_evaluated", R);
	}
}

template <typename T, int BETA>
static void decode(const char *name, double q, double t)
{
	static const Matrix<T> mx;
	const int K = T::K, N = T::N, R = N - K;
	RNG r = rng(mix(mix(K, R), BETA + 100));
	CODE::LDPCEncoder<T> *enc = new CODE::LDPCEncoder<T>;
	typedef CODE::LDPCDecoder<T, BETA> DEC;
	Placed<DEC> dec(r.range(0, 255));
	Model<T, BETA> model(mx);
	count(model.groups ? "tables_with_twins" : "tables_without_twins");
	std::vector<int8_t> cw(N);
	for (int n = reps(q, t); n-- > 0;) {
		for (int i = 0; i < K; ++i) cw[i] = r.coin() ? 1 : -1;
		(*enc)(cw.data(), cw.data() + K);
		std::vector<int8_t> in(N);
		int trials = r.coin(3) ? 25 : r.range(0, 8);
		const char *kind = "";
		bool mild = false, clean = false;
		int shape = r.below(9);
		switch (shape) {
		case 0: kind = "clean"; clean = true; { int a = r.range(1, 127); bool var = r.coin(); for (int i = 0; i < N; ++i) in[i] = cw[i] * (var ? r.range(1, 127) : a); if (r.coin(4)) for (auto &v : in) if (v == -127) v = -128; } break;
		case 1: { kind = "one-erased"; mild = true; trials = 25; int a = BETA + r.range(1, 60); for (int i = 0; i < N; ++i) in[i] = cw[i] * a; in[r.below(N)] = 0; } break;
		case 2: { kind = "one-flipped"; mild = true; trials = 25; int a = BETA + 33 + r.below(60); for (int i = 0; i < N; ++i) in[i] = cw[i] * a; int b = r.below(N); in[b] = -cw[b] * int(r.range(1, 8)); } break;
		case 3: { kind = "sparse-weak"; trials = 25; mild = N > 10000; int a = BETA + 40; for (int i = 0; i < N; ++i) in[i] = cw[i] * a;
			for (int k = N / 400; k--;) { int b = r.below(N); in[b] = r.coin() ? 0 : -cw[b] * int(r.range(1, 5)); } } break;
		case 4: case 5: { kind = "noise"; double sg = 0.3 + 0.7 * r.uniform(), f = r.coin(3) ? 40 : 8; for (int i = 0; i < N; ++i) in[i] = int8_t(std::max(-127., std::min(127., std::nearbyint(f * (cw[i] + sg * r.normal()))))); } break;
		case 6: kind = "random"; for (auto &v : in) v = r.range(-128, 127); break;
		case 7: kind = "tiny"; for (auto &v : in) v = r.range(-1, 1); break;
		default: { kind = "extreme"; for (int i = 0; i < N; ++i) in[i] = cw[i] * 127; for (int k = r.range(1, std::max(2, N / 20)); k--;) in[r.below(N)] = r.coin() ? -128 : 127; } break;
		}
		Guarded<int8_t> ms(K, 1, r.below(4)), ps(R, 1, r.below(4));
		std::memcpy(ms.p, in.data(), K);
		std::memcpy(ps.p, in.data() + K, R);
		crumb("%s beta=%d %s trials=%d input-hash=%016llx%s", name, BETA, kind, trials, (unsigned long long)hash_bytes(in.data(), N), N <= 300 ? (" " + show(in.data(), N, 300)).c_str() : "");
		distinct(hash_bytes(in.data(), N, mix(K, BETA)));
		int ret = trials == 25 && r.coin() ? (*dec)(ms.p, ps.p) : (*dec)(ms.p, ps.p, trials);
		eval();
		check(ms.intact() && ps.intact(), "ldpc:overrun", "bytes beside the buffers changed");
		check(ret >= -1 && ret <= trials, "ldpc:return-range", "returned %d of %d trials", ret, trials);
		int bad = mx.unsatisfied(ms.p, ps.p);
		count(ret < 0 ? "verdict_failure" : "verdict_success");
		if (ret < 0) check(bad, "ldpc:false-failure", "failure reported although every check is satisfied");
		else check(!bad, "ldpc:false-success", "success reported with %d unsatisfied checks", bad);
		if (clean) {
			check(ret == trials && !std::memcmp(ms.p, in.data(), K) && !std::memcmp(ps.p, in.data() + K, R), "ldpc:clean", "noiseless codeword came back changed or late (%d of %d)", ret, trials);
			count("clean_words");
		}
		if (mild) {
			int wrong = 0;
			for (int i = 0; i < K; ++i) wrong += ms[i] * cw[i] <= 0;
			for (int i = 0; i < R; ++i) wrong += ps[i] * cw[K + i] <= 0;
			check(ret >= 0 && !wrong, "ldpc:mild", "%s not corrected: returned %d, %d symbols wrong", kind, ret, wrong);
			count("mild_words");
		}
		int used = ret < 0 ? trials : trials - ret;
		if (used > 0) count("rounds", used);
		// message passing, value by value
		if (N <= 2000 || n % 8 == 0) {
			bool same = false;
			int rounds = 0;
			uint64_t orders = model.groups <= 4 ? uint64_t(1) << model.groups : model.groups ? 0 : 1;
			for (uint64_t o = 0; o < orders && !same; ++o) {
				model.start(in.data(), in.data() + K);
				int tr = trials;
				rounds = 0;
				while (!model.good() && --tr >= 0) { model.update(o); ++rounds; }
				same = tr == ret;
				for (int i = 0; i < K && same; ++i) same = model.msg[i] == ms[i];
				for (int i = 0; i < R && same; ++i) same = model.par[i] == ps[i];
			}
			if (orders) {
				check(same, model.groups ? "ldpc:rule-twins" : "ldpc:rule", "soft output or number of rounds differs from the layered min-sum rule (returned %d)", ret);
				count(model.groups ? "rule_compared_twins" : "rule_compared");
				count("rule_rounds", rounds);
			}
		}
		// the same call again, on the used object and on a fresh one in dirty memory
		if (n % 4 == 0) {
			std::vector<int8_t> a(in);
			int r1 = (*dec)(a.data(), a.data() + K, trials);
			check(r1 == ret && !std::memcmp(a.data(), ms.p, K) && !std::memcmp(a.data() + K, ps.p, R), "ldpc:history", "the same input gave another output on the second call (%d, then %d)", ret, r1);
			if (n % 16 == 0) {
				Placed<DEC> d2(r.range(0, 255));
				std::vector<int8_t> b(in);
				int r2 = (*d2)(b.data(), b.data() + K, trials);
				check(r2 == ret && !std::memcmp(b.data(), ms.p, K) && !std::memcmp(b.data() + K, ps.p, R), "ldpc:fresh", "a fresh object gave another output (%d, used one %d)", r2, ret);
			}
			count("repeated_calls");
		}
	}
	delete enc;
}

template <typename T, int BETA>
static void both(const char *name, double qe, double qd, double te, double td)
{
	if (section("E")) encode<T>(name, qe, te);
	if (section("D")) decode<T, BETA>(name, qd, td);
}

int main(int argc, char **argv)
{
	init(argc, argv);
#if PART == 0
	both<Syn<30, 2, 1, 2, 1, 2, 1>, 0>("syn(M=30,q=2)", 2000, 4000, 60000, 200000);
	both<Syn<30, 4, 2, 3, 2, 2, 2>, 1>("syn(M=30,q=4)", 1000, 3000, 60000, 200000);
	both<Syn<60, 3, 2, 3, 2, 3, 3>, 2>("syn(M=60,q=3)", 500, 2000, 30000, 100000);
	both<Syn<30, 8, 4, 4, 6, 3, 4>, 1>("syn(M=30,q=8)", 500, 2000, 30000, 100000);
	both<Syn<90, 5, 3, 5, 4, 3, 5>, 3>("syn(M=90,q=5)", 300, 1000, 10000, 60000);
#elif PART == 1
	both<Syn<30, 5, 2, 3, 2, 3, 6, 1>, 1>("syn(M=30,q=5,twins)", 1000, 3000, 60000, 200000);
	both<Syn<30, 4, 1, 3, 2, 4, 7, 1>, 0>("syn(M=30,q=4,twins)", 1000, 3000, 60000, 200000);
	both<Syn<60, 4, 2, 3, 2, 3, 8, 1>, 1>("syn(M=60,q=4,twins)", 500, 2000, 30000, 100000);
	both<Syn<30, 6, 2, 3, 4, 3, 9, 1>, 2>("syn(M=30,q=6,twins)", 500, 2000, 30000, 100000);
	both<Syn<30, 3, 1, 3, 2, 3, 10, 1>, 1>("syn(M=30,q=3,twins)", 500, 2000, 30000, 100000);
	both<Syn<30, 3, 20, 3, 7, 3, 21, 124>, 1>("syn(M=30,q=3,27 links,twins)", 300, 1000, 20000, 60000);	// twins among the last of many links
	both<Syn<60, 3, 20, 3, 8, 3, 22, 125>, 1>("syn(M=60,q=3,28 links,twins)", 200, 500, 10000, 30000);
#elif PART == 2
	both<Syn<120, 6, 3, 6, 9, 3, 11>, 1>("syn(M=120,q=6)", 200, 600, 6000, 30000);
	both<Syn<360, 4, 2, 4, 6, 3, 12>, 1>("syn(M=360,q=4)", 100, 200, 2000, 10000);
	both<Syn<30, 14, 2, 12, 30, 3, 13>, 1>("syn(M=30,q=14)", 300, 800, 10000, 60000);
	both<Syn<60, 3, 3, 3, 25, 3, 14>, 1>("syn(M=60,q=3,rate 0.9)", 200, 600, 10000, 60000);
	both<Syn<180, 7, 4, 7, 10, 2, 15>, 8>("syn(M=180,q=7)", 100, 200, 3000, 20000);
	both<Syn<30, 140, 12, 9, 40, 6, 16>, 1>("syn(M=30,q=140)", 100, 150, 2000, 10000);
#elif PART == 3
	both<DVB_T2_TABLE_A1, 1>("DVB A1", 10, 30, 300, 1500);
#elif PART == 4
	both<DVB_T2_TABLE_A3, 1>("DVB A3", 10, 30, 300, 1500);
#elif PART == 5
	both<DVB_T2_TABLE_A6, 1>("DVB A6", 10, 30, 300, 1500);
#elif PART == 6
	both<DVB_T2_TABLE_B7, 1>("DVB B7", 20, 60, 600, 4000);
#endif
	return finish();
}
