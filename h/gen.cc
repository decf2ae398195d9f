// Generator matrices of BCH codes and the linear encoder (C40).
// PART 0: constructor of polynomials and matrices, 1: linear encoder
#include "vh.hh"
#include "osd.hh"
using namespace vh;

typedef std::vector<int8_t> Row;

#if PART == 0
// product over GF(2), lowest power first, of polynomials given as bit masks
static Row product(std::initializer_list<int> polys)
{
	Row g{1};
	for (int m : polys) {
		int deg = 31 - __builtin_clz(unsigned(m));
		Row n(g.size() + deg, 0);
		for (size_t i = 0; i < g.size(); ++i)
			for (int b = 0; b <= deg; ++b)
				n[i + b] = n[i + b] ^ (g[i] & (m >> b & 1));
		g = n;
	}
	return g;
}

template <int N, int K>
static void gens(std::initializer_list<int> polys)
{
	const int NP = N - K;
	std::string list;
	for (int m : polys) list += " " + std::to_string(m);
	crumb("generator of (%d,%d):%s", N, K, list.c_str());
	Row g = product(polys);
	if (int(g.size()) != NP + 1) { std::fprintf(stderr, "bad generator (%d,%d) %d\n", N, K, int(g.size())); std::exit(3); }
	RNG r = rng(mix(N, K));
	for (int n = reps(3, 20); n--;) {
		int fill = n == 0 ? 0 : n == 1 ? -1 : r.range(-128, 127);
		distinct(mix(mix(N, K), mix(fill, std::hash<std::string>()(list))));
		Guarded<int8_t> p(NP + 1, 1, r.below(8));
		std::memset(p.p, fill, NP + 1);
		CODE::BoseChaudhuriHocquenghemGenerator<N, K>::poly(p.p, polys);
		int bad = -1;
		for (int i = 0; i <= NP; ++i) if (p[i] != g[NP - i]) bad = i;
		check(bad < 0 && p.intact(), "generator:poly", "coefficient %d of the generator polynomial differs", bad);
		eval();
		Guarded<int8_t> m(N * K, 1, r.below(8));
		std::memset(m.p, fill, N * K);
		CODE::BoseChaudhuriHocquenghemGenerator<N, K>::matrix(m.p, false, polys);
		bad = -1;
		for (int j = 0; j < K; ++j)
			for (int i = 0; i < N; ++i)
				if (m[N * j + i] != (i >= j && i <= j + NP ? g[NP - (i - j)] : 0)) bad = N * j + i;
		check(bad < 0 && m.intact(), "generator:matrix", "entry %d of the plain matrix differs", bad);
		eval();
		std::memset(m.p, fill, N * K);
		CODE::BoseChaudhuriHocquenghemGenerator<N, K>::matrix(m.p, true, polys);
		bad = -1;
		Row want(N);
		for (int j = 0; j < K; ++j) {
			// the only codeword with this unit vector in front: divide x^(N-1-j) by the generator
			std::fill(want.begin(), want.end(), 0);
			want[j] = 1;
			Row rest(want);
			for (int i = j; i < K; ++i)
				if (rest[i]) for (int k = 0; k <= NP; ++k) rest[i + k] ^= g[NP - k];
			for (int i = K; i < N; ++i) want[i] = rest[i];
			for (int i = 0; i < N; ++i) if (m[N * j + i] != want[i]) bad = N * j + i;
		}
		check(bad < 0 && m.intact(), "generator:systematic", "entry %d of the systematic matrix differs", bad);
		eval();
		count("generators");
	}
}
#else
template <int N, int K>
static void linear(double q, double t)
{
	const int NW = (N + 7) / 8, KW = (K + 7) / 8;
	RNG r = rng(mix(mix(N, K), 5));
	Placed<CODE::LinearEncoder<N, K>> enc(r.range(0, 255));
	std::vector<int8_t> gen(N * K);
	for (int n = reps(q, t); n--;) {
		int shape = r.range(0, 4), dense = r.range(1, 99);
		for (int j = 0; j < K; ++j)
			for (int i = 0; i < N; ++i)
				gen[N * j + i] = shape == 0 ? i == j : shape == 1 ? 1 : shape == 2 ? 0 : r.coin(dense);
		if (shape == 2) gen[r.below(N * K)] = 1;
		Guarded<int8_t> gm(N * K, 1, r.below(8));
		std::memcpy(gm.p, gen.data(), N * K);
		for (int rep = r.range(1, 6); rep--;) {
			Guarded<uint8_t> msg(KW, 1, r.below(4)), out(NW, 1, r.below(4));
			int ms = r.range(0, 3), on = r.below(K);
			for (int i = 0; i < KW; ++i) msg[i] = ms == 0 ? 0 : ms == 1 ? 255 : ms == 2 ? 0 : r();
			if (ms == 2) msg[on / 8] |= 128 >> on % 8;
			for (int i = 0; i < NW; ++i) out[i] = r.coin() ? r() : r.coin() ? 255 : 0;
			std::vector<uint8_t> before(msg.p, msg.p + KW);
			crumb("LinearEncoder<%d,%d> matrix kind %d message kind %d bit %d", N, K, shape, ms, on);
			(*enc)(out.p, msg.p, gm.p);
			int bad = -1;
			for (int i = 0; i < N; ++i) {
				int b = 0;
				for (int j = 0; j < K; ++j) b ^= (before[j / 8] >> (7 - j % 8) & 1) & gen[N * j + i];
				if ((out[i / 8] >> (7 - i % 8) & 1) != b) bad = i;
			}
			check(bad < 0 && out.intact(), "linear-encoder", "bit %d of the product with the matrix differs", bad);
			check(!std::memcmp(before.data(), msg.p, KW) && !std::memcmp(gen.data(), gm.p, N * K) && msg.intact() && gm.intact(), "linear-encoder:input", "message or matrix changed");
			eval();
			count("encoded");
			distinct(hash_bytes(msg.p, KW, hash_bytes(gen.data(), N * K, mix(N, K))));
		}
	}
}
#endif

int main(int argc, char **argv)
{
	init(argc, argv);
#if PART == 0
	gens<7, 4>({0b1011}); gens<7, 4>({0b1101}); gens<7, 3>({0b1011, 0b11}); gens<7, 3>({0b11, 0b1011}); gens<7, 1>({0b1011, 0b1101}); gens<7, 6>({0b11});
	gens<15, 11>({0b10011}); gens<15, 11>({0b11001}); gens<15, 10>({0b10011, 0b11}); gens<15, 9>({0b10011, 0b111}); gens<15, 7>({0b10011, 0b11111}); gens<15, 7>({0b11111, 0b10011});
	gens<15, 6>({0b10011, 0b11, 0b11111}); gens<15, 5>({0b10011, 0b11111, 0b00111}); gens<15, 1>({0b10011, 0b11111, 0b00111, 0b11001}); gens<15, 2>({0b10011, 0b11111, 0b11001, 0b11});
	gens<31, 26>({0b100101}); gens<31, 21>({0b100101, 0b111101}); gens<31, 16>({0b100101, 0b111101, 0b110111}); gens<31, 11>({0b100101, 0b111101, 0b110111, 0b101111});
	gens<31, 6>({0b100101, 0b111101, 0b110111, 0b101111, 0b111011});
	gens<63, 57>({0b1000011}); gens<63, 51>({0b1000011, 0b1010111}); gens<63, 28>({0b1000011, 0b1010111, 0b1100111, 0b1001001, 0b1101, 0b1101101, 0b11, 0b11});
	gens<127, 64>({0b10001001, 0b10001111, 0b10011101, 0b11110111, 0b10111111, 0b11010101, 0b10000011, 0b11101111, 0b11001011});
	gens<23, 12>({0b110001110101}); gens<23, 12>({0b101011100011}); gens<24, 12>({0b110001110101, 0b11});
	gens<255, 247>({0b100011101}); gens<255, 239>({0b100011101, 0b101110111}); gens<200, 184>({0b100011101, 0b101110111}); // shortened
	gens<20, 12>({0b100011101}); gens<9, 1>({0b100011101}); gens<10, 2>({0b100011101});
	gens<8, 8>({}); gens<1, 1>({}); gens<2, 1>({0b11}); gens<12, 2>({0b100101, 0b100101}); gens<14, 4>({0b11, 0b11, 0b11, 0b11, 0b11, 0b11, 0b11, 0b11, 0b11, 0b11});
	gens<60, 36>({0x1864CFB}); gens<57, 26>({0x40000009, 0b11}); gens<40, 10>({0x40000003}); gens<300, 276>({0x1864CFB}); gens<511, 502>({0b1000010001});
	gens<300, 3>({0x40000009, 0x1864CFB, 0x40000003, 0x4000002B, 0x40000051, 0x40000095, 0x40000101, 0x40000215, 0x40000603, 0x400018C1, 0b1001});
#else
	linear<7, 4>(400, 20000); linear<1, 1>(50, 1000); linear<8, 1>(100, 5000); linear<1, 8>(100, 5000); linear<8, 8>(300, 20000); linear<9, 9>(300, 20000); linear<16, 7>(300, 20000);
	linear<31, 16>(300, 10000); linear<17, 20>(300, 10000); linear<64, 33>(100, 4000); linear<127, 64>(60, 2000); linear<255, 247>(12, 300); linear<256, 8>(40, 2000); linear<257, 129>(20, 600);
	linear<300, 12>(40, 2000); linear<1023, 30>(20, 600); linear<40, 300>(20, 600); linear<2049, 65>(5, 100);
#endif
	return finish();
}
