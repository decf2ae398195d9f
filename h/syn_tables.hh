// Synthetic LDPC code tables of chosen shape.
#pragma once
// ------------------------------------------------------------ synthetic tables
template <int M, int Q, int R1, int D1, int R2, int D2, int SEED, int DUP>
struct SynData {
	int pos[R1 * D1 + R2 * D2] = {};
	int most = 0, least = 0, total = 0;
	constexpr SynData() {
		uint64_t s = SEED * 7919 + 1;
		int cnt[Q] = {};
		int p = 0;
		for (int r = 0; r < R1 + R2; ++r) {
			int d = r < R1 ? D1 : D2;
			for (int k = 0; k < d; ++k) {
				for (;;) {
					s = s * 6364136223846793005ull + 1442695040888963407ull;
					int n = int((s >> 33) % Q);
					int m = int((s >> 45) % M);
					bool ok = true;
					int lo = cnt[0];
					for (int i = 1; i < Q; ++i) if (cnt[i] < lo) lo = cnt[i];
					if (cnt[n] > lo + (DUP ? 2 : 1)) ok = false;
					for (int j = 0; j < k && ok; ++j) {
						int on = pos[p - 1 - j] % Q, om = pos[p - 1 - j] / Q;
						if (on == n && om == m) ok = false;
						if ((!DUP || DUP >= 100) && on == n) ok = false;
					}
					// same row and class with a distance that is a multiple of M/30: both bits meet in one vector
					if (DUP && ok && (DUP < 100 ? k && k <= DUP && r % 3 == 1 : k == 1 && (r == DUP - 100 || r == DUP - 101))) {
						n = pos[p - 1] % Q;
						m = (pos[p - 1] / Q + (M / 15) * int(1 + (s >> 20) % 14)) % M;
						for (int j = 0; j < k; ++j) if (pos[p - 1 - j] == m * Q + n) ok = false;
					}
					if (!ok) continue;
					pos[p++] = m * Q + n;
					++cnt[n];
					break;
				}
			}
		}
		least = most = cnt[0];
		for (int i = 0; i < Q; ++i) { if (cnt[i] > most) most = cnt[i]; if (cnt[i] < least) least = cnt[i]; }
		total = M * p + 2 * M * Q - 1;
	}
};
template <int M_, int Q, int R1, int D1, int R2, int D2, int SEED, int DUP = 0>
struct Syn {
	typedef SynData<M_, Q, R1, D1, R2, D2, SEED, DUP> Data;
	static constexpr Data data{};
	static_assert(data.least > 0, "every check covers a message bit, as in the tables of the standards");
	static const int M = M_;
	static const int K = M * (R1 + R2);
	static const int N = K + M * Q;
	static const int LINKS_MIN_CN = data.least + 2;
	static const int LINKS_MAX_CN = data.most + 2;
	static const int LINKS_TOTAL = data.total;
	static const int DEG_MAX = D1 > D2 ? D1 : D2;
	static constexpr int DEG[] = { D1, D2, 0 };
	static constexpr int LEN[] = { R1, R2, 0 };
	static constexpr const int *POS = data.pos;
};

