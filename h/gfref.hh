// Independent model of GF(2^m) and of polynomials over it (no code from the library).
#pragma once
#include "vh.hh"
struct RefField {
	int m; uint32_t poly, Q, N;
	std::vector<uint32_t> ex, lg;
	RefField(int m_, uint32_t poly_) : m(m_), poly(poly_), Q(1u << m_), N((1u << m_) - 1) {
		ex.resize(2 * N + 2); lg.assign(Q, 0);
		uint32_t a = 1;
		for (uint32_t i = 0; i < N; ++i) {
			ex[i] = ex[i + N] = a; lg[a] = i;
			a <<= 1;
			if (a & Q) a ^= poly;
		}
	}
	// schoolbook carry-less multiplication with reduction
	uint32_t slow(uint32_t a, uint32_t b) const {
		uint64_t p = 0;
		for (int i = 0; i < m; ++i) if ((b >> i) & 1) p ^= uint64_t(a) << i;
		for (int i = 2 * m - 2; i >= m; --i) if ((p >> i) & 1) p ^= uint64_t(poly) << (i - m);
		return uint32_t(p);
	}
	uint32_t mul(uint32_t a, uint32_t b) const { return a && b ? ex[lg[a] + lg[b]] : 0; }
	uint32_t inv(uint32_t a) const { return ex[(N - lg[a]) % N]; }
	uint32_t pw(uint64_t e) const { return ex[e % N]; } // alpha^e
};
// value of the word (coefficients of descending powers) at alpha^(fcr+i) for i<nr
template <typename T>
static void ref_syndromes(const RefField &F, const T *word, int len, int fcr, int nr, uint32_t *syn) {
	for (int i = 0; i < nr; ++i) {
		uint32_t s = 0, r = F.pw(uint64_t(fcr) + i);
		for (int j = 0; j < len; ++j) s = F.mul(s, r) ^ uint32_t(word[j]);
		syn[i] = s;
	}
}
template <typename T>
static bool ref_is_codeword(const RefField &F, const T *word, int len, int fcr, int nr) {
	for (int i = 0; i < nr; ++i) {
		uint32_t s = 0, r = F.pw(uint64_t(fcr) + i);
		for (int j = 0; j < len; ++j) s = F.mul(s, r) ^ uint32_t(word[j]);
		if (s) return false;
	}
	return true;
}
// incremental syndrome knowledge: weight of position j (from the left of a word of length len)
static inline bool ref_error_is_codeword(const RefField &F, const std::vector<std::pair<int, uint32_t>> &err, int len, int fcr, int nr) {
	for (int i = 0; i < nr; ++i) {
		uint32_t s = 0;
		for (auto &e : err) s ^= F.mul(e.second, F.pw(uint64_t(fcr + i) * uint64_t(len - 1 - e.first)));
		if (s) return false;
	}
	return true;
}
