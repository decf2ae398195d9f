// Independent models of the polar transform, successive cancellation and list
// decoding: plain channel combining per position, no tree specialisation.
#pragma once
#include "vh.hh"
namespace pref {

typedef std::vector<int> Bits;	// one 0/1 per position

inline bool fget(const uint32_t *f, int i) { return f[i / 32] >> (i % 32) & 1; }
// codeword of the bits u: position i is the sum of the u_j with i a sub-mask of j
inline Bits transform(Bits u)
{
	int n = u.size();
	for (int bit = 1; bit < n; bit *= 2)
		for (int i = 0; i < n; ++i)
			if (!(i & bit)) u[i] ^= u[i | bit];
	return u;
}
inline bool closed_upward(const uint32_t *f, int level)
{ // every position that contains (bitwise) an information position is an information position
	for (int i = 0; i < 1 << level; ++i)
		if (!fget(f, i))
			for (int b = 0; b < level; ++b)
				if (fget(f, i | 1 << b)) return false;
	return true;
}

struct Path { // state of one successive cancellation path
	int n;
	bool sat;
	std::vector<std::vector<double>> llr;	// per stage
	std::vector<std::vector<signed char>> left;	// hard values of the finished left half per stage, +1 -1 0
	std::vector<signed char> u;
	double pm = 0;
	bool zero_seen = false;
	Path(int n, bool sat, const std::vector<double> &in) : n(n), sat(sat), llr(n + 1), left(n + 1) {
		for (int s = 0; s <= n; ++s) llr[s].resize(1 << s), left[s].resize(1 << s);
		llr[n] = in;
		u.reserve(1 << n);
	}
	static int sg(double v) { return (v > 0) - (v < 0); }
	double next() { // soft value of the next position
		int i = u.size();
		for (int s = n - 1; s >= 0; --s) {
			int h = 1 << s;
			if (i & (h - 1)) continue;
			const double *a = llr[s + 1].data(), *b = a + h;
			if (i & h) for (int j = 0; j < h; ++j) {
				double g = left[s][j] * a[j] + b[j];
				if (sat) g = std::max(-127.0, std::min(127.0, g));
				llr[s][j] = g;
			} else for (int j = 0; j < h; ++j)
				llr[s][j] = sg(a[j]) * sg(b[j]) * std::min(std::abs(a[j]), std::abs(b[j]));
		}
		return llr[0][0];
	}
	void put(int v) { // decide the next position: +1, -1 or 0 for undecided
		int i = u.size();
		u.push_back(v);
		std::vector<signed char> hard(1, v);
		for (int s = 0; s < n; ++s) {
			int h = 1 << s;
			if (!(i & h)) { left[s] = hard; return; }
			std::vector<signed char> both(2 * h);
			for (int j = 0; j < h; ++j) { both[j] = left[s][j] * hard[j]; both[j + h] = hard[j]; }
			hard.swap(both);
		}
	}
	// A run of frozen positions that fills a subtree may be charged at its root; in exact arithmetic this
	// is the same as position by position, with saturation it is not. Returns how many positions were settled.
	int frozen(const std::string &kind, int cap) { // after next()
		int i = u.size(), h = 0;
		for (;;) {
			int size = 2 << h;
			if (size > cap || size > 1 << n || (i & (size - 1))) break;
			bool all = true;
			for (int j = i + size / 2; j < i + size && all; ++j) all = kind[j] == 'f';
			if (!all) break;
			++h;
		}
		for (int j = 0; j < 1 << h; ++j) charge(llr[h][j], 1);
		for (int j = 0; j < 1 << h; ++j) put(1);
		return 1 << h;
	}
	void charge(double soft, int v) { // penalty for deciding v
		if (soft < 0 && v > 0) pm -= soft;
		else if (soft >= 0 && v < 0) pm += soft;
	}
};

// Successive cancellation. msg: decisions at the information positions. Returns how many of
// them are settled by the rule: decisions inside an all-information subtree that receives a
// zero are left open, since hard decisions and single steps treat zeros differently.
inline int sc(std::vector<int> &msg, const std::vector<double> &in, const uint32_t *frozen, int n, bool sat)
{
	Path p(n, sat, in);
	int N = 1 << n, settled = -1;
	msg.clear();
	for (int i = 0; i < N; ++i) {
		double s = p.next();
		if (settled < 0 && !fget(frozen, i))
			for (int h = 1; h < N && settled < 0; ++h) { // subtrees that begin here: size 1<<h
				int size = 1 << h;
				if (size > N || (i & (size - 1))) break;
				bool all = true;
				for (int j = i; j < i + size && all; ++j) all = !fget(frozen, j);
				if (!all) break;
				for (int j = 0; j < size; ++j)
					if (p.llr[h][j] == 0) settled = msg.size();
			}
		if (fget(frozen, i)) p.put(1);
		else { int d = Path::sg(s); p.put(d); msg.push_back(d); }
	}
	return settled < 0 ? int(msg.size()) : settled;
}

struct Parity { int stride = -1, first = 0; };	// stride < 0: none

// kind of every position: 'f' frozen, 'm' message, 'p' parity of the message bits since the last one
inline std::string layout(const uint32_t *frozen, int n, Parity par)
{
	std::string k(1 << n, 'f');
	int count = par.first;
	for (int i = 0; i < 1 << n; ++i) {
		if (fget(frozen, i)) continue;
		if (par.stride < 0) k[i] = 'm';
		else if (count) { k[i] = 'm'; --count; }
		else { k[i] = 'p'; count = par.stride; }
	}
	return k;
}
inline Bits expand(const std::vector<int> &msg, const std::string &kind)
{ // message as +-1 to bits
	Bits u(kind.size(), 0);
	int j = 0, acc = 0;
	for (size_t i = 0; i < kind.size(); ++i)
		if (kind[i] == 'm') { u[i] = msg[j++] < 0; acc ^= u[i]; }
		else if (kind[i] == 'p') { u[i] = acc; acc = 0; }
	return u;
}
// penalty of a given message by the recursion
inline double penalty(const std::vector<int> &msg, const std::string &kind, const std::vector<double> &in, int n, bool sat, int cap = 1)
{
	Bits u = expand(msg, kind);
	Path p(n, sat, in);
	for (int i = 0; i < 1 << n; i = p.u.size()) {
		double s = p.next();
		if (kind[i] == 'f') { p.frozen(kind, cap); continue; }
		int v = 1 - 2 * u[i];
		p.charge(s, v);
		p.put(v);
	}
	return p.pm;
}
struct Found { double pm; std::vector<int> msg; };
// list of the best paths; decided = false when a tie at the cut leaves the survivors open
inline std::vector<Found> scl(const std::string &kind, const std::vector<double> &in, int n, bool sat, int L, bool &decided, int cap = 1)
{
	std::vector<Path> list;
	list.emplace_back(n, sat, in);
	std::vector<signed char> par(1, 1);	// running parity per path
	decided = true;
	for (int i = 0; i < 1 << n; i = list[0].u.size()) {
		std::vector<double> s(list.size());
		for (size_t k = 0; k < list.size(); ++k) s[k] = list[k].next();
		if (kind[i] == 'f') {
			for (auto &p : list) p.frozen(kind, cap);
			continue;
		}
		if (kind[i] == 'p') {
			for (size_t k = 0; k < list.size(); ++k) {
				int v = par[k];
				par[k] = 1;
				list[k].charge(s[k], v);
				list[k].put(v);
			}
			continue;
		}
		struct Fork { double pm; int k, v; };
		std::vector<Fork> forks;
		for (size_t k = 0; k < list.size(); ++k)
			for (int v = 1; v >= -1; v -= 2) {
				double pm = list[k].pm;
				if (s[k] < 0 && v > 0) pm -= s[k];
				else if (s[k] >= 0 && v < 0) pm += s[k];
				forks.push_back(Fork{pm, int(k), v});
			}
		std::stable_sort(forks.begin(), forks.end(), [](const Fork &a, const Fork &b) { return a.pm < b.pm; });
		if (int(forks.size()) > L) {
			if (forks[L - 1].pm == forks[L].pm) decided = false;
			forks.resize(L);
		}
		std::vector<Path> next;
		std::vector<signed char> np;
		for (auto &f : forks) {
			next.push_back(list[f.k]);
			next.back().pm = f.pm;
			next.back().put(f.v);
			np.push_back(par[f.k] * f.v);
		}
		list.swap(next);
		par.swap(np);
	}
	std::vector<Found> out;
	for (auto &p : list) {
		Found f;
		f.pm = p.pm;
		for (size_t i = 0; i < kind.size(); ++i) if (kind[i] == 'm') f.msg.push_back(p.u[i]);
		out.push_back(f);
	}
	std::stable_sort(out.begin(), out.end(), [](const Found &a, const Found &b) { return a.pm < b.pm; });
	return out;
}

// frozen sets of several shapes; returns the number of free positions (at least least)
inline int make_frozen(vh::RNG &r, uint32_t *f, int level, int least, const char *&kind)
{
	int N = 1 << level, words = (N + 31) / 32;
	for (int i = 0; i < words; ++i) f[i] = 0;
	auto set = [&](int i) { f[i / 32] |= uint32_t(1) << (i % 32); };
	switch (r.below(7)) {
	case 0: { kind = "random"; int p = r.range(1, 9); for (int i = 0; i < N; ++i) if (r.range(0, 9) < p) set(i); break; }
	case 1: { kind = "erasure"; // reliability by the erasure recursion
		double pe = 0.05 + 0.9 * r.uniform();
		std::vector<double> p(N);
		for (int i = 0; i < N; ++i) { double q = pe; for (int b = level - 1; b >= 0; --b) q = i >> b & 1 ? q * q : q * (2 - q); p[i] = q; }
		std::vector<int> o(N);
		for (int i = 0; i < N; ++i) o[i] = i;
		std::stable_sort(o.begin(), o.end(), [&](int a, int b) { return p[a] > p[b]; });
		int K = r.coin(3) ? r.range(least, std::min(N, least + 6)) : r.range(least, N);
		for (int i = 0; i < N - K; ++i) set(o[i]);
		break; }
	case 2: { kind = "reed-muller"; int w = r.range(0, level); for (int i = 0; i < N; ++i) if (__builtin_popcount(i) < w) set(i); break; }
	case 3: { kind = "blocks"; // whole subtrees frozen or free
		for (int i = 0; i < N;) { int s = 1 << r.below(level + 1); while (i & (s - 1)) s >>= 1; if (r.coin()) for (int j = 0; j < s; ++j) set(i + j); i += s; }
		break; }
	case 4: { kind = "few"; std::vector<int> pos(N); int k = std::min(N, least + int(r.below(5))); r.choose(pos.data(), N, k); for (int i = 0; i < N; ++i) set(i); for (int j = 0; j < k; ++j) f[pos[j] / 32] &= ~(uint32_t(1) << (pos[j] % 32)); break; }
	case 5: { kind = "few frozen"; std::vector<int> pos(N); int k = r.below(std::min(8, N)); r.choose(pos.data(), N, k); for (int j = 0; j < k; ++j) set(pos[j]); break; }
	default: { kind = "edge"; int k = r.below(N + 1); bool first = r.coin(); for (int i = 0; i < N; ++i) if (first ? i < k : i >= k) set(i); break; }
	}
	int K = N;
	for (int i = 0; i < N; ++i) K -= fget(f, i);
	while (K < least) { // free random further positions
		int i = r.below(N);
		if (fget(f, i)) { f[i / 32] &= ~(uint32_t(1) << (i % 32)); ++K; }
	}
	return K;
}
}
