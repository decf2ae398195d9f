// C37: separate objects in separate threads. For every class of the catalogue several threads construct objects at
// the same moment and run inputs on them, all of one class or mixed; afterwards the same inputs are run by a single
// thread and the outputs compared. In the ThreadSanitizer build unsynchronised sharing is reported as well. Inputs
// come from a forked child, so that the first use of every class is a concurrent one.
#if PART == 8
#define GROUP 9
#include "vh.hh"
#include "galois_field.hh"
#include "gfref.hh"
#include "reed_solomon_encoder.hh"
#include "reed_solomon_decoder.hh"
#else
#include "catalog.hh"
#endif
#include <atomic>
#include <thread>
#include <sys/wait.h>
using namespace vh;

#if PART == 8
// every thread constructs a field of its own type while the others construct theirs, then codes with it
static std::atomic<int> gate;
template <int M, int POLY, typename TYPE> struct Own {
	typedef CODE::GaloisField<M, POLY, TYPE> GF;
	static std::string run(uint64_t seed, int rounds)
	{
		RNG r(seed);
		RefField ref(M, POLY);
		gate.fetch_sub(1, std::memory_order_relaxed);
		while (gate.load(std::memory_order_relaxed) > 0)
			;
		GF *gf = new GF;
		auto *enc = new CODE::ReedSolomonEncoder<4, 1, GF>;
		auto *dec = new CODE::ReedSolomonDecoder<4, 1, GF>;
		std::string bad;
		for (int k = 0; k < rounds && bad.empty(); ++k) {
			typename GF::ValueType a(TYPE(r.below(GF::Q))), b(TYPE(r.below(GF::Q)));
			if (int((a * b).v) != int(ref.mul(a.v, b.v)) || (b.v && (a / b * b).v != a.v))
				bad = "product or quotient";
			std::vector<typename GF::ValueType> w(GF::N), orig;
			for (int i = 0; i < GF::N - 4; ++i) w[i] = typename GF::ValueType(TYPE(r.below(GF::Q)));
			(*enc)(w.data(), w.data() + GF::N - 4, GF::N - 4);
			orig = w;
			int p = r.range(0, GF::N - 5);
			w[p] = typename GF::ValueType(TYPE(w[p].v ^ (1 + r.below(GF::Q - 1))));
			int n = (*dec)(w.data(), w.data() + GF::N - 4, nullptr, 0, GF::N - 4);
			for (int i = 0; i < GF::N; ++i) if (w[i].v != orig[i].v) bad = "decoded word";
			if (n != 1) bad = "verdict";
		}
		delete dec;
		delete enc;
		delete gf;
		return bad;
	}
};
int main(int argc, char **argv)
{
	init(argc, argv);
	RNG r = rng(8);
	std::string bad[6];
	typedef std::string (*Run)(uint64_t, int);
	Run all[] = { Own<4, 0x13, uint8_t>::run, Own<5, 0x25, uint8_t>::run, Own<6, 0x43, uint8_t>::run, Own<7, 0x89, uint8_t>::run,
		Own<8, 0x11d, uint8_t>::run, Own<8, 0x12b, uint8_t>::run };
	int rounds = reps(40, 1000);
	for (int again = 0; again < reps(20, 400); ++again) {
		crumb("round %d: six fields constructed at once", again);
		gate = 6;
		std::vector<std::thread> th;
		for (int i = 0; i < 6; ++i) {
			uint64_t seed = r();
			th.emplace_back([&, i, seed] { bad[i] = all[i](seed, rounds); });
		}
		for (auto &t : th) t.join();
		for (int i = 0; i < 6; ++i) check(bad[i].empty(), "concurrent-fields", "field number %d: wrong %s while other fields are constructed", i, bad[i].c_str());
		eval(uint64_t(6) * rounds);
		distinct(r());
		count("calls", uint64_t(6) * rounds * 2);
		count("fields_constructed_concurrently", 6);
	}
	return finish();
}
#else
static const int T = 6;
struct Done { int cls, in; cat::Bytes out; uint32_t t0, t1; };
struct Thread {
	std::vector<std::pair<int, std::vector<int>>> plan;	// class, inputs in order
	std::vector<Done> done;
	uint64_t seed;
};
static std::atomic<int> gate;
static std::atomic<uint32_t> ticket;

static std::vector<std::vector<cat::Bytes>> inputs_from_child(int per_class)
{
	int fd[2];
	if (::pipe(fd)) ::abort();
	pid_t pid = ::fork();
	if (pid == 0) {
		::close(fd[0]);
		auto put = [&](const void *p, size_t n) {
			const char *q = static_cast<const char *>(p);
			while (n) { ssize_t w = ::write(fd[1], q, n); if (w < 0) { if (errno == EINTR) continue; ::_exit(3); } q += w; n -= size_t(w); }
		};
		for (auto &c : cat::all()) {
			RNG r = rng(hash_bytes(c.name.data(), c.name.size()));
			for (int k = 0; k < per_class; ++k) {
				cat::Bytes b = c.gen(r);
				uint32_t n = uint32_t(b.size());
				put(&n, 4);
				put(b.data(), n);
			}
		}
		::_exit(0);
	}
	::close(fd[1]);
	auto get = [&](void *p, size_t n) {
		char *q = static_cast<char *>(p);
		while (n) { ssize_t w = ::read(fd[0], q, n); if (w == 0) { std::fprintf(stderr, "generator died\n"); ::_exit(5); } if (w < 0) { if (errno == EINTR) continue; ::_exit(4); } q += w; n -= size_t(w); }
	};
	std::vector<std::vector<cat::Bytes>> in(cat::all().size());
	for (auto &v : in)
		for (int k = 0; k < per_class; ++k) {
			uint32_t n;
			get(&n, 4);
			cat::Bytes b(n);
			get(b.data(), n);
			v.push_back(b);
			st().tick = st().tick + 1;
		}
	::close(fd[0]);
	int status;
	::waitpid(pid, &status, 0);
	return in;
}


static std::vector<std::vector<cat::Bytes>> in;

static void work(Thread *me)
{
	RNG r(me->seed);
	gate.fetch_sub(1, std::memory_order_relaxed);
	while (gate.load(std::memory_order_relaxed) > 0)
		;
	for (auto &p : me->plan) {
		auto &c = cat::all()[p.first];
		auto obj = c.make(int(r.below(256)));
		for (int k : p.second) {
			me->done.emplace_back();
			Done &d = me->done.back();
			d.cls = p.first;
			d.in = k;
			if (r.coin(6))
				std::this_thread::yield();
			for (uint64_t w = r.below(r.coin(3) ? 3000 : 30); w; --w)
				asm volatile("");
			int dirt = int(r.below(256));
			d.t0 = ticket.fetch_add(1, std::memory_order_relaxed);
			d.out = c.call(obj.get(), in[p.first][k], dirt);
			d.t1 = ticket.fetch_add(1, std::memory_order_relaxed);
		}
	}
}

int main(int argc, char **argv)
{
	init(argc, argv);
	cat::fill_catalog();
	RNG r = rng(99);
	const int per_class = 24;
	in = inputs_from_child(per_class);
	int classes = int(cat::all().size());
	std::vector<std::vector<std::pair<cat::Bytes, bool>>> want(classes, std::vector<std::pair<cat::Bytes, bool>>(per_class));
	auto expect = [&](int c, int k) -> const cat::Bytes & {
		auto &w = want[c][k];
		if (!w.second) {
			auto obj = cat::all()[c].make(0);
			w.first = cat::all()[c].call(obj.get(), in[c][k], 0);
			w.second = true;
		}
		return w.first;
	};
	int mixed = reps(80, 4000);
	std::vector<int> order(classes);
	for (int i = 0; i < classes; ++i) order[i] = i;
	for (int i = classes - 1; i > 0; --i) std::swap(order[i], order[r.below(i + 1)]);
	for (int round = 0; round < classes + mixed; ++round) {
		bool same = round < classes;	// first every class on its own, then mixtures of one to three
		int some = same ? 1 : r.range(1, 3), pick[3];
		for (int i = 0; i < some; ++i) pick[i] = same ? order[round] : int(r.below(classes));
		crumb("round %d: %s%s", round, cat::all()[pick[0]].name.c_str(), some > 1 ? (" and " + cat::all()[pick[1]].name).c_str() : "");
		std::vector<Thread> th(T);
		for (auto &t : th) {
			t.seed = r();
			int objects = same ? 2 : r.range(1, 3);
			for (int o = 0; o < objects; ++o) {
				int c = pick[r.below(some)];
				int calls = std::max(1, std::min(per_class, 6000 / (10 + cat::all()[c].cost)));
				calls = r.range((calls + 1) / 2, calls);
				std::vector<int> ks;
				for (int k = 0; k < calls; ++k) ks.push_back(int(r.below(per_class)));
				t.plan.push_back({c, ks});
			}
			t.done.reserve(128);
		}
		gate = T;
		ticket = 0;
		{
			std::vector<std::thread> run;
			for (auto &t : th) run.emplace_back(work, &t);
			for (auto &t : run) t.join();
		}
		// judged when all is over: alone, each input has one output
		std::vector<std::pair<uint32_t, int>> order_seen;
		int calls = 0, overlapped = 0;
		for (int a = 0; a < T; ++a)
			for (auto &d : th[a].done) {
				order_seen.push_back({d.t0, a});
				++calls;
				if (d.t1 != d.t0 + 1) ++overlapped;
				const cat::Bytes &w = expect(d.cls, d.in);
				eval();
				size_t i = 0;
				while (i < w.size() && i < d.out.size() && w[i] == d.out[i]) ++i;
				check(d.out == w, ("concurrent:" + cat::all()[d.cls].name).c_str(), "%s: input %d used by thread %d of %d gives another output than alone (byte %d)",
					cat::all()[d.cls].name.c_str(), d.in, a, T, int(i));
			}
		std::sort(order_seen.begin(), order_seen.end());
		uint64_t h = uint64_t(round);
		for (auto &o : order_seen) h = mix(h, uint64_t(o.second));
		distinct(h);
		count("calls", uint64_t(calls));
		count("calls_overlapped_by_other_threads", uint64_t(overlapped));
		count(same ? "rounds_of_one_class" : "mixed_rounds");
	}
	count("classes", uint64_t(classes));
	return finish();
}
#endif
