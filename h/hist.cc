// C33: a call depends on its inputs only. For every class of the catalogue: an object reused through a random
// history against a fresh object per call, both in memory of random previous content, with output buffers of
// random previous content; copies and assigned copies join the history.
#include "catalog.hh"
using namespace vh;

int main(int argc, char **argv)
{
	init(argc, argv);
	cat::fill_catalog();
	for (auto &c : cat::all()) {
		RNG r = rng(hash_bytes(c.name.data(), c.name.size()));
		int histories = std::max(2, reps(4000.0 / (20 + c.cost), 300000.0 / (20 + c.cost)));
		for (int h = 0; h < histories; ++h) {
			auto veteran = c.make(r.range(0, 255));
			auto twin = c.make(r.range(0, 255));
			int len = r.range(3, 14);
			std::string past;
			cat::Bytes prev;
			for (int k = 0; k < len; ++k) {
				cat::Bytes in = k && r.coin(6) ? prev : c.gen(r);
				prev = in;
				uint64_t ih = hash_bytes(in.data(), in.size());
				crumb("%s call %d of a history", c.name.c_str(), k);
				int kind = r.range(0, 5);
				if (kind == 0) { twin = c.clone(veteran.get(), r.range(0, 255)); count("copies"); }
				else if (kind == 1 && c.assign) { c.assign(twin.get(), veteran.get()); count("assignments"); }
				auto fresh = c.make(r.range(0, 255));
				cat::Bytes want = c.call(fresh.get(), in, r.range(0, 255));
				fresh.reset();
				cat::Bytes a = c.call(veteran.get(), in, r.range(0, 255)), b = c.call(twin.get(), in, r.range(0, 255));
				// and the original is none the wiser
				eval(2);
				distinct(mix(ih, mix(hash_bytes(c.name.data(), c.name.size()), hash_bytes(past.data(), past.size()))));
				auto where = [&](const cat::Bytes &x) { size_t i = 0; while (i < x.size() && i < want.size() && x[i] == want[i]) ++i; return int(i); };
				check(a == want, ("reused:" + c.name).c_str(), "%s: call %d on a reused object differs from a fresh one at output byte %d (input hash %016llx)", c.name.c_str(), k + 1, where(a), (unsigned long long)ih);
				check(b == want, ("copy:" + c.name).c_str(), "%s: call %d on a copied object differs from a fresh one at output byte %d (input hash %016llx)", c.name.c_str(), k + 1, where(b), (unsigned long long)ih);
				cat::Bytes again = c.call(veteran.get(), in, r.range(0, 255));
				check(again == want, ("repeat:" + c.name).c_str(), "%s: repeating call %d differs at output byte %d", c.name.c_str(), k + 1, where(again));
				past += char(ih);
				if (r.coin(5)) veteran.swap(twin);
				count("calls", 4);
			}
			count("histories");
		}
		count("classes");
	}
	return finish();
}
