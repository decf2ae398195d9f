// C39: the outputs of every class of the catalogue for a fixed list of inputs, to be compared across builds.
#include "catalog.hh"
using namespace vh;

int main(int argc, char **argv)
{
	init(argc, argv);
	cat::fill_catalog();
	for (auto &c : cat::all()) {
		if (!c.portable)
			continue;
		RNG r = rng(hash_bytes(c.name.data(), c.name.size()));
		int n = std::max(5, std::min(400, reps(60000.0 / (20 + c.cost), 60000.0 / (20 + c.cost))));
		if (st().thorough) n = std::max(20, reps(600000.0 / (20 + c.cost), 600000.0 / (20 + c.cost)));
		auto obj = c.make(0);
		std::string in_name = "input of " + c.name;
		for (int k = 0; k < n; ++k) {
			cat::Bytes in = c.gen(r);
			crumb("%s case %d", c.name.c_str(), k);
			cat::Bytes out = c.call(obj.get(), in, 0);
			digest(in_name.c_str(), hash_bytes(in.data(), in.size()));
			digest(c.name.c_str(), hash_bytes(out.data(), out.size()));
			eval();
			distinct(mix(hash_bytes(in.data(), in.size()), hash_bytes(c.name.data(), c.name.size())));
		}
		count("classes");
	}
	return finish();
}
