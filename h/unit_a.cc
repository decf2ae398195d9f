// C38: a program of two translation units that both include every header and use every class of the catalogue.
#include "vh.hh"
#ifdef VERIF_NEON
#include "neon_shim.hh"
#endif
#include "every_header.hh"
#include "catalog.hh"
using namespace vh;
cat::Bytes run_in_other_unit(int cls, const cat::Bytes &in, int fill, int dirt);
std::vector<std::string> names_in_other_unit();

int main(int argc, char **argv)
{
	init(argc, argv);
	cat::fill_catalog();
	auto names = names_in_other_unit();
	count("headers_in_each_unit", 37);
	for (size_t i = 0; i < cat::all().size(); ++i) {
		auto &c = cat::all()[i];
		RNG r = rng(hash_bytes(c.name.data(), c.name.size()));
		check(names[i] == c.name, "units-catalogue", "class %d is %s", int(i), c.name.c_str());
		for (int k = 0; k < std::max(3, reps(3000.0 / (10 + c.cost), 30000.0 / (10 + c.cost))); ++k) {
			crumb("%s input %d", c.name.c_str(), k);
			cat::Bytes in = c.gen(r);
			auto obj = c.make(r.range(0, 255));
			cat::Bytes a = c.call(obj.get(), in, r.range(0, 255)), b = run_in_other_unit(int(i), in, r.range(0, 255), r.range(0, 255));
			eval();
			distinct(mix(hash_bytes(in.data(), in.size()), i));
			check(a == b, ("units:" + c.name).c_str(), "%s: the two units of the program get different outputs", c.name.c_str());
		}
		count("classes_used_in_two_units");
	}
	return finish();
}
