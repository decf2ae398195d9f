// the other unit: headers in the reverse order, own catalogue
#include "vh.hh"
#ifdef VERIF_NEON
#include "neon_shim.hh"
#endif
#define REVERSED
#include "every_header.hh"
#define cat other_cat
#include "catalog.hh"

other_cat::Bytes run_in_other_unit(int cls, const other_cat::Bytes &in, int fill, int dirt)
{
	auto &c = other_cat::all()[cls];
	auto obj = c.make(fill);
	return c.call(obj.get(), in, dirt);
}
std::vector<std::string> names_in_other_unit()
{
	other_cat::fill_catalog();
	std::vector<std::string> n;
	for (auto &c : other_cat::all()) n.push_back(c.name);
	return n;
}
