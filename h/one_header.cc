#include "vh.hh"
#ifdef VERIF_NEON
#include "neon_shim.hh"
#endif
#include HEADER
#include HEADER
int main() {}
