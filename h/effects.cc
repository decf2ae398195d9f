// C43: besides its results a call leaves no trace in the process. Every class of the catalogue is made, copied,
// assigned, used on inputs of all kinds and destroyed while monitors watch the heap (live bytes and blocks, counted
// in the allocator itself), the standard streams (redirected to a file in memory), the floating-point control words,
// the C library's pseudo-random stream, the open files, signal dispositions, the locale and the stream formats.
#include "catalog.hh"
#include <clocale>
#include <csignal>
#include <fcntl.h>
#include <cfenv>
#include <iostream>
#include <sys/stat.h>
#include <unistd.h>
#include <cerrno>
#include <malloc.h>
#include <sys/mman.h>
#if defined(__x86_64__)
#include <xmmintrin.h>
#endif

static long live_blocks, live_bytes;
static uint64_t obtained;
static void *plus(void *p) { if (p) { ++live_blocks; live_bytes += long(malloc_usable_size(p)); ++obtained; } return p; }
static void minus(void *p) { if (p) { --live_blocks; live_bytes -= long(malloc_usable_size(p)); } }
extern "C" {
void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
void __libc_free(void *);
void *malloc(size_t n) { return plus(__libc_malloc(n)); }
void *calloc(size_t a, size_t b) { return plus(__libc_calloc(a, b)); }
void *realloc(void *p, size_t n) { minus(p); return plus(__libc_realloc(p, n)); }
void *memalign(size_t a, size_t n) { return plus(__libc_memalign(a, n)); }
void *aligned_alloc(size_t a, size_t n) { return plus(__libc_memalign(a, n)); }
int posix_memalign(void **q, size_t a, size_t n) { *q = plus(__libc_memalign(a, n)); return *q ? 0 : ENOMEM; }
void free(void *p) { minus(p); __libc_free(p); }
}

using namespace vh;

struct World { // what a call has to leave alone
	off_t written;
	unsigned csr;
	uint16_t x87;
	int round, files;
	uint64_t handlers;
	long flags[3];
	int prec[3];
	mode_t mask;
	char dir[256];
};
static int capture = -1;
static int open_files()
{
	int n = 0;
	for (int i = 0; i < 64; ++i) n += ::fcntl(i, F_GETFD) >= 0;
	return n;
}
static void look(World &w)
{
	std::fflush(nullptr);
	std::cout.flush(); std::cerr.flush(); std::clog.flush();
	w.written = ::lseek(capture, 0, SEEK_CUR);
#if defined(__x86_64__)
	w.csr = _mm_getcsr() & ~0x3fu; // all but the sticky flags
	uint16_t cw; asm volatile("fnstcw %0" : "=m"(cw)); w.x87 = cw;
#else
	w.csr = w.x87 = 0;
#endif
	w.round = std::fegetround();
	w.files = open_files();
	uint64_t h = 1;
	for (int s = 1; s < 32; ++s) { struct sigaction a; std::memset(&a, 0, sizeof a); if (!::sigaction(s, nullptr, &a)) h = mix(h, uint64_t(uintptr_t(a.sa_handler))); }
	w.handlers = h;
	std::ostream *os[3] = {&std::cout, &std::cerr, &std::clog};
	for (int i = 0; i < 3; ++i) { w.flags[i] = long(os[i]->flags()) * 1024 + long(os[i]->fill()); w.prec[i] = int(os[i]->precision()) * 100 + int(os[i]->width()); }
	w.mask = ::umask(0); ::umask(w.mask);
	if (!::getcwd(w.dir, sizeof w.dir)) w.dir[0] = 0;
}

#if PART <= 2
template <typename GF> static void life_of_a_field(int n)
{
	for (int i = 0; i < n; ++i) {
		long bl = live_blocks, by = live_bytes;
		off_t w = ::lseek(capture, 0, SEEK_CUR);
		unsigned v = 0;
		{
			GF *g = new GF;
			for (int x = 1; x < 4; ++x) v += unsigned(int(rcp(typename GF::ValueType(typename GF::value_type(x))) * typename GF::ValueType(typename GF::value_type(x))));
			delete g;
		}
		std::fflush(nullptr); std::cerr.flush(); std::cout.flush();
		eval();
		check(v == 3, "field", "reciprocals in a field made again");
		check(live_blocks == bl && live_bytes == by, "leak:field", "a field keeps %ld blocks", live_blocks - bl);
		check(::lseek(capture, 0, SEEK_CUR) == w, "output:field", "a field writes to the standard streams");
		count("fields_made_and_destroyed");
	}
}
static void fields()
{
	int n = reps(50, 1000);
	life_of_a_field<CODE::GaloisField<5, 0b100101, uint8_t>>(n);
	life_of_a_field<CODE::GaloisField<7, 0b10001001, uint8_t>>(n);
	life_of_a_field<CODE::GaloisField<9, 0b1000010001, uint16_t>>(n);
	life_of_a_field<CODE::GaloisField<12, 0b1000001010011, uint16_t>>(n);
}
#endif

int main(int argc, char **argv)
{
	init(argc, argv);
	cat::fill_catalog();
	std::fflush(stdout);
	int out = ::dup(1), err = ::dup(2);
	capture = ::memfd_create("captured", 0);
	if (capture < 0) { std::perror("memfd_create"); return 3; }
	::dup2(capture, 1);
	::dup2(capture, 2);
	auto text = [&](off_t from) { char b[200]; ssize_t n = ::pread(capture, b, sizeof b - 1, from); if (n < 0) n = 0; b[n] = 0; for (ssize_t i = 0; i < n; ++i) if (b[i] == '\n') b[i] = ' '; return std::string(b); };
	for (auto &c : cat::all()) {
		RNG r = rng(hash_bytes(c.name.data(), c.name.size()));
		int lives = std::max(3, reps(20000.0 / (20 + c.cost), 400000.0 / (20 + c.cost)));
		auto has = [&](const char *x) { return c.name.find(x) != std::string::npos; };
		bool in_place = (has("rs(") || has("bch(") || has("ldpc(")) && has("decoder") || has("sort");
		std::string loc = std::setlocale(LC_ALL, nullptr);
		for (int h = 0; h < lives; ++h) {
			// everything random is chosen before the watch begins
			int n = r.range(1, 8), fill = r.range(0, 255), dirt = r.range(0, 255), copy_at = r.range(0, 9);
			std::vector<cat::Bytes> in;
			uint64_t ih = hash_bytes(c.name.data(), c.name.size());
			for (int k = 0; k < n; ++k) { in.push_back(c.gen(r)); ih = mix(ih, hash_bytes(in[k].data(), in[k].size())); }
			unsigned seed = unsigned(r());
			int modes[4] = {FE_TONEAREST, FE_TOWARDZERO, FE_UPWARD, FE_DOWNWARD}, mode = modes[r.coin() ? 0 : r.range(1, 3)];
			bool flush = r.coin();
			crumb("%s: life of %d calls (inputs hash %016llx)", c.name.c_str(), n, (unsigned long long)ih);
			if (h % 4 == 0) { // what was given for reading
				cat::watch().on = true;
				auto one = c.make(fill);
				for (int k = 0; k < n; ++k) {
					cat::watch().changed = false;
					cat::watch().given.clear();
					(void)c.call(one.get(), in[k], dirt);
					check(!cat::watch().changed || in_place, ("input:" + c.name).c_str(), "%s changed a buffer it was given for reading (input hash %016llx)", c.name.c_str(), (unsigned long long)hash_bytes(in[k].data(), in[k].size()));
				}
				cat::watch().given.clear();
				cat::watch().on = false;
			}
			World a, b;
			bool grew = false;
			long blocks = 0, bytes = 0;
			// memory is judged on a second, identical life: what grows again was not kept for good reason
			for (int again = 0; again < 2; ++again) {
				std::fesetround(mode); // the caller's choice
#if defined(__x86_64__)
				unsigned csr = _mm_getcsr();
				_mm_setcsr(flush ? csr | 0x8040u : csr & ~0x8040u);
#endif
				look(a);
				std::srand(seed); ::srandom(seed); ::srand48(long(seed));
				blocks = live_blocks; bytes = live_bytes;
				{
					auto one = c.make(fill);
					for (int k = 0; k < n; ++k) {
						if (k == copy_at) { auto two = c.clone(one.get(), dirt); (void)c.call(two.get(), in[k], fill); if (c.assign) c.assign(one.get(), two.get()); }
						(void)c.call(one.get(), in[k], dirt);
					}
				}
				blocks = live_blocks - blocks; bytes = live_bytes - bytes;
				int x = std::rand(); long y = ::random(), z = ::lrand48();
				look(b);
				std::fesetround(FE_TONEAREST);
#if defined(__x86_64__)
				_mm_setcsr(csr);
#endif
				std::srand(seed); ::srandom(seed); ::srand48(long(seed));
				int x0 = std::rand(); long y0 = ::random(), z0 = ::lrand48();
				// rand and random share their state in glibc: replay both draws in the same order
				check(x == x0 && y == y0 && z == z0, ("random-stream:" + c.name).c_str(), "%s: the pseudo-random stream of the C library was used or reseeded (inputs hash %016llx)", c.name.c_str(), (unsigned long long)ih);
				check(a.written == b.written, ("output:" + c.name).c_str(), "%s wrote %ld bytes to the standard streams: %s (inputs hash %016llx)", c.name.c_str(), long(b.written - a.written), text(a.written).c_str(), (unsigned long long)ih);
				check(a.csr == b.csr && a.x87 == b.x87 && a.round == b.round, ("floating-point:" + c.name).c_str(), "%s: floating-point control changed: mxcsr %x to %x, x87 %x to %x", c.name.c_str(), a.csr, b.csr, a.x87, b.x87);
				check(a.files == b.files, ("files:" + c.name).c_str(), "%s: %d open files, then %d", c.name.c_str(), a.files, b.files);
				check(a.handlers == b.handlers, ("signals:" + c.name).c_str(), "%s changed a signal disposition", c.name.c_str());
				check(loc == std::setlocale(LC_ALL, nullptr), ("locale:" + c.name).c_str(), "%s changed the locale", c.name.c_str());
				check(a.mask == b.mask && !std::strcmp(a.dir, b.dir), ("process:" + c.name).c_str(), "%s changed the file mode mask or the directory", c.name.c_str());
				bool same = true;
				for (int i = 0; i < 3; ++i) same = same && a.flags[i] == b.flags[i] && a.prec[i] == b.prec[i];
				check(same, ("stream-format:" + c.name).c_str(), "%s changed the format of a standard stream", c.name.c_str());
				if (!again) { grew = blocks > 0 || bytes > 0; continue; }
				check(blocks <= 0 && bytes <= 0, ("leak:" + c.name).c_str(), "%s keeps %ld blocks (%ld bytes) after its objects are gone, each time (inputs hash %016llx)", c.name.c_str(), blocks, bytes, (unsigned long long)ih);
			}
			if (grew) count("first_use_allocations");
			eval(uint64_t(n) * 2);
			distinct(ih);
			count("calls", uint64_t(n) * 2);
			count("lives", 2);
		}
		count("classes");
	}
#if PART <= 2
	fields();
#endif
	count("allocations_watched", obtained);
	count("input_buffers_compared", cat::watch().compared);
	std::fflush(nullptr);
	std::cout.flush();
	check(::lseek(capture, 0, SEEK_CUR) == 0 || st().viols.size(), "output", "the standard streams were written to");
	::dup2(out, 1);
	::dup2(err, 2);
	return finish();
}
