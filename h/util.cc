// Building blocks: CRC (0), bit containers (1), generators (2), permutations (3), sorting (4), exclusive reduction (5).
#include "vh.hh"
#ifndef PART
#define PART 0
#endif
using vh::RNG;

#if PART == 0
#include "crc.hh"
// CRC as remainder of polynomial division: the register holds the coefficients of descending powers from its lowest bit on
template <typename T>
struct Model {
	static const int W = int(sizeof(T) * 8);
	std::vector<bool> r, g; // index 0 = highest power
	Model(T poly, T init) : r(W), g(W) { for (int i = 0; i < W; ++i) { g[i] = (poly >> i) & 1; r[i] = (init >> i) & 1; } }
	void bit(bool b) {
		bool fb = r[0] != b;
		for (int i = 0; i + 1 < W; ++i) r[i] = r[i + 1];
		r[W - 1] = false;
		if (fb) for (int i = 0; i < W; ++i) r[i] = r[i] != g[i];
	}
	T val() const { T v = 0; for (int i = 0; i < W; ++i) if (r[i]) v = T(v | (T(1) << i)); return v; }
	void set(T v) { for (int i = 0; i < W; ++i) r[i] = (v >> i) & 1; }
};
template <typename T>
void crc_all(int n) {
	RNG rng = vh::rng(sizeof(T));
	const int W = int(sizeof(T) * 8);
	static const uint64_t polys[] = {0x8C, 0xE0, 0xAB, 0xB8, 0x12, 0x14, 0xA8F4, 0xA001, 0x8408, 0xC86C, 0xDF3261, 0xD3B6BA, 0xEDB88320, 0x82F63B78, 0xEB31D82E, 0xC8DF352F, 0xD419CC15, 0xC96C5795D7870F42ull, 0xD800000000000000ull};
	for (int it = 0; it < n; ++it) {
		uint64_t p = rng.coin(3) ? rng() : polys[rng.below(sizeof polys / sizeof *polys)];
		T poly = T(p);
		if (rng.coin(10)) poly = T(T(1) << (W - 1));
		if (rng.coin(16)) poly = T(~T(0));
		T init = rng.coin() ? 0 : rng.coin() ? T(~T(0)) : T(rng());
		CODE::CRC<T> crc(poly, init);
		if (init == 0 && rng.coin()) { CODE::CRC<T> d(poly); crc = d; }
		Model<T> m(poly, init);
		std::string trace;
		int ops = 1 + int(rng.below(rng.coin(8) ? 200 : 24));
		// single feeds all of one kind, or chosen by the state of the register: always or never time for the
		// polynomial, always the same entry of a table
		int mood = rng.coin(8) ? 1 + int(rng.below(5)) : 0, kind = int(rng.below(14)), entry = rng.coin() ? 0 : rng.coin() ? 255 : int(rng.below(256));
		if (mood) { ops = 40 + int(rng.below(260)); vh::count("driven_feeds", uint64_t(ops)); }
		uint64_t h = vh::mix(vh::mix(poly, init), W);
		for (int o = 0; o < ops; ++o) {
			uint64_t v = rng.coin(6) ? (rng.coin() ? 0 : ~0ull) : rng();
			int what = int(rng.below(16)), bits;
			T got;
			if (mood == 1) what = kind;
			else if (mood) {
				T now = m.val();
				if (mood == 2) { what = 0; v = !(now & 1); }
				else if (mood == 3) { what = 0; v = now & 1; }
				else if (mood == 4) { what = 4; v = (uint64_t(now) ^ uint64_t(entry)) & 255; }
				else { what = 0; v = o % (2 + kind) == 0 ? now & 1 : !(now & 1); }
			}
			if (what == 15) { // restart
				T s = rng.coin() ? 0 : T(v);
				if (s == 0 && rng.coin()) crc.reset(); else crc.reset(s);
				m.set(s);
				got = crc(); bits = 0;
				vh::count("resets");
			} else if (what == 14) { // a copy goes on by itself
				CODE::CRC<T> copy(crc);
				copy(uint8_t(v)); copy(true);
				got = crc(); bits = 0;
			} else if (what < 4) { got = crc(bool(v & 1)); bits = 1; }
			else if (what < 8) { got = crc(uint8_t(v)); bits = 8; }
			else if (what < 10) { got = crc(uint16_t(v)); bits = 16; }
			else if (what < 12) { got = crc(uint32_t(v)); bits = 32; }
			else { got = crc(uint64_t(v)); bits = 64; }
			for (int i = 0; i < bits; ++i) m.bit((v >> i) & 1);
			h = vh::mix(vh::mix(h, bits), v);
			T want = m.val();
			if (trace.size() < 500) { char b[40]; std::snprintf(b, sizeof b, " %d:%llx", bits, (unsigned long long)v); trace += b; }
			vh::crumb("CRC<u%d> poly=%llx init=%llx feeds%s", W, (unsigned long long)poly, (unsigned long long)init, trace.c_str());
			vh::check(got == want && crc() == want, bits == 1 ? "crc-bit" : bits == 8 ? "crc-byte" : bits ? "crc-word" : "crc-state", "CRC<u%d> poly=%llx after %d feeds got=%llx want=%llx", W, (unsigned long long)poly, o + 1, (unsigned long long)got, (unsigned long long)want);
			vh::check(crc() == crc(), "crc-read-changes-state", "CRC<u%d>", W);
			vh::eval();
		}
		// appending the register itself leaves zero
		T tail = crc(), zero;
		if (W == 8) zero = T(crc(uint8_t(tail))); else if (W == 16) zero = T(crc(uint16_t(tail))); else if (W == 32) zero = T(crc(uint32_t(tail))); else zero = T(crc(uint64_t(tail)));
		vh::check(zero == 0, "crc-residue", "CRC<u%d> poly=%llx residue=%llx", W, (unsigned long long)poly, (unsigned long long)zero);
		vh::distinct(h);
	}
	// every register/byte combination of one step, for a few polynomials
	for (int it = 0; it < 6; ++it) {
		T poly = it ? T(rng()) : T(polys[it]);
		CODE::CRC<T> crc(poly);
		vh::crumb("CRC<u%d> poly=%llx all bytes", W, (unsigned long long)poly);
		for (int hi = 0; hi < 3; ++hi) for (int reg = 0; reg < 256; ++reg) for (int b = 0; b < 256; ++b) {
			T s = T((hi ? T(rng()) << (W > 8 ? 8 : 0) : T(0)));
			s = T((s & T(~T(255))) | T(reg));
			crc.reset(s);
			T got = crc(uint8_t(b)), x = s;
			for (int i = 0; i < 8; ++i) { bool f = (x ^ (b >> i)) & 1; x = T(x >> 1); if (f) x = T(x ^ poly); }
			vh::check(got == x, "crc-byte", "CRC<u%d> poly=%llx reg=%llx byte=%d got=%llx want=%llx", W, (unsigned long long)poly, (unsigned long long)s, b, (unsigned long long)got, (unsigned long long)x);
		}
		vh::eval(3 * 65536);
		vh::count("tables_with_all_bytes");
	}
}
// several registers with different polynomials, fed in turns
template <typename T>
static void crc_pool(int n) {
	RNG rng = vh::rng(1000 + sizeof(T));
	for (int it = 0; it < n; ++it) {
		std::vector<CODE::CRC<T>> pool;
		std::vector<Model<T>> model;
		int size = 2 + int(rng.below(4));
		uint64_t h = vh::mix(sizeof(T), size);
		for (int i = 0; i < size; ++i) { T p = T(rng() | 1), s = T(rng()); pool.emplace_back(p, s); model.emplace_back(p, s); h = vh::mix(h, p); }
		for (int o = 0; o < 40; ++o) {
			int k = int(rng.below(size)), what = int(rng.below(8)), bits = 0;
			uint64_t v = rng();
			T got;
			if (what == 0) { T p = T(rng() | 1), s = T(rng()); pool[k] = CODE::CRC<T>(p, s); model[k] = Model<T>(p, s); got = pool[k](); }
			else if (what == 1) { int l = int(rng.below(size)); pool[k] = pool[l]; model[k] = model[l]; got = pool[k](); }
			else if (what == 2) { bits = 1; got = pool[k](bool(v & 1)); }
			else if (what < 6) { bits = 8; got = pool[k](uint8_t(v)); }
			else if (what == 6) { bits = 32; got = pool[k](uint32_t(v)); }
			else { bits = 64; got = pool[k](uint64_t(v)); }
			for (int i = 0; i < bits; ++i) model[k].bit((v >> i) & 1);
			vh::crumb("%d CRC<u%d> in turns", size, Model<T>::W);
			vh::check(got == model[k].val(), "crc-objects-disturb-each-other", "CRC<u%d> %d objects, operation %d", Model<T>::W, size, o);
			vh::eval();
			vh::count("feeds_in_turns");
			h = vh::mix(h, vh::mix(v, what * 8 + k));
		}
		for (int i = 0; i < size; ++i) vh::check(pool[i]() == model[i].val(), "crc-objects-disturb-each-other", "CRC<u%d>", Model<T>::W);
		vh::distinct(h);
	}
}
static void known_answers() {
	const char *s = "123456789";
	auto run = [&](auto crc) { for (const char *p = s; *p; ++p) crc(uint8_t(*p)); return uint64_t(crc()); };
	vh::crumb("published check values");
	vh::check(uint32_t(~run(CODE::CRC<uint32_t>(0xEDB88320, 0xFFFFFFFF))) == 0xCBF43926, "crc-known", "CRC-32");
	vh::check(uint32_t(~run(CODE::CRC<uint32_t>(0x82F63B78, 0xFFFFFFFF))) == 0xE3069283, "crc-known", "CRC-32C");
	vh::check(run(CODE::CRC<uint16_t>(0x8408, 0)) == 0x2189, "crc-known", "CRC-16/KERMIT");
	vh::check(run(CODE::CRC<uint16_t>(0xA001, 0)) == 0xBB3D, "crc-known", "CRC-16/ARC");
	vh::check(run(CODE::CRC<uint8_t>(0x8C, 0)) == 0xA1, "crc-known", "CRC-8/MAXIM");
	vh::check(~run(CODE::CRC<uint64_t>(0xC96C5795D7870F42ull, ~0ull)) == 0x995DC9BBDF1939FAull, "crc-known", "CRC-64/XZ");
	vh::eval(6);
}
static void go() {
	known_answers();
	crc_pool<uint8_t>(vh::reps(1000, 40000));
	crc_pool<uint16_t>(vh::reps(1000, 40000));
	crc_pool<uint32_t>(vh::reps(1000, 40000));
	crc_pool<uint64_t>(vh::reps(1000, 40000));
	crc_all<uint8_t>(vh::reps(12000, 600000));
	crc_all<uint16_t>(vh::reps(12000, 600000));
	crc_all<uint32_t>(vh::reps(12000, 600000));
	crc_all<uint64_t>(vh::reps(12000, 600000));
}
#elif PART == 1
#include "bitman.hh"
#include "bitstream.hh"
static void bitman(int n) {
	RNG rng = vh::rng(11);
	for (int it = 0; it < n; ++it) {
		int len = 1 + int(rng.below(20));
		vh::Guarded<uint8_t> b(len);
		std::vector<bool> be(len * 8), le(len * 8);
		for (int i = 0; i < len; ++i) b[i] = uint8_t(rng.coin(4) ? 255 : rng());
		for (int i = 0; i < len * 8; ++i) { le[i] = (b[i / 8] >> (i % 8)) & 1; be[i] = (b[i / 8] >> (7 - i % 8)) & 1; }
		for (int o = 0; o < 12; ++o) {
			int pos = int(rng.below(len * 8)), op = int(rng.below(6));
			bool v = rng() & 1;
			int mirrored = pos / 8 * 8 + 7 - pos % 8;
			vh::crumb("bit op %d pos=%d val=%d buf=%s", op, pos, v, vh::show(b.p, len).c_str());
			bool got = false, want = false;
			switch (op) {
			case 0: CODE::xor_be_bit(b.p, pos, v); be[pos] = be[pos] != v; le[mirrored] = be[pos]; break;
			case 1: CODE::xor_le_bit(b.p, pos, v); le[pos] = le[pos] != v; be[mirrored] = le[pos]; break;
			case 2: CODE::set_be_bit(b.p, pos, v); be[pos] = v; le[mirrored] = v; break;
			case 3: CODE::set_le_bit(b.p, pos, v); le[pos] = v; be[mirrored] = v; break;
			case 4: got = CODE::get_be_bit(b.p, pos); want = be[pos]; break;
			case 5: got = CODE::get_le_bit(b.p, pos); want = le[pos]; break;
			}
			vh::check(got == want, op == 4 ? "get-be-bit" : "get-le-bit", "pos=%d", pos);
			bool same = b.intact();
			for (int i = 0; i < len * 8; ++i) same = same && le[i] == bool((b[i / 8] >> (i % 8)) & 1);
			static const char *keys[] = {"xor-be-bit", "xor-le-bit", "set-be-bit", "set-le-bit", "get-be-bit", "get-le-bit"};
			vh::check(same, keys[op], "op=%d pos=%d val=%d", op, pos, v);
			vh::eval();
			vh::distinct(vh::hash_bytes(b.p, len, vh::mix(op, pos * 2 + v)));
		}
	}
}
static void bitman_long(int n) {
	RNG rng = vh::rng(12);
	const int len = 400000;
	vh::Guarded<uint8_t> b(len);
	std::vector<uint8_t> m(len);
	for (int i = 0; i < len; ++i) m[i] = b[i] = uint8_t(rng());
	static const char *keys[] = {"xor-be-bit", "xor-le-bit", "set-be-bit", "set-le-bit", "get-be-bit", "get-le-bit"};
	for (int it = 0; it < n; ++it) {
		int pos = rng.coin(3) ? int(rng.below(8)) + (1 << rng.range(5, 21)) - 4 : int(rng.below(len * 8)), op = int(rng.below(6));
		bool v = rng() & 1;
		uint8_t mask = uint8_t(op & 1 ? 1 << pos % 8 : 128 >> pos % 8), &w = m[pos / 8];
		vh::crumb("long bit array op %d pos=%d val=%d", op, pos, v);
		bool ok = true;
		switch (op) {
		case 0: CODE::xor_be_bit(b.p, pos, v); if (v) w ^= mask; break;
		case 1: CODE::xor_le_bit(b.p, pos, v); if (v) w ^= mask; break;
		case 2: CODE::set_be_bit(b.p, pos, v); w = uint8_t((w & ~mask) | (v ? mask : 0)); break;
		case 3: CODE::set_le_bit(b.p, pos, v); w = uint8_t((w & ~mask) | (v ? mask : 0)); break;
		case 4: ok = CODE::get_be_bit(b.p, pos) == bool(w & mask); break;
		case 5: ok = CODE::get_le_bit(b.p, pos) == bool(w & mask); break;
		}
		vh::check(ok && b[pos / 8] == w, keys[op], "pos=%d", pos);
		vh::eval();
		if (it % 997 == 0) vh::check(std::equal(m.begin(), m.end(), b.p) && b.intact(), "bit-array-changed-elsewhere", "near operation %d", it);
	}
	vh::check(std::equal(m.begin(), m.end(), b.p) && b.intact(), "bit-array-changed-elsewhere", "at the end");
	vh::count("long_bit_arrays");
}
template <int BITS>
static void stream(int n) {
	RNG rng = vh::rng(1000 + BITS);
	typedef CODE::Bitstream<BITS> BS;
	for (int it = 0; it < n; ++it) {
		vh::Placed<BS> bs(rng.coin() ? 0xA5 : 0xFF);
		std::vector<bool> m(BS::BYTES * 8, false);
		int pos = 0;
		bs->reset();
		uint64_t h = BITS;
		std::string trace;
		if (BS::BYTES != (BITS + 7) / 8 || BS::BITS != BITS) vh::check(false, "bitstream-size", "bits=%d", BITS);
		for (int o = 0; o < 40; ++o) {
			int room = BITS - pos, op = int(rng.below(12));
			uint64_t v = rng.coin(5) ? ~0ull : rng();
			int num = 0;
			const char *key = "bitstream";
			auto put = [&](int i, bool b) { m[pos + i] = b; };
			bool ok = true;
			switch (op) {
			case 0: if (room < 1) break; num = 1; key = "putbit"; bs->putbit(v & 1); put(0, v & 1); break;
			case 1: if (room < 1) break; num = 1; key = "getbit"; ok = bs->getbit() == m[pos]; break;
			case 2: if (room < 8) break; num = 8; key = "putbyte"; bs->putbyte(uint8_t(v)); for (int i = 0; i < 8; ++i) put(i, (v >> i) & 1); break;
			case 3: { if (room < 8) break; num = 8; key = "getbyte"; int w = 0; for (int i = 0; i < 8; ++i) w |= int(m[pos + i]) << i; ok = bs->getbyte() == w; break; }
			case 4: { int len = int(rng.below(room / 8 + 1)); num = 8 * len; key = "writebytes"; vh::Guarded<uint8_t> b(len + 1); for (int i = 0; i < len; ++i) b[i] = uint8_t(rng()); bs->writebytes(b.p, len); for (int i = 0; i < num; ++i) put(i, (b[i / 8] >> (i % 8)) & 1); ok = b.intact(); break; }
			case 5: { int len = int(rng.below(room / 8 + 1)); num = 8 * len; key = "readbytes"; vh::Guarded<uint8_t> b(len); for (int i = 0; i < len; ++i) b[i] = uint8_t(rng()); bs->readbytes(b.p, len); for (int i = 0; i < num; ++i) ok = ok && bool((b[i / 8] >> (i % 8)) & 1) == m[pos + i]; ok = ok && b.intact(); break; }
			case 6: case 7: { // write an integer
				int t = int(rng.below(8)), w = 8 << (t & 3);
				num = std::min(room, int(rng.below(w + 1))); if (rng.coin(4)) num = std::min(room, w);
				key = "writebits";
				switch (t) {
				case 0: bs->writebits(uint8_t(v), num); break;
				case 1: bs->writebits(uint16_t(v), num); break;
				case 2: bs->writebits(uint32_t(v), num); break;
				case 3: bs->writebits(uint64_t(v), num); break;
				case 4: bs->writebits(int8_t(v), num); break;
				case 5: bs->writebits(int16_t(v), num); break;
				case 6: bs->writebits(int32_t(v), num); break;
				case 7: bs->writebits(int64_t(v), num); break;
				}
				for (int i = 0; i < num; ++i) put(i, (v >> i) & 1);
				break; }
			case 8: case 9: {
				int t = int(rng.below(4)), w = 8 << t;
				num = std::min(room, int(rng.below(w + 1))); if (rng.coin(4)) num = std::min(room, w);
				key = "readbits";
				uint64_t want = 0, got = 0;
				for (int i = 0; i < num; ++i) want |= uint64_t(m[pos + i]) << i;
				switch (t) {
				case 0: { uint8_t x = uint8_t(v); bs->readbits(&x, num); got = x; break; }
				case 1: { uint16_t x = uint16_t(v); bs->readbits(&x, num); got = x; break; }
				case 2: { uint32_t x = uint32_t(v); bs->readbits(&x, num); got = x; break; }
				case 3: { uint64_t x = v; bs->readbits(&x, num); got = x; break; }
				}
				ok = got == want;
				break; }
			case 10: { int p = int(rng.below(BITS + 1)); if (BITS > 300 && rng.coin()) p = BITS - int(rng.below(300)); bs->seek(p); pos = p; key = "seek"; break; }
			case 11: if (rng.coin(12)) { bs->reset(); pos = 0; std::fill(m.begin(), m.end(), false); key = "bitstream-reset"; } break;
			}
			h = vh::mix(vh::mix(h, op), vh::mix(v, pos));
			if (trace.size() < 400) { char b[32]; std::snprintf(b, sizeof b, " %s@%d+%d", key, pos, num); trace += b; }
			vh::crumb("Bitstream<%d>%s", BITS, trace.c_str());
			pos += num;
			vh::check(ok, key, "Bitstream<%d> pos=%d num=%d", BITS, pos - num, num);
			vh::check(bs->tell() == pos, "bitstream-tell", "Bitstream<%d> after %s tell=%d want=%d", BITS, key, bs->tell(), pos);
			bool same = true;
			for (int i = 0; i < BS::BYTES * 8; ++i) same = same && m[i] == bool((bs->data()[i / 8] >> (i % 8)) & 1);
			vh::check(same, key, "Bitstream<%d> content wrong after %s pos=%d num=%d", BITS, key, pos - num, num);
			vh::eval();
			vh::distinct(h);
		}
	}
}
static void go() {
	int n = vh::reps(3000, 150000);
	bitman(vh::reps(30000, 1500000));
	bitman_long(vh::reps(30000, 1500000));
	stream<4001>(n / 8 + 1); stream<70000>(n / 150 + 1); stream<600001>(n / 1000 + 1);
	stream<1>(n); stream<7>(n); stream<8>(n); stream<9>(n); stream<16>(n); stream<23>(n); stream<64>(n); stream<65>(n); stream<129>(n); stream<200>(n); stream<1000>(n / 4 + 1);
}
#elif PART == 2
#include "xorshift.hh"
#include "mls.hh"
typedef std::array<uint64_t, 64> Mat; // column images of a GF(2) linear map
static uint64_t mulv(const Mat &A, uint64_t v, int n) { uint64_t r = 0; for (int i = 0; i < n; ++i) if ((v >> i) & 1) r ^= A[i]; return r; }
static Mat mulm(const Mat &A, const Mat &B, int n) { Mat C{}; for (int i = 0; i < n; ++i) C[i] = mulv(A, B[i], n); return C; }
static Mat powm(Mat A, unsigned __int128 e, int n) { Mat R{}; for (int i = 0; i < n; ++i) R[i] = 1ull << i; for (; e; e >>= 1, A = mulm(A, A, n)) if (e & 1) R = mulm(R, A, n); return R; }
static bool is_id(const Mat &A, int n) { for (int i = 0; i < n; ++i) if (A[i] != 1ull << i) return false; return true; }
template <typename PRNG, typename STEP>
static void compare(const char *name, PRNG a, STEP step, int n, uint64_t h) {
	PRNG b(a); // copies go on independently
	for (int i = 0; i < n; ++i) {
		auto got = a();
		uint64_t want = step();
		vh::crumb("%s seed-hash=%llx output %d", name, (unsigned long long)h, i);
		if (!vh::check(got == want, name, "output %d got=%llu want=%llu", i, (unsigned long long)got, (unsigned long long)want)) break;
		vh::check(b() == got, name, "a copy gives another sequence at %d", i);
		vh::eval();
	}
	vh::distinct(vh::mix(h, n));
}
static void xors(int n) {
	RNG rng = vh::rng(5);
	vh::check(CODE::Xorwow::min() == 0 && CODE::Xorshift128::min() == 0 && CODE::Xorshift32::min() == 0 && CODE::Xorshift64::min() == 0, "prng-range", "least value");
	vh::check(std::is_same<CODE::Xorshift32::result_type, uint32_t>::value && std::is_same<CODE::Xorshift64::result_type, uint64_t>::value && std::is_same<CODE::Xorwow::result_type, uint32_t>::value && std::is_same<CODE::Xorshift128::result_type, uint32_t>::value, "prng-range", "result type");
	vh::check(CODE::Xorwow::max() == UINT32_MAX && CODE::Xorshift128::max() == UINT32_MAX && CODE::Xorshift32::max() == UINT32_MAX && CODE::Xorshift64::max() == UINT64_MAX, "prng-range", "largest value");
	for (int it = 0; it < n; ++it) {
		uint32_t d[6];
		for (auto &x : d) x = rng.coin(8) ? uint32_t(1u << rng.below(32)) : uint32_t(rng());
		uint64_t q = rng.coin(8) ? 1ull << rng.below(64) : rng();
		// states in which single words, or all but one, are zero, one or all ones: the recurrence knows no
		// special words, only the state that is zero altogether has no sequence
		if (rng.coin()) {
			static const uint32_t SPECIAL[] = {0, 0, 1, 2, 0x7fffffffu, 0x80000000u, 0xfffffffeu, 0xffffffffu, 123456789, 362436069, 521288629, 88675123, 5783321, 6615241};
			int much = int(rng.below(3));
			for (auto &x : d) if (much == 2 || rng.coin(much ? 2 : 4)) x = SPECIAL[rng.below(14)];
			if (rng.coin(4)) { uint32_t keep = uint32_t(rng()) | 1; int at = int(rng.below(4)); for (int i = 0; i < 5; ++i) d[i] = i == at ? keep : rng.coin(8) ? 1 : 0; }
			if (!(d[0] | d[1] | d[2] | d[3])) d[3] = 1;
			if (rng.coin()) q = rng.coin() ? uint64_t(d[0] ? d[0] : 1) << 32 : (uint64_t(d[1]) << 32 | (d[1] ? d[2] : d[2] | 1));
			vh::count("special_states");
		}
		bool def = it == 0, via_reset = rng.coin();
		int len = def ? 2000 : 1 + int(rng.below(200));
		{
			uint32_t y = def ? 2463534242u : d[0] ? d[0] : 0xffffffffu;
			CODE::Xorshift32 a = def ? CODE::Xorshift32() : CODE::Xorshift32(y);
			if (via_reset) { a(); a(); if (def) a.reset(); else a.reset(y); }
			compare("xorshift32", a, [y]() mutable { y ^= y << 13; y ^= y >> 17; return y ^= y << 5; }, len, y);
		}
		{
			uint64_t x = def ? 88172645463325252ull : q;
			CODE::Xorshift64 a = def ? CODE::Xorshift64() : CODE::Xorshift64(x);
			if (via_reset) { a(); a(); if (def) a.reset(); else a.reset(x); }
			compare("xorshift64", a, [x]() mutable { x ^= x << 13; x ^= x >> 7; return x ^= x << 17; }, len, x);
		}
		{
			uint32_t s[6] = {123456789, 362436069, 521288629, 88675123, 5783321, 6615241};
			if (!def) for (int i = 0; i < 6; ++i) s[i] = d[i];
			CODE::Xorwow a = def ? CODE::Xorwow() : CODE::Xorwow(s[0], s[1], s[2], s[3], s[4], s[5]);
			if (via_reset) { a(); a(); if (def) a.reset(); else a.reset(s[0], s[1], s[2], s[3], s[4], s[5]); }
			std::array<uint32_t, 6> t; for (int i = 0; i < 6; ++i) t[i] = s[i];
			compare("xorwow", a, [t]() mutable -> uint64_t { uint32_t x = t[0] ^ (t[0] >> 2); x ^= x << 1; uint32_t v = t[4] ^ (t[4] << 4) ^ x; for (int i = 0; i < 4; ++i) t[i] = t[i + 1]; t[4] = v; t[5] += 362437; return uint32_t(t[5] + v); }, len, vh::hash_bytes(s, sizeof s));
		}
		{
			uint32_t s[4] = {123456789, 362436069, 521288629, 88675123};
			if (!def) for (int i = 0; i < 4; ++i) s[i] = d[i];
			CODE::Xorshift128 a = def ? CODE::Xorshift128() : CODE::Xorshift128(s[0], s[1], s[2], s[3]);
			if (via_reset) { a(); a(); if (def) a.reset(); else a.reset(s[0], s[1], s[2], s[3]); }
			std::array<uint32_t, 4> t; for (int i = 0; i < 4; ++i) t[i] = s[i];
			compare("xorshift128", a, [t]() mutable -> uint64_t { uint32_t x = t[0] ^ (t[0] << 11); x ^= x >> 8; uint32_t w = t[3] ^ (t[3] >> 19) ^ x; t[0] = t[1]; t[1] = t[2]; t[2] = t[3]; t[3] = w; return w; }, len, vh::hash_bytes(s, sizeof s));
		}
	}
	// long runs, and a start over after them
	{
		const int LONG = vh::reps(3000000, 100000000);
		uint32_t sy = uint32_t(rng()) | 1, y = sy; uint64_t sx = rng() | 1, x = sx;
		uint32_t s[6], t[6], u[4]; for (auto &e : s) e = uint32_t(rng()) | 1;
		std::memcpy(t, s, sizeof t); std::memcpy(u, s, sizeof u);
		CODE::Xorshift32 a(sy); CODE::Xorshift64 b(sx); CODE::Xorwow c(s[0], s[1], s[2], s[3], s[4], s[5]); CODE::Xorshift128 e(s[0], s[1], s[2], s[3]);
		int bad[4] = {-1, -1, -1, -1};
		vh::crumb("xorshift long run from %x %llx", sy, (unsigned long long)sx);
		for (int i = 0; i < LONG; ++i) {
			y ^= y << 13; y ^= y >> 17; y ^= y << 5;
			x ^= x << 13; x ^= x >> 7; x ^= x << 17;
			uint32_t f = t[0] ^ (t[0] >> 2); f ^= f << 1; f ^= t[4] ^ (t[4] << 4); t[0] = t[1]; t[1] = t[2]; t[2] = t[3]; t[3] = t[4]; t[4] = f; t[5] += 362437;
			uint32_t g = u[0] ^ (u[0] << 11); g ^= g >> 8; g ^= u[3] ^ (u[3] >> 19); u[0] = u[1]; u[1] = u[2]; u[2] = u[3]; u[3] = g;
			if (a() != y && bad[0] < 0) bad[0] = i;
			if (b() != x && bad[1] < 0) bad[1] = i;
			if (c() != uint32_t(t[4] + t[5]) && bad[2] < 0) bad[2] = i;
			if (e() != g && bad[3] < 0) bad[3] = i;
		}
		vh::check(bad[0] < 0, "xorshift32", "long run leaves the recurrence at %d", bad[0]);
		vh::check(bad[1] < 0, "xorshift64", "long run leaves the recurrence at %d", bad[1]);
		vh::check(bad[2] < 0, "xorwow", "long run leaves the recurrence at %d", bad[2]);
		vh::check(bad[3] < 0, "xorshift128", "long run leaves the recurrence at %d", bad[3]);
		a.reset(); b.reset(); c.reset(); e.reset();
		CODE::Xorshift32 a2; CODE::Xorshift64 b2; CODE::Xorwow c2; CODE::Xorshift128 e2;
		bool same = true;
		for (int i = 0; i < 1000; ++i) { same = a() == a2() && same; same = b() == b2() && same; same = c() == c2() && same; same = e() == e2() && same; }
		vh::check(same, "prng-reset", "reset after a long run does not start over");
		c.reset(s[0]); e.reset(s[0]); c2 = CODE::Xorwow(s[0]); e2 = CODE::Xorshift128(s[0]); same = true;
		for (int i = 0; i < 100; ++i) { same = c() == c2() && same; same = e() == e2() && same; }
		c.reset(s[0], s[1], s[2]); e.reset(s[0], s[1]); c2 = CODE::Xorwow(s[0], s[1], s[2]); e2 = CODE::Xorshift128(s[0], s[1]);
		for (int i = 0; i < 100; ++i) { same = c() == c2() && same; same = e() == e2() && same; }
		vh::check(same, "prng-reset", "reset with some of the words differs from construction with them");
		vh::eval(LONG * 4.0);
		vh::count("long_run_outputs", uint64_t(LONG) * 4);
	}
	// first outputs published by Marsaglia's default seeds
	vh::check(CODE::Xorshift32()() == 723471715u, "xorshift32", "first default output");
	vh::check(CODE::Xorshift64()() == 8748534153485358512ull, "xorshift64", "first default output");
	vh::check(CODE::Xorshift128()() == 3701687786u, "xorshift128", "first default output");
	vh::check(CODE::Xorwow()() == 246875399u, "xorwow", "first default output");
	// full period of the observed transition map
	{
		Mat A{}; for (int i = 0; i < 32; ++i) A[i] = CODE::Xorshift32(1u << i)();
		unsigned __int128 N = (((unsigned __int128)1) << 32) - 1;
		bool full = is_id(powm(A, N, 32), 32);
		for (uint64_t p : {3ull, 5ull, 17ull, 257ull, 65537ull}) full = full && !is_id(powm(A, N / p, 32), 32);
		for (int i = 0; i < 1000; ++i) { uint32_t v = uint32_t(rng()); full = full && CODE::Xorshift32(v)() == mulv(A, v, 32); }
		vh::check(full, "xorshift32-period", "the transition map is not of order 2^32-1");
	}
	{
		Mat A{}; for (int i = 0; i < 64; ++i) A[i] = CODE::Xorshift64(1ull << i)();
		unsigned __int128 N = (((unsigned __int128)1) << 64) - 1;
		bool full = is_id(powm(A, N, 64), 64);
		for (uint64_t p : {3ull, 5ull, 17ull, 257ull, 641ull, 65537ull, 6700417ull}) full = full && !is_id(powm(A, N / p, 64), 64);
		for (int i = 0; i < 1000; ++i) { uint64_t v = rng(); full = full && CODE::Xorshift64(v)() == mulv(A, v, 64); }
		vh::check(full, "xorshift64-period", "the transition map is not of order 2^64-1");
	}
	vh::eval(6);
	if (vh::st().thorough && vh::st().shard == 0) { // walk the whole cycle
		CODE::Xorshift32 p(1);
		uint64_t k = 0;
		uint32_t v;
		do { v = p(); ++k; if (!(k & 0xffffff)) vh::eval(0); } while (v != 1 && k < (1ull << 33));
		vh::check(k == 4294967295ull, "xorshift32-period", "cycle of length %llu", (unsigned long long)k);
		vh::eval(k);
	}
}
static bool primitive(uint32_t poly) { // independent: order of x modulo poly
	int d = 31 - __builtin_clz(poly);
	if (!(poly & 1)) return false;
	uint64_t N = (1ull << d) - 1;
	auto mul = [&](uint64_t a, uint64_t b) { uint64_t r = 0; for (int i = d - 1; i >= 0; --i) { r <<= 1; if ((r >> d) & 1) r ^= poly; if ((b >> i) & 1) r ^= a; } return r; };
	auto xp = [&](uint64_t e) { uint64_t r = 1, b = 2; if (d == 1) b = 2 ^ poly; for (; e; e >>= 1, b = mul(b, b)) if (e & 1) r = mul(r, b); return r; };
	if (xp(N) != 1) return false;
	uint64_t t = N;
	for (uint64_t p = 2; p * p <= t; ++p) if (t % p == 0) { while (t % p == 0) t /= p; if (xp(N / p) == 1) return false; }
	if (t > 1 && t != N && xp(N / t) == 1) return false;
	if (t == N && N > 1 && xp(1) == 1) return false;
	return true;
}
static void mls(int n) {
	RNG rng = vh::rng(6);
	uint64_t good = 0;
	auto one = [&](int poly, int r, bool verdict) {
		int d = 31 - __builtin_clz(poly);
		vh::crumb("MLS poly=%x reg=%x", poly, r);
		CODE::MLS m(poly, r);
		// the sequence is that of the shift register: compare with an independent register
		uint32_t s = uint32_t(r);
		int steps = int(std::min<int64_t>(3 * ((int64_t(1) << d) - 1) + 5, 300));
		for (int i = 0; i < steps; ++i) {
			bool out = (s >> (d - 1)) & 1;
			s = (s << 1) ^ (out ? uint32_t(poly) : 0);
			vh::check(m() == out, "mls-sequence", "poly=%x reg=%x step=%d", poly, r, i);
		}
		if (rng.coin()) { m.reset(r); CODE::MLS k(poly, r); bool same = true; for (int i = 0; i < 70; ++i) same = same && m() == k(); vh::check(same, "mls-reset", "poly=%x reg=%x", poly, r); }
		if (r == 1) { CODE::MLS k(poly); m.reset(); bool same = true; for (int i = 0; i < 70; ++i) same = same && m() == k(); vh::check(same, "mls-reset", "poly=%x default register", poly); }
		if (verdict) {
			bool prim = primitive(poly), bad = r == 1 && rng.coin() ? CODE::MLS(poly).bad() : m.bad(r);
			good += prim;
			vh::count(prim ? "primitive_polynomials" : "other_polynomials");
			vh::check(bad == !prim, "mls-verdict", "poly=%x reg=%x bad=%d primitive=%d", poly, r, bad, prim);
			if (prim && d <= 14) { // one full period: balance and two-valued autocorrelation at a random shift
				int N = (1 << d) - 1;
				std::vector<int8_t> seq(N);
				m.reset(r);
				int ones = 0;
				for (int i = 0; i < N; ++i) { bool b = m(); ones += b; seq[i] = b ? -1 : 1; }
				vh::check(ones == 1 << (d - 1), "mls-balance", "poly=%x ones=%d", poly, ones);
				if (N > 1) { int sh = 1 + int(rng.below(N - 1)), c = 0; for (int i = 0; i < N; ++i) c += seq[i] * seq[(i + sh) % N]; vh::check(c == -1, "mls-autocorrelation", "poly=%x shift=%d value=%d", poly, sh, c); }
			}
		}
		vh::eval();
		vh::distinct(vh::mix(poly, r));
	};
	for (int poly = 3; poly < (1 << 12); ++poly) if (vh::mine(poly)) { int d = 31 - __builtin_clz(poly); one(poly, 1, true); one(poly, 1 + int(rng.below((1 << d) - 1)), true); }
	for (int i = 0; i < n; ++i) { int d = 12 + int(rng.below(7)); int poly = (1 << d) | 1 | int(rng.below(1 << d)); one(poly, 1 + int(rng.below((1 << d) - 1)), true); }
	for (int i = 0; i < n; ++i) { int d = 19 + int(rng.below(12)); int poly = (1 << d) | int(rng.below(1 << d)); one(poly, 1 + int(rng.below((1 << d) - 1)), false); }
	one(0b100000000000000001001, 1, true);
	// a whole period and more of long registers
	for (int d = 16; d <= (vh::st().thorough ? 30 : 25); ++d) {
		if (!vh::mine(d)) continue;
		int poly;
		do poly = (1 << d) | 1 | int(rng.below(1 << d)); while (!primitive(poly));
		int r = 1 + int(rng.below((1 << d) - 1)), bad = -1;
		vh::crumb("MLS poly=%x reg=%x whole period", poly, r);
		CODE::MLS m(poly, r);
		uint32_t s = uint32_t(r);
		for (uint32_t i = 0; i < (1u << d) + 100; ++i) {
			bool out = (s >> (d - 1)) & 1;
			s = (s << 1) ^ (out ? uint32_t(poly) : 0);
			if (m() != out && bad < 0) bad = int(i);
		}
		vh::check(bad < 0, "mls-sequence", "poly=%x reg=%x step=%d", poly, r, bad);
		vh::check(!m.bad(r), "mls-verdict", "poly=%x reg=%x is primitive", poly, r);
		vh::count("whole_periods");
		vh::count("primitive_polynomials");
		vh::eval(1u << d);
		do poly = (1 << d) | 1 | int(rng.below(1 << d)); while (primitive(poly));
		vh::crumb("MLS poly=%x reg=%x verdict", poly, r);
		vh::check(CODE::MLS(poly).bad(), "mls-verdict", "poly=%x is not primitive", poly);
		vh::count("other_polynomials");
	}
	{ CODE::MLS a, b(0b100000000000000001001, 1); for (int i = 0; i < 500; ++i) vh::check(a() == b(), "mls-default", "step %d", i); }
}
static void go() { if (vh::section("xorshift")) xors(vh::reps(3000, 100000)); if (vh::section("mls")) mls(vh::reps(300, 6000)); }
#elif PART == 3
#include "interleave.hh"
#include "permute.hh"
template <int SIZE, int ORDER, typename T>
static void inter() {
	RNG rng = vh::rng(SIZE * 1000 + ORDER);
	vh::Guarded<T> in(SIZE), out(SIZE), back(SIZE), ref(SIZE);
	for (int i = 0; i < SIZE; ++i) { in[i] = T(rng()); ref[i] = in[i]; out[i] = T(rng()); back[i] = T(rng()); }
	vh::crumb("Interleave<%d,%d> %d byte symbols", SIZE, ORDER, int(sizeof(T)));
	CODE::Interleave<SIZE, ORDER>(out.p, in.p);
	bool ok = true, inv = true;
	for (int p = 0; p < SIZE; ++p) ok = ok && out[p] == ref[(p % ORDER) * (SIZE / ORDER) + p / ORDER];
	vh::check(ok, "interleave", "<%d,%d>", SIZE, ORDER);
	CODE::Deinterleave<SIZE, ORDER>(back.p, out.p);
	for (int i = 0; i < SIZE; ++i) inv = inv && back[i] == ref[i];
	vh::check(inv, "deinterleave", "<%d,%d>", SIZE, ORDER);
	// the other order as well
	CODE::Deinterleave<SIZE, ORDER>(out.p, in.p);
	CODE::Interleave<SIZE, ORDER>(back.p, out.p);
	inv = true;
	for (int i = 0; i < SIZE; ++i) inv = inv && back[i] == ref[i];
	vh::check(inv && std::equal(in.p, in.p + SIZE, ref.p), "interleave-inverse", "<%d,%d>", SIZE, ORDER);
	vh::check(in.intact() && out.intact() && back.intact(), "interleave-out-of-bounds", "<%d,%d>", SIZE, ORDER);
	vh::eval();
	vh::distinct(vh::mix(SIZE, ORDER * 16 + sizeof(T)));
}
template <int SIZE, typename T>
static void shuffle() {
	RNG rng = vh::rng(SIZE * 3 + sizeof(T));
	vh::Guarded<T> a(SIZE);
	std::vector<T> ref(SIZE), model;
	for (int i = 0; i < SIZE; ++i) ref[i] = a[i] = T(rng());
	vh::crumb("FisherYatesShuffle<%d> %d byte symbols", SIZE, int(sizeof(T)));
	CODE::FisherYatesShuffle<SIZE> f;
	f(a.p);
	model = ref;
	uint32_t y = 2463534242u;
	for (int i = 0; i + 1 < SIZE; ++i) { y ^= y << 13; y ^= y >> 17; y ^= y << 5; std::swap(model[i], model[i + y % uint32_t(SIZE - i)]); }
	vh::check(std::equal(model.begin(), model.end(), a.p), "shuffle-permutation", "<%d>", SIZE);
	std::vector<T> s1(a.p, a.p + SIZE), s2 = ref;
	std::sort(s1.begin(), s1.end()); std::sort(s2.begin(), s2.end());
	vh::check(s1 == s2, "shuffle-loses-elements", "<%d>", SIZE);
	if constexpr (SIZE > 1) {
		CODE::ReverseFisherYatesShuffle<SIZE> r;
		r(a.p);
		vh::check(std::equal(ref.begin(), ref.end(), a.p), "unshuffle", "<%d>", SIZE);
		r(a.p); f(a.p); // the other order, same objects
		vh::check(std::equal(ref.begin(), ref.end(), a.p), "unshuffle-then-shuffle", "<%d>", SIZE);
		f(a.p); f(a.p); r(a.p); r(a.p);
		vh::check(std::equal(ref.begin(), ref.end(), a.p), "unshuffle-twice", "<%d>", SIZE);
	}
	vh::check(a.intact(), "shuffle-out-of-bounds", "<%d>", SIZE);
	vh::eval();
	vh::distinct(vh::mix(SIZE, 1000 + sizeof(T)));
}
template <int SIZE, typename T>
static void bitrev() {
	RNG rng = vh::rng(SIZE * 5 + sizeof(T));
	vh::Guarded<T> a(SIZE);
	std::vector<T> ref(SIZE);
	for (int i = 0; i < SIZE; ++i) ref[i] = a[i] = T(rng());
	vh::crumb("BitReversalPermute<%d>", SIZE);
	CODE::BitReversalPermute<SIZE>(a.p);
	int d = 0; while ((1 << d) < SIZE) ++d;
	bool ok = true;
	for (int i = 0; i < SIZE; ++i) { int r = 0; for (int k = 0; k < d; ++k) r |= ((i >> k) & 1) << (d - 1 - k); ok = ok && a[i] == ref[r]; }
	vh::check(ok, "bit-reversal", "<%d>", SIZE);
	CODE::BitReversalPermute<SIZE>(a.p);
	vh::check(std::equal(ref.begin(), ref.end(), a.p) && a.intact(), "bit-reversal-involution", "<%d>", SIZE);
	vh::eval();
	vh::distinct(vh::mix(SIZE, 2000 + sizeof(T)));
}
template <typename T>
static void each() {
	inter<1, 1, T>(); inter<2, 1, T>(); inter<2, 2, T>(); inter<6, 2, T>(); inter<6, 3, T>(); inter<6, 6, T>(); inter<12, 4, T>(); inter<12, 3, T>(); inter<60, 5, T>(); inter<60, 12, T>(); inter<64, 8, T>(); inter<64, 16, T>();
	inter<96, 3, T>(); inter<100, 10, T>(); inter<1000, 8, T>(); inter<1024, 32, T>(); inter<1024, 2, T>(); inter<1024, 512, T>(); inter<2310, 11, T>(); inter<2310, 7, T>(); inter<4096, 64, T>(); inter<16200, 8, T>(); inter<64800, 12, T>(); inter<65536, 256, T>(); inter<121, 11, T>(); inter<131072, 1024, T>(); inter<100000, 1000, T>(); inter<200000, 4, T>(); inter<90000, 45000, T>(); inter<49, 7, T>();
	shuffle<1, T>(); shuffle<2, T>(); shuffle<3, T>(); shuffle<4, T>(); shuffle<5, T>(); shuffle<7, T>(); shuffle<8, T>(); shuffle<16, T>(); shuffle<17, T>(); shuffle<31, T>(); shuffle<64, T>(); shuffle<100, T>(); shuffle<255, T>(); shuffle<256, T>(); shuffle<257, T>(); shuffle<1000, T>(); shuffle<1024, T>(); shuffle<4095, T>(); shuffle<16200, T>(); shuffle<32768, T>(); shuffle<64800, T>(); shuffle<65536, T>(); shuffle<100000, T>(); shuffle<300000, T>();
	bitrev<1, T>(); bitrev<2, T>(); bitrev<4, T>(); bitrev<8, T>(); bitrev<16, T>(); bitrev<32, T>(); bitrev<64, T>(); bitrev<128, T>(); bitrev<256, T>(); bitrev<512, T>(); bitrev<1024, T>(); bitrev<2048, T>(); bitrev<4096, T>(); bitrev<8192, T>(); bitrev<65536, T>(); bitrev<131072, T>(); bitrev<1048576, T>();
}
static void go() { for (int i = 0; i < vh::reps(6, 60); ++i) { each<uint8_t>(); each<int16_t>(); each<int>(); each<double>(); each<uint64_t>(); } }
#elif PART == 4
#include "sort.hh"
struct Rec { int key; int id; };
// equal keys can be told apart, the natural order cannot
struct Tag {
	int key, id;
	friend bool operator<(const Tag &a, const Tag &b) { return a.key < b.key; }
	friend bool operator>(const Tag &a, const Tag &b) { return a.key > b.key; }
	friend bool operator<=(const Tag &a, const Tag &b) { return a.key <= b.key; }
	friend bool operator>=(const Tag &a, const Tag &b) { return a.key >= b.key; }
	friend bool operator==(const Tag &a, const Tag &b) { return a.key == b.key; }
	friend bool operator!=(const Tag &a, const Tag &b) { return a.key != b.key; }
};
static bool by_key(Rec a, Rec b) { return a.key < b.key; }
struct Desc { bool operator()(const Rec &a, const Rec &b) const { return a.key > b.key; } };
template <int MAX_N, int M>
struct Sorter {
	vh::Placed<CODE::MergeSort<Rec, MAX_N, M>> ms;
	vh::Placed<CODE::MergeSort<int, MAX_N, M>> mi;
	vh::Placed<CODE::MergeSort<Tag, MAX_N, M>> mt;
	vh::Placed<CODE::MergeSort<float, MAX_N, M>> mf;
	Sorter() : ms(0xA5), mi(0xFF), mt(0x5A), mf(0xFF) {}
	void run(const std::vector<int> &keys) {
		int n = int(keys.size());
		vh::crumb("sort n=%d max=%d run=%d keys=%s", n, MAX_N, M, vh::show(keys.data(), n, 80).c_str());
		std::vector<Rec> src(n), up, down;
		for (int i = 0; i < n; ++i) src[i] = Rec{keys[i], i};
		up = src; down = src;
		std::stable_sort(up.begin(), up.end(), by_key);
		std::stable_sort(down.begin(), down.end(), Desc());
		auto same = [&](const Rec *a, const std::vector<Rec> &w) { for (int i = 0; i < n; ++i) if (a[i].key != w[i].key || a[i].id != w[i].id) return false; return true; };
		vh::Guarded<Rec> g(n);
		auto fill = [&]() { for (int i = 0; i < n; ++i) g[i] = src[i]; };
		fill(); (*ms)(g.p, n, by_key);
		vh::check(same(g.p, up) && g.intact(), "merge-sort", "n=%d max=%d run=%d", n, MAX_N, M);
		fill(); (*ms)(g.p, n, Desc());
		vh::check(same(g.p, down) && g.intact(), "merge-sort-comparator", "n=%d max=%d run=%d", n, MAX_N, M);
		fill(); CODE::insertion_sort(g.p, n, by_key);
		vh::check(same(g.p, up) && g.intact(), "insertion-sort-comparator", "n=%d", n);
		fill(); CODE::insertion_sort(g.p, n, Desc());
		vh::check(same(g.p, down) && g.intact(), "insertion-sort-comparator", "n=%d descending", n);
		vh::Guarded<Tag> tg(n);
		auto tagged = [&]() { for (int i = 0; i < n; ++i) if (tg[i].key != up[i].key || tg[i].id != up[i].id) return false; return tg.intact(); };
		for (int i = 0; i < n; ++i) tg[i] = Tag{keys[i], i};
		(*mt)(tg.p, n);
		vh::check(tagged(), "merge-sort-default", "records n=%d max=%d run=%d", n, MAX_N, M);
		for (int i = 0; i < n; ++i) tg[i] = Tag{keys[i], i};
		CODE::insertion_sort(tg.p, n);
		vh::check(tagged(), "insertion-sort", "records n=%d", n);
		if (n) {
			vh::Guarded<int> q(n);
			for (int i = 0; i < n; ++i) { tg[i] = Tag{keys[i], i}; q[i] = -5; }
			CODE::insertion_sort(q.p, tg.p, n);
			bool right = tagged() && q.intact();
			for (int i = 0; i < n; ++i) right = right && q[i] == up[i].id;
			vh::check(right, "insertion-sort-index", "records n=%d", n);
		}
		vh::Guarded<int> a(n);
		for (int i = 0; i < n; ++i) a[i] = keys[i];
		(*mi)(a.p, n);
		bool ok = a.intact();
		for (int i = 0; i < n; ++i) ok = ok && a[i] == up[i].key;
		vh::check(ok, "merge-sort-default", "n=%d max=%d run=%d", n, MAX_N, M);
		for (int i = 0; i < n; ++i) a[i] = keys[i];
		CODE::insertion_sort(a.p, n);
		ok = a.intact();
		for (int i = 0; i < n; ++i) ok = ok && a[i] == up[i].key;
		vh::check(ok, "insertion-sort", "n=%d", n);
		if (n) {
			vh::Guarded<uint16_t> p(n);
			for (int i = 0; i < n; ++i) { a[i] = keys[i]; p[i] = uint16_t(0xbeef + i); }
			CODE::insertion_sort(p.p, a.p, n);
			ok = a.intact() && p.intact();
			for (int i = 0; i < n; ++i) ok = ok && a[i] == up[i].key && p[i] == up[i].id;
			vh::check(ok, "insertion-sort-index", "n=%d", n);
		}
		vh::Guarded<float> f(n);
		for (int i = 0; i < n; ++i) f[i] = float(keys[i]) * 0.37f;
		(*mf)(f.p, n);
		ok = f.intact();
		for (int i = 0; i < n; ++i) ok = ok && f[i] == float(up[i].key) * 0.37f;
		vh::check(ok, "merge-sort-default", "float n=%d max=%d run=%d", n, MAX_N, M);
		vh::eval();
		vh::distinct(vh::hash_bytes(keys.data(), n * sizeof(int), vh::mix(MAX_N, M)));
	}
	void all(int n) {
		RNG rng = vh::rng(MAX_N * 100 + M);
		for (int len = 0; len <= MAX_N; ++len) { // every length
			if (MAX_N > 700 && len > 200 && len % 97 && len < MAX_N - 3) continue;
			std::vector<int> k(len);
			int range = 1 + int(rng.below(len + 2));
			for (int &v : k) v = int(rng.below(range)) - range / 2;
			run(k);
		}
		for (int it = 0; it < n; ++it) {
			int len = rng.coin(4) ? MAX_N - int(rng.below(2)) : int(rng.below(MAX_N + 1));
			if (rng.coin(3)) { int b = M << rng.below(5); len = std::max(0, std::min(MAX_N, b + int(rng.below(3)) - 1)); }
			std::vector<int> k(len);
			switch (rng.below(7)) {
			case 0: for (int i = 0; i < len; ++i) k[i] = i; break;
			case 1: for (int i = 0; i < len; ++i) k[i] = -i; break;
			case 2: for (int i = 0; i < len; ++i) k[i] = int(rng.below(2)); break;
			case 3: for (int i = 0; i < len; ++i) k[i] = int(uint32_t(rng())); break;
			case 4: for (int i = 0; i < len; ++i) k[i] = i < len / 2 ? i : len - i; break;
			case 5: for (int i = 0; i < len; ++i) k[i] = 7; break;
			default: for (int i = 0; i < len; ++i) k[i] = int(rng.below(len / 2 + 1));
			}
			if (len && rng.coin(4)) { k[rng.below(len)] = INT32_MAX; k[rng.below(len)] = INT32_MIN; }
			run(k);
		}
	}
	void small(int maxlen, int alphabet) {
		for (int len = 0; len <= maxlen && len <= MAX_N; ++len) {
			int total = 1;
			for (int i = 0; i < len; ++i) total *= alphabet;
			for (int c = 0; c < total; ++c) {
				if (!vh::mine(c)) continue;
				std::vector<int> k(len);
				int t = c;
				for (int i = 0; i < len; ++i) { k[i] = t % alphabet; t /= alphabet; }
				run(k);
				vh::count("sequences_enumerated");
			}
		}
	}
};
// long sequences of other element types; keys as they are, so that equal ones cannot be told apart, and tagged
template <typename T, int MAX_N, int M>
static void sort_long(const char *type, int times, T (*draw)(RNG &, int)) {
	struct Item { T key; uint32_t id; };
	auto ms = std::unique_ptr<vh::Placed<CODE::MergeSort<T, MAX_N, M>>>(new vh::Placed<CODE::MergeSort<T, MAX_N, M>>(0xA5));
	auto mt = std::unique_ptr<vh::Placed<CODE::MergeSort<Item, MAX_N, M>>>(new vh::Placed<CODE::MergeSort<Item, MAX_N, M>>(0x5A));
	RNG rng = vh::rng(vh::mix(MAX_N, M * 16 + sizeof(T)));
	while (times--) {
		int n = rng.coin(60) ? MAX_N - int(rng.below(3)) : 1 + int(rng.below(MAX_N)), kind = int(rng.below(4));
		vh::Guarded<T> a(n); vh::Guarded<Item> b(n);
		std::vector<Item> want(n);
		for (int i = 0; i < n; ++i) { T k = kind == 0 ? T(i % 1000) : kind == 1 ? T(n - i) : draw(rng, kind); a[i] = k; want[i] = Item{k, uint32_t(i)}; b[i] = want[i]; }
		vh::crumb("long sort of %s n=%d max=%d run=%d kind=%d", type, n, MAX_N, M, kind);
		std::stable_sort(want.begin(), want.end(), [](const Item &x, const Item &y) { return x.key < y.key; });
		(**ms)(a.p, n);
		(**mt)(b.p, n, [](const Item &x, const Item &y) { return x.key < y.key; });
		int bad = -1, bad2 = -1;
		for (int i = 0; i < n; ++i) { if (!(a[i] == want[i].key)) bad = i; if (b[i].id != want[i].id) bad2 = i; }
		vh::check(bad < 0 && a.intact(), "merge-sort-default", "long %s n=%d at %d", type, n, bad);
		vh::check(bad2 < 0 && b.intact(), "merge-sort-comparator", "long %s n=%d at %d", type, n, bad2);
		// insertion sort, of a sequence that is nearly in order so that it takes linear time
		for (int i = 0; i < n; ++i) b[i] = want[i];
		for (int i = 0; i < 40 && n > 8; ++i) { int x = int(rng.below(n - 7)), y = x + int(rng.below(7)); std::swap(b[x], b[y]); }
		vh::Guarded<uint32_t> idx(n);
		std::vector<Item> w(n);
		for (int i = 0; i < n; ++i) { a[i] = b[i].key; w[i] = Item{a[i], uint32_t(i)}; idx[i] = 0xbeef; }
		std::stable_sort(w.begin(), w.end(), [](const Item &x, const Item &y) { return x.key < y.key; });
		CODE::insertion_sort(idx.p, a.p, n);
		bad = -1;
		for (int i = 0; i < n; ++i) if (!(a[i] == w[i].key) || idx[i] != w[i].id) bad = i;
		vh::check(bad < 0 && a.intact() && idx.intact(), "insertion-sort-index", "long %s n=%d at %d", type, n, bad);
		for (int i = 0; i < n; ++i) a[i] = b[i].key;
		CODE::insertion_sort(a.p, n);
		bad = -1;
		for (int i = 0; i < n; ++i) if (!(a[i] == w[i].key)) bad = i;
		vh::check(bad < 0 && a.intact(), "insertion-sort", "long %s n=%d at %d", type, n, bad);
		vh::eval();
		vh::count("long_sequences");
		vh::distinct(vh::hash_bytes(w.data(), w.size() * sizeof(Item), MAX_N));
	}
}
static void long_sorts() {
	int n = vh::reps(3, 60);
	sort_long<int, 100000, 32>("int", n, [](RNG &r, int k) { return k == 2 ? int(uint32_t(r())) : int(r.below(300)); });
	sort_long<double, 70000, 32>("double", n, [](RNG &r, int k) { return k == 2 ? r.normal() : double(int(r.below(300)) - 150) / 4; });
	sort_long<int64_t, 66000, 7>("int64", n, [](RNG &r, int k) { return k == 2 ? int64_t(r()) : int64_t(r.below(300)); });
	sort_long<uint64_t, 33000, 32>("uint64", n, [](RNG &r, int k) { return k == 2 ? r() : ~r.below(300); });
	sort_long<uint8_t, 3000, 32>("uint8", n * 4, [](RNG &r, int) { return uint8_t(r()); });
	sort_long<int8_t, 5000, 16>("int8", n * 4, [](RNG &r, int) { return int8_t(r()); });
	sort_long<int16_t, 40000, 32>("int16", n, [](RNG &r, int) { return int16_t(r()); });
	sort_long<uint16_t, 66000, 50>("uint16", n, [](RNG &r, int) { return uint16_t(r()); });
	sort_long<uint32_t, 20000, 1>("uint32", n, [](RNG &r, int) { return uint32_t(r()); });
	sort_long<float, 1 << 17, 32>("float", n, [](RNG &r, int) { return float(r.normal()); });
}
static void go() {
	int n = vh::reps(1500, 60000);
	long_sorts();
	{ Sorter<128, 32> s; s.all(n); }
	{ Sorter<1000, 32> s; s.all(n / 3 + 1); }
	{ Sorter<4096, 32> s; s.all(n / 40 + 1); }
	{ Sorter<33, 32> s; s.all(n); }
	{ Sorter<64, 1> s; s.all(n); s.small(7, 3); }
	{ Sorter<64, 2> s; s.all(n); s.small(8, 3); }
	{ Sorter<100, 3> s; s.all(n); s.small(8, 3); s.small(7, 4); }
	{ Sorter<100, 5> s; s.all(n); }
	{ Sorter<400, 33> s; s.all(n / 3 + 1); }
	{ Sorter<400, 64> s; s.all(n / 3 + 1); }
	{ Sorter<600, 100> s; s.all(n / 4 + 1); }
	{ Sorter<300, 7> s; s.all(n / 3 + 1); }
	{ Sorter<700, 512> s; s.all(n / 6 + 1); }
	{ Sorter<9, 4> s; s.all(n / 4 + 1); s.small(9, 2); }
	{ Sorter<1, 32> s; s.all(4); }
}
#elif PART == 5
#include "exclusive_reduce.hh"
template <typename T, typename OP>
static void xred(const char *name, int n, OP op, std::function<T(RNG &)> gen) {
	RNG rng = vh::rng(vh::hash_bytes(name, std::strlen(name)));
	for (int it = 0; it < n; ++it) {
		int N = it < 60 ? 2 + it % 30 : 2 + int(rng.below(rng.coin(10) ? 300 : 40));
		vh::Guarded<T> in(N), out(N);
		std::vector<T> ref(N);
		for (int i = 0; i < N; ++i) { ref[i] = in[i] = gen(rng); out[i] = gen(rng); }
		vh::crumb("exclusive_reduce %s N=%d in=%s", name, N, vh::show(ref.data(), N).c_str());
		CODE::exclusive_reduce(in.p, out.p, N, op);
		bool ok = true;
		int bad = -1;
		for (int i = 0; i < N; ++i) {
			bool first = true;
			T acc = T();
			for (int j = 0; j < N; ++j) if (j != i) { acc = first ? ref[j] : T(op(acc, ref[j])); first = false; }
			if (!(out[i] == acc)) { ok = false; bad = i; }
		}
		vh::check(ok, "exclusive-reduce", "%s N=%d output %d", name, N, bad);
		vh::check(in.intact() && out.intact() && std::equal(ref.begin(), ref.end(), in.p), "exclusive-reduce-touches-more", "%s N=%d", name, N);
		vh::eval();
		vh::distinct(vh::hash_bytes(ref.data(), N * sizeof(T), vh::hash_bytes(name, std::strlen(name))));
	}
}
// long inputs of operations with an inverse, or with prefixes and suffixes joined
static void xred_long(int times) {
	RNG rng = vh::rng(99);
	while (times--) {
		int N = rng.coin() ? 70000 + int(rng.below(100000)) : 1000 + int(rng.below(60000));
		vh::Guarded<uint64_t> in(N), out(N);
		vh::Guarded<int16_t> lo(N), lout(N);
		uint64_t sum = 0;
		for (int i = 0; i < N; ++i) { sum += in[i] = rng(); out[i] = 0; lo[i] = int16_t(rng()); }
		vh::crumb("exclusive_reduce long N=%d", N);
		CODE::exclusive_reduce(in.p, out.p, N, [](uint64_t a, uint64_t b) { return a + b; });
		int bad = -1;
		for (int i = 0; i < N; ++i) if (out[i] != sum - in[i]) bad = i;
		vh::check(bad < 0 && in.intact() && out.intact(), "exclusive-reduce", "long sum N=%d output %d", N, bad);
		CODE::exclusive_reduce(lo.p, lout.p, N, [](int16_t a, int16_t b) { return std::min(a, b); });
		std::vector<int16_t> suf(N);
		suf[N - 1] = lo[N - 1];
		for (int i = N - 2; i >= 0; --i) suf[i] = std::min(lo[i], suf[i + 1]);
		bad = -1;
		int16_t pre = 32767;
		for (int i = 0; i < N; ++i) { int16_t w = i < N - 1 ? std::min(pre, suf[i + 1]) : pre; if (lout[i] != w) bad = i; pre = std::min(pre, lo[i]); }
		vh::check(bad < 0 && lo.intact() && lout.intact(), "exclusive-reduce", "long minimum N=%d output %d", N, bad);
		vh::eval(2);
		vh::count("long_inputs");
		vh::distinct(vh::mix(sum, N));
	}
}
// the number of applications of the operation stays proportional to the length
static void xred_work() {
	RNG rng = vh::rng(100);
	for (int N = 2; N <= 40000; N = N < 40 ? N + 1 : N * 2 - int(rng.below(uint64_t(N)/2))) {
		std::vector<uint32_t> in(N), out(N); uint32_t x = 0;
		for (auto &e : in) { e = uint32_t(rng()); x ^= e; }
		uint64_t calls = 0;
		vh::crumb("exclusive_reduce counted N=%d", N);
		CODE::exclusive_reduce(in.data(), out.data(), N, [&calls](uint32_t a, uint32_t b) { ++calls; return a ^ b; });
		bool ok = true; for (int i = 0; i < N; ++i) ok = out[i] == (x ^ in[i]) && ok;
		vh::check(ok, "exclusive-reduce", "counted xor N=%d", N);
		vh::check(calls <= 16ull * N + 64, "exclusive-reduce-work", "N=%d takes %llu applications of the operation", N, (unsigned long long)calls);
		vh::count("work_measured"); vh::eval();
	}
}
static void go() {
	int n = vh::reps(6000, 300000);
	xred_work();
	xred_long(vh::reps(10, 400));
	xred<uint32_t>("add u32", n, [](uint32_t a, uint32_t b) { return a + b; }, [](RNG &r) { return uint32_t(r()); });
	xred<uint64_t>("mul u64", n, [](uint64_t a, uint64_t b) { return a * b; }, [](RNG &r) { return r(); });
	xred<uint16_t>("xor u16", n, [](uint16_t a, uint16_t b) { return uint16_t(a ^ b); }, [](RNG &r) { return uint16_t(r()); });
	xred<int>("min int", n, [](int a, int b) { return std::min(a, b); }, [](RNG &r) { return int(r.below(9)) - 4; });
	xred<int>("max int", n, [](int a, int b) { return std::max(a, b); }, [](RNG &r) { return int(uint32_t(r())); });
	xred<uint8_t>("and u8", n, [](uint8_t a, uint8_t b) { return uint8_t(a & b); }, [](RNG &r) { return uint8_t(r.coin(4) ? r() : 255); });
	xred<uint8_t>("or u8", n, [](uint8_t a, uint8_t b) { return uint8_t(a | b); }, [](RNG &r) { return uint8_t(r.coin(4) ? r() : 0); });
	xred<float>("max float", n, [](float a, float b) { return a < b ? b : a; }, [](RNG &r) { return float(int(r.below(1000)) - 500) * 0.25f; });
	xred<int>("min-sum", n, [](int a, int b) { int m = std::min(std::abs(a), std::abs(b)); return (a < 0) != (b < 0) ? -m : m; }, [](RNG &r) { return int(r.below(255)) - 127; });
	xred<uint32_t>("gcd", n / 4 + 1, [](uint32_t a, uint32_t b) { while (b) { uint32_t t = a % b; a = b; b = t; } return a; }, [](RNG &r) { return uint32_t(1 + r.below(5)) * 60u * uint32_t(1 + r.below(50)); });
}
#endif

int main(int argc, char **argv) {
	vh::init(argc, argv);
	go();
	return vh::finish();
}
