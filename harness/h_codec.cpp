/* C03 escape encoding, C32 field helpers. */
#include "beastgen.h"
#include <stdlib.h>
#include <math.h>
#include <sanitizer/asan_interface.h>
#include "core/beast.h"
#include "util/endec.h"

static int mode;
void vf_init() { mode = vf_opt("mode", 0); }

static void beast_one(const Bytes & in, int poison)
{
	/* exactly sized heap objects: any access outside is an ASan report */
	size_t expect = in.size();
	for (uint8_t b : in) expect += b == 0x1a;
	uint8_t * src = (uint8_t *)malloc(in.size() + 1) , * s = src;
	if (in.size()) memcpy(s, in.data(), in.size());
	ASAN_POISON_MEMORY_REGION(s + in.size(), 1);
	size_t room = poison ? expect : 2 * in.size() + 8;
	uint8_t * dst = (uint8_t *)malloc(room ? room : 1);
	memset(dst, 0xEE, room);
	size_t n = BEAST_encode(dst, s, in.size());
	VF_CHECK(n == expect, "length", "encoding %s: length %zu, expected %zu", vf_hex(in.data(), in.size()), n, expect);
	VF_CHECK(n <= 2 * in.size(), "bound", "more than doubled");
	size_t o = 0;
	for (size_t i = 0; i < in.size(); ++i) {
		VF_CHECK(dst[o] == in[i], "content", "byte %zu of encoding of %s is %02x", o, vf_hex(in.data(), in.size()), dst[o]);
		++o;
		if (in[i] == 0x1a) { VF_CHECK(dst[o] == 0x1a, "content", "escape at %zu of %s is not doubled", i, vf_hex(in.data(), in.size())); ++o; }
	}
	for (; o < room; ++o) VF_CHECK(dst[o] == 0xEE, "overrun", "byte %zu behind the encoding of %s was written", o - n, vf_hex(in.data(), in.size()));
	VF_CHECK(in.empty() || !memcmp(s, in.data(), in.size()), "input-changed", "the input was modified");
	ASAN_UNPOISON_MEMORY_REGION(s + in.size(), 1);
	free(src); free(dst);
}
static void do_beast(uint64_t c)
{
	if (c < 8192 / 8) {
		/* every escape pattern over strings of up to 12 bytes, in blocks of 8 */
		for (int k = 0; k < 8; ++k) {
			uint64_t v = c * 8 + k; /* leading 1 encodes the length */
			int len = 0;
			while ((v >> (len + 1)) && len < 13) ++len;
			if (!v) { beast_one(Bytes(), 1); continue; }
			Bytes b;
			for (int i = 0; i < len; ++i) b.push_back((v >> i) & 1 ? 0x1a : (uint8_t)(0x19 + 2 * (vf_rnd() & 1)));
			beast_one(b, 1); beast_one(b, 0);
			vf_count("eval", 2); vf_count("exhaustive_patterns", 1);
			vf_distinct(vf_hash(b.data(), b.size(), len));
		}
		return;
	}
	size_t len = vf_chance(80) ? vf_below(64) : vf_below(4000);
	Bytes b = gen_bytes(len, (unsigned[]){0, 1, 10, 50, 95, 100}[vf_below(6)]);
	beast_one(b, 0); beast_one(b, 1);
	vf_count("eval", 2);
	size_t e = 0;
	for (uint8_t x : b) e += x == 0x1a;
	vf_count("escapes", e);
	if (e) vf_distinct(vf_hash(b.data(), b.size(), 7));
	if (vf_want_sample() && e && len < 40) vf_sample("encode %s", vf_hex(b.data(), len));
}
/* independent reference: bytes most significant first */
static uint64_t be(const uint8_t * p, int n) { uint64_t v = 0; for (int i = 0; i < n; ++i) v = v << 8 | p[i]; return v; }
static void do_endec()
{
	uint8_t * mem = (uint8_t *)malloc(8 + 8);
	for (int al = 0; al < 8; ++al) {
		for (int w = 2; w <= 8; w *= 2) {
			/* the field ends exactly at the object's end for 8-byte fields at offset 8 */
			uint8_t * p = mem + 16 - w - al;
			for (int i = 0; i < 16; ++i) mem[i] = gen_byte(5);
			if (vf_chance(30)) { /* exponent patterns */
				static const uint8_t ex[][2] = {{0x7f, 0xf0}, {0xff, 0xf8}, {0x7f, 0x80}, {0, 0}, {0x80, 0}, {0x7f, 0xff}, {0xff, 0x80}};
				memcpy(p, ex[vf_below(7)], 2);
			}
			uint64_t v = be(p, w);
			uint8_t keep[16]; memcpy(keep, mem, 16);
#define T(c, what) VF_CHECK(c, what, "%s at alignment %d of %s", what, al, vf_hex(p, w))
			if (w == 2) {
				T(ENDEC_tou16(p) == v, "tou16"); T(ENDEC_toi16(p) == (int16_t)v, "toi16");
			} else if (w == 4) {
				T(ENDEC_tou32(p) == v, "tou32"); T(ENDEC_toi32(p) == (int32_t)v, "toi32");
				float f = ENDEC_tofloat(p); uint32_t u = (uint32_t)v; float g; memcpy(&g, &u, 4);
				T(isnan(g) ? isnan(f) : !memcmp(&f, &g, 4), "tofloat");
				uint8_t q[16]; memset(q, 0xEE, 16);
				ENDEC_fromu32((uint32_t)v, q + al);
				T(!memcmp(q + al, p, 4), "fromu32");
				for (int i = 0; i < 16; ++i) T((i >= al && i < al + 4) || q[i] == 0xEE, "fromu32 outside its field");
			} else {
				T(ENDEC_tou64(p) == v, "tou64");
				double f = ENDEC_todouble(p); double g; memcpy(&g, &v, 8);
				T(isnan(g) ? isnan(f) : !memcmp(&f, &g, 8), "todouble");
				uint8_t q[24]; memset(q, 0xEE, 24);
				ENDEC_fromu64(v, q + al);
				T(!memcmp(q + al, p, 8), "fromu64");
				for (int i = 0; i < 24; ++i) T((i >= al && i < al + 8) || q[i] == 0xEE, "fromu64 outside its field");
				memset(q, 0xEE, 24);
				if (!isnan(g)) { ENDEC_fromdouble(g, q + al); T(!memcmp(q + al, p, 8), "fromdouble");
					for (int i = 0; i < 24; ++i) T((i >= al && i < al + 8) || q[i] == 0xEE, "fromdouble outside its field"); }
			}
			T(!memcmp(keep, mem, 16), "decoding modified its input");
			vf_count("eval", 1);
			vf_distinct(vf_hash(p, w, al * 16 + w));
			if (vf_want_sample()) vf_sample("width %d alignment %d bytes %s", w, al, vf_hex(p, w));
		}
	}
	free(mem);
}
void vf_case(uint64_t c) { if (mode) do_endec(); else do_beast(c); }
