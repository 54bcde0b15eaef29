/* Independent model of the receiver's wire format: generator and byte-wise decoder. */
#ifndef BEASTGEN_H
#define BEASTGEN_H
#include <vector>
#include <string>
#include <string.h>
#include "vf.h"
typedef std::vector<uint8_t> Bytes;

struct RefFrame {
	uint8_t type; uint64_t mlat; int8_t level; Bytes payload, raw;
};
static inline size_t beast_plen(int t) { return t == '1' ? 2 : t == '2' ? 7 : t == '3' ? 14 : t == '4' ? 14 : 0; }
static inline void beast_put(Bytes & o, uint8_t b) { o.push_back(b); if (b == 0x1a) o.push_back(b); }
static inline Bytes beast_frame(uint8_t type, uint64_t mlat, uint8_t level, const Bytes & payload)
{
	Bytes o = {0x1a, type};
	for (int i = 40; i >= 0; i -= 8) beast_put(o, (uint8_t)(mlat >> i));
	beast_put(o, level);
	for (uint8_t b : payload) beast_put(o, b);
	return o;
}
/* byte at a time reference decoder */
struct BeastRef {
	enum { START, HUNT, HUNT_ESC, TYPE, BODY, BODY_ESC } st = START;
	uint8_t type = 0; Bytes body, raw; size_t need = 0;
	std::vector<RefFrame> out; uint64_t oos = 0, unk = 0;
	void begin(uint8_t t, bool fromStart)
	{
		if (t == 0x1a) { ++oos; st = HUNT; return; } /* only from START */
		if (!beast_plen(t)) { ++unk; st = HUNT; return; }
		type = t; need = 7 + beast_plen(t); body.clear(); raw = {0x1a, t}; st = BODY;
	}
	void data(uint8_t b)
	{
		body.push_back(b);
		st = BODY;
		if (body.size() == need) {
			RefFrame f; f.type = type; f.mlat = 0;
			for (int i = 0; i < 6; ++i) f.mlat = f.mlat << 8 | body[i];
			f.level = (int8_t)body[6];
			f.payload.assign(body.begin() + 7, body.end());
			f.raw = raw;
			out.push_back(f);
			st = START;
		}
	}
	void feed(uint8_t b)
	{
		switch (st) {
		case START: if (b == 0x1a) st = TYPE; else { ++oos; st = HUNT; } break;
		case HUNT: if (b == 0x1a) st = HUNT_ESC; break;
		case HUNT_ESC: if (b == 0x1a) st = HUNT; else begin(b, false); break;
		case TYPE: begin(b, true); break;
		case BODY: raw.push_back(b); if (b == 0x1a) st = BODY_ESC; else data(b); break;
		case BODY_ESC: if (b == 0x1a) { raw.push_back(b); data(b); } else { ++oos; begin(b, false); } break;
		}
	}
	void reset() { st = START; }
};
static inline uint8_t gen_byte(unsigned escpct)
{
	if (vf_chance(escpct)) return 0x1a;
	static const uint8_t sp[] = {0, 0xff, '1', '2', '3', '4', 0x1b, 0x19, 0x80, 0x8d};
	if (vf_chance(20)) return sp[vf_below(sizeof sp)];
	return (uint8_t)vf_rnd();
}
static inline Bytes gen_bytes(size_t n, unsigned escpct) { Bytes b(n); for (auto & x : b) x = gen_byte(escpct); return b; }
static inline Bytes gen_frame(unsigned escpct)
{
	static const char types[] = "1223333344";
	uint8_t t = types[vf_below(10)];
	Bytes ts = gen_bytes(6, escpct), pl = gen_bytes(beast_plen(t), escpct);
	uint64_t m = 0;
	for (uint8_t b : ts) m = m << 8 | b;
	if (vf_chance(5)) m = 0;
	return beast_frame(t, m, gen_byte(escpct), pl);
}
static inline void app(Bytes & o, const Bytes & b) { o.insert(o.end(), b.begin(), b.end()); }
/* a stretch of receiver output: frames, garbage, truncations, hostile bytes */
static inline Bytes gen_stream(size_t approx, unsigned garbagePct)
{
	Bytes o;
	static const unsigned ep[] = {0, 2, 10, 40, 90};
	unsigned esc = ep[vf_below(5)];
	while (o.size() < approx) {
		if (!vf_chance(garbagePct)) { app(o, gen_frame(esc)); continue; }
		switch (vf_below(8)) {
		case 0: app(o, gen_bytes(vf_range(1, 200), 0)); break;
		case 1: app(o, gen_bytes(vf_range(1, 60), 30)); break;
		case 2: { Bytes f = gen_frame(esc); f.resize(vf_below(f.size())); app(o, f); break; }
		case 3: { Bytes f = gen_frame(esc); f.erase(f.begin() + vf_below(f.size())); app(o, f); break; }
		case 4: { Bytes f = gen_frame(esc); f.insert(f.begin() + vf_below(f.size() + 1), 0x1a); app(o, f); break; }
		case 5: for (size_t n = vf_range(1, 9); n; --n) o.push_back(0x1a); break;
		case 6: o.push_back(0x1a); o.push_back((uint8_t)vf_rnd()); break;
		case 7: { /* small alphabet */
			static const uint8_t al[] = {0x1a, 0x1a, 0x1a, '1', '2', '3', '4', 0, 'x'};
			for (size_t n = vf_range(1, 120); n; --n) o.push_back(al[vf_below(9)]);
			break; }
		}
	}
	return o;
}
#endif
