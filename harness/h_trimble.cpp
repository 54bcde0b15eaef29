// C19: TSIP framing against a reference machine; C20: published position (observed through GPS_sendPosition).
#include <vector>
#include <string>
#include <deque>
#include <string.h>
#include <stdlib.h>
#include <math.h>
#include <pthread.h>
#include "vf.h"
#include "log_stub.h"
extern "C" {
#include "trimble/trimble_parser.h"
#include "trimble/trimble_input.h"
#include "trimble/trimble_recv.h"
#include "core/gps.h"
#include "core/network.h"
}
typedef std::vector<uint8_t> Bytes;
enum { BOM = 0x10, EOM = 3 };
static long mode;

// ---- reference framing
struct Ref {
	enum { SYNC, SEARCH, SESC, START, DATA, DESC } st = SYNC;
	Bytes cur; size_t cap;
	unsigned overlong = 0, resync = 0;
	// returns true if a packet is complete (in out)
	bool feed(uint8_t b, Bytes & out)
	{
		switch (st) {
		case SYNC: if (b == BOM) st = START; else { st = SEARCH; ++resync; } break;
		case SEARCH: if (b == BOM) st = SESC; break;
		case SESC: if (b == BOM || b == EOM) st = SEARCH; else begin(b); break;
		case START: if (b == BOM || b == EOM) { st = SEARCH; ++resync; } else begin(b); break;
		case DATA: if (b == BOM) st = DESC; else add(b); break;
		case DESC:
			if (b == EOM) { out = cur; st = SYNC; return true; }
			if (b == BOM) { st = DATA; add(b); }
			else { ++resync; begin(b); }
			break;
		}
		return false;
	}
	void begin(uint8_t b) { cur.assign(1, b); st = DATA; }
	void add(uint8_t b) { cur.push_back(b); if (cur.size() == cap) { st = SEARCH; ++overlong; } }
};

// ---- input stub
static std::vector<Bytes> conns;      // stream of each connection
static size_t conn; static size_t pos; // current connection (1-based), position
static bool connected, initDone;
static int segMode;
static std::deque<bool> cfgFail;      // upcoming configuration writes fail?
static Bytes wrote;
static void (*atRead)(void);
static void finished(void);

extern "C" void TRIMBLE_INPUT_register() {}
extern "C" void TRIMBLE_INPUT_init() { initDone = true; }
extern "C" void TRIMBLE_INPUT_disconnect() { connected = false; }
extern "C" void TRIMBLE_INPUT_connect()
{
	if (cfgFail.empty() || !cfgFail.front()) {
		if (conn == conns.size()) finished();
		++conn;
	}
	pos = 0; connected = true;
	vf_trace("connect %zu", conn);
}
extern "C" size_t TRIMBLE_INPUT_write(const uint8_t * b, size_t n)
{
	VF_CHECK(connected, "write-unconnected", "writing without a connection");
	wrote.assign(b, b + n);
	bool f = !cfgFail.empty() && cfgFail.front();
	if (!cfgFail.empty()) cfgFail.pop_front();
	return f ? vf_below(n) : n;
}
extern "C" size_t TRIMBLE_INPUT_read(uint8_t * b, size_t n)
{
	VF_CHECK(connected, "read-unconnected", "reading without a connection");
	VF_CHECK(n > 0, "read-empty", "reading into an empty buffer");
	if (atRead) atRead();
	const Bytes & s = conns[conn - 1];
	size_t left = s.size() - pos;
	if (!left) { connected = false; return 0; }
	size_t k;
	switch (segMode) {
	case 0: k = 1; break;
	case 1: k = n; break;
	case 2: k = vf_range(1, 3); break;
	default: k = vf_range(1, n); break;
	}
	if (k > n) k = n;
	if (k > left) k = left;
	memcpy(b, s.data() + pos, k);
	if (vf_chance(30)) memset(b + k, 0xA5, n - k);  // the rest of the buffer is not data
	pos += k;
	return k;
}

static void put(Bytes & s, const Bytes & p, bool escType = true)
{
	s.push_back(BOM);
	for (size_t i = 0; i < p.size(); ++i) {
		s.push_back(p[i]);
		if (p[i] == BOM && (i || escType)) s.push_back(BOM);
	}
	s.push_back(BOM); s.push_back(EOM);
}
static uint8_t rb(void)
{
	switch (vf_below(4)) { case 0: return BOM; case 1: return EOM; default: return vf_rnd(); }
}
static void garbage(Bytes & s)
{
	unsigned n = vf_chance(10) ? vf_below(300) : vf_below(8);
	while (n--) s.push_back(rb());
}

static void wire_packet(Bytes & s, size_t cap)
{
	Bytes p;
	size_t n;
	switch (vf_below(6)) { case 0: n = vf_below(4); break; case 1: n = (cap > 4 ? cap - 4 : 0) + vf_below(8); break; case 2: n = vf_below(2 * cap); break; default: n = vf_below(80); }
	do p.push_back(vf_rnd()); while (p[0] == BOM || p[0] == EOM ? (p.clear(), true) : false);
	unsigned e = vf_below(3) ? vf_below(40) : 0;
	for (size_t i = 0; i < n; ++i) p.push_back(vf_chance(e) ? BOM : vf_chance(10) ? EOM : vf_rnd());
	put(s, p);
	if (vf_chance(15) && !s.empty()) s.resize(s.size() - 1 - vf_below(s.size() < 6 ? s.size() : 6)); // truncated
}

static void case_frames(void)
{
	conns.clear(); conn = 0; cfgFail.clear(); atRead = NULL;
	size_t cap = vf_chance(50) ? (size_t)vf_range(2, 40) : (size_t)vf_range(41, 1024);
	segMode = vf_below(4);
	unsigned nc = vf_range(1, 3);
	uint64_t h = cap;
	for (unsigned c = 0; c < nc; ++c) {
		Bytes s;
		if (vf_chance(30)) garbage(s);
		unsigned np = vf_below(12);
		for (unsigned i = 0; i < np; ++i) { if (vf_chance(25)) garbage(s); wire_packet(s, cap); }
		if (vf_chance(30)) garbage(s);
		h = vf_hash(s.data(), s.size(), h);
		conns.push_back(s);
	}
	for (unsigned i = vf_chance(20) ? vf_range(1, 3) : 0; i; --i) cfgFail.push_back(true);
	if (!cfgFail.empty()) cfgFail.push_back(false);
	TRIMBLE_PARSER_init();
	VF_CHECK(initDone, "init", "input was not initialised");
	unsigned long got = 0; bool nontriv = false;
	for (unsigned c = 0; c < nc; ++c) {
		TRIMBLE_PARSER_connect();
		VF_CHECK(connected && conn == c + 1, "connect", "not connected after connect");
		VF_CHECK(cfgFail.empty() || c, "configure", "connected although the unit could not be configured");
		VF_CHECK(wrote.size() > 4 && wrote[0] == BOM && wrote[wrote.size() - 2] == BOM && wrote.back() == EOM, "setup-message", "no setup message was written");
		Ref r; r.cap = cap;
		std::vector<Bytes> exp; Bytes out;
		for (uint8_t b : conns[c]) if (r.feed(b, out)) exp.push_back(out);
		vf_count("overlong", r.overlong); vf_count("resyncs", r.resync);
		if (r.overlong || r.resync) nontriv = true;
		size_t stop = vf_chance(20) ? vf_below(6) : SIZE_MAX; // stopped in between: nothing of this connection may reach the next one
		for (size_t i = 0;; ++i) {
			if (i == stop && i < exp.size()) { vf_count("stopped_early", 1); pos = conns[c].size(); break; }
			uint8_t * buf = (uint8_t *)malloc(cap); // exact size: any excess is an ASan report
			size_t l = TRIMBLE_PARSER_getFrame(buf, cap);
			if (!l) {
				free(buf);
				VF_CHECK(i == exp.size(), "lost", "connection %u: %zu packets returned, %zu expected; stream %s; next %s", c, i, exp.size(),
					vf_hex(conns[c].data(), conns[c].size()), vf_hex(exp[i].data(), exp[i].size()));
				break;
			}
			VF_CHECK(i < exp.size(), "invented", "connection %u: packet %s is not in the stream %s", c, vf_hex(buf, l), vf_hex(conns[c].data(), conns[c].size()));
			VF_CHECK(l == exp[i].size() && !memcmp(buf, exp[i].data(), l), "content", "connection %u packet %zu: %s instead of %s; stream %s", c, i, vf_hex(buf, l),
				vf_hex(exp[i].data(), exp[i].size()), vf_hex(conns[c].data(), conns[c].size()));
			free(buf);
			++got; nontriv = true;
		}
		VF_CHECK(pos == conns[c].size(), "early", "gave up before the end of the stream");
		if (vf_chance(50)) TRIMBLE_PARSER_disconnect();
	}
	vf_count("eval", 1); vf_count("packets", got); vf_count("connections", nc);
	if (nontriv) { vf_distinct(h); if (vf_want_sample()) vf_sample("cap %zu, %u connections, %lu packets, first stream %s", cap, nc, got, vf_hex(conns[0].data(), conns[0].size() < 80 ? conns[0].size() : 80)); }
}

// ---- C20
static Bytes sent; static unsigned nsent; static bool netOk;
extern "C" bool NET_send(const void * b, size_t n) { sent.assign((const uint8_t *)b, (const uint8_t *)b + n); ++nsent; return netOk; }
struct Component NET_dummy;
extern "C" const struct Component NET_comp = { };

static Ref ref; static bool has; static double want[3]; static size_t fed;
static unsigned published, refused, checks;
static const double R2D = 180.0 / 3.14159265358979323846;

static double be_double(const uint8_t * p) { uint64_t v = 0; for (int i = 0; i < 8; ++i) v = v << 8 | p[i]; double d; memcpy(&d, &v, 8); return d; }
static bool same(double a, double b)
{
	if (memcmp(&a, &b, 8) == 0 || (isnan(a) && isnan(b))) return true;
	if (isinf(a) || isinf(b)) return a == b || (fabs(a) > 1.7e308 && fabs(b) > 1.7e308);
	return fabs(a - b) <= 1e-12 * fmax(fabs(a), fabs(b)) || fabs(a - b) < 1e-300; // last-bit freedom in the conversion
}
static void apply(const Bytes & p)
{
	if (p.size() != 69 || p[0] != 0x8f || p[1] != 0xac) return;
	const uint8_t * b = p.data() + 1;
	unsigned crit = b[8] << 8 | b[9], minor = b[10] << 8 | b[11];
	bool ok = b[1] == 7 && b[2] == 0 && crit == 0 && !(minor & (1 << 5)) && !(minor & (1 << 8)) && b[12] == 0;
	if (ok) { has = true; want[0] = be_double(b + 36) * R2D; want[1] = be_double(b + 44) * R2D; want[2] = be_double(b + 52); ++published; }
	else ++refused;
	vf_trace("status packet: mode %u disc %u crit %04x minor %04x decode %02x -> %s", b[1], b[2], crit, minor, b[12], ok ? "publish" : "ignore");
}
static void observe(void)
{
	// everything fed so far has been consumed when the next read is made
	Bytes out;
	while (fed < pos) if (ref.feed(conns[conn - 1][fed++], out)) apply(out);
	++checks;
	nsent = 0; netOk = true;
	bool rc = GPS_sendPosition();
	VF_CHECK(rc, "send", "GPS_sendPosition failed although the network is fine");
	VF_CHECK(nsent == (has ? 1u : 0u), "published", "position is %s but %s expected (connection %zu offset %zu)", nsent ? "published" : "not published", has ? "it is" : "it is not", conn, pos);
	GPS_resetNeedFlag();
	if (!has) return;
	Bytes d; size_t i = 2;
	VF_CHECK(sent.size() >= 26 && sent[0] == 0x1a && sent[1] == '7', "message", "bad position message %s", vf_hex(sent.data(), sent.size()));
	for (; i < sent.size(); ++i) { d.push_back(sent[i]); if (sent[i] == 0x1a) { ++i; VF_CHECK(i < sent.size() && sent[i] == 0x1a, "message", "lone escape"); } }
	VF_CHECK(d.size() == 24, "message", "position of %zu bytes", d.size());
	for (int k = 0; k < 3; ++k)
		VF_CHECK(same(be_double(&d[k * 8]), want[k]), "value", "component %d is %.17g instead of %.17g", k, be_double(&d[k * 8]), want[k]);
}
static void onRead(void)
{
	if (pos == 0) { // new connection: nothing may be published until the unit says so
		if (!fed || fed) { ref = Ref(); ref.cap = 1024; fed = 0; has = false; }
	}
	observe();
}
static bool allRead;
static void finished(void)
{
	allRead = true; pthread_exit(NULL);
}
static void * body(void *) { vf_thread_seed(1); TRIMBLE_comp.onConstruct(); TRIMBLE_comp.main(); return NULL; }

static double rnd_double(void)
{
	switch (vf_below(6)) {
	case 0: { uint64_t v = vf_rnd(); double d; memcpy(&d, &v, 8); return d; }
	case 1: return 0.0;
	case 2: return -0.0;
	default: return ((double)vf_range(-3141592, 3141592)) / 1e6;
	}
}
static void putd(Bytes & p, size_t at, double d) { uint64_t v; memcpy(&v, &d, 8); for (int i = 0; i < 8; ++i) p[at + i] = v >> (56 - 8 * i); }
static Bytes status_packet(void)
{
	Bytes p(69);
	for (auto & b : p) b = vf_rnd();
	p[0] = 0x8f; p[1] = 0xac;
	uint8_t * b = p.data() + 1;
	b[1] = 7; b[2] = 0; b[8] = b[9] = 0; b[12] = 0;
	unsigned minor = vf_rnd() & 0xffff & ~(1u << 5 | 1u << 8);
	if (vf_chance(45)) switch (vf_below(8)) {
	case 0: b[1] = vf_chance(50) ? vf_below(8) : vf_rnd(); break;
	case 1: b[2] = vf_chance(50) ? vf_below(8) : vf_rnd(); break;
	case 2: b[8] = 1 << vf_below(8); break;
	case 3: b[9] = 1 << vf_below(8); break;
	case 4: minor |= 1 << 5; break;
	case 5: minor |= 1 << 8; break;
	case 6: b[12] = vf_chance(50) ? vf_below(0x12) : vf_rnd(); break;
	default: b[1] = vf_rnd(); b[2] = vf_below(3); minor = vf_rnd(); b[12] = vf_below(3); b[9] = vf_below(2); break;
	}
	b[10] = minor >> 8; b[11] = minor;
	putd(p, 1 + 36, rnd_double()); putd(p, 1 + 44, rnd_double()); putd(p, 1 + 52, rnd_double() * 1000);
	if (vf_chance(8)) p[0] = vf_chance(50) ? 0x8e : 0x46;
	if (vf_chance(8)) p[1] = vf_chance(50) ? 0xab : vf_rnd();
	if (vf_chance(10)) p.resize(vf_chance(50) ? 68 : vf_range(1, 68));
	else if (vf_chance(6)) p.resize(vf_chance(50) ? 70 : vf_range(70, 1020));
	return p;
}
static void case_pos(void)
{
	conns.clear(); conn = 0; pos = 0; cfgFail.clear(); fed = 0; has = false; published = refused = checks = 0;
	atRead = onRead; segMode = vf_below(4);
	unsigned nc = vf_range(1, 4);
	uint64_t h = 1;
	for (unsigned c = 0; c < nc; ++c) {
		Bytes s;
		unsigned np = vf_below(14);
		for (unsigned i = 0; i < np; ++i) {
			if (vf_chance(8)) garbage(s);
			if (vf_chance(80)) put(s, status_packet()); else wire_packet(s, 1024);
		}
		h = vf_hash(s.data(), s.size(), h);
		conns.push_back(s);
	}
	// left over from whatever was before: a fix of another source
	if (vf_chance(50)) { netOk = true; GPS_setPositionWithFix(1, 2, 3); }
	pthread_t t; void * r; allRead = false;
	if (pthread_create(&t, NULL, body, NULL)) { vf_inconclusive("no thread"); return; }
	pthread_join(t, &r); VF_CHECK(allRead, "receiver-ended", "the GPS receiver loop ended by itself (connection %zu of %u, offset %zu)", conn, nc, pos);
	vf_count("eval", 1); vf_count("published", published); vf_count("refused", refused); vf_count("observations", checks);
	vf_count("connections", nc);
	if (published && refused) { vf_distinct(h); if (vf_want_sample()) vf_sample("%u connections, %u positions published, %u status packets refused, %u observations", nc, published, refused, checks); }
}
void vf_init(void) { mode = vf_opt("mode", 0); log_stub_trace = 0; }
void vf_case(uint64_t) { if (mode) case_pos(); else case_frames(); }
