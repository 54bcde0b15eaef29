/* C01/C02/C35: the receiver stream decoder against a byte-wise reference. */
#include "beastgen.h"
#include <stdlib.h>
#include <array>
#include <sanitizer/asan_interface.h>
extern "C" {
#include "core/input.h"
#include "core/filter.h"
#include "radarcape/rc-parser.h"
#include "radarcape/rc-input.h"
struct FILTER_Configuration FILTER_cfg;
}
#include "log_stub.h"

static std::vector<Bytes> conns;       /* one stream per connection */
static size_t conn, pos;
static int segMode;
static bool up, ended;
static uint8_t * pbuf; static size_t plen;
static std::vector<std::array<uint8_t, 3>> written;

static void unpoison() { if (pbuf) ASAN_UNPOISON_MEMORY_REGION(pbuf, plen); pbuf = NULL; }

extern "C" void RC_INPUT_register() {}
extern "C" void RC_INPUT_init() {}
extern "C" void RC_INPUT_disconnect() { up = false; }
extern "C" void RC_INPUT_connect()
{
	unpoison();
	VF_CHECK(conn < conns.size(), "harness", "connect beyond script");
	up = true; ended = false; pos = 0;
}
extern "C" size_t RC_INPUT_write(uint8_t * b, size_t n) { return n; }
extern "C" size_t RC_INPUT_read(uint8_t * buf, size_t len)
{
	unpoison();
	VF_CHECK(up && !ended, "read-after-loss", "read from a connection that was already reported lost");
	const Bytes & s = conns[conn];
	if (len == 0) vf_fail("zero-read", "reader asked for 0 bytes");
	if (pos >= s.size()) { ended = true; return 0; }
	size_t n;
	switch (segMode) {
	case 0: n = len; break;
	case 1: n = 1; break;
	case 2: n = vf_range(1, 4); break;
	case 3: n = vf_range(1, 40); break;
	case 4: n = vf_chance(50) ? 1 : len; break;
	case 5: { /* stop right after an escape byte */
		n = 1;
		while (pos + n < s.size() && n < len && s[pos + n - 1] != 0x1a) ++n;
		break; }
	case 6: { /* stop right before an escape byte */
		n = 1;
		while (pos + n < s.size() && n < len && s[pos + n] != 0x1a) ++n;
		break; }
	default: n = vf_range(1, len); break;
	}
	if (n > len) n = len;
	if (n > s.size() - pos) n = s.size() - pos;
	memcpy(buf, &s[pos], n);
	pos += n;
	/* bytes behind the delivered ones are not input: reading them is a bug */
	pbuf = buf + n; plen = len - n;
	/* poison granularity: keep to whole shadow granules */
	if (plen) ASAN_POISON_MEMORY_REGION(pbuf, plen); else pbuf = NULL;
	vf_count("reads", 1);
	return n;
}

void vf_init()
{
	log_stub_trace = 0;
	INPUT_comp.onConstruct();
}

void vf_case(uint64_t)
{
	conns.clear();
	unsigned garb = (unsigned[]){0, 10, 30, 60, 100}[vf_below(5)];
	size_t nc = vf_range(1, 4);
	Bytes all;
	for (size_t i = 0; i < nc; ++i) {
		Bytes s = gen_stream(vf_range(0, vf_chance(10) ? 3000 : 600), garb);
		if (vf_chance(50) && s.size()) s.resize(vf_below(s.size() + 1)); /* cut anywhere */
		conns.push_back(s);
		app(all, s);
	}
	vf_count("bytes", all.size());
	if (INPUT_comp.onReset) INPUT_comp.onReset();
	struct RC_PARSER_Statistics before, after;
	RC_PARSER_getStatistics(&before);
	VF_CHECK(!before.outOfSync && !before.frameTypeUnknown, "stats-reset", "counters survive a statistics reset");
	uint64_t oos = 0, unk = 0, frames = 0, hash = 0;
	for (conn = 0; conn < nc; ++conn) {
		segMode = vf_below(8);
		BeastRef ref;
		for (uint8_t b : conns[conn]) ref.feed(b);
		INPUT_connect();
		size_t k = 0, stop = vf_chance(20) ? vf_below(8) : SIZE_MAX; // stopped in between: nothing of this connection may reach the next one
		while (true) {
			if (k == stop && k < ref.out.size()) { BeastRef part; size_t i = 0; while (part.out.size() < k) part.feed(conns[conn][i++]); ref.oos = part.oos; ref.unk = part.unk; vf_count("stopped_early", 1); break; }
			struct OPENSKY_RawFrame * raw = (struct OPENSKY_RawFrame *)malloc(sizeof *raw);
			struct OPENSKY_DecodedFrame * dec = (struct OPENSKY_DecodedFrame *)malloc(sizeof *dec);
			memset(raw, 0xa5, sizeof *raw); memset(dec, 0x5a, sizeof *dec);
			bool ok = INPUT_getFrame(raw, dec);
			if (!ok) {
				free(raw); free(dec);
				VF_CHECK(ended, "false-loss", "connection loss reported at byte %zu of %zu though data follows", pos, conns[conn].size());
				VF_CHECK(k == ref.out.size(), "frame-lost", "%zu of %zu frames delivered; next expected %s; stream %s (segmentation %d)",
					k, ref.out.size(), vf_hex(ref.out[k].raw.data(), ref.out[k].raw.size()),
					vf_hex(conns[conn].data(), conns[conn].size()), segMode);
				break;
			}
			VF_CHECK(k < ref.out.size(), "frame-invented", "frame %s is not in the stream %s (segmentation %d)", vf_hex(raw->raw, raw->rawLen),
				vf_hex(conns[conn].data(), conns[conn].size()), segMode);
			const RefFrame & f = ref.out[k];
			VF_CHECK(raw->rawLen == f.raw.size() && !memcmp(raw->raw, f.raw.data(), f.raw.size()), "raw-differs",
				"frame %zu: raw %s, expected %s", k, vf_hex(raw->raw, raw->rawLen > 46 ? 46 : raw->rawLen), vf_hex(f.raw.data(), f.raw.size()));
			VF_CHECK(dec->frameType == f.type, "type-differs", "frame %zu: type %d, expected %d", k, dec->frameType, f.type);
			VF_CHECK(dec->mlat == f.mlat, "mlat-differs", "frame %zu: timestamp %llx, expected %llx", k, (long long)dec->mlat, (long long)f.mlat);
			VF_CHECK(dec->siglevel == f.level, "level-differs", "frame %zu: level %d, expected %d", k, dec->siglevel, f.level);
			VF_CHECK(dec->payloadLen == f.payload.size() && !memcmp(dec->payload, f.payload.data(), f.payload.size()), "payload-differs",
				"frame %zu: payload %s, expected %s", k, vf_hex(dec->payload, dec->payloadLen > 14 ? 14 : dec->payloadLen), vf_hex(f.payload.data(), f.payload.size()));
			hash = vf_hash(raw->raw, raw->rawLen, hash);
			free(raw); free(dec);
			++k;
		}
		INPUT_disconnect();
		oos += ref.oos; unk += ref.unk; frames += k;
		vf_count("connections", 1);
	}
	unpoison();
	RC_PARSER_getStatistics(&after);
	VF_CHECK(after.outOfSync == oos && after.frameTypeUnknown == unk, "stats-differ",
		"counted %llu losses of sync and %llu unknown types, expected %llu and %llu", (long long)after.outOfSync,
		(long long)after.frameTypeUnknown, (long long)oos, (long long)unk);
	vf_count("eval", 1);
	vf_count("frames", frames); vf_count("resyncs", oos); vf_count("unknown_types", unk);
	if (frames || oos) vf_distinct(vf_hash(all.data(), all.size(), segMode));
	if (vf_want_sample() && frames > 1 && oos)
		vf_sample("%zu connections, %llu frames, %llu resyncs, stream %.120s", nc, (long long)frames, (long long)oos, vf_hex(all.data(), all.size()));
}
