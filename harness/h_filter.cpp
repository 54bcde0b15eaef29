/* C04: filter decisions and counters against a model, over histories. */
#include "beastgen.h"
extern "C" {
#include "core/filter.h"
#include "core/input.h"
#include "util/cfgfile.h"
}
static bool mSync, mExt, mIsSync, mCrc;
static uint64_t reconf;
static struct FILTER_Statistics m;

extern "C" void INPUT_reconfigure()
{
	++reconf;
	VF_CHECK(FILTER_getConfiguration()->extSquitter == mExt, "reconfigure-before-set", "receiver told to reconfigure before the setting was in effect");
}
void vf_init() { CFG_registerSection(FILTER_comp.config); }

static void cmp(const char * when)
{
	struct FILTER_Statistics s;
	memset(&s, 0x5a, sizeof s);
	FILTER_getStatistics(&s);
#define F(f) VF_CHECK(s.f == m.f, "counter-" #f, "after %s: " #f " is %llu, expected %llu", when, (long long)s.f, (long long)m.f)
	F(filtered); F(modeSfiltered); F(unsynchronized); F(unknown);
	for (int i = 0; i < 4; ++i) F(framesByType[i]);
	for (int i = 0; i < 32; ++i) F(modeSByType[i]);
	const struct FILTER_Configuration * c = FILTER_getConfiguration();
	VF_CHECK(c->sync == mSync && c->extSquitter == mExt && c->crc == mCrc, "configuration",
		"after %s: sync %d ext %d crc %d, expected %d %d %d", when, c->sync, c->extSquitter, c->crc, mSync, mExt, mCrc);
}
void vf_case(uint64_t)
{
	CFG_loadDefaults();
	const struct FILTER_Configuration * c = FILTER_getConfiguration();
	VF_CHECK(c->sync && c->extSquitter && c->crc, "defaults", "defaults are not all on");
	mSync = vf_chance(50); mExt = vf_chance(50); mCrc = vf_chance(50);
	CFG_setBoolean("FILTER", "SyncFilter", mSync);
	CFG_setBoolean("FILTER", "ModeSExtSquitterOnly", mExt);
	CFG_setBoolean("FILTER", "CRC", mCrc);
	if (FILTER_comp.config->fix) FILTER_comp.config->fix(FILTER_comp.config);
	VF_CHECK(FILTER_comp.onConstruct(), "construct", "construct failed");
	mIsSync = false;
	FILTER_comp.onReset();
	memset(&m, 0, sizeof m);
	uint64_t h = mSync | mExt << 1;
	int n = vf_range(5, 120), acc = 0, rej = 0;
	vf_trace("sync %d ext %d", mSync, mExt);
	for (int i = 0; i < n; ++i) {
		int op = vf_below(20);
		const char * when = "frame";
		if (op == 0) { mSync = vf_chance(50); FILTER_setSynchronizedFilter(mSync); when = "setSynchronizedFilter"; }
		else if (op == 1) {
			mExt = vf_chance(50);
			uint64_t r = reconf;
			FILTER_setModeSExtSquitter(mExt); when = "setModeSExtSquitter";
			VF_CHECK(reconf > r, "no-reconfigure", "the receiver was not told about the new setting");
		} else if (op == 2) { FILTER_reset(); mIsSync = false; when = "reset"; }
		else if (op <= 4) { mIsSync = vf_chance(70); FILTER_setSynchronized(mIsSync); when = "setSynchronized"; }
		else if (op == 5) {
			if (vf_chance(20)) { FILTER_comp.onReset(); memset(&m, 0, sizeof m); when = "statistics reset"; }
			else if (vf_chance(20)) { FILTER_comp.onConstruct(); mIsSync = false; when = "construct"; }
		} else {
			int t = vf_chance(75) ? vf_range('2', '3') : vf_range('1', '4');
			uint8_t b = vf_chance(40) ? (uint8_t)((vf_chance(50) ? 17 : 18) << 3 | vf_below(8)) : (uint8_t)vf_rnd();
			unsigned df = b >> 3;
			bool ms = t == '2' || t == '3', pass = true;
			++m.framesByType[t - '1'];
			if (!mIsSync) ++m.unsynchronized;
			if (!mIsSync && mSync) { ++m.filtered; pass = false; }
			else if (!ms) { ++m.filtered; pass = false; }
			else {
				++m.modeSByType[df];
				if (mExt && df != 17 && df != 18) { ++m.filtered; ++m.modeSfiltered; pass = false; }
			}
			bool r = FILTER_filter((enum OPENSKY_FRAME_TYPE)t, b);
			VF_CHECK(r == pass, pass ? "dropped" : "forwarded", "type %c first byte %02x (DF %u) with sync filter %d, synchronised %d, ext filter %d: %s",
				t, b, df, mSync, mIsSync, mExt, r ? "forwarded" : "dropped");
			if (r) ++acc; else ++rej;
			h = vf_hash(&b, 1, h * 31 + t);
		}
		h = h * 33 + op;
		cmp(when);
		vf_count("checks", 1);
	}
	vf_count("eval", 1); vf_count("accepted", acc); vf_count("rejected", rej);
	if (acc && rej) vf_distinct(h);
	if (vf_want_sample() && acc && rej) vf_sample("%d operations: %d forwarded, %d dropped, final sync %d ext %d", n, acc, rej, mSync, mExt);
}
