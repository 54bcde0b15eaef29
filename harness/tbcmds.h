// C14: commands registered by the real main(), programs recorded, filter probed.
extern "C" {
#include "radarcape/fpga.h"
#include "radarcape/tb-misc.h"
int rc_main(int, char **);
static unsigned nReconf; void __wrap_INPUT_reconfigure(void) { ++nReconf; }
bool __wrap_COMP_initAll(void) { return true; }
bool __wrap_COMP_startAll(void) { return true; }
void __wrap_UTIL_waitSigInt(void) {}
void __wrap_COMP_stopAll(void) {}
void __wrap_COMP_destructAll(void) {}
int __wrap_SERIAL_ETH_getSerial(uint32_t * s) { if (s) *s = 1; return 3; }
void __wrap_NET_waitConnected(void) { HAR_waitConnected(); }
ssize_t __wrap_NET_receive(uint8_t * b, size_t n) { return HAR_receive(b, n); }
}
static char progName[] = "/verif-none/openskyd"; static bool black;
struct X { int minGen, maxGen; bool mustDaemon; std::vector<std::string> argv; };
static std::vector<X> wantX; static size_t nWantSeen;
extern "C" struct FILTER_Configuration FILTER_cfg;
static bool fSync, fExt, synced; static unsigned wantReconf;
static int planFork, forksUsed;
static bool stopNow;
void vf_init(void)
{
	px::init(); px::reset(); mode = vf_opt("mode", 2);
	log_stub_trace = 0;
	static char black_[] = "--black"; char * argv[] = { progName, black_, NULL }; int argc = 1;
#ifdef STANDALONE
	if (vf_opt("black", 0)) { argc = 2; black = true; }
#endif
	argv[argc] = NULL;
	if (rc_main(argc, argv)) vf_fail("main", "the daemon refuses to start");
	static const struct { unsigned t; size_t l; bool on; } T[] = {
#ifdef STANDALONE
		{ 0, 6, true }, { 1, 0, true },
#ifdef WITH_SYSTEMD
		{ 2, 0, true },
#endif
#ifdef WITH_PACMAN
		{ 3, 0, true },
#endif
#endif
		{ 4, 2, true } };
	static const size_t L[] = { 6, 0, 0, 0, 2, 4 };
	for (unsigned i = 0; i < TB_PACKET_TYPE_N; ++i) { plen[i] = L[i]; reg[i] = false; }
	for (auto & t : T) reg[t.t] = true;
}
static bool filterPasses(unsigned type, uint8_t first) { return FILTER_filter((OPENSKY_FRAME_TYPE)type, first); }
static void probe(const char * when)
{
	static const unsigned types[] = { OPENSKY_FRAME_TYPE_MODE_S_SHORT, OPENSKY_FRAME_TYPE_MODE_S_LONG, OPENSKY_FRAME_TYPE_MODE_AC };
	for (unsigned t : types) {
		uint8_t first = vf_chance(30) ? 17 << 3 : vf_chance(30) ? 18 << 3 : vf_rnd();
		bool w = (synced || !fSync) && t != OPENSKY_FRAME_TYPE_MODE_AC && (!fExt || first >> 3 == 17 || first >> 3 == 18);
		VF_CHECK(filterPasses(t, first) == w, "filter", "%s: frame type %u format %u is %s (settings: sync filter %d, squitter only %d, synchronised %d)", when, t, first >> 3, w ? "dropped" : "forwarded", fSync, fExt, synced);
	}
	VF_CHECK(FILTER_getConfiguration()->extSquitter == fExt && FILTER_getConfiguration()->sync == fSync, "settings", "%s: settings sync %d squitter %d instead of %d %d", when, FILTER_getConfiguration()->sync, FILTER_getConfiguration()->extSquitter, fSync, fExt);
	VF_CHECK(nReconf == wantReconf, "reconfigure", "%s: the receiver was reconfigured %u times instead of %u", when, nReconf, wantReconf);
}
static void planNext(void)
{
	px::reset();
	if (vf_chance(15)) px::sh->failFork = vf_below(3);
	if (vf_chance(10)) px::sh->failDaemon = 1;
	for (int i = 0; i < 8; ++i) { px::sh->execErr[i] = vf_chance(15) ? ENOENT : 0; px::sh->status[i] = vf_chance(40) ? 1 + vf_below(255) : 0; }
	wantX.clear();
}
static bool mayFork(int & k) { return k++ != px::sh->failFork; }
static void expectCmd(unsigned type, const Bytes & p)
{
	if (type == TB_PACKET_TYPE_FILTER) {
		++nFilter;
		uint8_t m = p[0], c = p[1];
		if (m & 1) fSync = c & 1;
		if (m & 2) { fExt = c & 2; ++wantReconf; }
		if (m & 0x80) synced = false;
		return;
	}
	nExec++;
	int k = forksUsed, e = px::sh->execs + wantX.size();
	switch (type) {
	case 0: {
		char a[40]; snprintf(a, sizeof a, "%u.%u.%u.%u:%u", p[0], p[1], p[2], p[3], p[4] << 8 | p[5]);
		if (mayFork(k) && !px::sh->failDaemon) wantX.push_back(X{ 1, 9, true, { "/usr/bin/rcc", "-t", ":22", "-r", a, "-n" } });
		break; }
	case 1:
		wantX.push_back(X{ 0, 0, false, { progName } });
		if (black) wantX.back().argv.push_back("--black");
		if (!px::sh->execErr[e & 7]) stopNow = true;
		break;
#ifdef WITH_SYSTEMD
	case 2: if (mayFork(k) && !px::sh->failDaemon) wantX.push_back(X{ 1, 9, true, { WITH_SYSTEMD "/systemctl", "reboot" } }); break;
#endif
	case 3: {
		if (!mayFork(k)) break;
		bool f1 = mayFork(k); if (!f1) break;
		wantX.push_back(X{ 2, 9, false, { "/usr/bin/pacman", "--noconfirm", "--needed", "-Sy", "openskyd", "rcc" } });
		bool ok = !px::sh->execErr[e & 7] && !px::sh->status[e & 7];
#ifdef WITH_SYSTEMD
		if (ok) {
			bool f2 = mayFork(k);
			if (f2) wantX.push_back(X{ 2, 9, false, { WITH_SYSTEMD "/systemctl", "daemon-reload" } });
			wantX.push_back(X{ 1, 9, false, { WITH_SYSTEMD "/systemctl", "restart", "openskyd" } });
		}
#endif
		(void)ok;
		break; }
	}
}
static void judge(const char * when)
{
	px::reap();
	VF_CHECK(!px::sh->returned, "child-returned", "%s: a child process went on in the daemon's own code", when);
	VF_CHECK(!px::sh->exits, "exit-handlers", "%s: a child process ended through the exit handlers of the daemon, which belong to the daemon", when);
	VF_CHECK(px::sh->n == (int)wantX.size(), "programs", "%s: %d programs were started instead of %zu; first %s", when, px::sh->n, wantX.size(), px::sh->n ? px::show(px::sh->rec[0]).c_str() : wantX[0].argv[0].c_str());
	for (size_t i = 0; i < wantX.size(); ++i) {
		const px::Rec & r = px::sh->rec[i]; const X & w = wantX[i];
		std::string e; for (auto & s : w.argv) e += s + " ";
		bool same = r.argc == (int)w.argv.size() && w.argv[0] == r.path;
		for (size_t j = 0; same && j < w.argv.size(); ++j) same = w.argv[j] == r.argv[j];
		VF_CHECK(same, "program", "%s: started %s instead of %s", when, px::show(r).c_str(), e.c_str());
		VF_CHECK(r.where >= w.minGen && r.where <= w.maxGen, "process", "%s: %s was started in process generation %d", when, r.path, r.where);
		VF_CHECK(!w.mustDaemon || r.daemonized, "not-detached", "%s: %s was not detached from the daemon", when, r.path);
		VF_CHECK(r.envc == 0, "environment", "%s: %s was given an environment", when, r.path);
	}
	VF_CHECK(!px::sh->nOpened || strstr(px::sh->opened, "/sys/fs/cgroup/") == px::sh->opened, "file", "%s: opened %s", when, px::sh->opened);
}
static void compareState(const char * when)
{
	px::inCaller();
	px::armed = false;
	judge(when); probe(when);
	if (vf_chance(25)) { synced = vf_chance(60); vf_trace("receiver reports synchronised %d", synced); FILTER_setSynchronized(synced); }
	planNext(); forksUsed = 0;
	px::armed = true;
}
static void setup(void)
{
	px::armed = false;
	fSync = vf_chance(50); fExt = vf_chance(50); synced = false; wantReconf = 0; stopNow = false;
	FILTER_cfg.sync = fSync; FILTER_cfg.extSquitter = fExt; FILTER_comp.onConstruct(); nReconf = 0;
	if (vf_chance(50)) { synced = true; FILTER_setSynchronized(true); }
	planNext(); forksUsed = 0;
}
static void teardown(void) { px::armed = false; }
