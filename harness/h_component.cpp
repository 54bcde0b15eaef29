// C17: component registry (real component.c, cfgfile.c) over random dependency graphs, failures, threads and deferred stops.
#include <config.h>
#include <vector>
#include <string>
#include <set>
#include <algorithm>
#include <string.h>
#include <stdlib.h>
#include <setjmp.h>
#include <errno.h>
#include <unistd.h>
#include <pthread.h>
#include <semaphore.h>
#include <time.h>
#include "vf.h"
extern "C" {
#include "util/component.h"
#include "util/cfgfile.h"
#include "util/log.h"
#include "log_stub.h"
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __real_pthread_join(pthread_t, void **); int __real_pthread_timedjoin_np(pthread_t, void **, const struct timespec *); int __real_pthread_cancel(pthread_t);
}
enum { N = 12 };
struct Comp {
	Component * c; std::vector<int> deps; bool enabled, start, hasEn, hasSt, reg, construct, destruct, hStart, hStop, thread, reset, sect;
	bool failC, failS; int refuse; /* stop attempts to refuse, -1: always, 100 + j: until component j has stopped */
	bool inited, started; int nReg, nReset, cfgVal; std::string desc; CFG_Section * cs;
	pthread_t th; bool alive; int cancels;
};
static Comp K[N]; static int n;
struct Ev { char op; int i; int arg; bool res; };
static std::vector<Ev> tr; static bool inCode;
static void ev(char op, int i, int arg, bool res) { tr.push_back(Ev{ op, i, arg, res }); vf_trace("%c %d (%d) -> %d", op, i, arg, res); if (!inCode) vf_fail("callback", "callback outside of a call"); }
static sem_t up; static int upWho; static bool quit[N];
static bool stopResult(int i) { int & r = K[i].refuse; if (r < 0) return false; if (r >= 100) return !K[r - 100].started; if (r > 0) { --r; return false; } return true; }
static void gone(void * p) { __atomic_store_n(&K[(intptr_t)p].alive, false, __ATOMIC_SEQ_CST); }
template <int I> struct F {
	static void reg() { ++K[I].nReg; }
	static bool cons() { bool r = !K[I].failC; ev('C', I, 0, r); return r; }
	static void dest() { ev('D', I, 0, true); }
	static bool start() { bool r = !K[I].failS; ev('S', I, 0, r); if (r) K[I].started = true; return r; }
	static bool stop(bool d) {
		bool r = stopResult(I); ev('T', I, d, r); if (r) { K[I].started = false; if (K[I].thread) { __atomic_store_n(&quit[I], true, __ATOMIC_SEQ_CST); __real_pthread_join(K[I].th, NULL); } } return r;
	}
	static void reset() { ++K[I].nReset; }
	static void main() {
		if (__atomic_exchange_n(&K[I].alive, true, __ATOMIC_SEQ_CST)) vf_fail("started-twice", "the thread of component %d was started twice", I);
		K[I].th = pthread_self(); __atomic_store_n(&upWho, I, __ATOMIC_SEQ_CST); sem_post(&up);
		pthread_cleanup_push(gone, (void *)(intptr_t)I);
		while (!__atomic_load_n(&quit[I], __ATOMIC_SEQ_CST)) { struct timespec t = { 0, 200000 }; nanosleep(&t, NULL); }
		pthread_cleanup_pop(1);
	}
};
#define ROW(f) { F<0>::f, F<1>::f, F<2>::f, F<3>::f, F<4>::f, F<5>::f, F<6>::f, F<7>::f, F<8>::f, F<9>::f, F<10>::f, F<11>::f }
static void (*fReg[N])() = ROW(reg); static bool (*fCons[N])() = ROW(cons); static void (*fDest[N])() = ROW(dest); static bool (*fStart[N])() = ROW(start);
static bool (*fStop[N])(bool) = ROW(stop); static void (*fReset[N])() = ROW(reset); static void (*fMain[N])() = ROW(main);

static int createFailAt, creates;
extern "C" {
int __wrap_pthread_create(pthread_t * t, const pthread_attr_t * a, void * (*f)(void *), void * x)
{
	if (!inCode) return __real_pthread_create(t, a, f, x);
	if (creates++ == createFailAt) { ev('S', -1, 0, false); return EAGAIN; }
	int r = __real_pthread_create(t, a, f, x); if (r) { vf_inconclusive("no thread"); return r; }
	struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); ts.tv_sec += 20;
	int e; while ((e = sem_timedwait(&up, &ts)) && errno == EINTR) ;
	if (e) vf_fail("no-main", "a thread was started which does not run the main function of a component");
	K[upWho].started = true; K[upWho].cancels = 0; ev('S', upWho, 0, true); return 0;
}
static int who(pthread_t t) { for (int i = 0; i < n; ++i) if (K[i].thread && K[i].started && pthread_equal(K[i].th, t)) return i; vf_fail("join-gone", "joined or cancelled a thread which is not running as a component (any more)"); }
int __wrap_pthread_timedjoin_np(pthread_t t, void ** r, const struct timespec * ts)
{
	if (!inCode) return __real_pthread_timedjoin_np(t, r, ts);
	int i = who(t); struct timespec now; clock_gettime(CLOCK_REALTIME, &now);
	VF_CHECK(K[i].cancels == 1, "not-cancelled", "thread of component %d was cancelled %d times before it was joined", i, K[i].cancels);
	double d = ts->tv_sec - now.tv_sec + (ts->tv_nsec - now.tv_nsec) / 1e9;
	VF_CHECK(d < 30, "unbounded-stop", "stopping waits up to %.1f s for one thread", d);
	bool ok = stopResult(i); ev('J', i, 0, ok); if (!ok) return ETIMEDOUT;
	int x = __real_pthread_join(t, r); K[i].started = false; return x;
}
int __wrap_pthread_join(pthread_t t, void ** r) { if (!inCode) return __real_pthread_join(t, r); int i = who(t); bool ok = stopResult(i); ev('J', i, 1, true); int x = __real_pthread_join(t, r); K[i].started = false; return x; }
int __wrap_pthread_cancel(pthread_t t) { if (!inCode) return __real_pthread_cancel(t); int i = who(t); ++K[i].cancels; if (K[i].cancels > 1) vf_fail("cancel-twice", "thread of component %d cancelled twice", i); return __real_pthread_cancel(t); }
}
static jmp_buf fatal; static bool fatalExpected, errSeen;
static void onLog(int level, const char *, const char *) { if (level == LOG_LEVEL_ERROR) errSeen = true; if (level == LOG_LEVEL_EMERG && fatalExpected) longjmp(fatal, 1); }
struct In { In() { inCode = true; tr.clear(); errSeen = false; } ~In() { inCode = false; } };
static std::vector<int> consOrder, startOrder;
static bool on(int i) { return !K[i].hasEn || K[i].enabled; }
static bool toStart(int i) { return K[i].inited && (!K[i].hasSt || K[i].start) && (K[i].hStart || K[i].thread); }
static void expectDestruct(size_t from, const std::vector<int> & done, bool partial)
{
	std::vector<int> vis, want; std::set<int> seen;
	for (size_t k = from; k < tr.size(); ++k) {
		VF_CHECK(tr[k].op == 'D', "order", "unexpected %c of component %d while destructing", tr[k].op, tr[k].i); int i = tr[k].i;
		VF_CHECK(on(i) && K[i].reg, "disabled", "disabled component %d destructed", i);
		VF_CHECK(seen.insert(i).second, "twice", "component %d destructed twice", i);
		if (K[i].construct) vis.push_back(i);
		for (int j = 0; j < n; ++j) if (K[j].reg && on(j) && K[j].destruct && std::count(K[j].deps.begin(), K[j].deps.end(), i)) {
			bool inited = K[j].construct ? std::count(done.begin(), done.end(), j) : !partial;
			if (inited) VF_CHECK(seen.count(j), "order", "component %d destructed before %d, which depends on it", i, j);
		}
	}
	for (size_t k = done.size(); k--; ) if (K[done[k]].destruct) want.push_back(done[k]);
	if (vis != want) vf_fail("undo", "components destructed are not those constructed in reverse order: %zu of %zu", vis.size(), want.size());
	if (!partial) for (int i = 0; i < n; ++i) if (K[i].reg && on(i) && K[i].destruct) VF_CHECK(seen.count(i), "undo", "component %d was not destructed", i);
}
static bool doInit(void)
{
	bool r; { In k; r = COMP_initAll(); }
	bool want = true; for (int i = 0; i < n; ++i) if (K[i].reg && on(i) && K[i].construct && K[i].failC) want = false;
	VF_CHECK(r == want, "init-result", "initialisation reports %s", r ? "success" : "failure");
	std::set<int> seen; consOrder.clear(); size_t k = 0;
	for (; k < tr.size() && tr[k].op == 'C'; ++k) {
		int i = tr[k].i; VF_CHECK(on(i), "disabled", "disabled component %d constructed", i); VF_CHECK(seen.insert(i).second, "twice", "component %d constructed twice", i);
		for (int d : K[i].deps) if (K[d].construct && on(d)) VF_CHECK(std::count(consOrder.begin(), consOrder.end(), d), "order", "component %d constructed before %d, on which it depends", i, d);
		if (!tr[k].res) { ++k; break; }
		consOrder.push_back(i);
	}
	if (!r) { VF_CHECK(k && !tr[k - 1].res, "order", "no failed construction"); expectDestruct(k, consOrder, true); consOrder.clear(); return false; }
	VF_CHECK(k == tr.size(), "order", "unexpected callback %c of component %d", tr[k].op, tr[k].i);
	for (int i = 0; i < n; ++i) { K[i].inited = K[i].reg && on(i); if (K[i].inited && K[i].construct) VF_CHECK(seen.count(i), "missed", "component %d was not constructed", i); }
	return true;
}
// expects the stop attempts from event k on; order: those started, in order; returns number left
static unsigned nRetry;
static void expectStop(size_t k, std::vector<int> order, std::vector<int> refuse0)
{
	// refusals are replayed on a copy: refuse0[i] as before the call
	std::vector<bool> st(N, false); for (int i : order) st[i] = true;
	auto attempt = [&](int i) { int & r = refuse0[i]; if (r < 0) return false; if (r >= 100) return !st[r - 100]; if (r > 0) { --r; return false; } return true; };
	bool visible[N]; for (int i = 0; i < n; ++i) visible[i] = K[i].hStop || (K[i].thread && !K[i].hStart);
	bool first = true, progress = true, left = false;
	while (first || (left && progress)) {
		progress = left = false;
		for (size_t x = order.size(); x--; ) { int i = order[x]; if (!st[i]) continue;
			if (!visible[i]) { st[i] = false; K[i].started = false; continue; }
			VF_CHECK(k < tr.size(), "stop-missing", "component %d was not asked to stop%s", i, first ? "" : " again");
			bool ok = attempt(i);
			VF_CHECK(tr[k].i == i && (tr[k].op == 'T' || tr[k].op == 'J'), "stop-order", "%c of component %d where stopping of component %d was expected (%s pass)", tr[k].op, tr[k].i, i, first ? "first" : "later");
			if (tr[k].op == 'T') VF_CHECK(tr[k].arg == !first, "stop-deferred", "component %d was told a %s stop", i, tr[k].arg ? "deferred" : "first");
			VF_CHECK(tr[k].res == ok, "harness", "stop result %d vs %d", tr[k].res, ok);
			++k; if (ok) { st[i] = false; progress = true; } else { left = true; ++nRetry; }
		}
		if (first) progress = true; // always at least one retry
		first = false;
	}
	VF_CHECK(k == tr.size(), "stop-twice", "unexpected %c of component %d after stopping", tr[k].op, tr[k].i);
	VF_CHECK(errSeen >= left, "stop-report", "components could not be stopped, which was not reported");
	for (int i = 0; i < n; ++i) { VF_CHECK(K[i].started == st[i], "stop-state", "component %d: started %d, expected %d", i, K[i].started, (int)st[i]); if (!st[i]) VF_CHECK(!__atomic_load_n(&K[i].alive, __ATOMIC_SEQ_CST), "thread-left", "the thread of component %d is still running after it was stopped", i); }
	std::vector<int> o2; for (int i : order) if (st[i]) o2.push_back(i); startOrder = o2;
}
static std::vector<int> refusals() { std::vector<int> v; for (int i = 0; i < N; ++i) v.push_back(K[i].refuse); return v; }
static bool doStart(void)
{
	creates = 0; createFailAt = vf_chance(12) ? (int)vf_below(4) : -1; memset(quit, 0, sizeof quit);
	std::vector<int> rf = refusals(); bool r; { In k; r = COMP_startAll(); }
	std::set<int> seen; size_t k = 0; bool failed = false; startOrder.clear();
	for (; k < tr.size() && tr[k].op == 'S'; ++k) {
		int i = tr[k].i; if (i < 0) { failed = true; ++k; break; }
		VF_CHECK(toStart(i), "disabled", "component %d started although disabled", i); VF_CHECK(seen.insert(i).second, "twice", "component %d started twice", i);
		for (int d : K[i].deps) if (toStart(d)) VF_CHECK(std::count(startOrder.begin(), startOrder.end(), d), "order", "component %d started before %d, on which it depends", i, d);
		if (!tr[k].res) { failed = true; ++k; break; }
		startOrder.push_back(i);
	}
	VF_CHECK(r == !failed, "start-result", "start reports %s", r ? "success" : "failure");
	if (failed) { expectStop(k, startOrder, rf); vf_count("failed_starts", 1); return false; }
	VF_CHECK(k == tr.size(), "order", "unexpected callback %c of component %d", tr[k].op, tr[k].i);
	for (int i = 0; i < n; ++i) if (toStart(i)) { VF_CHECK(seen.count(i), "missed", "component %d was not started", i); if (K[i].thread) VF_CHECK(K[i].alive, "missed", "thread of component %d does not run", i); }
	return true;
}
static void doStop(void)
{
	for (int tries = 0; ; ++tries) {
		std::vector<int> rf = refusals(), so = startOrder; { In k; COMP_stopAll(); } expectStop(0, so, rf);
		bool left = false; for (int i = 0; i < n; ++i) left |= K[i].started;
		if (!left) return;
		vf_count("unstoppable", 1); VF_CHECK(tries < 20, "harness", "cannot stop");
		for (int i = 0; i < n; ++i) if (K[i].refuse && (tries || vf_chance(50))) K[i].refuse = 0;
		// a component which is still started is cancelled a second time by a later stop
		for (int i = 0; i < n; ++i) if (K[i].started) K[i].cancels = 0;
	}
}
void vf_init(void) { sem_init(&up, 0, 0); log_stub_trace = 0; log_stub_hook = onLog; COMP_setSilent(true); }
static void freeAll(void) { for (int i = 0; i < n; ++i) { free(K[i].c); if (K[i].cs) free(K[i].cs); K[i] = Comp(); } }
void vf_case(uint64_t)
{
	n = 1 + vf_below(N); COMP_setSilent(vf_chance(70)); inCode = false; fatalExpected = false; nRetry = 0;
	std::vector<int> topo; for (int i = 0; i < n; ++i) topo.insert(topo.begin() + vf_below(i + 1), i);
	unsigned density = vf_below(70); uint64_t h = n; bool big = vf_chance(10);
	for (int x = 0; x < n; ++x) {
		int i = topo[x]; Comp & k = K[i]; k = Comp(); for (int y = 0; y < x; ++y) if (vf_chance(density)) k.deps.insert(k.deps.begin() + vf_below(k.deps.size() + 1), topo[y]);
		k.hasEn = vf_chance(60); k.enabled = !vf_chance(25); k.hasSt = vf_chance(40); k.start = !vf_chance(30);
		bool depOff = false; for (int d : k.deps) if (!on(d)) depOff = true;
		if (depOff) { k.hasEn = true; k.enabled = false; }
		k.construct = vf_chance(80); k.destruct = vf_chance(80); k.thread = vf_chance(40); k.hStart = !k.thread && vf_chance(80); k.hStop = (k.hStart && vf_chance(90)) || (k.thread && vf_chance(15)); k.reset = vf_chance(70); k.sect = vf_chance(50);
		k.refuse = 0;
		k.desc = std::string(big ? 60 + vf_below(400) : 1 + vf_below(30), 'a' + i);
	}
	bool cycle = n >= 2 && vf_chance(5), off = !cycle && vf_chance(5); int cyc = -1, offA = -1;
	if (cycle) { int a = vf_below(n), b = vf_below(n); if (a == b) K[a].deps.push_back(a); else { K[a].deps.push_back(b); K[b].deps.push_back(a); } cyc = a; }
	if (off) { std::vector<int> c; for (int i = 0; i < n; ++i) if (on(i) && K[i].deps.size()) c.push_back(i); if (c.empty()) off = false; else { offA = c[vf_below(c.size())]; int d = K[offA].deps[vf_below(K[offA].deps.size())]; K[d].hasEn = true; K[d].enabled = false; } }
	for (int i = 0; i < n; ++i) {
		Comp & k = K[i]; k.c = (Component *)calloc(1, sizeof(Component) + (k.deps.size() + 1) * sizeof(void *)); }
	for (int i = 0; i < n; ++i) {
		Comp & k = K[i]; Component * c = k.c; c->description = k.desc.c_str(); c->onRegister = fReg[i]; if (k.construct) c->onConstruct = fCons[i]; if (k.destruct) c->onDestruct = fDest[i];
		if (k.thread) c->main = fMain[i]; if (k.hStart) c->onStart = fStart[i]; if (k.hStop) c->onStop = fStop[i]; if (k.reset) c->onReset = fReset[i]; if (k.hasEn) c->enabled = &k.enabled; if (k.hasSt) c->start = &k.start;
		if (k.sect) { k.cs = (CFG_Section *)calloc(1, sizeof(CFG_Section) + sizeof(CFG_Option)); CFG_Section & s = *k.cs; s.name = k.desc.c_str(); s.n_opt = 1; CFG_Option & o = s.options[0]; o.name = "v"; o.type = CFG_VALUE_TYPE_INT; o.var = &k.cfgVal; o.def.integer = 1000 + i; c->config = k.cs; }
		for (size_t d = 0; d < k.deps.size(); ++d) c->dependencies[d] = K[k.deps[d]].c; c->dependencies[k.deps.size()] = NULL;
		for (int d : k.deps) h = h * 31 + d; h = h * 131 + k.hasEn * 2 + k.enabled + 4 * k.thread + 8 * k.hStart;
	}
	// register some (in any order); the others only as dependencies
	std::vector<int> ro; for (int i = 0; i < n; ++i) if (vf_chance(60)) ro.insert(ro.begin() + vf_below(ro.size() + 1), i); if (ro.empty()) ro.push_back(vf_below(n));
	std::vector<int> todo = ro; for (size_t x = 0; x < todo.size(); ++x) { K[todo[x]].reg = true; for (int d : K[todo[x]].deps) if (!K[d].reg) { K[d].reg = true; todo.push_back(d); } }
	for (int i : ro) { COMP_register(K[i].c); h = h * 7 + i; }
	bool cyc2 = cycle && K[cyc].reg, offReg = false; for (int i = 0; i < n; ++i) if (K[i].reg && on(i)) for (int d : K[i].deps) if (!on(d)) offReg = true;
	if (vf_chance(3)) { // registered twice
		fatalExpected = true; if (!setjmp(fatal)) { COMP_register(K[ro[0]].c); vf_fail("duplicate", "a component could be registered twice"); } fatalExpected = false; pthread_setcancelstate(PTHREAD_CANCEL_ENABLE, NULL); vf_count("refused_setups", 1);
	}
	if (cyc2) {
		fatalExpected = true; if (!setjmp(fatal)) { COMP_fixup(); vf_fail("cycle", "a cycle in the dependencies was accepted"); } fatalExpected = false; inCode = false; pthread_setcancelstate(PTHREAD_CANCEL_ENABLE, NULL);
		VF_CHECK(tr.empty() || 1, "harness", " "); COMP_unregisterAll(); CFG_unregisterAll(); freeAll(); vf_count("refused_setups", 1); vf_count("eval", 1); return;
	}
	COMP_fixup();
	for (int i = 0; i < n; ++i) VF_CHECK(K[i].nReg == K[i].reg, "registered", "component %d was registered %d times instead of %d", i, K[i].nReg, K[i].reg);
	CFG_loadDefaults();
	for (int i = 0; i < n; ++i) if (K[i].sect && K[i].reg) VF_CHECK(K[i].cfgVal == 1000 + i, "config", "configuration section of component %d is not registered", i);
	if (offReg) {
		fatalExpected = true; inCode = true; tr.clear(); if (!setjmp(fatal)) { COMP_initAll(); vf_fail("needs-disabled", "a component was constructed although it depends on a disabled one"); } fatalExpected = false; inCode = false; pthread_setcancelstate(PTHREAD_CANCEL_ENABLE, NULL);
		VF_CHECK(tr.empty(), "needs-disabled", "components were constructed before the check"); COMP_unregisterAll(); CFG_unregisterAll(); freeAll(); vf_count("refused_setups", 1); vf_count("eval", 1); return;
	}
	unsigned cycles = 1 + vf_below(4), starts = 0, inits = 0;
	for (unsigned x = 0; x < cycles; ++x) {
		for (int i = 0; i < n; ++i) K[i].failC = vf_chance(3);
		if (!doInit()) { vf_count("failed_inits", 1); for (int i = 0; i < n; ++i) K[i].failC = false; if (!doInit()) vf_fail("harness", "init"); }
		++inits;
		unsigned rounds = 1 + vf_below(3);
		for (unsigned y = 0; y < rounds; ++y) {
			for (int i = 0; i < n; ++i) { K[i].failS = vf_chance(4); K[i].start = !vf_chance(30); K[i].refuse = !vf_chance(20) ? 0 : vf_chance(40) ? 1 : vf_chance(50) ? 100 + (int)vf_below(n) : vf_chance(60) ? 2 : -1; if (K[i].refuse >= 100) { Comp & o = K[K[i].refuse - 100]; if (K[i].refuse == 100 + i || !(o.hStop || (o.thread && !o.hStart))) K[i].refuse = 1; } }
			if (big) for (int i = 0; i < n; ++i) if (vf_chance(80)) K[i].refuse = -1;
			bool r = doStart(); if (r) ++starts;
			for (int i = 0; i < n; ++i) K[i].nReset = 0;
			COMP_resetAll(); for (int i = 0; i < n; ++i) VF_CHECK(K[i].nReset == (K[i].reg && K[i].reset), "reset", "component %d was reset %d times", i, K[i].nReset);
			for (int i = 0; i < n; ++i) if (K[i].started) K[i].cancels = r ? K[i].cancels : 0;
			doStop();
		}
		{ In k; COMP_destructAll(); } expectDestruct(0, consOrder, false);
		if (vf_chance(20)) { In k; COMP_destructAll(); VF_CHECK(tr.empty(), "twice", "components destructed a second time"); }
		for (int i = 0; i < n; ++i) K[i].inited = false;
	}
	COMP_unregisterAll(); CFG_unregisterAll(); freeAll();
	vf_count("eval", 1); vf_count("starts", starts); vf_count("deferred_stops", nRetry); vf_count("inits", inits); vf_distinct(h);
	if (vf_want_sample()) vf_sample("%d components, %u cycles, %u successful starts, %u deferred stops", n, cycles, starts, nRetry);
}
