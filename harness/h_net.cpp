// C08 / C09: the real connection manager under concurrent senders, a receiver, a hostile server and stops.
#include "fakenet.h"
#include <stdio.h>
#include <map>
#include <string>
extern "C" {
#include "core/network.h"
#include "log_stub.h"
}
using fn::Bytes;
static long mode; // 0 delivery, 1 recovery
static uint64_t cseed; static int nG; static bool useCheck, tsan;
static std::atomic<bool> stopAll, gStop;
static std::atomic<uint64_t> okMsgs, failMsgs, okBytes, rxBytes, sessions, relogins, forced;
static std::atomic<int> sProgress, rConn, sConn;
struct Msg { int sender; uint32_t seq; Bytes data; bool ok; int fd; bool cancelled; };
static std::vector<Msg> msgs; // finished calls
static std::atomic<unsigned> woken;

// virtual seconds, and what each of them saw of them
static std::atomic<long> vt, since; static std::atomic<unsigned long> onlineWant; static std::atomic<bool> ticking;
static __thread long seenTime, seenFor, owesFor; static __thread bool owes;
extern "C" time_t __wrap_time(time_t * t)
{
	if (ticking) vt += inj_id ? inj_rnd() % 50 : 1;
	long v = 1000000 + vt;
	if (inj_id == 1) since = v; else { seenTime = v; seenFor = v - since; }
	if (t) *t = v;
	return v;
}
static void onShutdown(int fd) { if ((inj_id == 2 || inj_id == 3) && fn::fds[fd].state == 1) { owes = true; owesFor = 1000000 + vt - since; } }
struct Online { // around one call of the sending or receiving side: it may detect a loss and end the online time
	Online() { owes = false; seenTime = 0; if (ticking) vt += inj_rnd() % 500; }
	~Online() { if (!owes) return; onlineWant += seenTime ? seenFor : owesFor; /* the time should have been looked at */ vf_count("online_times", 1); owes = false; }
};
static Bytes make(int sender, uint32_t seq, size_t payload)
{
	Bytes m = { 0xf0, 'M', (uint8_t)sender, (uint8_t)(seq >> 24), (uint8_t)(seq >> 16), (uint8_t)(seq >> 8), (uint8_t)seq, (uint8_t)(payload >> 8), (uint8_t)payload };
	for (size_t i = 0; i < payload; ++i) m.push_back(fn::pat(sender * 1000003 + seq, i));
	return m;
}
struct Call { // what one NET_send handed to the kernel; survives cancellation
	Bytes b; std::set<int> f; int sender; uint32_t seq; const Bytes * m; bool done = false, ok = false;
	Call(int s, uint32_t q, const Bytes * mm) : sender(s), seq(q), m(mm) { fn::callBytes = &b; fn::callFds = &f; }
	~Call()
	{
		fn::callBytes = NULL; fn::callFds = NULL;
		VF_CHECK(f.size() <= 1, "two-connections", "one message went to %zu connections", f.size());
		if (ok) VF_CHECK(b == *m, "content", "message %d/%u reported as sent, but %zu of %zu bytes %s accepted", sender, seq, b.size(), m->size(), b.size() == m->size() ? "with other content" : "were");
		else VF_CHECK(b.size() < m->size() && std::equal(b.begin(), b.end(), m->begin()), "failed-content",
			"failed message %d/%u handed over %zu of %zu bytes%s", sender, seq, b.size(), m->size(), b.size() <= m->size() ? "" : " (more than the message)");
		fn::Lk l;
		if (!done && !b.empty()) { fn::Conn * c = fn::fds[*f.begin()].c; if (c->stopAt < 0 || fn::callStart < c->stopAt) c->stopAt = fn::callStart; }
		msgs.push_back(Msg{ sender, seq, *m, ok, f.empty() ? -1 : *f.begin(), !done });
	}
};
static __thread int lastFd; // connection of the last message of this session
static bool send_msg(int sender, uint32_t seq)
{
	size_t pl = inj_rnd() % 4 ? inj_rnd() % 60 : inj_rnd() % 600;
	Bytes m = make(sender, seq, pl);
	uint8_t * exact = (uint8_t *)malloc(m.size());
	memcpy(exact, m.data(), m.size());
	struct Free { void * p; ~Free() { free(p); } } fr{ exact };
	Call c(sender, seq, &m);
	bool ok; { Online o; ok = NET_send(exact, m.size()); }
	c.done = true; c.ok = ok;
	if (ok && !c.f.empty()) lastFd = *c.f.begin();
	if (ok) { okMsgs++; okBytes += m.size(); } else failMsgs++;
	return ok;
}
static bool check()
{
	bool gone = false; if (lastFd >= 0) { fn::Lk l; gone = fn::fds[lastFd].state != 1; }
	bool up; { Online o; up = NET_checkConnected(); }
	if (gone) { vf_count("stale_checks", 1); VF_CHECK(!up, "stale-connected", "the connection of the last message was given up, but it counts as still connected"); }
	if (!up && lastFd >= 0) { fn::Lk l; VF_CHECK(fn::fds[lastFd].state != 1, "gone-connected", "the connection counts as lost, but it is still in use"); }
	return up;
}
static void * sender(void *) // like the relay: the thread that owns the sending side
{
	inj_thread(2, cseed);
	uint32_t seq = 0;
	while (!stopAll) {
		NET_waitConnected();
		relogins++; lastFd = -1;
		while (!stopAll) {
			if (useCheck && inj_rnd() % 6 == 0) { if (!check()) break; }
			if (useCheck && inj_rnd() % 60 == 0 && !fn::calm) {
				forced++; { Online o; NET_forceDisconnect(); }
				if (lastFd >= 0) { fn::Lk l; VF_CHECK(fn::fds[lastFd].state != 1, "not-disconnected", "the connection of the last message is still in use after a forced disconnect"); }
				break;
			}
			if (!send_msg(2, seq++)) break;
			sProgress++;
			if (inj_rnd() % 4 == 0) fn::napC(inj_rnd() % 400);
		}
	}
	return NULL;
}
static void * gsender(void * a) // like position updates: sends whenever it likes
{
	int id = (int)(long)a; inj_thread(id, cseed);
	uint32_t seq = 0;
	while (!stopAll && !gStop) {
		send_msg(id, seq++);
		fn::napC(inj_rnd() % 600);
	}
	return NULL;
}
static void * receiver(void *)
{
	inj_thread(3, cseed);
	int last = -1;
	while (!stopAll) {
		NET_waitConnected();
		sessions++;
		int conn = -1; long off = 0;
		while (!stopAll) {
			uint8_t b[128]; size_t n = 1 + inj_rnd() % 128;
			std::set<int> f; fn::callFds = &f;
			struct Un { ~Un() { fn::callFds = NULL; } } un;
			uint8_t * x = (uint8_t *)malloc(n); struct Free { void * p; ~Free() { free(p); } } fr{ x };
			ssize_t r; { Online o; r = NET_receive(x, n); }
			VF_CHECK(r <= (ssize_t)n, "receive-length", "%zd bytes received into %zu", r, n);
			if (r <= 0) break;
			VF_CHECK(f.size() == 1, "receive-mixed", "one receive touched %zu connections", f.size());
			int c; { fn::Lk l; c = fn::fds[*f.begin()].c->id; }
			if (conn < 0) { VF_CHECK(c > last, "receive-old", "data of connection %d after that of %d", c, last); conn = last = c; }
			VF_CHECK(c == conn, "receive-mixed", "data of connection %d follows data of connection %d without a failure in between", c, conn);
			memcpy(b, x, r);
			for (ssize_t i = 0; i < r; ++i) VF_CHECK(b[i] == fn::pat(conn, off + i), "receive-content", "byte %ld of connection %d is wrong", off + i, conn);
			off += r; rxBytes += r; rConn = conn;
		}
	}
	return NULL;
}
static void * waiter(void *) { inj_thread(9, cseed); NET_waitConnected(); woken++; return NULL; }
static std::atomic<bool> netGone;
static void * netThread(void *) { inj_thread(1, cseed); NET_comp.main(); return NULL; }
static void * poller(void *) { inj_thread(8, cseed); while (!stopAll) { NET_Statistics s; NET_getStatistics(&s); usleep(200); } return NULL; }

static int refusePct, budget;
static fn::Plan mkplan(unsigned)
{
	fn::Plan p;
	p.patternTx = true; p.txBytes = inj_rnd() % 3 ? inj_rnd() % 400 : 0;
	if (fn::calm) { p.partial = 30; p.txBytes = 1000000000; return p; }
	if ((int)(inj_rnd() % 100) < refusePct) { p.accept = false; return p; }
	if (budget-- <= 0) { fn::calm = true; p.txBytes = 1000000000; return p; }
	p.partial = inj_rnd() % 2 ? inj_rnd() % 90 : 0;
	p.slow = inj_rnd() % 5 == 0;
	switch (inj_rnd() % 8) {
	case 0: p.failSend = inj_rnd() % 300; break;
	case 1: p.failRecv = inj_rnd() % 50; p.txBytes = 3000; break;
	default: break;
	}
	p.kill = (fn::Kill)(1 + inj_rnd() % 3);
	if (inj_rnd() % 2) p.killBytes = inj_rnd() % 600; 
	p.killUs = inj_rnd() % 4000 + (p.killBytes >= 0 ? 20000 : 0);
	return p;
}
static void parse(fn::Conn * c, std::map<std::pair<int, uint32_t>, const Msg *> & byId, unsigned long & whole, unsigned long & cut)
{
	const Bytes & s = c->rx;
	VF_CHECK(s.size() <= c->acc.size() && std::equal(s.begin(), s.end(), c->acc.begin()), "stream-order", "connection %d: the server saw other bytes than were accepted", c->id);
	size_t o = 0; std::map<int, long> last; bool cancelled = false;
	while (o < s.size()) {
		if ((long)o == c->stopAt) { ++cut; cancelled = true; break; } // its thread was stopped in the middle: the connection is about to be closed
		size_t left = s.size() - o;
		Bytes m; bool full = false;
		if (left >= 9 && s[o] == 0xf0 && s[o + 1] == 'M') {
			int snd = s[o + 2]; uint32_t seq = s[o + 3] << 24 | s[o + 4] << 16 | s[o + 5] << 8 | s[o + 6]; size_t pl = s[o + 7] << 8 | s[o + 8];
			m = make(snd, seq, pl);
			auto it = byId.find({ snd, seq });
			VF_CHECK(it != byId.end(), "alien-message", "connection %d offset %zu: message %d/%u was never sent", c->id, o, snd, seq);
			full = left >= m.size();
			size_t k = full ? m.size() : left;
			VF_CHECK(std::equal(m.begin(), m.begin() + k, s.begin() + o), "interleaved", "connection %d offset %zu: message %d/%u is damaged", c->id, o, snd, seq);
			if (full) {
				VF_CHECK(it->second->ok, "failed-but-delivered", "message %d/%u was delivered although its sending failed", snd, seq);
				VF_CHECK(fn::fds[it->second->fd].c == c, "wrong-connection", "message %d/%u on another connection", snd, seq);
				if (last.count(snd)) VF_CHECK(last[snd] < (long)seq, "order", "connection %d: message %d/%u after %d/%ld", c->id, snd, seq, snd, last[snd]);
				last[snd] = seq; ++whole;
			}
			o += k;
			if (!full) { ++cut; break; }
		} else {
			Bytes h = { 0xf0, 'M' };
			VF_CHECK(left < 9 && s[o] == 0xf0 && (left < 2 || s[o + 1] == 'M'), "garbage", "connection %d offset %zu: no message starts here: %s", c->id, o, vf_hex(&s[o], left < 30 ? left : 30));
			++cut; break;
		}
	}
	if (!c->lossy && !cancelled) { // the server read everything: all successful messages must be there
		unsigned long n = 0; for (auto & e : byId) if (e.second->ok && e.second->fd == c->cfd) ++n;
		unsigned long have = 0; for (auto & x : last) (void)x;
		size_t p = 0; while (p + 9 <= s.size()) { size_t len = 9 + (s[p + 7] << 8 | s[p + 8]); if (p + len > s.size()) break; ++have; p += len; }
		VF_CHECK(have == n, "lost", "connection %d: %lu messages reported as sent, %lu delivered", c->id, n, have);
	}
}
static bool joinFor(pthread_t t, unsigned ms, const char * who)
{
	timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
	ts.tv_sec += ms / 1000;
	if (pthread_timedjoin_np(t, NULL, &ts)) vf_fail("stop-hang", "thread %s does not end after cancellation", who);
	return true;
}
static bool statBase;
static NET_Statistics s0;
static void round_(unsigned rnd, uint64_t & h)
{
	stopAll = gStop = false; fn::plan = mkplan; okBytes = rxBytes = okMsgs = failMsgs = 0; sProgress = 0; rConn = -1; woken = 0; msgs.clear();
	if (!tsan) NET_getStatistics(&s0);
	onlineWant = 0; ticking = !tsan; fn::onShutdown = onShutdown;
	refusePct = vf_chance(50) ? vf_below(60) : 0; budget = mode == 1 ? vf_range(1, 8) : vf_range(1, 4);
	useCheck = nG == 0 && vf_chance(50);
	unsigned nW = vf_below(4);
	pthread_t n, s, r, g[3], w[4], po;
	bool earlyStop = vf_chance(25), poll = !tsan && vf_chance(50);
	for (unsigned i = 0; i < nW; ++i) pthread_create(&w[i], NULL, waiter, NULL);
	pthread_create(&n, NULL, netThread, NULL);
	bool late = vf_chance(20); if (late) usleep(vf_below(2000));
	pthread_create(&s, NULL, sender, NULL);
	pthread_create(&r, NULL, receiver, NULL);
	for (int i = 0; i < nG; ++i) pthread_create(&g[i], NULL, gsender, (void *)(long)(4 + i));
	if (poll) pthread_create(&po, NULL, poller, NULL);
	bool recovered = false;
	if (earlyStop) usleep(vf_below(6000));
	else {
		// the server becomes well-behaved: the client has to recover
		uint64_t t0 = vf_now_ns();
		while (!fn::calm) {
			usleep(300); vf_tick();
			if (vf_now_ns() - t0 > 60ull * 1000000000) vf_fail("stuck", "no further connection attempt is made: %u attempts, %zu connections", (unsigned)fn::attempts, fn::conns.size());
		}
		int sp = sProgress, conn = -1; t0 = vf_now_ns();
		while (true) {
			fn::Conn * c = fn::current();
			// the connection which is up now must carry messages and data
			if (c && !c->dead) {
				fn::Lk l;
				bool sOk = false; for (size_t i = msgs.size(); i-- && msgs.size() - i < 20;) if (msgs[i].sender == 2 && msgs[i].ok && msgs[i].fd == c->cfd) sOk = true;
				if (sOk && rConn == c->id) { conn = c->id; break; }
			}
			usleep(500); vf_tick();
			if (vf_now_ns() - t0 > 60ull * 1000000000) vf_fail("no-recovery", "the server accepts and stays up, but sender progress %d -> %d, receiver on connection %d, current connection %d", sp, (int)sProgress, (int)rConn, c ? c->id : -1);
		}
		recovered = true;
		(void)conn;
		for (unsigned i = 0; i < nW; ++i) { timespec ts; clock_gettime(CLOCK_REALTIME, &ts); ts.tv_sec += 20;
			if (pthread_timedjoin_np(w[i], NULL, &ts)) vf_fail("not-woken", "a thread waiting for the connection was not woken"); }
		nW = 0;
		vf_count("recoveries", 1);
	}
	stopAll = vf_chance(50);
	if (!vf_chance(30)) gStop = true;
	// stop as the component registry does: dependents first
	auto kill_ = [](pthread_t t, const char * who) { fn::cancelOrder++; pthread_cancel(t); joinFor(t, 20000, who); };
	if (poll) { stopAll = true; }
	kill_(s, "sender"); kill_(r, "receiver"); for (int i = 0; i < nG; ++i) kill_(g[i], "second sender");
	for (unsigned i = 0; i < nW; ++i) kill_(w[i], "waiter");
	if (poll) pthread_join(po, NULL);
	if (recovered && !fn::sleeps) { }
	NET_Statistics st = {}; seenTime = 0; if (!tsan) NET_getStatistics(&st); // unsynchronised by design
	ticking = false;
	if (recovered && !tsan && nG == 0) {
		unsigned long want = onlineWant + (st.isOnline ? seenFor : 0);
		vf_count("online_totals", 1);
		VF_CHECK(st.onlineSecs - s0.onlineSecs == want, "stat-online", "%llu s reported as online, the connections were up for %lu s (now %s)", (long long)(st.onlineSecs - s0.onlineSecs), want, st.isOnline ? "online" : "offline");
	}
	if (recovered && !tsan && st.isOnline) {
		VF_CHECK(st.connectionAttempts - s0.connectionAttempts == fn::attempts, "stat-attempts", "%llu attempts reported, %u made", (long long)(st.connectionAttempts - s0.connectionAttempts), (unsigned)fn::attempts);
		VF_CHECK(st.disconnects - s0.disconnects == fn::attempts - 1, "stat-disconnects", "%llu disconnects reported after %u attempts and being connected", (long long)(st.disconnects - s0.disconnects), (unsigned)fn::attempts);
	}
	if (!tsan) {
		VF_CHECK(st.bytesSent - s0.bytesSent == okBytes, "stat-sent", "%llu bytes reported as sent, messages of %llu bytes were", (long long)(st.bytesSent - s0.bytesSent), (long long)okBytes);
		uint64_t rb = st.bytesReceived - s0.bytesReceived;
		VF_CHECK(rb >= rxBytes && rb <= rxBytes + 128, "stat-received", "%llu bytes reported as received, %llu were", (long long)rb, (long long)rxBytes);
	}
	kill_(n, "network");
	VF_CHECK(fn::openCount() == 0, "descriptor-leak", "%u connections are still open after the stop", fn::openCount());
	inj_thread(1, 1);
	uint64_t before = fn::sends; { uint8_t m[4] = { 1, 2, 3, 4 }; VF_CHECK(!NET_send(m, 4), "send-after-stop", "sending succeeded after the stop"); } (void)before;
	inj_id = 0;
	// let the servers read what is left
	for (fn::Conn * c : fn::conns) { uint64_t t0 = vf_now_ns(); while (!c->dead && vf_now_ns() - t0 < 20ull * 1000000000) usleep(100); VF_CHECK(c->dead, "not-closed", "connection %d: the server never saw its end", c->id); }
	std::map<std::pair<int, uint32_t>, const Msg *> byId; for (auto & m : msgs) byId[{ m.sender, m.seq }] = &m;
	unsigned long whole = 0, cut = 0;
	for (fn::Conn * c : fn::conns) parse(c, byId, whole, cut);
	vf_count("connections", fn::conns.size()); vf_count("attempts", (unsigned)fn::attempts); vf_count("refused", fn::fails); vf_count("messages_ok", okMsgs); vf_count("messages_failed", failMsgs);
	vf_count("messages_delivered", whole); vf_count("messages_cut", cut); vf_count("bytes_received", rxBytes);
	unsigned att_ = fn::attempts; h = vf_hash(&att_, sizeof att_, h);
	if (vf_want_sample()) vf_sample("round %u: %u attempts (%u refused), %zu connections, %llu messages sent, %llu failed, %lu cut, %llu bytes received, %d extra senders%s", rnd, (unsigned)fn::attempts, fn::fails, fn::conns.size(),
		(long long)okMsgs, (long long)failMsgs, cut, (long long)rxBytes, nG, earlyStop ? ", stopped early" : "");
	fn::reset();
}
void vf_init(void) { mode = vf_opt("mode", 0); tsan = vf_opt("tsan", 0); log_stub_trace = 1; }
void vf_case(uint64_t no)
{
	cseed = vf_rnd(); inj_hash = 0; inj_events = 0;
	inj_level = vf_chance(20) ? 0 : vf_range(1, 60); inj_max_us = vf_range(1, 150);
	nG = tsan ? 0 : mode == 0 ? vf_below(4) : vf_chance(40) ? vf_range(1, 2) : 0;
	fn::sends = fn::partials = fn::recvs = fn::kills = fn::injected = 0; forced = relogins = sessions = 0;
	uint64_t h = 0;
	unsigned rounds = vf_chance(25) ? vf_range(2, 3) : 1;
	for (unsigned i = 0; i < rounds; ++i) round_(i, h);
	vf_count("eval", 1); vf_count("rounds", rounds); vf_count("send_calls", fn::sends); vf_count("partial_sends", fn::partials); vf_count("kills", fn::kills); vf_count("injected_errors", fn::injected);
	vf_count("forced_disconnects", forced); vf_count("sync_events", inj_events);
	vf_distinct(vf_hash(&inj_hash, 8, h));
	(void)no;
}
