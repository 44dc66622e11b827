// C36: sequences of calls and arrivals on the real platform adapters, over loopback sockets and real run loops with a virtual clock;
// first with the stack replaced at its platform-facing functions, then with whole stacks talking to each other.
#include "seq.hpp"
#include "rtmfp/PosixPlatformAdapter.hpp"
#include "rtmfp/PerformerPosixPlatformAdapter.hpp"
#include "rtmfp/PlainCryptoAdapter.hpp"
#include "rtmfp/SelectRunLoop.hpp"
#include "rtmfp/EPollRunLoop.hpp"
#include <list>
#include <fcntl.h>
#include <netinet/ip.h>
#include <poll.h>
#include <sys/epoll.h>
#include <sys/select.h>
#include <sys/socket.h>
using namespace com::zenomt; using namespace com::zenomt::rtmfp;
using namespace mc;

static double vnow; static bool virtualTime;
static bool haveV6() { static int h = -1; if(h < 0) { int fd = socket(AF_INET6, SOCK_DGRAM, 0); struct sockaddr_in6 a {}; a.sin6_family = AF_INET6; a.sin6_addr = in6addr_loopback; h = fd >= 0 and 0 == bind(fd, (struct sockaddr *)&a, sizeof a); if(fd >= 0) ::close(fd); } return h; }
static int openFds() { int n = 0; for(int i = 0; i < 256; i++) if(fcntl(i, F_GETFD) >= 0) n++; return n; }
// each worker process has its own loopback address, so that nothing sent to a port it has given up reaches another worker
static const char *mine()
{
	static std::string m; static pid_t of; if(of == getpid()) return m.c_str();
	of = getpid(); m = fmt("127.%d.%d.%d", 1 + (of >> 14 & 63), 1 + (of >> 7 & 127), 1 + (of & 127)); Address a; a.setFromPresentation(m.c_str(), false); int fd = socket(AF_INET, SOCK_DGRAM, 0); if(bind(fd, a.getSockaddr(), a.getSockaddrLen())) m = "127.0.0.1"; ::close(fd); return m.c_str();
}
static Address loopback(int family, unsigned port) { Address a; a.setFromPresentation(family == AF_INET ? mine() : "::1", false); a.setPort(port); return a; }

// a plain socket of the harness
struct Peer {
	int fd = -1, family; Address addr;
	Peer(int family, unsigned port = 0) : family(family)
	{
		fd = socket(family, SOCK_DGRAM | SOCK_NONBLOCK, 0); Address b = loopback(family, port); if(fd < 0 or bind(fd, b.getSockaddr(), b.getSockaddrLen())) abort();
		union Address::in_sockaddr a; socklen_t l = sizeof a; getsockname(fd, &a.s, &l); addr.setSockaddr(&a.s); int on = 1;
		if(family == AF_INET) setsockopt(fd, IPPROTO_IP, IP_RECVTOS, &on, sizeof on); else setsockopt(fd, IPPROTO_IPV6, IPV6_RECVTCLASS, &on, sizeof on);
	}
	~Peer() { ::close(fd); }
	Peer(const Peer &) = delete;
	bool send(const Bytes &b, const Address &to, int tos) { if(family == AF_INET) setsockopt(fd, IPPROTO_IP, IP_TOS, &tos, sizeof tos); else setsockopt(fd, IPPROTO_IPV6, IPV6_TCLASS, &tos, sizeof tos); return ::sendto(fd, b.data(), b.size(), 0, to.getSockaddr(), to.getSockaddrLen()) == (ssize_t)b.size(); }
	struct In { Bytes data; Address from; int tos; };
	bool receive(In &in, int ms)
	{
		struct pollfd p { fd, POLLIN, 0 }; if(poll(&p, 1, ms) <= 0) return false;
		uint8_t buf[9000]; char c[256]; union Address::in_sockaddr a; struct iovec v { buf, sizeof buf }; struct msghdr m {}; m.msg_name = &a; m.msg_namelen = sizeof a; m.msg_iov = &v; m.msg_iovlen = 1; m.msg_control = c; m.msg_controllen = sizeof c;
		ssize_t n = recvmsg(fd, &m, MSG_DONTWAIT); if(n < 0) return false;
		in.data.assign(buf, buf + n); in.from = Address(&a.s); in.tos = 0;
		for(struct cmsghdr *h = CMSG_FIRSTHDR(&m); h; h = CMSG_NXTHDR(&m, h)) if((h->cmsg_level == IPPROTO_IP and h->cmsg_type == IP_TOS) or (h->cmsg_level == IPPROTO_IPV6 and h->cmsg_type == IPV6_TCLASS)) in.tos = *(uint8_t *)CMSG_DATA(h);
		return true;
	}
};

struct World;
static World *W;
static bool scripted; // the stack's platform-facing functions are replaced
static bool sentSince; static int failSends; // answer for the next sends with ancillary data: 1 EINVAL, 2 EAGAIN for all

namespace std { namespace chrono { inline namespace _V2 { steady_clock::time_point steady_clock::now() noexcept { if(not virtualTime) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return time_point(duration(t.tv_sec * 1000000000ll + t.tv_nsec)); } return time_point(duration((int64_t)(vnow * 1e9))); } } } }
static bool worldOwes(); static uint64_t waits;
template<class R> static int waitFor(double timeout, const R &real)
{
	if(++waits > 20000) throw Violation{"the loop keeps turning"};
	vnow += 0.0001;  int rv = real(0);
	if(rv) return rv;
	if(sentSince) { sentSince = false; if(not scripted) { rv = real(1); if(rv) return rv; } }
	if(worldOwes()) { rv = real(500); if(rv) return rv; } // loopback delivery may lag a little
	vnow += timeout; return real(0);
}
extern "C" int __real_select(int, fd_set *, fd_set *, fd_set *, struct timeval *);
extern "C" int __real_epoll_wait(int, struct epoll_event *, int, int);
extern "C" ssize_t __real_sendmsg(int, const struct msghdr *, int);
extern "C" int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *x, struct timeval *tv)
{
	if(not virtualTime) return __real_select(n, r, w, x, tv);
	fd_set r0 = *r, w0 = *w, x0 = *x; double t = tv ? tv->tv_sec + tv->tv_usec * 1e-6 : 1e9;
	return waitFor(t, [&] (int ms) { *r = r0; *w = w0; *x = x0; struct timeval z { 0, ms * 1000 }; return __real_select(n, r, w, x, &z); });
}
extern "C" int __wrap_epoll_wait(int ep, struct epoll_event *ev, int n, int ms)
{
	if(not virtualTime) return __real_epoll_wait(ep, ev, n, ms);
	return waitFor(ms / 1000.0, [&] (int real) { return __real_epoll_wait(ep, ev, n, real); });
}
extern "C" ssize_t __wrap_sendmsg(int fd, const struct msghdr *m, int flags)
{
	if(failSends == 1 and m->msg_controllen) { errno = EINVAL; return -1; }
	if(failSends == 2) { errno = EAGAIN; return -1; }
	sentSince = true; return __real_sendmsg(fd, m, flags);
}

// what the application, peers and the adapter did, and what must come of it
struct Listed { int id; Address bound; int family; bool any; };
struct Dgram { int iface; Bytes data; Address from; int tos; };
struct World {
	Inner &in; std::unique_ptr<RunLoop> loop; std::shared_ptr<Performer> mainP, workP; std::unique_ptr<PosixPlatformAdapter> pa; PlainCryptoAdapter crypto { "x" }; std::unique_ptr<RTMFP> stack; std::string err; int kind;
	std::vector<Listed> ifs; std::vector<int> added; std::list<Dgram> owed; bool closed = false, running = false, closeInReceive = false, reuse = false, closeInTask = false, closeInWritable = false; std::vector<std::unique_ptr<Peer> > extra; size_t received = 0;
	std::vector<std::pair<int, int> > seen; double due = 0; int work = 0, shutdowns = 0; size_t ran[2] = {}, asked[2] = {}; struct Wr { int left, called = 0, turn = 0; bool over = false; int iface; }; std::vector<Wr> wr; bool anyAddr = false;
	Peer p4 { AF_INET }, q4 { AF_INET }; std::unique_ptr<Peer> p6; 
	World(Inner &in, int impl, int kind) : in(in), kind(kind)
	{
		W = this; vnow = 1000; virtualTime = true; scripted = true; waits = 0; failSends = 0; if(haveV6()) p6.reset(new Peer(AF_INET6));
		if(impl) loop.reset(new EPollRunLoop()); else loop.reset(new SelectRunLoop());
		if(kind) { mainP = share_ref(new Performer(loop.get()), false); if(kind > 1) workP = share_ref(new Performer(loop.get()), false); pa.reset(new PerformerPosixPlatformAdapter(loop.get(), mainP.get(), workP.get())); }
		else pa.reset(new PosixPlatformAdapter(loop.get()));
		due = loop->getCurrentTime(); stack.reset(new RTMFP(pa.get(), &crypto)); pa->setRtmfp(stack.get());
		need(pa->getRtmfp() == stack.get() and pa->getRunLoop() == loop.get(), "rtmfp and run loop read back"); pa->onShutdownCompleteCallback = [this] { shutdowns++; };
	}
	~World() { pa.reset(); if(mainP) mainP->close(); if(workP) workP->close(); mainP.reset(); workP.reset(); stack.reset(); loop.reset(); W = nullptr; virtualTime = scripted = false; failSends = 0; }
	void fail(const std::string &e) { if(err.empty()) err = e; }
	void check() { need(err.empty(), err); }
	// the stack's side
	void onAdd(int id) { if(id < 0) fail("a negative interface number"); for(int x : added) if(x == id) fail("an interface number given twice"); added.push_back(id); }
	bool onReceive(RTMFP *r, const Bytes &b, int id, const struct sockaddr *sa, int tos)
	{
		if(r != stack.get()) fail("a packet for another stack");
		Address from(sa); in.log("packet of %zu bytes on %d", b.size(), id);
		if(closed) fail("a packet was handed to the stack after close");
		if(not running) fail("a packet was handed to the stack while the run loop does not run");
		auto it = owed.begin(); while(it != owed.end() and it->iface != id) it++; // order holds per interface
		if(it == owed.end()) { fail("a packet nobody sent, or one twice"); return false; }
		if(it->data != b) fail(fmt("a packet of %zu bytes arrived as another of %zu", it->data.size(), b.size()));
		else if(not (it->from == from)) fail("a packet arrived with the wrong source address " + from.toPresentation() + " instead of " + it->from.toPresentation());
		else if((it->tos & 0xff) != (tos & 0xff)) fail(fmt("a packet sent with traffic class %02x arrived with %02x", it->tos, tos & 0xff));
		owed.erase(it); received++;
		if(closeInReceive) { closeInReceive = false; close(); if(reuse) takeDescriptors(); }
		return true;
	}
	// somebody else opens sockets, which get the numbers the adapter gave up, and waits on them
	void takeDescriptors()
	{
		reuse = false;
		for(int i = 0; i < 4; i++)
		{
			extra.emplace_back(new Peer(AF_INET)); p4.send({ 0, 1, 2, 3, 4, 5, 6, 7 }, extra.back()->addr, 0); size_t k = extra.size() - 1; seen.push_back({ 0, 0 });
			loop->registerDescriptor(extra[k]->fd, RunLoop::READABLE, [this, k] { Peer::In x; if(not extra[k]->receive(x, 0)) fail("another socket's packet was taken"); if(++seen[k].first > 1) fail("another socket was called too often"); });
			loop->registerDescriptor(extra[k]->fd, RunLoop::WRITABLE, [this, k] { seen[k].second++; loop->unregisterDescriptor(extra[k]->fd, RunLoop::WRITABLE); });
		}
		struct pollfd p { extra.back()->fd, POLLIN, 0 }; poll(&p, 1, 1000);
	}
	double sleepFor() { return std::max<double>(0, due - loop->getCurrentTime()); }
	void onWork() { in.log("timer work"); if(closed) fail("timer work after close"); if(not running) fail("timer work while the run loop does not run"); if(loop->getCurrentTime() - due > 0.005) fail(fmt("timer work %.3f s late", double(loop->getCurrentTime() - due))); if(++work > 400) { due = INFINITY; fail("timer work again and again"); } if(loop->getCurrentTime() >= due) due = loop->getCurrentTime() + 1.5; }
	void cycle() { for(auto &w : wr) w.turn = 0; if(not closed and loop->getCurrentTime() - due > 0.005) fail("timer work is overdue"); }
	// the application's side
	void add(int how)
	{
		std::shared_ptr<Address> a; int id = -7; size_t before = added.size(); int fds = openFds(); int family = how == 2 ? AF_INET6 : AF_INET; bool mustFail = false;
		if(how == 0) a = pa->addUdpInterface(0, AF_INET, &id);
		else if(how == 1 or how == 2) { Address b = loopback(family, 0); a = pa->addUdpInterface(b.getSockaddr(), &id); }
		else if(how == 3) { mustFail = true; Address b = p4.addr; a = pa->addUdpInterface(b.getSockaddr(), &id); }
		else if(how == 4) { mustFail = true; a = pa->addUdpInterface(0, 12345, &id); }
		else { mustFail = true; struct sockaddr s {}; s.sa_family = AF_UNIX; a = pa->addUdpInterface(&s, &id); }
		in.log("add interface: %s", a ? a->toPresentation().c_str() : "refused");
		if(mustFail) { need(not a and added.size() == before and id == -7, "an impossible interface was added"); need(openFds() == fds, "a refused interface left a descriptor open"); return; }
		need(bool(a), "an interface was refused"); need(a->getFamily() == family and a->getPort() != 0, "the bound address is wrong"); need(added.size() == before + 1 and added.back() == id, "the stack was not told of the interface");
		Address at = *a; if(how == 0) at = loopback(AF_INET, a->getPort()); ifs.push_back({ id, at, family, how == 0 });
	}
	void peerSends(Peer &p, size_t k, size_t n, int tos)
	{
		if(k >= ifs.size() or ifs[k].family != p.family or closed) return;
		Bytes b(n); for(size_t i = 0; i < n; i++) b[i] = uint8_t(i * 7 + received + owed.size()); need(p.send(b, ifs[k].bound, tos), "harness: send");
		owed.push_back({ ifs[k].id, b, p.addr, tos });
	}
	void sends(int id, Peer &p, size_t n, int tos, bool expect, const Address &from)
	{
		Bytes b(n); for(size_t i = 0; i < n; i++) b[i] = uint8_t(i * 5 + n); bool ok = pa->writePacket(b.data(), n, id, p.addr.getSockaddr(), p.addr.getSockaddrLen(), tos);
		need(ok == expect, ok ? "a packet that cannot be sent was reported as sent" : "a packet was not sent"); if(not expect) return; // that nothing came is looked at when the peer is next read
		Peer::In x; need(p.receive(x, 1000), "a packet reported as sent did not arrive"); need(x.data == b, "a packet was damaged on its way out"); need(x.from == from or (anyAddr and x.from.getPort() == from.getPort()), "a packet left from another address, " + x.from.toPresentation()); need(failSends == 1 or x.tos == tos, fmt("a packet with traffic class %02x left with %02x", tos, x.tos));
	}
	void writes(size_t k)
	{
		if(k >= ifs.size()) return;
		Listed &f = ifs[k]; anyAddr = f.any; Peer &p = f.family == AF_INET ? p4 : *p6; bool up = not closed;
		for(size_t n : { 1, 40, 1200 }) for(int tos : { 0, 2, 0xb8 }) sends(f.id, p, n, tos, up, f.bound);
		sends(f.id, q4, 10, 0, up and f.family == AF_INET, f.bound); if(p6) sends(f.id, *p6, 10, 1, up and f.family == AF_INET6, f.bound);
		int none = 99; for(auto &x : ifs) none += x.id; sends(none, p4, 10, 0, false, f.bound);
		failSends = 1; sends(f.id, p, 60, 2, up, f.bound); failSends = 2; sends(f.id, p, 60, 0, false, f.bound); failSends = 0;
		Peer::In x; need(not p4.receive(x, 0) and not q4.receive(x, 0) and (not p6 or not p6->receive(x, 0)), "something was sent that should not have been");
	}
	void notify(size_t k, int times)
	{
		if(k >= ifs.size()) return;
		size_t w = wr.size(); for(auto &x : wr) if(x.iface == ifs[k].id) x.over = true; // the latest request stands for the interface
		wr.push_back({ times, 0, 0, false, ifs[k].id });
		bool ok = pa->notifyWhenInterfaceWritable(ifs[k].id, [this, w] {
			Wr &x = wr[w]; in.log("writable %zu", w); if(closed) fail("the stack was asked to write after close"); if(not running) fail("the stack was asked to write while the run loop does not run"); if(x.over) fail("the stack was asked to write again after it had no more"); if(++x.turn > (int)pa->maxWritesPerInterfaceWritable) fail("too many writes in a turn");
			x.called++; bool more = --x.left > 0; if(not more) x.over = true;
			if(closeInWritable) { closeInWritable = false; close(); if(reuse) takeDescriptors(); return more; }
			return more;
		});
		need(ok == not closed, ok ? "writability of a closed interface" : "writability was refused"); if(closed) wr[w].over = true;
	}
	void task(int thread) { bool was = closed; size_t n = asked[thread]++; bool ok = pa->perform(thread, [this, n, thread, was] { in.log("task %zu of thread %d", n, thread); if(not running) fail("a task ran at once"); if(closed) fail("a task ran after close"); if(ran[thread] != n) fail("tasks of a thread ran out of order or twice"); ran[thread]++; if(closeInTask) { closeInTask = false; close(); } }); need(ok, "a task was refused"); }
	void close() { in.log("close"); pa->close(); closed = true; owed.clear(); for(auto &w : wr) w.over = true; }
	void destroy() { in.log("destroy"); closed = true; owed.clear(); for(auto &w : wr) w.over = true; pa.reset(); }
	void retime(double d) { if(not pa) return; due = loop->getCurrentTime() + d; pa->onHowLongToSleepDidChange(); }
	void run(double t)
	{
		in.log("run %g", t); running = true; loop->onEveryCycle = [this] { cycle(); }; if(not closed) { size_t w0 = work; (void)w0; }
		loop->run(t); running = false; check();
		for(auto &x : seen) need(x.first and x.second, "another user's descriptor was unregistered");
		need(owed.empty(), fmt("%zu packets were not handed to the stack", owed.size())); if(not closed) { need(ran[0] == asked[0] and ran[1] == asked[1], "a task was not run"); for(auto &w : wr) need(w.over, "writable, and the stack was not asked to write"); need(due > loop->getCurrentTime() - 0.005, "timer work is overdue"); }
	}
	bool owes() { return not owed.empty(); }
};
static bool worldOwes() { return W and scripted and W->owes(); }

extern "C" bool __real__ZN3com6zenomt5rtmfp5RTMFP15onReceivePacketEPKvmiPK8sockaddri(RTMFP *, const void *, size_t, int, const struct sockaddr *, int);
extern "C" bool __wrap__ZN3com6zenomt5rtmfp5RTMFP15onReceivePacketEPKvmiPK8sockaddri(RTMFP *r, const void *b, size_t n, int id, const struct sockaddr *a, int tos) { if(scripted) return W->onReceive(r, Bytes((const uint8_t *)b, (const uint8_t *)b + n), id, a, tos); return __real__ZN3com6zenomt5rtmfp5RTMFP15onReceivePacketEPKvmiPK8sockaddri(r, b, n, id, a, tos); }
extern "C" void __real__ZN3com6zenomt5rtmfp5RTMFP11doTimerWorkEv(RTMFP *);
extern "C" void __wrap__ZN3com6zenomt5rtmfp5RTMFP11doTimerWorkEv(RTMFP *r) { if(scripted) W->onWork(); else __real__ZN3com6zenomt5rtmfp5RTMFP11doTimerWorkEv(r); }
extern "C" Duration __real__ZNK3com6zenomt5rtmfp5RTMFP14howLongToSleepEv(const RTMFP *);
extern "C" Duration __wrap__ZNK3com6zenomt5rtmfp5RTMFP14howLongToSleepEv(const RTMFP *r) { return scripted ? Duration(W->sleepFor()) : __real__ZNK3com6zenomt5rtmfp5RTMFP14howLongToSleepEv(r); }
extern "C" void __real__ZN3com6zenomt5rtmfp5RTMFP12addInterfaceEi(RTMFP *, int);
extern "C" void __wrap__ZN3com6zenomt5rtmfp5RTMFP12addInterfaceEi(RTMFP *r, int id) { if(scripted) W->onAdd(id); else __real__ZN3com6zenomt5rtmfp5RTMFP12addInterfaceEi(r, id); }

static const int NOPS = 25;
static void doOp(World &w, int k)
{
	switch(k)
	{
	case 0: w.add(0); break; // also exercises that interface numbers differ
	case 1: if(haveV6()) w.add(2); break;
	case 2: w.add(3); break;
	case 3: w.add(4); w.add(5); break;
	case 4: w.writes(0); break;
	case 5: w.writes(1); break;
	case 6: w.peerSends(w.p4, 0, 1200, 1); break;
	case 7: w.peerSends(w.p4, 0, 0, 0); w.peerSends(w.q4, 0, 1, 2); w.peerSends(w.p4, 0, 8000, 3); break;
	case 8: for(size_t i = 0; i < w.ifs.size(); i++) { w.peerSends(w.ifs[i].family == AF_INET ? w.q4 : *w.p6, i, 33, 0xb9); w.peerSends(w.ifs[i].family == AF_INET ? w.p4 : *w.p6, i, 34, 0); } break;
	case 9: for(int i = 0; i < 20; i++) w.peerSends(i % 3 ? w.p4 : w.q4, 0, 100 + i, i & 3); break;
	case 10: w.close(); break;
	case 11: w.closeInReceive = true; break;
	case 12: w.closeInReceive = w.reuse = true; break;
	case 13: w.task(0); w.task(1); w.task(0); break;
	case 14: w.closeInTask = true; w.task(1); w.task(0); w.task(0); break;
	case 15: w.notify(0, 1); break;
	case 16: w.notify(0, 9); w.notify(1, 5); break;
	case 17: w.notify(0, 3); w.closeInWritable = true; break;
	case 24: w.notify(0, 1); w.closeInWritable = w.reuse = true; break;
	case 18: w.retime(0); break;
	case 19: w.retime(0.03); break;
	case 20: w.retime(40); break;
	case 21: w.run(0.05); break;
	case 22: w.run(4); break;
	case 23: w.pa->onShutdownComplete(); need(w.shutdowns == 1, "shutdown completion"); w.shutdowns = 0; break;
	}
	w.check();
}
static void calls(Inner &in, int depth)
{
	int fds = openFds();
	{
		int impl = in(2), kind = in(3); World w(in, impl, kind); w.add(1); w.check();
		for(int i = 0; i < depth; i++) { int k = in(NOPS); if(w.closed and (k < 4)) continue; in.log("op %d", k); doOp(w, k); }
		int end = in(3); w.run(0.02);
		if(end == 0) { if(not w.closed) { w.run(2); w.close(); } w.task(0); w.run(2); }
		else if(end == 1) { w.task(0); w.task(1); w.notify(0, 2); w.peerSends(w.p4, 0, 50, 0); w.retime(0.01); w.destroy(); w.run(3); }
		else { w.task(0); w.task(1); w.notify(0, 2); w.peerSends(w.p4, 0, 50, 0); w.retime(0.01); w.close(); w.writes(0); w.run(3); }
		w.check(); in.ctx.count("packets", w.received);
	}
	need(openFds() == fds, "a descriptor was left open");
}

// whole stacks
struct Node { std::unique_ptr<PosixPlatformAdapter> pa; std::shared_ptr<Performer> perf; PlainCryptoAdapter crypto; std::unique_ptr<RTMFP> rtmfp; std::vector<std::shared_ptr<RecvFlow> > rx; std::vector<std::shared_ptr<SendFlow> > tx; std::vector<Bytes> got; int complete = 0, exceptions = 0, down = 0; Address at; Node(const char *n) : crypto(n) {} };
static Bytes content(int i, size_t n) { Bytes b(n); for(size_t k = 0; k < n; k++) b[k] = uint8_t(k * 3 + i * 11 + (k >> 8)); return b; }
static void whole(Inner &in)
{
	int fds = openFds();
	{
		int impl = in(2), kind = in(2), family = in(haveV6() ? 2 : 1) ? AF_INET6 : AF_INET, size = in(3), closeAt = in(8); srand(7); vnow = 1000; virtualTime = true; scripted = false; waits = 0;
		std::unique_ptr<RunLoop> loop; if(impl) loop.reset(new EPollRunLoop()); else loop.reset(new SelectRunLoop());
		Node a("alice"), b("bob"); std::vector<std::function<void()> > clean; const int N = 6; size_t n = (size_t[]) { 10, 1500, 20000 }[size]; bool closedB = false; std::unique_ptr<Peer> hold; int events = 0;
		auto event = [&] { if(closeAt and ++events == closeAt and not closedB) { closedB = true; b.pa->close(); hold.reset(new Peer(b.at.getFamily(), b.at.getPort())); } };
		for(Node *x : { &a, &b })
		{
			if(kind) { x->perf = share_ref(new Performer(loop.get()), false); x->pa.reset(new PerformerPosixPlatformAdapter(loop.get(), x->perf.get())); } else x->pa.reset(new PosixPlatformAdapter(loop.get()));
			x->rtmfp.reset(new RTMFP(x->pa.get(), &x->crypto)); x->pa->setRtmfp(x->rtmfp.get()); x->pa->onShutdownCompleteCallback = [x] { x->down++; }; Address l = loopback(family, 0); auto at = x->pa->addUdpInterface(l.getSockaddr()); need(bool(at), "interface"); x->at = *at;
			x->rtmfp->onRecvFlow = [x, &event, &b, &closedB] (std::shared_ptr<RecvFlow> f) { f->accept(); x->rx.push_back(f); f->onMessage = [x, &event] (const uint8_t *p, size_t l, uintmax_t, size_t) { x->got.push_back(Bytes(p, p + l)); event(); }; f->onComplete = [x, &event] (bool e) { x->complete++; if(e) x->exceptions++; event(); }; event(); };
		}
		auto s = a.rtmfp->openFlow("bob", 3, "m", 1); need(bool(s), "open"); a.tx.push_back(s); s->addCandidateAddress(b.at, 0); for(int i = 0; i < N; i++) s->write(content(i, n), INFINITY, INFINITY);
		loop->run(10); if(s->isOpen()) s->close(); loop->run(15);
		if(not closedB)
		{
			need(b.got.size() == (size_t)N, fmt("%zu of %d messages crossed", b.got.size(), N)); for(int i = 0; i < N; i++) need(b.got[i] == content(i, n), fmt("message %d was damaged or out of order", i)); need(b.complete == 1 and b.exceptions == 0, "the flow's completion");
			need(b.rx.size() == 1 and b.rx[0]->getFarAddress() == a.at, "the far address is not the other adapter's");
			a.rtmfp->shutdown(false); b.rtmfp->shutdown(false); loop->run(200); need(a.down == 1 and b.down == 1, "shutdown did not complete through the adapter");
		}
		else { size_t g = b.got.size(); int c = b.complete; loop->run(30); need(b.got.size() == g and b.complete == c, "the stack received through a closed adapter"); a.rtmfp->shutdown(true); loop->run(5); need(a.down == 1, "shutdown did not complete through the adapter"); }
		for(Node *x : { &a, &b }) { x->rx.clear(); x->tx.clear(); } s.reset();
		for(Node *x : { &a, &b }) { x->pa->close(); if(x->perf) x->perf->close(); x->perf.reset(); x->rtmfp.reset(); x->pa.reset(); } loop.reset(); virtualTime = false;
	}
	need(openFds() == fds, "a descriptor was left open");
}

int main(int argc, char **argv)
{
	mc::Meta meta; meta.property = "C36"; meta.hangCpuSeconds = 120; meta.hangWallSeconds = 200;
	meta.assumptions = { "real loopback UDP sockets and run loops, virtual clock (select, epoll_wait and steady_clock::now are interposed)", "IPv6 only where the machine has ::1", "datagrams up to 8000 bytes" };
	return mc::runMain(argc, argv, meta, [] (const std::string &tier) {
		bool th = tier == "thorough"; std::vector<mc::Scenario> v;
		v.push_back({ "calls", 0, [=] (Ctx &c) { explore(c, 4, [=] (Inner &in) { calls(in, th ? 4 : 3); }); } });
		v.push_back({ "stacks", 0, [=] (Ctx &c) { explore(c, 3, [=] (Inner &in) { whole(in); }); } });
		return v;
	});
}
