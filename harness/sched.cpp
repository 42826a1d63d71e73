#include "sched.hpp"
#include <pthread.h>
#include <dlfcn.h>
#include <errno.h>
#include <time.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <atomic>
#include <memory>
#include <deque>
#include <unordered_map>

namespace mc { void count_check (void); [[noreturn]] void abandon (const std::string& msg, bool pruned); }

namespace sched
{
typedef std::vector<unsigned> clk_t;
struct Thread
{
	int id;
	std::function<bool()> wait;       // set: enabled only if it holds
	bool timed = false, timedout = false, done = false, started = false, on_cond = false;
	std::atomic<int> go{0};
	clk_t vc;
	pthread_t real;
	size_t lo = 0, hi = 0;            // stack, with the thread's local storage
};
struct Mutex { int owner = -1; clk_t vc; };
struct Waiter { int tid; bool signalled; };
struct Cond { std::deque<std::shared_ptr<Waiter> > q; bool blocked (void) const { for (auto& x : q) if (!x->signalled) return true; return false; } };
struct Access { int wt = -1; unsigned wc = 0; unsigned char wm = 0; std::map<int,std::pair<unsigned,unsigned char> > r; bool dead = false; const char* why = ""; };
struct World
{
	mc::Ctx* c;
	int bound, spurious, preempted = 0, cur = 0;
	bool pruned = false;
	unsigned long tick = 0;
	std::vector<std::unique_ptr<Thread> > t;
	std::map<size_t,Mutex> mutexes;
	std::map<size_t,Cond> conds;
	std::unordered_map<size_t,clk_t> atomics;
	std::unordered_map<size_t,Access> mem;
	std::map<size_t,int> once;
	std::map<size_t,std::vector<std::pair<std::shared_ptr<bool>,int> > > futexes;
	std::map<pthread_t,int> ids;
	std::vector<void*> graveyard;
	long live = 0;
};
static World* w = nullptr;
static thread_local Thread* me = nullptr;
static thread_local int inside = 0;    // within the scheduler itself: hooks are off
struct In { In (void) { inside++; } ~In (void) { inside--; } };
static bool on (void) { return w && me && !inside; }

static void sem_wait_ (std::atomic<int>& s)
{
	while (s.load() == 0) syscall(SYS_futex, (int*) &s, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
	s.store(0);
}
static void sem_post_ (std::atomic<int>& s)
{
	s.store(1);
	syscall(SYS_futex, (int*) &s, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}
void fail (const std::string& msg) { In in; mc::abandon(msg, w && w->pruned); }
void check (bool ok, const char* f, ...)
{
	mc::count_check();
	if (ok) return;
	char buf[2048];
	va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
	fail(buf);
}
void note (const char* f, ...)
{
	In in;
	char buf[1024];
	va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
	w->c->note("%s", buf);
}
int choose (int n)
{
	In in;
	if (n <= 1 || w->pruned) return 0;
	try { return w->c->choose(n); }
	catch (mc::Prune&) { w->pruned = true; return 0; }
}
long live (void) { return w->live; }
unsigned long now (void) { return w->tick; }
int waiting (void) { int n = 0; for (auto& t : w->t) n += t->on_cond && !t->done && !(t->wait && t->wait()); return n; }
int running (void) { int n = 0; for (auto& t : w->t) n += !t->done; return n; }

static bool enabled (Thread& t) { return !t.done && (!t.wait || t.wait()); }
static void join_clk (clk_t& a, const clk_t& b)
{
	if (a.size() < b.size()) a.resize(b.size(), 0);
	for (size_t i = 0; i < b.size(); i++) a[i] = std::max(a[i], b[i]);
}
static void bump (Thread& t) { if (t.vc.size() <= (size_t) t.id) t.vc.resize(t.id + 1, 0); t.vc[t.id]++; }

// give the processor to a thread the explorer chooses; returns when it is this thread's turn
static void reschedule (bool blocked)
{
	if (++w->tick > 20000) fail("livelock: the threads run on without end");
	std::vector<int> cand;
	if (!blocked && enabled(*me)) cand.push_back(me->id);
	if (cand.empty() || w->preempted < w->bound)
		for (auto& t : w->t) if (t->id != me->id && enabled(*t)) cand.push_back(t->id);
	if (blocked && enabled(*me)) cand.push_back(me->id);
	if (cand.empty()) // time passes
		for (auto& t : w->t) if (!t->done && t->timed) { t->timedout = true; t->wait = nullptr; cand.push_back(t->id); break; }
	if (cand.empty())
	{
		if (me->done) { bool all = true; for (auto& t : w->t) all = all && t->done; if (all) return; }
		std::string s;
		for (auto& t : w->t) if (!t->done) s += mc::fmt(" %d%s", t->id, t->on_cond ? "(wait)" : "");
		fail("deadlock: no thread can go on; not ended:" + s);
	}
	int k = choose((int) cand.size());
	int next = cand[k];
	if (!blocked && cand[0] == me->id && next != me->id) w->preempted++;
	if (next == me->id) return;
	w->c->step("%d>%d", me->id, next);
	w->cur = next;
	Thread& n = *w->t[next];
	bool done = me->done;
	Thread* self = me;
	sem_post_(n.go);
	if (!done) sem_wait_(self->go);
}
static void point (void) { reschedule(false); }
static void block (std::function<bool()> cond)
{
	if (cond()) return;
	me->wait = cond;
	reschedule(true);
	me->wait = nullptr;
}
void yield (void)
{
	In in;
	bool alone = true;
	for (auto& t : w->t) if (t->id != me->id && enabled(*t)) alone = false;
	if (alone) { point(); return; }
	unsigned long t0 = w->tick + 1; // the reschedule below
	me->wait = [t0]{ return w->tick > t0; };
	reschedule(true);
	me->wait = nullptr;
}

// ---- memory ----
static void dead_check (size_t a, const char* what)
{
	auto it = w->mem.find(a >> 3);
	if (it != w->mem.end() && it->second.dead) fail(mc::fmt("%s of %s", what, it->second.why));
}
static void access (size_t a, size_t n, bool write)
{
	In in;
	if (a >= me->lo && a < me->hi) { /* own stack: others may share it */ }
	while (n)
	{
		size_t word = a >> 3, off = a & 7, k = std::min(n, 8 - off);
		unsigned char mask = (unsigned char) (((1u << k) - 1) << off);
		Access& x = w->mem[word];
		if (x.dead) fail(mc::fmt("%s of %s", write ? "write" : "read", x.why));
		clk_t& vc = me->vc;
		auto hb = [&](int tid, unsigned c) { return tid == me->id || (tid < (int) vc.size() && vc[tid] >= c); };
		if (x.wt >= 0 && (x.wm & mask) && !hb(x.wt, x.wc)) fail(mc::fmt("data race: %s by thread %d, unordered with a write by thread %d", write ? "write" : "read", me->id, x.wt));
		if (write)
		{
			for (auto& r : x.r) if ((r.second.second & mask) && !hb(r.first, r.second.first)) fail(mc::fmt("data race: write by thread %d, unordered with a read by thread %d", me->id, r.first));
			if (x.wt == me->id && x.wc == vc[me->id]) x.wm |= mask; else { x.wt = me->id; x.wc = vc[me->id]; x.wm = mask; }
			x.r.clear();
		}
		else
		{
			auto& r = x.r[me->id];
			if (r.first == vc[me->id]) r.second |= mask; else r = {vc[me->id], mask};
		}
		a += k; n -= k;
	}
}
static void clear_range (size_t lo, size_t hi)
{
	if (hi - lo > 4096)
	{
		for (auto it = w->mem.begin(); it != w->mem.end();) if (it->first >= lo >> 3 && it->first < (hi + 7) >> 3) it = w->mem.erase(it); else ++it;
		for (auto it = w->atomics.begin(); it != w->atomics.end();) if (it->first >= lo && it->first < hi) it = w->atomics.erase(it); else ++it;
	}
	else for (size_t a = lo; a < hi; a++) { if (!(a & 7) || a == lo) w->mem.erase(a >> 3); w->atomics.erase(a); }
	w->mutexes.erase(w->mutexes.lower_bound(lo), w->mutexes.lower_bound(hi));
	w->conds.erase(w->conds.lower_bound(lo), w->conds.lower_bound(hi));
	w->once.erase(w->once.lower_bound(lo), w->once.lower_bound(hi));
}
static void kill_range (size_t lo, size_t hi, const char* why)
{
	for (auto it = w->mutexes.lower_bound(lo); it != w->mutexes.end() && it->first < hi; ++it) if (it->second.owner >= 0) fail(mc::fmt("a locked mutex is part of %s", why));
	for (auto it = w->conds.lower_bound(lo); it != w->conds.end() && it->first < hi; ++it) if (it->second.blocked()) fail(mc::fmt("a condition variable with waiting threads is part of %s", why));
	if (hi - lo <= 4096) for (size_t a = lo >> 3; a < (hi + 7) >> 3; a++) { Access& x = w->mem[a]; x.dead = true; x.why = why; }
}
static void lib_access (const volatile void* p, bool write) { dead_check((size_t) p, write ? "write" : "read"); }

// ---- threads ----
typedef int (*create_t) (pthread_t*, const pthread_attr_t*, void* (*) (void*), void*);
typedef int (*join_t) (pthread_t, void**);
typedef int (*detach_t) (pthread_t);
template <typename F> static F real (const char* n) { return (F) dlsym(RTLD_NEXT, n); }
struct Start { Thread* t; void* (*fn) (void*); void* arg; };
// built first, so destroyed after every other object local to the thread
struct Guard
{
	bool active = false;
	~Guard (void)
	{
		if (!active || !me) return;
		In in;
		point();
		bump(*me);
		me->done = true;
		// what is still on this stack can no longer be used
		for (auto it = w->mutexes.lower_bound(me->lo); it != w->mutexes.end() && it->first < me->hi; ++it) if (it->second.owner >= 0 && it->second.owner != me->id) fail("a thread ends while another holds a mutex it owns");
		for (auto it = w->conds.lower_bound(me->lo); it != w->conds.end() && it->first < me->hi; ++it) if (it->second.blocked()) fail("a thread ends while another waits on a condition variable it owns");
		reschedule(true);
		me = nullptr;
	}
};
static thread_local Guard guard;
static void* entry (void* p)
{
	Start s = *(Start*) p;
	{
		inside++;
		delete (Start*) p;
		guard.active = true;
		me = s.t;
		sem_wait_(me->go);
		inside--;
	}
	void* r = s.fn(s.arg);
	return r;
}
// threads that ended own their memory no more
static const char* owner_ended (size_t a)
{
	for (auto& t : w->t) if (t->hi && a >= t->lo && a < t->hi) { if (!t->done) return nullptr; }
	for (auto& t : w->t) if (t->hi && a >= t->lo && a < t->hi && t->done) return "memory of a thread that has ended";
	return nullptr;
}
static void ended_check (const volatile void* p, const char* what)
{
	if (const char* why = owner_ended((size_t) p)) fail(mc::fmt("%s of %s", what, why));
}
static Mutex& mutex_of (void* m) { ended_check(m, "use"); lib_access(m, true); return w->mutexes[(size_t) m]; }
static void lock_ (void* m)
{
	point();
	{ Mutex& x = mutex_of(m); if (x.owner == me->id) fail("a thread locks a mutex it already holds"); }
	block([m]{ return w->mutexes[(size_t) m].owner < 0; });
	Mutex& x = mutex_of(m);
	x.owner = me->id;
	join_clk(me->vc, x.vc);
}
static void unlock_ (void* m)
{
	Mutex& x = mutex_of(m);
	if (x.owner != me->id) fail("a thread unlocks a mutex it does not hold");
	x.owner = -1;
	x.vc = me->vc;
	bump(*me);
}
static int wait_ (void* c, void* m, bool timed)
{
	ended_check(c, "use"); lib_access(c, true);
	if (mutex_of(m).owner != me->id) fail("waiting with a mutex that is not held");
	point();
	auto self = std::make_shared<Waiter>(Waiter{me->id, false});
	w->conds[(size_t) c].q.push_back(self);
	unlock_(m);
	if (w->spurious > 0 && choose(2)) { w->spurious--; self->signalled = true; }
	me->on_cond = true; me->timed = timed; me->timedout = false;
	if (self->signalled) reschedule(false);
	else block([self]{ return self->signalled; });
	me->on_cond = false; me->timed = false;
	auto cq = w->conds.find((size_t) c);
	if (cq != w->conds.end())
	{
		auto& q = cq->second.q;
		for (auto it = q.begin(); it != q.end(); ++it) if (*it == self) { q.erase(it); break; }
	}
	block([m]{ return w->mutexes[(size_t) m].owner < 0; });
	Mutex& x = mutex_of(m);
	x.owner = me->id;
	join_clk(me->vc, x.vc);
	return me->timedout ? ETIMEDOUT : 0;
}
static void signal_ (void* c, bool all)
{
	point();
	ended_check(c, "use"); lib_access(c, true);
	auto& q = w->conds[(size_t) c].q;
	std::vector<std::shared_ptr<Waiter> > sleeping;
	for (auto& x : q) if (!x->signalled) sleeping.push_back(x);
	if (sleeping.empty()) return;
	if (all) { for (auto& x : sleeping) x->signalled = true; }
	else sleeping[choose((int) sleeping.size())]->signalled = true;
}

void explore (mc::Ctx& c, int preemptions, int spurious, std::function<void()> fn)
{
	inside++;
	{
		World world;
		w = &world;
		world.c = &c; world.bound = preemptions; world.spurious = spurious;
		world.t.emplace_back(new Thread());
		Thread* t = world.t[0].get();
		t->id = 0; t->started = true; t->vc.assign(1, 1); t->real = pthread_self();
		world.ids[t->real] = 0;
		me = t;
		inside--;
		try { fn(); }
		catch (mc::Violation& v) { fail(v.msg); }
		catch (mc::Prune&) { mc::abandon("", true); }
		catch (std::exception& e) { fail(std::string("unexpected exception: ") + e.what()); }
		inside++;
		// whoever is left runs to its end
		me->wait = []{ for (auto& t : w->t) if (t->id && !t->done) return false; return true; };
		while (running() > 1) reschedule(true);
		bool pruned = world.pruned;
		me = nullptr; w = nullptr;
		for (void* p : world.graveyard) free(p);
		if (pruned) { inside--; throw mc::Prune(); }
	}
	inside--;
}
}
using namespace sched;

// ---- memory management: freed memory stays unusable until the execution ends ----
extern "C" bool mc_free_hook (void* p, size_t n)
{
	if (!on()) return false;
	In in;
	w->live--;
	kill_range((size_t) p, (size_t) p + n, "memory that was freed");
	w->graveyard.push_back(p);
	return true;
}
extern "C" void mc_alloc_hook (void* p, size_t n)
{
	if (!on()) return;
	In in;
	w->live++;
	clear_range((size_t) p, (size_t) p + n);
}

extern "C"
{
int pthread_create (pthread_t* out, const pthread_attr_t* attr, void* (*fn) (void*), void* arg)
{
	static create_t f = real<create_t>("pthread_create");
	if (!on()) return f(out, attr, fn, arg);
	In in;
	point();
	Thread* t = new Thread();
	t->id = (int) w->t.size();
	bump(*me);
	t->vc = me->vc;
	t->vc.resize(t->id + 1, 0);
	bump(*t);
	w->t.emplace_back(t);
	int r = f(&t->real, attr, entry, new Start{t, fn, arg});
	if (r) fail("no thread could be created");
	pthread_attr_t a; void* lo; size_t n;
	pthread_getattr_np(t->real, &a); pthread_attr_getstack(&a, &lo, &n); pthread_attr_destroy(&a);
	t->lo = (size_t) lo; t->hi = t->lo + n;
	for (auto& o : w->t) if (o->done && o->lo < t->hi && t->lo < o->hi) { o->lo = o->hi = 0; } // the stack is used again
	clear_range(t->lo, t->hi);
	*out = t->real;
	w->ids[t->real] = t->id;
	point();
	return 0;
}
int pthread_join (pthread_t th, void** ret)
{
	static join_t f = real<join_t>("pthread_join");
	if (!on()) return f(th, ret);
	In in;
	point();
	auto it = w->ids.find(th);
	if (it == w->ids.end()) fail("join of a thread that does not exist");
	int id = it->second;
	w->ids.erase(it);
	block([id]{ return w->t[id]->done; });
	join_clk(me->vc, w->t[id]->vc);
	return f(th, ret);
}
int pthread_detach (pthread_t th)
{
	static detach_t f = real<detach_t>("pthread_detach");
	if (!on()) return f(th);
	In in;
	point();
	w->ids.erase(th);
	return f(th);
}
#define PASS(name, type, ...) static type f = real<type>(name); if (!on()) return f(__VA_ARGS__); In in
typedef int (*m_t) (pthread_mutex_t*);
int pthread_mutex_lock (pthread_mutex_t* m) { PASS("pthread_mutex_lock", m_t, m); lock_(m); return 0; }
int pthread_mutex_trylock (pthread_mutex_t* m)
{
	PASS("pthread_mutex_trylock", m_t, m);
	point();
	Mutex& x = mutex_of(m);
	if (x.owner >= 0) return EBUSY;
	x.owner = me->id; join_clk(me->vc, x.vc);
	return 0;
}
int pthread_mutex_unlock (pthread_mutex_t* m) { PASS("pthread_mutex_unlock", m_t, m); unlock_(m); return 0; }
typedef int (*cw_t) (pthread_cond_t*, pthread_mutex_t*);
typedef int (*ctw_t) (pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
typedef int (*ccw_t) (pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
typedef int (*c_t) (pthread_cond_t*);
int pthread_cond_wait (pthread_cond_t* c, pthread_mutex_t* m) { PASS("pthread_cond_wait", cw_t, c, m); return wait_(c, m, false); }
int pthread_cond_timedwait (pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { PASS("pthread_cond_timedwait", ctw_t, c, m, t); return wait_(c, m, true); }
int pthread_cond_clockwait (pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) { PASS("pthread_cond_clockwait", ccw_t, c, m, k, t); return wait_(c, m, true); }
int pthread_cond_signal (pthread_cond_t* c) { PASS("pthread_cond_signal", c_t, c); signal_(c, false); return 0; }
int pthread_cond_broadcast (pthread_cond_t* c) { PASS("pthread_cond_broadcast", c_t, c); signal_(c, true); return 0; }
int pthread_cond_destroy (pthread_cond_t* c)
{
	PASS("pthread_cond_destroy", c_t, c);
	auto it = w->conds.find((size_t) c);
	if (it != w->conds.end()) { if (it->second.blocked()) fail("a condition variable is destroyed while threads wait on it"); w->conds.erase(it); }
	return 0;
}
typedef int (*o_t) (pthread_once_t*, void (*) (void));
int pthread_once (pthread_once_t* o, void (*fn) (void))
{
	PASS("pthread_once", o_t, o, fn);
	point();
	size_t k = (size_t) o;
	block([k]{ return w->once[k] != 1; });
	if (*(volatile int*) o == 2) { auto it = w->atomics.find(k); if (it != w->atomics.end()) join_clk(me->vc, it->second); return 0; }
	w->once[k] = 1;
	inside--;
	try { fn(); } catch (...) { inside++; w->once[k] = 0; throw; }
	inside++;
	w->once[k] = 2;
	*(volatile int*) o = 2;
	w->atomics[k] = me->vc;
	bump(*me);
	return 0;
}
int sched_yield (void) { if (on()) sched::yield(); return 0; }
typedef int (*ns_t) (const struct timespec*, struct timespec*);
int nanosleep (const struct timespec* t, struct timespec* r) { PASS("nanosleep", ns_t, t, r); sched::yield(); return 0; }
typedef int (*cns_t) (clockid_t, int, const struct timespec*, struct timespec*);
int clock_nanosleep (clockid_t k, int fl, const struct timespec* t, struct timespec* r) { PASS("clock_nanosleep", cns_t, k, fl, t, r); sched::yield(); return 0; }

// std::future
bool _ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE (void*, unsigned* a, unsigned v, bool timed, long, long)
{
	In in;
	point();
	if (__atomic_load_n(a, __ATOMIC_SEQ_CST) != v) return true;
	auto woken = std::make_shared<bool>(false);
	w->futexes[(size_t) a].push_back({woken, me->id});
	me->timed = timed; me->timedout = false;
	block([woken]{ return *woken; });
	me->timed = false;
	return !me->timedout;
}
void _ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj (unsigned* a)
{
	In in;
	point();
	for (auto& x : w->futexes[(size_t) a]) *x.first = true;
	w->futexes.erase((size_t) a);
}

// ---- instrumentation ----
void __tsan_init (void) {}
void __tsan_func_entry (void*) {}
void __tsan_func_exit (void) {}
static void acc (const volatile void* p, size_t n, bool wr)
{
	if (!on()) return;
	ended_check(p, wr ? "write" : "read");
	access((size_t) p, n, wr);
}
#define RW(n) \
void __tsan_read##n (void* p) { acc(p, n, false); } \
void __tsan_write##n (void* p) { acc(p, n, true); } \
void __tsan_volatile_read##n (void* p) { acc(p, n, false); } \
void __tsan_volatile_write##n (void* p) { acc(p, n, true); } \
void __tsan_unaligned_read##n (void* p) { acc(p, n, false); } \
void __tsan_unaligned_write##n (void* p) { acc(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range (void* p, size_t n) { acc(p, n, false); }
void __tsan_write_range (void* p, size_t n) { acc(p, n, true); }
void __tsan_vptr_update (void** p, void* v) { if (*p != v) acc(p, 8, true); }
void __tsan_vptr_read (void** p) { acc(p, 8, false); }
static bool acq (int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static bool rel (int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void before (const volatile void* p, bool sp)
{
	In in;
	if (sp) point();
	ended_check(p, "use"); dead_check((size_t) p, "use");
}
static void sync_ (const volatile void* p, int mo, bool ld, bool st)
{
	In in;
	clk_t& vc = w->atomics[(size_t) p];
	if (ld && acq(mo)) join_clk(me->vc, vc);
	if (st) { if (rel(mo)) { if (ld) join_clk(vc, me->vc); else vc = me->vc; bump(*me); } else if (!ld) vc.clear(); }
}
// reference counts (32 bit additions) are no decision points: nothing is decided by their order
#define AT(bits, T) \
T __tsan_atomic##bits##_load (const volatile T* p, int mo) { if (!on()) return __atomic_load_n(p, __ATOMIC_SEQ_CST); before(p, true); T v = *p; sync_(p, mo, true, false); return v; } \
void __tsan_atomic##bits##_store (volatile T* p, T v, int mo) { if (!on()) { __atomic_store_n(p, v, __ATOMIC_SEQ_CST); return; } before(p, true); *p = v; sync_(p, mo, false, true); } \
T __tsan_atomic##bits##_exchange (volatile T* p, T v, int mo) { if (on()) before(p, true); T o = __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); if (on()) sync_(p, mo, true, true); return o; } \
T __tsan_atomic##bits##_fetch_add (volatile T* p, T v, int mo) { if (on()) before(p, bits != 32); T o = __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); if (on()) sync_(p, mo, true, true); return o; } \
T __tsan_atomic##bits##_fetch_sub (volatile T* p, T v, int mo) { if (on()) before(p, bits != 32); T o = __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); if (on()) sync_(p, mo, true, true); return o; } \
T __tsan_atomic##bits##_fetch_and (volatile T* p, T v, int mo) { if (on()) before(p, true); T o = __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); if (on()) sync_(p, mo, true, true); return o; } \
T __tsan_atomic##bits##_fetch_or (volatile T* p, T v, int mo) { if (on()) before(p, true); T o = __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); if (on()) sync_(p, mo, true, true); return o; } \
T __tsan_atomic##bits##_fetch_xor (volatile T* p, T v, int mo) { if (on()) before(p, true); T o = __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); if (on()) sync_(p, mo, true, true); return o; } \
int __tsan_atomic##bits##_compare_exchange_strong (volatile T* p, T* c, T v, int mo, int) { if (on()) before(p, bits != 32); int r = __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); if (on()) sync_(p, mo, true, r); return r; } \
int __tsan_atomic##bits##_compare_exchange_weak (volatile T* p, T* c, T v, int mo, int m2) { return __tsan_atomic##bits##_compare_exchange_strong(p, c, v, mo, m2); } \
T __tsan_atomic##bits##_compare_exchange_val (volatile T* p, T c, T v, int mo, int m2) { __tsan_atomic##bits##_compare_exchange_strong(p, &c, v, mo, m2); return c; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence (int) {}
void __tsan_atomic_signal_fence (int) {}
}
