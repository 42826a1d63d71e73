// threads: stoppable threads. Every interleaving of threads that wait for or poll their stop flag
// with those that stop, join, move and destroy them.
#include "sched.hpp"
#include "thread/stoppable_thread.hpp"
using namespace sched;
using nnet::stoppable_thread;

// what happened, unseen by the race detector
#define QUIET __attribute__((no_sanitize_thread, noinline))
static int g_begun[8], g_ended[8], g_stopped[8], g_last;
QUIET static void reset (void) { for (int i = 0; i < 8; i++) g_begun[i] = g_ended[i] = g_stopped[i] = 0; g_last = 0; }
QUIET static void begun (int i) { g_begun[i]++; }
QUIET static void ended (int i) { g_ended[i]++; }
QUIET static void stopping (int i) { g_stopped[i]++; }
QUIET static int has_begun (int i) { return g_begun[i]; }
QUIET static int has_ended (int i) { return g_ended[i]; }
QUIET static int was_stopped (int i) { return g_stopped[i]; }

enum { WAIT, POLL, BRIEF, POLLWAIT, NBODY };
struct Mark { int i; Mark (int i) : i(i) { begun(i); } ~Mark (void) { ended(i); } };
static void body (int i, int kind)
{
	Mark m(i);
	if (kind == WAIT) { nnet::stop_wait(); check(was_stopped(i), "a thread went on although it was not stopped"); }
	if (kind == POLLWAIT)
	{
		try { nnet::stop_throw(); }
		catch (nnet::thread_interrupted const&) { check(was_stopped(i), "a thread was interrupted although it was not stopped"); throw; }
		nnet::stop_wait();
		check(was_stopped(i), "a thread went on although it was not stopped");
		bool thrown = false;
		try { nnet::stop_throw(); } catch (nnet::thread_interrupted const&) { thrown = true; }
		check(thrown, "a stopped thread was not interrupted");
	}
	if (kind == POLL) for (;;)
	{
		try { nnet::stop_throw(); }
		catch (nnet::thread_interrupted const&) { check(was_stopped(i), "a thread was interrupted although it was not stopped"); throw; }
		yield();
	}
}
// one thread
static void single (mc::Ctx& c)
{
	int kind = c.choose(NBODY), n = 1 + c.choose(3);
	std::vector<int> ops;
	for (int i = 0; i < n; i++) ops.push_back(c.choose(4));
	c.note("body %d", kind);
	reset();
	explore(c, c.thorough() ? 4 : 3, 1, [&]
	{
		long before = live();
		{
			stoppable_thread t(body, 0, kind);
			check(t.joinable(), "a running thread is not joinable");
			for (int op : ops) switch (op)
			{
			case 0: note("stop"); stopping(0); t.stop(); break;
			case 1: note("let it run"); for (int k = 0; k < 3 && waiting() + has_ended(0) < 1; k++) yield(); break;
			case 2: if (!t.joinable() || (kind != BRIEF && !was_stopped(0))) break; note("join"); t.join(); check(has_ended(0), "joined, but not at its end"); check(!t.joinable(), "joinable after it was joined"); break;
			case 3: { note("move"); bool j = t.joinable(); stoppable_thread o(std::move(t)); check(!t.joinable() && o.joinable() == j, "the thread did not move along"); t.stop(); t = std::move(o); o.stop(); check(!o.joinable() && t.joinable() == j, "the thread did not move back"); break; }
			}
			if (kind != BRIEF) { stopping(0); t.stop(); }
		}
		check(has_begun(0) == 1, "the body ran %d times", has_begun(0));
		check(has_ended(0) == 1, "destroyed, but the thread has not ended");
		check(live() == before, "%ld blocks are left", live() - before);
	});
	c.state(mc::fmt("s %d %d", kind, n));
}
// several threads and handles
static void handles (mc::Ctx& c, int depth, int preemptions)
{
	reset();
	explore(c, preemptions, 0, [&]
	{
		long before = live();
		{
			std::unique_ptr<stoppable_thread> h[2];
			int id[2] = {-1, -1}, threads = 0; bool joined[2] = {false, false};
			std::string st;
			for (int d = 0; d < depth; d++)
			{
				int op = choose(8), x = choose(2), y = 1 - x;
				switch (op)
				{
				case 0: if (h[x]) { d = depth; break; } note("default %d", x); h[x].reset(new stoppable_thread()); id[x] = -1; break;
				case 1: if (h[x] || threads == 3) { d = depth; break; } note("start %d", x); id[x] = threads++; joined[x] = false; h[x].reset(new stoppable_thread(body, (int) id[x], id[x] & 1 ? (int) POLL : (int) WAIT)); break;
				case 2: if (!h[x] || h[y]) { d = depth; break; } note("move %d", x); h[y].reset(new stoppable_thread(std::move(*h[x]))); id[y] = id[x]; joined[y] = joined[x]; id[x] = -1; break;
				case 3: if (!h[x] || !h[y] || (id[y] >= 0 && (!joined[y] || !was_stopped(id[y])))) { d = depth; break; } note("move assign %d", x); *h[y] = std::move(*h[x]); id[y] = id[x]; joined[y] = joined[x]; id[x] = -1; break;
				case 4: if (!h[x]) { d = depth; break; } note("stop %d", x); if (id[x] >= 0) stopping(id[x]); h[x]->stop(); break;
				case 5: if (!h[x] || id[x] < 0 || joined[x] || !was_stopped(id[x])) { d = depth; break; } note("join %d", x); h[x]->join(); joined[x] = true; check(has_ended(id[x]), "joined, but not at its end"); break;
				case 6: if (!h[x] || id[x] < 0 || joined[x]) { d = depth; break; } note("detach %d", x); h[x]->detach(); joined[x] = true; break;
				case 7: if (!h[x] || (id[x] >= 0 && !was_stopped(id[x]))) { d = depth; break; } note("delete %d", x); h[x].reset(); if (id[x] >= 0 && !joined[x]) check(has_ended(id[x]), "destroyed, but the thread has not ended"); id[x] = -1; break;
				}
				for (int k = 0; k < 2; k++) if (h[k])
				{
					check(h[k]->joinable() == (id[k] >= 0 && !joined[k]), "joinable() of %d is wrong", k);
					st += mc::fmt("%d%d", id[k], joined[k]);
				}
				for (int k = 0; k < threads; k++) check(!has_ended(k) || was_stopped(k), "thread %d ended without being stopped", k);
			}
			// everyone ends who is stopped, nobody else does
			for (int k = 0; k < 4; k++) yield();
			for (int k = 0; k < threads; k++) check(!has_ended(k) || was_stopped(k), "thread %d ended without being stopped", k);
			for (int k = 0; k < 2; k++) if (h[k] && id[k] >= 0) { stopping(id[k]); h[k]->stop(); }
			for (int k = 0; k < 2; k++) { h[k].reset(); if (id[k] >= 0 && !joined[k]) check(has_ended(id[k]), "destroyed, but the thread has not ended"); }
			c.state("v" + st);
		}
		if (running() == 1) check(live() == before, "%ld blocks are left", live() - before);
	});
}
static void several (mc::Ctx& c) { handles(c, c.thorough() ? 7 : 6, 0); }
static void preempted (mc::Ctx& c) { handles(c, c.thorough() ? 5 : 4, 1); }
// two threads stop the same one
static void stoppers (mc::Ctx& c)
{
	int kind = c.choose(NBODY), n = 1 + c.choose(2);
	reset();
	explore(c, c.thorough() ? 3 : 2, 0, [&]
	{
		{
			stoppable_thread t(body, 0, kind);
			std::vector<std::thread> s;
			for (int i = 0; i < n; i++) s.emplace_back([&t]{ stopping(0); t.stop(); });
			for (std::thread& x : s) x.join();
		}
		check(has_ended(0) == 1, "destroyed, but the thread has not ended");
	});
	c.state(mc::fmt("t %d %d", kind, n));
}
// arguments reach the body, later threads start unstopped
static void bodies (mc::Ctx& c)
{
	int v = c.choose(3), again = c.choose(3);
	reset();
	explore(c, 2, 0, [&]
	{
		for (int r = 0; r <= again; r++)
		{
			int got = 0; std::string text;
			{
				std::vector<int> arg(4, v);
				std::string s = mc::fmt("value %d, long enough to live on the heap", v);
				stoppable_thread t([&got, &text](const std::vector<int>& a, const std::string& b, int k)
				{
					bool thrown = false;
					try { nnet::stop_throw(); } catch (nnet::thread_interrupted const&) { thrown = true; }
					check(!thrown, "a new thread is stopped from the start");
					for (int x : a) got += x;
					got += k; text = b;
				}, arg, s, 10);
				arg.clear(); s = "overwritten";
			}
			check(got == 4 * v + 10, "the arguments arrive as %d", got);
			check(text == mc::fmt("value %d, long enough to live on the heap", v), "the text arrives as %s", text.c_str());
			{ stoppable_thread t(body, r, (int) WAIT); stopping(r); t.stop(); }
		}
	});
	c.state(mc::fmt("b %d %d", v, again));
}
int main (int argc, char** argv)
{
	return mc::run(argc, argv, { {"single", single, 6}, {"several", several, 6}, {"preempted", preempted, 6}, {"stoppers", stoppers, 5}, {"bodies", bodies, 4} });
}
