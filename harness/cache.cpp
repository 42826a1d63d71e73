// cache: the cache shared by one producer and several consumers. Every history of calls, and
// every interleaving of concurrent calls, is compared with a list of the latest values per key.
#include "sched.hpp"
#include <functional>
#include <condition_variable>
#include <thread>
#include <mutex>
#include "thread/shareable_cache.hpp"
using namespace sched;

struct Item { int key, seq; };
typedef nnet::shareable_cache<int,Item> cache_t;
typedef std::shared_ptr<nnet::cache_node<Item> > iter_t;
static int hash (const Item& i) { return i.key; }

// ---- single calls against the model ----
struct Model
{
	std::vector<Item> list; int seq = 0;
	void add (int k) { for (size_t i = 0; i < list.size(); i++) if (list[i].key == k) { list.erase(list.begin() + i); break; } list.push_back({k, ++seq}); }
	const Item* next (int pos) { for (Item& i : list) if (i.seq > pos) return &i; return nullptr; }
};
static void histories (mc::Ctx& c)
{
	int depth = c.thorough() ? 8 : 7;
	explore(c, 0, 0, [&]
	{
		long before = live();
		{
			Model m;
			std::unique_ptr<cache_t> cache(new cache_t(hash));
			iter_t it[2]; int pos[2] = {0, 0}, keys = 0;
			for (int d = 0; d < depth; d++)
			{
				int op = choose(4 + std::min(keys + 1, 3));
				if (op >= 4)
				{
					int k = op - 4;
					note("add key %d", k);
					if (k == keys) keys++;
					m.add(k);
					cache->add_latest({k, m.seq});
				}
				else if (op == 3)
				{
					if (!pos[0] || pos[0] == pos[1]) return;
					note("consumer 1 takes over consumer 0's place");
					it[1] = it[0]; pos[1] = pos[0];
				}
				else if (op == 2)
				{
					if (!pos[0]) return;
					note("consumer 0 starts over");
					it[0] = nullptr; pos[0] = 0;
				}
				else
				{
					const Item* want = m.next(pos[op]);
					note("consumer %d", op);
					if (want)
					{
						optional<Item> got = cache->get_latest(it[op]);
						check((bool) got, "nothing returned, although value %d of key %d is unread", want->seq, want->key);
						check(got->seq == want->seq && got->key == want->key, "value %d of key %d instead of value %d of key %d", got->seq, got->key, want->seq, want->key);
						pos[op] = want->seq;
					}
					else
					{
						// waits for the next value
						bool ended = false;
						optional<Item> got;
						std::thread t([&]{ got = cache->get_latest(it[op]); ended = true; });
						for (int k = 0; k < 20 && !waiting() && running() > 1; k++) yield();
						check(waiting() == 1, "nothing is unread, but the call did not wait%s", running() == 1 ? got ? ": a value was returned" : "" : "");
						int wake = choose(2);
						if (wake) { note("new value"); m.add(0); keys = std::max(keys, 1); cache->add_latest({0, m.seq}); }
						else { note("escape"); cache->escape_wait(); }
						t.join();
						if (wake && got) // may be handed out at once
						{
							check(got->seq == m.seq, "woken with value %d", got->seq);
							pos[op] = m.seq;
						}
						else check(!got, "woken with value %d", got ? got->seq : 0);
					}
				}
				c.state(mc::fmt("h %d %d %d %zu %d", keys, m.seq - pos[0], m.seq - pos[1], m.list.size(), m.list.empty() ? 0 : m.list.back().key));
			}
			int order = choose(3);
			if (order == 0) { it[0] = nullptr; cache.reset(); }
			if (order == 1) { cache.reset(); it[1] = nullptr; }
			if (order == 2) { it[0] = it[1] = nullptr; }
		}
		check(live() == before, "%ld blocks are left of the cache", live() - before);
	});
}

// ---- concurrent calls ----
struct Span { int key, seq; unsigned long from, to; };
struct Log { std::vector<Span> adds; };
static bool superseded (const Log& l, const Span& a, unsigned long when, bool ended)
{
	for (const Span& b : l.adds) if (b.key == a.key && b.seq > a.seq && (ended ? b.to < when : b.from < when)) return true;
	return false;
}
static void consume (cache_t& cache, std::vector<Span>& got, int end)
{
	iter_t it;
	for (;;)
	{
		unsigned long from = now();
		optional<Item> v = cache.get_latest(it);
		unsigned long to = now();
		got.push_back(v ? Span{v->key, v->seq, from, to} : Span{-1, -1, from, to});
		if (v && v->key == end) return;
		check(got.size() < 40, "a consumer is fed forever");
	}
}
static void judge (const Log& l, const std::vector<Span>& got, int who)
{
	int pos = 0;
	for (const Span& g : got)
	{
		if (g.seq < 0)
		{
			for (const Span& a : l.adds) check(!(a.seq > pos && a.to < g.from && !superseded(l, a, g.to, false)),
				"consumer %d got nothing, although value %d of key %d was there before it asked", who, a.seq, a.key);
			continue;
		}
		check(g.seq > pos, "consumer %d got value %d after value %d", who, g.seq, pos);
		check(g.seq <= (int) l.adds.size() && l.adds[g.seq - 1].key == g.key, "consumer %d got value %d, which was never added", who, g.seq);
		check(!superseded(l, l.adds[g.seq - 1], g.from, true), "consumer %d got value %d of key %d, which was replaced before it asked", who, g.seq, g.key);
		for (int r = pos + 1; r < g.seq; r++) check(superseded(l, l.adds[r - 1], g.to, false), "consumer %d never gets value %d of key %d, which nothing replaced", who, r, l.adds[r - 1].key);
		pos = g.seq;
	}
}
static void concurrent (mc::Ctx& c)
{
	int nadd = c.choose(c.thorough() ? 5 : 4), ncons = 1 + c.choose(2), first = c.choose(2);
	std::vector<int> keys;
	int used = 0;
	for (int i = 0; i < nadd; i++) { int k = c.choose(std::min(used + 1, 2)); if (k == used) used++; keys.push_back(k); }
	keys.push_back(9);
	c.note("%zu adds, %d consumers", keys.size(), ncons);
	explore(c, (nadd + ncons > 3 ? 2 : 3) + c.thorough(), c.thorough(), [&]
	{
		long before = live();
		{
			Log log; std::vector<Span> got[2];
			for (int r = 0; r < 2; r++) got[r].reserve(64);
			log.adds.reserve(8);
			{
				cache_t cache(hash);
				std::vector<std::thread> cons;
				auto start = [&]{ for (int i = 0; i < ncons; i++) cons.emplace_back([&cache,&got,i]{ consume(cache, got[i], 9); }); };
				if (first) start();
				for (size_t i = 0; i < keys.size(); i++)
				{
					unsigned long from = now();
					cache.add_latest({keys[i], (int) i + 1});
					log.adds.push_back({keys[i], (int) i + 1, from, now()});
				}
				if (!first) start();
				for (std::thread& t : cons) t.join();
			}
			for (int i = 0; i < ncons; i++) { judge(log, got[i], i); c.state(mc::fmt("c %d %zu %d", nadd, got[i].size(), got[i][0].seq)); }
		}
		check(live() == before, "%ld blocks are left of the cache", live() - before);
	});
}
// one call frees every waiting consumer
static void escape (mc::Ctx& c)
{
	int n = 1 + c.choose(3), nadd = c.choose(3);
	c.note("%d consumers, %d values", n, nadd);
	explore(c, n == 3 ? c.thorough() : n == 2 ? 1 + c.thorough() : 2 + c.thorough(), 0, [&]
	{
		cache_t cache(hash);
		for (int i = 0; i < nadd; i++) cache.add_latest({i, i + 1});
		std::vector<std::thread> cons;
		std::vector<int> none(n, 0);
		for (int i = 0; i < n; i++) cons.emplace_back([&cache,&none,i,nadd]
		{
			iter_t it;
			for (int k = 0; k < nadd; k++) { optional<Item> v = cache.get_latest(it); check(v && v->seq == k + 1, "value %d is missing", k + 1); }
			optional<Item> v = cache.get_latest(it);
			check(!v, "value %d is delivered again", v ? v->seq : 0);
			none[i]++;
		});
		while (waiting() < n) yield();
		cache.escape_wait();
		for (std::thread& t : cons) t.join();
		for (int x : none) check(x == 1, "a consumer was not let go");
		c.state(mc::fmt("e %d %d", n, nadd));
	});
}
int main (int argc, char** argv)
{
	return mc::run(argc, argv, { {"histories", histories, 4}, {"concurrent", concurrent, 7}, {"escape", escape, 4} });
}
