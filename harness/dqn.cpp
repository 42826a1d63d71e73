// dqn: deep q-learning. Every history of storing, training, acting, copying and restoring is
// compared with a reference: which experiences are remembered, when a training step happens,
// and what it does to both networks for each mini batch it may have drawn.
#include "net_ref.hpp"
#include "models/dq_net.hpp"
#include <fstream>
using namespace ref;
using rocnnet::dq_net;
using rocnnet::dqn_param;

// every draw of the standard library's generator is a choice of the explorer
static mc::Ctx* g_ctx = nullptr;
static int g_draws = 0, g_asked = 0;
extern "C" int rand (void)
{
	if (!g_ctx) return 4;
	if (++g_asked > 400) g_ctx->fail("the generator is asked again and again");
	if (g_draws < 3) return g_ctx->choose(g_draws++ ? 3 : 2);
	return g_asked;
}

struct Exp { vec obs; size_t act; double rew; vec next; };
static const size_t NIN = 2;
static Exp experience (int k, size_t nout)
{
	Exp e;
	e.obs = data(NIN, 3 + k); e.act = k % nout; e.rew = 1.5 * std::cos(k) - 0.25;
	if (k % 3 != 2) e.next = data(NIN, 30 + k);
	return e;
}
struct Model
{
	Net net; Opt o; dqn_param par;
	params src, tar;
	std::vector<Exp> mem;
	size_t stores = 0, trains = 0, iterations = 0, actions = 0;
	void store (const Exp& e)
	{
		if (stores++ % par.store_interval_) return;
		mem.push_back(e);
		if (mem.size() > par.max_exp_) mem.erase(mem.begin()); // the oldest goes
	}
	// true if a step is due
	bool train (void)
	{
		if (trains % par.train_interval_) { trains++; return false; }
		if (mem.size() < par.mini_batch_size_) return false;
		trains++; iterations++;
		return true;
	}
	void step (const std::vector<size_t>& idx)
	{
		size_t B = idx.size(), O = net.n.back();
		vec x, g(O * B, 0);
		for (size_t i : idx) x.insert(x.end(), mem[i].obs.begin(), mem[i].obs.end());
		vec out = net.forward(src, x);
		for (size_t b = 0; b < B; b++)
		{
			const Exp& e = mem[idx[b]];
			double want = e.rew;
			if (!e.next.empty()) { vec q = net.forward(tar, e.next); want += par.discount_rate_ * *std::max_element(q.begin(), q.end()); }
			g[e.act + b * O] = 2.0 / B * (out[e.act + b * O] - want);
		}
		params gr = net.backward(src, x, g);
		for (vec& v : gr)
		{
			double n = 0;
			for (double d : v) n += d * d;
			n = std::sqrt(n);
			if (n > 5) for (double& d : v) d *= 5 / n;
		}
		o.step(src, gr);
		for (size_t i = 0; i < tar.size(); i++) for (size_t k = 0; k < tar[i].size(); k++) tar[i][k] -= par.target_update_rate_ * (tar[i][k] - src[i][k]);
	}
};
static bool readfile (const std::string& f, const std::string& label, size_t n, params& p)
{
	tenncor::repository r;
	std::ifstream in(f, std::ios::binary);
	if (!r.ParseFromIstream(&in)) return false;
	p.clear();
	for (size_t i = 0; i < n; i++)
	{
		auto it = r.node_map().find(label + ":" + std::to_string(i));
		if (it == r.node_map().end()) return false;
		vec v(it->second.data().size() / 8);
		memcpy(v.data(), it->second.data().data(), v.size() * 8);
		p.push_back(v);
	}
	return true;
}
static bool equal (const params& a, const params& b)
{
	if (a.size() != b.size()) return false;
	for (size_t i = 0; i < a.size(); i++)
	{
		if (a[i].size() != b[i].size()) return false;
		for (size_t k = 0; k < a[i].size(); k++) if (!mc::close(a[i][k], b[i][k], 1e-7, 1e-7)) return false;
	}
	return true;
}
static std::string pstr (const params& p) { std::string s; for (auto& v : p) s += mc::vstr(v); return s; }

struct Agent { std::unique_ptr<dq_net> q; Model m; bool empty = false; };
static void look (mc::Ctx& c, Agent& a, params& s, params& t)
{
	std::string f = c.scratch() + "/q.pbx";
	remove(f.c_str());
	c.check(a.q->save(f, "L"), "saving failed");
	size_t n = 2 * a.m.net.layers();
	c.check(readfile(f, "L", n, s), "the source network is not in the file");
	c.check(readfile(f, "target_L", n, t), "the target network is not in the file");
}
// put known values into both networks
static void seed (mc::Ctx& c, Agent& a, int k)
{
	std::string f = c.scratch() + "/s.pbx";
	remove(f.c_str());
	std::unique_ptr<rocnnet::mlp> s(a.m.net.make("tmp")), t(a.m.net.make("tmp2"));
	fill(s->get_variables(), k); fill(t->get_variables(), k + 7);
	a.m.src = values(s->get_variables()); a.m.tar = values(t->get_variables());
	c.check(s->save(f, "W") && t->save(f, "target_W"), "saving failed");
	a.q->initialize(f, "W");
}
static void verify (mc::Ctx& c, Agent& a)
{
	params s, t;
	look(c, a, s, t);
	compare(c, s, a.m.src, "source network");
	compare(c, t, a.m.tar, "target network");
	c.check(a.q->get_numtrained() == a.m.iterations, "%zu training steps counted instead of %zu", a.q->get_numtrained(), a.m.iterations);
	vec x = data(NIN, 77), want = a.m.net.forward(a.m.src, x), got = (*a.q)(x);
	for (size_t k = 0; k < want.size(); k++) c.check(mc::close(got[k], want[k], 1e-7, 1e-7), "the scores are %s instead of %s", mc::vstr(got).c_str(), mc::vstr(want).c_str());
}
static void train (mc::Ctx& c, Agent& a)
{
	g_ctx = &c; g_asked = 0;
	a.q->train();
	g_ctx = nullptr;
	if (!a.m.train()) return;
	params s, t;
	look(c, a, s, t);
	// any mini batch of distinct experiences may have been drawn
	size_t B = a.m.par.mini_batch_size_, N = a.m.mem.size();
	std::vector<size_t> idx;
	Model hit; bool found = false;
	std::vector<bool> mask(N, false);
	std::fill(mask.begin(), mask.begin() + B, true);
	std::string closest;
	do
	{
		idx.clear();
		for (size_t i = 0; i < N; i++) if (mask[i]) idx.push_back(i);
		Model m = a.m;
		m.step(idx);
		if (equal(m.src, s) && equal(m.tar, t)) { hit = m; found = true; break; }
		closest = pstr(m.src) + " / " + pstr(m.tar);
	}
	while (std::prev_permutation(mask.begin(), mask.end()));
	c.check(found, "training on %zu of %zu experiences gave %s / %s, which no choice of them gives (for example %s)", B, N, pstr(s).c_str(), pstr(t).c_str(), closest.c_str());
	a.m = hit;
}
static Agent make (const Net& net, bool rms, const dqn_param& par, int serial)
{
	Agent a;
	g_draws = 0;
	a.m.net = net; a.m.par = par; a.m.o.rms = rms; a.m.o.lr = rms ? 0.05 : 0.1; a.m.o.disc = 0.9;
	std::unique_ptr<gd_updater> up;
	if (rms) up.reset(new rmspropupdater(a.m.o.lr, a.m.o.disc)); else up.reset(new vgb_updater(a.m.o.lr));
	a.q.reset(new dq_net(net.make(mc::fmt("brain%d", serial)), *up, par, mc::fmt("dqn%d", serial)));
	return a;
}
static const std::vector<Net> NETS = { Net({NIN, 2}, {1}), Net({NIN, 2, 2}, {2, 1}), Net({NIN, 3}, {0}), Net({NIN, 1}, {1}) };

// the arithmetic of one and two steps
static void steps (mc::Ctx& c)
{
	const Net& net = NETS[c.choose(NETS.size())];
	bool rms = c.flip();
	dqn_param par;
	static const double DISC[] = {0.5, 0.95}, RATE[] = {0.25, 0.5};
	par.discount_rate_ = DISC[c.choose(2)]; par.target_update_rate_ = RATE[c.choose(2)];
	par.train_interval_ = 1; par.store_interval_ = 1; par.mini_batch_size_ = 1 + c.choose(3);
	par.max_exp_ = 4;
	c.note("network %s, %s, discount %g, target rate %g, mini batches of %zu", mc::vstr(net.n).c_str(), rms ? "rmsprop" : "gradient descent", par.discount_rate_, par.target_update_rate_, par.mini_batch_size_);
	Agent a = make(net, rms, par, 1);
	seed(c, a, 1 + c.choose(2));
	int k = c.choose(3);
	for (size_t i = 0; i < par.mini_batch_size_; i++)
	{
		Exp e = experience(k + i, net.n.back());
		a.q->store(e.obs, e.act, e.rew, e.next); a.m.store(e);
	}
	for (int s = 0; s < 3; s++)
	{
		g_ctx = nullptr; // all experiences are drawn, their order does not matter
		c.step("train");
		a.q->train();
		c.check(a.m.train(), "internal");
		std::vector<size_t> all(a.m.mem.size());
		for (size_t i = 0; i < all.size(); i++) all[i] = i;
		a.m.step(all);
		verify(c, a);
	}
	c.state(mc::fmt("st %zu %d %g %g %zu %d", net.n.size() * 10 + net.n.back(), rms, par.discount_rate_, par.target_update_rate_, par.mini_batch_size_, k));
}
// which experiences are remembered, when training happens
static void memory (mc::Ctx& c)
{
	dqn_param par;
	par.train_interval_ = 1 + c.choose(2); par.store_interval_ = 1 + c.choose(2);
	par.mini_batch_size_ = 1 + c.choose(2); par.max_exp_ = par.mini_batch_size_ + c.choose(3);
	par.discount_rate_ = 0.5; par.target_update_rate_ = 0.5;
	c.note("train every %zu, store every %zu, batches of %zu, memory of %zu", par.train_interval_, par.store_interval_, par.mini_batch_size_, par.max_exp_);
	Agent a = make(NETS[0], false, par, 1);
	seed(c, a, 1);
	int k = 0, depth = c.thorough() ? 8 : 6;
	std::string st = mc::fmt("me %zu %zu %zu %zu ", par.train_interval_, par.store_interval_, par.mini_batch_size_, par.max_exp_);
	for (int d = 0; d < depth; d++)
	{
		if (c.flip())
		{
			Exp e = experience(k++, 2);
			c.step("store experience %d", k - 1);
			a.q->store(e.obs, e.act, e.rew, e.next); a.m.store(e);
		}
		else
		{
			c.step("train");
			train(c, a);
		}
		c.check(a.q->get_numtrained() == a.m.iterations, "%zu training steps counted instead of %zu", a.q->get_numtrained(), a.m.iterations);
		st += mc::fmt("%d", (int) a.m.iterations);
	}
	// what is remembered shows in the next step
	while (a.m.mem.size() < par.mini_batch_size_) { Exp e = experience(k++, 2); a.q->store(e.obs, e.act, e.rew, e.next); a.m.store(e); }
	for (size_t n = a.m.iterations; n == a.m.iterations;) train(c, a);
	verify(c, a);
	c.state(st);
}
static void actions (mc::Ctx& c)
{
	const Net& net = NETS[c.choose(NETS.size())];
	size_t nout = net.n.back();
	int mode = c.choose(4); // 0 never random, 1 always random, 2 greedy after a period, 3 annealing
	dqn_param par;
	par.rand_action_prob_ = mode == 1 ? 1 : 0;
	par.exploration_period_ = mode == 0 ? 0 : mode == 1 ? 0 : mode == 2 ? 1 + c.choose(4) : 10;
	c.note("network %s, random actions with probability %g after %g actions", mc::vstr(net.n).c_str(), par.rand_action_prob_, par.exploration_period_);
	Agent a = make(net, false, par, 1);
	int sd = c.choose(4);
	seed(c, a, 1 + sd);
	nnutils::seed_generator(100 + sd);
	std::set<size_t> used;
	int greedy = 0, n = mode == 1 ? 64 : 12;
	for (int d = 0; d < n; d++)
	{
		vec x = data(NIN, d), q = net.forward(a.m.src, x);
		double got = a.q->action(x);
		c.step("action %g", got);
		c.check(got == std::floor(got) && got >= 0 && got < nout, "action %g of %zu", got, nout);
		size_t best = std::max_element(q.begin(), q.end()) - q.begin();
		if (mode == 0 || (mode == 2 && d + 1 >= par.exploration_period_) || (mode == 3 && d >= 10))
			c.check(got == best, "action %g, but %zu has the best score of %s", got, best, mc::vstr(q).c_str());
		used.insert((size_t) got); greedy += got == best;
	}
	if (mode == 1) c.check(used.size() == nout, "%zu of %zu actions were ever taken at random", used.size(), nout);
	c.state(mc::fmt("ac %zu %d %g %d", nout, mode, par.exploration_period_, sd));
}
// histories over two agents
static void copies (mc::Ctx& c)
{
	bool rms = c.flip();
	dqn_param par;
	par.train_interval_ = 1; par.store_interval_ = 1; par.mini_batch_size_ = 1; par.max_exp_ = 2;
	par.discount_rate_ = 0.5; par.target_update_rate_ = 0.5; par.rand_action_prob_ = 0; par.exploration_period_ = 0;
	const Net& net = NETS[c.thorough() ? c.choose(2) : rms]; // one with layers of equal sizes
	Agent s[2];
	s[0] = make(net, rms, par, 1);
	seed(c, s[0], 1);
	Exp e0 = experience(0, 2);
	s[0].q->store(e0.obs, e0.act, e0.rew, e0.next); s[0].m.store(e0);
	c.note("%s", rms ? "rmsprop" : "gradient descent");
	int depth = c.thorough() ? 4 : 3;
	for (int d = 0; d < depth; d++)
	{
		int op = c.choose(10), x = c.choose(2);
		Agent &f = s[x], &g = s[1-x];
		switch (op)
		{
		case 0: if (f.q) c.prune(); c.step("create agent %d", x); f = make(net, rms, par, 5 + d); seed(c, f, 3 + d); break;
		case 1: if (!f.q || f.empty || g.q) c.prune(); c.step("copy agent %d", x); g.m = f.m; g.m.o.mom.clear(); g.empty = false; g.q.reset(new dq_net(*f.q, "copied")); break;
		case 2: if (!f.q || f.empty || g.q) c.prune(); c.step("move agent %d", x); g.m = f.m; g.empty = false; g.q.reset(new dq_net(std::move(*f.q), "moved")); f.empty = true; g.m.o.mom.clear(); break;
		case 3: if (!f.q || f.empty || !g.q) c.prune(); c.step("agent %d = agent %d", 1-x, x); *g.q = *f.q; g.m = f.m; g.m.o.mom.clear(); g.empty = false; break;
		case 4: if (!f.q || f.empty || !g.q) c.prune(); c.step("agent %d = moved agent %d", 1-x, x); *g.q = std::move(*f.q); g.m = f.m; g.m.o.mom.clear(); g.empty = false; f.empty = true; break;
		case 5: if (!f.q) c.prune(); c.step("delete agent %d", x); f = Agent(); break;
		case 6: if (!f.q || f.empty) c.prune(); c.step("agent %d stores", x); { Exp e = experience(d + 1, 2); f.q->store(e.obs, e.act, e.rew, e.next); f.m.store(e); } break;
		case 7: if (!f.q || f.empty) c.prune(); c.step("agent %d trains", x); train(c, f); break;
		case 8: if (!f.q || f.empty) c.prune(); c.step("agent %d = itself", x); *f.q = *f.q; break;
		case 9: if (!f.q || f.empty || !g.q || g.empty) c.prune(); c.step("agent %d restores agent %d", 1-x, x);
			{
				std::string file = c.scratch() + "/r.pbx";
				remove(file.c_str());
				c.check(f.q->save(file, "R"), "saving failed");
				g.q->initialize(file, "R");
				g.m.src = f.m.src; g.m.tar = f.m.tar;
			}
			break;
		}
		for (Agent& a : s) if (a.q && !a.empty) verify(c, a);
	}
	// all agents still train
	for (Agent& a : s) if (a.q && !a.empty) { Exp e = experience(9, 2); a.q->store(e.obs, e.act, e.rew, e.next); a.m.store(e); train(c, a); verify(c, a); }
	c.state(mc::fmt("co %d %d %d %d %d %zu %zu", rms, (bool) s[0].q, s[0].empty, (bool) s[1].q, s[1].empty, s[0].m.mem.size(), s[1].m.mem.size()));
}
// the counters behind the intervals go along with a copy
static void counters (mc::Ctx& c)
{
	dqn_param par;
	size_t lo = c.thorough() ? 1 : 2, span = c.thorough() ? 3 : 2;
	par.train_interval_ = lo + c.choose(span); par.store_interval_ = lo + c.choose(span);
	par.mini_batch_size_ = 1; par.max_exp_ = 3; par.discount_rate_ = 0.5; par.target_update_rate_ = 0.5;
	Agent s[2];
	s[0] = make(NETS[0], false, par, 1);
	seed(c, s[0], 1);
	int k = 0;
	auto store = [&](Agent& a) { Exp e = experience(k++, 2); a.q->store(e.obs, e.act, e.rew, e.next); a.m.store(e); };
	size_t stores = c.choose(c.thorough() ? 4 : 3), trains = c.choose(c.thorough() ? 4 : 3);
	for (size_t i = 0; i < stores; i++) store(s[0]);
	for (size_t i = 0; i < trains; i++) train(c, s[0]);
	int how = c.choose(4);
	c.note("train every %zu, store every %zu; %zu stores, %zu trains", par.train_interval_, par.store_interval_, stores, trains);
	c.step("%s", how == 0 ? "copy" : how == 1 ? "move" : how == 2 ? "assign" : "move assign");
	if (how > 1)
	{
		dqn_param other = par; other.train_interval_++; other.store_interval_++;
		s[1] = make(NETS[0], false, other, 2);
		seed(c, s[1], 2);
		store(s[1]); store(s[1]); train(c, s[1]);
	}
	s[1].m = s[0].m;
	if (how == 0) s[1].q.reset(new dq_net(*s[0].q, "copied"));
	else if (how == 1) s[1].q.reset(new dq_net(std::move(*s[0].q), "moved"));
	else if (how == 2) *s[1].q = *s[0].q;
	else *s[1].q = std::move(*s[0].q);
	int n = how % 2 ? 1 : 2;
	if (n == 1) s[0] = Agent();
	std::string st = mc::fmt("cn %zu %zu %zu %zu %d ", par.train_interval_, par.store_interval_, stores, trains, how);
	for (int d = 0, depth = c.thorough() ? 5 : 3; d < depth; d++)
	{
		bool put = c.flip();
		c.step("%s", put ? "store" : "train");
		for (int i = 2 - n; i < 2; i++) { if (put) store(s[i]); else train(c, s[i]); if (d == depth - 1) verify(c, s[i]); st += mc::fmt("%zu.%zu ", (size_t) s[i].m.iterations, s[i].m.mem.size()); }
	}
	c.state(st);
}
// initialization without a usable file
static void fresh (mc::Ctx& c)
{
	dqn_param par;
	par.train_interval_ = 1; par.store_interval_ = 1; par.mini_batch_size_ = 1; par.max_exp_ = 2; par.discount_rate_ = 0.5; par.target_update_rate_ = 0.5;
	Agent a = make(NETS[c.choose(2)], c.flip(), par, 1);
	c.step("initialize");
	a.q->initialize();
	look(c, a, a.m.src, a.m.tar);
	size_t k = 0;
	for (params* p : {&a.m.src, &a.m.tar}) for (size_t l = 0; l < a.m.net.layers(); l++)
	{
		double lim = 1 / std::sqrt(a.m.net.n[l]) + 1e-12;
		for (double v : (*p)[2*l]) { c.check(v >= -lim && v <= lim, "a weight is %g", v); k++; }
		for (double v : (*p)[2*l+1]) c.check(v == 0, "a bias is %g", v);
	}
	c.check(k > 0, "no weights");
	Exp e = experience(1, a.m.net.n.back());
	a.q->store(e.obs, e.act, e.rew, e.next); a.m.store(e);
	train(c, a);
	verify(c, a);
	c.state(mc::fmt("fr %zu %d", a.m.net.layers(), a.m.o.rms));
}
int main (int argc, char** argv)
{
	return mc::run(argc, argv, { {"steps", steps, 4}, {"memory", memory, 6}, {"actions", actions, 3}, {"copies", copies, 3}, {"counters", counters, 3}, {"fresh", fresh, 2} });
}
