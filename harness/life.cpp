// node-lifetime: nodes die exactly with what they are built on; nothing dangles,
// nothing is freed twice, nothing is left behind.
#include "graph_world.hpp"
#include "graph/connector/immutable/generator.hpp"
#include "graph/connector/immutable/shape_dep.hpp"
using namespace gw;

struct Probe : public iobserver
{
	Probe (subject* s) : iobserver(std::vector<subject*>{s}, false) {}
	virtual void update (std::unordered_set<size_t>) {}
	virtual void death_on_broken (void) {}
	std::string get_label (void) const { return "probe"; }
	bool dead (void) const { return dependencies_.empty(); }
};

// a node known to the harness; constants must not be observed by the harness longer than a
// user would, so only connectors carry a probe
struct Item { inode<double>* p; std::unique_ptr<Probe> probe; int ex; bool clone; std::unique_ptr<varptr<double>, void(*)(varptr<double>*)> hold; };

static void drop (varptr<double>* v) { v->~varptr<double>(); ::operator delete((void*) v); }
static varptr<double>* hold (inode<double>* p) { void* m = ::operator new(sizeof(varptr<double>)); return ::new (m) varptr<double>(p); }

struct World
{
	mc::Ctx& c;
	inode<double>* leaf[3];
	std::unique_ptr<Probe> lp[3];
	std::vector<LeafM> L;
	std::vector<Expr> X;
	std::vector<Item> N;                 // connectors built by operations, with their clones
	std::vector<varptr<double>*> held;   // gradients and constants held by the user
	std::vector<std::pair<int,int> > heldx; // expression, leaf
	World (mc::Ctx& c) : c(c), L(3)
	{
		auto* v0 = new variable<double>(std::vector<size_t>{2}, const_init<double>(1.5), "v0");
		auto* v1 = new variable<double>(std::vector<size_t>{2}, const_init<double>(-2.5), "v1");
		auto* p0 = new placeholder<double>(std::vector<size_t>{2}, "p0");
		leaf[0] = v0; leaf[1] = v1; leaf[2] = p0;
		v0->initialize(); v1->initialize(); *p0 = vec{2, -3};
		vec vals[3] = {{1.5,1.5}, {-2.5,-2.5}, {2,-3}};
		for (int i = 0; i < 3; i++) { lp[i].reset(new Probe(leaf[i])); L[i].init = true; L[i].v = vals[i]; L[i].name = i == 0 ? "v0" : i == 1 ? "v1" : "p0"; Expr e; e.k = LEAF; e.a = i; X.push_back(e); }
	}
	bool uses (int x, int t) { if (x == t) return true; if (X[x].k == LEAF) return false; return (X[x].a >= 0 && uses(X[x].a, t)) || (X[x].b >= 0 && uses(X[x].b, t)); }
	// node reference: 0..2 leaves, 3+ items
	inode<double>* node (int i) { return i < 3 ? (L[i].alive ? leaf[i] : nullptr) : (N[i-3].probe->dead() ? nullptr : N[i-3].p); }
	int ex (int i) { return i < 3 ? i : N[i-3].ex; }
	std::vector<int> live (int from = 0) { std::vector<int> r; for (int i = from; i < 3 + (int) N.size(); i++) if (node(i)) r.push_back(i); return r; }
	int track (inode<double>* p, int x, bool clone)
	{
		for (size_t i = 0; i < N.size(); i++) if (!N[i].probe->dead() && N[i].p == p) return i + 3;
		for (int i = 0; i < 3; i++) if (L[i].alive && leaf[i] == p) return i;
		Item it{p, std::unique_ptr<Probe>(new Probe(p)), x, clone, {nullptr, drop}};
		N.push_back(std::move(it));
		return N.size() + 2;
	}
	void build (Kind k, int a, int b)
	{
		Expr e; e.k = k; e.a = ex(a); e.b = b >= 0 ? ex(b) : -1; e.s = 1.25;
		varptr<double> y; if (b >= 0) y = node(b);
		varptr<double> r = apply(e, node(a), y);
		c.check(r.get() != nullptr, "null result");
		X.push_back(e);
		if (dynamic_cast<constant<double>*>(r.get())) { held.push_back(hold(r.get())); heldx.push_back({(int) X.size() - 1, -1}); }
		else track(r.get(), X.size() - 1, false);
		c.note("%s", exname(X, L, X.size() - 1).c_str());
	}
	// which tracked nodes must be gone when node i is deleted: everything that reaches it through arguments
	void expect_deaths (const std::function<void(void)>& action, inode<double>* t)
	{
		std::vector<bool> dies(N.size(), false);
		std::function<bool(inode<double>*, inode<double>*)> above = [&](inode<double>* n, inode<double>* t) -> bool
		{
			if (n == t) return true;
			for (inode<double>* a : n->get_arguments()) if (a && above(a, t)) return true;
			return false;
		};
		std::vector<bool> was(N.size());
		for (size_t j = 0; j < N.size(); j++) { was[j] = !N[j].probe->dead(); dies[j] = was[j] && above(N[j].p, t); }
		action();
		for (size_t j = 0; j < N.size(); j++) if (was[j])
			c.check(N[j].probe->dead() == dies[j], "%s %s", exname(X, L, N[j].ex).c_str(), dies[j] ? "outlives a node it is built on" : "died although nothing it is built on did");
	}
	void check_values (void)
	{
		for (int i : live())
		{
			Dual d = evalx(X, L, ex(i));
			vec got = expose<double>(node(i));
			c.check(same(got, d.v), "%s evaluates to %s, expected %s", exname(X, L, ex(i)).c_str(), mc::vstr(got).c_str(), mc::vstr(d.v).c_str());
		}
		for (size_t h = 0; h < held.size(); h++)
		{
			if (!held[h]->get()) continue;
			Dual d = evalx(X, L, heldx[h].first);
			vec want = heldx[h].second < 0 ? d.v : d.d[heldx[h].second];
			vec got = expose<double>(held[h]->get());
			c.check(same(got, want), "held %s of %s evaluates to %s, expected %s", heldx[h].second < 0 ? "value" : "gradient", exname(X, L, heldx[h].first).c_str(), mc::vstr(got).c_str(), mc::vstr(want).c_str());
		}
	}
	void kill_leaf (int i)
	{
		expect_deaths([&] { delete leaf[i]; }, leaf[i]);
		c.check(lp[i]->dead(), "probe of a deleted leaf");
		L[i].alive = false;
	}
	void finish (void)
	{
		int order = c.thorough() ? c.choose(3, "teardown") : c.choose(2, "teardown");
		for (int q = 0; q < 3; q++) { int i = order == 0 ? q : order == 1 ? 2 - q : (q + 1) % 3; if (L[i].alive) { c.note("delete %s", L[i].name.c_str()); kill_leaf(i); } }
		for (auto& n : N) c.check(n.probe->dead(), "%s is alive although every leaf is gone", exname(X, L, n.ex).c_str());
		release();
		N.clear();
		for (auto& p : lp) p.reset();
	}
	void release (void) { for (auto* h : held) drop(h); held.clear(); heldx.clear(); }
	~World (void) {}
};

struct Op { Kind k; int a, b; };
static const std::vector<std::vector<Op> > GRAPHS = {
	{{ADD,0,1}, {SIN,3,-1}, {MUL,4,2}},
	{{MUL,0,1}, {ADD,0,2}, {SUB,3,4}, {SUB,3,4}},
	{{NEG,2,-1}, {NEG,0,-1}, {MUL,3,4}},
	{{ADD,0,2}, {ADD,0,1}, {SUB,3,4}, {SQ,5,-1}},
};
static const std::vector<Kind> KINDS = {NEG, ADD, MUL, SUB, SADD, SIN};

static void go (mc::Ctx& c, int depth)
{
	// the shared constants keep the hash buckets they once needed
	static bool warm = false;
	if (!warm) { warm = true; std::vector<varptr<double>*> t; for (int i = 0; i < 400; i++) { t.push_back(hold(constant<double>::get_shared_zero())); t.push_back(hold(constant<double>::get_shared_one())); } for (auto* x : t) drop(x); }
	{ variable<double> w(1.0, "warm"); varptr<double> r = -varptr<double>(&w); r->derive(&w); r->eval(); }
	long live0 = mc::live_blocks();
	{
	World w(c);
	int g = c.choose(c.thorough() ? GRAPHS.size() : 3, "graph");
	for (auto& o : GRAPHS[g]) w.build(o.k, o.a, o.b);
	for (int d = 0; d < depth; d++)
	{
		std::vector<int> lv = w.live();
		if (lv.empty()) break;
		switch (c.choose(8, "op"))
		{
		case 0: // differentiate
		{
			std::vector<int> wrt; for (int i = 0; i < 2; i++) if (w.L[i].alive) wrt.push_back(i);
			int i = c.pick(lv), l = c.pick(wrt);
			c.step("derive(%s, %s)", exname(w.X, w.L, w.ex(i)).c_str(), w.L[l].name.c_str());
			varptr<double> gr = w.node(i)->derive(w.leaf[l]);
			c.check(gr.get() != nullptr, "null gradient");
			w.held.push_back(hold(gr.get())); w.heldx.push_back({w.ex(i), l});
			break;
		}
		case 1: // delete a node built by an operation
		{
			int i = c.pick(w.live(3));
			c.step("delete %s", exname(w.X, w.L, w.ex(i)).c_str());
			w.expect_deaths([&] { delete w.node(i); }, w.node(i));
			break;
		}
		case 2: // delete a leaf
		{
			std::vector<int> ls; for (int i = 0; i < 3; i++) if (w.L[i].alive) ls.push_back(i);
			int i = c.pick(ls);
			c.step("delete %s", w.L[i].name.c_str());
			w.kill_leaf(i);
			break;
		}
		case 3: // the user lets go of gradients and constants
			if (w.held.empty()) c.prune();
			c.step("release held results");
			w.release();
			break;
		case 4: // clone a node: it lives on the same arguments
		{
			int i = c.pick(w.live(3));
			c.step("clone %s", exname(w.X, w.L, w.ex(i)).c_str());
			inode<double>* n = w.node(i)->clone();
			c.check(n != nullptr && n != w.node(i), "clone gave nothing new");
			c.check(n->get_uid() != w.node(i)->get_uid(), "a clone shares its original's uid");
			w.track(n, w.ex(i), true);
			break;
		}
		case 5: // build
		{
			Kind k = KINDS[c.choose(c.thorough() ? KINDS.size() : 3)];
			std::vector<int> as = {lv.front(), lv.back()};
			int a = c.pick(as), b = -1;
			if (k == ADD || k == MUL || k == SUB) b = c.thorough() ? c.pick(lv) : lv[c.choose(2) ? lv.size() / 2 : 0];
			c.step("build");
			w.build(k, a, b);
			break;
		}
		case 7: // delete a gradient that the user got
		{
			std::vector<int> hs; for (size_t h = 0; h < w.held.size(); h++) if (dynamic_cast<iconnector<double>*>(w.held[h]->get())) hs.push_back(h);
			int h = c.pick(hs);
			c.step("delete the held gradient of %s", exname(w.X, w.L, w.heldx[h].first).c_str());
			inode<double>* g = w.held[h]->get();
			w.expect_deaths([&] { delete g; }, g);
			c.check(w.held[h]->get() == nullptr, "a holder of a deleted node is not reset");
			break;
		}
		case 6: // write, leaving updates pending
		{
			if (!w.L[2].alive) c.prune();
			c.step("p0 = {4,5}");
			*static_cast<placeholder<double>*>(w.leaf[2]) = vec{4, 5};
			w.L[2].v = {4, 5};
			break;
		}
		}
		if ((d + 2 == depth || c.thorough()) && c.flip("evaluate all")) { c.note("eval"); w.check_values(); }
	}
	std::string st;
	for (int i : w.live()) st += exname(w.X, w.L, w.ex(i)) + ";";
	st += std::to_string(w.held.size());
	c.state(st);
	w.check_values();
	w.finish();
	}
	c.check(mc::live_blocks() == live0, "%ld heap blocks left behind", mc::live_blocks() - live0);
}

// constants belong to whoever observes them
static void constants (mc::Ctx& c)
{
	{ variable<double> w(1.0, "warm"); varptr<double> r = varptr<double>(&w) + 1.0; r->eval(); delete r.get(); }
	long live0 = mc::live_blocks();
	{
		auto* v = new variable<double>(std::vector<size_t>{2}, const_init<double>(3), "v");
		v->initialize();
		constant<double>* k = constant<double>::get({4, 5}, std::vector<size_t>{2});
		Probe* pr = nullptr;
		varptr<double>* h1 = hold(k);
		varptr<double>* h2 = nullptr;
		std::vector<std::pair<inode<double>*, std::unique_ptr<Probe> > > nodes;
		bool managed = c.flip("managed");
		if (managed) k->be_managed();
		int users = 1; // holders of k that the harness knows about
		bool kdead = false;
		auto gone = [&] { return !managed && users == 0; };
		for (int d = 0; d < 5 && !kdead; d++)
		{
			switch (c.choose(5, "op"))
			{
			case 0: { // an operation on the constant
				if (nodes.size() >= 2) c.prune();
				c.step("node on the constant");
				varptr<double> r = nodes.empty() ? varptr<double>(v) + varptr<double>(k) : varptr<double>(v) - varptr<double>(k);
				nodes.push_back({r.get(), std::unique_ptr<Probe>(new Probe(r.get()))}); users++;
				break; }
			case 1: { // delete it
				if (nodes.empty()) c.prune();
				c.step("delete node");
				delete nodes.back().first; users--;
				c.check(nodes.back().second->dead(), "probe of a deleted node");
				nodes.pop_back();
				break; }
			case 2: { // second holder
				if (h2) { c.step("drop second holder"); drop(h2); h2 = nullptr; users--; }
				else { c.step("second holder"); h2 = hold(k); users++; }
				break; }
			case 3: { // first holder
				if (!h1) c.prune();
				c.step("drop first holder"); drop(h1); h1 = nullptr; users--;
				break; }
			case 4: { // holder moves on to the variable
				if (!h1) c.prune();
				c.step("first holder is redirected");
				*h1 = v; drop(h1); h1 = nullptr; users--;
				break; }
			}
			kdead = gone();
			c.state(mc::fmt("%d%d%zu%d%d", users, managed, nodes.size(), (int)(h1 != nullptr), (int)(h2 != nullptr)));
			if (!kdead)
			{
				vec got = k->eval()->expose();
				c.check(got == vec({4, 5}), "constant changed");
				for (auto& n : nodes) c.check(n.first->eval() != nullptr, "node on a constant lost its value");
			}
		}
		(void) pr;
		if (h1) { drop(h1); }
		if (h2) { drop(h2); }
		delete v;
		for (auto& n : nodes) c.check(n.second->dead(), "node outlives its variable");
		nodes.clear();
		if (managed) delete k;
	}
	c.check(mc::live_blocks() == live0, "%ld heap blocks left behind (or freed too often)", mc::live_blocks() - live0);
}

// generators belong to whoever observes them, whether or not they could generate anything yet
static void generators (mc::Ctx& c)
{
	{ variable<double> w(1.0, "warm"); varptr<double> r = varptr<double>(&w) + 1.0; r->eval(); delete r.get(); }
	static const char* names[] = {"-g", "g+p", "sin(g)", "g*g"};
	long live0 = mc::live_blocks();
	{
		auto* p = new placeholder<double>(std::vector<size_t>{2}, "p");
		bool filled = false; vec pv;
		struct Gen { inode<double>* g; inode<double>* cons[4]; varptr<double>* held; bool alive; };
		std::vector<Gen> G;
		auto fill = [&](vec v) { c.step("p = %s", mc::vstr(v).c_str()); *p = v; filled = true; pv = v; };
		auto verify = [&](void)
		{
			size_t direct = 0;
			for (Gen& g : G) if (g.alive) direct += 1 + (g.cons[1] != nullptr);
			c.check(p->n_audience() == direct, "the placeholder is observed %zu times, %zu living nodes are built on it", p->n_audience(), direct);
			for (Gen& g : G)
			{
				if (!g.alive) continue;
				size_t n = (g.held != nullptr) + (g.cons[0] != nullptr) + (g.cons[1] != nullptr) + (g.cons[2] != nullptr) + (g.cons[3] != nullptr);
				c.check(g.g->n_audience() == n, "a generator with %zu users is observed %zu times", n, g.g->n_audience());
			}
		};
		auto values = [&](void)
		{
			for (Gen& g : G) for (int k = 0; k < 4; k++) if (g.alive && g.cons[k])
			{
				const tensor<double>* t = g.cons[k]->eval();
				if (!filled) { c.check(t == nullptr, "%s has a value although nothing was handed over", names[k]); continue; }
				vec want; for (double x : pv) want.push_back(k == 0 ? -2.5 : k == 1 ? 2.5 + x : k == 2 ? std::sin(2.5) : 6.25);
				c.check(t && same(t->expose(), want), "%s is wrong", names[k]);
			}
		};
		auto settle = [&](Gen& g) // a generator nobody uses any more is gone
		{
			if (!g.held && !g.cons[0] && !g.cons[1] && !g.cons[2] && !g.cons[3]) g.alive = false;
		};
		if (c.flip("filled first")) fill({4, 5});
		int depth = c.thorough() ? 5 : 4;
		for (int d = 0; d < depth; d++)
		{
			switch (c.choose(5, "op"))
			{
			case 0: { // a generator with a first user
				if (G.size() >= 2) c.prune();
				int k = c.choose(5, "first user");
				c.step("generator, used by %s", k < 4 ? names[k] : "a holder");
				Gen g{nullptr, {nullptr, nullptr, nullptr, nullptr}, nullptr, true};
				g.g = generator<double>::get(p, const_init<double>(2.5), "g");
				varptr<double>* h = hold(g.g);
				if (k == 4) g.held = h;
				else
				{
					g.cons[k] = (k == 0 ? -*h : k == 1 ? *h + varptr<double>(p) : k == 2 ? sin(*h) : *h * *h).get();
					drop(h);
				}
				G.push_back(g);
				break; }
			case 1: { // another user
				if (G.empty()) c.prune();
				Gen& g = G[c.choose(G.size(), "generator")];
				if (!g.alive) c.prune();
				int k = c.choose(5, "user");
				if (k == 4 ? g.held != nullptr : g.cons[k] != nullptr) c.prune();
				c.step("also used by %s", k < 4 ? names[k] : "a holder");
				if (k == 4) g.held = hold(g.g);
				else
				{
					varptr<double> gp(g.g), r;
					r = k == 0 ? -gp : k == 1 ? gp + varptr<double>(p) : k == 2 ? sin(gp) : gp * gp;
					g.cons[k] = r.get();
				}
				break; }
			case 2: { // one user less
				if (G.empty()) c.prune();
				Gen& g = G[c.choose(G.size(), "generator")];
				if (!g.alive) c.prune();
				int k = c.choose(5, "user");
				if (k == 4 ? !g.held : !g.cons[k]) c.prune();
				c.step("%s goes", k < 4 ? names[k] : "the holder");
				if (k == 4) { drop(g.held); g.held = nullptr; }
				else { delete g.cons[k]; g.cons[k] = nullptr; }
				settle(g);
				break; }
			case 3: { c.step("evaluate"); values(); break; }
			case 4: { fill(pv == vec{4, 5} ? vec{-1, 3} : vec{4, 5}); break; }
			}
			verify();
			std::string st = filled ? mc::vstr(pv) : "";
			for (Gen& g : G) { st += g.alive ? 'a' : 'd'; for (int k = 0; k < 4; k++) st += g.cons[k] ? '1' : '0'; st += g.held ? 'h' : '-'; }
			c.state(st);
		}
		values();
		c.step("delete p");
		std::vector<std::unique_ptr<Probe> > probes;
		for (Gen& g : G) for (int k = 0; k < 4; k++) if (g.alive && g.cons[k]) probes.emplace_back(new Probe(g.cons[k]));
		delete p;
		for (auto& pr : probes) c.check(pr->dead(), "a node outlives the placeholder it is built on");
		for (Gen& g : G) if (g.held) { c.check(g.held->get() == nullptr, "a holder of a dead generator is not reset"); drop(g.held); }
	}
	c.check(mc::live_blocks() == live0, "%ld heap blocks left behind (or freed too often)", mc::live_blocks() - live0);
}

// operation nodes of every class are cloned, moved and assigned: copies compute the same and
// are independent, a moved node takes its consumers along, an assigned one brings its consumers
// the other's values
static void transplants (mc::Ctx& c)
{
	{ variable<double> w(1.0, "warm"); varptr<double> r = varptr<double>(&w) + 1.0; r->eval(); delete r.get(); }
	long live0 = mc::live_blocks();
	{
		enum K { NEGP, MULPV, SINQ, GENP, GENQ, DEPP, DEPQ, NK };
		static const char* names[] = {"-p", "p*v", "sin(q)", "generator of p", "generator of q", "size of p", "rank of q"};
		auto* p = new placeholder<double>(std::vector<size_t>{2}, "p");
		auto* q = new placeholder<double>(std::vector<size_t>{2}, "q");
		auto* v = new variable<double>(std::vector<size_t>{2}, const_init<double>(1.5), "v");
		v->initialize();
		vec pv{4, 5}, qv{-1, 0.5}, vv{1.5, 1.5};
		bool late = c.flip("written late");
		bool has = !late;
		if (has) { *p = pv; *q = qv; }
		struct N { inode<double>* n; int kind; int cls; };     // kind: what it computes
		struct U { inode<double>* n; int a, b; };               // consumer: node a (+ node b)
		std::vector<N> nodes; std::vector<U> users;
		auto make = [&](int k) -> inode<double>*
		{
			varptr<double> vp(p), vq(q), vvv(v);
			switch (k)
			{
			case NEGP: return (-vp).get();
			case MULPV: return (vp * vvv).get();
			case SINQ: return sin(vq).get();
			case GENP: return generator<double>::get(p, const_init<double>(2.5), "g");
			case GENQ: return generator<double>::get(q, const_init<double>(-7), "g2");
			case DEPP: return shape_dep<double>::get({p}, [](tensorshape& s) { return std::vector<size_t>{s.n_elems(), 9}; }, std::vector<size_t>{2}, "size");
			default: return shape_dep<double>::get({q}, [](tensorshape& s) { return std::vector<size_t>{s.rank(), 8}; }, std::vector<size_t>{2}, "rank");
			}
		};
		auto value = [&](int k) -> vec
		{
			switch (k)
			{
			case NEGP: return {-pv[0], -pv[1]};
			case MULPV: return {pv[0] * vv[0], pv[1] * vv[1]};
			case SINQ: return {std::sin(qv[0]), std::sin(qv[1])};
			case GENP: return {2.5, 2.5};
			case GENQ: return {-7, -7};
			case DEPP: return {2, 9};
			default: return {1, 8};
			}
		};
		static const int cls[] = {0, 0, 0, 1, 1, 2, 2};
		int k1 = c.choose(NK, "first"), k2 = c.choose(NK, "second");
		if (k1 == k2) c.prune();
		std::vector<varptr<double>*> keep; // so that generators are used by somebody
		auto add = [&](inode<double>* n, int k) { nodes.push_back({n, k, cls[k]}); keep.push_back(hold(n)); };
		add(make(k1), k1); add(make(k2), k2);
		int cu = c.choose(4, "consumers");
		if (cu & 1) users.push_back({nnet::exp(varptr<double>(nodes[0].n)).get(), 0, -1});
		if (cu & 2) users.push_back({(varptr<double>(nodes[1].n) + varptr<double>(nodes[0].n)).get(), 1, 0});
		c.note("%s, %s, consumers %d%s", names[k1], names[k2], cu, late ? ", leaves without data" : "");
		auto look = [&](void)
		{
			for (N& n : nodes)
			{
				if (!n.n) continue;
				const tensor<double>* t = n.n->eval();
				if (!has) { c.check(t == nullptr, "%s has a value before its leaves do", names[n.kind]); continue; }
				c.check(t && same(t->expose(), value(n.kind)), "%s is %s instead of %s", names[n.kind], t ? mc::vstr(t->expose()).c_str() : "nothing", mc::vstr(value(n.kind)).c_str());
			}
			for (U& u : users)
			{
				const tensor<double>* t = u.n->eval();
				if (!has) continue;
				vec want = value(nodes[u.a].kind);
				if (u.b >= 0) { vec o = value(nodes[u.b].kind); for (int i = 0; i < 2; i++) want[i] += o[i]; }
				else for (double& x : want) x = std::exp(x);
				c.check(t && same(t->expose(), want), "a consumer of %s is %s instead of %s", names[nodes[u.a].kind], t ? mc::vstr(t->expose()).c_str() : "nothing", mc::vstr(want).c_str());
			}
		};
		auto assign = [&](N& a, N& b, bool move)
		{
			if (a.cls == 0) { auto& x = *dynamic_cast<immutable<double>*>(a.n); auto& y = *dynamic_cast<immutable<double>*>(b.n); if (move) x = std::move(y); else x = y; }
			else if (a.cls == 1) { auto& x = *dynamic_cast<generator<double>*>(a.n); auto& y = *dynamic_cast<generator<double>*>(b.n); if (move) x = std::move(y); else x = y; }
			else { auto& x = *dynamic_cast<shape_dep<double>*>(a.n); auto& y = *dynamic_cast<shape_dep<double>*>(b.n); if (move) x = std::move(y); else x = y; }
			a.kind = b.kind;
		};
		// the source of a move: its consumers now use node `to`
		auto shell = [&](int from, int to)
		{
			for (U& u : users) { if (u.a == from) u.a = to; if (u.b == from) u.b = to; }
			if (keep[from]->get() == nodes[from].n) delete nodes[from].n;
			else { inode<double>* n = nodes[from].n; delete n; }
			drop(keep[from]); keep[from] = hold(nullptr);
			nodes[from].n = nullptr;
		};
		int depth = c.thorough() ? 4 : 3;
		for (int d = 0; d < depth; d++)
		{
			std::vector<int> lv; for (size_t i = 0; i < nodes.size(); i++) if (nodes[i].n) lv.push_back(i);
			switch (c.choose(6, "op"))
			{
			case 0: { int i = c.pick(lv); if (nodes.size() >= 4) c.prune(); c.step("clone n%d (%s)", i, names[nodes[i].kind]); inode<double>* n = nodes[i].n->clone(); c.check(n != nullptr, "clone gave nothing"); add(n, nodes[i].kind); break; }
			case 1: { int i = c.pick(lv); if (nodes.size() >= 4) c.prune(); c.step("move n%d (%s)", i, names[nodes[i].kind]); inode<double>* n = nodes[i].n->move(); c.check(n != nullptr, "move gave nothing"); add(n, nodes[i].kind); shell(i, nodes.size() - 1); break; }
			case 2: { int i = c.pick(lv), j = c.pick(lv); if (nodes[i].cls != nodes[j].cls) c.prune(); c.step("n%d = n%d (%s)", i, j, names[nodes[j].kind]); assign(nodes[i], nodes[j], false); break; }
			case 3: { int i = c.pick(lv), j = c.pick(lv); if (i == j || nodes[i].cls != nodes[j].cls) c.prune(); c.step("n%d = move of n%d (%s)", i, j, names[nodes[j].kind]); assign(nodes[i], nodes[j], true); shell(j, i); break; }
			case 4: { c.step("write"); pv = {pv[0] + 1, pv[1] - 2}; qv = {qv[1], qv[0] + 0.25}; *p = pv; *q = qv; has = true; break; }
			case 5: { c.step("evaluate"); look(); break; }
			}
			std::string st = has ? mc::vstr(pv) : ""; for (N& n : nodes) st += mc::fmt("%d%d", n.kind, n.n != nullptr); for (U& u : users) st += mc::fmt("u%d%d", u.a, u.b);
			c.state(st);
		}
		look();
		if (!has || c.flip("written once more")) { pv = {3, -8}; qv = {0.75, 2}; *p = pv; *q = qv; has = true; look(); }
		// a node goes, its copies stay
		std::vector<int> lv; for (size_t i = 0; i < nodes.size(); i++) if (nodes[i].n) lv.push_back(i);
		int g = c.pick(lv, "deleted");
		c.step("delete n%d", g);
		std::vector<std::unique_ptr<Probe> > pr;
		for (U& u : users) pr.emplace_back(new Probe(u.n));
		delete nodes[g].n;
		c.check(keep[g]->get() == nullptr, "the holder of a deleted node is not reset");
		nodes[g].n = nullptr;
		for (size_t i = 0, k = 0; k < pr.size(); k++)
		{
			bool dies = users[i].a == g || users[i].b == g;
			c.check(pr[k]->dead() == dies, "a consumer %s", dies ? "outlives what it is built on" : "died although nothing it is built on did");
			if (dies) users.erase(users.begin() + i); else i++;
		}
		pr.clear();
		look();
		delete p; delete q; delete v;
		for (size_t i = 0; i < nodes.size(); i++) { c.check(keep[i]->get() == nullptr, "%s outlives its leaves", names[nodes[i].kind]); drop(keep[i]); }
	}
	c.check(mc::live_blocks() == live0, "%ld heap blocks left behind (or freed too often)", mc::live_blocks() - live0);
}

int main (int argc, char** argv)
{
	return mc::run(argc, argv, {
		{"graphs", [](mc::Ctx& c) { go(c, c.thorough() ? 4 : 3); }, 4},
		{"constants", constants, 3},
		{"generators", generators, 3},
		{"transplants", transplants, 4},
	});
}
