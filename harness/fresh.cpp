// reactive-freshness: after any sequence of graph building, assignment, (un)freezing,
// deletion and evaluation, evaluating a node yields what its formula gives on the current
// contents of its leaves.
#include "graph_world.hpp"
#include "graph/connector/immutable/generator.hpp"
using namespace gw;

static const vec PV[3] = {{2, -3}, {0.5, 4}, {-1, 7}};

struct World
{
	mc::Ctx& c;
	std::unique_ptr<variable<double> > v0, v1;
	std::unique_ptr<placeholder<double> > p0;
	std::vector<LeafM> L;               // v0 v1 p0
	std::vector<Expr> X;
	std::vector<std::unique_ptr<Node> > N; // 0..2 wrap the leaves
	std::set<int> frozen;
	World (mc::Ctx& c) : c(c)
	{
		v0.reset(new variable<double>(std::vector<size_t>{2}, const_init<double>(1.5), "v0"));
		v1.reset(new variable<double>(std::vector<size_t>{2}, const_init<double>(-2.5), "v1"));
		p0.reset(new placeholder<double>(std::vector<size_t>{2}, "p0"));
		v0->initialize();
		L.resize(3);
		L[0].name = "v0"; L[1].name = "v1"; L[2].name = "p0";
		L[0].init_value = 1.5; L[1].init_value = -2.5;
		L[0].init = true; L[0].v = {1.5, 1.5};
		for (int i = 0; i < 3; i++) { Expr e; e.k = LEAF; e.a = i; add(e, leaf(i)); }
	}
	inode<double>* leaf (int i) { return i == 0 ? (inode<double>*) v0.get() : i == 1 ? (inode<double>*) v1.get() : (inode<double>*) p0.get(); }
	int add (const Expr& e, inode<double>* p)
	{
		X.push_back(e);
		int xi = X.size() - 1;
		if (p) for (size_t i = 0; i < N.size(); i++) if (N[i]->p.get() == p)
		{
			c.check(same_function(X, L, N[i]->ex, xi), "%s was answered with the existing node of %s", exname(X, L, xi).c_str(), exname(X, L, N[i]->ex).c_str());
			return i;
		}
		std::unique_ptr<Node> n(new Node);
		n->ex = xi; n->p = p;
		N.push_back(std::move(n));
		return N.size() - 1;
	}
	int op (Kind k, int a, int b, double s = 0)
	{
		Expr e; e.k = k; e.a = N[a]->ex; e.b = b >= 0 ? N[b]->ex : -1; e.s = s;
		varptr<double> y;
		if (b >= 0) y = N[b]->p.get();
		varptr<double> r = apply(e, N[a]->p.get(), y.get());
		c.check(r.get() != nullptr, "operation on living nodes gave a null node");
		int i = add(e, r.get());
		c.note("n%d = %s", i, exname(X, L, X.size() - 1).c_str());
		return i;
	}
	bool stale_ok (int i) // depends on a leaf that changed without notification, or is frozen
	{
		std::set<int> r; reach(X, N[i]->ex, r);
		for (int l : r) if (L[l].dirty) return true;
		return !frozen.empty();
	}
	void check_node (int i)
	{
		if (!N[i]->p.get()) return;
		Dual d = evalx(X, L, N[i]->ex);
		const tensor<double>* t = N[i]->p->eval();
		if (!d.init)
		{
			c.check(t == nullptr || !frozen.empty() || folds(X, N[i]->ex), "%s has a value although one of its leaves has none", exname(X, L, N[i]->ex).c_str());
			return;
		}
		if (stale_ok(i)) return;
		c.check(t != nullptr, "%s has no value although its leaves do", exname(X, L, N[i]->ex).c_str());
		c.check(t->is_alloc(), "evaluated tensor is not allocated");
		vec got = t->expose();
		c.check(same(got, d.v), "%s evaluates to %s, expected %s", exname(X, L, N[i]->ex).c_str(), mc::vstr(got).c_str(), mc::vstr(d.v).c_str());
		c.check(same(expose<double>(N[i]->p.get()), d.v), "expose differs from eval");
		c.check(N[i]->p->get_shape().n_elems() == got.size(), "shape of %s differs from its value's", exname(X, L, N[i]->ex).c_str());
	}
	void wrote (int l, bool notify) { L[l].dirty = !notify; }
	std::vector<int> live (int from = 0)
	{
		std::vector<int> r;
		for (int i = from; i < (int) N.size(); i++) if (N[i]->p.get()) r.push_back(i);
		return r;
	}
	void kill (int i) // model: everything built on node i goes with it
	{
		int target = N[i]->ex;
		std::function<bool(int)> uses = [&](int x) -> bool
		{
			if (x == target) return true;
			if (X[x].k == LEAF) return false;
			return (X[x].a >= 0 && uses(X[x].a)) || (X[x].b >= 0 && uses(X[x].b));
		};
		std::vector<bool> dies(N.size());
		for (size_t j = 0; j < N.size(); j++) dies[j] = N[j]->p.get() && uses(N[j]->ex);
		inode<double>* p = N[i]->p.get();
		delete p;
		for (size_t j = 0; j < N.size(); j++) if (dies[j]) c.check(N[j]->p.get() == nullptr, "%s survives the node it is built on", exname(X, L, N[j]->ex).c_str());
	}
};

enum Mode { BUILD, WRITE, MIXED };

// graphs to start from: (kind, a, b) over node indices; 0,1,2 are the leaves v0 v1 p0
struct Op { Kind k; int a, b; };
static const std::vector<std::vector<Op> > GRAPHS = {
	{{ADD,0,2}, {NEG,3,-1}, {MUL,4,1}},            // (v0+p0), -, *v1
	{{NEG,2,-1}, {ADD,3,2}, {SIN,4,-1}},           // unary first, diamond on p0
	{{MUL,0,1}, {ADD,1,2}, {SUB,3,4}},             // two n-ary joined
	{{SIN,2,-1}, {NEG,3,-1}, {ADD,4,3}, {MUL,5,0}},// chains of different length
	{{SQ,0,-1}, {ADD,3,2}, {NEG,2,-1}, {MUL,4,5}, {SUB,6,3}},
	{{NEG,0,-1}, {SIN,2,-1}},                      // separate graphs
	{{ADD,0,1}, {NEG,2,-1}, {MUL,3,4}, {ADD,3,5}},
};

static void go (mc::Ctx& c, int depth, Mode mode)
{
	World w(c);
	int gi = c.choose(mode == BUILD ? 1 : c.thorough() ? (int) GRAPHS.size() : 5, "graph");
	bool early = mode == MIXED && !c.thorough() ? false : mode == BUILD ? c.flip("v1, p0 initialised first") : c.flip("initialised before the graph is built");
	auto init = [&](void) { w.v1->initialize(); w.L[1].init = true; w.L[1].v = {-2.5,-2.5}; *w.p0 = PV[0]; w.L[2].init = true; w.L[2].v = PV[0]; };
	if (early) init();
	if (mode != BUILD) for (auto& o : GRAPHS[gi]) w.op(o.k, o.a, o.b);
	if (!early && mode == MIXED) init();
	int parity = 0;
	for (int d = 0; d < depth; d++)
	{
		static const std::vector<int> OB = {0, 1, 2, 3, 4, 5}, OW = {1, 2, 3, 4, 5, 6, 7, 8, 9}, OM = {0, 1, 3, 6, 7, 10, 11, 2, 8};
		int o = mode == MIXED && !c.thorough() ? OM[c.choose(7, "op")] : c.pick(mode == BUILD ? OB : mode == WRITE ? OW : OM, "op");
		std::vector<int> lv = w.live();
		parity += o;
		switch (o)
		{
		case 0: // build
		{
			static const std::vector<Kind> ks = {NEG, ADD, CUST, MUL, SUB, SADD};
			Kind k = c.thorough() ? c.pick(ks) : mode == BUILD ? ks[c.choose(5)] : ks[c.choose(3)];
			// any node with one leaf of each sort or the newest node
			std::vector<int> as = lv;
			if (mode == MIXED && !c.thorough()) as = {lv[2], lv.back()};
			int a = c.pick(as), b = -1;
			if (k == ADD || k == MUL || k == SUB || k == CUST) { std::vector<int> cand = {0, 2, lv.back()}; b = c.pick(cand); if (!w.N[b]->p.get()) c.prune(); }
			c.step("build");
			w.op(k, a, b, 1.25);
			break;
		}
		case 1: // write the placeholder
		{
			int k = 1 + c.choose(2);
			c.step("p0 = %s", mc::vstr(PV[k]).c_str());
			*w.p0 = PV[k]; w.L[2].init = true; w.L[2].v = PV[k]; w.wrote(2, true);
			break;
		}
		case 2: // evaluate one node
		{
			int i = c.pick(lv);
			c.step("eval n%d", i);
			w.check_node(i);
			break;
		}
		case 3: // assign from a node, with or without notification
		case 4: // assign_add / assign_sub
		{
			int t = c.choose(2);
			std::vector<int> from = {0, lv.size() > 3 ? lv[3] : lv[1], lv.back()};
			if (c.thorough()) from = lv;
			int i = c.pick(from);
			bool notify = o == 3 ? c.flip("notify") : true;
			Dual dv = evalx(w.X, w.L, w.N[i]->ex);
			if (!dv.init || !w.L[t].init || w.stale_ok(i) || expose<double>(w.N[i]->p.get()).size() != 2) c.prune();
			bool add = o == 4 ? c.flip() : false;
			c.step("v%d %s n%d%s", t, o == 3 ? "=" : add ? "+=" : "-=", i, notify ? "" : " (no notification)");
			variable<double>* v = t == 0 ? w.v0.get() : w.v1.get();
			auto up = o == 3 ? v->assign(w.N[i]->p.get()) : add ? v->assign_add(w.N[i]->p.get()) : v->assign_sub(w.N[i]->p.get());
			up(notify);
			for (int q = 0; q < 2; q++) w.L[t].v[q] = o == 3 ? dv.v[q] : add ? w.L[t].v[q] + dv.v[q] : w.L[t].v[q] - dv.v[q];
			w.wrote(t, notify);
			break;
		}
		case 5: // (re)initialise
		{
			int t = c.choose(2);
			c.step("v%d.initialize()", t);
			(t == 0 ? w.v0 : w.v1)->initialize();
			w.L[t].init = true; w.L[t].v = vec(2, w.L[t].init_value); w.wrote(t, true);
			break;
		}
		case 6: // freeze
		case 7: // unfreeze
		{
			std::vector<int> cons;
			for (int i : lv) if (dynamic_cast<iconnector<double>*>(w.N[i]->p.get())) cons.push_back(i);
			int i = c.pick(cons);
			c.step("%s n%d", o == 6 ? "freeze" : "unfreeze", i);
			dynamic_cast<iconnector<double>*>(w.N[i]->p.get())->freeze_status(o == 6);
			// freezing is per graph and graphs merge; thaw everything before comparing
			if (o == 6) w.frozen.insert(i); else { for (int j : cons) dynamic_cast<iconnector<double>*>(w.N[j]->p.get())->freeze_status(false); w.frozen.clear(); }
			break;
		}
		case 8: // shape only
		{
			int i = c.pick(lv);
			c.step("get_shape n%d", i);
			size_t n = w.N[i]->p->get_shape().n_elems();
			Dual dv = evalx(w.X, w.L, w.N[i]->ex);
			if (dv.init && w.frozen.empty() && !w.stale_ok(i)) c.check(n == 2 || folds(w.X, w.N[i]->ex), "get_shape of n%d reports %zu elements", i, n);
			break;
		}
		case 9: // copy the other variable
		{
			int t = c.choose(2);
			variable<double>* to = t == 0 ? w.v0.get() : w.v1.get();
			variable<double>* from = t == 0 ? w.v1.get() : w.v0.get();
			if (!w.L[1-t].init) c.prune();
			c.step("v%d = v%d", t, 1 - t);
			*to = *from;
			w.L[t].init = true; w.L[t].v = w.L[1-t].v; w.L[t].init_value = w.L[1-t].init_value; w.L[t].dirty = false;
			break;
		}
		case 10: // delete an inner node, possibly with updates still pending
		{
			std::vector<int> cons = w.live(3);
			int i = c.pick(cons);
			c.step("delete n%d", i);
			bool was_frozen = !w.frozen.empty();
			w.kill(i);
			if (was_frozen) { bool any = false; for (int j : w.frozen) any |= w.N[j]->p.get() != nullptr; (void) any; }
			break;
		}
		case 11: // evaluate everything
		{
			c.step("eval all");
			for (int i : lv) w.check_node(i);
			break;
		}
		}
	}
	c.step("settle");
	for (int i : w.live()) if (auto* con = dynamic_cast<iconnector<double>*>(w.N[i]->p.get())) con->freeze_status(false);
	w.frozen.clear();
	bool rev = c.thorough() ? c.flip("final evaluation order") : parity & 1;
	std::vector<int> lv = w.live();
	if (rev) std::reverse(lv.begin(), lv.end());
	for (int i : lv) w.check_node(i);
	std::string st;
	for (auto& n : w.N) { st += exname(w.X, w.L, n->ex); Dual dv = evalx(w.X, w.L, n->ex); st += n->p.get() ? mc::vstr(dv.v) : "dead"; }
	c.state(st);
}

// two graphs that were built apart are joined while any subset of their nodes waits for an update
static const std::vector<std::pair<std::vector<Op>, std::vector<Op> > > PAIRS = {
	{{{ADD,0,1}}, {{NEG,2,-1}, {MUL,-1,1}, {ADD,-2,2}}},       // a = -k: the k-th last node
	{{{ADD,0,1}, {SUB,0,2}}, {{MUL,2,1}}},
	{{{NEG,0,-1}}, {{SIN,2,-1}, {MUL,-1,1}, {ADD,-2,0}, {CUST,-3,1}}},
	{{{MUL,0,2}, {NEG,3,-1}}, {{NEG,2,-1}, {SUB,-1,1}}},
	{{{ADD,0,2}}, {{ADD,1,2}, {MUL,-1,1}, {MUL,2,0}}},
};

static void join (mc::Ctx& c)
{
	World w(c);
	w.v1->initialize(); w.L[1].init = true; w.L[1].v = {-2.5,-2.5}; *w.p0 = PV[0]; w.L[2].init = true; w.L[2].v = PV[0];
	auto& pr = c.pick(PAIRS, "pair");
	std::vector<int> left, right;
	auto build = [&](const std::vector<Op>& ops, std::vector<int>& into)
	{
		for (auto& o : ops) into.push_back(w.op(o.k, o.a < 0 ? into[into.size() + o.a] : o.a, o.b));
	};
	build(pr.first, left); build(pr.second, right);
	auto write = [&](int mask)
	{
		if (mask & 1) { *w.p0 = PV[1 + (mask >> 3)]; w.L[2].v = PV[1 + (mask >> 3)]; }
		if (mask & 2) { w.v0->assign_add(w.v1.get())(true); for (int q = 0; q < 2; q++) w.L[0].v[q] += w.L[1].v[q]; }
		if (mask & 4) { w.v1->assign_sub(w.p0.get())(true); for (int q = 0; q < 2; q++) w.L[1].v[q] -= w.L[2].v[q]; }
	};
	int m1 = c.choose(8, "writes before");
	c.step("write %d", m1);
	write(m1);
	std::vector<int> all = w.live(3);
	int e = c.choose(all.size() + 1, "evaluate first");
	if (e) { c.step("eval n%d", all[e - 1]); w.check_node(all[e - 1]); }
	int del = c.choose(all.size() + 1, "delete one");
	if (del) { c.step("delete n%d", all[del - 1]); w.kill(all[del - 1]); }
	int njoin = c.thorough() ? 2 : 1;
	for (int k = 0; k < njoin; k++)
	{
		std::vector<int> lv = w.live(3);
		static const std::vector<Kind> ks = {CUST, ADD, MUL};
		if (lv.size() < 2) c.prune();
		int a = c.pick(lv), b = c.pick(lv);
		c.step("join");
		int r = w.op(c.pick(ks), a, b);
		if (c.flip("consumer on top")) { w.op(c.flip() ? NEG : CUST, r, lv[0]); }
	}
	int m2 = c.choose(8, "writes after");
	c.step("write %d", m2);
	write(m2 | 8 * (m2 & 1));
	std::vector<int> lv = w.live();
	if (c.thorough() ? c.flip("final evaluation order") : (m1 + m2) & 1) std::reverse(lv.begin(), lv.end());
	for (int i : lv) w.check_node(i);
	std::string st;
	for (auto& n : w.N) { st += exname(w.X, w.L, n->ex); Dual dv = evalx(w.X, w.L, n->ex); st += n->p.get() ? mc::vstr(dv.v) : "dead"; }
	c.state(st);
}

// a placeholder of unknown shape is handed whole tensors: every consumer shows what was
// handed last, whatever its shape; a consumer whose own shape would have to change refuses
struct Handed { std::vector<size_t> shape; vec v; };
static const std::vector<Handed> HANDED = {
	{{2}, {2, -3}}, {{2}, {0.5, 4}}, {{2, 2}, {1, -2, 3, 5}}, {{4}, {6, 0.25, -1, 2}}, {{3, 1, 2}, {1, 2, 3, -4, 5, 7}}, {{1}, {9}}, {{2, 2}, {8, 3, -5, 1}},
};
struct Shown { std::vector<size_t> shape; vec v; };

static void handed (mc::Ctx& c)
{
	placeholder<double> p(tensorshape(std::vector<size_t>{}), "p");
	placeholder<double> q(std::vector<size_t>{3, 2, 2}, "q");
	q = vec{1,2,3,4,5,6,7,8,9,10,11,12};
	varptr<double> vp(&p), vq(&q);
	auto total = [](const vec& v) { double t = 0; for (double x : v) t += x; return t; };
	auto dims = [](const std::vector<size_t>& s) { vec v; for (size_t d : s) v.push_back(d); return v; };
	struct Consumer { const char* name; std::function<varptr<double>(void)> make; std::function<Shown(const Handed&)> want; bool follows; };
	auto each = [&](std::function<double(double)> f) { return [f](const Handed& h) { Shown r{h.shape, h.v}; for (double& x : r.v) x = f(x); return r; }; };
	auto one = [&](std::function<double(const Handed&)> f) { return [f](const Handed& h) { return Shown{{1}, {f(h)}}; }; };
	std::vector<Consumer> all = {
		// the shape does not depend on what is handed
		{"reduce_sum(p)", [&] { return reduce_sum(vp); }, one([&](const Handed& h) { return total(h.v); }), false},
		{"reduce_mean(p)", [&] { return reduce_mean(vp); }, one([&](const Handed& h) { return total(h.v) / h.v.size(); }), false},
		{"reduce_max(p) - reduce_sum(p)", [&] { return reduce_max(vp) - reduce_sum(vp); }, one([&](const Handed& h) { return *std::max_element(h.v.begin(), h.v.end()) - total(h.v); }), false},
		{"sizes of p and q", [&] { return varptr<double>(shape_dep<double>::get({&p, &q}, [](tensorshape& s) { std::vector<size_t> l = s.as_list(); l.resize(3, 1); return l; }, std::vector<size_t>{3, 2}, "sizes")); },
			[&](const Handed& h) { std::vector<size_t> l = h.shape; l.resize(3, 1); l.insert(l.end(), {3, 2, 2}); return Shown{{3, 2}, dims(l)}; }, false},
		{"sizes of q and p", [&] { return varptr<double>(shape_dep<double>::get({&q, &p}, [](tensorshape& s) { return s.as_list(); }, std::vector<size_t>{3, 2}, "sizes")); },
			[&](const Handed& h) { std::vector<size_t> l = h.shape; l.resize(3, 1); l.insert(l.begin(), {3, 2, 2}); return Shown{{3, 2}, dims(l)}; }, false},
		{"rank of p", [&] { return varptr<double>(shape_dep<double>::get({&p}, [](tensorshape& s) { return std::vector<size_t>{s.rank(), s.n_elems()}; }, std::vector<size_t>{2}, "rank")); },
			[&](const Handed& h) { return Shown{{2}, {(double) h.shape.size(), (double) h.v.size()}}; }, false},
		{"generator(p)", [&] { return varptr<double>(generator<double>::get(&p, const_init<double>(2.5), "g")); }, each([](double) { return 2.5; }), false},
		// the shape is that of what is handed
		{"-p", [&] { return -vp; }, each([](double x) { return -x; }), true},
		{"p+p", [&] { return vp + vp; }, each([](double x) { return x + x; }), true},
		{"sin(-p)*p", [&] { return sin(-vp) * vp; }, each([](double x) { return std::sin(-x) * x; }), true},
		{"p - reduce_mean(p)", [&] { return vp - reduce_mean(vp); }, [&](const Handed& h) { Shown r{h.shape, h.v}; for (double& x : r.v) x -= total(h.v) / h.v.size(); return r; }, true},
		{"-generator(p)", [&] { return -varptr<double>(generator<double>::get(&p, const_init<double>(2.5), "g")); }, each([](double) { return -2.5; }), true},
	};
	struct Made { const Consumer* con; varptr<double> p; std::set<std::vector<size_t> > shapes; }; // p's shapes during the node's life
	std::vector<Made> made;
	int n = c.thorough() ? 3 : 2, from = 0, nc = all.size();
	int before = c.choose(HANDED.size() + 1, "handed before the graph is built");
	const Handed* cur = nullptr;
	Handed now;
	bool refused = false;
	auto give = [&](int k, bool asvec)
	{
		c.step("p = %s of %s%s", mc::vstr(HANDED[k].v).c_str(), mc::vstr(dims(HANDED[k].shape)).c_str(), asvec ? " (values only)" : "");
		std::vector<size_t> sh = HANDED[k].shape;
		if (asvec) sh = cur ? now.shape : std::vector<size_t>{HANDED[k].v.size()};
		bool changes = false;
		for (Made& m : made) { m.shapes.insert(sh); changes |= m.con->follows && m.shapes.size() > 1; }
		now = HANDED[k]; now.shape = sh; cur = &now;
		try
		{
			if (asvec) p = HANDED[k].v;
			else
			{
				tensor<double> t(tensorshape(HANDED[k].shape));
				t.allocate();
				assign_func<double> as; vec v = HANDED[k].v; as(t, v);
				p = t;
			}
		}
		catch (std::exception& e)
		{
			c.check(changes, "handing over a value of an unchanged shape throws: %s", e.what());
			refused = true;
		}
	};
	auto look = [&](Made& m)
	{
		if (!cur) { c.check(m.p->eval() == nullptr, "%s has a value before anything was handed over", m.con->name); return; }
		Shown w = m.con->want(now);
		bool changes = false; // evaluating one node brings its whole graph up to date
		for (Made& o : made) changes |= o.con->follows && o.shapes.size() > 1;
		try
		{
			const tensor<double>* t = m.p->eval();
			c.check(t != nullptr, "%s has no value", m.con->name);
			c.check(t->expose() == w.v || same(t->expose(), w.v), "%s is %s after %s was handed over, expected %s", m.con->name, mc::vstr(t->expose()).c_str(), mc::vstr(now.v).c_str(), mc::vstr(w.v).c_str());
			c.check(t->get_shape().is_compatible_with(tensorshape(w.shape)) && t->get_shape().n_elems() == w.v.size(), "%s has shape %s, expected %s", m.con->name, mc::vstr(t->get_shape().as_list()).c_str(), mc::vstr(w.shape).c_str());
		}
		catch (std::exception& e) { c.check(changes, "evaluating %s throws although its shape did not change: %s", m.con->name, e.what()); refused = true; }
	};
	if (before) give(before - 1, false);
	for (int i = 0; i < n; i++)
	{
		from = c.choose(nc - from, "consumer") + from;
		made.push_back({&all[from], all[from].make(), {}});
		if (cur) made.back().shapes.insert(now.shape);
		c.note("%s", all[from].name);
		if (i == 0 && c.flip("evaluate at once")) look(made[0]);
	}
	int depth = 2;
	for (int d = 0; d < depth && !refused; d++)
	{
		int k = c.choose(HANDED.size(), "hand over");
		bool asvec = (!cur || now.v.size() == HANDED[k].v.size()) && c.flip("values only");
		give(k, asvec);
		int e = refused ? 0 : c.choose(d + 1 == depth ? 1 : made.size() + 1, "evaluate");
		if (e) { c.step("eval %s", made[e - 1].con->name); look(made[e - 1]); }
	}
	for (Made& m : made) if (!refused) look(m);
	std::string st;
	for (Made& m : made) st += m.con->name;
	if (cur) st += mc::vstr(dims(now.shape)) + mc::vstr(now.v);
	c.state(st);
	if (refused) c.prune();
}

// while a graph is frozen its nodes keep showing what they showed when it was frozen, however
// its leaves are written; everything else goes on, and thawing brings the graph up to date
static void frozen (mc::Ctx& c)
{
	World w(c);
	w.v1->initialize(); w.L[1].init = true; w.L[1].v = {-2.5,-2.5}; *w.p0 = PV[0]; w.L[2].init = true; w.L[2].v = PV[0];
	int gi = c.choose(c.thorough() ? (int) GRAPHS.size() : 5, "graph");
	for (auto& o : GRAPHS[gi]) w.op(o.k, o.a, o.b);
	std::vector<int> cons;
	for (int i : w.live(3)) if (dynamic_cast<iconnector<double>*>(w.N[i]->p.get())) cons.push_back(i);
	auto con = [&](int i) { return dynamic_cast<iconnector<double>*>(w.N[i]->p.get()); };
	std::map<int, vec> keeps; // nodes of frozen graphs
	std::set<int> ice;        // the nodes that were frozen
	int depth = c.thorough() ? 5 : 4;
	bool any = false;
	for (int d = 0; d < depth; d++)
	{
		switch (c.choose(6, "op"))
		{
		case 0: { // freeze
			int i = c.pick(cons);
			if (keeps.count(i)) c.prune();
			c.step("freeze n%d", i);
			con(i)->freeze_status(true);
			any = true;
			for (int j : cons) if (con(i)->is_same_graph(con(j))) keeps[j] = evalx(w.X, w.L, w.N[j]->ex).v;
			break; }
		case 1: { // thaw through any node of the graph
			if (keeps.empty()) c.prune();
			std::vector<int> ks; for (auto& k : keeps) ks.push_back(k.first);
			int i = c.pick(ks);
			c.step("thaw n%d", i);
			con(i)->freeze_status(false);
			for (int j : cons) if (con(i)->is_same_graph(con(j))) keeps.erase(j);
			break; }
		case 2: { int k = 1 + c.choose(2); c.step("p0 = %s", mc::vstr(PV[k]).c_str()); *w.p0 = PV[k]; w.L[2].v = PV[k]; break; }
		case 3: { // update from a node: frozen nodes give what they show
			int t = c.choose(2);
			int i = c.pick(cons);
			bool add = c.flip("add");
			vec from = keeps.count(i) ? keeps[i] : evalx(w.X, w.L, w.N[i]->ex).v;
			c.step("v%d %s n%d", t, add ? "+=" : "=", i);
			variable<double>* v = t == 0 ? w.v0.get() : w.v1.get();
			auto up = add ? v->assign_add(w.N[i]->p.get()) : v->assign(w.N[i]->p.get());
			up(true);
			for (int q = 0; q < 2; q++) w.L[t].v[q] = add ? w.L[t].v[q] + from[q] : from[q];
			break; }
		case 4: { // look
			int i = c.pick(cons);
			c.step("eval n%d", i);
			const tensor<double>* t = w.N[i]->p->eval();
			vec want = keeps.count(i) ? keeps[i] : evalx(w.X, w.L, w.N[i]->ex).v;
			c.check(t && same(t->expose(), want), "%s %s is %s, expected %s", keeps.count(i) ? "frozen" : "unfrozen", exname(w.X, w.L, w.N[i]->ex).c_str(), t ? mc::vstr(t->expose()).c_str() : "nothing", mc::vstr(want).c_str());
			break; }
		case 5: { // look at the shape only
			int i = c.pick(cons);
			c.step("get_shape n%d", i);
			c.check(w.N[i]->p->get_shape().n_elems() == 2, "get_shape of n%d", i);
			break; }
		}
		if (d == 0 && !any) c.prune(); // nothing frozen: the other scenarios
		std::string st = std::to_string(gi);
		for (auto& k : keeps) st += mc::fmt("k%d", k.first) + mc::vstr(k.second);
		for (auto& l : w.L) st += mc::vstr(l.v);
		c.state(st);
	}
	for (int i : cons)
	{
		const tensor<double>* t = w.N[i]->p->eval();
		vec want = keeps.count(i) ? keeps[i] : evalx(w.X, w.L, w.N[i]->ex).v;
		c.check(t && same(t->expose(), want), "%s %s is %s, expected %s", keeps.count(i) ? "frozen" : "unfrozen", exname(w.X, w.L, w.N[i]->ex).c_str(), t ? mc::vstr(t->expose()).c_str() : "nothing", mc::vstr(want).c_str());
	}
	for (int i : cons) con(i)->freeze_status(false);
	for (int i : w.live()) w.check_node(i);
}

int main (int argc, char** argv)
{
	return mc::run(argc, argv, {
		{"frozen", frozen, 3},
		{"handed", handed, 3},
		{"join", [](mc::Ctx& c) { join(c); }, 4},
		{"build", [](mc::Ctx& c) { go(c, c.thorough() ? 4 : 3, BUILD); }, 3},
		{"write", [](mc::Ctx& c) { go(c, c.thorough() ? 5 : 3, WRITE); }, 3},
		{"mixed", [](mc::Ctx& c) { go(c, c.thorough() ? 5 : 3, MIXED); }, 3},
	});
}
