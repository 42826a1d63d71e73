// leafcopy: copying, moving and assigning variables and placeholders. Every history of
// operations over two leaves of one kind and the nodes computed from them is explored and
// compared with a model: a copy is independent, a move takes value, initializer and
// consumers along, an assignment changes the value that the target's consumers see.
#include "sources.hpp"
using namespace src;

typedef std::unique_ptr<inode<double> > Leaf;
struct Obs { varptr<double> node; int of; int kind; }; // of: the slot it watches, -1: dead
struct Slot
{
	ivariable<double>* n = nullptr;
	bool init = false, caninit = false, empty = false;
	vec v; std::string label; double seed = 0;
};
static const shp S = {2};

struct W
{
	bool var;
	Slot s[2];
	std::vector<Obs> obs;
	placeholder<double> q;
	int serial = 0;
	W (bool var) : var(var), q(S, "q") { q = vec{3, -2}; }
	~W (void)
	{
		for (Slot& x : s) if (x.n) delete x.n;
	}
	void create (int i, bool start)
	{
		Slot& x = s[i];
		x = Slot();
		x.label = mc::fmt("leaf%d", serial++);
		if (var) { x.seed = 0.5 + serial; x.n = new variable<double>(S, const_init<double>(x.seed), x.label); x.caninit = true; }
		else x.n = new placeholder<double>(S, x.label);
		if (start) write(i);
	}
	void write (int i)
	{
		Slot& x = s[i];
		double b = 10 * ++serial;
		x.v = {b + 1, b + 2};
		if (var)
		{
			variable<double>* vr = static_cast<variable<double>*>(x.n);
			if (!x.init) { vr->initialize(); x.v = {x.seed, x.seed}; }
			else { variable_updater<double> up = vr->assign(varptr<double>(constant<double>::get(x.v, tensorshape(S)))); up(true); }
		}
		else *static_cast<placeholder<double>*>(x.n) = x.v;
		x.init = true;
	}
	void kill (int i)
	{
		for (Obs& o : obs) if (o.of == i) o.of = -1;
		delete s[i].n;
		s[i] = Slot();
	}
};

static void verify (mc::Ctx& c, W& w, bool grads)
{
	for (int i = 0; i < 2; i++)
	{
		Slot& x = w.s[i];
		if (!x.n || x.empty) continue;
		c.check(x.n->good_status() == x.init, "leaf %d is%s initialized, expected otherwise", i, x.n->good_status() ? "" : " not");
		c.check(x.n->get_label() == x.label, "leaf %d is labelled %s instead of %s", i, x.n->get_label().c_str(), x.label.c_str());
		c.check(x.n->can_init() == x.caninit, "leaf %d: can_init is %d", i, (int) x.n->can_init());
		c.check(x.n->get_shape().as_list() == S, "leaf %d has shape %s", i, sstr(x.n->get_shape().as_list()).c_str());
		const tensor<double>* t = x.n->eval();
		c.check((t != nullptr) == x.init, "leaf %d: eval gives%s a tensor", i, t ? "" : " not");
		if (t) { vec got = t->expose(); c.check(got == x.v, "leaf %d holds %s, expected %s", i, mc::vstr(got).c_str(), mc::vstr(x.v).c_str()); }
		size_t n = 0;
		std::unordered_set<ileaf<double>*> l = x.n->get_leaves();
		c.check(l.size() == 1 && *l.begin() == x.n, "leaf %d: its leaves are not itself", i);
		for (Obs& o : w.obs) n += o.of == i;
		c.check((n > 0) == (x.n->n_audience() > 0 + (size_t) 0) || n <= x.n->n_audience(), "leaf %d has %zu consumers, expected at least %zu", i, x.n->n_audience(), n);
	}
	for (size_t k = 0; k < w.obs.size(); k++)
	{
		Obs& o = w.obs[k];
		if (o.of < 0) { c.check(o.node.get() == nullptr, "consumer %zu survived its leaf", k); continue; }
		Slot& x = w.s[o.of];
		c.check(o.node.get() != nullptr, "consumer %zu died though its leaf lives", k);
		std::vector<inode<double>*> args = o.node->get_arguments();
		c.check(args.size() && args[0] == x.n, "consumer %zu does not watch leaf %d", k, o.of);
		const tensor<double>* t = o.node->eval();
		bool has = t && t->is_alloc();
		if (x.empty) continue;
		c.check(has || !x.init, "consumer %zu has no value", k);
		if (!has || !x.init) continue;
		vec want, got = t->expose();
		for (size_t e = 0; e < x.v.size(); e++) want.push_back(o.kind == 0 ? -x.v[e] : x.v[e] * (e ? -2 : 3));
		c.check(got == want, "consumer %zu of leaf %d is %s, expected %s", k, o.of, mc::vstr(got).c_str(), mc::vstr(want).c_str());
		if (grads && w.var)
		{
			vec d = expose<double>(o.node->derive(x.n)), wd = o.kind == 0 ? vec{-1, -1} : vec{3, -2};
			if (d.size() == 1) d.push_back(d[0]);
			c.check(d == wd, "gradient of consumer %zu by leaf %d is %s, expected %s", k, o.of, mc::vstr(d).c_str(), mc::vstr(wd).c_str());
		}
	}
}

static void history (mc::Ctx& c, int depth)
{
	bool var = c.flip();
	W w(var);
	int st = c.choose(3), sum = 0;
	w.create(0, st > 0);
	w.create(1, st > 1);
	c.note("%s, %d initialized", var ? "variables" : "placeholders", st);
	std::string hist;
	for (int i = 0; i < depth; i++)
	{
		int op = c.choose(8), a = c.choose(2), b = 1 - a;
		Slot& x = w.s[a]; Slot& y = w.s[b];
		switch (op)
		{
		case 0: // observe
		{
			if (!x.n || x.empty || w.obs.size() > 2) c.prune();
			int k = c.choose(2);
			c.step("consumer %zu = %s leaf %d", w.obs.size(), k ? "product of q and" : "negation of", a);
			varptr<double> n = k ? varptr<double>(x.n) * varptr<double>(&w.q) : -varptr<double>(x.n);
			w.obs.push_back({n, a, k});
			break;
		}
		case 1: // write
			if (!x.n || x.empty) c.prune();
			c.step("write leaf %d", a);
			w.write(a);
			break;
		case 2: // copy constructor
			if (!x.n || x.empty || y.n) c.prune();
			c.step("leaf %d = clone of leaf %d", b, a);
			y = x; y.n = x.n->clone();
			c.check(y.n && y.n != x.n && y.n->no_audience(), "a clone starts without consumers");
			break;
		case 3: // move constructor
			if (!x.n || x.empty || y.n) c.prune();
			c.step("leaf %d = moved leaf %d", b, a);
			y = x; y.n = x.n->move();
			x.empty = true;
			for (Obs& o : w.obs) if (o.of == a) o.of = b;
			break;
		case 4: // copy assignment
			if (!x.n || !y.n || x.empty) c.prune();
			c.step("leaf %d = copy of leaf %d", b, a);
			if (var) *static_cast<variable<double>*>(y.n) = *static_cast<variable<double>*>(x.n);
			else *static_cast<placeholder<double>*>(y.n) = *static_cast<placeholder<double>*>(x.n);
			{ ivariable<double>* n = y.n; y = x; y.n = n; }
			break;
		case 5: // move assignment
			if (!x.n || !y.n || x.empty) c.prune();
			c.step("leaf %d = moved leaf %d (assigned)", b, a);
			if (var) *static_cast<variable<double>*>(y.n) = std::move(*static_cast<variable<double>*>(x.n));
			else *static_cast<placeholder<double>*>(y.n) = std::move(*static_cast<placeholder<double>*>(x.n));
			{ ivariable<double>* n = y.n; y = x; y.n = n; }
			x.empty = true;
			for (Obs& o : w.obs) if (o.of == a) o.of = b;
			break;
		case 6: // delete
			if (!x.n) c.prune();
			c.step("delete leaf %d", a);
			w.kill(a);
			break;
		case 7: // self assignment
			if (!x.n || x.empty) c.prune();
			c.step("leaf %d = itself", a);
			if (var) *static_cast<variable<double>*>(x.n) = *static_cast<variable<double>*>(x.n);
			else *static_cast<placeholder<double>*>(x.n) = *static_cast<placeholder<double>*>(x.n);
			break;
		}
		std::string st;
		for (Slot& x : w.s) st += mc::fmt("%d%d%d%d ", x.n != nullptr, x.init, x.caninit, x.empty) + mc::vstr(x.v);
		for (Obs& o : w.obs) st += mc::fmt("o%d%d", o.of, o.kind);
		c.state((var ? "v" : "p") + st);
		verify(c, w, true);
	}
}
// gradients by a variable that was moved after its consumer was built
static void movedgrad (mc::Ctx& c)
{
	bool assign = c.flip(), product = c.flip(), asked = c.flip();
	W w(true);
	w.create(0, true);
	w.create(1, true);
	varptr<double> x(w.s[0].n);
	varptr<double> n = product ? x * varptr<double>(&w.q) : -x;
	w.obs.push_back({n, 0, product});
	c.note("%s of a variable, %sthen the variable is moved by %s", product ? "product" : "negation", asked ? "gradient, " : "", assign ? "assignment" : "construction");
	c.state(mc::fmt("mg %d%d%d", assign, product, asked));
	verify(c, w, asked);
	c.step("move");
	ivariable<double>* old = w.s[1].n;
	if (assign) *static_cast<variable<double>*>(old) = std::move(*static_cast<variable<double>*>(w.s[0].n));
	else { delete old; old = w.s[0].n->move(); }
	w.s[1] = w.s[0]; w.s[1].n = old; w.s[0].empty = true;
	w.obs[0].of = 1;
	verify(c, w, false);
	c.key("gradient-by-moved-variable");
	verify(c, w, true);
}
static void short_ (mc::Ctx& c) { history(c, 3); }
static void long_ (mc::Ctx& c) { history(c, c.thorough() ? 5 : 4); }

int main (int argc, char** argv)
{
	return mc::run(argc, argv, { {"short", short_, 3}, {"long", long_, 4}, {"movedgrad", movedgrad, 1} });
}
