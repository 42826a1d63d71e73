// leaf: what variables, placeholders and constants hold. Histories of initialization, data
// assignment and update functions against a value model; refusals run in a child process,
// since the library refuses with assertions.
#include "sources.hpp"
#include <unistd.h>
#include <sys/wait.h>
#include <signal.h>
#include <fcntl.h>
using namespace src;

enum Outcome { DONE, REFUSED, BROKEN };

// run fn in a child process: finished, refused (exception or failed assertion) or broken (anything else)
static Outcome outcome (std::function<void()> fn)
{
	pid_t p = fork();
	if (p == 0)
	{
		int fd = open("/dev/null", O_WRONLY);
		dup2(fd, 2); dup2(fd, 1);
		signal(SIGABRT, SIG_DFL);
		alarm(20);
		try { fn(); } catch (std::exception&) { _exit(3); } catch (...) { _exit(4); }
		_exit(0);
	}
	int st = 0;
	waitpid(p, &st, 0);
	if (WIFSIGNALED(st)) return WTERMSIG(st) == SIGABRT ? REFUSED : BROKEN;
	return WEXITSTATUS(st) == 0 ? DONE : WEXITSTATUS(st) == 3 ? REFUSED : BROKEN;
}

static void must_refuse (mc::Ctx& c, const std::string& what, std::function<void()> fn)
{
	Outcome o = outcome(fn);
	c.check(o == REFUSED, "%s %s", what.c_str(), o == DONE ? "was accepted" : "crashed");
}

static void give (variable<double>& v, const vec& d)
{
	variable_updater<double> up = v.assign(varptr<double>(constant<double>::get(d, v.get_shape())));
	up(true);
}

// ---- updates of variables ---------------------------------------------------
enum Mode { SET, ADD, SUB };
enum From { FULL, ZERO, HOLDER, CONNECTOR, OWN, OVER, NFROM };
struct Upd { Mode m; From f; vec data; variable_updater<double> fn; };

static void updates (mc::Ctx& c, int depth)
{
	static const std::vector<shp> SH = {{2}, {1}, {2, 2}};
	shp s = c.pick(SH);
	size_t n = numel(s);
	bool start = c.flip();
	variable<double> v(s, const_init<double>(4), "v");
	placeholder<double> p(s, "p");
	vec pv, vv;
	auto fill = [n](double b) { vec x; for (size_t i = 0; i < n; i++) x.push_back(b + i * 0.5); return x; };
	auto write = [&](double b) { pv = fill(b); p = pv; };
	bool init = false, stale = false, has = false;
	if (start) { v.initialize(); vv = vec(n, 4); init = true; }
	varptr<double> neg = -varptr<double>(&v), sum = varptr<double>(&v) + varptr<double>(&p);
	varptr<double> conn = varptr<double>(&p) * 3.0, over = varptr<double>(&v) * 2.0;
	std::vector<Upd> ups;
	c.note("shape %s, %sinitialized", sstr(s).c_str(), start ? "" : "not ");
	int serial = 0;
	double last = 4; // what the initializer gives
	for (int i = 0; i < depth; i++)
	{
		int op = c.choose(5);
		if (op == 0) // make an update function
		{
			if (ups.size() == 2) c.prune();
			Upd u;
			u.m = (Mode) c.choose(3); u.f = (From) c.choose(NFROM);
			u.data = u.f == FULL ? fill(10 + ++serial) : vec(n, 0);
			inode<double>* from = nullptr;
			varptr<double> con;
			switch (u.f)
			{
			case FULL: con = constant<double>::get(u.data, tensorshape(s)); from = con.get(); break;
			case ZERO: if (n == 1) con = constant<double>::get(0.0); else con = constant<double>::get(u.data, tensorshape(s)); from = con.get(); break;
			case HOLDER: from = &p; break;
			case CONNECTOR: from = conn.get(); break;
			case OWN: from = &v; break;
			default: from = over.get(); break;
			}
			u.fn = u.m == SET ? v.assign(from) : u.m == ADD ? v.assign_add(from) : v.assign_sub(from);
			ups.push_back(u);
			c.step("update %d from %d", (int) u.m, (int) u.f);
		}
		else if (op == 1) // apply one
		{
			if (ups.empty()) c.prune();
			Upd& u = ups[c.choose(ups.size())];
			bool notify = c.flip();
			c.step("apply, notify %d", (int) notify);
			bool noop = u.f == ZERO && u.m != SET && n == 1;
			if (!init) c.prune();                      // an update before initialization is not specified
			if (stale && u.f == OVER) c.prune();       // what a consumer shows before it is notified is not fixed
			vec arg = u.f == HOLDER ? pv : u.f == CONNECTOR ? pv : (u.f == OWN || u.f == OVER) ? vv : u.data;
			bool novalue = (u.f == HOLDER || u.f == CONNECTOR) && !has;
			if (novalue)
			{
				if (!noop) must_refuse(c, "an update without a value", [&u, notify]() { u.fn(notify); });
				return;
			}
			if (u.f == CONNECTOR) for (double& x : arg) x *= 3;
			if (u.f == OVER) for (double& x : arg) x *= 2;
			u.fn(notify);
			for (size_t k = 0; k < n; k++) vv[k] = u.m == SET ? arg[k] : u.m == ADD ? vv[k] + arg[k] : vv[k] - arg[k];
			if (!noop) stale = !notify;
		}
		else if (op == 2) { write(-20 - ++serial); has = true; c.step("write p"); }
		else if (op == 3)
		{
			double k = 30 + ++serial;
			bool fresh = c.flip();
			if (fresh) v.set_initializer(const_init<double>(k));
			if (fresh) last = k;
			tensor<double>& t = v.initialize();
			vv = vec(n, last);
			init = true; stale = false;
			c.step("initialize with %g", last);
			c.check(t.expose() == vv, "initialize gave %s instead of %s", mc::vstr(t.expose()).c_str(), mc::vstr(vv).c_str());
		}
		else
		{
			if (!init) c.prune();
			vv = fill(50 + ++serial);
			give(v, vv);
			stale = false;
			c.step("assign a constant");
		}
		c.check(v.good_status() == init, "the variable is%s initialized", v.good_status() ? "" : " not");
		vec got = expose<double>(&v);
		c.check(got == vv, "the variable holds %s instead of %s", mc::vstr(got).c_str(), mc::vstr(vv).c_str());
		if (init && !stale)
		{
			vec w = vv, g = expose<double>(neg);
			for (double& x : w) x = -x;
			c.check(g == w, "a consumer shows %s instead of %s", mc::vstr(g).c_str(), mc::vstr(w).c_str());
			w = vv; g = expose<double>(over);
			for (double& x : w) x *= 2;
			c.check(g == w, "the doubled variable is %s instead of %s", mc::vstr(g).c_str(), mc::vstr(w).c_str());
			if (has)
			{
				w = vv; g = expose<double>(sum);
				for (size_t k = 0; k < n; k++) w[k] += pv[k];
				c.check(g == w, "the sum with a placeholder is %s instead of %s", mc::vstr(g).c_str(), mc::vstr(w).c_str());
			}
		}
		c.state(mc::vstr(vv) + mc::vstr(pv) + mc::fmt("%zu%d%d", ups.size(), (int) stale, (int) init));
	}
}

// an update function works on the variable it was made for, whatever was assigned to that
// variable since, and on no copy of it
static void kept (mc::Ctx& c)
{
	static const std::vector<shp> SH = {{2}, {2, 2}};
	shp s = c.pick(SH);
	size_t n = numel(s);
	auto fill = [n](double b) { vec x; for (size_t i = 0; i < n; i++) x.push_back(b + i * 0.5); return x; };
	variable<double> v(s, const_init<double>(4), "v");
	std::unique_ptr<variable<double> > w(new variable<double>(s, const_init<double>(-1), "w"));
	std::unique_ptr<variable<double> > k;
	placeholder<double> p(s, "p");
	v.initialize(); w->initialize(); p = fill(7);
	give(v, fill(1)); give(*w, fill(3));
	vec vv = fill(1), wv = fill(3), kv, pv = fill(7);
	varptr<double> neg = -varptr<double>(&v);
	Mode m = (Mode) c.choose(3);
	int from = c.choose(4);
	varptr<double> con;
	if (from == 0) con = constant<double>::get(fill(20), tensorshape(s));
	inode<double>* src = from == 0 ? con.get() : from == 1 ? (inode<double>*) &p : from == 2 ? (inode<double>*) &v : (inode<double>*) neg.get();
	variable_updater<double> up = m == SET ? v.assign(src) : m == ADD ? v.assign_add(src) : v.assign_sub(src);
	bool moved = false;
	int depth = c.thorough() ? 4 : 3;
	for (int d = 0; d < depth; d++)
	{
		switch (c.choose(7))
		{
		case 0: if (moved) c.prune(); c.step("v = w"); v = *w; vv = wv; break;
		case 1: if (moved) c.prune(); c.step("v = move of w"); v = std::move(*w); vv = wv; moved = true; break;
		case 2: if (moved) c.prune(); c.step("w = v"); *w = v; wv = vv; break;
		case 3: if (k) c.prune(); c.step("k = clone of v"); k.reset(v.clone()); kv = vv; break;
		case 4: { c.step("p written"); pv = fill(40 + d); p = pv; break; }
		case 5: { c.step("v reinitialized"); v.initialize(); double first = v.eval()->expose()[0]; c.check(first == 4 || first == -1, "initializing gave %g", first); vv = vec(n, first); break; }
		default: {
			c.step("update applied");
			vec arg = from == 0 ? fill(20) : from == 1 ? pv : vv;
			if (from == 3) for (double& x : arg) x = -x;
			up(true);
			for (size_t i = 0; i < n; i++) vv[i] = m == SET ? arg[i] : m == ADD ? vv[i] + arg[i] : vv[i] - arg[i];
			break; }
		}
		vec got = expose<double>(&v);
		c.check(got == vv, "the variable holds %s instead of %s", mc::vstr(got).c_str(), mc::vstr(vv).c_str());
		if (!moved) { got = expose<double>(w.get()); c.check(got == wv, "the other variable holds %s instead of %s", mc::vstr(got).c_str(), mc::vstr(wv).c_str()); }
		if (k) { got = expose<double>(k.get()); c.check(got == kv, "the copy holds %s instead of %s", mc::vstr(got).c_str(), mc::vstr(kv).c_str()); }
		vec want = vv; for (double& x : want) x = -x;
		got = expose<double>(neg);
		c.check(got == want, "a consumer shows %s instead of %s", mc::vstr(got).c_str(), mc::vstr(want).c_str());
		c.state(mc::vstr(vv) + mc::vstr(wv) + mc::vstr(kv) + mc::vstr(pv) + (moved ? "m" : ""));
	}
}

// updates whose data does not fit, or that have nothing to work on
static void misfits (mc::Ctx& c)
{
	static const std::vector<shp> SH = {{2}, {1}, {2, 2}, {3}};
	shp s = c.pick(SH), t = c.pick(SH);
	Mode m = (Mode) c.choose(3);
	int kind = c.choose(3);
	size_t n = numel(s), k = numel(t);
	c.step("variable %s, update %d by %d of %s", sstr(s).c_str(), (int) m, kind, sstr(t).c_str());
	variable<double> v(s, const_init<double>(1), "v");
	v.initialize();
	placeholder<double> p(t, "p");
	p = vec(k, 2);
	varptr<double> conn = -varptr<double>(&p), con;
	if (kind == 2) con = constant<double>::get(vec(k, 2), tensorshape(t));
	inode<double>* from = kind == 0 ? (inode<double>*) &p : kind == 1 ? conn.get() : con.get();
	double x = kind == 1 ? -2 : 2;
	auto run = [&]()
	{
		variable_updater<double> u = m == SET ? v.assign(from) : m == ADD ? v.assign_add(from) : v.assign_sub(from);
		u(true);
	};
	if (k == n) { run(); c.check(expose<double>(&v) == vec(n, m == SET ? x : m == ADD ? 1 + x : 1 - x), "the variable became %s", mc::vstr(expose<double>(&v)).c_str()); }
	else if (kind != 2 || k < n) must_refuse(c, "data of another size", run);
	c.check(v.get_shape().as_list() == s, "the variable's shape changed to %s", sstr(v.get_shape().as_list()).c_str());
}

// ---- initialization ---------------------------------------------------------
static const std::vector<shp> DECL = {{}, {2}, {0}, {0, 2}, {2, 0, 3}, {0, 0}, {2, 2}};

static bool fullshape (const shp& s) { if (s.empty()) return false; for (size_t d : s) if (!d) return false; return true; }
static bool fits (const shp& decl, const shp& s) // s is fully defined
{
	// shapes are compared without leading and trailing ones
	return tensorshape(decl).is_compatible_with(tensorshape(s));
}

static void initialization (mc::Ctx& c, int depth)
{
	static const std::vector<shp> ASK = {{2}, {3}, {3, 2}, {2, 4, 3}, {0, 2}, {2, 2}, {}};
	shp decl = c.pick(DECL);
	bool hasinit = c.flip();
	c.note("declared %s, %s initializer", sstr(decl).c_str(), hasinit ? "with" : "without");
	std::unique_ptr<variable<double> > v;
	if (hasinit) v.reset(new variable<double>(tensorshape(decl), const_init<double>(7), "v"));
	else v.reset(new variable<double>(tensorshape(decl), "v"));
	double value = 7;
	shp cur; // allocated shape
	vec val;
	varptr<double> use = -varptr<double>(v.get());
	for (int i = 0; i < depth; i++)
	{
		int op = c.choose(3);
		if (op == 0)
		{
			value = 20 + i; hasinit = true;
			v->set_initializer(const_init<double>(value));
			c.step("set initializer");
		}
		else if (op == 1)
		{
			c.step("initialize");
			if (!hasinit) { must_refuse(c, "initialization without an initializer", [&]() { v->initialize(); }); return; }
			bool can = !cur.empty() || fullshape(decl);
			bool ok = true;
			try { v->initialize(); } catch (std::runtime_error&) { ok = false; }
			c.check(ok == can, "initialization %s", ok ? "succeeded without a shape" : "failed");
			if (ok) { if (cur.empty()) cur = decl; val = vec(numel(cur), value); }
		}
		else
		{
			shp s = c.pick(ASK);
			c.step("initialize as %s", sstr(s).c_str());
			if (!hasinit) { must_refuse(c, "initialization without an initializer", [&]() { v->initialize(tensorshape(s)); }); return; }
			bool can = fullshape(s) && fits(decl, s);
			// another shape for a variable in use is a matter of its consumers
			if (can && !cur.empty() && s != cur) c.prune();
			bool ok = true;
			try { v->initialize(tensorshape(s)); } catch (std::runtime_error&) { ok = false; }
			// storage that exists already may be refused
			if ((cur.empty() && !fullshape(decl)) || !can) c.check(ok == can, "initialization %s", ok ? "accepted a shape that does not fit" : "failed");
			if (ok) { if (cur.empty()) cur = s; val = vec(numel(cur), value); }
		}
		c.check(v->can_init() == hasinit, "can_init is %d", (int) v->can_init());
		c.check(v->good_status() == !val.empty(), "good_status is %d", (int) v->good_status());
		c.check(v->get_shape().as_list() == (cur.empty() ? decl : cur), "the shape is %s", sstr(v->get_shape().as_list()).c_str());
		vec got = expose<double>(v.get());
		c.check(got == val, "the variable holds %s instead of %s", mc::vstr(got).c_str(), mc::vstr(val).c_str());
		c.check((v->eval() != nullptr) == !val.empty(), "eval does not fit the status");
		if (!val.empty())
		{
			vec w = val, g = expose<double>(use);
			for (double& x : w) x = -x;
			c.check(g == w, "a consumer shows %s instead of %s", mc::vstr(g).c_str(), mc::vstr(w).c_str());
		}
		c.state(sstr(decl) + sstr(cur) + mc::vstr(val) + mc::fmt("%d", (int) hasinit));
	}
}

// ---- placeholders -----------------------------------------------------------
// the shape that n elements give a declared shape, empty if none
static shp guess (const shp& d, size_t n)
{
	if (n == 0) return {};
	if (d.empty()) return {n};
	size_t known = 1, first = d.size();
	shp r = d;
	for (size_t i = 0; i < d.size(); i++)
		if (d[i]) known *= d[i];
		else { if (first == d.size()) first = i; r[i] = 1; }
	if (first == d.size()) return known == n ? d : shp();
	if (n % known) return {};
	r[first] = n / known;
	return r;
}

static void holders (mc::Ctx& c, int depth)
{
	shp decl = c.pick(DECL), cur;
	placeholder<double> p((tensorshape(decl)), "p");
	varptr<double> use = varptr<double>(&p) * 2.0;
	vec val;
	c.note("declared %s", sstr(decl).c_str());
	for (int i = 0; i < depth; i++)
	{
		size_t n = c.choose(9);
		vec d;
		for (size_t k = 0; k < n; k++) d.push_back(10 * (i + 1) + k);
		bool tens = n && c.flip();
		if (tens)
		{
			shp s = cur.empty() ? guess(decl, n) : cur;
			if (s.empty() || numel(s) != n) c.prune();
			c.step("assign a tensor %s", sstr(s).c_str());
			tensor<double> t((tensorshape(s)));
			assign_func<double>()(t, d);
			p = t;
			c.check(!t.is_alloc(), "the assigned tensor still owns data");
			cur = s; val = d;
		}
		else
		{
			shp s = cur.empty() ? guess(decl, n) : numel(cur) == n ? cur : shp();
			c.step("assign %zu elements", n);
			if (s.empty()) must_refuse(c, mc::fmt("%zu elements for %s", n, sstr(cur.empty() ? decl : cur).c_str()), [&]() { p = d; });
			else { p = d; cur = s; val = d; }
		}
		c.check(p.good_status() == !val.empty(), "good_status is %d", (int) p.good_status());
		c.check(p.get_shape().as_list() == (cur.empty() ? decl : cur), "the shape is %s, expected %s", sstr(p.get_shape().as_list()).c_str(), sstr(cur.empty() ? decl : cur).c_str());
		vec got = expose<double>(&p);
		c.check(got == val, "the placeholder holds %s instead of %s", mc::vstr(got).c_str(), mc::vstr(val).c_str());
		c.check(!p.can_init(), "a placeholder can be initialized");
		if (!val.empty())
		{
			vec w = val, g = expose<double>(use);
			for (double& x : w) x *= 2;
			c.check(g == w && use->get_shape().as_list() == cur, "a consumer shows %s of shape %s", mc::vstr(g).c_str(), sstr(use->get_shape().as_list()).c_str());
		}
		c.state(sstr(decl) + sstr(cur) + mc::vstr(val));
	}
}

// ---- constants --------------------------------------------------------------
static void constants (mc::Ctx& c)
{
	int kind = c.choose(4);
	if (kind == 0)
	{
		const vec V = {0, 1, -1.5, 1e-9, 123456789.25};
		double x = c.pick(V), y = c.pick(V);
		c.step("scalar %g", x);
		varptr<double> k = constant<double>::get(x);
		constant<double>* p = static_cast<constant<double>*>(k.get());
		c.check(expose<double>(k) == vec{x}, "a scalar constant holds %s", mc::vstr(expose<double>(k)).c_str());
		c.check(k->get_shape().as_list() == shp{1}, "a scalar constant has shape %s", sstr(k->get_shape().as_list()).c_str());
		c.check((*p == y) == (x == y) && (*p != y) == (x != y), "comparing %g with %g is wrong", x, y);
		c.check(k->good_status() && k->get_depth() == 0 && k->n_arguments() == 0 && k->get_arguments().empty(), "a constant is no leaf");
	}
	else if (kind == 1)
	{
		static const std::vector<shp> SH = {{}, {3}, {2, 2}, {0, 2}, {2, 0}, {0}, {2, 0, 2}, {1, 3}};
		shp s = c.pick(SH);
		int n = c.choose(8);
		if (n == 0 && (s.empty() || (s.size() == 1 && !s[0]))) c.prune(); // nothing says how much data there is
		vec d;
		for (int i = 0; i < n; i++) d.push_back(i + 1.5);
		c.step("constant %s from %d elements", sstr(s).c_str(), n);
		// expected: missing elements are zero; an unknown dimension is as large as the data needs
		shp e = s;
		if (s.empty()) e = {(size_t) n};
		else if (!fullshape(s))
		{
			size_t known = 1, first = s.size();
			for (size_t i = 0; i < s.size(); i++) if (s[i]) known *= s[i]; else { e[i] = 1; if (first == s.size()) first = i; }
			e[first] = std::max((size_t) 1, (n + known - 1) / known);
		}
		vec w = d;
		w.resize(numel(e), 0);
		varptr<double> k = constant<double>::get(d, tensorshape(s));
		vec got = expose<double>(k);
		if ((size_t) n > numel(e) && fullshape(s)) {} // surplus data: only the front is used
		c.check(k->get_shape().as_list() == e, "the shape is %s instead of %s", sstr(k->get_shape().as_list()).c_str(), sstr(e).c_str());
		c.check(got == w, "the constant holds %s instead of %s", mc::vstr(got).c_str(), mc::vstr(w).c_str());
		constant<double>* p = static_cast<constant<double>*>(k.get());
		for (double y : {0.0, 1.5, 2.5}) c.check((*p == y) == (w.size() == 1 && w[0] == y) && (*p != y) == !(*p == y), "comparing with %g is wrong", y);
	}
	else if (kind == 2)
	{
		static const std::vector<shp> SH = {{3}, {2, 2}, {3, 2}, {2, 1, 3}, {1}};
		shp s = c.pick(SH);
		size_t dim = c.choose(s.size()), idx = c.choose(4);
		const vec V = {1, -2};
		double x = c.pick(V);
		c.step("axis constant %s, dimension %zu, index %zu", sstr(s).c_str(), dim, idx);
		varptr<double> k = const_axis<double>(dim, idx, x, tensorshape(s));
		vec w;
		for (size_t i = 0; i < numel(s); i++)
		{
			size_t r = i;
			for (size_t d = 0; d < dim; d++) r /= s[d];
			w.push_back(r % s[dim] == idx ? x : 0);
		}
		c.check(k->get_shape().as_list() == s && expose<double>(k) == w, "it is %s instead of %s", mc::vstr(expose<double>(k)).c_str(), mc::vstr(w).c_str());
	}
	else
	{
		// shared constants outlive every user; others live as long as someone uses them
		int uses = c.choose(3);
		bool managed = c.flip();
		c.step("%d uses, managed %d", uses, (int) managed);
		{
			varptr<double> z = constant<double>::get_shared_zero(), o = constant<double>::get_shared_one();
		}
		c.check(*constant<double>::get_shared_zero() == 0.0 && *constant<double>::get_shared_one() == 1.0, "the shared constants changed");
		constant<double>* k = constant<double>::get(2.5);
		if (managed) k->be_managed();
		varptr<double> watch[2];
		placeholder<double> p(shp{2}, "p");
		p = vec{1, 2};
		for (int u = 0; u < uses; u++) watch[u] = k;
		varptr<double> node = varptr<double>(&p) + varptr<double>(k);
		for (int u = 0; u < uses; u++)
		{
			c.check(watch[u].get() == k && *k == 2.5, "a constant died while it was used");
			watch[u] = nullptr;
		}
		if (managed) { c.check(*k == 2.5, "a managed constant died"); delete k; }
		c.check(expose<double>(node) == (vec{3.5, 4.5}), "the sum is %s", mc::vstr(expose<double>(node)).c_str());
	}
}

// what every leaf says about itself
static void leaf_identity (mc::Ctx& c)
{
	int kind = c.choose(3);
	c.step("kind %d", kind);
	variable<double> v(shp{2}, const_init<double>(3), "v"), other(shp{2}, const_init<double>(1), "other");
	placeholder<double> p(shp{2}, "p");
	varptr<double> k = constant<double>::get(2.5);
	inode<double>* n = kind == 0 ? (inode<double>*) &v : kind == 1 ? (inode<double>*) &p : k.get();
	c.check(n->get_depth() == 0 && n->n_arguments() == 0 && n->get_arguments().empty(), "a leaf has arguments");
	std::unordered_set<ileaf<double>*> l = n->get_leaves();
	c.check(l.size() == 1 && *l.begin() == n, "a leaf is not its own leaf");
	for (inode<double>* w : std::initializer_list<inode<double>*>{&v, &other, &p})
	{
		vec g = expose<double>(n->derive(w));
		for (double x : g) c.check(x == (n == w ? 1 : 0), "the gradient of leaf %d by %s is %g", kind, w->get_label().c_str(), x);
		c.check(!g.empty(), "the gradient of a leaf has no value");
	}
	n->set_label("renamed");
	c.check(n->get_label() == "renamed", "the label is %s", n->get_label().c_str());
	variable<double> s(6.5, "s");
	c.check(expose<double>(&s) == vec{6.5} && s.get_shape().as_list() == shp{1} && s.can_init() && s.good_status(), "a scalar variable holds %s", mc::vstr(expose<double>(&s)).c_str());
}

int main (int argc, char** argv)
{
	std::vector<mc::Scenario> s = {
		{"updates", [](mc::Ctx& c) { updates(c, c.thorough() ? 5 : 4); }, 3},
		{"kept", kept, 3},
		{"misfits", misfits, 2},
		{"initialization", [](mc::Ctx& c) { initialization(c, c.thorough() ? 4 : 3); }, 3},
		{"holders", [](mc::Ctx& c) { holders(c, c.thorough() ? 4 : 3); }},
		{"constants", constants},
		{"identity", leaf_identity, 1},
	};
	return mc::run(argc, argv, s);
}
