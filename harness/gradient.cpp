// gradient: deriving a node by a variable gives, for every element of the variable, the
// derivative of the sum of the node's elements - for every composition of differentiable
// operations in the bounds, and again after the leaves are written. The oracle evaluates
// each formula with second order Taylor coefficients.
#include "sources.hpp"
using namespace src;
typedef varptr<double> V;

struct Jet { double c0 = 0, c1 = 0, c2 = 0; Jet (double a = 0, double b = 0, double q = 0) : c0(a), c1(b), c2(q) {} };
static Jet operator + (Jet a, Jet b) { return {a.c0 + b.c0, a.c1 + b.c1, a.c2 + b.c2}; }
static Jet operator - (Jet a, Jet b) { return {a.c0 - b.c0, a.c1 - b.c1, a.c2 - b.c2}; }
static Jet operator * (Jet a, Jet b) { return {a.c0 * b.c0, a.c0 * b.c1 + a.c1 * b.c0, a.c0 * b.c2 + a.c1 * b.c1 + a.c2 * b.c0}; }
// f given by value and first two derivatives at a.c0
static Jet lift (Jet a, double f, double f1, double f2) { return {f, f1 * a.c1, f1 * a.c2 + f2 / 2 * a.c1 * a.c1}; }
static Jet inv (Jet a) { double x = a.c0; return lift(a, 1 / x, -1 / (x * x), 2 / (x * x * x)); }
static Jet operator / (Jet a, Jet b) { return a * inv(b); }
static Jet jsin (Jet a) { return lift(a, std::sin(a.c0), std::cos(a.c0), -std::sin(a.c0)); }
static Jet jcos (Jet a) { return lift(a, std::cos(a.c0), -std::sin(a.c0), -std::cos(a.c0)); }
static Jet jexp (Jet a) { double e = std::exp(a.c0); return lift(a, e, e, e); }
static Jet jpow (Jet a, double p) { double x = a.c0; return lift(a, std::pow(x, p), p * std::pow(x, p - 1), p * (p - 1) * std::pow(x, p - 2)); }
static Jet jlog (Jet a) { double x = a.c0; return lift(a, std::log(x), 1 / x, -1 / (x * x)); }

struct Un { const char* name; std::function<V(V)> f; std::function<Jet(Jet)> g; };
static const std::vector<Un> UN = {
	{"neg", [](V x) { return -x; }, [](Jet a) { return Jet() - a; }},
	{"sin", [](V x) { return nnet::sin(x); }, jsin},
	{"cos", [](V x) { return nnet::cos(x); }, jcos},
	{"tan", [](V x) { return nnet::tan(x); }, [](Jet a) { return jsin(a) / jcos(a); }},
	{"csc", [](V x) { return csc(x); }, [](Jet a) { return inv(jsin(a)); }},
	{"sec", [](V x) { return sec(x); }, [](Jet a) { return inv(jcos(a)); }},
	{"cot", [](V x) { return cot(x); }, [](Jet a) { return jcos(a) / jsin(a); }},
	{"exp", [](V x) { return nnet::exp(x); }, jexp},
	{"sqrt", [](V x) { return nnet::sqrt(x); }, [](Jet a) { return jpow(a, 0.5); }},
	{"log", [](V x) { return nnet::log(x); }, jlog},
	{"pow3", [](V x) { return nnet::pow(x, 3.0); }, [](Jet a) { return a * a * a; }},
	{"pow-1", [](V x) { return nnet::pow(x, -1.0); }, inv},
	{"pow.5", [](V x) { return nnet::pow(x, 0.5); }, [](Jet a) { return jpow(a, 0.5); }},
	{"abs", [](V x) { return +x; }, [](Jet a) { return a.c0 < 0 ? Jet() - a : a; }},
	{"identity", [](V x) { return identity(x); }, [](Jet a) { return a; }},
	{"x+2", [](V x) { return x + 2.0; }, [](Jet a) { return a + Jet(2); }},
	{"3+x", [](V x) { return 3.0 + x; }, [](Jet a) { return a + Jet(3); }},
	{"x-2", [](V x) { return x - 2.0; }, [](Jet a) { return a - Jet(2); }},
	{"3-x", [](V x) { return 3.0 - x; }, [](Jet a) { return Jet(3) - a; }},
	{"x*2", [](V x) { return x * 2.0; }, [](Jet a) { return a * Jet(2); }},
	{"-3*x", [](V x) { return -3.0 * x; }, [](Jet a) { return a * Jet(-3); }},
	{"x/4", [](V x) { return x / 4.0; }, [](Jet a) { return a * Jet(0.25); }},
	{"5/x", [](V x) { return 5.0 / x; }, [](Jet a) { return Jet(5) / a; }},
	{"sigmoid", [](V x) { return 1.0 / (1.0 + nnet::exp(-x)); }, [](Jet a) { return inv(Jet(1) + jexp(Jet() - a)); }},
};
static const int NBI = 4;
static V bi (int o, V a, V b) { return o == 0 ? a + b : o == 1 ? a - b : o == 2 ? a * b : a / b; }
static Jet jbi (int o, Jet a, Jet b) { return o == 0 ? a + b : o == 1 ? a - b : o == 2 ? a * b : a / b; }
static const char* const BN[] = {"+", "-", "*", "/"};

// formula over the leaves 0..n-1 (elementwise)
struct F { std::string s; std::function<Jet(const std::vector<Jet>&)> g; V node; };

static vec leafdata (int l, int set, size_t n)
{
	vec r;
	for (size_t i = 0; i < n; i++) r.push_back(0.35 + 0.17 * ((l * 5 + i * 3 + set * 4) % 11) + 0.013 * l + 0.005 * i);
	return r;
}
static void setvar (variable<double>& v, const shp& s, vec d) { variable_updater<double> up = v.assign(varptr<double>(constant<double>::get(d, tensorshape(s)))); up(true); }

static bool agrees (const vec& got, const vec& want)
{
	if (got.size() != want.size() && got.size() != 1) return false;
	for (size_t i = 0; i < want.size(); i++)
	{
		if (!std::isfinite(want[i])) continue;
		if (!mc::close(got[got.size() == 1 ? 0 : i], want[i], 1e-7, 1e-7)) return false;
	}
	return true;
}

static void grad_is (mc::Ctx& c, V g, const vec& want, const char* what)
{
	c.check(g.get() != nullptr, "%s: no node", what);
	const tensor<double>* t = g->eval();
	c.check(t && t->is_alloc(), "%s: no value", what);
	vec got = t->expose();
	c.check(agrees(got, want), "%s is %s, expected %s", what, mc::vstr(got).c_str(), mc::vstr(want).c_str());
}

struct Leaves
{
	shp s; size_t n;
	std::vector<std::unique_ptr<variable<double> > > v;
	placeholder<double> p;
	std::vector<vec> d; // last: the placeholder's
	Leaves (const shp& s, int nv) : s(s), n(numel(s)), p(s, "p")
	{
		for (int i = 0; i < nv; i++) { v.emplace_back(new variable<double>(s, const_init<double>(0.0), "v" + std::to_string(i))); v[i]->initialize(); }
		d.resize(nv + 1);
		write(0);
	}
	void write (int set)
	{
		for (size_t i = 0; i <= v.size(); i++)
		{
			d[i] = leafdata(i, set, n);
			if (i < v.size()) setvar(*v[i], s, d[i]); else p = d[i];
		}
	}
	F leaf (int i)
	{
		F f; f.s = i < (int) v.size() ? "v" + std::to_string(i) : "p";
		f.g = [i](const std::vector<Jet>& x) { return x[i]; };
		f.node = i < (int) v.size() ? (inode<double>*) v[i].get() : (inode<double>*) &p;
		return f;
	}
	// the first (or second) derivative of f by leaf l, element by element
	vec deriv (const F& f, int l, int order)
	{
		vec r;
		for (size_t e = 0; e < n; e++)
		{
			std::vector<Jet> x;
			for (size_t i = 0; i < d.size(); i++) x.push_back(Jet(d[i][e], (int) i == l ? 1 : 0));
			Jet j = f.g(x);
			r.push_back(order == 0 ? j.c0 : order == 1 ? j.c1 : 2 * j.c2);
		}
		return r;
	}
};
static F un (int o, F a) { F r; r.s = std::string(UN[o].name) + "(" + a.s + ")"; auto g = a.g; r.g = [o, g](const std::vector<Jet>& x) { return UN[o].g(g(x)); }; r.node = UN[o].f(a.node); return r; }
static F bin (int o, F a, F b) { F r; r.s = "(" + a.s + BN[o] + b.s + ")"; auto ga = a.g, gb = b.g; r.g = [o, ga, gb](const std::vector<Jet>& x) { return jbi(o, ga(x), gb(x)); }; r.node = bi(o, a.node, b.node); return r; }

static void verify (mc::Ctx& c, Leaves& L, const F& f, bool second)
{
	c.note("%s", f.s.c_str());
	c.state(f.s + sstr(L.s));
	c.step("build");
	std::vector<V> gs, hs;
	for (size_t l = 0; l < L.v.size(); l++)
	{
		gs.push_back(f.node->derive(L.v[l].get()));
		c.check(gs[l].get() != nullptr, "no gradient by v%zu", l);
		if (second && l == 0) hs.push_back(gs[l]->derive(L.v[l].get()));
	}
	for (int t = 0; t < 2; t++)
	{
		if (t) { L.write(1); c.step("write"); }
		vec val = f.node->eval()->expose(), want = L.deriv(f, 0, 0);
		c.check(agrees(val, want), "value is %s, expected %s", mc::vstr(val).c_str(), mc::vstr(want).c_str());
		for (size_t l = 0; l < L.v.size(); l++)
		{
			grad_is(c, gs[l], L.deriv(f, l, 1), mc::fmt("%sd/dv%zu %s", t ? "after a write, " : "", l, f.s.c_str()).c_str());
			if (l < hs.size()) grad_is(c, hs[l], L.deriv(f, l, 2), mc::fmt("%sd2/dv%zu2 %s", t ? "after a write, " : "", l, f.s.c_str()).c_str());
		}
		for (size_t l = 0; l < L.v.size(); l++) grad_is(c, f.node->derive(L.v[l].get()), L.deriv(f, l, 1), "asked for again");
	}
}

static const std::vector<shp> ESH = {{3}, {2,2}};

// op1(op2(x)), first and second derivative
static void unary2 (mc::Ctx& c)
{
	int a = c.choose(UN.size()), b = c.choose(UN.size() + 1);
	Leaves L(c.pick(ESH), 1);
	F f = L.leaf(0);
	if (b < (int) UN.size()) f = un(b, f);
	verify(c, L, un(a, f), true);
}
// (u1(x) . u2(y)) with every choice of leaves
static void binary2 (mc::Ctx& c)
{
	int o = c.choose(NBI), a = c.choose(UN.size() + 1), b = c.choose(UN.size() + 1), x = c.choose(3), y = c.choose(3);
	Leaves L({3}, 2);
	F l = L.leaf(x), r = L.leaf(y);
	if (a < (int) UN.size()) l = un(a, l);
	if (b < (int) UN.size()) r = un(b, r);
	if (l.node.get() == r.node.get() && o == 1) c.prune();
	verify(c, L, bin(o, l, r), c.thorough());
}
// sharing: u(x . y) . (x . y or a leaf)
static void shared (mc::Ctx& c)
{
	int o1 = c.choose(NBI), o2 = c.choose(NBI), o3 = c.choose(NBI), a = c.choose(c.thorough() ? UN.size() : 16);
	int x = c.choose(2), y = c.choose(3), z = c.choose(3);
	Leaves L({2}, 2);
	int last = c.choose(2);
	c.note("%s %s %s %s over v%d v%d %d %d", UN[a].name, BN[o1], BN[o2], BN[o3], x, y, z, last);
	// dividing by a difference of a node and itself is refused when the node is built
	auto zero = [&](const F& d) { return d.node.get() && dynamic_cast<constant<double>*>(d.node.get()) && L.deriv(d, 0, 0)[0] == 0; };
	F i = bin(o1, L.leaf(x), L.leaf(y));
	if (UN[a].name == std::string("5/x") && zero(i)) c.prune();
	F j = un(a, i);
	F d = z == 2 ? i : L.leaf(z);
	if (o2 == 3 && zero(d)) c.prune();
	F k = bin(o2, j, d);
	F e = last ? j : L.leaf(0);
	if (o3 == 3 && zero(e)) c.prune();
	verify(c, L, bin(o3, k, e), false);
}

// ---- matrix products, layers and folds: values over arbitrary small shapes ----
struct T { shp s; std::vector<Jet> v; };
static size_t at (const shp& s, size_t d) { return d < s.size() ? s[d] : 1; }
static T t_mm (T a, T b, bool ta, bool tb)
{
	auto tr = [](T a) { T r; r.s = {at(a.s, 1), at(a.s, 0)}; for (size_t y = 0; y < r.s[1]; y++) for (size_t x = 0; x < r.s[0]; x++) r.v.push_back(a.v[x * at(a.s, 0) + y]); return r; };
	if (ta) a = tr(a);
	if (tb) b = tr(b);
	size_t Z = at(a.s, 0), Y = at(a.s, 1), X = at(b.s, 0);
	T r; r.s = {X, Y};
	for (size_t y = 0; y < Y; y++) for (size_t x = 0; x < X; x++) { Jet q; for (size_t z = 0; z < Z; z++) q = q + a.v[y * Z + z] * b.v[z * X + x]; r.v.push_back(q); }
	return r;
}
static T t_un (int o, T a) { for (Jet& j : a.v) j = UN[o].g(j); return a; }
static T t_bi (int o, T a, T b) { if (a.v.size() < b.v.size()) { std::vector<Jet> w(b.v.size(), a.v[0]); a.s = b.s; a.v = w; } for (size_t i = 0; i < a.v.size(); i++) a.v[i] = jbi(o, a.v[i], b.v[b.v.size() == 1 ? 0 : i]); return a; }
static T t_bias (T a, T b) { for (size_t i = 0; i < a.v.size(); i++) a.v[i] = a.v[i] + b.v[i % a.s[0]]; return a; }

struct Var { shp s; std::unique_ptr<variable<double> > v; std::unique_ptr<placeholder<double> > p; vec d; };
struct World
{
	std::vector<Var> L;
	int add (const shp& s, bool var)
	{
		Var x; x.s = s;
		int i = L.size();
		if (var) { x.v.reset(new variable<double>(s, const_init<double>(0.0), "w" + std::to_string(i))); x.v->initialize(); }
		else x.p.reset(new placeholder<double>(s, "x" + std::to_string(i)));
		L.push_back(std::move(x));
		write(i, 0);
		return i;
	}
	void write (int i, int set)
	{
		L[i].d = leafdata(i, set, numel(L[i].s));
		for (size_t k = 0; k < L[i].d.size(); k++) if ((k * 7 + i) % 3 == 0) L[i].d[k] *= -0.7;
		if (L[i].v) setvar(*L[i].v, L[i].s, L[i].d); else *L[i].p = L[i].d;
	}
	V node (int i) { return L[i].v ? (inode<double>*) L[i].v.get() : (inode<double>*) L[i].p.get(); }
	T val (int i, int l, int e)
	{
		T t; t.s = L[i].s;
		for (size_t k = 0; k < L[i].d.size(); k++) t.v.push_back(Jet(L[i].d[k], i == l && (int) k == e ? 1 : 0));
		return t;
	}
};
typedef std::function<T(std::function<T(int)>)> Model;

static void verify (mc::Ctx& c, World& w, V out, Model m, const std::string& what)
{
	c.note("%s", what.c_str());
	c.state(what);
	c.step("build");
	c.check(out.get() != nullptr, "no node");
	std::map<int, V> gs;
	for (size_t l = 0; l < w.L.size(); l++) if (w.L[l].v) gs[l] = out->derive(w.L[l].v.get());
	for (int t = 0; t < 3; t++)
	{
		if (t) { for (size_t l = 0; l < w.L.size(); l++) if (t == 2 || l % 2) w.write(l, t); c.step("write"); }
		T val = m([&](int i) { return w.val(i, -1, 0); });
		vec got = out->eval()->expose(), want;
		for (Jet j : val.v) want.push_back(j.c0);
		c.check(got.size() == want.size() && agrees(got, want), "value is %s, expected %s", mc::vstr(got).c_str(), mc::vstr(want).c_str());
		for (auto& g : gs)
		{
			vec d;
			for (size_t e = 0; e < w.L[g.first].d.size(); e++)
			{
				T q = m([&](int i) { return w.val(i, g.first, e); });
				double s = 0; for (Jet j : q.v) s += j.c1;
				d.push_back(s);
			}
			grad_is(c, g.second, d, mc::fmt("%sgradient by w%d", t ? "after a write, " : "", g.first).c_str());
		}
	}
}
static shp sh (bool t, size_t x, size_t y) { return t ? shp{y, x} : shp{x, y}; }

// u(A B) with every transposition and role of the operands
static void product (mc::Ctx& c)
{
	size_t X = 1 + c.choose(3), Y = 1 + c.choose(3), Z = 1 + c.choose(3);
	bool ta = c.flip(), tb = c.flip(), va = c.flip(), vb = c.flip();
	int pre = c.choose(3), post = c.choose(4);
	if (!va && !vb) c.prune();
	World w;
	int a = w.add(sh(ta, Z, Y), va), b = w.add(sh(tb, X, Z), vb);
	static const int PRE[3] = {-1, 1, 23}, POST[4] = {-1, 7, 23, 10};
	V na = w.node(a), nb = w.node(b);
	if (PRE[pre] >= 0) na = UN[PRE[pre]].f(na);
	V n = matmul(na, nb, ta, tb);
	if (POST[post] >= 0) n = UN[POST[post]].f(n);
	verify(c, w, n, [=](std::function<T(int)> L)
	{
		T x = L(a); if (PRE[pre] >= 0) x = t_un(PRE[pre], x);
		T r = t_mm(x, L(b), ta, tb);
		return POST[post] >= 0 ? t_un(POST[post], r) : r;
	}, mc::fmt("%s(%s(A)%s x B%s) A%s B%s %s %s", post ? UN[POST[post]].name : "", pre ? UN[PRE[pre]].name : "", ta ? "^T" : "", tb ? "^T" : "", sstr(w.L[a].s).c_str(), sstr(w.L[b].s).c_str(), va ? "var" : "in", vb ? "var" : "in"));
}

// fully connected layers with bias, one to three deep, followed by an error function
static void layers (mc::Ctx& c)
{
	int depth = 1 + c.choose(c.thorough() ? 3 : 2);
	size_t batch = 1 + c.choose(3), in = 1 + c.choose(3);
	World w;
	int x = w.add({in, batch}, false);
	std::vector<int> W, B; std::vector<int> act;
	size_t prev = in;
	V n = w.node(x);
	std::string what = mc::fmt("batch %zu, %zu", batch, in);
	for (int i = 0; i < depth; i++)
	{
		size_t out = 1 + c.choose(3);
		static const int ACT[3] = {23, -1, 3};
		act.push_back(ACT[c.choose(i ? 2 : 3)]);
		W.push_back(w.add({out, prev}, true)); B.push_back(w.add({out}, true));
		n = add_axial_b(matmul(n, w.node(W[i])), w.node(B[i]), 1);
		if (act[i] >= 0) n = UN[act[i]].f(n);
		what += mc::fmt(" -> %zu %s", out, act[i] >= 0 ? UN[act[i]].name : "");
		prev = out;
	}
	int err = c.choose(4), y = -1;
	static const char* const EN[] = {"", " error squared", " sum of error squared", " mean of error squared"};
	what += EN[err];
	if (err)
	{
		y = w.add({prev, batch}, false);
		n = nnet::pow(w.node(y) - n, 2);
		if (err == 2) n = reduce_sum(n);
		if (err == 3) n = reduce_mean(n);
	}
	verify(c, w, n, [=](std::function<T(int)> L)
	{
		T r = L(x);
		for (int i = 0; i < depth; i++) { r = t_bias(t_mm(r, L(W[i]), false, false), L(B[i])); if (act[i] >= 0) r = t_un(act[i], r); }
		if (err) { r = t_bi(1, L(y), r); for (Jet& j : r.v) j = j * j; }
		if (err >= 2) { Jet s; for (Jet j : r.v) s = s + j; if (err == 3) s = s * Jet(1.0 / r.v.size()); r.s = {1}; r.v = {s}; }
		return r;
	}, what);
}

// folds over everything, then a function of the result
static void folds (mc::Ctx& c)
{
	int op = c.choose(3), a = c.choose(UN.size() + 1), b = c.choose(6);
	static const int OUT[6] = {-1, 7, 10, 15, 21, 23};
	World w;
	shp s = c.choose(2) ? shp{3} : shp{2, 2};
	int x = w.add(s, true);
	for (double& d : w.L[x].d) d = std::fabs(d);
	V n = w.node(x);
	setvar(*w.L[x].v, s, w.L[x].d);
	if (a < (int) UN.size()) n = UN[a].f(n);
	n = op == 0 ? reduce_sum(n) : op == 1 ? reduce_mean(n) : l2norm(n);
	if (OUT[b] >= 0) n = UN[OUT[b]].f(n);
	verify(c, w, n, [=](std::function<T(int)> L)
	{
		T r = L(x);
		if (a < (int) UN.size()) r = t_un(a, r);
		Jet q;
		for (Jet j : r.v) q = q + (op == 2 ? j * j : j);
		if (op == 1) q = q * Jet(1.0 / r.v.size());
		if (op == 2) q = jpow(q, 0.5);
		if (OUT[b] >= 0) q = UN[OUT[b]].g(q);
		T o; o.s = {1}; o.v = {q};
		return o;
	}, mc::fmt("%s(%s(%s(x)))", b ? UN[OUT[b]].name : "", op == 0 ? "sum" : op == 1 ? "mean" : "l2norm", a < (int) UN.size() ? UN[a].name : ""));
}

// gradients die and come back
static void regrad (mc::Ctx& c)
{
	int o = c.choose(NBI), a = c.choose(UN.size()), which = c.choose(3);
	Leaves L({2}, 2);
	F f = bin(o, un(a, L.leaf(0)), L.leaf(1));
	c.note("%s, gradient %d deleted", f.s.c_str(), which);
	c.state(mc::fmt("%s %d", f.s.c_str(), which));
	V g0 = f.node->derive(L.v[0].get()), g1 = f.node->derive(L.v[1].get());
	grad_is(c, g0, L.deriv(f, 0, 1), "first d/dv0");
	grad_is(c, g1, L.deriv(f, 1, 1), "first d/dv1");
	c.step("delete");
	if (which != 1 && g0.get() && g0->n_arguments()) delete g0.get();
	if (which != 0 && g1.get() && g1->n_arguments()) delete g1.get();
	if (f.node.get() == nullptr) return;
	L.write(1);
	c.step("write");
	g0 = f.node->derive(L.v[0].get()); g1 = f.node->derive(L.v[1].get());
	grad_is(c, g0, L.deriv(f, 0, 1), "d/dv0 again");
	grad_is(c, g1, L.deriv(f, 1, 1), "d/dv1 again");
}

// products feeding products, sums of products, one variable used on several paths
static void nets (mc::Ctx& c)
{
	int kind = c.choose(10);
	World w;
	int x = w.add({2, 2}, false), a = w.add({2, 2}, true), b = w.add({2, 2}, true);
	V X = w.node(x), A = w.node(a), B = w.node(b);
	int u = c.choose(3);
	static const int U[3] = {14, 23, 7};
	auto fu = [&](V n) { return UN[U[u]].f(n); };
	auto gu = [=](T t) { return t_un(U[u], t); };
	V n; Model m; std::string what;
	switch (kind)
	{
	case 0: what = "XA + XB"; n = fu(matmul(X, A)) + fu(matmul(X, B)); m = [=](std::function<T(int)> L) { return t_bi(0, gu(t_mm(L(x), L(a), 0, 0)), gu(t_mm(L(x), L(b), 0, 0))); }; break;
	case 1: what = "XA * XB"; n = fu(matmul(X, A)) * fu(matmul(X, B)); m = [=](std::function<T(int)> L) { return t_bi(2, gu(t_mm(L(x), L(a), 0, 0)), gu(t_mm(L(x), L(b), 0, 0))); }; break;
	case 2: what = "(XA)B"; n = matmul(fu(matmul(X, A)), B); m = [=](std::function<T(int)> L) { return t_mm(gu(t_mm(L(x), L(a), 0, 0)), L(b), 0, 0); }; break;
	case 3: what = "A(BX)"; n = matmul(A, fu(matmul(B, X))); m = [=](std::function<T(int)> L) { return t_mm(L(a), gu(t_mm(L(b), L(x), 0, 0)), 0, 0); }; break;
	case 4: what = "XA + A"; n = fu(matmul(X, A)) + A; m = [=](std::function<T(int)> L) { return t_bi(0, gu(t_mm(L(x), L(a), 0, 0)), L(a)); }; break;
	case 5: what = "AA"; n = fu(matmul(A, A)); m = [=](std::function<T(int)> L) { return gu(t_mm(L(a), L(a), 0, 0)); }; break;
	case 6: what = "(XA)A"; n = matmul(fu(matmul(X, A)), A); m = [=](std::function<T(int)> L) { return t_mm(gu(t_mm(L(x), L(a), 0, 0)), L(a), 0, 0); }; break;
	case 7: what = "XA + AX"; n = fu(matmul(X, A)) + fu(matmul(A, X)); m = [=](std::function<T(int)> L) { return t_bi(0, gu(t_mm(L(x), L(a), 0, 0)), gu(t_mm(L(a), L(x), 0, 0))); }; break;
	case 8: what = "(XA)(XB)"; n = matmul(fu(matmul(X, A)), fu(matmul(X, B))); m = [=](std::function<T(int)> L) { return t_mm(gu(t_mm(L(x), L(a), 0, 0)), gu(t_mm(L(x), L(b), 0, 0)), 0, 0); }; break;
	case 9: what = "XA * u(XA)"; n = matmul(X, A); n = n * fu(n); m = [=](std::function<T(int)> L) { T q = t_mm(L(x), L(a), 0, 0); return t_bi(2, q, gu(q)); }; break;
	}
	{ std::string k = "net-" + what + (u ? "" : "[linear]"); k.erase(std::remove(k.begin(), k.end(), 0x20), k.end()); c.key(k); }
	verify(c, w, n, m, what + " " + UN[U[u]].name);
}

// operations whose gradient is not the derivative (see known_findings.txt)
static void odd (mc::Ctx& c)
{
	int op = c.choose(7);
	World w;
	int x = w.add({3}, true), y = op > 3 ? w.add({1}, op == 4) : 0;
	V n = w.node(x);
	static const char* const N[] = {"clip_val", "clip_norm", "less", "reduce_max", "one-element-operand", "minus-own-mean", "divided-by-own-sum"};
	c.key(std::string("gradient-of-") + N[op]);
	switch (op)
	{
	case 0: n = clip_val(n, -0.5, 0.8); break;
	case 1: n = clip_norm(n, 0.5); break;
	case 2: n = conditional<double>(n, 0.5, [](double a, double b) { return a < b; }, "lt"); break;
	case 3: n = reduce_max(n); break;
	case 4: n = n + w.node(y); break;
	case 5: n = nnet::pow(n - reduce_mean(n), 2.0); break;
	case 6: n = nnet::pow(n / reduce_sum(n), 2.0); break;
	}
	verify(c, w, n, [=](std::function<T(int)> L)
	{
		T r = L(x);
		Jet q; for (Jet j : r.v) q = q + j * j;
		q = jpow(q, 0.5);
		if (op == 3) { Jet m = r.v[0]; for (Jet j : r.v) if (j.c0 > m.c0) m = j; r.s = {1}; r.v = {m}; return r; }
		Jet sum; for (Jet j : r.v) sum = sum + j;
		for (Jet& j : r.v) switch (op)
		{
		case 4: j = j + L(y).v[0]; break;
		case 5: j = j - sum * Jet(1.0 / 3); j = j * j; break;
		case 6: j = j / sum; j = j * j; break;
		case 0: j = j.c0 < -0.5 ? Jet(-0.5) : j.c0 > 0.8 ? Jet(0.8) : j; break;
		case 1: if (q.c0 > 0.5) j = j * Jet(0.5) / q; break;
		case 2: j = Jet(j.c0 < 0.5); break;
		}
		return r;
	}, N[op]);
}

// leaves and nodes that move after their consumers were built: an unmoved twin gives the gradients
struct Net
{
	inode<double>* leaf[3]; // X (a placeholder), A, B
	inode<double>* bias;
	std::vector<V> st;      // stages, the last is the result; they follow nodes that move
	std::vector<inode<double>*> own;
	Net (int form)
	{
		placeholder<double>* p = new placeholder<double>(shp{2, 2}, "X");
		leaf[0] = p;
		for (int i = 1; i < 3; i++) leaf[i] = new variable<double>(shp{2, 2}, const_init<double>(i), i == 1 ? "A" : "B");
		bias = new variable<double>(shp{2}, const_init<double>(3), "C");
		write(0);
		V X(leaf[0]), A(leaf[1]), B(leaf[2]), C(bias);
		switch (form)
		{
		case 0: st.push_back(matmul(X, A)); st.push_back(add_axial_b(st[0], C, 1)); st.push_back(nnet::tan<double>(st[1])); st.push_back(matmul(st[2], B)); break;
		case 1: st.push_back(A * B); st.push_back(nnet::exp(st[0])); st.push_back(st[1] + A); break;
		case 2: st.push_back(matmul(A, X, true)); st.push_back(-st[0]); st.push_back(matmul(st[1], B, false, true)); st.push_back(reduce_sum(st[2])); break;
		case 3: st.push_back(nnet::sin(A)); st.push_back(matmul(st[0], B)); st.push_back(st[1] * 0.5); break;
		case 4: st.push_back(mul_axial_b(A, C, 1)); st.push_back(nnet::tan<double>(st[0])); st.push_back(st[1] * X); break;
		}
	}
	void give (inode<double>* n, vec d)
	{
		if (variable<double>* v = dynamic_cast<variable<double>*>(n))
		{
			if (!v->good_status()) v->initialize();
			variable_updater<double> u = v->assign(V(constant<double>::get(d, v->get_shape())));
			u(true);
		}
		else *static_cast<placeholder<double>*>(n) = d;
	}
	void write (int seed)
	{
		for (int i = 0; i < 3; i++) { vec d; for (int k = 0; k < 4; k++) d.push_back(std::sin(seed + 1.3 * i + 0.7 * k)); give(leaf[i], d); }
		give(bias, {0.25 + seed, -0.5});
	}
	inode<double>* var (int i) { return i == 2 ? bias : leaf[i + 1]; }
	~Net (void) { for (auto n : own) delete n; for (auto n : leaf) delete n; delete bias; }
};

static void moved (mc::Ctx& c)
{
	int form = c.choose(5);
	Net a(form), b(form);
	c.note("form %d", form);
	int depth = c.thorough() ? 3 : 2;
	auto equal = [&](V x, V y, const char* what)
	{
		c.check(x.get() && y.get(), "%s is gone", what);
		vec p = expose<double>(x), q = expose<double>(y);
		bool ok = p.size() == q.size();
		for (size_t i = 0; ok && i < p.size(); i++) ok = mc::close(p[i], q[i], 1e-9, 1e-9);
		c.check(ok, "%s is %s instead of %s", what, mc::vstr(p).c_str(), mc::vstr(q).c_str());
	};
	for (int i = 0; i < depth; i++)
	{
		int op = c.choose(4);
		if (op == 0) // a leaf moves
		{
			int l = c.choose(4);
			int how = c.choose(3);
			inode<double>*& n = l == 3 ? a.bias : a.leaf[l];
			inode<double>* m;
			c.step("move leaf %d, %d", l, how);
			if (how < 2) m = n->move();
			else if (l == 0) { m = new placeholder<double>(shp{2, 2}, "other"); *static_cast<placeholder<double>*>(m) = std::move(*static_cast<placeholder<double>*>(n)); }
			else { m = new variable<double>(n->get_shape(), "other"); *static_cast<variable<double>*>(m) = std::move(*static_cast<variable<double>*>(n)); }
			if (how) delete n; else a.own.push_back(n);
			n = m;
		}
		else if (op == 1) // a node moves
		{
			int s = c.choose(a.st.size());
			bool del = c.flip();
			c.step("move stage %d%s", s, del ? ", delete what is left" : "");
			inode<double>* n = a.st[s].get();
			inode<double>* m = n->move();
			a.st[s] = m;
			if (del) delete n; else a.own.push_back(n);
		}
		else if (op == 2) // gradients are asked for, of any stage
		{
			int s = c.choose(a.st.size()), v = c.choose(3);
			c.step("derive stage %d by %d", s, v);
			equal(a.st[s]->derive(a.var(v)), b.st[s]->derive(b.var(v)), "a gradient");
		}
		else { c.step("write"); a.write(i + 3); b.write(i + 3); }
		for (size_t s = 0; s < a.st.size(); s++) equal(a.st[s], b.st[s], "a value");
	}
	// all gradients, and those of new consumers
	int s = c.choose(a.st.size()), more = c.choose(3);
	V x = a.st[s], y = b.st[s];
	if (more == 1) { x = nnet::sin(x); y = nnet::sin(y); }
	if (more == 2)
	{
		if (y->get_shape().as_list() != shp{2, 2}) c.prune();
		x = matmul(x, V(a.leaf[0])); y = matmul(y, V(b.leaf[0]));
	}
	for (int v = 0; v < 3; v++) equal(x->derive(a.var(v)), y->derive(b.var(v)), "a gradient at the end");
	a.write(7); b.write(7);
	equal(x, y, "a value at the end");
	for (int v = 0; v < 3; v++) equal(x->derive(a.var(v)), y->derive(b.var(v)), "a gradient after a write");
}

// an operand that lacks a dimension of the other: both orders, every axis, functions of either operand and of the result
static void axial (mc::Ctx& c)
{
	static const std::vector<shp> FULL = {{2, 3}, {3, 2}, {2, 2}, {2, 1}, {1, 3}, {2, 3, 2}};
	static const int INNER[4] = {-1, 7, 23, 1}, OUTER[5] = {-1, 7, 23, 10, 0};
	int op = c.choose(NBI); bool left = c.flip();
	shp s = c.pick(FULL);
	size_t axis = c.choose(s.size());
	bool one = c.flip(); // the axis is kept with extent 1
	int roles = c.choose(3); // both variables, only the full operand, only the other
	int fi = c.choose(c.thorough() ? 4 : 3), si = c.choose(c.thorough() ? 4 : 3), oi = c.choose(5);
	shp slim = s;
	if (one) slim[axis] = 1; else slim.erase(slim.begin() + axis);
	World w;
	int f = w.add(s, roles != 2), a = w.add(slim, roles != 1);
	V nf = w.node(f), na = w.node(a);
	if (INNER[fi] >= 0) nf = UN[INNER[fi]].f(nf);
	if (INNER[si] >= 0) na = UN[INNER[si]].f(na);
	V A = left ? na : nf, B = left ? nf : na, n;
	switch (op)
	{
	case 0: n = left ? add_axial_a(A, B, axis) : add_axial_b(A, B, axis); break;
	case 1: n = left ? sub_axial_a(A, B, axis) : sub_axial_b(A, B, axis); break;
	case 2: n = left ? mul_axial_a(A, B, axis) : mul_axial_b(A, B, axis); break;
	case 3: n = left ? div_axial_a(A, B, axis) : div_axial_b(A, B, axis); break;
	}
	if (oi == 4) n = reduce_sum(n); else if (OUTER[oi] >= 0) n = UN[OUTER[oi]].f(n);
	verify(c, w, n, [=](std::function<T(int)> L)
	{
		T x = L(f), y = L(a);
		if (INNER[fi] >= 0) x = t_un(INNER[fi], x);
		if (INNER[si] >= 0) y = t_un(INNER[si], y);
		T r = x;
		for (size_t i = 0; i < x.v.size(); i++)
		{
			size_t rest = i, mul = 1, k = 0;
			for (size_t d = 0; d < s.size(); d++) { size_t co = rest % s[d]; rest /= s[d]; if (d != axis) { k += co * mul; mul *= s[d]; } }
			r.v[i] = left ? jbi(op, y.v[k], x.v[i]) : jbi(op, x.v[i], y.v[k]);
		}
		if (oi == 4) { Jet q; for (Jet j : r.v) q = q + j; r.s = {1}; r.v = {q}; }
		else if (OUTER[oi] >= 0) r = t_un(OUTER[oi], r);
		return r;
	}, mc::fmt("%s(%s %s %s) axis %zu, %s lacks it%s, full %s, %s", oi == 4 ? "sum" : oi ? UN[OUTER[oi]].name : "", fi ? UN[INNER[fi]].name : "x", BN[op], si ? UN[INNER[si]].name : "y", axis, left ? "left" : "right", one ? " (extent 1)" : "", sstr(s).c_str(), roles == 0 ? "both variable" : roles == 1 ? "full variable" : "other variable"));
}

// a one-element operand (a leaf, or a fold of another leaf) against a larger one, derived by the larger one
static void broadcast (mc::Ctx& c)
{
	static const std::vector<shp> FULL = {{3}, {2, 2}};
	static const int INNER[3] = {-1, 7, 23}, OUTER[4] = {-1, 7, 10, 0};
	static const char* const ON[4] = {"leaf", "sum", "mean", "norm"};
	int op = c.choose(NBI); bool left = c.flip(); // the left operand has one element
	shp s = c.pick(FULL);
	int what = c.choose(4); // a leaf of one element, a fold of another leaf
	int roles = 1; // deriving by the one-element operand: see odd
	int fi = c.choose(3), si = c.choose(3), oi = c.choose(5);
	World w;
	int f = w.add(s, roles != 2), a = f;
	a = w.add(what ? s : shp{1}, roles != 1);
	V nf = w.node(f), na = w.node(a);
	if (INNER[fi] >= 0) nf = UN[INNER[fi]].f(nf);
	if (INNER[si] >= 0) na = UN[INNER[si]].f(na);
	int fold = what;
	if (fold) na = fold == 1 ? reduce_sum(na) : fold == 2 ? reduce_mean(na) : l2norm(na);
	V n = left ? bi(op, na, nf) : bi(op, nf, na);
	if (oi == 4) n = reduce_sum(n); else if (OUTER[oi] >= 0) n = UN[OUTER[oi]].f(n);
	std::string desc = mc::fmt("%s(%s%s %s %s of %s %s)%s %s", oi == 4 ? "sum" : oi ? UN[OUTER[oi]].name : "", left ? "swapped " : "", fi ? UN[INNER[fi]].name : "x", BN[op], ON[fold], what ? "another" : "one element", si ? UN[INNER[si]].name : "", sstr(s).c_str(), roles == 0 ? "both variable" : roles == 1 ? "full variable" : "other variable");
	verify(c, w, n, [=](std::function<T(int)> L)
	{
		T x = L(f), y = L(a);
		if (INNER[fi] >= 0) x = t_un(INNER[fi], x);
		if (INNER[si] >= 0) y = t_un(INNER[si], y);
		if (fold)
		{
			Jet q;
			for (Jet j : y.v) q = q + (fold == 3 ? j * j : j);
			if (fold == 2) q = q * Jet(1.0 / y.v.size());
			if (fold == 3) q = jpow(q, 0.5);
			y.s = {1}; y.v = {q};
		}
		T r = x;
		for (size_t i = 0; i < x.v.size(); i++) r.v[i] = left ? jbi(op, y.v[0], x.v[i]) : jbi(op, x.v[i], y.v[0]);
		if (oi == 4) { Jet q; for (Jet j : r.v) q = q + j; r.s = {1}; r.v = {q}; }
		else if (OUTER[oi] >= 0) r = t_un(OUTER[oi], r);
		return r;
	}, desc);
}

// fit: the gradient is that of the argument, whatever the node that lends its shape depends on
static void fitted (mc::Ctx& c)
{
	int ai = c.choose(7), wi = c.choose(6), oi = c.choose(6);
	World w;
	int W = w.add({2, 2}, true), U = w.add({2, 2}, true), X = w.add({2, 2}, false);
	auto arg = [&](int k) -> V
	{
		V a = w.node(W), u = w.node(U), x = w.node(X);
		switch (k)
		{
		case 0: return a;
		case 1: return nnet::sin(a);
		case 2: return matmul(a, x);
		case 3: return matmul(x, a);
		case 4: return nnet::sin(matmul(x, a));
		case 5: return matmul(a, u);
		default: return matmul(x, nnet::sin(matmul(a, x)));
		}
	};
	V a = arg(ai), by = wi == 5 ? a : wi == 4 ? V(w.node(X)) : wi == 3 ? V(w.node(U)) : arg(wi == 0 ? 3 : wi == 1 ? 2 : 1);
	V n = fit(a, by);
	switch (oi)
	{
	case 1: n = nnet::sin(n); break;
	case 2: n = matmul(n, w.node(X)); break;
	case 3: n = reduce_sum(n); break;
	case 4: n = w.node(X) / n; break;
	case 5: n = fit(n, w.node(X)); break;
	}
	verify(c, w, n, [=](std::function<T(int)> L)
	{
		auto marg = [&](int k) -> T
		{
			T a = L(W), u = L(U), x = L(X);
			switch (k)
			{
			case 0: return a;
			case 1: return t_un(1, a);
			case 2: return t_mm(a, x, false, false);
			case 3: return t_mm(x, a, false, false);
			case 4: return t_un(1, t_mm(x, a, false, false));
			case 5: return t_mm(a, u, false, false);
			default: return t_mm(x, t_un(1, t_mm(a, x, false, false)), false, false);
			}
		};
		T r = marg(ai), by = wi == 5 ? r : wi == 4 ? L(X) : wi == 3 ? L(U) : marg(wi == 0 ? 3 : wi == 1 ? 2 : 1);
		switch (oi)
		{
		case 1: r = t_un(1, r); break;
		case 2: r = t_mm(r, L(X), false, false); break;
		case 3: { Jet q; for (Jet j : r.v) q = q + j; r.s = {1}; r.v = {q}; break; }
		case 4: r = t_bi(3, L(X), r); break;
		}
		return r;
	}, mc::fmt("outer %d of argument %d fitted to %d", oi, ai, wi));
}

// products of arguments that do not vary with the variable although they are built from it
static void flat (mc::Ctx& c)
{
	int ai = c.choose(3), ki = c.choose(3), oi = c.choose(8);
	World w;
	int W = w.add({2, 2}, true), U = w.add({2, 2}, true), X = w.add({2, 2}, false);
	auto arg = [&](void) -> V
	{
		V a = w.node(W), u = w.node(U), x = w.node(X);
		switch (ai)
		{
		case 0: return eq(a, x);
		case 1: return as_constant(nnet::sin(a));
		default: return fit(x, a);
		}
	};
	V f = arg(), k = ki == 0 ? V(w.node(X)) : ki == 1 ? V(w.node(U)) : nnet::sin(V(w.node(U)));
	V n = matmul(f, k);
	switch (oi)
	{
	case 1: n = matmul(k, f); break;
	case 2: n = nnet::sin(n); break;
	case 3: n = matmul(n, w.node(W)); break;
	case 4: n = reduce_sum(n); break;
	case 5: n = n + w.node(W); break;
	case 6: n = matmul(n, w.node(X)) * w.node(X); break;
	case 7: n = n + matmul(w.node(W), w.node(U)); break;
	}
	verify(c, w, n, [=](std::function<T(int)> L)
	{
		T a = L(W), u = L(U), x = L(X), f = x;
		if (ai == 0) for (size_t i = 0; i < f.v.size(); i++) f.v[i] = Jet(a.v[i].c0 == x.v[i].c0);
		if (ai == 1) for (size_t i = 0; i < f.v.size(); i++) f.v[i] = Jet(std::sin(a.v[i].c0));
		T k = ki == 0 ? x : ki == 1 ? u : t_un(1, u), n = t_mm(f, k, false, false);
		switch (oi)
		{
		case 1: n = t_mm(k, f, false, false); break;
		case 2: n = t_un(1, n); break;
		case 3: n = t_mm(n, a, false, false); break;
		case 4: { Jet q; for (Jet j : n.v) q = q + j; n.s = {1}; n.v = {q}; break; }
		case 5: n = t_bi(0, n, a); break;
		case 6: n = t_bi(2, t_mm(n, x, false, false), x); break;
		case 7: n = t_bi(0, n, t_mm(a, u, false, false)); break;
		}
		return n;
	}, mc::fmt("outer %d of a product of step %d with %d", oi, ai, ki));
}

int main (int argc, char** argv)
{
	return mc::run(argc, argv, {
		{"unary2", unary2, 2}, {"binary2", binary2, 3}, {"shared", shared, 3}, {"product", product, 3}, {"layers", layers, 3}, {"folds", folds, 2}, {"regrad", regrad, 2}, {"nets", nets, 1}, {"odd", odd, 1}, {"axial", axial, 3}, {"broadcast", broadcast, 3}, {"fitted", fitted, 2}, {"flat", flat, 2}, {"moved", moved, 3},
	});
}
