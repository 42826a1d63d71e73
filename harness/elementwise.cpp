// elementwise: every elementary operation computes its scalar function element by element,
// broadcasts one-element operands, refuses operands that do not fit, and keeps doing so
// after its operands are written again.
#include "sources.hpp"
#include "utils/futils.hpp"
using namespace src;

static const std::vector<double> POOL[3] = {
	{0.75, -1.5, 2, 0, -0.25, 3.5, 1, -4, 0.5, -2.75, 1.25, 5},
	{-0.5, 4, 1, -3, 0.125, 0, 2.5, 1.5, -1, 0.25, 6, -0.75},
	{1, 0, -1, 0.5, 2, 0.5, -2, 0, 3, 1, -0.5, 0.25},
};
static vec data (int set, size_t n, int off) { vec r; for (size_t i = 0; i < n; i++) r.push_back(POOL[set][(i + off) % 12]); return r; }
static const std::vector<shp> SHAPES = {{1}, {2}, {3}, {2,3}, {3,2}, {2,1,2}, {1,3}, {1,1}, {4}};

// values, allowing a simplified scalar for a constant tensor
static bool agrees (const vec& got, const vec& want)
{
	if (got.size() == 1 && want.size() > 1)
	{
		for (double w : want) if (!mc::close(got[0], w) && !std::isnan(w)) return false;
		return true;
	}
	if (got.size() != want.size()) return false;
	for (size_t i = 0; i < got.size(); i++) if (!mc::close(got[i], want[i])) return false;
	return true;
}

struct Un { const char* name; std::function<varptr<double>(varptr<double>)> f; std::function<double(double)> g; };
static const std::vector<Un> UNARY = {
	{"identity", [](varptr<double> x) { return identity(x); }, [](double x) { return x; }},
	{"as_constant", [](varptr<double> x) { return as_constant(x); }, [](double x) { return x; }},
	{"abs", [](varptr<double> x) { return +x; }, [](double x) { return std::fabs(x); }},
	{"neg", [](varptr<double> x) { return -x; }, [](double x) { return -x; }},
	{"neg neg", [](varptr<double> x) { return -(-x); }, [](double x) { return x; }},
	{"sin", [](varptr<double> x) { return nnet::sin(x); }, [](double x) { return std::sin(x); }},
	{"cos", [](varptr<double> x) { return nnet::cos(x); }, [](double x) { return std::cos(x); }},
	{"tan", [](varptr<double> x) { return nnet::tan(x); }, [](double x) { return std::tan(x); }},
	{"csc", [](varptr<double> x) { return csc(x); }, [](double x) { return 1 / std::sin(x); }},
	{"sec", [](varptr<double> x) { return sec(x); }, [](double x) { return 1 / std::cos(x); }},
	{"cot", [](varptr<double> x) { return cot(x); }, [](double x) { return std::cos(x) / std::sin(x); }},
	{"exp", [](varptr<double> x) { return nnet::exp(x); }, [](double x) { return std::exp(x); }},
	{"sqrt", [](varptr<double> x) { return nnet::sqrt(x); }, [](double x) { return std::sqrt(x); }},
	{"round", [](varptr<double> x) { return nnet::round(x); }, [](double x) { return std::round(x); }},
	{"log", [](varptr<double> x) { return nnet::log(x); }, [](double x) { return std::log(x); }},
	{"pow 0", [](varptr<double> x) { return nnet::pow(x, 0.0); }, [](double) { return 1.0; }},
	{"pow 1", [](varptr<double> x) { return nnet::pow(x, 1.0); }, [](double x) { return x; }},
	{"pow 2", [](varptr<double> x) { return nnet::pow(x, 2.0); }, [](double x) { return x * x; }},
	{"pow 3", [](varptr<double> x) { return nnet::pow(x, 3.0); }, [](double x) { return x * x * x; }},
	{"pow -1", [](varptr<double> x) { return nnet::pow(x, -1.0); }, [](double x) { return 1 / x; }},
	{"pow 0.5", [](varptr<double> x) { return nnet::pow(x, 0.5); }, [](double x) { return std::pow(x, 0.5); }},
	{"clip -1 1", [](varptr<double> x) { return clip_val(x, -1.0, 1.0); }, [](double x) { return std::min(1.0, std::max(-1.0, x)); }},
	{"clip 2 .5", [](varptr<double> x) { return clip_val(x, 2.0, 0.5); }, [](double x) { return std::min(2.0, std::max(0.5, x)); }},
	{"clip 0 0", [](varptr<double> x) { return clip_val(x, 0.0, 0.0); }, [](double) { return 0.0; }},
};

static bool lt (double a, double b) { return a < b; }
static bool ge (double a, double b) { return a >= b; }

struct Bi
{
	const char* name;
	std::function<varptr<double>(varptr<double>, varptr<double>)> nn;
	std::function<varptr<double>(double, varptr<double>)> sn;
	std::function<varptr<double>(varptr<double>, double)> ns;
	std::function<double(double, double)> g;
};
typedef varptr<double> V;
static const std::vector<Bi> BINARY = {
	{"+", [](V a, V b) { return a + b; }, [](double a, V b) { return a + b; }, [](V a, double b) { return a + b; }, [](double a, double b) { return a + b; }},
	{"-", [](V a, V b) { return a - b; }, [](double a, V b) { return a - b; }, [](V a, double b) { return a - b; }, [](double a, double b) { return a - b; }},
	{"*", [](V a, V b) { return a * b; }, [](double a, V b) { return a * b; }, [](V a, double b) { return a * b; }, [](double a, double b) { return a * b; }},
	{"/", [](V a, V b) { return a / b; }, [](double a, V b) { return a / b; }, [](V a, double b) { return a / b; }, [](double a, double b) { return a / b; }},
	{"<", [](V a, V b) { return conditional<double>(a, b, lt, "lt"); }, [](double a, V b) { return conditional<double>(a, b, lt, "lt"); }, [](V a, double b) { return conditional<double>(a, b, lt, "lt"); }, [](double a, double b) { return (double) (a < b); }},
	{">=", [](V a, V b) { return conditional<double>(a, b, ge, "ge"); }, [](double a, V b) { return conditional<double>(a, b, ge, "ge"); }, [](V a, double b) { return conditional<double>(a, b, ge, "ge"); }, [](double a, double b) { return (double) (a >= b); }},
	{"eq", [](V a, V b) { return eq(a, b); }, nullptr, nullptr, [](double a, double b) { return (double) (a == b); }},
	{"neq", [](V a, V b) { return neq(a, b); }, nullptr, nullptr, [](double a, double b) { return (double) (a != b); }},
};

// evaluate, and compare shape and elements with what is wanted
static void expect (mc::Ctx& c, V r, const vec& want, const shp& shape, const char* when, bool exact_shape = false)
{
	c.check(r.get() != nullptr, "%s: no node", when);
	const tensor<double>* t = r->eval();
	c.check(t != nullptr && t->is_alloc(), "%s: no value", when);
	vec got = t->expose();
	c.check(agrees(got, want), "%s: got %s, expected %s", when, mc::vstr(got).c_str(), mc::vstr(want).c_str());
	vec ex = expose<double>(r.get());
	c.check(agrees(ex, want), "%s: expose gives %s, expected %s", when, mc::vstr(ex).c_str(), mc::vstr(want).c_str());
	if (got.size() == want.size() && (want.size() > 1 || exact_shape))
		c.check(t->get_shape().as_list() == shape && r->get_shape().as_list() == shape, "%s: shape is %s/%s, expected %s", when,
			sstr(t->get_shape().as_list()).c_str(), sstr(r->get_shape().as_list()).c_str(), sstr(shape).c_str());
}

static void drop (V& r, std::initializer_list<inode<double>*> keep)
{
	inode<double>* p = r.get();
	if (!p) return;
	for (inode<double>* k : keep) if (k == p) return;
	delete p;
}

static void unary (mc::Ctx& c)
{
	int op = c.choose(UNARY.size()), k = c.choose(NKIND);
	shp s = c.pick(SHAPES);
	int set = c.choose(3), off = c.choose(c.thorough() ? 12 : 3);
	const Un& u = UNARY[op];
	vec v = data(set, numel(s), off);
	c.note("%s of %s %s %s", u.name, KNAME[k], sstr(s).c_str(), mc::vstr(v).c_str());
	c.state(mc::fmt("u%d %d %s %d %d", op, k, sstr(s).c_str(), set, off));
	Source x((Kind) k, s, v);
	auto wanted = [&]() { vec w; for (double e : x.v) w.push_back(u.g(e)); return w; };
	V r = u.f(x.node);
	c.step("build");
	if (k == LATE)
	{
		if (op != 15) c.check(r->eval() == nullptr, "a value although the operand has none");
		x.supply();
	}
	expect(c, r, wanted(), s, "first", op != 15);
	if (x.writable())
	{
		x.write(data((set + 1) % 3, numel(s), off));
		c.step("write");
		expect(c, r, wanted(), s, "after a write", op != 15);
	}
	V again = x.node.get() ? u.f(x.node) : V();
	if (x.node.get()) expect(c, again, wanted(), s, "asked for again");
	if (again.get() != r.get()) drop(again, {x.node.get()});
	drop(r, {x.node.get()});
}

static void scalar (mc::Ctx& c)
{
	static const double SC[] = {0, 1, -1, 2, 0.5, -3};
	int op = c.choose(6), left = c.choose(2), k = c.choose(NKIND);
	double q = SC[c.choose(6)];
	shp s = c.pick(SHAPES);
	int set = c.choose(3);
	const Bi& b = BINARY[op];
	vec v = data(set, numel(s), c.choose(c.thorough() ? 12 : 2));
	c.note(left ? "%2$g %1$s %3$s %4$s %5$s" : "%3$s %4$s %5$s %1$s %2$g", b.name, q, KNAME[k], sstr(s).c_str(), mc::vstr(v).c_str());
	c.state(mc::fmt("s%d %d %d %g %s %s", op, left, k, q, sstr(s).c_str(), mc::vstr(v).c_str()));
	Source x((Kind) k, s, v);
	auto wanted = [&]() { vec w; for (double e : x.v) w.push_back(left ? b.g(q, e) : b.g(e, q)); return w; };
	V r;
	bool must_throw = op == 3 && ((!left && q == 0) || (left && k == CONST && v.size() == 1 && v[0] == 0 && q != 0));
	bool may_throw = op == 3 && (left && q == 0);
	c.step("build");
	try { r = left ? b.sn(q, x.node) : b.ns(x.node, q); }
	catch (std::exception& e)
	{
		c.check(must_throw || may_throw, "refused: %s", e.what());
		return;
	}
	c.check(!must_throw, "division by zero was not refused");
	if (op == 3 && left && q == 0)
	{ // zero divided by anything is the constant zero
		c.check(r.get() && r->eval(), "0/x: no value");
		vec got = r->eval()->expose();
		for (size_t i = 0; i < got.size(); i++)
			c.check(got[i] == 0 || (x.v.size() == got.size() && x.v[i] == 0), "0/x: got %s", mc::vstr(got).c_str());
		drop(r, {x.node.get()});
		return;
	}
	if (k == LATE) x.supply();
	expect(c, r, wanted(), s, "first", k != CONST && !(op == 2 && q == 0));
	if (x.writable())
	{
		x.write(data((set + 1) % 3, numel(s), 1));
		c.step("write");
		expect(c, r, wanted(), s, "after a write", k != CONST && !(op == 2 && q == 0));
	}
	if (x.node.get())
	{
		V again = left ? b.sn(q, x.node) : b.ns(x.node, q);
		expect(c, again, wanted(), s, "asked for again");
		if (again.get() != r.get()) drop(again, {x.node.get()});
	}
	drop(r, {x.node.get()});
}

static shp trimmed (shp s)
{
	while (s.size() && s.back() == 1) s.pop_back();
	while (s.size() && s.front() == 1) s.erase(s.begin());
	return s;
}

static void binary (mc::Ctx& c)
{
	static const std::vector<shp> S = {{1}, {2}, {3}, {2,3}, {3,2}, {1,3}, {2,1,2}, {4}};
	int op = c.choose(BINARY.size()), ka = c.choose(NKIND), kb = c.choose(NKIND + 1); // NKIND: same node
	bool same = kb == NKIND;
	shp sa = c.pick(S), sb = same ? sa : c.pick(S);
	int set = c.choose(c.thorough() ? 3 : 2), zero = c.choose(2);
	const Bi& b = BINARY[op];
	vec va = data(set, numel(sa), 0), vb = data(set, numel(sb), 4);
	// a zero or a one as the only element of an operand triggers the simplifications
	if (zero && numel(sa) == 1) va[0] = set ? 1 : 0;
	if (zero && numel(sb) == 1) vb[0] = set ? 1 : 0;
	c.note("%s %s %s %s %s %s %s", KNAME[ka], sstr(sa).c_str(), mc::vstr(va).c_str(), b.name, same ? "itself" : KNAME[kb], sstr(sb).c_str(), mc::vstr(vb).c_str());
	c.state(mc::fmt("b%d %d %d %s %s %d %d", op, ka, kb, sstr(sa).c_str(), sstr(sb).c_str(), set, zero));
	Source x((Kind) ka, sa, va, "x");
	std::unique_ptr<Source> yp;
	if (!same) yp.reset(new Source((Kind) kb, sb, vb, "y"));
	Source& y = same ? x : *yp;
	size_t n = std::max(numel(sa), numel(sb));
	bool fits = numel(sa) == 1 || numel(sb) == 1 || sa == sb;
	bool unclear = !fits && trimmed(sa) == trimmed(sb);
	auto wanted = [&]() { vec w; for (size_t i = 0; i < n; i++) w.push_back(b.g(x.v[x.v.size() > 1 ? i : 0], y.v[y.v.size() > 1 ? i : 0])); return w; };
	V r;
	c.step("build");
	bool threw = false;
	try
	{
		r = b.nn(x.node, y.node);
		if (ka == LATE) x.supply();
		if (!same && kb == LATE) y.supply();
		c.check(r.get() != nullptr, "no node");
		r->eval();
	}
	catch (std::exception& e)
	{
		threw = true;
		bool div0 = op == 3 && kb == CONST && y.v.size() == 1 && y.v[0] == 0;
		c.check(!fits || div0, "refused: %s", e.what());
	}
	if (!threw && fits)
	{
		bool div0 = op == 3 && !same && kb == CONST && y.v.size() == 1 && y.v[0] == 0 && !(ka == CONST && x.v.size() == 1 && x.v[0] == 0);
		c.check(!div0, "division by a constant zero was not refused");
		shp so = numel(sa) >= numel(sb) ? sa : sb;
		if (same && op == 3) expect(c, r, {1}, so, "x/x");
		else if (op == 3 && !same && ka == CONST && x.v.size() == 1 && x.v[0] == 0) expect(c, r, {0}, so, "0/x");
		else
		{
			expect(c, r, wanted(), so, "first");
			if (x.writable()) { x.write(data(1 - set % 2, numel(sa), 7)); c.step("write left"); expect(c, r, wanted(), so, "after writing the left operand"); }
			if (y.writable()) { y.write(data(1 - set % 2, numel(sb), 2)); c.step("write right"); expect(c, r, wanted(), so, "after writing the right operand"); }
			if (x.node.get() && y.node.get())
			{
				V again = b.nn(x.node, y.node);
				expect(c, again, wanted(), so, "asked for again");
				if (again.get() != r.get()) drop(again, {x.node.get(), y.node.get()});
				if (!same)
				{
					bool d0 = op == 3 && ka == CONST && x.v.size() == 1 && x.v[0] == 0;
					if (!d0)
					{
						V back = b.nn(y.node, x.node);
						vec w; for (size_t i = 0; i < n; i++) w.push_back(b.g(y.v[y.v.size() > 1 ? i : 0], x.v[x.v.size() > 1 ? i : 0]));
						if (op == 3 && kb == CONST && y.v.size() == 1 && y.v[0] == 0) w = {0};
						expect(c, back, w, so, "operands swapped");
						if (back.get() != r.get()) drop(back, {x.node.get(), y.node.get()});
					}
				}
			}
		}
	}
	else if (!threw && !unclear)
	{
		// never a value for operands that do not fit
		c.check(r.get() == nullptr || r->eval() == nullptr || agrees(r->eval()->expose(), wanted()),
			"shapes %s and %s were combined into %s", sstr(sa).c_str(), sstr(sb).c_str(), mc::vstr(r->eval()->expose()).c_str());
		c.check(same && op == 1, "shapes %s and %s were not refused", sstr(sa).c_str(), sstr(sb).c_str());
	}
	drop(r, {x.node.get(), y.node.get()});
}

// one operand lacks a dimension of the other, or has extent 1 along it
static void axial (mc::Ctx& c)
{
	static const std::vector<shp> REAL = {{2,3}, {3,2}, {3,3}, {2,3,2}, {3,2,2}, {2,2,2}, {2,1,3}, {4}, {1}, {2,3,2,2}, {2,2,3,2}};
	static const std::vector<shp> AX = {{1}, {2}, {3}, {1,2}, {1,3}, {2,1}, {3,1}, {3,3}, {2,3}, {3,2}, {2,2}, {2,1,2}, {1,3,2}, {2,3,1}, {4}, {3,2,2}, {2,2,2}, {2,1,2,2}, {3,1,2}, {2,3,2}};
	int op = c.choose(4), left = c.choose(2);
	shp sr = c.pick(REAL), sx = c.pick(AX);
	size_t axis = c.choose(5);
	int kr = c.choose(3), kx = c.choose(3); // constant, placeholder, connector
	const Kind KS[3] = {PLACE, CONN, CONST};
	int set = c.choose(c.thorough() ? 2 : 1);
	vec vr = data(set, numel(sr), 0), vx = data(set, numel(sx), 5);
	const Bi& b = BINARY[op];
	c.note("%s axis %zu, %s operand lacks it: full %s %s, axial %s %s", b.name, axis, left ? "left" : "right", KNAME[KS[kr]], sstr(sr).c_str(), KNAME[KS[kx]], sstr(sx).c_str());
	c.state(mc::fmt("x%d %d %s %s %zu %d %d", op, left, sstr(sr).c_str(), sstr(sx).c_str(), axis, kr, kx));
	Source full(KS[kr], sr, vr, "full"), ax(KS[kx], sx, vx, "axial");
	bool scalar = numel(sr) == 1 || numel(sx) == 1;
	bool fits = scalar, unclear = false;
	if (!scalar && axis < sr.size())
	{
		shp slim = sr, one = sr;
		slim.erase(slim.begin() + axis); one[axis] = 1;
		fits = sx == one || (slim.size() && sx == slim);
		unclear = !fits && (trimmed(sx) == trimmed(one) || trimmed(sx) == trimmed(slim));
	}
	shp so = numel(sr) >= numel(sx) ? sr : sx;
	size_t n = numel(so);
	auto wanted = [&]()
	{
		vec w;
		for (size_t i = 0; i < n; i++)
		{
			size_t fi = full.v.size() > 1 ? i : 0, ai = 0;
			if (ax.v.size() > 1 && full.v.size() == 1) ai = i;
			else if (ax.v.size() > 1)
			{
				size_t rest = i, mul = 1;
				for (size_t d = 0; d < sr.size(); d++)
				{
					size_t co = rest % sr[d]; rest /= sr[d];
					if (d != axis) { ai += co * mul; mul *= sr[d]; }
				}
			}
			w.push_back(left ? b.g(ax.v[ai], full.v[fi]) : b.g(full.v[fi], ax.v[ai]));
		}
		return w;
	};
	V A = left ? ax.node : full.node, B = left ? full.node : ax.node, r;
	bool threw = false;
	c.step("build");
	try
	{
		switch (op)
		{
		case 0: r = left ? add_axial_a(A, B, axis) : add_axial_b(A, B, axis); break;
		case 1: r = left ? sub_axial_a(A, B, axis) : sub_axial_b(A, B, axis); break;
		case 2: r = left ? mul_axial_a(A, B, axis) : mul_axial_b(A, B, axis); break;
		case 3: r = left ? div_axial_a(A, B, axis) : div_axial_b(A, B, axis); break;
		}
		c.check(r.get() != nullptr, "no node");
		r->eval();
	}
	catch (std::exception& e)
	{
		threw = true;
		c.check(!fits, "refused: %s", e.what());
	}
	if (!threw && fits)
	{
		expect(c, r, wanted(), so, "first");
		if (full.writable()) { full.write(data(2, numel(sr), 3)); c.step("write"); expect(c, r, wanted(), so, "after writing the full operand"); }
		if (ax.writable()) { ax.write(data(1, numel(sx), 8)); c.step("write"); expect(c, r, wanted(), so, "after writing the axial operand"); }
	}
	else if (!threw && !unclear) c.fail("operands " + sstr(sr) + " and " + sstr(sx) + " along axis " + std::to_string(axis) + " were not refused");
	drop(r, {full.node.get(), ax.node.get()});
}

static void norms (mc::Ctx& c)
{
	int op = c.choose(5), k = c.choose(NKIND);
	shp s = c.pick(SHAPES);
	int set = c.choose(3);
	static const double CAP[] = {0, 0.5, 1, 3, 100};
	vec v = data(set, numel(s), c.choose(c.thorough() ? 12 : 3));
	c.note("%s %g of %s %s %s", op ? "clip_norm" : "l2norm", CAP[op], KNAME[k], sstr(s).c_str(), mc::vstr(v).c_str());
	c.state(mc::fmt("n%d %d %s %s", op, k, sstr(s).c_str(), mc::vstr(v).c_str()));
	Source x((Kind) k, s, v);
	auto wanted = [&]()
	{
		double q = 0;
		for (double e : x.v) q += e * e;
		q = std::sqrt(q);
		if (op == 0) return vec{q};
		vec w = x.v;
		if (q > CAP[op]) for (double& e : w) e = e * CAP[op] / q;
		return w;
	};
	V r = op ? clip_norm(x.node, CAP[op]) : l2norm(x.node);
	c.step("build");
	if (k == LATE) x.supply();
	shp so = op ? s : shp{1};
	expect(c, r, wanted(), so, "first");
	if (op == 0) c.check(r->eval()->n_elems() == 1, "the norm is not a scalar");
	if (x.writable()) { x.write(data((set + 1) % 3, numel(s), 1)); c.step("write"); expect(c, r, wanted(), so, "after a write"); }
	inode<double>* helper = nullptr;
	drop(r, {x.node.get()});
}

// the activations composed of elementary operations
static void activations (mc::Ctx& c)
{
	static const char* const N[] = {"sigmoid", "tanh", "softmax", "sigmoid of sigmoid", "softmax of tanh", "softmax twice"};
	int op = c.choose(6), k = c.choose(NKIND);
	shp s = c.pick(SHAPES);
	int set = c.choose(3), off = c.choose(c.thorough() ? 12 : 4);
	vec v = data(set, numel(s), off);
	c.note("%s of %s %s %s", N[op], KNAME[k], sstr(s).c_str(), mc::vstr(v).c_str());
	c.state(mc::fmt("a%d %d %s %d %d", op, k, sstr(s).c_str(), set, off));
	Source x((Kind) k, s, v);
	auto sg = [](vec w) { for (double& e : w) e = 1 / (1 + std::exp(-e)); return w; };
	auto th = [](vec w) { for (double& e : w) e = std::tanh(e); return w; };
	auto sm = [](vec w) { double q = 0; for (double& e : w) q += e = std::exp(e); for (double& e : w) e /= q; return w; };
	auto wanted = [&]() -> vec
	{
		switch (op)
		{
		case 0: return sg(x.v);
		case 1: return th(x.v);
		case 2: return sm(x.v);
		case 3: return sg(sg(x.v));
		case 4: return sm(th(x.v));
		default: return sm(sm(x.v));
		}
	};
	auto build = [&]() -> V
	{
		switch (op)
		{
		case 0: return nnet::sigmoid<double>(x.node);
		case 1: return nnet::tanh<double>(x.node);
		case 2: return nnet::softmax<double>(x.node);
		case 3: return nnet::sigmoid<double>(nnet::sigmoid<double>(x.node));
		case 4: return nnet::softmax<double>(nnet::tanh<double>(x.node));
		default: return nnet::softmax<double>(nnet::softmax<double>(x.node));
		}
	};
	V r = build();
	c.step("build");
	if (k == LATE) { c.check(r->eval() == nullptr, "a value although the operand has none"); x.supply(); }
	expect(c, r, wanted(), s, "first");
	if (x.writable())
	{
		x.write(data((set + 1) % 3, numel(s), off));
		c.step("write");
		expect(c, r, wanted(), s, "after a write");
		V again = build();
		expect(c, again, wanted(), s, "asked for again");
		if (again.get() != r.get()) drop(again, {x.node.get()});
	}
	drop(r, {x.node.get()});
}

static void nulls (mc::Ctx& c)
{
	int op = c.choose(UNARY.size() + 8 + BINARY.size() * 5);
	V none;
	Source x(PLACE, {2}, {1, 2});
	V r;
	c.state(mc::fmt("null%d", op)); c.step("null operand");
	size_t U = UNARY.size();
	if (op < (int) U) r = UNARY[op].f(none);
	else if (op < (int) U + 8)
	{
		switch (op - U)
		{
		case 0: r = add_axial_a(none, x.node, 0); break;
		case 1: r = add_axial_b(x.node, none, 0); break;
		case 2: r = sub_axial_a(none, x.node, 0); break;
		case 3: r = mul_axial_b(x.node, none, 0); break;
		case 4: r = div_axial_a(none, x.node, 0); break;
		case 5: r = l2norm(none); break;
		case 6: r = clip_norm(none, 1.0); break;
		case 7: r = div_axial_b(x.node, none, 0); break;
		}
	}
	else
	{
		int i = (op - U - 8) % BINARY.size(), w = (op - U - 8) / BINARY.size();
		const Bi& b = BINARY[i];
		if (w == 0) r = b.nn(none, x.node);
		else if (w == 1) r = b.nn(x.node, none);
		else if (w == 2) r = b.nn(none, none);
		else if (w == 3) { if (!b.sn) c.prune(); r = b.sn(2, none); }
		else { if (!b.ns) c.prune(); r = b.ns(none, 2); }
	}
	c.check(r.get() == nullptr, "an operation on nothing gave a node");
}

int main (int argc, char** argv)
{
	return mc::run(argc, argv, {
		{"unary", unary, 3}, {"scalar", scalar, 3}, {"binary", binary, 3}, {"axial", axial, 3}, {"norms", norms, 2}, {"activations", activations, 3}, {"nulls", nulls, 1},
	});
}
