// sharing: building an operation never returns a node that computes something else.
// Oracle: the same request in a world where nothing else was built. Every ordered pair
// (thorough: every triple over a smaller alphabet) of requests is explored, also with the
// first one's node deleted again, and with a request applied to the result of another.
#include "sources.hpp"
#include <array>
using namespace src;
typedef varptr<double> V;

static bool lt (double a, double b) { return a < b; }
static bool gt (double a, double b) { return a > b; }
typedef std::function<V(V, V)> Make;
struct Term { std::string name; Make f; };

static std::vector<Term> terms (void)
{
	std::vector<Term> t;
	auto add = [&](std::string n, Make f) { t.push_back({n, f}); };
	add("+x", [](V x, V) { return +x; });
	add("-x", [](V x, V) { return -x; });
	add("sin", [](V x, V) { return nnet::sin(x); });
	add("cos", [](V x, V) { return nnet::cos(x); });
	add("tan", [](V x, V) { return nnet::tan(x); });
	add("csc", [](V x, V) { return csc(x); });
	add("sec", [](V x, V) { return sec(x); });
	add("cot", [](V x, V) { return cot(x); });
	add("exp", [](V x, V) { return nnet::exp(x); });
	add("sqrt", [](V x, V) { return nnet::sqrt(x); });
	add("log", [](V x, V) { return nnet::log(x); });
	add("round", [](V x, V) { return nnet::round(x); });
	add("identity", [](V x, V) { return identity(x); });
	add("as_constant", [](V x, V) { return as_constant(x); });
	add("l2norm", [](V x, V) { return l2norm(x); });
	add("transpose(1,0)", [](V x, V) { return transpose(x, {1, 0}); });
	for (double s : {2.0, 3.0, 2.0 + 1e-9, 12.0, -2.0, 0.5})
	{
		std::string n = mc::fmt("%.12g", s);
		add("pow " + n, [s](V x, V) { return nnet::pow(x, s); });
		add("x+" + n, [s](V x, V) { return x + s; });
		add(n + "+x", [s](V x, V) { return s + x; });
		add("x-" + n, [s](V x, V) { return x - s; });
		add(n + "-x", [s](V x, V) { return s - x; });
		add("x*" + n, [s](V x, V) { return x * s; });
		add(n + "*x", [s](V x, V) { return s * x; });
		add("x/" + n, [s](V x, V) { return x / s; });
		add(n + "/x", [s](V x, V) { return s / x; });
		add("x<" + n, [s](V x, V) { return conditional<double>(x, s, lt, "lt"); });
		add(n + "<x", [s](V x, V) { return conditional<double>(s, x, lt, "lt"); });
		add("x>" + n, [s](V x, V) { return conditional<double>(x, s, gt, "gt"); });
	}
	for (double s : {0.5, 1.0, 1.0 + 1e-9, 12.0}) add(mc::fmt("clip_norm %.12g", s), [s](V x, V) { return clip_norm(x, s); });
	static const double CL[][2] = {{0, 1}, {0, 2}, {-1, 1}, {1, 2}, {1, 12}, {0.5, 1}, {1, 1 + 1e-9}};
	for (auto& p : CL) { double a = p[0], b = p[1]; add(mc::fmt("clip_val %.12g %.12g", a, b), [a, b](V x, V) { return clip_val(x, a, b); }); }
	for (int w = 0; w < 3; w++) // x.y, y.x, x.x
	{
		auto L = [w](V x, V y) { return w == 1 ? y : x; };
		auto R = [w](V x, V y) { return w == 0 ? y : x; };
		std::string n = w == 0 ? "(x,y)" : w == 1 ? "(y,x)" : "(x,x)";
		add("add" + n, [L, R](V x, V y) { return L(x, y) + R(x, y); });
		if (w < 2) add("sub" + n, [L, R](V x, V y) { return L(x, y) - R(x, y); });
		add("mul" + n, [L, R](V x, V y) { return L(x, y) * R(x, y); });
		add("div" + n, [L, R](V x, V y) { return L(x, y) / R(x, y); });
		add("eq" + n, [L, R](V x, V y) { return eq(L(x, y), R(x, y)); });
		add("neq" + n, [L, R](V x, V y) { return neq(L(x, y), R(x, y)); });
		add("lt" + n, [L, R](V x, V y) { return conditional<double>(L(x, y), R(x, y), lt, "lt"); });
		add("gt" + n, [L, R](V x, V y) { return conditional<double>(L(x, y), R(x, y), gt, "gt"); });
		add("fit" + n, [L, R](V x, V y) { return fit(L(x, y), R(x, y)); });
		add("corr" + n, [L, R](V x, V y) { return cross_corr2d(L(x, y), R(x, y)); });
		add("conv" + n, [L, R](V x, V y) { return conv2d(L(x, y), R(x, y)); });
		for (int f = 0; f < 4; f++) add("matmul" + n + mc::fmt("%d", f), [L, R, f](V x, V y) { return matmul(L(x, y), R(x, y), f & 1, f & 2); });
		add("matmul" + n + "^T.", [L, R](V x, V y) { return matmul(transpose(L(x, y)), R(x, y)); });
	}
	for (size_t i = 0; i < 3; i++)
	{
		add(mc::fmt("transpose(%zu,%zu)", i == 2 ? 1 : 0, i == 0 ? 1 : (size_t) 2), [i](V x, V) { return transpose(x, {i == 2 ? 1 : 0, i == 0 ? 1 : 2}); });
		for (size_t m : {2, 3}) add(mc::fmt("extend %zu %zu", i, m), [i, m](V x, V) { return extend(x, i, m); });
		add(mc::fmt("flip %zu", i), [i](V x, V) { return flip(x, {i}); });
	}
	add("extend 1 12", [](V x, V) { return extend(x, 1, 12); });
	add("extend 11 2", [](V x, V) { return extend(x, 11, 2); });
	add("flip 0 1", [](V x, V) { return flip(x, {0, 1}); });
	add("flip 1 0", [](V x, V) { return flip(x, {1, 0}); });
	add("flip -", [](V x, V) { return flip(x, {}); });
	typedef optional<size_t> O;
	for (int d = -1; d < 2; d++)
	{
		O o; if (d >= 0) o = (size_t) d;
		std::string n = mc::fmt(" %d", d);
		add("sum" + n, [o](V x, V) { return reduce_sum(x, o); });
		add("max" + n, [o](V x, V) { return reduce_max(x, o); });
		add("mean" + n, [o](V x, V) { return reduce_mean(x, o); });
		add("argmax" + n, [o](V x, V) { return arg_max(x, o); });
	}
	// y is a row: axial operations on x and y2 = sum of y
	for (size_t ax = 0; ax < 2; ax++) for (int o = 0; o < 4; o++)
	{
		std::string n = mc::fmt("axial%d_", o) + (ax ? "1" : "0");
		add(n + "b", [o, ax](V x, V y) { V r = reduce_sum(y, O(ax)); return o == 0 ? add_axial_b(x, r, ax) : o == 1 ? sub_axial_b(x, r, ax) : o == 2 ? mul_axial_b(x, r, ax) : div_axial_b(x, r, ax); });
		add(n + "a", [o, ax](V x, V y) { V r = reduce_sum(y, O(ax)); return o == 0 ? add_axial_a(r, x, ax) : o == 1 ? sub_axial_a(r, x, ax) : o == 2 ? mul_axial_a(r, x, ax) : div_axial_a(r, x, ax); });
	}
	// the operands' roles exchanged: refused
	for (size_t ax = 0; ax < 2; ax++)
	{
		std::string n = ax ? " swapped 1" : " swapped 0";
		add("add axial a" + n, [ax](V x, V y) { return add_axial_a(x, reduce_sum(y, O(ax)), ax); });
		add("add axial b" + n, [ax](V x, V y) { return add_axial_b(reduce_sum(y, O(ax)), x, ax); });
		add("mul axial a" + n, [ax](V x, V y) { return mul_axial_a(x, reduce_sum(y, O(ax)), ax); });
		add("mul axial b" + n, [ax](V x, V y) { return mul_axial_b(reduce_sum(y, O(ax)), x, ax); });
	}
	return t;
}
static const std::vector<Term> TERMS = terms();

// requests that only differ in operands with three dimensions
static std::vector<Term> block_terms (void)
{
	std::vector<Term> t;
	auto add = [&](std::string n, Make f) { t.push_back({n, f}); };
	typedef optional<size_t> O;
	for (size_t a = 0; a < 3; a++) for (size_t b = 0; b < 3; b++)
	{
		if (a == b) continue;
		std::string n = mc::fmt(" %zu,%zu", a, b);
		add("corr" + n, [a, b](V x, V y) { return cross_corr2d(x, y, {a, b}); });
		add("conv" + n, [a, b](V x, V y) { return conv2d(x, y, {a, b}); });
		add("transpose" + n, [a, b](V x, V) { return transpose(x, {a, b}); });
		add("flip" + n, [a, b](V x, V) { return flip(x, {a, b}); });
		add("sum then sum" + n, [a, b](V x, V) { return reduce_sum(reduce_sum(x, O(a)), O(b)); });
		add("max then sum" + n, [a, b](V x, V) { return reduce_sum(reduce_max(x, O(a)), O(b)); });
		add("extend twice" + n, [a, b](V x, V) { return extend(extend(x, a, 2), b, 3); });
	}
	for (size_t a = 0; a < 4; a++)
	{
		O o; if (a < 3) o = a;
		std::string n = a < 3 ? mc::fmt(" %zu", a) : " all";
		add("sum" + n, [o](V x, V) { return reduce_sum(x, o); });
		add("max" + n, [o](V x, V) { return reduce_max(x, o); });
		add("mean" + n, [o](V x, V) { return reduce_mean(x, o); });
		add("argmax" + n, [o](V x, V) { return arg_max(x, o); });
		if (a == 3) continue;
		add("flip" + n, [a](V x, V) { return flip(x, {a}); });
		add("extend" + n, [a](V x, V) { return extend(x, a, 2); });
		for (int op = 0; op < 4; op++)
		{
			std::string m = mc::fmt(" %d on", op) + n;
			add("axial b" + m, [op, a](V x, V) { V r = reduce_sum(x, O(a)); return op == 0 ? add_axial_b(x, r, a) : op == 1 ? sub_axial_b(x, r, a) : op == 2 ? mul_axial_b(x, r, a) : div_axial_b(x, r, a); });
			add("axial a" + m, [op, a](V x, V) { V r = reduce_sum(x, O(a)); return op == 0 ? add_axial_a(r, x, a) : op == 1 ? sub_axial_a(r, x, a) : op == 2 ? mul_axial_a(r, x, a) : div_axial_a(r, x, a); });
		}
	}
	add("flip all", [](V x, V) { return flip(x, {0, 1, 2}); });
	add("corr", [](V x, V y) { return cross_corr2d(x, y); });
	add("conv", [](V x, V y) { return conv2d(x, y); });
	add("matmul", [](V x, V y) { return matmul(x, y); });
	add("matmul^T", [](V x, V y) { return matmul(x, y, false, true); });
	return t;
}
static const std::vector<Term> BLOCKS = block_terms();

struct Result
{
	bool thrown = false, null = false; shp s; vec v;
	bool operator == (const Result& o) const
	{
		if (thrown != o.thrown || null != o.null || s != o.s || v.size() != o.v.size()) return false;
		for (size_t i = 0; i < v.size(); i++) if (!mc::close(v[i], o.v[i])) return false;
		return true;
	}
	std::string str (void) const { return thrown ? "an exception" : null ? "no node" : sstr(s) + " " + mc::vstr(v); }
};

static const vec XV = {0.7, 1.2, 0.4, 2.1}, YV = {1.3, 0.6, 0.9, 1.7};
static const vec XW = {1.6, 0.3, 1.1, 0.8}, YW = {0.2, 1.9, 1.4, 0.5};
struct World
{
	Source x, y;
	World (int kx, int ky) : x((Kind) kx, {2, 2}, XV, "x"), y((Kind) ky, {2, 2}, YV, "y") {}
	void write (void) { x.write(XW); y.write(YW); }
};
static Result read (const V& n)
{
	Result r;
	if (!n.get()) { r.null = true; return r; }
	const tensor<double>* t = n->eval();
	if (!t || !t->is_alloc()) { r.null = true; return r; }
	r.s = t->get_shape().as_list(); r.v = t->expose();
	return r;
}
static Result make (const Term& t, V x, V y, V& out)
{
	Result r;
	try { out = t.f(x, y); r = read(out); }
	catch (std::exception&) { r = Result(); r.thrown = true; }
	return r;
}
struct Ref { Result before, after, gx, gy; };
static bool leaves (const V& n) { return n.get() && n->n_arguments() > 0; }
// what the term is when nothing else exists; chained: of the result of `of`
static const Ref& alone (int kx, int ky, int t, int of = -1)
{
	static std::map<std::array<int, 4>, Ref> memo;
	auto it = memo.find({{kx, ky, t, of}});
	if (it != memo.end()) return it->second;
	Ref r;
	World w(kx, ky);
	V n, base = w.x.node;
	Result rb;
	if (of >= 0) rb = make(TERMS[of], w.x.node, w.y.node, base);
	if (of >= 0 && (rb.thrown || !base.get())) r.before.thrown = r.after.thrown = true;
	else
	{
		r.before = make(TERMS[t], base, w.y.node, n);
		if (r.before.thrown) return memo[{{kx, ky, t, of}}] = r;
		w.write();
		r.after = read(n);
		if (of < 0 && kx == VAR && leaves(n)) { try { r.gx = read(n->derive(w.x.var.get())); } catch (std::exception&) { r.gx.thrown = true; } }
		if (of < 0 && ky == VAR && leaves(n)) { try { r.gy = read(n->derive(w.y.var.get())); } catch (std::exception&) { r.gy.thrown = true; } }
	}
	return memo[{{kx, ky, t, of}}] = r;
}
static void same (mc::Ctx& c, const Result& got, const Result& want, const std::string& what)
{
	c.check(got == want, "%s: got %s, alone it is %s", what.c_str(), got.str().c_str(), want.str().c_str());
}

// first, then second; values, values after a write and gradients are those of the second alone
static void pairs (mc::Ctx& c)
{
	int a = c.choose(TERMS.size()), b = c.choose(TERMS.size()), del = c.choose(2);
	int kinds = c.choose(c.thorough() ? 3 : 1);
	int kx = kinds == 1 ? PLACE : kinds == 2 ? CONN : VAR, ky = VAR;
	c.note("%s%s, then %s on %s and %s", TERMS[a].name.c_str(), del ? " (deleted)" : "", TERMS[b].name.c_str(), KNAME[kx], KNAME[ky]);
	c.state(mc::fmt("%d %d %d %d", a, b, del, kinds));
	const Ref& ra = alone(kx, ky, a), &rb = alone(kx, ky, b);
	if (ra.before.thrown) c.prune();
	World w(kx, ky);
	V na, nb;
	same(c, make(TERMS[a], w.x.node, w.y.node, na), ra.before, "first");
	if (del)
	{
		if (!leaves(na)) c.prune();
		c.step("delete");
		delete na.get();
	}
	c.step("second");
	same(c, make(TERMS[b], w.x.node, w.y.node, nb), rb.before, "second");
	if (rb.before.thrown) return;
	if (!del) same(c, read(na), ra.before, "first, after the second was built");
	c.step("write");
	w.write();
	same(c, read(nb), rb.after, "second after a write");
	if (!del) same(c, read(na), ra.after, "first after a write");
	if (!leaves(nb)) return;
	auto grad = [&](const Ref& r, const V& n, const char* what)
	{
		if (kx == VAR && !r.gx.thrown) same(c, read(n->derive(w.x.var.get())), r.gx, std::string("gradient by x of the ") + what);
		if (ky == VAR && !r.gy.thrown) same(c, read(n->derive(w.y.var.get())), r.gy, std::string("gradient by y of the ") + what);
	};
	grad(rb, nb, "second");
	if (!del && leaves(na)) grad(ra, na, "first");
}

// pairs of requests on leaves with three dimensions
static void blocks (mc::Ctx& c)
{
	static const vec BX = [] { vec v; for (int i = 0; i < 24; i++) v.push_back(0.3 + std::fmod(0.61 * i, 1.9)); return v; }();
	static const std::vector<shp> FILTER = {{2, 1, 1}, {1, 2, 1}, {1, 1, 2}, {2, 2, 1}, {2, 2, 2}};
	int f = c.choose(FILTER.size());
	vec BY = {0.7, 1.2, 0.4, 2.1, 1.3, 0.6, 0.9, 1.7};
	BY.resize(tensorshape(FILTER[f]).n_elems());
	static const vec CX = [] { vec v; for (int i = 0; i < 24; i++) v.push_back(0.4 + std::fmod(0.47 * i, 1.3)); return v; }();
	struct Blocks
	{
		Source x, y;
		Blocks (int f, const vec& y) : x(VAR, {3, 2, 4}, BX, "x"), y(VAR, FILTER[f], y, "y") {}
	};
	static std::map<int, std::pair<Result, Result> > memo;
	auto alone = [&](int t) -> const std::pair<Result, Result>&
	{
		auto it = memo.find(5 * t + f);
		if (it != memo.end()) return it->second;
		Blocks w(f, BY); V n;
		std::pair<Result, Result> r;
		r.first = make(BLOCKS[t], w.x.node, w.y.node, n);
		if (!r.first.thrown) { w.x.write(CX); r.second = read(n); }
		return memo[5 * t + f] = r;
	};
	int a = c.choose(BLOCKS.size()), b = c.choose(BLOCKS.size());
	c.note("%s, then %s on a block and %s", BLOCKS[a].name.c_str(), BLOCKS[b].name.c_str(), sstr(FILTER[f]).c_str());
	c.state(mc::fmt("block %d %d %d", f, a, b));
	const std::pair<Result, Result> &ra = alone(a), &rb = alone(b);
	if (ra.first.thrown) c.prune();
	Blocks w(f, BY); V na, nb;
	same(c, make(BLOCKS[a], w.x.node, w.y.node, na), ra.first, "first");
	c.step("second");
	same(c, make(BLOCKS[b], w.x.node, w.y.node, nb), rb.first, "second");
	if (rb.first.thrown) return;
	c.step("write");
	w.x.write(CX);
	same(c, read(nb), rb.second, "second after a write");
	same(c, read(na), ra.second, "first after a write");
}

// a request on the result of another, when a third was made on it before
static void chains (mc::Ctx& c)
{
	static const std::vector<int> SUB = [] { std::vector<int> r; for (size_t i = 0; i < TERMS.size(); i++) if (i < 30 || i % 5 == 0) r.push_back(i); return r; }();
	int of = SUB[c.choose(SUB.size())], a = c.choose(c.thorough() ? TERMS.size() : SUB.size()), b = c.choose(c.thorough() ? TERMS.size() : SUB.size());
	if (!c.thorough()) { a = SUB[a]; b = SUB[b]; }
	c.note("%s of %s, then %s of it", TERMS[a].name.c_str(), TERMS[of].name.c_str(), TERMS[b].name.c_str());
	c.state(mc::fmt("chain %d %d %d", of, a, b));
	const Ref& ra = alone(VAR, PLACE, a, of), &rb = alone(VAR, PLACE, b, of);
	if (ra.before.thrown || rb.before.thrown) c.prune();
	World w(VAR, PLACE);
	V base, na, nb;
	make(TERMS[of], w.x.node, w.y.node, base);
	c.step("first");
	same(c, make(TERMS[a], base, w.y.node, na), ra.before, "first");
	c.step("second");
	same(c, make(TERMS[b], base, w.y.node, nb), rb.before, "second");
	w.write();
	c.step("write");
	same(c, read(nb), rb.after, "second after a write");
	same(c, read(na), ra.after, "first after a write");
}

int main (int argc, char** argv)
{
	return mc::run(argc, argv, { {"pairs", pairs, 2}, {"blocks", blocks, 2}, {"chains", chains, 2} });
}
