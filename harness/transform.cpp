// transform: operations that move, repeat, drop or fold elements along dimensions place
// every element exactly where their definition says, for every shape, dimension and
// operand kind, and again after the operand is written.
#include "sources.hpp"
using namespace src;
typedef varptr<double> V;

static vec data (int set, size_t n)
{
	// distinct, out of order, of both signs; set 1 has ties; set 2 is all negative
	vec r;
	for (size_t i = 0; i < n; i++)
	{
		double d = (double) ((i * 7 + 3) % 29) - 11.5;
		if (set == 1) d = (double) ((i * 5 + 1) % 4) - 1;
		if (set == 2) d = -1 - (double) ((i * 11 + 5) % 31);
		r.push_back(d);
	}
	return r;
}

struct Arr { shp s; vec v; };
static shp coords (const shp& s, size_t i) { shp c; for (size_t d : s) { c.push_back(i % d); i /= d; } return c; }
static size_t index (const shp& s, const shp& c) { size_t r = 0, m = 1; for (size_t d = 0; d < s.size(); d++) { r += c[d] * m; m *= s[d]; } return r; }
static Arr fill (const shp& s, std::function<double(const shp&)> f)
{
	Arr a; a.s = s;
	for (size_t i = 0, n = numel(s); i < n; i++) a.v.push_back(f(coords(s, i)));
	return a;
}

static Arr m_transpose (Arr a, size_t x, size_t y)
{
	while (a.s.size() <= std::max(x, y)) a.s.push_back(1);
	shp o = a.s; std::swap(o[x], o[y]);
	return fill(o, [&](shp c) { std::swap(c[x], c[y]); return a.v[index(a.s, c)]; });
}
static Arr m_extend (Arr a, size_t d, size_t mul)
{
	while (a.s.size() <= d) a.s.push_back(1);
	shp o = a.s; o[d] *= mul;
	return fill(o, [&](shp c) { c[d] %= a.s[d]; return a.v[index(a.s, c)]; });
}
static Arr m_flip (Arr a, const shp& dims)
{
	return fill(a.s, [&](shp c) { for (size_t d : dims) if (d < c.size()) c[d] = a.s[d] - 1 - c[d]; return a.v[index(a.s, c)]; });
}
// fold a line of elements
static Arr m_fold (Arr a, int dim, std::function<double(const vec&)> f)
{
	Arr r;
	if (dim < 0) { r.s = {1}; r.v = {f(a.v)}; return r; }
	if (dim >= (int) a.s.size()) return a;
	shp o = a.s; o[dim] = 1;
	r = fill(o, [&](shp c) { vec l; for (size_t j = 0; j < a.s[dim]; j++) { c[dim] = j; l.push_back(a.v[index(a.s, c)]); } return f(l); });
	if (o.size() > 1 && (dim == 0 || dim == (int) o.size() - 1)) { r.s.erase(r.s.begin() + dim); }
	return r;
}

static void expect (mc::Ctx& c, V r, const Arr& want, const char* when)
{
	c.check(r.get() != nullptr, "%s: no node", when);
	const tensor<double>* t = r->eval();
	c.check(t != nullptr && t->is_alloc(), "%s: no value", when);
	vec got = t->expose();
	bool ok = got.size() == want.v.size();
	for (size_t i = 0; ok && i < got.size(); i++) ok = mc::close(got[i], want.v[i]);
	c.check(ok, "%s: got %s, expected %s", when, mc::vstr(got).c_str(), mc::vstr(want.v).c_str());
	c.check(t->get_shape().as_list() == want.s, "%s: shape %s, expected %s", when, sstr(t->get_shape().as_list()).c_str(), sstr(want.s).c_str());
	c.check(r->get_shape().as_list() == want.s, "%s: the node's shape is %s, expected %s", when, sstr(r->get_shape().as_list()).c_str(), sstr(want.s).c_str());
}

static const std::vector<shp> SHAPES = {{1}, {4}, {2,3}, {3,2}, {1,3}, {3,1}, {2,2}, {2,3,4}, {3,1,2}, {2,2,3,2}};
static const std::vector<shp> MORE = {{1,1}, {1,2,1}, {3,3,3}, {2,1,1,3}, {5,2}};
static shp pickshape (mc::Ctx& c)
{
	size_t n = SHAPES.size() + (c.thorough() ? MORE.size() : 0), i = c.choose(n);
	return i < SHAPES.size() ? SHAPES[i] : MORE[i - SHAPES.size()];
}

// build f over a source of every kind and compare with the model, then rewrite and compare again
static void drive (mc::Ctx& c, const char* name, int k, const shp& s, int set, std::function<V(V)> f, std::function<Arr(Arr)> m)
{
	c.note("%s of %s %s set %d", name, KNAME[k], sstr(s).c_str(), set);
	c.state(mc::fmt("%s %d %s %d", name, k, sstr(s).c_str(), set));
	Source x((Kind) k, s, data(set, numel(s)));
	V r = f(x.node);
	c.step("build");
	if (k == LATE)
	{
		x.supply();
	}
	expect(c, r, m(Arr{s, x.v}), "first");
	if (x.writable())
	{
		x.write(data((set + 1) % 3, numel(s)));
		c.step("write");
		expect(c, r, m(Arr{s, x.v}), "after a write");
	}
	V again = f(x.node);
	expect(c, again, m(Arr{s, x.v}), "asked for again");
	if (again.get() != r.get() && again.get() != x.node.get()) delete again.get();
	if (r.get() && r.get() != x.node.get()) delete r.get();
}

static void transposed (mc::Ctx& c)
{
	int k = c.choose(NKIND); shp s = pickshape(c);
	size_t x = c.choose(4), y = c.choose(4);
	bool twice = c.flip();
	drive(c, mc::fmt("transpose %zu %zu%s", x, y, twice ? " twice" : "").c_str(), k, s, c.choose(2),
		[=](V a) { V t = transpose(a, {x, y}); return twice ? transpose(t, {x, y}) : t; },
		[=](Arr a)
		{
			Arr t = m_transpose(a, x, y);
			if (!twice) return t;
			return a; // and the node may be the operand itself
		});
}

static void extended (mc::Ctx& c)
{
	int k = c.choose(NKIND); shp s = pickshape(c);
	size_t d = c.choose(5), mul = c.choose(4);
	drive(c, mc::fmt("extend %zu x%zu", d, mul).c_str(), k, s, c.choose(2),
		[=](V a) { return extend(a, d, mul); },
		[=](Arr a) { if (mul == 0) return Arr{{1}, {0}}; if (mul == 1) return a; return m_extend(a, d, mul); });
}

static void flipped (mc::Ctx& c)
{
	int k = c.choose(NKIND); shp s = pickshape(c);
	static const std::vector<shp> D = {{0}, {1}, {2}, {3}, {4}, {0,1}, {1,2}, {2,0}, {0,0}, {0,1,2,3}, {}};
	shp dims = c.pick(D);
	drive(c, ("flip " + sstr(dims)).c_str(), k, s, c.choose(2), [=](V a) { return flip(a, dims); }, [=](Arr a) { return m_flip(a, dims); });
}

static void folded (mc::Ctx& c)
{
	int op = c.choose(5), k = c.choose(NKIND); shp s = pickshape(c);
	int dim = c.choose(6) - 1;
	static const char* const N[] = {"reduce_max", "reduce_sum", "reduce_mean", "compress first*2+next", "compress max-abs"};
	optional<size_t> od;
	if (dim >= 0) od = optional<size_t>((size_t) dim);
	if (op == 2 && k == LATE) k = PLACE; // the divisor is taken from the operand's data
	drive(c, mc::fmt("%s %d", N[op], dim).c_str(), k, s, c.choose(3),
		[=](V a) -> V
		{
			switch (op)
			{
			case 0: return reduce_max(a, od);
			case 1: return reduce_sum(a, od);
			case 2: return reduce_mean(a, od);
			case 3: return compress<double>(a, [](double l, double r) { return l * 2 + r; }, od, "first");
			default: return compress<double>(a, [](double l, double r) { return std::fabs(l) < std::fabs(r) ? r : l; }, od, "maxabs");
			}
		},
		[=](Arr a)
		{
			return m_fold(a, dim, [=](const vec& l)
			{
				double r = l[0];
				for (size_t i = 1; i < l.size(); i++)
					r = op == 0 ? std::max(r, l[i]) : op == 1 || op == 2 ? r + l[i] : op == 3 ? r * 2 + l[i] : std::fabs(r) < std::fabs(l[i]) ? l[i] : r;
				return op == 2 ? r / l.size() : r;
			});
		});
}

static void argfold (mc::Ctx& c)
{
	int op = c.choose(2), k = c.choose(NKIND); shp s = pickshape(c);
	int dim = c.choose(6) - 1, set = c.choose(3);
	optional<size_t> od;
	if (dim >= 0) od = optional<size_t>((size_t) dim);
	auto f = [=](V a) -> V
	{
		if (op == 0) return arg_max(a, od);
		return arg_compress<double>(a, [](std::vector<double> d) { return (double) (std::min_element(d.begin(), d.end()) - d.begin()); }, od, "argmin");
	};
	if (dim >= (int) s.size())
	{
		c.note("%s %d of %s %s", op ? "argmin" : "arg_max", dim, KNAME[k], sstr(s).c_str());
		c.state(mc::fmt("argbad %d %d %s %d", op, k, sstr(s).c_str(), dim));
		Source x((Kind) k, s, data(set, numel(s)));
		bool threw = false;
		V r;
		try { r = f(x.node); x.supply(); r->eval(); } catch (std::exception&) { threw = true; }
		c.check(threw, "a dimension beyond the rank was not refused");
		return;
	}
	drive(c, mc::fmt("%s %d", op ? "argmin" : "arg_max", dim).c_str(), k, s, set, f,
		[=](Arr a)
		{
			return m_fold(a, dim, [=](const vec& l)
			{
				size_t b = 0;
				for (size_t i = 1; i < l.size(); i++) if (op == 0 ? l[i] > l[b] : l[i] < l[b]) b = i;
				return (double) b;
			});
		});
}

// fit pads with zeros and truncates to the shape of another node
static void fitted (mc::Ctx& c)
{
	int k = c.choose(NKIND), kw = c.choose(3);
	shp s = pickshape(c), w = pickshape(c);
	int set = c.choose(2);
	c.note("fit %s %s to %s %s", KNAME[k], sstr(s).c_str(), KNAME[kw], sstr(w).c_str());
	c.state(mc::fmt("fit %d %d %s %s %d", k, kw, sstr(s).c_str(), sstr(w).c_str(), set));
	if (k == CONST && numel(s) == 1 && data(set, 1)[0] == 0) set = 1 - set; // the constant zero fits anything as it is
	Source x((Kind) k, s, data(set, numel(s)));
	Source y((Kind) kw, w, data(1 - set, numel(w)), "watch");
	auto m = [&]()
	{
		return fill(w, [&](const shp& co)
		{
			shp cc(s.size(), 0);
			for (size_t d = 0; d < std::max(s.size(), co.size()); d++)
			{
				size_t q = d < co.size() ? co[d] : 0;
				if (q >= (d < s.size() ? s[d] : 1)) return 0.0;
				if (d < s.size()) cc[d] = q;
			}
			return x.v[index(s, cc)];
		});
	};
	V r = fit(x.node, y.node);
	c.step("build");
	x.supply();
	expect(c, r, m(), "first");
	if (x.writable()) { x.write(data(2, numel(s))); c.step("write"); expect(c, r, m(), "after a write"); }
	if (y.writable()) { y.write(data(2, numel(w))); c.step("write"); expect(c, r, m(), "after writing the watched node"); }
	delete r.get();
}

static void correlated (mc::Ctx& c)
{
	static const std::vector<shp> A = {{3,3}, {4,2}, {2,3,2}, {3,2,3}, {1,1}, {2,2,3,2}};
	static const std::vector<shp> F = {{1,1}, {2,2}, {1,2}, {2,1}, {3,1}, {2,1,2}, {1,2,2}, {2}, {4,4}, {2,2,2}};
	bool conv = c.flip();
	int k = c.choose(3), kf = c.choose(3), set = c.choose(2);
	const Kind KS[3] = {PLACE, CONST, CONN};
	shp s = c.pick(A), f = c.pick(F);
	size_t d0 = c.choose(3), d1 = c.choose(3);
	c.note("%s %s by %s along %zu %zu", conv ? "conv2d" : "cross_corr2d", sstr(s).c_str(), sstr(f).c_str(), d0, d1);
	c.state(mc::fmt("corr %d %d %d %s %s %zu %zu %d", conv, k, kf, sstr(s).c_str(), sstr(f).c_str(), d0, d1, set));
	Source x(KS[k], s, data(set, numel(s))), y(KS[kf], f, data(1 - set, numel(f)), "filter");
	bool fits = d0 != d1 && std::max(d0, d1) < s.size() && std::max(d0, d1) < f.size() && f[d0] <= s[d0] && f[d1] <= s[d1] && f[d0] * f[d1] == numel(f);
	auto m = [&]()
	{
		shp o = s; o[d0] -= f[d0] - 1; o[d1] -= f[d1] - 1;
		return fill(o, [&](const shp& co)
		{
			double sum = 0;
			for (size_t i = 0; i < f[d0]; i++) for (size_t j = 0; j < f[d1]; j++)
			{
				shp a = co, b(f.size(), 0);
				a[d0] += i; a[d1] += j;
				b[d0] = conv ? f[d0] - 1 - i : i; b[d1] = conv ? f[d1] - 1 - j : j;
				sum += x.v[index(s, a)] * y.v[index(f, b)];
			}
			return sum;
		});
	};
	bool threw = false;
	V r;
	c.step("build");
	try { r = conv ? conv2d(x.node, y.node, {d0, d1}) : cross_corr2d(x.node, y.node, {d0, d1}); c.check(r.get() != nullptr, "no node"); r->eval(); }
	catch (std::exception& e) { threw = true; c.check(!fits, "refused: %s", e.what()); }
	if (threw) return;
	c.check(fits, "a filter that does not fit was not refused");
	expect(c, r, m(), "first");
	if (x.writable()) { x.write(data(2, numel(s))); c.step("write"); expect(c, r, m(), "after a write"); }
	if (y.writable()) { y.write(data(2, numel(f))); c.step("write"); expect(c, r, m(), "after writing the filter"); }
}

// two transformations in a row: the second sees the first one's shape
static void chained (mc::Ctx& c)
{
	int a = c.choose(7), b = c.choose(7);
	shp s = pickshape(c);
	int k = c.choose(2) ? CONN : PLACE;
	auto f = [](int o, V x) -> V
	{
		switch (o)
		{
		case 0: return transpose(x);
		case 1: return extend(x, 1, 2);
		case 2: return flip(x, {0});
		case 3: return reduce_sum(x, optional<size_t>(1));
		case 4: return reduce_max(x, optional<size_t>(0));
		case 5: return transpose(x, {0, 2});
		default: return extend(x, 0, 3);
		}
	};
	auto m = [](int o, Arr x)
	{
		switch (o)
		{
		case 0: return m_transpose(x, 0, 1);
		case 1: return m_extend(x, 1, 2);
		case 2: return m_flip(x, {0});
		case 3: return m_fold(x, 1, [](const vec& l) { double q = 0; for (double e : l) q += e; return q; });
		case 4: return m_fold(x, 0, [](const vec& l) { return *std::max_element(l.begin(), l.end()); });
		case 5: return m_transpose(x, 0, 2);
		default: return m_extend(x, 0, 3);
		}
	};
	c.note("chain %d %d of %s", a, b, sstr(s).c_str());
	c.state(mc::fmt("chain %d %d %s %d", a, b, sstr(s).c_str(), k));
	Source x((Kind) k, s, data(0, numel(s)));
	V r1 = f(a, x.node), r2 = f(b, r1);
	c.step("build");
	for (int t = 0; t < 2; t++)
	{
		Arr m1 = m(a, Arr{s, x.v}), m2 = m(b, m1);
		if ((a == b) && (a == 0 || a == 5)) m2 = Arr{s, x.v};
		expect(c, r2, m2, t ? "second after a write" : "second");
		expect(c, r1, m1, t ? "first after a write" : "first");
		if (!t) { x.write(data(2, numel(s))); c.step("write"); }
	}
}

static void nulls (mc::Ctx& c)
{
	V none, r;
	Source x(PLACE, {2, 2}, {1, 2, 3, 4});
	int op = c.choose(14);
	c.state(mc::fmt("null%d", op)); c.step("null operand");
	switch (op)
	{
	case 0: r = transpose(none); break;
	case 1: r = fit(none, x.node); break;
	case 2: r = fit(x.node, none); break;
	case 3: r = extend(none, 0, 2); break;
	case 4: r = reduce_max(none); break;
	case 5: r = reduce_sum(none, optional<size_t>(0)); break;
	case 6: r = reduce_mean(none); break;
	case 7: r = reduce_mean(none, optional<size_t>(0)); break;
	case 8: r = arg_max(none); break;
	case 9: r = flip(none, {0}); break;
	case 10: r = cross_corr2d(none, x.node); break;
	case 11: r = cross_corr2d(x.node, none); break;
	case 12: r = conv2d(x.node, none); break;
	case 13: r = conv2d(none, x.node); break;
	}
	c.check(r.get() == nullptr, "an operation on nothing gave a node");
}

int main (int argc, char** argv)
{
	return mc::run(argc, argv, {
		{"transpose", transposed, 3}, {"extend", extended, 3}, {"flip", flipped, 3}, {"fold", folded, 3}, {"arg", argfold, 3},
		{"fit", fitted, 3}, {"correlate", correlated, 3}, {"chain", chained, 2}, {"nulls", nulls, 1},
	});
}
