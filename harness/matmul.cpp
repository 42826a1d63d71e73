// matmul: every product equals the sum over the shared dimension, batch by batch, through
// the plain and the recursive algorithm, with either operand transposed.
#include "sources.hpp"
using namespace src;
typedef varptr<double> V;

static vec data (int set, size_t n)
{
	vec r;
	for (size_t i = 0; i < n; i++) r.push_back((double) ((i * (set ? 7 : 5) + 3 * set + 1) % 13) - 5);
	return r;
}
static size_t at (const shp& s, size_t d) { return d < s.size() ? s[d] : 1; }

struct Mat { shp s; vec v; };
static Mat tr (const Mat& a)
{
	Mat r; r.s = a.s; while (r.s.size() < 2) r.s.push_back(1);
	size_t w = r.s[0], h = r.s[1], nb = numel(r.s) / (w * h);
	r.v.resize(a.v.size());
	for (size_t b = 0; b < nb; b++) for (size_t y = 0; y < h; y++) for (size_t x = 0; x < w; x++) r.v[b * w * h + x * h + y] = a.v[b * w * h + y * w + x];
	std::swap(r.s[0], r.s[1]);
	return r;
}
// result, or an empty shape if the operands do not fit
static Mat mul (const Mat& a, const Mat& b, bool& unclear)
{
	Mat r;
	size_t Z = at(a.s, 0), Y = at(a.s, 1), X = at(b.s, 0), Z2 = at(b.s, 1);
	shp ba(a.s.begin() + std::min<size_t>(2, a.s.size()), a.s.end()), bb(b.s.begin() + std::min<size_t>(2, b.s.size()), b.s.end());
	unclear = false;
	if (Z != Z2) return r;
	shp ta = ba, tb = bb;
	while (ta.size() && ta.back() == 1) ta.pop_back();
	while (tb.size() && tb.back() == 1) tb.pop_back();
	if (ta != tb) return r;
	unclear = ba != bb; // equal up to trailing ones
	r.s = {X, Y}; r.s.insert(r.s.end(), ta.begin(), ta.end());
	size_t nb = numel(ta);
	for (size_t q = 0; q < nb; q++) for (size_t y = 0; y < Y; y++) for (size_t x = 0; x < X; x++)
	{
		double s = 0;
		for (size_t z = 0; z < Z; z++) s += a.v[q * Z * Y + y * Z + z] * b.v[q * X * Z + z * X + x];
		r.v.push_back(s);
	}
	return r;
}

static void compare (mc::Ctx& c, V r, const Mat& want, bool unclear, const char* when)
{
	const tensor<double>* t = r->eval();
	c.check(t && t->is_alloc(), "%s: no value", when);
	vec got = t->expose();
	c.check(got.size() == want.v.size(), "%s: %zu elements, expected %zu", when, got.size(), want.v.size());
	for (size_t i = 0; i < got.size(); i++) c.check(mc::close(got[i], want.v[i]), "%s: element %zu is %g, expected %g", when, i, got[i], want.v[i]);
	shp gs = t->get_shape().as_list(), ws = want.s;
	if (unclear) { while (gs.size() > 2 && gs.back() == 1) gs.pop_back(); }
	while (gs.size() > 2 && gs.back() == 1 && gs.size() > ws.size()) gs.pop_back();
	while (ws.size() > gs.size() && ws.back() == 1) ws.pop_back();
	c.check(gs == ws, "%s: shape %s, expected %s", when, sstr(gs).c_str(), sstr(ws).c_str());
}

static void one (mc::Ctx& c, Kind ka, Kind kb, bool same, shp sa, shp sb, bool ta, bool tb)
{
	c.note("%s %s%s x %s %s%s", KNAME[ka], sstr(sa).c_str(), ta ? "^T" : "", same ? "itself" : KNAME[kb], sstr(sb).c_str(), tb ? "^T" : "");
	c.state(mc::fmt("mm %d %d %d %s %s %d %d", ka, kb, same, sstr(sa).c_str(), sstr(sb).c_str(), ta, tb));
	Source x(ka, sa, data(0, numel(sa)), "x");
	std::unique_ptr<Source> yp;
	if (!same) yp.reset(new Source(kb, sb, data(1, numel(sb)), "y"));
	Source& y = same ? x : *yp;
	bool unclear = false;
	auto wanted = [&]() { Mat a{sa, x.v}, b{sb, y.v}; if (ta) a = tr(a); if (tb) b = tr(b); return mul(a, b, unclear); };
	Mat want = wanted();
	bool fits = !want.s.empty(), threw = false;
	V r;
	c.step("build");
	try { r = matmul(x.node, y.node, ta, tb); c.check(r.get() != nullptr, "no node"); x.supply(); y.supply(); r->eval(); }
	catch (std::exception& e) { threw = true; c.check(!fits || unclear, "refused: %s", e.what()); }
	if (threw) return;
	c.check(fits, "operands that do not fit were not refused");
	compare(c, r, want, unclear, "first");
	if (x.writable()) { x.write(data(1, numel(sa))); c.step("write left"); compare(c, r, wanted(), unclear, "after writing the left operand"); }
	if (!same && y.writable()) { y.write(data(0, numel(sb))); c.step("write right"); compare(c, r, wanted(), unclear, "after writing the right operand"); }
	V again = matmul(x.node, y.node, ta, tb);
	compare(c, again, wanted(), unclear, "asked for again");
}

// every small pair of shapes, fitting or not
static void small (mc::Ctx& c)
{
	int ka = c.choose(NKIND), kb = c.choose(NKIND + 1);
	bool same = kb == NKIND;
	static const std::vector<shp> S = {{1}, {2}, {3}, {1,2}, {2,1}, {2,2}, {3,2}, {2,3}, {3,3}, {2,2,2}, {3,2,2}, {2,3,2}, {2,2,1}, {2,3,3}, {2,2,2,2}, {2,2,1,2}, {2,2,4}, {2,2,2,3}, {3,2,2,2}};
	shp sa = c.pick(S), sb = same ? sa : c.pick(S);
	bool ta = c.flip(), tb = c.flip();
	one(c, (Kind) ka, same ? (Kind) ka : (Kind) kb, same, sa, sb, ta, tb);
}

// dimensions around the sizes at which the recursive algorithm pads and splits
static void sizes (mc::Ctx& c)
{
	int N = c.thorough() ? 13 : 9;
	size_t X = 1 + c.choose(N), Y = 1 + c.choose(N), Z = 1 + c.choose(N), nb = 1 + c.choose(2);
	bool ta = c.flip(), tb = c.flip();
	shp sa = ta ? shp{Y, Z} : shp{Z, Y}, sb = tb ? shp{Z, X} : shp{X, Z};
	if (nb > 1) { sa.push_back(nb); sb.push_back(nb); }
	one(c, PLACE, PLACE, false, sa, sb, ta, tb);
}

// products of unit matrices: all of them together determine the whole bilinear map
static void basis (mc::Ctx& c)
{
	int n = 1 + c.choose(c.thorough() ? 7 : 5);
	int i = c.choose(n * n), j = c.choose(n * n);
	c.note("E%d x E%d of size %d", i, j, n);
	c.state(mc::fmt("basis %d %d %d", n, i, j));
	vec a(n * n, 0), b(n * n, 0);
	a[i] = 1; b[j] = 1;
	shp s = {(size_t) n, (size_t) n};
	Source x(PLACE, s, a, "x"), y(PLACE, s, b, "y");
	V r = matmul(x.node, y.node);
	c.step("build");
	bool un;
	compare(c, r, mul(Mat{s, a}, Mat{s, b}, un), false, "product");
}

static void nulls (mc::Ctx& c)
{
	V none, r;
	Source x(PLACE, {2, 2}, {1, 2, 3, 4});
	int op = c.choose(3); bool ta = c.flip(), tb = c.flip();
	c.state(mc::fmt("null%d%d%d", op, ta, tb)); c.step("null operand");
	r = op == 0 ? matmul(none, x.node, ta, tb) : op == 1 ? matmul(x.node, none, ta, tb) : matmul(none, none, ta, tb);
	c.check(r.get() == nullptr, "an operation on nothing gave a node");
}

int main (int argc, char** argv)
{
	return mc::run(argc, argv, {{"small", small, 3}, {"sizes", sizes, 3}, {"basis", basis, 2}, {"nulls", nulls, 1}});
}
