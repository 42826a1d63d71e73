// random: values drawn from the shared random generator. Histories of seeding, random
// initialization, sampling and node creation are run twice from the same seed; values must be
// in range, the second run must repeat the first, and no draw may repeat another.
#include "sources.hpp"
#include "graph/connector/immutable/generator.hpp"
using namespace src;

static const long long MODULUS = 2147483647ll; // of std::default_random_engine (minstd_rand0)

static long long power (long long b, long long e)
{
	long long r = 1;
	for (b %= MODULUS; e; e >>= 1, b = b * b % MODULUS) if (e & 1) r = r * b % MODULUS;
	return r;
}

// seeds: plain ones, and ones that make the k-th draw the smallest or largest possible
static std::vector<size_t> seeds (int plain)
{
	std::vector<size_t> s;
	for (int i = 1; i <= plain; i++) s.push_back(i * 7919);
	for (int k = 1; k <= 4; k++)
	{
		long long inv = power(power(16807, k), MODULUS - 2);
		s.push_back(inv);                                  // k-th draw is 1
		s.push_back((MODULUS - 1) * inv % MODULUS);        // k-th draw is the largest
	}
	return s;
}

// ---- histories ------------------------------------------------------------
struct Draw { std::string what; vec v; double lo, hi; bool unique; };

struct Run
{
	std::vector<Draw> draws;
	std::vector<std::string> uids;
};

static void uid (Run& r, inode<double>* n) { r.uids.push_back(n->get_uid()); }

struct World
{
	// 0, 1: uniform of the same range; 2: normal; 3: uniform of another range and shape
	std::unique_ptr<variable<double> > v[4];
	std::vector<std::unique_ptr<variable<double> > > more;
	std::unique_ptr<placeholder<double> > p;
	varptr<double> sample, use;
};

static Run perform (const std::vector<int>& ops, size_t seed, mc::Ctx* c)
{
	Run r;
	World w;
	nnutils::seed_generator(seed);
	w.v[0].reset(new variable<double>(shp{2, 2}, rand_uniform<double>(-1, 1), "v0"));
	w.v[1].reset(new variable<double>(shp{2, 2}, rand_uniform<double>(-1, 1), "v1"));
	w.v[2].reset(new variable<double>(shp{3}, rand_normal<double>(2, 0.5), "v2"));
	w.v[3].reset(new variable<double>(shp{5}, rand_uniform<double>(10, 11), "v3"));
	w.p.reset(new placeholder<double>(shp{4}, "p"));
	for (int i = 0; i < 4; i++) uid(r, w.v[i].get());
	uid(r, w.p.get());
	auto drew = [&](int i, variable<double>* x)
	{
		double inf = std::numeric_limits<double>::infinity();
		r.draws.push_back({mc::fmt("v%d", i), expose<double>(x), i == 2 ? -inf : i == 3 ? 10. : -1., i == 2 ? inf : i == 3 ? 11. : 1., true});
	};
	for (int op : ops)
	{
		if (op < 4) { w.v[op]->initialize(); drew(op, w.v[op].get()); }
		else if (op == 4)
		{
			variable<double>* x = w.v[0]->clone();
			w.more.emplace_back(x);
			uid(r, x);
			x->initialize();
			drew(0, x);
		}
		else if (op == 5)
		{
			variable<double>* x = w.v[1]->move();
			w.v[1].reset(x);
			uid(r, x);
			x->initialize();
			drew(1, x);
		}
		else if (op == 6)
		{
			if (!w.sample.get())
			{
				w.sample = binomial_sample<double>(1000, varptr<double>(w.p.get()));
				w.use = w.sample + 1.0;
				uid(r, w.sample.get()); uid(r, w.use.get());
			}
			*w.p = vec{0.5, 0.25, 0.5, 0.75};
			vec s = expose<double>(w.sample.get());
			vec again = expose<double>(w.sample.get()), used = expose<double>(w.use.get());
			if (c)
			{
				c->check(s.size() == 4 && s == again, "a sample changed from %s to %s without a change of its argument", mc::vstr(s).c_str(), mc::vstr(again).c_str());
				for (double& u : used) u -= 1;
				c->check(used == s, "a consumer saw the sample %s instead of %s", mc::vstr(used).c_str(), mc::vstr(s).c_str());
			}
			r.draws.push_back({"sample", s, 0, 1000, false});
		}
		else if (op == 7)
		{
			generator<double>* g = generator<double>::get(w.v[3].get(), rand_uniform<double>(10, 11));
			uid(r, g);
			if (w.v[3]->good_status()) r.draws.push_back({"generator", expose<double>(g), 10, 11, true});
			delete g;
		}
		else if (op == 8)
		{
			// initializers used on a tensor
			tensor<double> t(shp{2, 3});
			rand_uniform<double> init(-1, 1);
			std::unique_ptr<rand_uniform<double> > cp(init.clone()), mv(cp->move());
			for (initializer<double>* in : std::initializer_list<initializer<double>*>{&init, cp.get(), mv.get()})
			{
				(*in)(t);
				r.draws.push_back({"initializer", t.expose(), -1, 1, true});
			}
		}
		else
		{
			variable<double> tmp(1.0);
			uid(r, &tmp);
		}
	}
	if (w.sample.get()) { }
	w.p.reset();
	return r;
}

static const char* const OPNAME[] = {"init v0", "init v1", "init v2", "init v3", "clone v0, init", "move v1, init", "sample", "generator", "initializer", "node"};

static void history (mc::Ctx& c, int depth, int nseed)
{
	size_t seed = c.pick(seeds(nseed));
	std::vector<int> ops;
	for (int i = 0; i < depth; i++)
	{
		ops.push_back(c.choose(10));
		c.step("%s", OPNAME[ops.back()]);
	}
	c.note("seed %zu", seed);
	Run a = perform(ops, seed, &c), b = perform(ops, seed, nullptr);
	// the second run continues from a fresh seed and repeats the first
	c.check(a.draws.size() == b.draws.size(), "a repeated history made %zu draws instead of %zu", b.draws.size(), a.draws.size());
	std::set<double> all;
	for (size_t i = 0; i < a.draws.size(); i++)
	{
		Draw& d = a.draws[i];
		c.check(!d.v.empty(), "%s has no value", d.what.c_str());
		c.check(d.v == b.draws[i].v, "draw %zu (%s) is %s after the same seed and history as %s", i, d.what.c_str(), mc::vstr(b.draws[i].v).c_str(), mc::vstr(d.v).c_str());
		for (double x : d.v)
		{
			c.check(x >= d.lo && x <= d.hi && std::isfinite(x), "%s drew %.17g, outside %g..%g", d.what.c_str(), x, d.lo, d.hi);
			if (d.unique) c.check(all.insert(x).second, "%s drew %.17g again", d.what.c_str(), x);
		}
		for (size_t j = 0; j < i; j++)
			c.check(a.draws[j].v != d.v, "draw %zu (%s) repeats draw %zu: %s", i, d.what.c_str(), j, mc::vstr(d.v).c_str());
	}
	c.state(mc::fmt("%zu draws", a.draws.size()) + (a.draws.empty() ? "" : mc::vstr(a.draws.back().v)));
	std::set<std::string> ids;
	for (std::string& s : a.uids) c.check(ids.insert(s).second, "two nodes have the identifier %s", s.c_str());
	for (std::string& s : b.uids) (void) s;
}

// ---- initializers ---------------------------------------------------------
template <typename T>
static void uniform (mc::Ctx& c, T lo, T hi, const char* type)
{
	static const std::vector<shp> SH = {{1}, {3}, {2, 2}, {2, 1, 3}};
	shp s = c.pick(SH);
	size_t seed = c.pick(seeds(c.thorough() ? 200 : 40));
	int how = c.choose(3);
	c.step("uniform %s %g..%g, shape %s, seed %zu, how %d", type, (double) lo, (double) hi, sstr(s).c_str(), seed, how);
	rand_uniform<T> init(lo, hi);
	std::unique_ptr<itensor_handler<T> > cp(how == 1 ? init.clone() : how == 2 ? init.move() : nullptr);
	initializer<T>& in = cp ? static_cast<initializer<T>&>(*cp) : init;
	tensor<T> t((tensorshape(s)));
	std::vector<T> v[2];
	for (auto& x : v) { nnutils::seed_generator(seed); in(t); x = t.expose(); }
	c.check(v[0].size() == numel(s), "%zu elements were set", v[0].size());
	c.check(v[0] == v[1], "the same seed gave different values");
	for (T x : v[0]) c.check(x >= lo && x <= hi, "drew %.17g", (double) x);
	c.state(mc::vstr(v[0]));
}

static void ranges (mc::Ctx& c)
{
	switch (c.choose(8))
	{
	case 0: uniform<double>(c, -1, 1, "double"); break;
	case 1: uniform<double>(c, 0, 1e-6, "double"); break;
	case 2: uniform<double>(c, -3e8, -2.9e8, "double"); break;
	case 3: uniform<float>(c, 4, 5, "float"); break;
	case 4: uniform<signed>(c, -2, 2, "signed"); break;
	case 5: uniform<size_t>(c, 0, 9, "size_t"); break;
	case 6: uniform<signed>(c, 7, 7, "signed"); break;
	default:
		{
			const std::vector<double> K = {0, 1, -2.5, 1e300};
			static const std::vector<shp> SH = {{1}, {3}, {2, 2}, {2, 1, 3}};
			double k = c.pick(K);
			shp s = c.pick(SH);
			int how = c.choose(3);
			c.step("constant %g, shape %s, how %d", k, sstr(s).c_str(), how);
			const_init<double> init(k);
			std::unique_ptr<itensor_handler<double> > cp(how == 1 ? init.clone() : how == 2 ? init.move() : nullptr);
			initializer<double>& in = cp ? static_cast<initializer<double>&>(*cp) : init;
			tensor<double> t((tensorshape(s)));
			in(t);
			c.check(t.expose() == vec(numel(s), k), "constant initializer gave %s", mc::vstr(t.expose()).c_str());
		}
	}
}

// the distributions, over all seeds of a range: every integer is drawn, moments fit
static void distribution (mc::Ctx& c)
{
	int k = c.choose(7);
	const int N = 20000;
	std::vector<double> all;
	auto collect = [&](const vec& v) { all.insert(all.end(), v.begin(), v.end()); };
	double mean = 0, var = 0;
	if (k < 4)
	{
		std::unique_ptr<initializer<double> > in;
		if (k == 0) { in.reset(new rand_uniform<double>(-1, 3)); mean = 1; var = 16. / 12; }
		if (k == 1) { in.reset(new rand_normal<double>(2, 0.5)); mean = 2; var = 0.25; }
		if (k == 2) { in.reset(new rand_normal<double>()); mean = 0; var = 1; }
		if (k == 3) { in.reset(rand_normal<double>(-3, 2).clone()); mean = -3; var = 4; }
		for (int s = 1; s <= N / 100; s++)
		{
			nnutils::seed_generator(s);
			tensor<double> t(shp{10, 10});
			(*in)(t);
			collect(t.expose());
		}
	}
	else
	{
		// binomial in its three forms
		double n = 5, p = 0.3;
		mean = n * p; var = n * p * (1 - p);
		placeholder<double> pn(shp{100}, "n"), pp(shp{100}, "p");
		varptr<double> node = k == 4 ? binomial_sample<double>(n, varptr<double>(&pp)) : k == 5 ? binomial_sample<double>(varptr<double>(&pn), p)
			: binomial_sample<double>(varptr<double>(&pn), varptr<double>(&pp));
		for (int s = 1; s <= N / 100; s++)
		{
			nnutils::seed_generator(s);
			pn = vec(100, n); pp = vec(100, p);
			collect(expose<double>(node));
		}
	}
	c.step("distribution %d over %zu values", k, all.size());
	c.check(all.size() == (size_t) N, "%zu values were drawn", all.size());
	double m = 0, q = 0;
	for (double x : all) m += x / N;
	for (double x : all) q += (x - m) * (x - m) / N;
	c.check(std::fabs(m - mean) < 6 * std::sqrt(var / N), "mean %g instead of %g", m, mean);
	c.check(std::fabs(q - var) < 0.1 * var, "variance %g instead of %g", q, var);
	if (k >= 4)
	{
		std::set<double> hit(all.begin(), all.end());
		c.check(hit == std::set<double>({0, 1, 2, 3, 4, 5}), "values drawn: %s", mc::vstr(hit).c_str());
	}
}

// samples stay in 0..n, are whole, and are certain where the probability is
static void samples (mc::Ctx& c)
{
	int form = c.choose(3);
	Kind kn = form == 0 ? CONST : (Kind) c.choose(NKIND), kp = form == 1 ? CONST : (Kind) c.choose(NKIND);
	const vec NS = {0, 1, 2, 7};
	double n = c.pick(NS);
	int pat = c.choose(3);
	size_t seed = c.pick(seeds(c.thorough() ? 40 : 6));
	static const std::vector<shp> SH = {{1}, {4}, {2, 2}, {2}, {3}};
	shp s = c.pick(SH);
	int one = form == 2 && numel(s) > 1 ? c.choose(3) : 0; // one of the arguments has a single element
	vec p = pat == 0 ? vec{0, 1, 0, 1} : pat == 1 ? vec{0.5, 0.125, 0.5, 1} : vec{1, 0.75, 0, 0.5};
	p.resize(numel(s));
	if (form == 1) p = vec(p.size(), p[0]);
	vec ns = form == 0 ? vec(p.size(), n) : vec{n, n + 1, n, 3};
	ns.resize(p.size());
	if (one == 1) ns = vec(p.size(), ns[0]);
	if (one == 2) p = vec(p.size(), p[0]);
	c.step("sample form %d, n %s (%s), p %s (%s), seed %zu", form, mc::vstr(ns).c_str(), KNAME[kn], mc::vstr(p).c_str(), KNAME[kp], seed);
	if (kn == CONN || kp == CONN) if (kp == CONN) { for (double& x : p) if (x < 0.25) x = 0.25; }
	nnutils::seed_generator(seed);
	std::unique_ptr<Source> N, P;
	shp one_shape = {1};
	vec n1(1, ns[0]), p1(1, p[0]);
	if (form != 0) N.reset(one == 1 ? new Source(kn, one_shape, n1, "n") : new Source(kn, s, ns, "n"));
	if (form != 1) P.reset(one == 2 ? new Source(kp, one_shape, p1, "p") : new Source(kp, s, p, "p"));
	varptr<double> node = form == 0 ? binomial_sample<double>(n, P->node) : form == 1 ? binomial_sample<double>(N->node, p[0]) : binomial_sample<double>(N->node, P->node);
	if (N) N->supply();
	if (P) P->supply();
	for (int round = 0; round < 3; round++)
	{
		if (round == 2)
		{
			bool any = false;
			if (N && N->writable()) { N->write(one == 1 ? n1 : ns); any = true; }
			if (P && P->writable()) { P->write(one == 2 ? p1 : p); any = true; }
			if (!any) break;
		}
		vec v = expose<double>(node);
		c.check(v.size() == p.size(), "a sample has %zu elements instead of %zu", v.size(), p.size());
		for (size_t i = 0; i < v.size(); i++)
		{
			c.check(v[i] == std::floor(v[i]) && v[i] >= 0 && v[i] <= ns[i], "element %zu of %s is no count out of %g", i, mc::vstr(v).c_str(), ns[i]);
			if (p[i] == 0) c.check(v[i] == 0, "element %zu of %s has probability 0", i, mc::vstr(v).c_str());
			if (p[i] == 1) c.check(v[i] == ns[i], "element %zu of %s has probability 1", i, mc::vstr(v).c_str());
		}
	}
	if (node.get() && dynamic_cast<constant<double>*>(node.get())) delete node.get();
}

// a generator node takes the shape of the node it follows
static void followers (mc::Ctx& c)
{
	static const std::vector<shp> SH = {{2}, {3}, {2, 2}, {1, 4}};
	size_t seed = c.pick(seeds(2));
	nnutils::seed_generator(seed);
	std::unique_ptr<placeholder<double> > dep(new placeholder<double>(tensorshape(), "dep"));
	varptr<double> g[2];
	varptr<double> use;
	g[0] = generator<double>::get(dep.get(), rand_uniform<double>(3, 4));
	shp cur;
	vec prev[2];
	bool moved[2] = {false, false};
	int depth = c.thorough() ? 5 : 4;
	for (int i = 0; i < depth; i++)
	{
		int op = c.choose(SH.size() + 5);
		bool rewrote = false;
		if (op < (int) SH.size())
		{
			if (use.get() && !cur.empty() && cur != SH[op]) c.prune(); // a consumer is bound to its first shape
			cur = SH[op];
			tensor<double> t((tensorshape(cur)));
			(const_init<double>(i))(t);
			*dep = t;
			rewrote = true;
			c.step("write %s", sstr(cur).c_str());
		}
		else if (op == (int) SH.size())
		{
			if (!g[0].get() || moved[0] || g[1].get()) c.prune();
			g[1] = static_cast<generator<double>*>(g[0].get())->clone();
			c.step("clone");
			prev[1] = prev[0];
		}
		else if (op == (int) SH.size() + 1)
		{
			if (!g[0].get() || moved[0] || g[1].get()) c.prune();
			g[1] = static_cast<generator<double>*>(g[0].get())->move();
			moved[0] = true;
			prev[1] = prev[0];
			c.step("move");
			// the emptied one can only be deleted
			delete g[0].get();
			c.check(!g[0].get(), "a deleted generator is still held");
		}
		else if (op == (int) SH.size() + 2)
		{
			if (!g[0].get() || !g[1].get()) c.prune();
			static_cast<generator<double>&>(*g[1].get()) = static_cast<generator<double>&>(*g[0].get());
			prev[1] = prev[0];
			c.step("assign");
		}
		else if (op == (int) SH.size() + 3)
		{
			if (use.get() || !g[0].get()) c.prune();
			use = g[0] * 2.0;
			c.step("use");
		}
		else
		{
			dep.reset();
			c.step("delete");
			c.check(!g[0].get() && !g[1].get() && !use.get(), "a generator survived the node it follows");
			return;
		}
		for (int k = 0; k < 2; k++)
		{
			if (!g[k].get()) continue;
			vec v = expose<double>(g[k].get());
			if (cur.empty()) { c.check(v.empty() && !g[k]->good_status(), "a generator has a value before the node it follows"); continue; }
			c.check(g[k]->good_status(), "a generator has no value");
			c.check(g[k]->get_shape().as_list() == cur, "a generator has shape %s after %s", sstr(g[k]->get_shape().as_list()).c_str(), sstr(cur).c_str());
			c.check(v.size() == numel(cur), "a generator has %zu elements", v.size());
			for (double x : v) c.check(x >= 3 && x <= 4, "a generator drew %g", x);
			if (!rewrote && v.size() == prev[k].size()) c.check(v == prev[k], "a generator changed without a change of the node it follows");
			prev[k] = v;
		}
		if (use.get() && !cur.empty() && g[0].get())
		{
			vec u = expose<double>(use.get()), w = prev[0];
			for (double& x : w) x *= 2;
			c.check(u == w, "a consumer of a generator is %s instead of %s", mc::vstr(u).c_str(), mc::vstr(w).c_str());
		}
		c.state(mc::fmt("%zu %d %d %d %d", cur.size() ? numel(cur) * 10 + cur.size() : 0, (int) !!g[0].get(), (int) !!g[1].get(), (int) !!use.get(), (int) moved[0]));
	}
}

int main (int argc, char** argv)
{
	std::vector<mc::Scenario> s = {
		{"history", [](mc::Ctx& c) { history(c, c.thorough() ? 4 : 3, c.thorough() ? 12 : 4); }},
		{"ranges", ranges, 3},
		{"distribution", distribution, 1},
		{"samples", samples, 3},
		{"followers", followers},
	};
	return mc::run(argc, argv, s);
}
