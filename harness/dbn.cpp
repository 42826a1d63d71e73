// dbn: deep belief networks against plain loops: sigmoid layers and a normalized output layer,
// layer-wise pretraining that must equal one contrastive divergence step of that layer alone,
// and fine tuning that must equal one step down the cross entropy's gradient
#include "boltz_ref.hpp"
#include <unistd.h>
using namespace boltz;
using rocnnet::db_net;

static void same (mc::Ctx& c, const vec& got, const vec& want, const char* what)
{
	c.check(near(got, want), "%s is %s instead of %s", what, mc::vstr(got).c_str(), mc::vstr(want).c_str());
}

struct Ref
{
	std::vector<size_t> n; // widths, input first
	params p;              // weight, hidden bias, visible bias of every machine; weight, bias of the output layer
	size_t machines (void) const { return n.size() - 2; }
	size_t out (void) const { return n.back(); }
	Net net (void) const { std::vector<int> a(machines(), 0); a.push_back(1); return Net(n, a); }
	params flat (void) const { params q; for (size_t i = 0; i < p.size(); i++) if (i % 3 != 2 || i > 3 * machines()) q.push_back(p[i]); return q; }
	std::vector<size_t> sizes (void) const
	{
		std::vector<size_t> s;
		for (size_t l = 0; l < machines(); l++) { s.push_back(n[l] * n[l+1]); s.push_back(n[l+1]); s.push_back(n[l]); }
		s.push_back(n[machines()] * out()); s.push_back(out());
		return s;
	}
	void fill (int seed)
	{
		p.clear();
		for (size_t m : sizes()) { vec v; for (size_t k = 0; k < m; k++) v.push_back(0.8 * std::sin(1.3 * seed + 0.77 * k + 2.1 * p.size())); p.push_back(v); }
	}
	Rbm machine (size_t l) const { Rbm r; r.I = n[l]; r.H = n[l+1]; r.p = params(p.begin() + 3 * l, p.begin() + 3 * l + 3); return r; }
	vec below (size_t l, vec x) const { for (size_t i = 0; i < l; i++) x = machine(i).up(x); return x; }
	vec prop (const vec& x) const
	{
		vec z = net().forward(flat(), x);
		for (size_t b = 0; b < z.size() / out(); b++)
		{
			double s = 0;
			for (size_t o = 0; o < out(); o++) s += std::exp(z[o + b * out()]);
			for (size_t o = 0; o < out(); o++) z[o + b * out()] = std::exp(z[o + b * out()]) / s;
		}
		return z;
	}
	double error (const vec& x, const vec& y) const { vec z = prop(x); double s = 0; for (size_t i = 0; i < z.size(); i++) s += (z[i] - y[i]) * (z[i] - y[i]); return s / z.size(); }
	// one step down the gradient of the mean cross entropy
	void tune (const vec& x, const vec& y, double lr)
	{
		vec z = prop(x);
		size_t B = x.size() / n[0];
		for (size_t i = 0; i < z.size(); i++) z[i] = (z[i] - y[i]) / B;
		params g = net().backward(flat(), x, z);
		size_t k = 0;
		for (size_t i = 0; i < p.size(); i++) if (i % 3 != 2 || i > 3 * machines()) { for (size_t j = 0; j < p[i].size(); j++) p[i][j] -= lr * g[k][j]; k++; }
	}
};
static const std::vector<std::vector<size_t> > SIZES = {{2, 2}, {1, 3}, {2, 3, 2}, {3, 2, 1}, {2, 1, 3}, {2, 2, 3, 2}, {1, 2, 1, 2}};
static std::string name (const Ref& r) { std::string s; for (size_t n : r.n) s += (s.empty() ? "" : "-") + std::to_string(n); return s; }
static db_net* make (const Ref& r, const std::string& scope) { return new db_net(r.n[0], std::vector<size_t>(r.n.begin() + 1, r.n.end()), scope); }

static void sound (mc::Ctx& c, const db_net& m, const Ref& r)
{
	c.check(m.get_ninput() == r.n[0] && m.get_noutput() == r.out(), "the sizes are %zu and %zu", m.get_ninput(), m.get_noutput());
	std::vector<variable<double>*> vs = m.get_variables();
	std::vector<size_t> s = r.sizes();
	c.check(vs.size() == s.size(), "there are %zu variables instead of %zu", vs.size(), s.size());
	c.check(std::set<variable<double>*>(vs.begin(), vs.end()).size() == vs.size(), "a variable is listed twice");
	for (size_t i = 0; i < s.size(); i++)
	{
		vec v = expose<double>(vs[i]);
		c.check(near(v, r.p[i]), "parameter %zu is %s instead of %s", i, mc::vstr(v).c_str(), mc::vstr(r.p[i]).c_str());
	}
}
static vec expected (size_t O, size_t B, int seed) // each sample has one class, or fractions
{
	vec y(O * std::max<size_t>(B, 1), 0);
	for (size_t b = 0; b < y.size() / O; b++)
	{
		if (seed % 3 == 2) for (size_t o = 0; o < O; o++) y[o + b * O] = 1.0 / O;
		else y[(b + seed) % O + b * O] = 1;
	}
	return y;
}
static vec inputs (size_t n, int seed) { vec v; for (size_t i = 0; i < n; i++) v.push_back(0.5 + 0.5 * std::sin(1.9 * seed + 1.1 * i)); return v; }

// ---- propagation ------------------------------------------------------------
static void propagation (mc::Ctx& c)
{
	Ref r; r.n = c.pick(SIZES);
	size_t B = c.choose(4); // 0: a single sample without a second dimension
	c.note("%s, batch %zu", name(r).c_str(), B);
	std::unique_ptr<db_net> m(make(r, "m"));
	m->initialize();
	std::vector<variable<double>*> vs = m->get_variables();
	std::vector<size_t> s = r.sizes();
	c.check(vs.size() == s.size(), "there are %zu variables instead of %zu", vs.size(), s.size());
	for (size_t i = 0; i < vs.size(); i++)
	{
		vec v = expose<double>(vs[i]);
		c.check(v.size() == s[i], "parameter %zu has %zu elements instead of %zu", i, v.size(), s[i]);
		if (i % 3 != 0) c.check(v == vec(s[i], 0), "a bias is not zero at first");
		else c.check(s[i] < 2 || std::set<double>(v.begin(), v.end()).size() > 1, "all weights are the same at first");
	}
	r.p = values(vs);
	placeholder<double> in(B ? shp{r.n[0], B} : shp{r.n[0]}, "in");
	V up = m->prop_up(&in);
	for (int i = 0; i < (c.thorough() ? 4 : 3); i++)
	{
		int op = c.choose(3);
		if (op == 0) { r.fill(c.choose(2) + 2 * i); put(vs, r.p); c.step("write parameters"); }
		else if (op == 1) { in = data(r.n[0] * std::max<size_t>(B, 1), i + 5); c.step("write the input"); }
		else { size_t k = c.choose(vs.size()); for (double& d : r.p[k]) d = 0.3 - d; ref::write(vs[k], r.p[k]); c.step("write parameter %zu", k); }
		sound(c, *m, r);
		if (!in.good_status()) continue;
		vec got = expose<double>(up);
		same(c, got, r.prop(expose<double>(&in)), "the output");
		for (size_t b = 0; b < got.size() / r.out(); b++) { double q = 0; for (size_t o = 0; o < r.out(); o++) q += got[o + b * r.out()]; c.check(mc::close(q, 1, 1e-9, 1e-9), "the distribution of sample %zu sums to %g", b, q); }
	}
}

// ---- training ---------------------------------------------------------------
// pretraining and fine tuning in any order, with writes between
static void training (mc::Ctx& c, int steps)
{
	static const std::vector<std::vector<size_t> > T = {{2, 2}, {2, 2, 2}, {1, 2, 3}, {2, 1, 2, 2}, {1, 1, 1, 1, 2}, {2, 3, 2, 1}};
	Ref r; r.n = c.pick(T);
	size_t B = 1 + c.choose(2), k = c.thorough() ? 1 + c.choose(2) : 1 + c.choose(1);
	double rate = c.thorough() && c.flip() ? 0.02 : 0.5;
	bool early = c.flip(); // functions are made before there is data
	nnutils::seed_generator(11 + c.choose(c.thorough() ? 3 : 1));
	c.note("%s, batch %zu, %zu rounds, rate %g", name(r).c_str(), B, k, rate);
	std::unique_ptr<db_net> m(make(r, "m"));
	std::vector<variable<double>*> vs = m->get_variables();
	r.fill(1); put(vs, r.p);
	placeholder<double> in(shp{r.n[0], B}, "in"), want(shp{r.out(), B}, "want");
	vec x = inputs(r.n[0] * B, 1), y = expected(r.out(), B, 0);
	if (!early) { in = x; want = y; }
	rocnnet::pretrain_t pre = m->pretraining_functions(in, rate, k);
	rocnnet::update_cost_t fine = m->build_finetune_functions(in, want, rate);
	c.check(pre.size() == r.machines(), "there are %zu pretraining functions for %zu layers", pre.size(), r.machines());
	if (early) { in = x; want = y; }
	auto error = [&]()
	{
		vec e = expose<double>(fine.second);
		c.check(e.size() == 1 && mc::close(e[0], r.error(x, y), 1e-8, 1e-8), "the error is %s instead of %.12g", mc::vstr(e).c_str(), r.error(x, y));
	};
	error();
	for (int i = 0; i < steps; i++)
	{
		int op = c.choose(5);
		if (op == 0)
		{
			c.step("fine tune");
			fine.first(true);
			r.tune(x, y, rate);
		}
		else if (op == 1)
		{
			if (!r.machines()) c.prune();
			size_t l = c.choose(r.machines());
			c.step("pretrain layer %zu", l);
			Rbm q = r.machine(l);
			vec lx = r.below(l, x);
			std::vector<std::set<End> > ends;
			for (size_t b = 0; b < B; b++) ends.push_back(chain(q, hiddens(q, vec(lx.begin() + b * q.I, lx.begin() + (b + 1) * q.I)), k));
			pre[l].first(true);
			params all = values(vs), got(all.begin() + 3 * l, all.begin() + 3 * l + 3);
			bool ok = false;
			for (auto& es : product(ends)) { std::vector<unsigned> v; for (auto& e : es) v.push_back(e.v); if (near(got, q.step(lx, columns(v, q.I), rate))) { ok = true; break; } }
			c.check(ok, "pretraining layer %zu on %s from %s led to %s, which no chain of %zu rounds gives", l, mc::vstr(lx).c_str(), show(q.p).c_str(), show(got).c_str(), k);
			for (int j = 0; j < 3; j++) r.p[3 * l + j] = got[j];
			// the cost is the likelihood of a reconstruction by the new parameters
			q = r.machine(l);
			vec cost = expose<double>(pre[l].second);
			std::vector<std::set<unsigned> > h0;
			for (size_t b = 0; b < B; b++) h0.push_back(hiddens(q, vec(lx.begin() + b * q.I, lx.begin() + (b + 1) * q.I)));
			ok = false;
			for (auto& hs : product(h0)) ok = ok || (cost.size() == 1 && mc::close(cost[0], q.reconstruction(lx, q.down(columns(hs, q.H))), 1e-7, 1e-7));
			c.check(ok, "the reconstruction cost %s of layer %zu is that of no sample", mc::vstr(cost).c_str(), l);
		}
		else if (op == 2) { x = inputs(r.n[0] * B, 3 + i); in = x; c.step("write the input"); }
		else if (op == 3) { y = expected(r.out(), B, 1 + i + c.choose(2)); want = y; c.step("write the expected output"); }
		else { r.fill(7 + i); put(vs, r.p); c.step("write parameters"); }
		sound(c, *m, r);
		error();
		c.state(mc::fmt("%s %zu %zu %g %d ", name(r).c_str(), B, k, rate, i) + mc::fmt("%.9g", r.error(x, y)));
	}
	r.tune(x, y, rate); fine.first(true); c.step("fine tune at the end");
	sound(c, *m, r);
	error();
}

// ---- copies -----------------------------------------------------------------
struct Slot { db_net* m = nullptr; Ref r; bool empty = false; };
struct Out { V up; int of; };
static void copies (mc::Ctx& c, int depth)
{
	static const std::vector<std::vector<size_t> > NS = {{2, 2, 2, 2}, {2, 2}, {2, 3, 2}};
	int deep = c.choose(c.thorough() ? 3 : 2);
	const std::vector<size_t>& N = NS[deep];
	placeholder<double> in(shp{2, 2}, "in"), want(shp{2, 2}, "want");
	vec x = {1, 0, 0.5, -1}, y = {0, 1, 1, 0};
	in = x; want = y;
	Slot s[2];
	std::vector<Out> outs;
	int serial = 0;
	auto fresh = [&](int i, std::vector<size_t> n) { s[i] = Slot(); s[i].r.n = n; s[i].m = make(s[i].r, mc::fmt("m%d", ++serial)); s[i].r.fill(serial); put(s[i].m->get_variables(), s[i].r.p); };
	auto drop = [&](int i) { for (Out& o : outs) if (o.of == i) o.of = -1; };
	auto follow = [&](int a, int b) { for (Out& o : outs) if (o.of == a) o.of = b; };
	fresh(0, N);
	for (int d = 0; d < depth; d++)
	{
		int op = c.choose(10), a = c.choose(2), b = 1 - a;
		Slot &f = s[a], &g = s[b];
		if (op == 0 ? f.m != nullptr : op == 5 ? !f.m : !f.m || f.empty) c.prune();
		switch (op)
		{
		case 0: { bool other = c.flip(); c.step("create %d%s", a, other ? " of another depth" : ""); fresh(a, other ? NS[(deep + 1) % 3] : N); break; }
		case 1: if (g.m) c.prune(); c.step("clone %d", a); g = f; g.m = f.m->clone(c.flip() ? "named" : ""); break;
		case 2: if (g.m) c.prune(); c.step("move %d", a); g = f; g.m = f.m->move(); f.empty = true; follow(a, b); break;
		case 3: if (!g.m) c.prune(); c.step("%d = %d", b, a); drop(b); { db_net* m = g.m; *m = *f.m; g = f; g.m = m; } break;
		case 4: if (!g.m) c.prune(); c.step("%d = moved %d", b, a); drop(b); { db_net* m = g.m; *m = std::move(*f.m); g = f; g.m = m; } f.empty = true; follow(a, b); break;
		case 5: c.step("delete %d", a); drop(a); delete f.m; f = Slot(); break;
		case 6: if (outs.size() > 1) c.prune(); c.step("connect %d", a); outs.push_back({f.m->prop_up(&in), a}); break;
		case 7:
			if (c.flip()) { c.step("write %d", a); f.r.fill(40 + d); put(f.m->get_variables(), f.r.p); }
			else { c.step("%d = itself", a); if (c.flip()) *f.m = *f.m; else *f.m = std::move(*f.m); }
			break;
		case 8:
		{
			if (!g.m || g.empty || g.r.n != f.r.n) c.prune();
			c.step("save %d, load into %d", a, b);
			std::string file = c.scratch() + "/dbn.pbx"; remove(file.c_str());
			c.check(f.m->save(file, "net"), "saving failed");
			g.m->initialize(file, "net");
			g.r.p = f.r.p;
			break;
		}
		default:
		{
			if (!c.thorough() && d < depth - 1) c.prune();
			c.step("fine tune %d", a);
			rocnnet::update_cost_t t = f.m->build_finetune_functions(in, want, 0.5);
			t.first(true);
			f.r.tune(x, y, 0.5);
		}
		}
		std::string st;
		for (int i = 0; i < 2; i++)
		{
			st += mc::fmt("%d%d%zu ", s[i].m != nullptr, s[i].empty, s[i].r.n.size());
			if (!s[i].m || s[i].empty) continue;
			sound(c, *s[i].m, s[i].r);
			if (s[1-i].m && !s[1-i].empty) for (auto v : s[i].m->get_variables()) for (auto w : s[1-i].m->get_variables()) c.check(v != w, "two networks share a variable");
		}
		for (Out& o : outs)
		{
			st += mc::fmt("o%d", o.of);
			if (o.of < 0) { c.check(!o.up.get(), "the output of a deleted network is still there"); continue; }
			c.check(o.up.get(), "the output of a living network is gone");
			same(c, expose<double>(o.up), s[o.of].r.prop(x), "an output");
		}
		c.state(st);
	}
	for (int i = 0; i < 2; i++) delete s[i].m;
	for (Out& o : outs) c.check(!o.up.get(), "the output of a deleted network is still there");
}

int main (int argc, char** argv)
{
	std::vector<mc::Scenario> s = {
		{"propagation", propagation, 3},
		{"training", [](mc::Ctx& c) { training(c, c.thorough() ? 4 : 3); }, 4},
		{"copies", [](mc::Ctx& c) { copies(c, c.thorough() ? 5 : 4); }, 2},
	};
	return mc::run(argc, argv, s);
}
