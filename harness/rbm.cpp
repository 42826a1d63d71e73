// rbm: restricted Boltzmann machines against a reference that knows every state the sampling
// chains can reach. Weights of 0 and +-40 make units fair or certain, so that all samples that a
// chain may take are enumerated; a training step must equal the step for one of them.
#include "boltz_ref.hpp"
using namespace boltz;
using rocnnet::rbm;

static void same (mc::Ctx& c, const vec& got, const vec& want, const char* what)
{
	c.check(near(got, want), "%s is %s instead of %s", what, mc::vstr(got).c_str(), mc::vstr(want).c_str());
}

// ---- propagation ------------------------------------------------------------
static void propagation (mc::Ctx& c)
{
	size_t I = 1 + c.choose(3), H = 1 + c.choose(3), B = c.choose(4);
	c.note("%zu visible, %zu hidden, batch %zu", I, H, B);
	rbm m(I, H, "m");
	c.check(m.get_ninput() == I && m.get_noutput() == H, "the sizes are %zu and %zu", m.get_ninput(), m.get_noutput());
	std::vector<variable<double>*> vs = m.get_variables();
	c.check(vs.size() == 3, "there are %zu variables", vs.size());
	m.initialize();
	double lim = 4 * std::sqrt(6.0 / (I + H));
	vec w = expose<double>(vs[0]);
	c.check(w.size() == I * H, "there are %zu weights", w.size());
	for (double x : w) c.check(std::fabs(x) <= lim, "an initial weight is %g", x);
	c.check(expose<double>(vs[1]) == vec(H, 0) && expose<double>(vs[2]) == vec(I, 0), "the biases are not zero at first");
	// batch 0 stands for a single sample without a second dimension
	placeholder<double> in(B ? shp{I, B} : shp{I}, "in"), hid(B ? shp{H, B} : shp{H}, "hid");
	V up = m.prop_up(&in), down = m.prop_down(&hid);
	Rbm r; r.I = I; r.H = H;
	for (int round = 0; round < 3; round++)
	{
		int what = c.choose(3);
		if (what == 0) { r.p = moderate(I, H, c.choose(3) + round); put(vs, r.p); c.step("write parameters"); }
		else if (what == 1) { in = data(I * std::max<size_t>(B, 1), round + 5); c.step("write input"); }
		else { hid = data(H * std::max<size_t>(B, 1), round + 9); c.step("write hidden"); }
		r.p = values(vs);
		if (in.good_status()) same(c, expose<double>(up), r.up(expose<double>(&in)), "the hidden distribution");
		if (hid.good_status()) same(c, expose<double>(down), r.down(expose<double>(&hid)), "the visible distribution");
	}
}

// ---- sampling ---------------------------------------------------------------
static params sharp (mc::Ctx& c, size_t I, size_t H)
{
	params p(3);
	for (size_t i = 0; i < I; i++) for (size_t o = 0; o < H; o++) p[0].push_back(40.0 * (c.choose(3) - 1));
	int b = c.choose(4);
	p[1] = b == 1 ? vec(H, 40) : b == 2 ? vec(H, -40) : vec(H, 0);
	p[2] = b == 3 ? vec(I, -40) : b == 1 ? vec(I, -80) : vec(I, 0);
	return p;
}
static std::string pstr (const params& p) { return mc::fmt("weights %s biases %s %s", mc::vstr(p[0]).c_str(), mc::vstr(p[1]).c_str(), mc::vstr(p[2]).c_str()); }

static void reconstruction (mc::Ctx& c)
{
	size_t I = 2, H = 2, B = c.thorough() ? 2 : 1;
	Rbm r; r.I = I; r.H = H; r.p = sharp(c, I, H);
	nnutils::seed_generator(100 + c.choose(c.thorough() ? 8 : 4));
	c.step("%s", pstr(r.p).c_str());
	rbm m(I, H, "m");
	put(m.get_variables(), r.p);
	placeholder<double> in(shp{I, B}, "in"), hid(shp{H, B}, "hid");
	V v = m.reconstruct_visible(&in), h = m.reconstruct_hidden(&hid);
	for (unsigned x = 0; x < 1u << (I * B); x++)
	{
		vec d = bits(x, I * B);
		in = d; hid = d;
		vec gv = expose<double>(v), gh = expose<double>(h);
		std::vector<std::set<unsigned> > hs, vs;
		for (size_t b = 0; b < B; b++)
		{
			hs.push_back(hiddens(r, vec(d.begin() + b * I, d.begin() + (b + 1) * I)));
			vs.push_back(visibles(r, mask(&d[b * H], H)));
		}
		bool ok = false;
		for (auto& p : product(hs)) ok = ok || near(gv, r.down(columns(p, H)));
		c.check(ok, "%s reconstructs to %s, which no hidden sample gives", mc::vstr(d).c_str(), mc::vstr(gv).c_str());
		ok = false;
		for (auto& p : product(vs)) ok = ok || near(gh, r.up(columns(p, I)));
		c.check(ok, "hidden %s reconstructs to %s, which no visible sample gives", mc::vstr(d).c_str(), mc::vstr(gh).c_str());
		c.check(near(expose<double>(v), gv) && near(expose<double>(h), gh), "a reconstruction changes without a change of its input");
	}
	c.state(pstr(r.p));
}

// ---- training ---------------------------------------------------------------
// one step of training with any chain the parameters allow
struct Trainer
{
	size_t I, H, B, k; double lr; bool pcd;
	rbm m; Rbm r;
	placeholder<double> in; vec x;
	std::unique_ptr<variable<double> > pers;
	vec ph;
	rocnnet::update_cost_t t;
	unsigned last = 0, lasth = 0; // visible and hidden end of the chain in the last step
	Trainer (size_t I, size_t H, size_t B, size_t k, double lr, bool pcd, bool flat = false) : I(I), H(H), B(B), k(k), lr(lr), pcd(pcd), m(I, H, "m"), in(flat ? shp{I} : shp{I, B}, "in")
	{
		r.I = I; r.H = H;
		if (pcd)
		{
			pers.reset(new variable<double>(flat ? shp{H} : shp{H, B}, const_init<double>(0), "chain"));
			pers->initialize(); ph = vec(H * B, 0);
		}
	}
	void set (const params& p) { r.p = p; put(m.get_variables(), p); }
	void build (void) { t = m.train(&in, pers.get(), lr, k); }
	void write (const vec& d) { x = d; in = d; }
	std::vector<std::set<End> > ends (void) const
	{
		std::vector<std::set<End> > e;
		for (size_t b = 0; b < B; b++)
			e.push_back(chain(r, pcd ? std::set<unsigned>{mask(&ph[b * H], H)} : hiddens(r, vec(x.begin() + b * I, x.begin() + (b + 1) * I)), k));
		return e;
	}
	// mono: the monitoring cost is finite with these parameters
	void step (mc::Ctx& c, bool mono)
	{
		auto all = product(ends());
		t.first(true);
		params got = values(m.get_variables());
		vec np = pcd ? expose<double>(pers.get()) : vec();
		bool ok = false;
		for (auto& es : all)
		{
			std::vector<unsigned> vs, hs;
			for (auto& e : es) { vs.push_back(e.v); hs.push_back(e.h); }
			if (pcd && np != columns(hs, H)) continue;
			params want = r.step(x, columns(vs, I), lr);
			if (near(got, want)) { ok = true; last = vs[0]; lasth = hs[0]; break; }
		}
		c.check(ok, "training on %s from %s%s led to %s%s, which no chain of %zu rounds gives", mc::vstr(x).c_str(), show(r.p).c_str(), pcd ? (" and chain " + mc::vstr(ph)).c_str() : "",
			show(got).c_str(), pcd ? (" and chain " + mc::vstr(np)).c_str() : "", k);
		r.p = got; ph = np;
		if (mono) monitor(c);
	}
	void monitor (mc::Ctx& c)
	{
		vec g = expose<double>(t.second);
		c.check(g.size() == 1, "the cost has %zu elements", g.size());
		if (pcd) { c.check(mc::close(g[0], r.pseudo(x), 1e-7, 1e-7), "the pseudo-likelihood of %s with %s is %.10g instead of %.10g", mc::vstr(x).c_str(), show(r.p).c_str(), g[0], r.pseudo(x)); return; }
		bool ok = false;
		std::vector<std::set<unsigned> > h0;
		for (auto& s : ends()) { std::set<unsigned> h; for (auto& e : s) h.insert(e.h0); h0.push_back(h); }
		for (auto& hs : product(h0)) ok = ok || mc::close(g[0], r.reconstruction(x, r.down(columns(hs, H))), 1e-7, 1e-7);
		c.check(ok, "the reconstruction cost %.10g of %s is that of no chain", g[0], mc::vstr(x).c_str());
		c.check(expose<double>(t.second) == g, "the cost changes without a change of its input");
	}
};

// certain and fair units: every chain the parameters allow is known
static void chains (mc::Ctx& c)
{
	size_t I = 2, H = 2;
	bool pcd = c.flip();
	size_t k = 1 + c.choose(c.thorough() ? 3 : 2);
	Trainer t(I, H, 1, k, 0.5, pcd);
	t.set(sharp(c, I, H));
	nnutils::seed_generator(7 + c.choose(c.thorough() ? 2 : 1));
	c.step("%s, %s of %zu rounds", pstr(t.r.p).c_str(), pcd ? "persistent chain" : "chain", k);
	t.write(bits(c.choose(4), I));
	t.build();
	params start = t.r.p;
	t.step(c, false);
	c.state(pstr(t.r.p));
	t.set(start); // again from the same parameters, where the persistent chain was left
	t.write(bits(c.thorough() ? c.choose(4) : 1 + c.choose(2), I));
	c.step("second step");
	t.step(c, false);
}

// moderate weights: any sample is possible, but update, chain and costs must fit one
static void training (mc::Ctx& c, int steps)
{
	static const std::vector<std::vector<size_t> > SIZE = {{1, 1, 1}, {2, 1, 2}, {1, 2, 2}, {2, 2, 1}, {2, 2, 2}, {3, 2, 1}, {2, 3, 1}, {3, 1, 2}};
	const auto& s = c.pick(SIZE);
	bool pcd = c.flip();
	size_t k = c.thorough() ? 1 + c.choose(3) : 1 + 2 * c.choose(2);
	static const std::vector<double> LR = {0.5, 0.01};
	double lr = c.pick(LR);
	Trainer t(s[0], s[1], s[2], k, lr, pcd);
	t.set(moderate(s[0], s[1], c.choose(2)));
	nnutils::seed_generator(31 + c.choose(c.thorough() ? 3 : 1));
	c.note("%zu visible, %zu hidden, batch %zu, %s of %zu rounds, rate %g", s[0], s[1], s[2], pcd ? "persistent chain" : "chain", k, lr);
	int when = c.choose(2);
	vec first = bits(5, s[0] * s[2]);
	if (when) t.write(first);
	t.build();
	if (!when) t.write(first);
	for (int i = 0; i < steps; i++)
	{
		int op = c.choose(4);
		if (op == 0) { c.step("train"); t.step(c, true); }
		else if (op == 1) { vec d = c.flip() ? bits(11 + 6 * i, s[0] * s[2]) : data(s[0] * s[2], i); for (double& x : d) x = std::fabs(x); t.write(d); c.step("write %s", mc::vstr(d).c_str()); if (t.m.get_variables()[0]->good_status()) t.monitor(c); }
		else if (op == 2) { t.set(moderate(s[0], s[1], 3 + i)); c.step("write parameters"); t.monitor(c); }
		else { if (!pcd) c.prune(); t.ph = bits(i + 1, s[1] * s[2]); ref::write(t.pers.get(), t.ph); c.step("write the chain"); }
		c.check(near(values(t.m.get_variables()), t.r.p), "parameters changed by themselves");
		if (pcd) c.check(expose<double>(t.pers.get()) == t.ph, "the chain changed by itself");
	}
	t.step(c, true);
}

// fair units: over many seeds every state is taken
static void coverage (mc::Ctx& c)
{
	bool pcd = c.flip();
	size_t k = 1 + c.choose(3);
	std::set<unsigned> seen, seenh;
	params zero = {vec(4, 0), vec(2, 0), vec(2, 0)};
	for (int seed = 1; seed <= 120; seed++)
	{
		nnutils::seed_generator(seed * 7919);
		Trainer t(2, 2, 1, k, 0.5, pcd);
		t.set(zero); t.write({1, 0}); t.build();
		t.step(c, false);
		seen.insert(t.last);
		if (pcd) seenh.insert(mask(t.ph.data(), 2));
	}
	c.step("%s of %zu rounds", pcd ? "persistent chain" : "chain", k);
	c.check(seen.size() == 4, "only %zu of 4 equally likely visible states were taken", seen.size());
	if (pcd) c.check(seenh.size() == 4, "only %zu of 4 equally likely hidden states were taken", seenh.size());
}

// ---- copies -----------------------------------------------------------------
struct Slot { rbm* m = nullptr; Rbm r; bool empty = false; };
struct Out { V up, down; int of; };
static void copies (mc::Ctx& c, int depth)
{
	size_t I = 2, H = 3;
	placeholder<double> in(shp{I, 2}, "in"), hid(shp{H, 2}, "hid");
	vec x = {1, 0, 0.5, -1}, h = {0, 1, 1, 0.25, 1, -1};
	in = x; hid = h;
	Slot s[2];
	std::vector<Out> outs;
	int serial = 0;
	auto make = [&](int i)
	{
		s[i] = Slot(); s[i].r.I = I; s[i].r.H = H;
		s[i].m = new rbm(I, H, mc::fmt("m%d", ++serial));
		s[i].r.p = moderate(I, H, serial); put(s[i].m->get_variables(), s[i].r.p);
	};
	auto drop = [&](int i) { for (Out& o : outs) if (o.of == i) o.of = -1; };
	auto follow = [&](int a, int b) { for (Out& o : outs) if (o.of == a) o.of = b; };
	make(0);
	for (int d = 0; d < depth; d++)
	{
		int op = c.choose(9), a = c.choose(2), b = 1 - a;
		Slot &f = s[a], &g = s[b];
		if (op == 0 ? f.m != nullptr : op == 5 ? !f.m : !f.m || f.empty) c.prune();
		switch (op)
		{
		case 0: c.step("create %d", a); make(a); break;
		case 1: if (g.m) c.prune(); c.step("clone %d", a); g = f; g.m = f.m->clone(c.flip() ? "named" : ""); break;
		case 2: if (g.m) c.prune(); c.step("move %d", a); g = f; g.m = f.m->move(); f.empty = true; follow(a, b); break;
		case 3: if (!g.m) c.prune(); c.step("%d = %d", b, a); drop(b); { rbm* m = g.m; *m = *f.m; g = f; g.m = m; } break;
		case 4: if (!g.m) c.prune(); c.step("%d = moved %d", b, a); drop(b); { rbm* m = g.m; *m = std::move(*f.m); g = f; g.m = m; } f.empty = true; follow(a, b); break;
		case 5: c.step("delete %d", a); drop(a); delete f.m; f = Slot(); break;
		case 6: if (outs.size() > 1) c.prune(); c.step("connect %d", a); outs.push_back({f.m->prop_up(&in), f.m->prop_down(&hid), a}); break;
		case 7:
			if (c.flip()) { c.step("write %d", a); f.r.p = moderate(I, H, 40 + d); put(f.m->get_variables(), f.r.p); }
			else { c.step("%d = itself", a); if (c.flip()) *f.m = *f.m; else *f.m = std::move(*f.m); }
			break;
		default:
		{
			if (!c.thorough() && d < depth - 1) c.prune(); // in quick runs only as the last step
			c.step("train %d", a);
			rocnnet::update_cost_t t = f.m->train(&in, nullptr, 0.5, 1);
			t.first(true);
			c.check(!near(values(f.m->get_variables()), f.r.p), "training changed nothing");
			f.r.p = values(f.m->get_variables());
		}
		}
		std::string st;
		for (int i = 0; i < 2; i++)
		{
			st += mc::fmt("%d%d ", s[i].m != nullptr, s[i].empty);
			if (!s[i].m || s[i].empty) continue;
			c.check(s[i].m->get_ninput() == I && s[i].m->get_noutput() == H, "the sizes of %d are %zu and %zu", i, s[i].m->get_ninput(), s[i].m->get_noutput());
			std::vector<variable<double>*> vs = s[i].m->get_variables();
			compare(c, values(vs), s[i].r.p, "a machine");
			if (s[1-i].m && !s[1-i].empty) for (auto v : vs) for (auto w : s[1-i].m->get_variables()) c.check(v != w, "two machines share a variable");
		}
		for (Out& o : outs)
		{
			st += mc::fmt("o%d", o.of);
			if (o.of < 0) { c.check(!o.up.get() && !o.down.get(), "the output of a deleted machine is still there"); continue; }
			c.check(o.up.get() && o.down.get(), "the output of a living machine is gone");
			same(c, expose<double>(o.up), s[o.of].r.up(x), "an output");
			same(c, expose<double>(o.down), s[o.of].r.down(h), "an output");
		}
		c.state(st);
	}
	for (int i = 0; i < 2; i++) delete s[i].m;
	for (Out& o : outs) c.check(!o.up.get() && !o.down.get(), "the output of a deleted machine is still there");
}

int main (int argc, char** argv)
{
	std::vector<mc::Scenario> s = {
		{"propagation", propagation, 3},
		{"reconstruction", reconstruction, 3},
		{"chains", chains, 3},
		{"training", [](mc::Ctx& c) { training(c, c.thorough() ? 3 : 2); }, 4},
		{"coverage", coverage, 2},
		{"copies", [](mc::Ctx& c) { copies(c, c.thorough() ? 5 : 4); }, 2},
	};
	return mc::run(argc, argv, s);
}
