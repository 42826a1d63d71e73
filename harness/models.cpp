// models: copying, moving, assigning and deleting layers and models. Every history of
// operations over two slots is explored; each model is compared with its own reference, and
// outputs that were built from a model keep following it (also into the slot it moved to).
#include "net_ref.hpp"
#include "models/gd_net.hpp"
#include "layers/conv_layer.hpp"
using namespace ref;
typedef varptr<double> V;

struct Out { V node; int of; }; // of: slot, -1: its model is gone
static const vec IN = {0.75, -0.5, 0.25, 1.5};

// ---------------------------------------------------------------- fully connected layers
struct Fc { rocnnet::fc_layer* l = nullptr; params p; std::vector<size_t> ins; size_t out = 0; bool empty = false; };
static vec fcforward (const Fc& f, const std::vector<vec>& x)
{
	size_t B = x[0].size() / f.ins[0];
	vec r(f.out * B, 0);
	for (size_t i = 0; i < f.ins.size(); i++) for (size_t b = 0; b < B; b++) for (size_t o = 0; o < f.out; o++)
	{
		double s = f.p[2*i+1][o];
		for (size_t k = 0; k < f.ins[i]; k++) s += f.p[2*i][o + k * f.out] * x[i][k + b * f.ins[i]];
		r[o + b * f.out] += s;
	}
	return r;
}
static void near (mc::Ctx& c, const vec& got, const vec& want, const char* what)
{
	c.check(got.size() == want.size(), "%s has %zu elements instead of %zu", what, got.size(), want.size());
	for (size_t k = 0; k < want.size(); k++) c.check(mc::close(got[k], want[k], 1e-7, 1e-7), "%s is %s instead of %s", what, mc::vstr(got).c_str(), mc::vstr(want).c_str());
}
static void layers (mc::Ctx& c)
{
	static const std::vector<std::vector<size_t> > INS = { {1}, {2}, {2, 1}, {1, 2} };
	const auto& ins = c.pick(INS);
	size_t out = 1 + c.choose(2), B = c.thorough() ? 1 + c.choose(2) : 2;
	c.note("layers %s -> %zu, batch %zu", mc::vstr(ins).c_str(), out, B);
	std::vector<std::unique_ptr<placeholder<double> > > in;
	std::vector<vec> x;
	for (size_t i = 0; i < ins.size(); i++)
	{
		in.emplace_back(new placeholder<double>(shp{ins[i], 0}, "in"));
		x.push_back(data(ins[i] * B, i)); *in[i] = x[i];
	}
	Fc s[2];
	std::vector<Out> outs;
	int serial = 0;
	auto make = [&](int i)
	{
		s[i] = Fc(); s[i].ins = ins; s[i].out = out;
		s[i].l = new rocnnet::fc_layer(ins, out, mc::fmt("layer%d", ++serial));
		fill(s[i].l->get_variables(), serial); s[i].p = values(s[i].l->get_variables());
	};
	auto drop = [&](int i) { for (Out& o : outs) if (o.of == i) o.of = -1; };
	make(0);
	int depth = c.thorough() ? 5 : 4;
	for (int d = 0; d < depth; d++)
	{
		int op = c.choose(8), a = c.choose(2), b = 1 - a;
		Fc &f = s[a], &g = s[b];
		switch (op)
		{
		case 0: if (f.l) c.prune(); c.step("create layer %d", a); make(a); break;
		case 1: if (!f.l || f.empty || g.l) c.prune(); c.step("clone layer %d", a); g = f; g.l = f.l->clone(c.flip() ? "named" : ""); break;
		case 2: if (!f.l || f.empty || g.l) c.prune(); c.step("move layer %d", a); g = f; g.l = f.l->move(); f.empty = true; for (Out& o : outs) if (o.of == a) o.of = b; break;
		case 3: if (!f.l || f.empty || !g.l) c.prune(); c.step("layer %d = layer %d", b, a); drop(b); { rocnnet::fc_layer* l = g.l; *l = *f.l; g = f; g.l = l; } break;
		case 4: if (!f.l || f.empty || !g.l) c.prune(); c.step("layer %d = moved layer %d", b, a); drop(b); { rocnnet::fc_layer* l = g.l; *l = std::move(*f.l); g = f; g.l = l; } f.empty = true; for (Out& o : outs) if (o.of == a) o.of = b; break;
		case 5: if (!f.l) c.prune(); c.step("delete layer %d", a); drop(a); delete f.l; f = Fc(); break;
		case 6: if (!f.l || f.empty || outs.size() > 2) c.prune(); c.step("connect layer %d", a); { std::vector<inode<double>*> v; for (auto& q : in) v.push_back(q.get()); outs.push_back({(*f.l)(v), a}); } break;
		case 7:
			if (!f.l || f.empty) c.prune();
			if (c.flip()) { c.step("write layer %d", a); fill(f.l->get_variables(), 40 + d); f.p = values(f.l->get_variables()); }
			else { c.step("layer %d = itself", a); *f.l = *f.l; }
			break;
		}
		std::string st = "fc";
		for (int i = 0; i < 2; i++)
		{
			st += mc::fmt("%d%d ", s[i].l != nullptr, s[i].empty);
			if (!s[i].l || s[i].empty) continue;
			std::vector<variable<double>*> vs = s[i].l->get_variables();
			c.check(vs.size() == 2 * ins.size(), "layer %d has %zu variables", i, vs.size());
			compare(c, values(vs), s[i].p, "a layer");
			if (s[1-i].l && !s[1-i].empty) for (auto v : vs) for (auto w : s[1-i].l->get_variables()) c.check(v != w, "two layers share a variable");
		}
		for (size_t k = 0; k < outs.size(); k++)
		{
			st += mc::fmt("o%d", outs[k].of);
			if (outs[k].of < 0) { c.check(!outs[k].node.get(), "the output of a deleted layer is still there"); continue; }
			c.check(outs[k].node.get() != nullptr, "the output of a living layer is gone");
			near(c, outs[k].node->eval()->expose(), fcforward(s[outs[k].of], x), "an output");
		}
		c.state(st);
	}
	for (Fc& f : s) if (f.l) delete f.l;
}
// ---------------------------------------------------------------- convolution layers
struct Conv { rocnnet::conv_layer* l = nullptr; params p; bool empty = false; };
static void convolutions (mc::Ctx& c)
{
	static const std::vector<shp> FILTER = {{1, 1}, {2, 1}, {1, 2}, {3, 2}}, INPUT = {{3, 2}, {4, 3}};
	shp f = c.pick(FILTER), in = c.pick(INPUT);
	size_t nin = 1 + c.choose(2), nout = 1 + c.choose(2);
	c.note("convolution %s, %zu -> %zu channels, of %s", mc::vstr(f).c_str(), nin, nout, mc::vstr(in).c_str());
	placeholder<double> x(in, "in");
	auto pixels = [&](int k) { vec v; for (size_t i = 0; i < in[0] * in[1]; i++) v.push_back(0.25 * ((int) (i * (5 + k) % 11) - 4)); return v; };
	vec xv = pixels(0);
	x = xv;
	// the operation filters a single channel: more are refused, not computed
	bool fits = nin * nout == 1;
	Conv s[2];
	std::vector<Out> outs;
	int serial = 0;
	auto make = [&](int i)
	{
		s[i] = Conv();
		s[i].l = new rocnnet::conv_layer({f[0], f[1]}, nin, nout, mc::fmt("conv%d", ++serial));
		fill(s[i].l->get_variables(), serial); s[i].p = values(s[i].l->get_variables());
	};
	auto forward = [&](const params& p)
	{
		vec r;
		for (size_t b = 0; b + f[1] <= in[1]; b++) for (size_t a = 0; a + f[0] <= in[0]; a++)
		{
			double q = p[1][0];
			for (size_t j = 0; j < f[1]; j++) for (size_t i = 0; i < f[0]; i++)
				q += xv[a + i + (b + j) * in[0]] * p[0][(f[0] - 1 - i) + (f[1] - 1 - j) * f[0]];
			r.push_back(q);
		}
		return r;
	};
	auto drop = [&](int i) { for (Out& o : outs) if (o.of == i) o.of = -1; };
	make(0);
	int depth = c.thorough() ? 5 : fits ? 4 : 2;
	for (int d = 0; d < depth; d++)
	{
		int op = c.choose(9), a = c.choose(2), b = 1 - a;
		Conv &f0 = s[a], &g = s[b];
		switch (op)
		{
		case 0: if (f0.l) c.prune(); c.step("create layer %d", a); make(a); break;
		case 1: if (!f0.l || f0.empty || g.l) c.prune(); c.step("clone layer %d", a); g = f0; g.l = f0.l->clone(c.flip() ? "named" : ""); break;
		case 2: if (!f0.l || f0.empty || g.l) c.prune(); c.step("move layer %d", a); g = f0; g.l = f0.l->move(); f0.empty = true; for (Out& o : outs) if (o.of == a) o.of = b; break;
		case 3: if (!f0.l || f0.empty || !g.l) c.prune(); c.step("layer %d = layer %d", b, a); drop(b); { auto l = g.l; *l = *f0.l; g = f0; g.l = l; } break;
		case 4: if (!f0.l || f0.empty || !g.l) c.prune(); c.step("layer %d = moved layer %d", b, a); drop(b); { auto l = g.l; *l = std::move(*f0.l); g = f0; g.l = l; } f0.empty = true; for (Out& o : outs) if (o.of == a) o.of = b; break;
		case 5: if (!f0.l) c.prune(); c.step("delete layer %d", a); drop(a); delete f0.l; f0 = Conv(); break;
		case 6:
			if (!f0.l || f0.empty || outs.size() > 2) c.prune();
			c.step("connect layer %d", a);
			try { V n = (*f0.l)(&x); n->eval(); c.check(fits, "%zu -> %zu channels were not refused", nin, nout); outs.push_back({n, a}); }
			catch (mc::Violation&) { throw; }
			catch (std::exception& e) { c.check(!fits, "refused: %s", e.what()); return; }
			break;
		case 7:
			if (!f0.l || f0.empty) c.prune();
			if (c.flip()) { c.step("write layer %d", a); fill(f0.l->get_variables(), 40 + d); f0.p = values(f0.l->get_variables()); }
			else { c.step("layer %d = itself", a); *f0.l = *f0.l; }
			break;
		case 8: if (outs.empty()) c.prune(); c.step("another input"); xv = pixels(d + 1); x = xv; break;
		}
		std::string st = mc::fmt("cv%zu%zu%zu%zu ", f[0], f[1], nin, nout);
		for (int i = 0; i < 2; i++)
		{
			st += mc::fmt("%d%d ", s[i].l != nullptr, s[i].empty);
			if (!s[i].l || s[i].empty) continue;
			std::vector<variable<double>*> vs = s[i].l->get_variables();
			c.check(vs.size() == 2, "layer %d has %zu variables", i, vs.size());
			compare(c, values(vs), s[i].p, "a layer");
			if (s[1-i].l && !s[1-i].empty) for (auto v : vs) for (auto w : s[1-i].l->get_variables()) c.check(v != w, "two layers share a variable");
		}
		for (size_t k = 0; k < outs.size(); k++)
		{
			st += mc::fmt("o%d", outs[k].of);
			if (outs[k].of < 0) { c.check(!outs[k].node.get(), "the output of a deleted layer is still there"); continue; }
			c.check(outs[k].node.get() != nullptr, "the output of a living layer is gone");
			const tensor<double>* t = outs[k].node->eval();
			near(c, t->expose(), forward(s[outs[k].of].p), "an output");
			c.check(t->get_shape().as_list() == shp({in[0] - f[0] + 1, in[1] - f[1] + 1}), "an output has shape %s", mc::vstr(t->get_shape().as_list()).c_str());
		}
		c.state(st);
	}
	for (Conv& f : s) if (f.l) delete f.l;
}
// ---------------------------------------------------------------- perceptrons
struct Mlp { rocnnet::mlp* m = nullptr; Net net; params p; bool empty = false; };
static void perceptrons (mc::Ctx& c)
{
	static const std::vector<Net> NETS = { Net({2, 1}, {0}), Net({2, 2, 1}, {0, 1}), Net({2, 2, 1}, {2, 3}), Net({2, 3, 2, 1}, {1, 0, 2}) };
	int k1 = c.choose(NETS.size()), k2 = c.thorough() ? c.choose(NETS.size()) : (k1 + 1) % NETS.size();
	placeholder<double> in(shp{2, 0}, "in");
	in = IN;
	Mlp s[2];
	std::vector<Out> outs;
	int serial = 0;
	auto make = [&](int i)
	{
		s[i] = Mlp(); s[i].net = NETS[i ? k2 : k1];
		s[i].m = s[i].net.make(mc::fmt("net%d", ++serial));
		fill(s[i].m->get_variables(), serial); s[i].p = values(s[i].m->get_variables());
	};
	auto drop = [&](int i) { for (Out& o : outs) if (o.of == i) o.of = -1; };
	make(0);
	c.note("perceptrons %s and %s", mc::vstr(NETS[k1].n).c_str(), mc::vstr(NETS[k2].n).c_str());
	int depth = c.thorough() ? 5 : 4;
	for (int d = 0; d < depth; d++)
	{
		int op = c.choose(8), a = c.choose(2), b = 1 - a;
		Mlp &f = s[a], &g = s[b];
		switch (op)
		{
		case 0: if (f.m) c.prune(); c.step("create net %d", a); make(a); break;
		case 1: if (!f.m || f.empty || g.m) c.prune(); c.step("clone net %d", a); g = f; g.m = f.m->clone(d % 2 ? "named" : ""); break;
		case 2: if (!f.m || f.empty || g.m) c.prune(); c.step("move net %d", a); g = f; g.m = f.m->move(); f.empty = true; for (Out& o : outs) if (o.of == a) o.of = b; break;
		case 3: if (!f.m || f.empty || !g.m) c.prune(); c.step("net %d = net %d", b, a); drop(b); { rocnnet::mlp* m = g.m; *m = *f.m; g = f; g.m = m; } break;
		case 4: if (!f.m || f.empty || !g.m) c.prune(); c.step("net %d = moved net %d", b, a); drop(b); { rocnnet::mlp* m = g.m; *m = std::move(*f.m); g = f; g.m = m; } f.empty = true; for (Out& o : outs) if (o.of == a) o.of = b; break;
		case 5: if (!f.m) c.prune(); c.step("delete net %d", a); drop(a); delete f.m; f = Mlp(); break;
		case 6: if (!f.m || f.empty || outs.size() > 2) c.prune(); c.step("connect net %d", a); outs.push_back({f.m->prop_up(&in), a}); break;
		case 7:
			if (!f.m || f.empty) c.prune();
			if (c.flip()) { c.step("write net %d", a); fill(f.m->get_variables(), 40 + d); f.p = values(f.m->get_variables()); }
			else { c.step("net %d = itself", a); *f.m = *f.m; }
			break;
		}
		std::string st = mc::fmt("ml%d%d ", k1, k2);
		for (int i = 0; i < 2; i++)
		{
			st += mc::fmt("%d%d ", s[i].m != nullptr, s[i].empty);
			if (!s[i].m || s[i].empty) continue;
			std::vector<variable<double>*> vs = s[i].m->get_variables();
			c.check(s[i].m->get_ninput() == s[i].net.n.front() && s[i].m->get_noutput() == s[i].net.n.back(), "net %d says %zu -> %zu", i, s[i].m->get_ninput(), s[i].m->get_noutput());
			compare(c, values(vs), s[i].p, "a net");
			if (s[1-i].m && !s[1-i].empty) for (auto v : vs) for (auto w : s[1-i].m->get_variables()) c.check(v != w, "two nets share a variable");
		}
		for (size_t k = 0; k < outs.size(); k++)
		{
			st += mc::fmt("o%d", outs[k].of);
			if (outs[k].of < 0) { c.check(!outs[k].node.get(), "the output of a deleted net is still there"); continue; }
			c.check(outs[k].node.get() != nullptr, "the output of a living net is gone");
			near(c, outs[k].node->eval()->expose(), s[outs[k].of].net.forward(s[outs[k].of].p, IN), "an output");
		}
		c.state(st);
	}
	for (Mlp& f : s) if (f.m) delete f.m;
}
// ---------------------------------------------------------------- trained models
struct Gd { rocnnet::gd_net* m = nullptr; rocnnet::mlp* brain = nullptr; params p; Opt o; bool empty = false; };
static void trained (mc::Ctx& c)
{
	static const std::vector<Net> NETS = { Net({2, 1}, {0}), Net({2, 2, 1}, {2, 1}) };
	const Net& net = c.pick(NETS);
	bool rms = c.flip();
	Opt o; o.rms = rms; o.lr = 0.2; o.disc = 0.9;
	Gd s[2];
	int serial = 0;
	auto make = [&](int i)
	{
		std::unique_ptr<gd_updater> up;
		if (rms) up.reset(new rmspropupdater(o.lr, o.disc)); else up.reset(new vgb_updater(o.lr));
		s[i] = Gd(); s[i].o = o;
		s[i].brain = net.make(mc::fmt("net%d", ++serial));
		s[i].m = new rocnnet::gd_net(s[i].brain, *up, mc::fmt("model%d", serial));
		fill(s[i].brain->get_variables(), serial); s[i].p = values(s[i].brain->get_variables());
	};
	make(0);
	c.note("models %s with %s", mc::vstr(net.n).c_str(), rms ? "rmsprop" : "gradient descent");
	int depth = c.thorough() ? 5 : rms || net.layers() > 1 ? 3 : 4;
	for (int d = 0; d < depth; d++)
	{
		int op = c.choose(9), a = c.choose(2), b = 1 - a;
		Gd &f = s[a], &g = s[b];
		vec x = data(4, 3 + d), y = data(2, 11 + d);
		switch (op)
		{
		case 0: if (f.m) c.prune(); c.step("create model %d", a); make(a); break;
		// running averages are not copied, but a moved model goes on as it was
		case 1: if (!f.m || f.empty || g.m) c.prune(); c.step("copy model %d", a); g = f; g.m = new rocnnet::gd_net(*f.m, "copied"); g.o.mom.clear(); break;
		case 2: if (!f.m || f.empty || g.m) c.prune(); c.step("move model %d", a); g = f; g.m = new rocnnet::gd_net(std::move(*f.m)); f.empty = true; break;
		case 3: if (!f.m || f.empty || !g.m) c.prune(); c.step("model %d = model %d", b, a); { rocnnet::gd_net* m = g.m; *m = *f.m; g = f; g.m = m; g.o.mom.clear(); } break;
		case 4: if (!f.m || f.empty || !g.m) c.prune(); c.step("model %d = moved model %d", b, a); { rocnnet::gd_net* m = g.m; *m = std::move(*f.m); g = f; g.m = m; } f.empty = true; break;
		case 5: if (!f.m) c.prune(); c.step("delete model %d", a); delete f.m; f = Gd(); break;
		case 6:
			if (!f.m || f.empty) c.prune();
			c.step("train model %d", a);
			f.m->train(x, y);
			{
				vec out = net.forward(f.p, x), gr(out.size());
				for (size_t k = 0; k < gr.size(); k++) gr[k] = -2 * (y[k] - out[k]);
				f.o.step(f.p, net.backward(f.p, x, gr));
			}
			break;
		case 7: if (!f.m || f.empty || !serial) c.prune(); c.step("model %d = itself", a); *f.m = *f.m; break;
		case 8: // through a file
		{
			if (!f.m || f.empty || !g.m || g.empty) c.prune();
			c.step("model %d restores what model %d saved", b, a);
			std::string file = c.scratch() + "/g.pbx";
			remove(file.c_str());
			c.check(f.m->save(file, "w"), "saving failed");
			g.m->initialize(file, "w");
			g.p = f.p;
			break;
		}
		}
		std::string st = mc::fmt("gd%zu%d ", net.n.size(), rms);
		for (int i = 0; i < 2; i++)
		{
			st += mc::fmt("%d%d", s[i].m != nullptr, s[i].empty);
			if (!s[i].m || s[i].empty) continue;
			vec x2 = data(4, 50 + d), want = net.forward(s[i].p, x2), got = (*s[i].m)(x2);
			near(c, got, want, mc::fmt("the output of model %d", i).c_str());
		}
		c.state(st + mc::fmt("%d", op));
	}
	for (Gd& f : s) if (f.m) delete f.m;
}
int main (int argc, char** argv)
{
	return mc::run(argc, argv, { {"layers", layers, 4}, {"convolutions", convolutions, 5}, {"perceptrons", perceptrons, 4}, {"trained", trained, 4} });
}
