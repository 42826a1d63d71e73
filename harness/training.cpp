// training: one training step moves every variable along its own gradient at the values before
// the step. Networks, batches, optimizers, processed gradients, ignored variables and
// histories of steps are enumerated and compared with a reference network.
#include "net_ref.hpp"
#include "models/gd_net.hpp"
using namespace ref;
typedef varptr<double> V;

static gd_updater* updater (int u, Opt& o)
{
	static const double LR[] = {0.2, 0.1, 0.25, 0.05};
	o = Opt();
	o.lr = LR[u % 4];
	if (u < 4) return new vgb_updater(o.lr);
	o.rms = true; o.disc = u < 6 ? 0.9 : 0.5;
	return new rmspropupdater(o.lr, o.disc);
}
static const std::vector<std::vector<size_t> > WIDTHS = { {1,1}, {2,1}, {1,2}, {2,2}, {3,2}, {1,1,1}, {2,1,2}, {2,2,2}, {2,3,1}, {2,2,2,2}, {1,2,3,1} };

static std::vector<int> chooseacts (mc::Ctx& c, size_t layers, bool wide)
{
	std::vector<int> a;
	if (wide && layers < 3) for (size_t l = 0; l < layers; l++) a.push_back(c.choose(4));
	else { int k = c.choose(3); for (size_t l = 0; l < layers; l++) a.push_back((k + l) % 4); }
	return a;
}
// a model trained by histories of steps
static void gdnet (mc::Ctx& c)
{
	const auto& w = c.pick(WIDTHS);
	std::vector<int> a = chooseacts(c, w.size() - 1, c.thorough());
	Net net(w, a);
	size_t B = 1 + c.choose(c.thorough() ? 3 : 2);
	Opt o;
	int u = c.thorough() ? c.choose(8) : c.choose(2) * 4;
	std::unique_ptr<gd_updater> up(updater(u, o));
	std::string what = "network " + mc::vstr(w) + ":";
	for (int x : a) what += std::string(" ") + acts()[x].name;
	c.note("%s, batch %zu, %s, rate %g", what.c_str(), B, o.rms ? "rmsprop" : "gradient descent", o.lr);
	c.state(mc::fmt("%s %zu %d", what.c_str(), B, u));
	rocnnet::mlp* brain = net.make("net");
	rocnnet::gd_net model(brain, *up, "model");
	// the updater may go or change once the model is built
	int after = c.choose(3);
	if (after == 1) up.reset();
	if (after == 2) up->set_learning_rate(77);
	model.initialize();
	fill(brain->get_variables(), 1);
	params p = values(brain->get_variables());
	size_t I = w.front(), O = w.back();
	int depth = c.thorough() ? 4 : 3;
	for (int s = 0; s < depth; s++)
	{
		int op = c.choose(3);
		if (op < 2)
		{
			vec x = data(I * B, 3 + op), y = data(O * B, 11 + op);
			c.step("train on set %d", op);
			model.train(x, y);
			vec out = net.forward(p, x), g(out.size());
			for (size_t k = 0; k < g.size(); k++) g[k] = -2 * (y[k] - out[k]);
			o.step(p, net.backward(p, x, g));
			compare(c, values(brain->get_variables()), p, "after training");
		}
		else { c.step("variables written"); fill(brain->get_variables(), 20 + s); p = values(brain->get_variables()); }
		vec x = data(I * B, 31 + s);
		vec got = model(x), want = net.forward(p, x);
		c.check(got.size() == want.size(), "the output has %zu elements instead of %zu", got.size(), want.size());
		for (size_t k = 0; k < want.size(); k++) c.check(mc::close(got[k], want[k], 1e-7, 1e-7), "the output is %s instead of %s", mc::vstr(got).c_str(), mc::vstr(want).c_str());
		const tensor<double>* e = const_cast<iconnector<double>*>(model.get_error())->eval();
		if (op < 2)
		{
			vec x2 = data(I * B, 3 + op), y2 = data(O * B, 11 + op), out = net.forward(p, x2);
			vec err = e->expose();
			c.check(err.size() == out.size(), "the error has %zu elements", err.size());
			for (size_t k = 0; k < out.size(); k++) c.check(mc::close(err[k], (y2[k] - out[k]) * (y2[k] - out[k]), 1e-7, 1e-7), "the error after training is %s", mc::vstr(err).c_str());
		}
	}
}
// updaters used directly: processed gradients, ignored variables, changed rates, copies
static void updaters (mc::Ctx& c)
{
	Net net = c.flip() ? Net({2, 2, 1}, {0, 1}) : Net({2, 2}, {0});
	Opt o;
	int u = c.choose(2) * 4 + c.choose(2);
	std::unique_ptr<gd_updater> up(updater(u, o));
	std::unique_ptr<rocnnet::mlp> brain(net.make("net"));
	std::vector<variable<double>*> vs = brain->get_variables();
	fill(vs, 2);
	placeholder<double> in(shp{2, 2}, "in"), expd(shp{net.n.back(), 2}, "exp");
	in = data(4, 5); expd = data(net.n.back() * 2, 6);
	V out = brain->prop_up(&in);
	V diff = V(&expd) - out;
	V error = diff * diff;
	// 0: as is, 1: doubled, 2: norm clipped, 3: replaced by a constant, 4: plus the variable
	int proc = c.choose(5);
	int ign = c.choose(4); // 0 none, 1 a variable, 2 the first layer, 3 all then cleared
	int rate = c.choose(3); // 1 before copying, 2 after calculating
	int how = c.choose(4); // 0 the updater, 1 a clone, 2 a moved one, 3 an assigned one
	c.note("%s, gradient processing %d, ignoring %d, rate change %d, copy %d", o.rms ? "rmsprop" : "gradient descent", proc, ign, rate, how);
	c.state(mc::fmt("up %zu %d %d %d %d %d", net.n.size(), u, proc, ign, rate, how));
	std::vector<bool> ignored(vs.size(), false);
	if (ign == 1) { up->ignore_subtree(vs[1]); ignored[1] = true; }
	if (ign == 2) { V first = matmul(V(&in), V(vs[0])); V f2 = add_axial_b(first, V(vs[1]), 1); up->ignore_subtree(f2); ignored[0] = ignored[1] = true; }
	if (ign == 3) { up->ignore_subtree(error); up->clear_ignore(); }
	if (rate == 1) { up->set_learning_rate(0.25); o.lr = 0.25; }
	if (how == 1) { gd_updater* n = up->clone(); up.reset(n); }
	if (how == 2) { gd_updater* n = up->move(); up.reset(n); }
	if (how == 3)
	{
		if (o.rms) { std::unique_ptr<rmspropupdater> n(new rmspropupdater(9, 0.1)); *n = static_cast<rmspropupdater&>(*up); up = std::move(n); }
		else { std::unique_ptr<vgb_updater> n(new vgb_updater(9)); *n = static_cast<vgb_updater&>(*up); up = std::move(n); }
	}
	grad_process pr[] = {
		[](V g, variable<double>*) { return g; },
		[](V g, variable<double>*) { return 2.0 * g; },
		[](V g, variable<double>*) { return clip_norm(g, 0.25); },
		[](V g, variable<double>*) { return clip_val(g, -0.125, 0.125); },
		[](V g, variable<double>* v) { return g + V(v); } };
	updates_t ups = proc ? up->calculate(error, pr[proc]) : up->calculate(error);
	size_t expect = 0;
	for (bool b : ignored) expect += !b;
	c.check(ups.size() == expect, "%zu updates instead of %zu", ups.size(), expect);
	if (rate == 2) up->set_learning_rate(5);
	params p = values(vs);
	iconnector<double>* err = static_cast<iconnector<double>*>(error.get());
	for (int s = 0; s < 3; s++)
	{
		vec x = data(4, 5 + s), y = data(net.n.back() * 2, 6 + s);
		in = x; expd = y;
		err->freeze_status(true);
		for (auto& f : ups) f(true);
		err->freeze_status(false);
		c.step("step %d", s);
		vec o2 = net.forward(p, x), g(o2.size());
		for (size_t k = 0; k < g.size(); k++) g[k] = -2 * (y[k] - o2[k]);
		params gr = net.backward(p, x, g);
		for (size_t i = 0; i < gr.size(); i++)
		{
			double norm = 0;
			for (double v : gr[i]) norm += v * v;
			norm = std::sqrt(norm);
			for (size_t k = 0; k < gr[i].size(); k++)
			{
				double& v = gr[i][k];
				if (proc == 1) v *= 2;
				if (proc == 2 && norm > 0.25) v *= 0.25 / norm;
				if (proc == 3) v = std::max(-0.125, std::min(0.125, v));
				if (proc == 4) v += p[i][k];
			}
		}
		params before = p;
		o.step(p, gr);
		for (size_t i = 0; i < p.size(); i++) if (ignored[i]) p[i] = before[i];
		compare(c, values(vs), p, "after a step");
	}
}
// losses in which gradients are made of the other variable
static void coupled (mc::Ctx& c)
{
	variable<double> a(shp{2}, const_init<double>(1), "a"), b(shp{2}, const_init<double>(1), "b");
	a.initialize(); b.initialize();
	write(&a, {0.5, -1.25}); write(&b, {2, 0.75});
	placeholder<double> x(shp{2}, "x");
	x = vec{1.5, -0.5};
	int form = c.choose(6);
	bool rms = c.flip();
	Opt o; o.rms = rms; o.lr = 0.125; o.disc = 0.75;
	V A(&a), B(&b), X(&x), loss;
	switch (form)
	{
	case 0: loss = A * B * X; break;
	case 1: loss = (A * B - X) * (A * B - X); break;
	case 2: loss = A * A + B * B * X; break;
	case 3: loss = A * X * 2.0 + B * X; break;
	case 4: loss = (A + B) * (A + B); break;
	case 5: loss = nnet::exp(A) + B * X; break;
	}
	c.note("loss %d, %s", form, rms ? "rmsprop" : "gradient descent");
	c.state(mc::fmt("co %d %d", form, rms));
	std::unique_ptr<gd_updater> up;
	if (rms) up.reset(new rmspropupdater(o.lr, o.disc)); else up.reset(new vgb_updater(o.lr));
	iconnector<double>* l = static_cast<iconnector<double>*>(loss.get());
	// the gradients a*x and b*x of a*b*x are graphs of their own, which freezing the loss does not reach
	c.key(form == 0 ? "loss-abx" : "");
	updates_t ups = up->calculate(loss);
	c.check(ups.size() == 2, "%zu updates", ups.size());
	params p = {{0.5, -1.25}, {2, 0.75}};
	for (int s = 0; s < 3; s++)
	{
		vec xv = {1.5 - s, -0.5 + 2 * s};
		x = xv;
		params g(2, vec(2));
		for (int k = 0; k < 2; k++)
		{
			double av = p[0][k], bv = p[1][k], xx = xv[k], d = av * bv - xx;
			double ga = 0, gb = 0;
			switch (form)
			{
			case 0: ga = bv * xx; gb = av * xx; break;
			case 1: ga = 2 * d * bv; gb = 2 * d * av; break;
			case 2: ga = 2 * av; gb = 2 * bv * xx; break;
			case 3: ga = 2 * xx; gb = xx; break;
			case 4: ga = gb = 2 * (av + bv); break;
			case 5: ga = std::exp(av); gb = xx; break;
			}
			g[0][k] = ga; g[1][k] = gb;
		}
		l->freeze_status(true);
		for (auto& f : ups) f(true);
		l->freeze_status(false);
		c.step("step %d", s);
		o.step(p, g);
		compare(c, {a.eval()->expose(), b.eval()->expose()}, p, "after a step");
	}
}
// an updater without a method says so
static void missing (mc::Ctx& c)
{
	variable<double> a(shp{2}, const_init<double>(1), "a");
	a.initialize();
	V loss = V(&a) * V(&a);
	int k = c.choose(3);
	std::unique_ptr<gd_updater> up;
	if (k == 0) up.reset(new momentum_updater()); else if (k == 1) up.reset(new adadelta_updater()); else up.reset(new adagradupdater());
	c.note("unimplemented optimizer %d", k);
	bool thrown = false;
	try { up->calculate(loss); } catch (std::exception&) { thrown = true; }
	c.step("asked for updates");
	c.state(mc::fmt("mi %d", k));
	c.check(thrown, "an optimizer without a method returned updates");
	c.check(mc::close(a.eval()->expose()[0], 1), "the variable changed");
}
int main (int argc, char** argv)
{
	return mc::run(argc, argv, { {"gdnet", gdnet, 3}, {"updaters", updaters, 3}, {"coupled", coupled, 1}, {"missing", missing, 1} });
}
