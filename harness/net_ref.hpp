// net_ref.hpp - a reference multilayer perceptron: plain loops, gradients by back propagation
#pragma once
#include "sources.hpp"
#include "compounds/mlp.hpp"

namespace ref
{
using namespace src;
typedef std::vector<vec> params; // weight, bias, weight, bias, ...

struct Act { const char* name; rocnnet::VAR_FUNC f; double (*v) (double); double (*d) (double); };
inline double sig (double x) { return 1 / (1 + std::exp(-x)); }
inline double dsig (double x) { return sig(x) * (1 - sig(x)); }
inline double dtanh (double x) { return 1 - std::tanh(x) * std::tanh(x); }
inline double id (double x) { return x; }
inline double one (double) { return 1; }
inline const std::vector<Act>& acts (void)
{
	static const std::vector<Act> A = {
		{"sigmoid", [](inode<double>* x) { return nnet::sigmoid<double>(varptr<double>(x)); }, sig, dsig},
		{"identity", [](inode<double>* x) { return nnet::identity<double>(varptr<double>(x)); }, id, one},
		{"tanh", [](inode<double>* x) { return nnet::tanh<double>(varptr<double>(x)); }, [](double x) { return std::tanh(x); }, dtanh},
		{"none", [](inode<double>* x) { return varptr<double>(x); }, id, one},
	};
	return A;
}

struct Net
{
	std::vector<size_t> n; // widths, input first
	std::vector<int> act;
	Net (void) {}
	Net (std::vector<size_t> n, std::vector<int> act) : n(n), act(act) {}
	size_t layers (void) const { return act.size(); }
	rocnnet::mlp* make (const std::string& scope) const
	{
		std::vector<rocnnet::IN_PAIR> h;
		for (size_t l = 0; l < layers(); l++) h.push_back({n[l+1], acts()[act[l]].f});
		return new rocnnet::mlp(n[0], h, scope);
	}
	// columns of x are samples
	vec forward (const params& p, const vec& x, std::vector<vec>* pre = nullptr, std::vector<vec>* post = nullptr) const
	{
		vec a = x;
		size_t B = x.size() / n[0];
		if (post) post->push_back(a);
		for (size_t l = 0; l < layers(); l++)
		{
			size_t I = n[l], O = n[l+1];
			vec z(O * B);
			for (size_t b = 0; b < B; b++) for (size_t o = 0; o < O; o++)
			{
				double s = p[2*l+1][o];
				for (size_t i = 0; i < I; i++) s += p[2*l][o + i*O] * a[i + b*I];
				z[o + b*O] = s;
			}
			if (pre) pre->push_back(z);
			for (double& v : z) v = acts()[act[l]].v(v);
			a = z;
			if (post) post->push_back(a);
		}
		return a;
	}
	// gradient of sum(g * output) by the parameters
	params backward (const params& p, const vec& x, const vec& gout) const
	{
		std::vector<vec> pre, post;
		forward(p, x, &pre, &post);
		size_t B = x.size() / n[0];
		params g(p.size());
		vec d = gout;
		for (size_t l = layers(); l-- > 0; )
		{
			size_t I = n[l], O = n[l+1];
			for (size_t k = 0; k < d.size(); k++) d[k] *= acts()[act[l]].d(pre[l][k]);
			g[2*l].assign(I * O, 0); g[2*l+1].assign(O, 0);
			vec e(I * B, 0);
			for (size_t b = 0; b < B; b++) for (size_t o = 0; o < O; o++)
			{
				g[2*l+1][o] += d[o + b*O];
				for (size_t i = 0; i < I; i++)
				{
					g[2*l][o + i*O] += d[o + b*O] * post[l][i + b*I];
					e[i + b*I] += d[o + b*O] * p[2*l][o + i*O];
				}
			}
			d = e;
		}
		return g;
	}
};

// the optimizers, by their published formulas
struct Opt
{
	bool rms = false; double lr = 0.5, disc = 0.99;
	params mom;
	void step (params& p, const params& g)
	{
		if (rms && mom.empty()) for (auto& x : p) mom.push_back(vec(x.size(), 1));
		for (size_t i = 0; i < p.size(); i++) for (size_t k = 0; k < p[i].size(); k++)
		{
			if (!rms) { p[i][k] -= lr * g[i][k]; continue; }
			// the code keeps the momentum of the gradient and divides by its root
			mom[i][k] = disc * mom[i][k] + (1 - disc) * g[i][k] * g[i][k];
			p[i][k] -= lr * g[i][k] / (std::sqrt(mom[i][k]) + std::numeric_limits<double>::epsilon());
		}
	}
};

inline params values (const std::vector<variable<double>*>& vs)
{
	params r;
	for (auto v : vs) { const tensor<double>* t = v->eval(); r.push_back(t && t->is_alloc() ? t->expose() : vec()); }
	return r;
}
inline void write (variable<double>* v, vec d)
{
	if (!v->good_status()) v->initialize();
	variable_updater<double> up = v->assign(varptr<double>(constant<double>::get(d, v->get_shape())));
	up(true);
}
inline void fill (const std::vector<variable<double>*>& vs, int seed)
{
	int k = 0;
	for (auto v : vs)
	{
		size_t n = numel(v->get_shape().as_list());
		vec d(n);
		for (double& x : d) { x = 0.9 * std::sin(1.7 * seed + 0.83 * ++k) + (seed % 3) * 0.1; }
		write(v, d);
	}
}
inline void compare (mc::Ctx& c, const params& got, const params& want, const char* what, double tol = 1e-7)
{
	c.check(got.size() == want.size(), "%s: %zu variables instead of %zu", what, got.size(), want.size());
	for (size_t i = 0; i < want.size(); i++)
	{
		c.check(got[i].size() == want[i].size(), "%s: variable %zu has %zu elements", what, i, got[i].size());
		for (size_t k = 0; k < want[i].size(); k++)
			c.check(mc::close(got[i][k], want[i][k], tol, tol), "%s: variable %zu is %s instead of %s", what, i, mc::vstr(got[i]).c_str(), mc::vstr(want[i]).c_str());
	}
}
inline vec data (size_t n, int seed)
{
	vec v(n);
	for (size_t i = 0; i < n; i++) v[i] = std::cos(2.1 * seed + 1.3 * i);
	return v;
}
}
