// boltz_ref.hpp - reference for restricted Boltzmann machines and deep belief networks: plain loops,
// and the set of all states the sampling chains can reach
#pragma once
#include "net_ref.hpp"
#include "models/db_net.hpp"

namespace boltz
{
using namespace ref;
typedef varptr<double> V;

// columns of x are samples; the parameters are weight [hidden + H * visible], hidden bias, visible bias
struct Rbm
{
	size_t I = 0, H = 0;
	params p; // weight, hidden bias, visible bias
	double up_net (const double* x, size_t o) const { double s = p[1][o]; for (size_t i = 0; i < I; i++) s += p[0][o + i*H] * x[i]; return s; }
	double down_net (const double* h, size_t i) const { double s = p[2][i]; for (size_t o = 0; o < H; o++) s += p[0][o + i*H] * h[o]; return s; }
	vec up (const vec& x) const
	{
		vec r; for (size_t b = 0; b < x.size() / I; b++) for (size_t o = 0; o < H; o++) r.push_back(sig(up_net(&x[b*I], o)));
		return r;
	}
	vec down (const vec& h) const
	{
		vec r; for (size_t b = 0; b < h.size() / H; b++) for (size_t i = 0; i < I; i++) r.push_back(sig(down_net(&h[b*H], i)));
		return r;
	}
	double energy (const double* x) const
	{
		double s = 0;
		for (size_t i = 0; i < I; i++) s -= p[2][i] * x[i];
		for (size_t o = 0; o < H; o++) { double w = up_net(x, o); s -= w > 30 ? w : std::log(1 + std::exp(w)); }
		return s;
	}
	// parameters after one step from data x, with v at the end of the chain
	params step (const vec& x, const vec& v, double lr) const
	{
		params q = p;
		size_t B = x.size() / I;
		vec hx = up(x), hv = up(v);
		for (size_t b = 0; b < B; b++)
		{
			for (size_t o = 0; o < H; o++)
			{
				q[1][o] -= lr / B * (hv[o + b*H] - hx[o + b*H]);
				for (size_t i = 0; i < I; i++) q[0][o + i*H] -= lr / B * (hv[o + b*H] * v[i + b*I] - hx[o + b*H] * x[i + b*I]);
			}
			for (size_t i = 0; i < I; i++) q[2][i] -= lr / B * (v[i + b*I] - x[i + b*I]);
		}
		return q;
	}
	// mean log likelihood of data by the distribution of its reconstruction
	double reconstruction (const vec& x, const vec& dist) const
	{
		double s = 0; size_t B = x.size() / I;
		for (size_t k = 0; k < x.size(); k++) s += x[k] * std::log(dist[k]) + (1 - x[k]) * std::log(1 - dist[k]);
		return s / B;
	}
	double pseudo (const vec& x) const
	{
		double s = 0; size_t B = x.size() / I;
		for (size_t b = 0; b < B; b++)
		{
			vec a, f;
			for (size_t i = 0; i < I; i++) a.push_back(std::round(x[i + b*I]));
			f = a; f[0] = 1 - f[0];
			s += I * std::log(sig(energy(f.data()) - energy(a.data())));
		}
		return s / B;
	}
};

inline vec bits (unsigned m, size_t n) { vec v; for (size_t i = 0; i < n; i++) v.push_back(m >> i & 1); return v; }
inline unsigned mask (const double* v, size_t n) { unsigned m = 0; for (size_t i = 0; i < n; i++) if (v[i] > 0.5) m |= 1u << i; return m; }

// all samples of units with these net inputs: beyond +-30 a unit is certain
template <class F> std::set<unsigned> samples (size_t n, F net)
{
	std::set<unsigned> r = {0};
	for (size_t i = 0; i < n; i++)
	{
		double w = net(i);
		std::set<unsigned> s;
		for (unsigned m : r) { if (w < 30) s.insert(m); if (w > -30) s.insert(m | 1u << i); }
		r = s;
	}
	return r;
}
inline std::set<unsigned> hiddens (const Rbm& r, const vec& x) { return samples(r.H, [&](size_t o) { return r.up_net(x.data(), o); }); }
inline std::set<unsigned> visibles (const Rbm& r, unsigned h) { vec v = bits(h, r.H); return samples(r.I, [&](size_t i) { return r.down_net(v.data(), i); }); }

struct End { unsigned h0, v, h; bool operator < (const End& e) const { return std::tie(h0, v, h) < std::tie(e.h0, e.v, e.h); } };
// the chain's end after k rounds: h0 led to v (the last visible sample), v led to h
inline std::set<End> chain (const Rbm& r, std::set<unsigned> start, size_t k)
{
	std::set<End> ends;
	for (; k > 0; k--)
	{
		ends.clear();
		std::set<unsigned> next;
		for (unsigned h0 : start) for (unsigned v : visibles(r, h0)) for (unsigned h : hiddens(r, bits(v, r.I))) { ends.insert({h0, v, h}); next.insert(h); }
		start = next;
	}
	return ends;
}
// every choice of one element per column
template <class T> std::vector<std::vector<T> > product (const std::vector<std::set<T> >& cols)
{
	std::vector<std::vector<T> > r = {{}};
	for (auto& s : cols)
	{
		std::vector<std::vector<T> > n;
		for (auto& p : r) for (const T& t : s) { n.push_back(p); n.back().push_back(t); }
		r = n;
	}
	return r;
}
inline vec columns (const std::vector<unsigned>& c, size_t n) { vec r; for (unsigned m : c) { vec b = bits(m, n); r.insert(r.end(), b.begin(), b.end()); } return r; }
inline bool near (const vec& a, const vec& b, double tol = 1e-7)
{
	if (a.size() != b.size()) return false;
	for (size_t i = 0; i < a.size(); i++) if (!mc::close(a[i], b[i], tol, tol)) return false;
	return true;
}
inline bool near (const params& a, const params& b, double tol = 1e-7)
{
	if (a.size() != b.size()) return false;
	for (size_t i = 0; i < a.size(); i++) if (!near(a[i], b[i], tol)) return false;
	return true;
}
inline std::string show (const params& p) { std::string s; for (auto& v : p) s += mc::vstr(v) + " "; return s; }
inline void put (const std::vector<variable<double>*>& vs, const params& p) { for (size_t i = 0; i < vs.size(); i++) write(vs[i], p[i]); }
inline params moderate (size_t I, size_t H, int seed)
{
	params p;
	for (size_t n : {I * H, H, I}) { vec v; for (size_t k = 0; k < n; k++) v.push_back(0.9 * std::sin(1.7 * seed + 0.83 * k + 2.9 * p.size())); p.push_back(v); }
	return p;
}
}
