// graph_world.hpp - a small computation graph built from the real node classes next to
// a reference model: every node knows its formula, and its value is recomputed from the
// current contents of the leaves whenever the two are compared.
#pragma once
#include "mc.hpp"
#include <memory>
#include "graph/leaf/variable.hpp"
#include "graph/operations/operations.hpp"
#include "graph/varptr.hpp"

namespace gw
{
using namespace nnet;
typedef std::vector<double> vec;

enum Kind { LEAF, CONST, NEG, SQ, ADD, SUB, MUL, SIN, SADD, SMUL, CUST };
// CUST: a node built directly from immutable (nothing evaluates its arguments first): 3a+7b

struct Expr
{
	Kind k; int a = -1, b = -1; double s = 0; vec cv;
};

struct Dual { vec v; std::vector<vec> d; bool init = true; };

struct LeafM
{
	bool init = false; vec v; double init_value = 0; bool dirty = false; bool alive = true; std::string name;
};

// value and derivatives of every expression
inline Dual evalx (const std::vector<Expr>& ex, const std::vector<LeafM>& leaves, int i)
{
	const Expr& e = ex[i];
	size_t nl = leaves.size();
	Dual r;
	r.d.assign(nl, vec(2, 0));
	if (e.k == LEAF)
	{
		r.init = leaves[e.a].init; r.v = leaves[e.a].v; r.v.resize(2, 0);
		r.d[e.a] = vec(2, 1);
		return r;
	}
	if (e.k == CONST) { r.v = e.cv; return r; }
	Dual x = evalx(ex, leaves, e.a), y;
	r.init = x.init;
	if (e.b >= 0) { y = evalx(ex, leaves, e.b); r.init = r.init && y.init; }
	r.v.assign(2, 0);
	if (e.k == SUB && e.a == e.b) { r.init = true; return r; } // known to be zero whatever the operand
	for (int q = 0; q < 2; q++)
	{
		double xv = x.v[q], yv = e.b >= 0 ? y.v[q] : 0;
		double dx = 0, dy = 0;
		switch (e.k)
		{
		case NEG: r.v[q] = -xv; dx = -1; break;
		case SQ: r.v[q] = xv * xv; dx = 2 * xv; break;
		case SIN: r.v[q] = std::sin(xv); dx = std::cos(xv); break;
		case ADD: r.v[q] = xv + yv; dx = dy = 1; break;
		case SUB: r.v[q] = xv - yv; dx = 1; dy = -1; break;
		case MUL: r.v[q] = xv * yv; dx = yv; dy = xv; break;
		case SADD: r.v[q] = xv + e.s; dx = 1; break;
		case CUST: r.v[q] = 3 * xv + 7 * yv; dx = 3; dy = 7; break;
		case SMUL: r.v[q] = xv * e.s; dx = e.s; break;
		default: break;
		}
		for (size_t l = 0; l < nl; l++) r.d[l][q] = dx * x.d[l][q] + (e.b >= 0 ? dy * y.d[l][q] : 0);
	}
	return r;
}

// x - x is simplified to a constant; what is built on it may be simplified further
inline bool folds (const std::vector<Expr>& ex, int i)
{
	const Expr& e = ex[i];
	if (e.k == LEAF || e.k == CONST) return e.k == CONST;
	if (e.k == SUB && e.a == e.b) return true;
	return (e.a >= 0 && folds(ex, e.a)) || (e.b >= 0 && folds(ex, e.b));
}

inline void reach (const std::vector<Expr>& ex, int i, std::set<int>& leaves)
{
	const Expr& e = ex[i];
	if (e.k == LEAF) { leaves.insert(e.a); return; }
	if (e.a >= 0) reach(ex, e.a, leaves);
	if (e.b >= 0) reach(ex, e.b, leaves);
}

inline bool same (const vec& got, const vec& want)
{
	if (got.size() == 1) // a scalar stands for every element
	{
		for (double w : want) if (!mc::close(got[0], w)) return false;
		return true;
	}
	if (got.size() != want.size()) return false;
	for (size_t i = 0; i < got.size(); i++) if (!mc::close(got[i], want[i])) return false;
	return true;
}

inline inode<double>* custom (inode<double>* x, inode<double>* y)
{
	return immutable<double>::get({x, y}, [](std::vector<tensorshape> s) -> tensorshape { return s[s[0].n_elems() < s[1].n_elems()]; },
		new transfer_func<double>([](double* dest, std::vector<const double*> srcs, shape_io shapes)
		{
			for (size_t i = 0, n = shapes.outs_.n_elems(); i < n; i++) dest[i] = 3 * srcs[0][i * (shapes.ins_[0].n_elems() > 1)] + 7 * srcs[1][i * (shapes.ins_[1].n_elems() > 1)];
		}),
		[](std::vector<std::pair<inode<double>*, inode<double>*> > args)
		{
			varptr<double> a = args[0].second, b = args[1].second;
			return varptr<double>(a * 3.0 + b * 7.0).get();
		}, "cust");
}

inline varptr<double> apply (const Expr& e, varptr<double> x, varptr<double> y)
{
	switch (e.k)
	{
	case NEG: return -x;
	case SQ: return x * x;
	case SIN: return nnet::sin(x);
	case ADD: return x + y;
	case SUB: return x - y;
	case MUL: return x * y;
	case SADD: return x + e.s;
	case SMUL: return x * e.s;
	case CUST: return custom(x, y);
	default: return nullptr;
	}
}

inline std::string exname (const std::vector<Expr>& ex, const std::vector<LeafM>& l, int i)
{
	const Expr& e = ex[i];
	if (e.k == LEAF) return l[e.a].name;
	if (e.k == CONST) return "const" + mc::vstr(e.cv);
	std::string x = exname(ex, l, e.a), y = e.b >= 0 ? exname(ex, l, e.b) : "";
	switch (e.k)
	{
	case NEG: return "-" + x;
	case SQ: return x + "*" + x;
	case SIN: return "sin(" + x + ")";
	case ADD: return "(" + x + "+" + y + ")";
	case SUB: return "(" + x + "-" + y + ")";
	case MUL: return "(" + x + "*" + y + ")";
	case CUST: return "cust(" + x + "," + y + ")";
	case SADD: return "(" + x + mc::fmt("+%g)", e.s);
	case SMUL: return "(" + x + mc::fmt("*%g)", e.s);
	default: return "?";
	}
}

// two expressions that compute the same function (checked on fixed, generic leaf values)
inline bool same_function (const std::vector<Expr>& ex, std::vector<LeafM> leaves, int a, int b)
{
	for (int t = 0; t < 2; t++)
	{
		for (size_t l = 0; l < leaves.size(); l++) { leaves[l].init = true; leaves[l].v = {0.37 + 1.71 * l + t * 0.93, -1.13 + 0.59 * l - t * 0.31}; }
		Dual x = evalx(ex, leaves, a), y = evalx(ex, leaves, b);
		if (!same(x.v, y.v)) return false;
	}
	return true;
}

struct Node { int ex; varptr<double> p; bool constant = false; };
}
