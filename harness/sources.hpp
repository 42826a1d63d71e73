// sources.hpp - leaves and connectors of every kind that carry known values
#pragma once
#include "mc.hpp"
#include <memory>
#include "graph/leaf/variable.hpp"
#include "graph/operations/operations.hpp"
#include "graph/varptr.hpp"

namespace src
{
using namespace nnet;
typedef std::vector<double> vec;
typedef std::vector<size_t> shp;

enum Kind { CONST, PLACE, VAR, CONN, LATE, NKIND };
static const char* const KNAME[] = {"constant", "placeholder", "variable", "connector", "late placeholder"};

inline size_t numel (const shp& s) { size_t n = 1; for (size_t d : s) n *= d; return n; }
inline std::string sstr (const shp& s) { return mc::vstr(s); }

// a node with a known value; rewritable unless constant
struct Source
{
	Kind k; shp s; vec v;
	std::unique_ptr<placeholder<double> > p;
	std::unique_ptr<variable<double> > var;
	varptr<double> node; // reset to null when the node dies
	Source (Kind k, const shp& s, const vec& v, const char* name = "x") : k(k), s(s)
	{
		this->v = v;
		switch (k)
		{
		case CONST: node = constant<double>::get(v, tensorshape(s)); break;
		case PLACE: p.reset(new placeholder<double>(s, name)); *p = v; node = p.get(); break;
		case VAR:
			var.reset(new variable<double>(s, const_init<double>(0.0), name));
			var->initialize();
			{ vec d = v; assign(d); }
			node = var.get(); break;
		case CONN:
			p.reset(new placeholder<double>(s, name));
			write(v);
			node = varptr<double>(p.get()) + 0.25; break;
		case LATE: p.reset(new placeholder<double>(s, name)); node = p.get(); break;
		default: break;
		}
	}
	Source (const Source&) = delete;
	void assign (vec& d)
	{
		// a variable takes a whole tensor through the assignment of a constant
		constant<double>* c = constant<double>::get(d, tensorshape(s));
		variable_updater<double> up = var->assign(varptr<double>(c));
		up(true); // without an audience the constant has released itself by now
	}
	void supply (void) { if (k == LATE && p) { *p = v; } }
	void write (const vec& nv)
	{
		v = nv;
		if (k == PLACE || k == LATE) *p = nv;
		else if (k == CONN) { vec d = nv; for (double& x : d) x -= 0.25; *p = d; }
		else if (k == VAR) { vec d = nv; assign(d); }
	}
	bool writable (void) const { return k != CONST; }
	~Source (void)
	{
		if (k == CONST && node.get()) delete node.get();
		if (k == CONN) { p.reset(); }
	}
};
}
