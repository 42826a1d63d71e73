// record: what the graph recorder writes. After every history of building, rewiring and
// destroying nodes the csv file is compared with the links of the graph itself.
#include "mc.hpp"
#include <fstream>
#include <sstream>
#include <algorithm>
#include <memory>
#include "graph/leaf/variable.hpp"
#include "graph/operations/operations.hpp"
#include "graph/varptr.hpp"
#include "edgeinfo/csv_record.hpp"
using namespace nnet;
using rocnnet_record::csv_record;
using rocnnet_record::record_status;
typedef inode<double> node_t;

static csv_record* fresh (mc::Ctx& c)
{
	record_status::rec = std::make_unique<csv_record>(c.scratch() + "/r.csv");
	record_status::rec_good = true;
	return static_cast<csv_record*>(record_status::rec.get());
}
struct Line { std::string o, s; size_t idx; bool operator < (const Line& b) const { return std::tie(o, s, idx) < std::tie(b.o, b.s, b.idx); } bool operator == (const Line& b) const { return std::tie(o, s, idx) == std::tie(b.o, b.s, b.idx); } };
static std::string str (const Line& l) { return l.o + " <- " + l.s + mc::fmt(" as argument %zu", l.idx); }
static std::vector<Line> read (mc::Ctx& c, bool whole)
{
	std::ifstream in(c.scratch() + "/r.csv");
	c.check(in.is_open(), "no file was written");
	std::vector<Line> r;
	for (std::string l; std::getline(in, l);)
	{
		if (whole) { r.push_back({l, "", 0}); continue; } // names may hold commas
		size_t b = l.rfind(','), a = b == std::string::npos ? b : l.rfind(',', b - 1);
		c.check(a != std::string::npos, "a line reads %s", l.c_str());
		r.push_back({l.substr(0, a), l.substr(a + 1, b - a - 1), (size_t) atoi(l.c_str() + b + 1)});
	}
	return r;
}
static std::string shape (node_t* n) { std::ostringstream s; for (size_t d : n->get_shape().as_list()) s << d << " "; return s.str().empty() ? "undefined " : s.str(); }
// every node that can be reached, each with a label of its own
struct Graph
{
	std::vector<node_t*> nodes;
	static int serial;
	void walk (node_t* n)
	{
		if (!n || std::find(nodes.begin(), nodes.end(), n) != nodes.end()) return;
		nodes.push_back(n);
		n->set_label(mc::fmt("n%d", ++serial));
		if (iconnector<double>* k = dynamic_cast<iconnector<double>*>(n)) for (node_t* a : k->get_arguments()) walk(a);
	}
};
int Graph::serial = 0;
// which: nullptr or the graph asked for. others: there may be consumers nobody holds
static void verify (mc::Ctx& c, csv_record* rec, Graph& g, const iconnector<double>* which, bool verbose, bool shapes, bool others)
{
	rec->setVerbose(verbose); rec->setDisplayShape(shapes);
	remove((c.scratch() + "/r.csv").c_str());
	rec->to_csv<double>(which);
	std::vector<Line> got = read(c, verbose), want;
	uint64_t h = mc::hstr(verbose ? "v" : "n");
	for (const Line& l : got) h += mc::hstr(l.o + l.s) * (l.idx + 1);
	if (!verbose) c.state(h);
	// numbers tell nodes apart, and nothing else does
	if (!verbose)
	{
		std::map<std::string,std::string> num;
		for (Line& l : got) for (std::string* s : {&l.o, &l.s})
		{
			size_t e = s->find(']');
			c.check((*s)[0] == '[' && e != std::string::npos, "a node is written %s", s->c_str());
			std::string k = s->substr(1, e - 1), rest = s->substr(e + 1);
			auto it = num.insert({k, rest}).first;
			c.check(it->second == rest, "number %s stands for %s and for %s", k.c_str(), it->second.c_str(), rest.c_str());
			*s = rest;
		}
		std::set<std::string> names;
		for (auto& x : num) if (x.second[0] == 'n') c.check(names.insert(x.second).second, "%s has two numbers", x.second.c_str());
	}
	auto name = [&](node_t* n) { return (verbose ? n->get_name() : n->get_label()) + (shapes ? "(" + shape(n) + ")" : ""); };
	std::set<std::string> known;
	for (node_t* n : g.nodes) if (iconnector<double>* k = dynamic_cast<iconnector<double>*>(n))
	{
		known.insert(name(n));
		if (which && !k->is_same_graph(which)) continue;
		std::vector<node_t*> args = k->get_arguments();
		for (size_t i = 0; i < args.size(); i++) if (args[i]) want.push_back(verbose ? Line{name(n) + "," + name(args[i]) + mc::fmt(",%zu", i), "", 0} : Line{name(n), name(args[i]), i});
	}
	std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
	for (const Line& l : want) c.check(std::count(got.begin(), got.end(), l) == std::count(want.begin(), want.end(), l), "%s: written %d times instead of %d", str(l).c_str(), (int) std::count(got.begin(), got.end(), l), (int) std::count(want.begin(), want.end(), l));
	for (const Line& l : got) if (!others || (!verbose && known.count(l.o))) c.check(std::count(want.begin(), want.end(), l), "%s is written, but is not there", str(l).c_str());
}
struct World
{
	std::unique_ptr<variable<double> > v[2];
	std::unique_ptr<placeholder<double> > p;
	std::unique_ptr<variable<float> > f;
	varptr<float> fn;
	struct Hold { varptr<double> p; Hold (node_t* n) : p(n) {} node_t* get (void) const { return p.get(); } };
	std::vector<std::unique_ptr<Hold> > held;
	bool others = false;
};
static node_t* operand (World& w, int i)
{
	if (i < 2) return w.v[i].get();
	if (i == 2) return w.p.get();
	i -= 3;
	return i < (int) w.held.size() ? w.held[i]->get() : nullptr;
}
static void history (mc::Ctx& c, int depth, bool odd, bool few)
{
	csv_record* rec = fresh(c);
	World w;
	Graph::serial = 0;
	for (int i = 0; i < 2; i++) { w.v[i].reset(new variable<double>(std::vector<size_t>{2}, const_init<double>(i + 1), "v")); w.v[i]->initialize(); }
	w.p.reset(new placeholder<double>(std::vector<size_t>{2}, "p"));
	*w.p = std::vector<double>{1, 2};
	if (odd)
	{
		w.f.reset(new variable<float>(std::vector<size_t>{2}, const_init<float>(1.f), "f")); w.f->initialize();
		w.fn = varptr<float>(w.f.get()) + 1.f;
	}
	std::string st;
	for (int d = 0; d < depth; d++)
	{
		int op = c.choose(odd ? 10 : 5), x = -1, y = -1;
		auto arg = [&](int& k) { k = c.choose(3 - few + (int) w.held.size()); if (few && k) k++; node_t* n = operand(w, k); if (!n) c.prune(); return n; };
		auto add = [&](varptr<double> n) { w.held.emplace_back(new World::Hold(n.get())); };
		switch (op)
		{
		case 0: { node_t* a = arg(x); node_t* b = arg(y); c.step("add %d %d", x, y); add(varptr<double>(a) + varptr<double>(b)); break; }
		case 1: { node_t* a = arg(x); c.step("negate %d", x); add(-varptr<double>(a)); break; }
		case 2: { int k = c.choose(3 - few); if (few && k) k++; c.step("delete leaf %d", k); if (!operand(w, k)) c.prune(); if (k < 2) w.v[k].reset(); else w.p.reset(); break; }
		case 3: { if (w.held.empty()) c.prune(); int k = c.choose(w.held.size()); if (!w.held[k]->get()) c.prune(); c.step("let go of node %d", k); w.held.erase(w.held.begin() + k); w.others = true; break; }
		case 4: { if (w.held.empty()) c.prune(); int k = c.choose(w.held.size()); iconnector<double>* n = dynamic_cast<iconnector<double>*>(w.held[k]->get()); if (!n) c.prune(); c.step("delete node %d", k); delete n; break; }
		case 5: { node_t* a = arg(x); c.step("multiply %d by 3", x); add(varptr<double>(a) * 3.0); break; }
		case 6: { if (!w.v[0] || !w.v[1]) c.prune(); c.step("move variable 0"); std::unique_ptr<variable<double> > n(w.v[0]->move()); w.v[0] = std::move(n); break; }
		case 7: { if (!w.v[0] || !w.v[1]) c.prune(); c.step("variable 1 = variable 0"); *w.v[1] = *w.v[0]; break; }
		case 8: { if (w.held.empty() || !w.v[0]) c.prune(); int k = c.choose(w.held.size()); node_t* n = w.held[k]->get(); if (!n) c.prune(); c.step("derive node %d", k); add(n->derive(w.v[0].get())); w.others = true; break; }
		case 9: { if (w.held.empty()) c.prune(); int k = c.choose(w.held.size()); iconnector<double>* n = dynamic_cast<iconnector<double>*>(w.held[k]->get()); if (!n) c.prune(); c.step("clone node %d", k); add(varptr<double>(n->clone())); break; }
		}
		Graph g;
		for (int k = 0; k < 3; k++) g.walk(operand(w, k));
		for (auto& h : w.held) g.walk(h->get());
		verify(c, rec, g, nullptr, false, d & 1, w.others);
		if (d + 1 == depth)
		{
			verify(c, rec, g, nullptr, true, false, w.others);
			for (auto& h : w.held) if (iconnector<double>* n = dynamic_cast<iconnector<double>*>(h->get())) { verify(c, rec, g, n, false, true, w.others); break; }
		}
		st += mc::fmt("%zu.", g.nodes.size());
	}
	c.state(mc::fmt("%d ", odd) + st);
	// nothing is left once everything has gone
	w.held.clear();
	for (auto& v : w.v) v.reset();
	w.p.reset();
	Graph none;
	verify(c, rec, none, nullptr, false, true, false);
}
static void basic (mc::Ctx& c) { history(c, c.thorough() ? 5 : 4, false, true); }
static void wide (mc::Ctx& c) { history(c, c.thorough() ? 4 : 3, false, false); }
static void mixed (mc::Ctx& c) { history(c, c.thorough() ? 4 : 3, true, false); }
int main (int argc, char** argv)
{
	return mc::run(argc, argv, { {"basic", basic, 5}, {"wide", wide, 4}, {"mixed", mixed, 4} });
}
