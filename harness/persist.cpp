// persist: writing leaves to a file and reading them back. Every file state in the bounds
// (histories of saves, every truncation, byte change and crafted entry, every point at which
// the file system stops taking data) is explored and compared with a model of the file.
#include "sources.hpp"
#include "memory/tensor_io.hpp"
#include "compounds/mlp.hpp"
#include <fstream>
#include <sys/resource.h>
#include <sys/stat.h>
#include <signal.h>
#include <unistd.h>
using namespace src;
typedef inode<double> Node;

static std::string slurp (const std::string& f)
{
	std::ifstream in(f, std::ios::binary);
	return std::string(std::istreambuf_iterator<char>(in), std::istreambuf_iterator<char>());
}
static void spit (const std::string& f, const std::string& s) { std::ofstream o(f, std::ios::binary | std::ios::trunc); o << s; }
static bool exists (const std::string& f) { struct stat s; return 0 == stat(f.c_str(), &s); }
static bool same (const vec& a, const vec& b) { return a.size() == b.size() && (a.empty() || 0 == memcmp(a.data(), b.data(), a.size() * sizeof(double))); }

struct Entry { shp s; vec v; };
typedef std::map<std::string, Entry> Model;

// what a file means, decided from the message format alone; false: not a repository
static bool meaning (const std::string& bytes, Model& m)
{
	tenncor::repository r;
	if (!r.ParseFromString(bytes)) return false;
	for (auto& e : r.node_map())
	{
		const tenncor::tensor_proto& p = e.second;
		Entry en;
		// which declared shapes admit the allocated one is what P01 decides
		shp allow(p.allow_shape().begin(), p.allow_shape().end()), alloc(p.alloc_shape().begin(), p.alloc_shape().end());
		bool ok = alloc.size() > 0 && tensorshape(alloc).is_compatible_with(tensorshape(allow));
		size_t n = 1;
		for (int i = 0; ok && i < p.alloc_shape_size(); i++)
		{
			uint64_t d = p.alloc_shape(i);
			ok = d > 0 && d <= (1u << 20);
			if (ok) { n *= d; ok = n <= (1u << 20); }
			en.s.push_back(d);
		}
		if (!ok || p.data().size() != n * sizeof(double)) continue;
		en.v.resize(n);
		memcpy(en.v.data(), p.data().data(), n * sizeof(double));
		m[e.first] = en;
	}
	return true;
}

// a leaf with a consumer
struct Leaf
{
	std::unique_ptr<ivariable<double> > n;
	varptr<double> neg;
	shp s; vec v; bool init = false;
	bool var;
	Leaf (bool var, const shp& shape, const char* name) : var(var)
	{
		if (var) n.reset(new variable<double>(shape, const_init<double>(7), name));
		else n.reset(new placeholder<double>(shape, name));
		watch();
	}
	void watch (void) { neg = -varptr<double>(n.get()); }
	void unwatch (void) { if (neg.get()) { Node* x = neg.get(); neg = varptr<double>(); delete x; } }
	void set (const shp& shape, const vec& val)
	{
		s = shape; v = val; init = true;
		if (var)
		{
			variable<double>* x = static_cast<variable<double>*>(n.get());
			if (!x->good_status()) x->initialize();
			vec d = val;
			variable_updater<double> up = x->assign(varptr<double>(constant<double>::get(d, tensorshape(shape))));
			up(true);
		}
		else *static_cast<placeholder<double>*>(n.get()) = v;
	}
	void load (const Entry& e) { s = e.s; v = e.v; init = true; }
	void verify (mc::Ctx& c, const char* who)
	{
		c.check(n->good_status() == init, "%s is%s initialized", who, init ? " not" : "");
		const tensor<double>* t = n->eval();
		c.check((t != nullptr) == init, "%s has %s value", who, t ? "a" : "no");
		if (!init) return;
		c.check(t->is_alloc() && t->get_shape().as_list() == s, "%s has shape %s instead of %s", who, sstr(t->get_shape().as_list()).c_str(), sstr(s).c_str());
		vec got = t->expose();
		c.check(same(got, v), "%s holds %s instead of %s", who, mc::vstr(got).c_str(), mc::vstr(v).c_str());
		if (!neg.get()) return;
		const tensor<double>* g = neg->eval();
		c.check(g && g->is_alloc(), "the consumer of %s has no value", who);
		vec gv = g->expose();
		c.check(g->get_shape().as_list() == s && gv.size() == v.size(), "the consumer of %s has shape %s", who, sstr(g->get_shape().as_list()).c_str());
		for (size_t i = 0; i < gv.size(); i++) c.check(mc::close(gv[i], -v[i]), "the consumer of %s sees %g at %zu instead of %g", who, gv[i], i, -v[i]);
	}
};
typedef std::vector<std::unique_ptr<Leaf> > Leaves;
static std::vector<Node*> ptrs (Leaves& l) { std::vector<Node*> r; for (auto& x : l) r.push_back(x->n.get()); return r; }

// save through the code and in the model
static void save (mc::Ctx& c, Leaves& l, const std::string& label, const std::string& f, Model& m)
{
	std::vector<Node*> p = ptrs(l);
	c.check(write_inorder<double>(p, label, f), "saving %s failed", label.c_str());
	c.check(p == ptrs(l), "saving changed the list of nodes");
	for (size_t i = 0; i < l.size(); i++) if (l[i]->init) m[label + ":" + std::to_string(i)] = {l[i]->s, l[i]->v};
	Model now;
	c.check(meaning(slurp(f), now), "the saved file is not readable");
	c.check(now.size() == m.size(), "the file holds %zu entries instead of %zu", now.size(), m.size());
	for (auto& e : m)
	{
		auto it = now.find(e.first);
		c.check(it != now.end() && it->second.s == e.second.s && same(it->second.v, e.second.v), "the file's entry %s is %s instead of %s", e.first.c_str(),
			it == now.end() ? "missing" : mc::vstr(it->second.v).c_str(), mc::vstr(e.second.v).c_str());
	}
}
static void load (mc::Ctx& c, Leaves& l, const std::string& label, const std::string& f, bool readable, const Model& m)
{
	std::vector<Node*> p = ptrs(l), want;
	bool ok = read_inorder<double>(p, label, f);
	c.check(ok == readable, "reading a file that is%s a repository returned %d", readable ? "" : " not", (int) ok);
	for (size_t i = 0; i < l.size(); i++)
	{
		auto it = m.find(label + ":" + std::to_string(i));
		if (readable && it != m.end()) l[i]->load(it->second);
		else want.push_back(l[i]->n.get());
	}
	c.check(p == want, "%zu nodes were reported as not found instead of %zu", p.size(), want.size());
	for (size_t i = 0; i < l.size(); i++) l[i]->verify(c, mc::fmt("leaf %zu", i).c_str());
}

static const std::vector<shp> SHAPES = { {1}, {3}, {1,1}, {2,2}, {1,3}, {3,1}, {2,1,2}, {1,1,1,2}, {17}, {2,3,4} };
static vec pattern (int p, size_t n)
{
	static const double SP[] = {0.0, -0.0, 1.0, -1.5, 1e308, -1e-308, 5e-324, INFINITY, -INFINITY, NAN, 1.0/3, 256, 0.1};
	vec v(n);
	for (size_t i = 0; i < n; i++) v[i] = p == 0 ? i + 1.25 : p == 1 ? -1.0 / (i + 3) : SP[(i + p) % 13];
	return v;
}
static void roundtrip (mc::Ctx& c)
{
	const shp& s = c.pick(SHAPES);
	bool svar = c.flip(), tvar = c.flip();
	int p = c.choose(svar && tvar ? 15 : 3), target = c.choose(4);
	bool fresh = c.flip();
	// declared shapes: exact, or with the first dimension open
	bool open = c.flip();
	shp decl = s; if (open) { if (svar) c.prune(); decl[0] = 0; }
	c.note("%s of shape %s, pattern %d, into a %s of %s", svar ? "variable" : "placeholder", sstr(s).c_str(), p, tvar ? "variable" : "placeholder",
		target == 0 ? "that shape" : target == 1 ? "that shape, holding values" : target == 2 ? "open shape" : "another shape");
	std::string f = c.scratch() + "/a.pbx";
	unlink(f.c_str());
	Leaves a;
	a.emplace_back(new Leaf(svar, decl, "a"));
	a[0]->set(s, pattern(p, numel(s)));
	Model m;
	save(c, a, "net", f, m);
	c.step("saved");
	if (fresh) { a.clear(); }
	shp ts = s; vec old;
	if (target == 2) { if (tvar) c.prune(); ts[0] = 0; }
	if (target == 3) ts = s == shp{5} ? shp{4} : shp{5};
	Leaves b;
	b.emplace_back(new Leaf(tvar, ts, "b"));
	if (target == 1) b[0]->set(s, vec(numel(s), 42));
	// a consumer that has computed is bound to its shape
	if (target == 3) { b[0]->unwatch(); b[0]->set(ts, vec(numel(ts), 42)); }
	c.state(mc::fmt("rt %d %d %d %d %d ", svar, tvar, p, target, open) + sstr(s));
	load(c, b, "net", f, true, m);
	c.step("loaded");
	// what was loaded can be saved again, written and loaded again
	Model m2 = m;
	save(c, b, "net", f, m2);
	b[0]->set(s, vec(numel(s), 3.5));
	b[0]->verify(c, "the rewritten leaf");
	load(c, b, "net", f, true, m);
	if (!fresh) a[0]->verify(c, "the source");
}
// lists of leaves, some without value
static void lists (mc::Ctx& c)
{
	int n = c.choose(4), k = c.choose(4);
	std::string f = c.scratch() + "/l.pbx";
	unlink(f.c_str());
	Leaves a, b;
	static const shp S[] = {{2}, {1, 2}, {3}};
	for (int i = 0; i < n; i++)
	{
		a.emplace_back(new Leaf(c.flip(), S[i], "a"));
		if (c.flip()) a[i]->set(S[i], pattern(1, numel(S[i])));
	}
	for (int i = 0; i < k; i++)
	{
		b.emplace_back(new Leaf(i % 2 == 0, S[i], "b"));
		if (c.flip()) b[i]->set(S[i], pattern(0, numel(S[i])));
	}
	static const char* L[] = {"x", "x:1", "", "xy"};
	std::string wl = L[c.choose(4)], rl = L[c.choose(4)];
	c.note("%d leaves saved as '%s', %d read as '%s'", n, wl.c_str(), k, rl.c_str());
	Model m;
	save(c, a, wl, f, m);
	c.step("saved");
	c.state(mc::fmt("li %d %d %s %s", n, k, wl.c_str(), rl.c_str()));
	load(c, b, rl, f, true, m);
	c.step("read");
}
// histories of saves, loads and writes over two files and two labels
static void history (mc::Ctx& c)
{
	std::string f[2] = {c.scratch() + "/h0.pbx", c.scratch() + "/h1.pbx"};
	for (auto& x : f) unlink(x.c_str());
	Model m[2];
	bool there[2] = {false, false}, good[2] = {true, true};
	Leaves l[2];
	for (int i = 0; i < 2; i++) { l[i].emplace_back(new Leaf(true, {2}, "p")); l[i].emplace_back(new Leaf(false, {1, 2}, "q")); }
	l[0][0]->set({2}, {1, 2});
	int depth = c.thorough() ? 5 : 4, serial = 0;
	std::string st;
	for (int d = 0; d < depth; d++)
	{
		int op = c.choose(15);
		int w = op & 1, x = op >> 1 & 1;
		if (op < 8)
		{
			const char* lab = w ? "B" : "A";
			if (op < 4)
			{
				c.step("save list %d as %s in file %d", w, lab, x);
				if (!good[x])
				{
					std::vector<Node*> p = ptrs(l[w]);
					std::string before = slurp(f[x]);
					c.check(!write_inorder<double>(p, lab, f[x]), "saving over a file that is no repository succeeded");
					c.check(slurp(f[x]) == before, "saving over a file that is no repository changed it");
				}
				else { save(c, l[w], lab, f[x], m[x]); there[x] = true; }
			}
			else
			{
				c.step("load list %d as %s from file %d", w, lab, x);
				load(c, l[w], lab, f[x], there[x] && good[x], m[x]);
			}
		}
		else if (op < 12)
		{
			c.step("write leaf %d of list %d", x, w);
			serial++;
			l[w][x]->set(x ? shp{1, 2} : shp{2}, {10.0 * serial, -serial - 0.5});
		}
		else if (op == 12) { c.step("load list 0 as B from file 0"); load(c, l[0], "B", f[0], there[0] && good[0], m[0]); }
		else if (op == 13) { c.step("file 1 is removed"); unlink(f[1].c_str()); there[1] = false; good[1] = true; m[1].clear(); }
		else { c.step("file 1 becomes text"); spit(f[1], "no repository\n"); there[1] = true; good[1] = false; m[1].clear(); }
		for (auto& v : l) for (auto& e : v) e->verify(c, "a leaf");
		st = "hi ";
		for (int i = 0; i < 2; i++)
		{
			st += mc::fmt("f%d%d", there[i], good[i]);
			for (auto& e : m[i]) st += e.first + mc::vstr(e.second.v);
			for (auto& e : l[i]) st += mc::fmt("l%d", e->init) + (e->init ? mc::vstr(e->v) : "");
		}
		c.state(st);
	}
}
// every damaged version of a saved file
static void readback (mc::Ctx& c, const std::string& bytes)
{
	std::string f = c.scratch() + "/d.pbx";
	spit(f, bytes);
	Model m;
	bool readable = meaning(bytes, m);
	Leaves l;
	bool init = c.flip();
	l.emplace_back(new Leaf(true, {2}, "p")); l.emplace_back(new Leaf(false, {2, 2}, "q"));
	if (init)
	{
		for (auto& x : l) x->unwatch(); // an entry may bring another shape
		l[0]->set({2}, {8, 9}); l[1]->set({2, 2}, {4, 5, 6, 7});
	}
	load(c, l, "A", f, readable, m);
	c.step("read: %s, %zu usable entries", readable ? "a repository" : "no repository", m.size());
	c.state(mc::fmt("db %d %zu %d", readable, m.size(), init));
	// the leaves are still usable
	shp s0 = m.count("A:0") ? l[0]->s : shp{2}, s1 = m.count("A:1") ? l[1]->s : shp{2, 2};
	l[0]->set(s0, pattern(0, numel(s0))); l[1]->set(s1, pattern(1, numel(s1)));
	l[0]->verify(c, "leaf 0 rewritten"); l[1]->verify(c, "leaf 1 rewritten");
}
static const std::string& image (mc::Ctx& c)
{
	static std::string img;
	if (img.empty())
	{
		std::string f = c.scratch() + "/i.pbx";
		unlink(f.c_str());
		Leaves a;
		a.emplace_back(new Leaf(true, {2}, "p")); a.emplace_back(new Leaf(false, {2, 2}, "q"));
		a[0]->set({2}, {1.5, -2.25}); a[1]->set({2, 2}, {3, 1.0/3, -7, 0.125});
		Model m;
		save(c, a, "A", f, m);
		img = slurp(f);
	}
	return img;
}
static void truncated (mc::Ctx& c)
{
	const std::string& img = image(c);
	size_t n = c.choose(img.size() + 1);
	int tail = c.choose(3);
	c.note("the first %zu of %zu bytes%s", n, img.size(), tail ? tail == 1 ? ", then zeros" : ", then ones" : "");
	std::string b = img.substr(0, n);
	if (tail) b += std::string(img.size() - n, tail == 1 ? '\0' : '\xff');
	readback(c, b);
}
static void changed (mc::Ctx& c)
{
	const std::string& img = image(c);
	size_t i = c.choose(img.size());
	static const int Q[] = {0, 1, 2, 3, 4, 7, 8, 0x0a, 0x10, 0x12, 0x18, 0x1a, 0x20, 0x22, 0x40, 0x7f, 0x80, 0xc0, 0xff};
	int how = c.choose(4);
	std::string b = img;
	if (how == 0) { unsigned char x = c.thorough() ? c.choose(256) : Q[c.choose(sizeof(Q) / sizeof(*Q))]; c.note("byte %zu = %d", i, x); b[i] = x; }
	else if (how == 1) { int k = c.choose(8); c.note("bit %d of byte %zu", k, i); b[i] ^= 1 << k; }
	else if (how == 2) { c.note("byte %zu dropped", i); b.erase(i, 1); }
	else { int x = c.thorough() ? c.choose(256) : Q[c.choose(sizeof(Q) / sizeof(*Q))]; c.note("byte %d inserted at %zu", x, i); b.insert(i, 1, (char) x); }
	readback(c, b);
}
// entries with every combination of shapes and data lengths
static void crafted (mc::Ctx& c)
{
	static const uint64_t BIG = 1ull << 32;
	static const std::vector<std::vector<uint64_t> > SH = { {}, {0}, {1}, {2}, {3}, {4}, {0,0}, {0,2}, {2,0}, {2,2}, {1,2}, {2,1}, {1,1}, {4,1}, {2,3}, {2,2,1}, {0,2,1}, {1,1,1,1},
		{BIG}, {BIG, BIG}, {BIG, 2}, {1ull << 61}, {(1ull << 61) + 2}, {~0ull}, {1ull << 63, 2}, {BIG, BIG, 2}, {0, BIG} };
	auto& allow = c.pick(SH); auto& alloc = c.pick(SH);
	static const int LEN[] = {0, 1, 7, 8, 15, 16, 17, 24, 31, 32, 33, 40, 64};
	int len = LEN[c.choose(13)];
	c.note("declared %s, allocated %s, %d bytes", mc::vstr(allow).c_str(), mc::vstr(alloc).c_str(), len);
	tenncor::repository r;
	tenncor::tensor_proto p;
	std::string data(len, '\0');
	for (int i = 0; i < len; i++) data[i] = 17 * i;
	p.set_data(data);
	for (uint64_t d : allow) p.add_allow_shape(d);
	for (uint64_t d : alloc) p.add_alloc_shape(d);
	(*r.mutable_node_map())["A:" + std::to_string(c.choose(2))] = p;
	std::string b;
	r.SerializeToString(&b);
	readback(c, b);
}
// the file system stops taking data after every number of bytes
static void nospace (mc::Ctx& c)
{
	std::string f = c.scratch() + "/n.pbx";
	unlink(f.c_str());
	Leaves a;
	int big = c.choose(3);
	bool over = c.flip();
	shp s = {big == 0 ? (size_t) 2 : big == 1 ? (size_t) 40 : (size_t) 3000};
	a.emplace_back(new Leaf(true, s, "p"));
	a[0]->set(s, pattern(0, s[0]));
	Model m;
	save(c, a, "A", f, m);
	size_t full = slurp(f).size();
	if (!over) unlink(f.c_str());
	size_t lim;
	if (big == 2) { static const size_t B[] = {0, 1, 4095, 4096, 8190, 8191, 8192, 8193, 16384, 23999, 24000}; size_t k = c.choose(16); lim = k < 11 ? B[k] : full - 2 + (k - 11); }
	else lim = c.choose(full + 2);
	c.note("%zu of %zu bytes fit", lim, full);
	c.state(mc::fmt("ns %d %zu", big, lim));
	std::vector<Node*> p = ptrs(a);
	signal(SIGXFSZ, SIG_IGN);
	struct rlimit old, now;
	getrlimit(RLIMIT_FSIZE, &old);
	now = old; now.rlim_cur = lim;
	setrlimit(RLIMIT_FSIZE, &now);
	bool ok = write_inorder<double>(p, "A", f);
	setrlimit(RLIMIT_FSIZE, &old);
	c.step("save returned %d", (int) ok);
	c.check(ok == (lim >= full), "with room for %zu of %zu bytes saving %s", lim, full, ok ? "reported success" : "failed");
	Model got;
	bool readable = meaning(slurp(f), got);
	if (!exists(f)) readable = false;
	Leaves b;
	b.emplace_back(new Leaf(true, s, "q"));
	load(c, b, "A", f, readable, got);
	if (ok) c.check(got.size() == 1 && same(got["A:0"].v, a[0]->v), "a successful save left something else in the file");
	// with room again, the next save works if what is there is a repository
	if (readable || !exists(f)) { Model m2 = got; save(c, a, "A", f, m2); }
}
static void nofile (mc::Ctx& c)
{
	int k = c.choose(4);
	std::string f = k == 0 ? c.scratch() + "/none/x.pbx" : k == 1 ? c.scratch() : k == 2 ? "/dev/full" : c.scratch() + "/empty.pbx";
	bool init = c.flip();
	c.note("file: %s", k == 0 ? "in a missing directory" : k == 1 ? "a directory" : k == 2 ? "a full device" : "empty");
	c.state(mc::fmt("nf %d %d", k, init));
	if (k == 3) spit(f, "");
	Leaves a;
	a.emplace_back(new Leaf(true, {2}, "p"));
	if (init) a[0]->set({2}, {1, 2});
	std::vector<Node*> p = ptrs(a);
	if (k != 2) load(c, a, "A", f, k == 3, Model());
	c.step("read");
	if (k == 3) { Model m; save(c, a, "A", f, m); }
	else if (k != 2) c.check(!write_inorder<double>(p, "A", f), "saving reported success");
	c.step("saved");
}

// networks
static const std::vector<std::vector<size_t> > NETS = { {2}, {1}, {2, 1}, {3, 2} };
static std::vector<rocnnet::IN_PAIR> hid (const std::vector<size_t>& h)
{
	std::vector<rocnnet::IN_PAIR> r;
	for (size_t n : h) r.push_back({n, [](Node* x) { return nnet::sigmoid<double>(varptr<double>(x)); }});
	return r;
}
static void fill (std::vector<variable<double>*> vs, double base)
{
	for (auto v : vs)
	{
		if (!v->good_status()) v->initialize();
		shp s = v->get_shape().as_list();
		vec d(numel(s));
		for (double& x : d) x = (base += 0.375);
		variable_updater<double> up = v->assign(varptr<double>(constant<double>::get(d, tensorshape(s))));
		up(true);
	}
}
static std::vector<vec> vals (const std::vector<variable<double>*>& vs) { std::vector<vec> r; for (auto v : vs) { const tensor<double>* t = v->eval(); r.push_back(t && t->is_alloc() ? t->expose() : vec()); } return r; }
static void compound (mc::Ctx& c)
{
	std::string f = c.scratch() + "/m.pbx";
	unlink(f.c_str());
	const auto& shape = c.pick(NETS);
	rocnnet::mlp net(2, hid(shape), "net");
	placeholder<double> in(shp{2, 1}, "in");
	in = vec{0.5, -0.25};
	varptr<double> out = net.prop_up(&in);
	fill(net.get_variables(), 1);
	std::vector<vec> saved = vals(net.get_variables());
	vec y = out->eval()->expose();
	bool named = c.flip(), other = c.flip();
	// another network shares the file
	rocnnet::mlp second(1, hid({2}), "net2");
	fill(second.get_variables(), 50);
	if (other) c.check(second.save(f), "saving the second network failed");
	c.check(net.save(f, named ? "name" : ""), "saving failed");
	if (other) c.check(second.save(f), "saving the second network again failed");
	size_t full = slurp(f).size();
	// 0: complete, 1: all variables but one, 2: cut short, 3: other scope, 4: missing, 5: garbage
	int what = c.choose(6);
	std::string b = slurp(f);
	std::vector<variable<double>*> mine = net.get_variables();
	if (what == 1)
	{
		tenncor::repository r; r.ParseFromString(b);
		r.mutable_node_map()->erase(std::string(named ? "name" : "net") + ":" + std::to_string(c.choose(mine.size())));
		r.SerializeToString(&b);
	}
	else if (what == 2)
	{
		b.resize(c.choose(full));
		Model m; // what was lost may all belong to the other network
		if (meaning(b, m))
		{
			size_t have = 0;
			for (size_t i = 0; i < mine.size(); i++) have += m.count(std::string(named ? "name" : "net") + ":" + std::to_string(i));
			if (have == mine.size()) what = 0;
		}
	}
	else if (what == 5) b = "garbage";
	spit(f, b);
	if (what == 4) unlink(f.c_str());
	std::string scope = what == 3 ? (named ? "net" : "name") : named ? "name" : "";
	static const char* W[] = {"complete", "one variable missing", "cut short", "under another name", "missing", "garbage"};
	c.note("network 2 -> %s, file %s (%zu bytes)", mc::vstr(shape).c_str(), W[what], b.size());
	c.state(mc::fmt("nt %zu %d %d %d", shape.size(), named, other, what));
	// into a new network or back into the changed one
	bool back = c.flip();
	std::unique_ptr<rocnnet::mlp> fresh;
	if (!back) fresh.reset(new rocnnet::mlp(2, hid(shape), "net"));
	rocnnet::mlp& target = back ? net : *fresh;
	varptr<double> tout = back ? out : target.prop_up(&in);
	if (back) fill(net.get_variables(), -3);
	std::vector<vec> untouched = vals(second.get_variables());
	target.initialize(f, scope);
	c.step("initialized");
	std::vector<vec> now = vals(target.get_variables());
	const tensor<double>* t = tout->eval();
	c.check(t && t->is_alloc(), "the network has no output after initialization");
	vec z = t->expose();
	if (what == 0)
	{
		for (size_t i = 0; i < now.size(); i++) c.check(same(now[i], saved[i]), "variable %zu holds %s instead of the saved %s", i, mc::vstr(now[i]).c_str(), mc::vstr(saved[i]).c_str());
		c.check(same(y, z), "the restored network computes %s instead of %s", mc::vstr(z).c_str(), mc::vstr(y).c_str());
	}
	else for (size_t i = 0; i < now.size(); i++)
	{
		variable<double>* v = target.get_variables()[i];
		c.check(v->good_status() && now[i].size() == saved[i].size(), "variable %zu is not initialized", i);
		c.check(!same(now[i], saved[i]), "variable %zu was restored although others were not", i);
	}
	c.check(vals(second.get_variables()) == untouched, "another network changed");
	if (back == false) c.check(same(vals(net.get_variables())[0], saved[0]), "the saved network changed");
	// the result can be saved and restored again
	unlink(f.c_str());
	c.check(target.save(f), "saving again failed");
	rocnnet::mlp third(2, hid(shape), "net");
	varptr<double> o3 = third.prop_up(&in);
	third.initialize(f);
	c.check(vals(third.get_variables()) == now, "what was saved again is not what is restored");
	c.check(same(o3->eval()->expose(), z), "the network restored from the second save computes something else");
}

int main (int argc, char** argv)
{
	return mc::run(argc, argv, { {"roundtrip", roundtrip, 2}, {"lists", lists, 3}, {"history", history, 2}, {"truncated", truncated, 2}, {"changed", changed, 1},
		{"crafted", crafted, 2}, {"nospace", nospace, 2}, {"nofile", nofile, 1}, {"compound", compound, 3} });
}
