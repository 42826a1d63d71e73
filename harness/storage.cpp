// tensor-storage / alloc-balance: nnet::tensor's shape + buffer state machine
#include "mc.hpp"
#include <memory>
#include "tensor/tensor.hpp"
#include "memory/alloc_builder.hpp"
using namespace nnet;
typedef std::vector<size_t> dims_t;

static std::string S (const dims_t& d)
{
	std::string s = "<";
	for (size_t i = 0; i < d.size(); i++) s += (i ? "," : "") + std::to_string(d[i]);
	return s + ">";
}
static size_t prod (const dims_t& d) { size_t p = 1; for (size_t x : d) p *= x; return d.empty() ? 0 : p; }
static bool full (const dims_t& d) { return prod(d) > 0; }
static bool compat (const dims_t& a, const dims_t& b) { return tensorshape(a).is_compatible_with(tensorshape(b)); }

// ---- recording allocators -------------------------------------------------
struct Ledger
{
	std::map<void*, size_t> live;
	std::string error;
	size_t served = 0;
};
static Ledger ledgers[3];

template <int N>
class rec_alloc : public iallocator
{
public:
	static Ledger& L (void) { return ledgers[N]; }
protected:
	void* get_raw (size_t, size_t n) override
	{
		void* p = malloc(n ? n : 1);
		memset(p, 0xA0 + N, n);
		if (L().live.count(p)) L().error = "allocator handed out a live block";
		L().live[p] = n; L().served++;
		return p;
	}
	void del_raw (void* p, size_t n) override
	{
		auto it = L().live.find(p);
		if (it == L().live.end())
		{
			for (int i = 0; i < 3; i++) if (i != N && ledgers[i].live.count(p))
			{
				L().error = mc::fmt("block of allocator %d returned to allocator %d", i, N);
				free(p); ledgers[i].live.erase(p);
				return;
			}
			L().error = mc::fmt("allocator %d was given a block it does not own (double free?)", N);
			return;
		}
		if (it->second != n) L().error = mc::fmt("block of %zu bytes returned as %zu bytes", it->second, n);
		L().live.erase(it);
		memset(p, 0xDD, n);
		free(p);
	}
	iallocator* clone_impl (void) const override { return new rec_alloc(*this); }
	iallocator* move_impl (void) override { return new rec_alloc(*this); }
};
static const size_t AID[2] = {101, 102};
static void setup_allocs (void)
{
	static bool done = false;
	if (!done)
	{
		done = true;
		alloc_builder::get_instance().registertype<rec_alloc<1> >(AID[0]);
		alloc_builder::get_instance().registertype<rec_alloc<2> >(AID[1]);
	}
	for (Ledger& l : ledgers) l = Ledger();
}

// access to the protected buffer, as the mocks of the test suite have it
struct tens : public tensor<double>
{
	tens (tensorshape s, size_t id) : tensor<double>(s, id) {}
	tens (double v, size_t id) : tensor<double>(v, id) {}
	tens (const tens& o, bool shapeonly = false) : tensor<double>(o, shapeonly) {}
	tens (tens&& o) : tensor<double>(std::move(o)) {}
	tens& operator = (const tens& o) { tensor<double>::operator = (o); return *this; }
	tens& operator = (tens&& o) { tensor<double>::operator = (std::move(o)); return *this; }
	double* raw (void) { return raw_data_; }
};

// ---- reference model --------------------------------------------------------
struct Model
{
	dims_t allowed;
	bool alloc = false;
	dims_t shape;              // allocated shape
	std::vector<double> data;  // NaN: unspecified
	int id = 0;                // allocator
	bool moved = false;        // moved-from: only destruction, assignment

	static std::vector<double> fit (const dims_t& out, const std::vector<double>& src, const dims_t& in)
	{
		std::vector<double> r(prod(out), 0);
		dims_t co(out.size(), 0);
		for (size_t i = 0; i < r.size(); i++)
		{
			// element at co exists in the source if every coordinate does
			bool in_src = true; size_t idx = 0, mul = 1;
			for (size_t k = 0; k < std::max(in.size(), out.size()); k++)
			{
				size_t x = k < co.size() ? co[k] : 0;
				size_t lim = k < in.size() ? in[k] : 1;
				if (x >= lim) in_src = false;
				idx += x * mul; mul *= lim;
			}
			if (in_src) r[i] = src[idx];
			for (size_t k = 0; k < out.size(); k++) { if (++co[k] < out[k]) break; co[k] = 0; }
		}
		return r;
	}
	void fresh (const dims_t& s) { alloc = true; shape = s; data.assign(prod(s), std::nan("")); }
	bool do_alloc (const dims_t& s)
	{
		if (alloc && compat(s, shape)) return false;
		if (!full(s) || !compat(s, allowed)) return false;
		if (alloc) { data = fit(s, data, shape); shape = s; }
		else fresh(s);
		return true;
	}
	void set_shape (dims_t s)
	{
		if (!alloc || !compat(allowed, s)) allowed = s;
		if (alloc && !compat(s, shape))
		{
			if (!full(s))
			{
				size_t rank = allowed.size();
				dims_t m = s; m.resize(shape.size(), 1);
				for (size_t i = 0; i < m.size(); i++) if (!m[i]) m[i] = shape[i];
				m.resize(rank, 1);
				s = m;
			}
			do_alloc(s);
		}
	}
	std::string str (void) const
	{
		return S(allowed) + "/" + (alloc ? S(shape) : "-") + "@" + std::to_string(id) + (moved ? "m" : "");
	}
};

static int g_mode = 0; // 0: contents, 1: balance

struct Pair { std::unique_ptr<tens> t; Model m; };

static void compare (mc::Ctx& c, Pair& p, const char* who)
{
	tens& t = *p.t; Model& m = p.m;
	for (int i = 1; i < 3; i++) c.check(ledgers[i].error.empty(), "%s", ledgers[i].error.c_str());
	if (m.moved) return;
	c.check(t.is_alloc() == m.alloc, "%s: is_alloc is %d, expected %d", who, t.is_alloc(), m.alloc);
	dims_t want = m.alloc ? m.shape : m.allowed;
	c.check(t.get_shape().as_list() == want, "%s: shape is %s, expected %s", who, S(t.get_shape().as_list()).c_str(), S(want).c_str());
	c.check(t.dims() == want && t.rank() == want.size(), "%s: dims/rank disagree with the shape", who);
	c.check(t.n_elems() == (m.alloc ? prod(m.shape) : 0), "%s: n_elems is %zu", who, t.n_elems());
	c.check(t.total_bytes() == sizeof(double) * (m.alloc ? prod(m.shape) : 0), "%s: total_bytes is %zu", who, t.total_bytes());
	if (m.alloc)
	{
		std::vector<double> d = t.expose();
		c.check(d.size() == m.data.size(), "%s: expose gives %zu elements, expected %zu", who, d.size(), m.data.size());
		for (size_t i = 0; i < d.size(); i++)
			c.check(std::isnan(m.data[i]) || d[i] == m.data[i], "%s: element %zu is %g, expected %g (shape %s)", who, i, d[i], m.data[i], S(m.shape).c_str());
		// coordinate access agrees with expose
		tensorshape s(m.shape);
		for (size_t i = 0; i < d.size(); i++)
			c.check(std::isnan(m.data[i]) || t.get(s.coordinate_from_idx(i)) == d[i], "%s: get disagrees with expose at %zu", who, i);
		dims_t oob(m.shape.size(), 0); oob.back() = m.shape.back();
		bool thrown = false;
		try { t.get(oob); } catch (std::out_of_range&) { thrown = true; }
		c.check(thrown, "%s: get(%s) beyond shape %s does not throw", who, S(oob).c_str(), S(m.shape).c_str());
	}
	else
	{
		for (const dims_t& co : {dims_t{0}, dims_t{}, dims_t{0, 0}})
		{
			bool thrown = false;
			try { t.get(co); } catch (std::out_of_range&) { thrown = true; }
			c.check(thrown, "%s: get on an unallocated tensor does not throw", who);
		}
	}
}

// give every cell a known value
static void refill (Pair& p, double base)
{
	if (!p.m.alloc || p.m.moved) return;
	for (size_t i = 0; i < p.m.data.size(); i++) { p.m.data[i] = base + i; p.t->raw()[i] = base + i; }
}

static const std::vector<dims_t> SHAPES = {{}, {0}, {1}, {3}, {2,3}, {3,2}, {0,3}, {2,0}, {1,2,3}, {2,2,2}, {0,0,2}};
static const std::vector<dims_t> TINY = {{}, {3}, {0,3}, {2,3}};
static const std::vector<dims_t>* OPSHAPES = &SHAPES;
static const std::vector<dims_t> FEW = {{}, {3}, {2,3}, {0,3}, {3,2,2}};

static Pair make (mc::Ctx& c, const dims_t& s, int id, double base)
{
	Pair p;
	p.t.reset(new tens(tensorshape(s), AID[id]));
	p.m.allowed = s; p.m.id = id;
	if (full(s)) p.m.fresh(s);
	refill(p, base);
	return p;
}

static void balance_all_gone (mc::Ctx& c)
{
	for (int i = 1; i < 3; i++)
	{
		c.check(ledgers[i].error.empty(), "%s", ledgers[i].error.c_str());
		c.check(ledgers[i].live.empty(), "allocator %d: %zu blocks never returned", i, ledgers[i].live.size());
	}
}

// one operation on pair a (with b as the other tensor)
static void operate (mc::Ctx& c, Pair& a, Pair& b, bool setalloc)
{
	std::vector<int> kinds = a.m.moved ? std::vector<int>{5, 6, 9} : std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12};
	if (setalloc && !a.m.moved) kinds.push_back(13);
	static const char* names[] = {"allocate", "allocate-shape", "deallocate", "set_shape", "copy_from", "copy-assign", "move-assign",
		"clone", "move", "construct", "self-assign", "compare", "guess", "set_allocator"};
	int kind = kinds[c.choose(kinds.size(), "op")];
	c.key(names[kind]);
	switch (kind)
	{
	case 0:
	{
		c.step("allocate()");
		bool w = a.m.alloc ? false : a.m.do_alloc(a.m.allowed);
		bool g = a.t->allocate();
		c.check(g == w, "allocate() returned %d", g);
	} break;
	case 1:
	{
		dims_t s = c.pick(*OPSHAPES);
		c.step("allocate(%s)", S(s).c_str());
		bool w = a.m.do_alloc(s); bool g = a.t->allocate(tensorshape(s));
		c.check(g == w, "allocate(%s) returned %d", S(s).c_str(), g);
	} break;
	case 2:
	{
		c.step("deallocate()");
		bool w = a.m.alloc; a.m.alloc = false; a.m.shape.clear(); a.m.data.clear();
		c.check(a.t->deallocate() == w, "deallocate() returned %d", !w);
	} break;
	case 3:
	{
		dims_t s = c.pick(*OPSHAPES);
		c.step("set_shape(%s)", S(s).c_str());
		a.m.set_shape(s); a.t->set_shape(tensorshape(s));
	} break;
	case 4:
	{
		if (b.m.moved) c.prune();
		dims_t s = c.pick(*OPSHAPES);
		c.step("copy_from(other, %s)", S(s).c_str());
		bool w = b.m.alloc && full(s);
		if (w)
		{
			if (!compat(a.m.allowed, s)) a.m.allowed = s;
			std::vector<double> d = Model::fit(s, b.m.data, b.m.shape);
			a.m.alloc = true; a.m.shape = s; a.m.data = d;
		}
		bool g = a.t->copy_from(*b.t, tensorshape(s));
		c.check(g == w, "copy_from returned %d", g);
	} break;
	case 5:
		c.step("copy assign from other");
		if (b.m.moved) c.prune();
		*a.t = *b.t; a.m = b.m;
		break;
	case 6:
		c.step("move assign from other");
		if (b.m.moved) c.prune();
		*a.t = std::move(*b.t); a.m = b.m; b.m.moved = true;
		break;
	case 7:
	{
		bool so = c.flip("shapeonly");
		c.step("replace by clone(%d)", so);
		std::unique_ptr<tens> n(new tens(*a.t, so));
		if (c.flip("polymorphic"))
		{
			std::unique_ptr<tensor<double> > k(a.t->clone(so));
			c.check(k->get_shape().as_list() == a.t->get_shape().as_list() && k->is_alloc() == a.t->is_alloc(), "clone differs in shape");
			if (!so && k->is_alloc()) c.check(k->expose() == a.t->expose(), "clone differs in data");
			// the clone is independent of its origin
			std::vector<double> before; if (!so && k->is_alloc()) before = k->expose();
			if (!so && k->is_alloc())
			{
				Model keep = a.m;
				refill(a, 500);
				c.check(k->expose() == before, "writing to a tensor changed its clone");
				a.m = keep;
			}
		}
		if (so) for (double& d : a.m.data) d = std::nan("");
		a.t = std::move(n);
		if (so) refill(a, 100);
	} break;
	case 8:
	{
		c.step("replace by move()");
		if (c.flip("polymorphic"))
		{
			std::unique_ptr<tensor<double> > k(a.t->move());
			c.check(!a.t->is_alloc(), "moved-from tensor is still allocated");
			*static_cast<tensor<double>*>(a.t.get()) = std::move(*k);
		}
		else
		{
			std::unique_ptr<tens> n(new tens(std::move(*a.t)));
			c.check(!a.t->is_alloc() && a.t->n_elems() == 0, "moved-from tensor is still allocated");
			a.t = std::move(n);
		}
	} break;
	case 9:
	{
		dims_t s = c.pick(*OPSHAPES);
		int id = c.choose(2);
		c.step("replace by new tensor(%s)", S(s).c_str());
		a = make(c, s, id, 100);
	} break;
	case 10:
		c.step("self assignment");
		*a.t = *&*a.t;
		if (c.flip()) { tens& alias = *a.t; *a.t = std::move(alias); }
		break;
	case 11:
	{
		if (b.m.moved) c.prune();
		c.step("comparisons with other");
		dims_t sa = a.m.alloc ? a.m.shape : a.m.allowed, sb = b.m.alloc ? b.m.shape : b.m.allowed;
		c.check(a.t->is_compatible_with(*b.t) == compat(sa, sb), "is_compatible_with(tensor)");
		bool ss = (a.m.alloc && b.m.alloc) ? tensorshape(sa).trim().is_compatible_with(tensorshape(sb).trim()) : compat(a.m.allowed, b.m.allowed);
		c.check(a.t->is_same_size(*b.t) == ss, "is_same_size");
	} break;
	case 12:
	{
		size_t n = c.choose(9, "ndata");
		std::vector<double> v(n, 1);
		c.step("vector of %zu compatibility", n);
		dims_t sh = a.m.alloc ? a.m.shape : a.m.allowed;
		size_t known = 1; size_t firstz = sh.size();
		for (size_t x : sh) if (x) known *= x;
		bool w = sh.empty() ? true : full(sh) ? n == prod(sh) : n % known == 0;
		c.check(a.t->is_compatible_with(v) == w, "is_compatible_with(vector of %zu) for shape %s", n, S(sh).c_str());
		bool lw = full(sh) ? n <= prod(sh) : true;
		c.check(a.t->is_loosely_compatible_with(v) == lw, "is_loosely_compatible_with(vector of %zu) for shape %s", n, S(sh).c_str());
		// guesses are made from the allowed shape
		const dims_t& al = a.m.allowed;
		known = 1; firstz = al.size();
		for (size_t i = 0; i < al.size(); i++) { if (al[i]) known *= al[i]; else if (firstz == al.size()) firstz = i; }
		optional<tensorshape> g = a.t->guess_shape(v);
		optional<tensorshape> lg = a.t->loosely_guess_shape(v);
		auto opt = [](optional<tensorshape>& o) { return o ? S(o->as_list()) : std::string("none"); };
		std::string wg = "none", wl = "none";
		if (al.empty()) { wg = wl = S({n}); }
		else if (full(al)) { if (n == prod(al)) wg = S(al); if (n <= prod(al)) wl = S(al); }
		else
		{
			dims_t r = al; for (size_t& x : r) if (!x) x = 1;
			if (n % known == 0) { dims_t q = r; q[firstz] = n / known; wg = S(q); }
			dims_t q = r; q[firstz] = (n + known - 1) / known; wl = S(q);
		}
		c.check(opt(g) == wg, "guess_shape of %zu elements for %s is %s, expected %s", n, S(al).c_str(), opt(g).c_str(), wg.c_str());
		c.check(opt(lg) == wl, "loosely_guess_shape of %zu elements for %s is %s, expected %s", n, S(al).c_str(), opt(lg).c_str(), wl.c_str());
	} break;
	case 13:
	{
		int id = c.choose(3);
		c.step("set_allocator(%d)", id);
		if (id == 2)
		{
			bool thrown = false;
			try { a.t->set_allocator(9999); } catch (std::runtime_error&) { thrown = true; }
			c.check(thrown, "unknown allocator id accepted");
		}
		else { a.t->set_allocator(AID[id]); a.m.id = id; }
	} break;
	}
}

static void sequence (mc::Ctx& c, int depth, bool prune_seen, const std::vector<dims_t>& inits,
	const std::vector<dims_t>& others, const std::vector<dims_t>& ops)
{
	OPSHAPES = &ops;
	setup_allocs();
	{
		dims_t s0 = c.pick(inits, "initial shape");
		dims_t s1 = c.pick(others, "other shape");
		Pair a = make(c, s0, 0, 100), b = make(c, s1, 1, 200);
		c.step("a = tensor(%s), b = tensor(%s)", S(s0).c_str(), S(s1).c_str());
		compare(c, a, "a"); compare(c, b, "b");
		for (int i = 0; i < depth; i++)
		{
			bool onb = c.flip("which");
			Pair& x = onb ? b : a; Pair& y = onb ? a : b;
			c.key("");
			c.note(onb ? "b:" : "a:");
			operate(c, x, y, true);
			// exactly one block per allocated tensor, from its own allocator
			compare(c, a, "a"); compare(c, b, "b");
			refill(a, 100); refill(b, 200);
			size_t want[3] = {0, 0, 0};
			for (Pair* p : {&a, &b}) if (!p->m.moved && p->m.alloc) want[p->m.id + 1]++;
			for (int k = 1; k < 3; k++)
				c.check(ledgers[k].live.size() == want[k], "allocator %d holds %zu live blocks, expected %zu", k, ledgers[k].live.size(), want[k]);
			for (Pair* p : {&a, &b}) if (!p->m.moved && p->m.alloc)
			{
				auto it = ledgers[p->m.id + 1].live.find(p->t->raw());
				c.check(it != ledgers[p->m.id + 1].live.end(), "the buffer does not belong to the tensor's allocator");
				c.check(it->second == sizeof(double) * prod(p->m.shape), "block of %zu bytes for shape %s", it->second, S(p->m.shape).c_str());
			}
			std::string st = a.m.str() + "|" + b.m.str();
			c.state(st);
			if (prune_seen && c.seen(st, depth - i - 1)) break;
		}
	}
	balance_all_gone(c);
}

// fit_toshape over every pair of small shapes, through set_shape, allocate and copy_from
static void fit (mc::Ctx& c, int maxrank, const dims_t& vals)
{
	setup_allocs();
	auto any = [&] { dims_t d; int r = 1 + c.choose(maxrank); for (int i = 0; i < r; i++) d.push_back(vals[c.choose(vals.size())]); return d; };
	dims_t in = any(), out = any();
	c.step("fit %s into %s", S(in).c_str(), S(out).c_str());
	c.state("fit" + S(in) + S(out));
	{
		Pair a = make(c, in, 0, 100);
		Pair b = make(c, {}, 1, 0);
		std::vector<double> src = a.m.data;
		// bare function with guard cells
		std::vector<double> dest(prod(out) + 2, -7);
		fit_toshape<double>(&dest[1], tensorshape(out), src.data(), tensorshape(in));
		std::vector<double> want = Model::fit(out, src, in);
		c.check(dest.front() == -7 && dest.back() == -7, "fit_toshape wrote outside its destination");
		c.check(std::vector<double>(dest.begin() + 1, dest.end() - 1) == want, "fitting %s into %s gives %s, expected %s", S(in).c_str(), S(out).c_str(),
			mc::vstr(std::vector<double>(dest.begin() + 1, dest.end() - 1)).c_str(), mc::vstr(want).c_str());
		c.check(b.t->copy_from(*a.t, tensorshape(out)), "copy_from refused");
		c.check(b.t->expose() == want && b.t->get_shape().as_list() == out, "copy_from %s to %s gives %s", S(in).c_str(), S(out).c_str(), mc::vstr(b.t->expose()).c_str());
		c.check(a.t->expose() == src, "copy_from changed its source");
		a.t->set_shape(tensorshape(out));
		a.m.set_shape(out);
		compare(c, a, "reshaped");
	}
	balance_all_gone(c);
}

// a tensor read from another one's message is that tensor, in shapes (the permitted and the
// allocated one) as well as data, and goes on like it under every operation
static void serialized (mc::Ctx& c)
{
	OPSHAPES = &SHAPES;
	setup_allocs();
	{
		Pair a = make(c, c.pick(SHAPES, "permitted"), 0, 10), b = make(c, c.pick(FEW, "reader's shape"), 1, 50);
		const dims_t& s = c.pick(SHAPES, "allocated");
		bool w = a.m.do_alloc(s);
		c.check(a.t->allocate(tensorshape(s)) == w, "allocate(%s)", S(s).c_str());
		refill(a, 20);
		tenncor::tensor_proto msg;
		if (!a.m.alloc)
		{
			a.t->serialize(&msg);
			c.check(msg.data().empty() && msg.alloc_shape_size() == 0, "an unallocated tensor serialized data");
			return;
		}
		a.t->serialize(&msg);
		if (c.flip("through bytes")) { std::string bytes = msg.SerializeAsString(); msg.Clear(); c.check(msg.ParseFromString(bytes), "message does not parse"); }
		int how = c.choose(3, "reader's allocator");
		bool got = how == 0 ? b.t->from_proto(msg) : b.t->from_proto(msg, AID[how - 1]);
		c.check(got, "a tensor's own message is refused");
		int id = how == 0 ? b.m.id : how - 1;
		b.m = a.m; b.m.id = id;
		c.step("%s read back", a.m.str().c_str());
		compare(c, a, "written"); compare(c, b, "read");
		if (c.flip("deallocate")) { b.m.alloc = false; b.m.shape.clear(); b.m.data.clear(); c.check(b.t->deallocate(), "deallocate() of a tensor that was read"); }
		operate(c, b, a, true);
		compare(c, a, "written"); compare(c, b, "read");
		c.state(a.m.str() + b.m.str());
	}
	balance_all_gone(c);
}

int main (int argc, char** argv)
{
	return mc::run(argc, argv, {
		{"serialized", serialized, 3},
		{"fit_rank4", [](mc::Ctx& c) { fit(c, c.thorough() ? 4 : 3, {1, 2, 3}); }, 3},
		{"fit_rank5", [](mc::Ctx& c) { fit(c, c.thorough() ? 5 : 4, {1, 2}); }, 3},
		{"fit_wide", [](mc::Ctx& c) { fit(c, 2, {1, 4, 7, 16, 33}); }, 3},
		{"all_sequences_2", [](mc::Ctx& c) { sequence(c, 2, false, c.thorough() ? SHAPES : TINY, FEW, SHAPES); }, 3},
		{"state_closure", [](mc::Ctx& c) { sequence(c, c.thorough() ? 8 : 4, true, {{}}, {{2,3}}, c.thorough() ? FEW : TINY); }, 3},
		{"all_sequences_3", [](mc::Ctx& c) { sequence(c, 3, false, TINY, TINY, TINY); }, 3, true},
	});
}
