// shape-algebra: the partial-shape algebra of nnet::tensorshape
#include "mc.hpp"
#include <functional>
#include <sstream>
#include "tensor/tensorshape.hpp"
using namespace nnet;
typedef std::vector<size_t> dims_t;

static std::string S (const dims_t& d)
{
	std::string s = "<";
	for (size_t i = 0; i < d.size(); i++) s += (i ? "," : "") + std::to_string(d[i]);
	return s + ">";
}

// every shape of rank 0..maxrank with dimensions from vals
static dims_t any_shape (mc::Ctx& c, int maxrank, const dims_t& vals, int minrank = 0)
{
	int r = minrank + c.choose(maxrank - minrank + 1, "rank");
	dims_t d;
	for (int i = 0; i < r; i++) d.push_back(vals[c.choose(vals.size(), "dim")]);
	return d;
}

static bool full (const dims_t& d) { if (d.empty()) return false; for (size_t x : d) if (!x) return false; return true; }

static dims_t rtrim (const dims_t& d)
{
	size_t b = 0, e = d.size();
	while (b < e && d[b] == 1) b++;
	while (e > b && d[e-1] == 1) e--;
	return dims_t(d.begin() + b, d.begin() + e);
}

static size_t prod (const dims_t& d) { size_t p = 1; for (size_t x : d) p *= x; return d.empty() ? 0 : p; }

// can the zeros of d be filled so that its trimmed form equals t?
static bool fillable (const dims_t& d, const dims_t& e)
{
	// match d (with zeros as wildcards) and e (with zeros as wildcards) modulo padding with ones
	// choose a window alignment: drop i leading / j trailing dims of d that can be 1, same for e
	auto one = [](size_t x) { return x == 1 || x == 0; };
	for (size_t i = 0; i <= d.size(); i++)
	{
		if (i && !one(d[i-1])) break;
		for (size_t j = d.size(); j + 1 > i; j--)
		{
			if (j < d.size() && !one(d[j])) break;
			for (size_t k = 0; k <= e.size(); k++)
			{
				if (k && !one(e[k-1])) break;
				size_t l = k + (j - i);
				if (l > e.size()) continue;
				bool ok = true;
				for (size_t q = l; q < e.size(); q++) ok = ok && one(e[q]);
				for (size_t q = 0; q < j - i; q++)
					ok = ok && (d[i+q] == e[k+q] || !d[i+q] || !e[k+q]);
				if (ok) return true;
			}
			if (j == 0) break;
		}
	}
	return false;
}

static void unary (mc::Ctx& c, const dims_t& d)
{
	c.step("shape %s", S(d).c_str());
	c.state("u" + S(d));
	tensorshape s(d);
	c.check(s.as_list() == d, "as_list of %s is %s", S(d).c_str(), S(s.as_list()).c_str());
	c.check(s.rank() == d.size(), "rank");
	c.check(s.n_elems() == prod(d), "n_elems of %s is %zu", S(d).c_str(), s.n_elems());
	size_t known = d.empty() ? 0 : 1;
	for (size_t x : d) if (x) known *= x;
	c.check(s.n_known() == known, "n_known of %s is %zu", S(d).c_str(), s.n_known());
	c.check(s.is_part_defined() == !d.empty(), "is_part_defined of %s", S(d).c_str());
	c.check(s.is_fully_defined() == full(d), "is_fully_defined of %s", S(d).c_str());
	c.check(s.trim().as_list() == rtrim(d), "trim of %s is %s", S(d).c_str(), S(s.trim().as_list()).c_str());
	c.check(s.trim().trim().as_list() == rtrim(d), "trim is not idempotent on %s", S(d).c_str());
	for (size_t r = 0; r <= 6; r++)
	{
		dims_t e = d; e.resize(r, 1);
		dims_t al = d; if (al.size() < r) al.resize(r, 1);
		dims_t am = d; if (am.size() > r) am.resize(r);
		c.check(s.with_rank(r).as_list() == e, "with_rank(%zu) of %s is %s", r, S(d).c_str(), S(s.with_rank(r).as_list()).c_str());
		c.check(s.with_rank_at_least(r).as_list() == al, "with_rank_at_least(%zu) of %s is %s", r, S(d).c_str(), S(s.with_rank_at_least(r).as_list()).c_str());
		c.check(s.with_rank_at_most(r).as_list() == am, "with_rank_at_most(%zu) of %s is %s", r, S(d).c_str(), S(s.with_rank_at_most(r).as_list()).c_str());
	}
	c.check(s.as_list() == d, "a const operation changed the shape %s", S(d).c_str());
	// copies are independent
	tensorshape cp(s);
	tensorshape as; as = s;
	tensorshape vs; vs = d;
	cp.undefine();
	c.check(cp.as_list().empty() && !cp.is_part_defined() && cp.n_elems() == 0, "undefine leaves %s", S(cp.as_list()).c_str());
	c.check(s.as_list() == d && as.as_list() == d && vs.as_list() == d, "undefining a copy changed another shape");
	std::stringstream ss; print_shape(s, ss);
	std::string want; if (d.empty()) want = "undefined "; for (size_t x : d) want += std::to_string(x) + " ";
	c.check(ss.str() == want, "print_shape of %s prints '%s'", S(d).c_str(), ss.str().c_str());
}

static void pair (mc::Ctx& c, const dims_t& a, const dims_t& b)
{
	c.step("shapes %s %s", S(a).c_str(), S(b).c_str());
	c.state("p" + S(a) + S(b));
	tensorshape s(a), t(b);
	bool st = s.is_compatible_with(t), ts = t.is_compatible_with(s);
	c.check(st == ts, "compatibility of %s and %s is not symmetric (%d, %d)", S(a).c_str(), S(b).c_str(), st, ts);
	if (a == b) c.check(st, "%s is not compatible with itself", S(a).c_str());
	if (a.empty() || b.empty()) c.check(st, "undefined shape is not compatible with %s%s", S(a).c_str(), S(b).c_str());
	else if (a.size() == b.size())
	{
		bool w = true;
		for (size_t i = 0; i < a.size(); i++) w = w && (a[i] == b[i] || !a[i] || !b[i]);
		c.check(st == w, "compatibility of %s and %s is %d", S(a).c_str(), S(b).c_str(), st);
	}
	else if (full(a) && full(b))
		c.check(st == (rtrim(a) == rtrim(b)), "compatibility of %s and %s is %d", S(a).c_str(), S(b).c_str(), st);
	else if (st)
		c.check(fillable(a, b), "%s and %s are called compatible, but no filling of unknown dimensions and padding makes them equal", S(a).c_str(), S(b).c_str());
	// merge
	if (a.empty()) c.check(s.merge_with(t).as_list() == b, "merge with undefined");
	else if (b.empty()) c.check(s.merge_with(t).as_list() == a, "merge of %s with undefined", S(a).c_str());
	else if (a.size() != b.size())
	{
		bool thrown = false;
		try { s.merge_with(t); } catch (std::logic_error&) { thrown = true; }
		c.check(thrown, "merging %s with %s does not throw logic_error", S(a).c_str(), S(b).c_str());
	}
	else
	{
		dims_t m = s.merge_with(t).as_list(), w;
		for (size_t i = 0; i < a.size(); i++) w.push_back(a[i] ? a[i] : b[i]);
		c.check(m == w, "merge of %s with %s is %s", S(a).c_str(), S(b).c_str(), S(m).c_str());
		if (st)
		{
			tensorshape ms(m);
			c.check(ms.is_compatible_with(s) && ms.is_compatible_with(t), "merge of compatible %s and %s is not compatible with both", S(a).c_str(), S(b).c_str());
			c.check(t.merge_with(s).as_list() == m, "merge of compatible %s and %s is not commutative", S(a).c_str(), S(b).c_str());
		}
	}
	dims_t cat = a; cat.insert(cat.end(), b.begin(), b.end());
	c.check(s.concatenate(t).as_list() == cat, "concatenation of %s and %s is %s", S(a).c_str(), S(b).c_str(), S(s.concatenate(t).as_list()).c_str());
	c.check(s.as_list() == a && t.as_list() == b, "a const operation changed its operand");
}

static void coords (mc::Ctx& c, const dims_t& d)
{
	c.step("coordinates of %s", S(d).c_str());
	c.state("c" + S(d));
	tensorshape s(d);
	size_t n = prod(d);
	dims_t cur(d.size(), 0);
	for (size_t i = 0; i < n; i++)
	{
		dims_t got = s.coordinate_from_idx(i);
		c.check(got == cur, "coordinate_from_idx(%zu) of %s is %s, expected %s", i, S(d).c_str(), S(got).c_str(), S(cur).c_str());
		c.check(s.flat_idx(cur) == i, "flat_idx(%s) of %s is %zu, expected %zu", S(cur).c_str(), S(d).c_str(), s.flat_idx(cur), i);
		// trailing zero coordinates may be left out
		dims_t sh = cur;
		while (!sh.empty() && sh.back() == 0)
		{
			sh.pop_back();
			c.check(s.flat_idx(sh) == i, "flat_idx(%s) of %s is %zu, expected %zu", S(sh).c_str(), S(d).c_str(), s.flat_idx(sh), i);
		}
		for (size_t k = 0; k < d.size(); k++) { if (++cur[k] < d[k]) break; cur[k] = 0; }
	}
	size_t calls = 0;
	s.iterate([&](dims_t co, size_t i)
	{
		c.check(i == calls, "iterate visits %zu at step %zu", i, calls);
		c.check(co == s.coordinate_from_idx(i), "iterate gives the wrong coordinate at %zu of %s", i, S(d).c_str());
		calls++;
	});
	c.check(calls == n, "iterate of %s visits %zu of %zu elements", S(d).c_str(), calls, n);
}

int main (int argc, char** argv)
{
	return mc::run(argc, argv, {
		{"unary", [](mc::Ctx& c) { unary(c, any_shape(c, c.thorough() ? 6 : 5, {0, 1, 2, 3, 7})); }},
		{"pair", [](mc::Ctx& c)
		{
			dims_t vals = c.thorough() ? dims_t{0, 1, 2, 3, 4} : dims_t{0, 1, 2, 3};
			dims_t a = any_shape(c, 4, vals); dims_t b = any_shape(c, 4, vals); pair(c, a, b);
		}},
		{"pair_rank5", [](mc::Ctx& c)
		{
			dims_t a = any_shape(c, 5, {0, 1, 2}); dims_t b = any_shape(c, 5, {0, 1, 2}, 0); pair(c, a, b);
		}},
		{"large_dims", [](mc::Ctx& c)
		{
			static const dims_t big{1, 2, 255, 256, 257, 65536, 1u << 31};
			dims_t a = any_shape(c, 2, big); unary(c, a); pair(c, a, any_shape(c, 2, big));
		}},
		{"coordinates", [](mc::Ctx& c) { coords(c, any_shape(c, c.thorough() ? 6 : 5, {1, 2, 3, 4}, 1)); }},
		{"coordinates_long", [](mc::Ctx& c) { coords(c, any_shape(c, 3, {1, 7, 16, 31}, 1)); }},
	});
}
