// link-consistency: the two directions of every observer/subject link agree, for
// every sequence of link operations, against a model of argument slots.
#include "mc.hpp"
#include <memory>
#include <algorithm>
#include "graph/react/iobserver.hpp"
using namespace nnet;

struct Sub;
struct World;
static World* W = nullptr;

struct Sub : public subject
{
	std::string get_label (void) const { return "mock"; }
	std::string get_name (void) const { return "mock"; }
	std::string get_summaryid (void) const { return "mock"; }
	int id; bool* dead;
	Sub (int i, bool* d) : id(i), dead(d) { *dead = false; }
	Sub (const Sub& o, int i, bool* d) : subject(o), id(i), dead(d) { *dead = false; }
	Sub (Sub&& o, int i, bool* d) : subject(std::move(o)), id(i), dead(d) { *dead = false; }
	~Sub (void) { *dead = true; }
	Sub& operator = (const Sub& o) { subject::operator = (o); return *this; }
	Sub& operator = (Sub&& o) { subject::operator = (std::move(o)); return *this; }
	const std::unordered_map<iobserver*, std::unordered_set<size_t> >& aud (void) const { return audience_; }
};

struct Obs : public iobserver
{
	std::string get_label (void) const { return "mock"; }
	std::string get_name (void) const { return "mock"; }
	std::string get_summaryid (void) const { return "mock"; }
	int id; bool* dead; bool fragile;
	std::vector<std::set<size_t> > updates;
	int broken = 0;
	Obs (int i, bool* d, bool f) : iobserver(i % 2 == 0), id(i), dead(d), fragile(f) { *dead = false; }
	Obs (std::vector<subject*> deps, int i, bool* d, bool f) : iobserver(deps, i % 2 == 0), id(i), dead(d), fragile(f) { *dead = false; }
	Obs (const Obs& o, int i, bool* d) : iobserver(o), id(i), dead(d), fragile(o.fragile) { *dead = false; }
	Obs (Obs&& o, int i, bool* d) : iobserver(std::move(o)), id(i), dead(d), fragile(o.fragile) { *dead = false; }
	~Obs (void) { *dead = true; }
	Obs& operator = (const Obs& o) { iobserver::operator = (o); return *this; }
	Obs& operator = (Obs&& o) { iobserver::operator = (std::move(o)); return *this; }
	virtual void update (std::unordered_set<size_t> a) { updates.push_back(std::set<size_t>(a.begin(), a.end())); }
	virtual void death_on_broken (void);
	void add (subject* s) { add_dependency(s); }
	void remove (size_t i) { remove_dependency(i); }
	void replace (subject* s, size_t i) { replace_dependency(s, i); }
	void ondeath (subject* s) { add_ondeath_dependent(s); }
	void unondeath (subject* s) { remove_ondeath_dependent(s); }
	const std::vector<subject*>& deps (void) const { return dependencies_; }
};
void Obs::death_on_broken (void) { broken++; if (fragile) { broken = 0; delete this; } }

static const int MAXO = 4, MAXS = 4;

struct World
{
	mc::Ctx& c;
	Sub* s[MAXS] = {}; bool sdead[MAXS] = {};
	Obs* o[MAXO] = {}; bool odead[MAXO] = {};
	// model
	bool salive[MAXS] = {}, oalive[MAXO] = {}, ofrag[MAXO] = {}, orec[MAXO] = {};
	int broken[MAXO] = {};
	std::vector<int> deps[MAXO];      // subject id or -1
	std::set<int> kills[MAXO];        // subjects dying with the observer
	World (mc::Ctx& c) : c(c) {}

	void new_s (int i) { s[i] = new Sub(i, &sdead[i]); salive[i] = true; }
	void new_o (int i, bool frag)
	{ o[i] = new Obs(i, &odead[i], frag); oalive[i] = true; ofrag[i] = frag; orec[i] = i % 2 == 0; broken[i] = 0; deps[i].clear(); kills[i].clear(); }
	void trim (int i) { while (!deps[i].empty() && deps[i].back() < 0) deps[i].pop_back(); }

	void m_kill_s (int i)
	{
		if (!salive[i]) return;
		salive[i] = false;
		for (int k = 0; k < MAXO; k++) if (oalive[k])
		{
			kills[k].erase(i);
			bool had = false;
			for (int& d : deps[k]) if (d == i) { d = -1; had = true; }
			if (!had) continue;
			trim(k);
			if (ofrag[k]) m_kill_o(k); else broken[k]++;
		}
	}
	void m_kill_o (int k)
	{
		if (!oalive[k]) return;
		oalive[k] = false;
		deps[k].clear();
		std::set<int> d = kills[k];
		kills[k].clear();
		for (int i : d) m_kill_s(i);
	}

	void verify (void)
	{
		for (int i = 0; i < MAXS; i++)
		{
			if (!s[i]) continue;
			c.check(sdead[i] == !salive[i], "subject s%d is %s, expected %s", i, sdead[i] ? "destroyed" : "alive", salive[i] ? "alive" : "destroyed");
			if (!salive[i]) continue;
			std::map<int, std::set<size_t> > want, got;
			for (int k = 0; k < MAXO; k++) if (oalive[k])
				for (size_t q = 0; q < deps[k].size(); q++) if (deps[k][q] == i) want[k].insert(q);
			for (auto& p : s[i]->aud())
			{
				int k = -1;
				for (int z = 0; z < MAXO; z++) if (oalive[z] && (iobserver*) o[z] == p.first) k = z;
				c.check(k >= 0, "s%d keeps an observer that is gone", i);
				got[k] = std::set<size_t>(p.second.begin(), p.second.end());
			}
			c.check(want == got, "audience of s%d differs from the argument slots that hold it", i);
			c.check(s[i]->n_audience() == want.size() && s[i]->no_audience() == want.empty(), "n_audience/no_audience of s%d", i);
		}
		for (int k = 0; k < MAXO; k++)
		{
			if (!o[k]) continue;
			c.check(odead[k] == !oalive[k], "observer o%d is %s, expected %s", k, odead[k] ? "destroyed" : "alive", oalive[k] ? "alive" : "destroyed");
			if (!oalive[k]) continue;
			std::vector<int> got;
			for (subject* p : o[k]->deps())
			{
				int z = -2;
				if (!p) z = -1;
				for (int i = 0; i < MAXS; i++) if (s[i] && salive[i] && (subject*) s[i] == p) z = i;
				got.push_back(z);
			}
			c.check(got == deps[k], "argument slots of o%d are %s, expected %s", k, mc::vstr(got).c_str(), mc::vstr(deps[k]).c_str());
			for (int i = 0; i < MAXS; i++) if (s[i] && salive[i])
				c.check(o[k]->has_subject(s[i]) == (std::find(deps[k].begin(), deps[k].end(), i) != deps[k].end()), "has_subject(o%d, s%d)", k, i);
			c.check(o[k]->broken == broken[k], "o%d was told %d times that it is broken, expected %d", k, o[k]->broken, broken[k]);
			c.check(o[k]->is_recordable() == orec[k], "recordable flag of o%d", k);
		}
	}
	std::string canon (void)
	{
		std::string r;
		for (int i = 0; i < MAXS; i++) r += salive[i] ? 'S' : (s[i] ? 'd' : '.');
		for (int k = 0; k < MAXO; k++)
		{
			r += oalive[k] ? 'O' : (o[k] ? 'd' : '.');
			if (!oalive[k]) continue;
			r += ofrag[k] ? 'f' : 'p'; r += orec[k] ? 'r' : 'n'; r += std::to_string(broken[k]) + "[";
			for (int d : deps[k]) r += std::to_string(d) + ",";
			r += "]";
			for (int d : kills[k]) r += "k" + std::to_string(d);
			// the set of hash orders an observer was linked in is implementation state the model does not see
		}
		return r;
	}
	bool cut = false;
	~World (void)
	{
		if (!cut) return;
		// only reached with live objects when an execution was cut short
		for (int k = 0; k < MAXO; k++) if (oalive[k] && !odead[k]) { m_kill_o(k); delete o[k]; }
		for (int i = 0; i < MAXS; i++) if (salive[i] && !sdead[i]) { m_kill_s(i); delete s[i]; }
	}
	void finish (void)
	{
		int order = c.choose(2, "teardown order");
		for (int phase = 0; phase < 2; phase++)
		{
			if (phase == order) { for (int k = 0; k < MAXO; k++) if (oalive[k]) { c.note("delete o%d", k); m_kill_o(k); delete o[k]; verify(); } }
			else { for (int i = 0; i < MAXS; i++) if (salive[i]) { c.note("delete s%d", i); m_kill_s(i); delete s[i]; verify(); } }
		}
	}
};

static const std::vector<std::pair<std::vector<int>,std::vector<int> > > starts = {
		{{}, {}}, {{0,0}, {1}}, {{0,1}, {0,0}}, {{0,1,0}, {}}, {{-1,0}, {1,-1}}, {{0,-1,-1}, {1,-1,0}} };

enum Set { LINKS, COPIES, DEATHS };

static void run_ops (mc::Ctx& c, int depth, Set set)
{
	{ bool d; delete new Sub(0, &d); delete new Obs(0, &d, false); } // lazily made globals
	long live0 = mc::live_blocks();
	{
	World w(c); W = &w;
	int ns = 2;
	for (int i = 0; i < ns; i++) w.new_s(i);
	bool frag = set == DEATHS ? c.flip("fragile") : false;
	w.new_o(0, false); w.new_o(1, frag);
	// start from: empty, or a few populated configurations
	auto st = c.pick(starts, "start");
	if (set == LINKS) { delete w.o[0]; w.m_kill_o(0); w.o[0] = nullptr; w.odead[0] = false; w.oalive[0] = true; w.ofrag[0] = false;
		std::vector<subject*> v; for (int d : st.first) v.push_back(d < 0 ? nullptr : w.s[d]);
		w.o[0] = new Obs(v, 0, &w.odead[0], false); w.deps[0] = st.first; w.orec[0] = true; w.broken[0] = 0; }
	else for (int d : st.first) { w.o[0]->add(d < 0 ? nullptr : w.s[d]); w.deps[0].push_back(d); }
	for (int d : st.second) { w.o[1]->add(d < 0 ? nullptr : w.s[d]); w.deps[1].push_back(d); }
	c.note("start o0=%s o1=%s%s", mc::vstr(w.deps[0]).c_str(), mc::vstr(w.deps[1]).c_str(), frag ? " o1 dies when broken" : "");
	w.verify();
	for (int d = 0; d < depth; d++)
	{
		std::vector<int> os, ss;
		for (int k = 0; k < MAXO; k++) if (w.oalive[k]) os.push_back(k);
		for (int i = 0; i < MAXS; i++) if (w.salive[i]) ss.push_back(i);
		int fo = -1, fs = -1;
		for (int k = MAXO; k-- > 0;) if (!w.o[k]) fo = k;
		for (int i = MAXS; i-- > 0;) if (!w.s[i]) fs = i;
		if (os.empty()) break;
		std::vector<int> sn = ss; sn.push_back(-1);
		std::vector<int> ops;
		if (set == LINKS) ops = {0, 1, 2, 3, 4};
		if (set == COPIES) ops = {2, 5, 6, 7, 8, 9, 10, 11, 12, 13};
		if (set == DEATHS) ops = {0, 4, 14, 15, 16, 17, 3, 13};
		int op = c.pick(ops, "op");
		int o = c.pick(os, "observer");
		switch (op)
		{
		case 0: { // add
			int s = c.pick(sn);
			c.step("o%d.add_dependency(%d)", o, s);
			w.o[o]->add(s < 0 ? nullptr : w.s[s]); w.deps[o].push_back(s);
			break; }
		case 1: { // remove
			int i = c.choose(w.deps[o].size() + 2);
			c.step("o%d.remove_dependency(%d)", o, i);
			bool threw = false;
			try { w.o[o]->remove(i); } catch (std::logic_error&) { threw = true; }
			c.check(threw == (i >= (int) w.deps[o].size()), "remove_dependency(%d) with %zu arguments %s", i, w.deps[o].size(), threw ? "threw" : "did not throw");
			if (i < (int) w.deps[o].size() && w.deps[o][i] >= 0) { w.deps[o][i] = -1; w.trim(o); }
			break; }
		case 2: { // replace
			int s = c.pick(sn), i = c.choose(std::min<size_t>(w.deps[o].size() + 2, 4));
			c.step("o%d.replace_dependency(%d, %d)", o, s, i);
			w.o[o]->replace(s < 0 ? nullptr : w.s[s], i);
			while ((int) w.deps[o].size() <= i) w.deps[o].push_back(-1);
			w.deps[o][i] = s;
			break; }
		case 3: { // notify
			if (ss.empty()) { w.cut = true; c.prune(); }
			int s = c.pick(ss);
			c.step("s%d.notify(UPDATE)", s);
			for (int k : os) w.o[k]->updates.clear();
			w.s[s]->notify(UPDATE);
			for (int k : os)
			{
				std::set<size_t> want;
				for (size_t q = 0; q < w.deps[k].size(); q++) if (w.deps[k][q] == s) want.insert(q);
				if (want.empty()) c.check(w.o[k]->updates.empty(), "o%d does not depend on s%d but was updated", k, s);
				else c.check(w.o[k]->updates.size() == 1 && w.o[k]->updates[0] == want, "o%d updated %zu times, or with the wrong argument indices", k, w.o[k]->updates.size());
			}
			break; }
		case 4: { // destroy an observer
			c.step("delete o%d", o);
			w.m_kill_o(o); delete w.o[o];
			break; }
		case 5: { // copy construct observer
			if (fo < 0) { w.cut = true; c.prune(); }
			c.step("o%d = copy of o%d", fo, o);
			w.o[fo] = new Obs(*w.o[o], fo, &w.odead[fo]);
			w.oalive[fo] = true; w.ofrag[fo] = w.ofrag[o]; w.orec[fo] = w.orec[o]; w.deps[fo] = w.deps[o]; w.broken[fo] = 0;
			break; }
		case 6: { // move construct observer
			if (fo < 0) { w.cut = true; c.prune(); }
			c.step("o%d moved from o%d", fo, o);
			w.o[fo] = new Obs(std::move(*w.o[o]), fo, &w.odead[fo]);
			w.oalive[fo] = true; w.ofrag[fo] = w.ofrag[o]; w.orec[fo] = w.orec[o]; w.deps[fo] = w.deps[o]; w.broken[fo] = 0;
			w.deps[o].clear();
			break; }
		case 7: { // copy assign (self included)
			int p = c.pick(os);
			c.step("o%d = o%d", p, o);
			*w.o[p] = *w.o[o]; w.deps[p] = w.deps[o]; w.orec[p] = w.orec[o];
			break; }
		case 8: { // move assign
			int p = c.pick(os);
			c.step("o%d = move(o%d)", p, o);
			*w.o[p] = std::move(*w.o[o]);
			if (p != o) { w.deps[p] = w.deps[o]; w.deps[o].clear(); w.orec[p] = w.orec[o]; }
			break; }
		case 9: { // subject copy construct: a copy starts without audience
			if (fs < 0 || ss.empty()) { w.cut = true; c.prune(); }
			int s = c.pick(ss);
			c.step("s%d = copy of s%d", fs, s);
			w.s[fs] = new Sub(*w.s[s], fs, &w.sdead[fs]); w.salive[fs] = true;
			break; }
		case 10: { // subject move construct: takes the audience over
			if (fs < 0 || ss.empty()) { w.cut = true; c.prune(); }
			int s = c.pick(ss);
			c.step("s%d moved from s%d", fs, s);
			w.s[fs] = new Sub(std::move(*w.s[s]), fs, &w.sdead[fs]); w.salive[fs] = true;
			for (auto& dv : w.deps) for (int& x : dv) if (x == s) x = fs;
			break; }
		case 11: { // subject copy assign: audiences unchanged
			if (ss.empty()) { w.cut = true; c.prune(); }
			int s = c.pick(ss), t = c.pick(ss);
			c.step("s%d = s%d", t, s);
			*w.s[t] = *w.s[s];
			break; }
		case 12: { // subject move assign: audience joins
			if (ss.empty()) { w.cut = true; c.prune(); }
			int s = c.pick(ss), t = c.pick(ss);
			c.step("s%d = move(s%d)", t, s);
			*w.s[t] = std::move(*w.s[s]);
			for (auto& dv : w.deps) for (int& x : dv) if (x == s) x = t;
			break; }
		case 13: { // steal
			if (ss.empty()) { w.cut = true; c.prune(); }
			int s = c.pick(ss), t = c.pick(ss);
			c.step("s%d.steal_observers(s%d)", t, s);
			w.s[t]->steal_observers(w.s[s]);
			for (auto& dv : w.deps) for (int& x : dv) if (x == s) x = t;
			break; }
		case 14: { // destroy subject
			if (ss.empty()) { w.cut = true; c.prune(); }
			int s = c.pick(ss);
			c.step("delete s%d", s);
			w.m_kill_s(s); delete w.s[s];
			break; }
		case 15: { // tie a subject's life to an observer
			if (ss.empty()) { w.cut = true; c.prune(); }
			int s = c.pick(ss);
			c.step("o%d.add_ondeath_dependent(s%d)", o, s);
			w.o[o]->ondeath(w.s[s]); w.kills[o].insert(s);
			break; }
		case 16: {
			if (ss.empty()) { w.cut = true; c.prune(); }
			int s = c.pick(ss);
			c.step("o%d.remove_ondeath_dependent(s%d)", o, s);
			w.o[o]->unondeath(w.s[s]); w.kills[o].erase(s);
			break; }
		case 17: { // new observer
			if (fo < 0) { w.cut = true; c.prune(); }
			bool f = c.flip();
			c.step("new o%d%s", fo, f ? " (dies when broken)" : "");
			w.new_o(fo, f);
			break; }
		}
		w.verify();
		c.state(w.canon());
		if (c.seen(w.canon() + "#" + std::to_string(set), depth - d)) { w.cut = true; c.prune(); }
	}
	w.finish();
	W = nullptr;
	}
	c.check(mc::live_blocks() == live0, "%ld heap blocks leaked", mc::live_blocks() - live0);
}

int main (int argc, char** argv)
{
	return mc::run(argc, argv, {
		{"links", [](mc::Ctx& c) { run_ops(c, c.thorough() ? 6 : 4, LINKS); }, 3},
		{"copies", [](mc::Ctx& c) { run_ops(c, c.thorough() ? 5 : 3, COPIES); }, 3},
		{"deaths", [](mc::Ctx& c) { run_ops(c, c.thorough() ? 6 : 4, DEATHS); }, 3},
	});
}
