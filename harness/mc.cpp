#include <malloc.h>
#include "mc.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <dirent.h>
#include <new>
#include <atomic>
#include <algorithm>
#include <unordered_map>

static std::atomic<long> g_live(0);
extern "C" void mc_alloc_hook (void* p, size_t n) __attribute__((weak));
extern "C" bool mc_free_hook (void* p, size_t n) __attribute__((weak)); // true: keeps the memory
void* operator new (size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); g_live.fetch_add(1, std::memory_order_relaxed); if (mc_alloc_hook) mc_alloc_hook(p, n); return p; }
void* operator new[] (size_t n) { return operator new(n); }
void operator delete (void* p) noexcept { if (p) { g_live.fetch_sub(1, std::memory_order_relaxed); if (mc_free_hook && mc_free_hook(p, malloc_usable_size(p))) return; free(p); } }
void operator delete[] (void* p) noexcept { operator delete(p); }
void operator delete (void* p, size_t) noexcept { operator delete(p); }
void operator delete[] (void* p, size_t) noexcept { operator delete(p); }

extern "C" const char* __asan_default_options (void)
{ return "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:symbolize=0:detect_stack_use_after_return=0:handle_abort=0:max_malloc_fill_size=4096:malloc_fill_byte=190:quarantine_size_mb=24:thread_local_quarantine_size_kb=256"; }
extern "C" const char* __ubsan_default_options (void)
{ return "print_stacktrace=0:halt_on_error=1:exitcode=98"; }

namespace mc
{

long live_blocks (void) { return g_live.load(); }

static const size_t NSTATES = size_t(1) << 23;

struct WorkerShm
{
	volatile int len;              // choices made in the current execution
	int choice[MAXPATH];
	int width[MAXPATH];
	char key[KEYLEN];
	char trace[TRACELEN];
	volatile int tracelen;
	volatile uint64_t execs;       // completed executions
	volatile uint64_t pruned;
	volatile uint64_t steps;
	volatile uint64_t checks;
	volatile uint64_t heartbeat;
	volatile int in_exec;
	volatile int done;
	volatile int nviol;
	volatile int maxdepth;
};

static WorkerShm* W = nullptr;      // this worker
static uint64_t* states_tbl = nullptr;
static std::atomic<uint64_t>* states_cnt = nullptr;
static bool g_thorough = false, g_replay = false;
static std::vector<std::pair<int,int> > g_path; // forced prefix
static int g_pos = 0;
static int g_nworkers = 1, g_worker = 0, g_split = 2;
static uint64_t g_split_hash;
// which worker explores which prefix of choices: claimed by the first to get there
static const size_t NCLAIMS = size_t(1) << 20;
static std::atomic<uint64_t>* claims_tbl = nullptr;
static bool mine (void)
{
	uint64_t h = g_split_hash & ~(uint64_t) 0xff, me = g_worker + 1;
	for (size_t k = 0, i = (h >> 17) & (NCLAIMS - 1); k < 4096; k++, i = (i + 1) & (NCLAIMS - 1))
	{
		uint64_t cur = claims_tbl[i].load();
		if (cur == 0 && claims_tbl[i].compare_exchange_strong(cur, h | me)) return true;
		if ((cur & ~(uint64_t) 0xff) == h) return (cur & 0xff) == me;
	}
	return (h >> 17) % g_nworkers == (uint64_t) g_worker; // full
}
static std::string g_scratch;
static int g_report_fd = -1;
static Ctx g_ctx;

static double now (void)
{
	timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts);
	return ts.tv_sec + ts.tv_nsec * 1e-9;
}

uint64_t fnv (const void* p, size_t n, uint64_t h)
{
	const unsigned char* c = (const unsigned char*) p;
	for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
	return h;
}

std::string fmt (const char* f, ...)
{
	char buf[4096];
	va_list ap; va_start(ap, f);
	vsnprintf(buf, sizeof buf, f, ap);
	va_end(ap);
	return buf;
}

static void vnote (const char* f, va_list ap)
{
	char buf[1024];
	int n = vsnprintf(buf, sizeof buf, f, ap);
	if (n > (int) sizeof buf - 1) n = sizeof buf - 1;
	int l = W->tracelen;
	if (l + n + 3 < TRACELEN)
	{
		memcpy(W->trace + l, buf, n);
		W->trace[l+n] = ';'; W->trace[l+n+1] = ' '; W->trace[l+n+2] = 0;
		W->tracelen = l + n + 2;
	}
	if (g_replay) { fprintf(stderr, "  step: %s\n", buf); }
}

int Ctx::choose (int n, const char* what)
{
	if (n <= 0) throw Prune();
	int c = 0;
	if (g_pos < (int) g_path.size())
	{
		c = g_path[g_pos].first;
		if (g_path[g_pos].second != n)
		{
			if (g_path[g_pos].second != -1)
			{
				fprintf(stderr, "mc: nondeterministic scenario: choice %d (%s) had width %d, now %d\n",
					g_pos, what ? what : "?", g_path[g_pos].second, n);
				_exit(77);
			}
			g_path[g_pos].second = n;
		}
		if (c >= n) { fprintf(stderr, "mc: bad replay choice\n"); _exit(77); }
	}
	else
	{
		if (g_path.capacity() < (size_t) MAXPATH) { long live = g_live.load(); g_path.reserve(MAXPATH); g_live.store(live); }
		g_path.push_back({0, n});
	}
	if (g_pos >= MAXPATH) { fprintf(stderr, "mc: path too long\n"); _exit(77); }
	W->choice[g_pos] = c; W->width[g_pos] = n; W->len = g_pos + 1;
	g_pos++;
	if (g_pos > W->maxdepth) W->maxdepth = g_pos;
	if (!g_replay && g_nworkers > 1 && g_pos <= g_split)
	{
		g_split_hash = (g_split_hash ^ (uint64_t)(c + 1)) * 1099511628211ull;
		if (g_pos == g_split && !mine())
			throw Prune();
	}
	return c;
}

void Ctx::step (const char* f, ...)
{
	W->steps++; W->heartbeat++;
	va_list ap; va_start(ap, f); vnote(f, ap); va_end(ap);
}
void Ctx::note (const char* f, ...)
{
	va_list ap; va_start(ap, f); vnote(f, ap); va_end(ap);
}
void Ctx::key (const std::string& k)
{
	strncpy(W->key, k.c_str(), KEYLEN - 1); W->key[KEYLEN-1] = 0;
}
void Ctx::state (uint64_t h)
{
	if (h == 0) h = 1;
	if (states_cnt->load() > NSTATES * 3 / 4) return;
	size_t i = (h * 0x9E3779B97F4A7C15ull) & (NSTATES - 1);
	for (;;)
	{
		uint64_t cur = __atomic_load_n(&states_tbl[i], __ATOMIC_RELAXED);
		if (cur == h) return;
		if (cur == 0)
		{
			uint64_t exp = 0;
			if (__atomic_compare_exchange_n(&states_tbl[i], &exp, h, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED))
			{ states_cnt->fetch_add(1); return; }
			if (exp == h) return;
		}
		i = (i + 1) & (NSTATES - 1);
	}
}
void Ctx::state (const std::string& s) { state(hstr(s)); }
static std::unordered_map<uint64_t,int> g_seen;
static int g_forced = 0;
bool Ctx::seen (uint64_t h, int remaining)
{
	if (g_replay || g_pos < g_forced || (g_nworkers > 1 && g_pos < g_split)) return false;
	auto it = g_seen.find(h);
	if (it != g_seen.end() && it->second >= remaining) return true;
	long live = g_live.load();   // the explorer's own memory is not the scenario's
	g_seen[h] = remaining;
	g_live.store(live);
	return false;
}
bool Ctx::seen (const std::string& s, int remaining) { return seen(hstr(s), remaining); }
void Ctx::check (bool ok, const char* f, ...)
{
	W->checks++;
	if (ok) return;
	char buf[2048];
	va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
	throw Violation{buf};
}
void Ctx::fail (const std::string& msg) { throw Violation{msg}; }
bool Ctx::thorough (void) const { return g_thorough; }
bool Ctx::replaying (void) const { return g_replay; }
const std::string& Ctx::scratch (void) const { return g_scratch; }

static std::string esc (const std::string& s)
{
	std::string o;
	for (unsigned char c : s)
	{
		if (c == '"' || c == '\\') { o += '\\'; o += c; }
		else if (c == '\n') o += "\\n";
		else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
		else o += c;
	}
	return o;
}

static std::string path_str (const WorkerShm* w)
{
	std::string s;
	for (int i = 0; i < w->len; i++) { if (i) s += ","; s += std::to_string(w->choice[i]); }
	return s;
}

static void report (int fd, const std::string& scen, const WorkerShm* w, const std::string& kind, const std::string& msg)
{
	std::string line = "{\"scenario\":\"" + esc(scen) + "\",\"kind\":\"" + kind + "\",\"key\":\"" + esc(w->key) +
		"\",\"path\":\"" + path_str(w) + "\",\"message\":\"" + esc(msg) + "\",\"trace\":\"" + esc(w->trace) + "\"}\n";
	ssize_t r = write(fd, line.data(), line.size()); (void) r;
}

static void clear_dir (const std::string& d)
{
	DIR* dir = opendir(d.c_str());
	if (!dir) return;
	while (dirent* e = readdir(dir))
	{
		if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
		unlink((d + "/" + e->d_name).c_str());
	}
	closedir(dir);
}

// one execution. 0 = ok, 1 = violation, 2 = pruned
static int execute (const Scenario& sc, std::string& msg)
{
	g_pos = 0; g_split_hash = 1469598103934665603ull;
	g_forced = g_path.size();
	W->len = 0; W->key[0] = 0; W->trace[0] = 0; W->tracelen = 0;
	W->in_exec = 1;
	int res = 0;
	try
	{
		sc.fn(g_ctx);
		if (!g_replay && g_nworkers > 1 && g_pos < g_split && !mine())
			res = 2;
	}
	catch (Prune&) { res = 2; }
	catch (Violation& v) { res = 1; msg = v.msg; }
	catch (std::exception& e) { res = 1; msg = std::string("unexpected exception: ") + e.what(); }
	catch (...) { res = 1; msg = "unexpected exception of unknown type"; }
	if (res == 1 && !g_replay && g_nworkers > 1 && g_pos < g_split && !mine())
		res = 2;
	W->in_exec = 0; W->heartbeat++;
	return res;
}

static bool advance (void)
{
	g_path.resize(std::min((size_t) g_pos, g_path.size()));
	while (!g_path.empty())
	{
		if (g_path.back().first + 1 < g_path.back().second) { g_path.back().first++; return true; }
		g_path.pop_back();
	}
	return false;
}

static const int MAXVIOL = 12; // per worker and distinct key
static const Scenario* g_scenario = nullptr;

void count_check (void) { W->checks++; }
// end this process in the middle of an execution, from any thread
[[noreturn]] void abandon (const std::string& msg, bool pruned)
{
	if (g_replay) { fprintf(stderr, "REPLAY: violation key=%s: %s\n", W->key, msg.c_str()); fflush(nullptr); _exit(1); }
	if (!pruned && g_nworkers > 1 && g_pos < g_split && !mine()) pruned = true;
	if (pruned) W->pruned++;
	else { W->execs++; report(g_report_fd, g_scenario->name, W, "check", msg); W->nviol++; }
	W->in_exec = 0;
	_exit(76);
}

static void worker_loop (const Scenario& sc, bool resume)
{
	g_scenario = &sc;
	static std::map<std::string,int> seen;
	W->in_exec = 0;
	if (resume)
	{
		g_path.clear();
		for (int i = 0; i < W->len; i++) g_path.push_back({W->choice[i], W->width[i]});
		g_pos = W->len;
		if (!advance()) { W->done = 1; return; }
	}
	else g_path.clear();
	for (;;)
	{
		std::string msg;
		int r = execute(sc, msg);
		if (r == 2) W->pruned++; else W->execs++;
		if (r == 1)
		{
			std::string k = W->key;
			if (seen[k]++ < MAXVIOL) report(g_report_fd, sc.name, W, "check", msg);
			W->nviol++;
			// whatever the interrupted execution left behind must not reach the next one
			fflush(nullptr);
			_exit(76);
		}
		if (!advance()) break;
	}
	W->done = 1;
}

static std::string tail_of (const std::string& f)
{
	FILE* fp = fopen(f.c_str(), "r");
	if (!fp) return "";
	std::string s; char b[4096]; size_t n;
	while ((n = fread(b, 1, sizeof b, fp)) > 0) { s.append(b, n); if (s.size() > 200000) break; }
	fclose(fp);
	std::vector<std::string> lines; size_t p = 0; std::string out;
	const char* interesting[] = {"ERROR:", "runtime error", "Assertion", "terminate", "what()", "mc:", "READ of", "WRITE of", "SUMMARY"};
	while (p < s.size())
	{
		size_t e = s.find('\n', p); if (e == std::string::npos) e = s.size();
		std::string l = s.substr(p, e - p); p = e + 1;
		for (const char* k : interesting) if (l.find(k) != std::string::npos) { out += l.substr(0, 300) + " | "; break; }
		if (out.size() > 1500) break;
	}
	return out;
}

int run (int argc, char** argv, const std::vector<Scenario>& scenarios)
{
	std::string out, outdir = ".", replay_scen, replay_path, only;
	int nworkers = (int) sysconf(_SC_NPROCESSORS_ONLN);
	double budget = 1e9;
	bool list = false;
	for (int i = 1; i < argc; i++)
	{
		std::string a = argv[i];
		auto next = [&]{ return std::string(i + 1 < argc ? argv[++i] : ""); };
		if (a == "--tier") g_thorough = next() == "thorough";
		else if (a == "--out") out = next();
		else if (a == "--dir") outdir = next();
		else if (a == "--workers") nworkers = atoi(next().c_str());
		else if (a == "--budget") budget = atof(next().c_str());
		else if (a == "--only") only = next();
		else if (a == "--list") list = true;
		else if (a == "--replay") { replay_scen = next(); replay_path = next(); }
	}
#ifndef __SANITIZE_ADDRESS__
	mallopt(M_PERTURB, 0xA5);   // make reads of fresh or freed memory visible
#endif
	if (list) { for (auto& s : scenarios) printf("%s\n", s.name.c_str()); return 0; }
	size_t shsz = sizeof(WorkerShm) * (nworkers + 1);
	WorkerShm* shm = (WorkerShm*) mmap(nullptr, shsz, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
	states_tbl = (uint64_t*) mmap(nullptr, NSTATES * 8, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
	claims_tbl = (std::atomic<uint64_t>*) mmap(nullptr, NCLAIMS * 8, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
	states_cnt = (std::atomic<uint64_t>*) mmap(nullptr, 4096, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);

	if (!replay_scen.empty())
	{
		g_replay = true; W = shm; g_nworkers = 1;
		g_scratch = outdir + "/scratch_replay";
		mkdir(g_scratch.c_str(), 0700); clear_dir(g_scratch);
		size_t p = 0;
		while (p < replay_path.size())
		{
			size_t e = replay_path.find(',', p); if (e == std::string::npos) e = replay_path.size();
			g_path.push_back({atoi(replay_path.substr(p, e - p).c_str()), -1}); p = e + 1;
		}
		for (auto& s : scenarios) if (s.name == replay_scen)
		{
			std::string msg;
			int r = execute(s, msg);
			fprintf(stderr, r == 1 ? "REPLAY: violation key=%s: %s\n" : r == 0 ? "REPLAY: no violation %s%s\n" : "REPLAY: pruned%s%s\n", W->key, msg.c_str());
			return r == 1;
		}
		fprintf(stderr, "no scenario %s\n", replay_scen.c_str());
		return 2;
	}

	std::string viol = outdir + "/violations.jsonl";
	int vfd = open(viol.c_str(), O_CREAT|O_TRUNC|O_WRONLY|O_APPEND, 0644);
	std::string js = "{\"scenarios\":[";
	double t0 = now();
	bool first = true;
	// development aid: stop after this many violating executions instead of listing the distinct violations
	const char* first_env = getenv("MC_FIRST");
	int stop_after = first_env ? atoi(first_env) : 0, bad = 0;
	bool stopped = false;
	uint64_t prevstates = 0;
	for (auto& sc : scenarios)
	{
		if (sc.only_thorough && !g_thorough) continue;
		if (stopped) break;
		bad = 0;
		if (!only.empty() && sc.name != only) continue;
		double ts = now();
		memset(shm, 0, shsz);
		memset((void*) claims_tbl, 0, NCLAIMS * 8);
		std::vector<pid_t> pids(nworkers, -1);
		std::vector<uint64_t> beat(nworkers, 0);
		std::vector<double> beat_t(nworkers, ts);
		std::vector<int> crashes(nworkers, 0);
		std::map<std::string,int> crash_keys;
		bool complete = true;
		int ncrash = 0;
		std::string samples;
		auto spawn = [&](int w, bool resume)
		{
			std::string errf = outdir + "/err." + std::to_string(w);
			fflush(stdout); fflush(stderr);
			pid_t p = fork();
			if (p == 0)
			{
				int efd = open(errf.c_str(), O_CREAT|O_TRUNC|O_WRONLY, 0644);
				int nfd = open("/dev/null", O_WRONLY);
				dup2(efd, 2); dup2(nfd, 1);
				W = &shm[w]; g_worker = w; g_nworkers = nworkers; g_split = sc.split; g_report_fd = vfd;
				g_scratch = outdir + "/scratch_" + std::to_string(w);
				mkdir(g_scratch.c_str(), 0700); clear_dir(g_scratch);
				worker_loop(sc, resume);
				_exit(0);
			}
			pids[w] = p; beat_t[w] = now(); beat[w] = shm[w].heartbeat;
		};
		for (int w = 0; w < nworkers; w++) spawn(w, false);
		int alive = nworkers;
		// enough is known about this scenario: end the other workers too
		auto stop_all = [&](void) { for (int i = 0; i < nworkers; i++) if (pids[i] > 0) { shm[i].done = 2; kill(pids[i], SIGKILL); } };
		while (alive > 0)
		{
			int st; pid_t p = waitpid(-1, &st, WNOHANG);
			if (p == 0 || p < 0)
			{
				usleep(2000);
				double t = now();
				for (int w = 0; w < nworkers; w++) if (pids[w] > 0)
				{
					if (shm[w].heartbeat != beat[w]) { beat[w] = shm[w].heartbeat; beat_t[w] = t; }
					else if (t - beat_t[w] > sc.timeout && shm[w].in_exec) { kill(pids[w], SIGKILL); beat_t[w] = t + 1e6; }
					if (t - t0 > budget) { complete = false; shm[w].done = 2; kill(pids[w], SIGKILL); }
				}
				continue;
			}
			int w = -1;
			for (int i = 0; i < nworkers; i++) if (pids[i] == p) w = i;
			if (w < 0) continue;
			pids[w] = -1;
			if (shm[w].done) { alive--; continue; }
			if (WIFEXITED(st) && WEXITSTATUS(st) == 76)
			{
				if (++bad > stop_after && first_env) stopped = true;
				if (stopped || shm[w].nviol > 150) { complete = false; alive--; stop_all(); continue; }
				spawn(w, true);
				continue;
			}
			// died in the middle of an execution
			std::string msg;
			if (WIFSIGNALED(st)) msg = WTERMSIG(st) == SIGKILL && beat_t[w] > now() + 1e5 ?
				fmt("execution did not finish within %d s (hang)", sc.timeout) : fmt("killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
			else if (WEXITSTATUS(st) == 99) msg = "address sanitizer report";
			else if (WEXITSTATUS(st) == 98) msg = "undefined behaviour sanitizer report";
			else msg = fmt("exited with status %d", WEXITSTATUS(st));
			bool machinery = WIFEXITED(st) && WEXITSTATUS(st) == 77;
			msg += " | " + tail_of(outdir + "/err." + std::to_string(w));
			ncrash++; crashes[w]++;
			shm[w].execs++;
			if (crash_keys[shm[w].key]++ < MAXVIOL * 2) report(vfd, sc.name, &shm[w], machinery ? "machinery" : "crash", msg);
			if (++bad > stop_after && first_env) stopped = true;
			if (stopped || machinery || crashes[w] > 150) { complete = false; alive--; stop_all(); continue; }
			spawn(w, true);
		}
		uint64_t execs = 0, steps = 0, checks = 0, pruned = 0; int md = 0, nv = 0;
		for (int w = 0; w < nworkers; w++)
		{ execs += shm[w].execs; steps += shm[w].steps; checks += shm[w].checks; pruned += shm[w].pruned; md = std::max(md, (int) shm[w].maxdepth); nv += shm[w].nviol;
			if (samples.size() < 1500 && shm[w].trace[0]) { if (!samples.empty()) samples += ","; samples += "\"" + esc(std::string(shm[w].trace).substr(0, 300)) + "\""; } }
		uint64_t stc = states_cnt->load();
		if (!first) js += ","; first = false;
		js += fmt("{\"name\":\"%s\",\"executions\":%llu,\"transitions\":%llu,\"checks\":%llu,\"states\":%llu,\"max_choices\":%d,\"crashes\":%d,\"violating\":%d,\"complete\":%s,\"wall_s\":%.2f,\"samples\":[",
			esc(sc.name).c_str(), (unsigned long long) execs, (unsigned long long) steps, (unsigned long long) checks, (unsigned long long)(stc - prevstates), md, ncrash, nv, complete ? "true" : "false", now() - ts) + samples + "]}";
		prevstates = stc;
		fprintf(stderr, "%-34s executions=%llu transitions=%llu checks=%llu newstates=%llu depth=%d crashes=%d violating=%d %s %.1fs\n", sc.name.c_str(),
			(unsigned long long) execs, (unsigned long long) steps, (unsigned long long) checks, (unsigned long long) stc, md, ncrash, nv, complete ? "complete" : "INCOMPLETE", now() - ts);
	}
	js += fmt("],\"states\":%llu,\"wall_s\":%.2f}", (unsigned long long) states_cnt->load(), now() - t0);
	if (!out.empty()) { FILE* f = fopen(out.c_str(), "w"); if (!f) return 2; fputs(js.c_str(), f); fclose(f); }
	return 0;
}

}
