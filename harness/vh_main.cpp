#if __has_include(<valgrind/valgrind.h>)
#include <valgrind/valgrind.h>
#endif
#include "vh.h"
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <signal.h>
#include <time.h>
#include <fcntl.h>
#include <unordered_set>
#include <cxxabi.h>

namespace vh
{
struct Fam { std::string name; long q, t; Fn fn; };
static std::vector<Fam>& fams() { static std::vector<Fam> f; return f; }
Reg::Reg(const char* n, long q, long t, Fn f, int) { fams().push_back({n, q, t, f}); }
uint64_t hash_str(const std::string& s)
{
	uint64_t h = 1469598103934665603ULL;
	for(unsigned char ch : s) { h ^= ch; h *= 1099511628211ULL; }
	return h;
}
std::string fmt(const char* f, ...)
{
	char b[2048]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b;
}
static FILE* out = stdout;
static std::map<std::string, long> events;
static std::unordered_set<uint64_t> distinct, distinct_new;
static std::map<std::string, int> vcount;
static std::map<std::string, int> samples;
static long n_eval = 0, n_case = 0, n_nontriv = 0;
static std::string scratch_dir;
const std::string& scratch() { return scratch_dir; }
static std::string clean(std::string s)
{
	for(char& ch : s) if(ch == '\n' || ch == '\t' || ch == '\r') ch = ' ';
	return s;
}
void Case::fail(const std::string& key, const std::string& msg)
{
	failed = true;
	std::string k = std::string(fam) + "/" + key;
	int& n = vcount[k];
	if(++n <= 3)
	{
		fprintf(out, "V\t%s\t%ld\t%s\t%s\n", fam, idx, clean(k).c_str(), clean(msg).c_str());
		fflush(out);
	}
}
bool Case::check(bool ok, const char* key, const char* f, ...)
{
	n_eval++;
	if(!ok)
	{
		char b[2048] = "";
		if(f) { va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); }
		fail(key, b);
	}
	return ok;
}
bool Case::near(double a, double b, double atol, double rtol, const char* key, const char* f, ...)
{
	n_eval++;
	double tol = atol + rtol * std::max(std::fabs(a), std::fabs(b));
	bool ok = (a == b) || std::fabs(a - b) <= tol || (std::isnan(a) && std::isnan(b));
	if(!ok)
	{
		char m[1024] = "";
		if(f) { va_list ap; va_start(ap, f); vsnprintf(m, sizeof m, f, ap); va_end(ap); }
		fail(key, fmt("got %.17g expected %.17g diff %.3g tol %.3g ", a, b, a - b, tol) + m);
	}
	return ok;
}
void Case::ev(const char* name, long n) { events[std::string(fam) + "." + name] += n; }
void Case::nontrivial()
{
	n_nontriv++;
	uint64_t k = mix(h, hash_str(fam));
	if(distinct.size() < 200000 && distinct.insert(k).second) distinct_new.insert(k);
}
void Case::sample(const std::string& s)
{
	if(samples[fam]++ < 2) { fprintf(out, "S\t%s\t%ld\t%s\n", fam, idx, clean(s).substr(0, 600).c_str()); }
}
struct Shm { volatile long fam, idx; volatile long beat; volatile int done; volatile double cpu0; };

static double cpu_now() { timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
static void run_case(const Fam& f, long i, uint64_t seed, bool thorough)
{
	Case c;
	c.fam = f.name.c_str(); c.idx = i; c.seed = seed; c.thorough = thorough;
	c.rng = Rng(mix(mix(seed, hash_str(f.name)), uint64_t(i)));
	n_case++;
	try { f.fn(c); }
	catch(std::exception& e)
	{
		int st; char* d = abi::__cxa_demangle(typeid(e).name(), 0, 0, &st);
		c.fail(std::string("unexpected-exception:") + (d ? d : "?"), e.what()); free(d);
	}
	catch(...)
	{
		std::type_info* ti = abi::__cxa_current_exception_type();
		int st; char* d = ti ? abi::__cxa_demangle(ti->name(), 0, 0, &st) : nullptr;
		c.fail(std::string("unexpected-exception:") + (d ? d : "?"), "non-std exception"); free(d);
	}
}
static void dump_counters(const char* fam)
{
	fprintf(out, "F\t%s\t%ld\t%ld\t%ld\n", fam, n_case, n_eval, n_nontriv);
	n_case = n_eval = n_nontriv = 0;
	for(auto& e : events) fprintf(out, "E\t%s\t%ld\n", e.first.c_str(), e.second);
	events.clear();
	for(uint64_t d : distinct_new) fprintf(out, "D\t%016llx\n", (unsigned long long) d);
	distinct_new.clear();
	for(auto& v : vcount) if(v.second > 3) fprintf(out, "N\t%s\t%d\n", clean(v.first).c_str(), v.second - 3);
	fflush(out);
}
#if __has_include(<valgrind/valgrind.h>)
// which case an error seen by valgrind belongs to
static long vg_errors = 0;
static void vg_mark(const char* fam, long i) { if(!RUNNING_ON_VALGRIND) return; long e = VALGRIND_COUNT_ERRORS; if(e != vg_errors) { vg_errors = e; VALGRIND_PRINTF("VHCASE %s:%ld\n", fam, i); } }
#else
static void vg_mark(const char*, long) {}
#endif
static double budget = 0; // cpu seconds for a family
static void quiet(const std::string& dir, int w)
{
	int fd = open((dir + "/stderr." + std::to_string(w)).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
	int n = open("/dev/null", O_WRONLY);
	fflush(stdout); fflush(stderr);
	dup2(n, 1); dup2(fd, 2); close(n); close(fd);
}
// limit the chatter the library writes to stderr so that files stay small
static void child(int w, int nw, Shm* sh, long f0, long i0, bool single, const std::string& dir, uint64_t seed, bool thorough)
{
	out = fopen((dir + "/res." + std::to_string(w)).c_str(), "a");
	quiet(dir, w);
	scratch_dir = dir + "/scratch." + std::to_string(w);
	mkdir(scratch_dir.c_str(), 0700);
	if(chdir(scratch_dir.c_str())) _exit(97);
	for(long f = f0; f < (long) fams().size(); f++)
	{
		const Fam& fm = fams()[f];
		long n = thorough ? fm.t : fm.q;
		long i = (f == f0) ? i0 : ((w + nw - f % nw) % nw); // rotate so that small families spread over workers
		const double start = cpu_now();
		for(; i < n; i += nw)
		{
			if(budget > 0 && cpu_now() - start > budget) break;
			sh->fam = f; sh->idx = i; sh->cpu0 = cpu_now(); sh->beat++;
			run_case(fm, i, seed, thorough); vg_mark(fm.name.c_str(), i);
			if(single) { dump_counters(fm.name.c_str()); sh->done = 1; fflush(out); _exit(0); }
		}
		dump_counters(fm.name.c_str());
		if(lseek(2, 0, SEEK_CUR) > 4000000) { if(ftruncate(2, 0) == 0) lseek(2, 0, SEEK_SET); }
	}
	sh->done = 1;
	fclose(out);
	_exit(0);
}
}
using namespace vh;
int main(int argc, char** argv)
{
	std::string dir, one, only; uint64_t seed = 1; bool thorough = false; int nw = 8; double limit = 60; double scale = 1;
	for(int i = 1; i < argc; i++)
	{
		std::string a = argv[i];
		if(a == "--out") dir = argv[++i];
		else if(a == "--seed") seed = strtoull(argv[++i], 0, 10);
		else if(a == "--thorough") thorough = true;
		else if(a == "--workers") nw = atoi(argv[++i]);
		else if(a == "--case") one = argv[++i];
		else if(a == "--only") only = argv[++i];
		else if(a == "--limit") limit = atof(argv[++i]);
		else if(a == "--budget") budget = atof(argv[++i]);
		else if(a == "--scale") scale = atof(argv[++i]);
		else if(a == "--list") { for(auto& f : fams()) printf("%s %ld %ld\n", f.name.c_str(), f.q, f.t); return 0; }
	}
	std::sort(fams().begin(), fams().end(), [](const Fam& a, const Fam& b) { return a.name < b.name; });
	if(!only.empty())
	{
		std::vector<Fam> k;
		for(auto& f : fams()) if(("," + only + ",").find("," + f.name + ",") != std::string::npos) k.push_back(f);
		fams() = k;
	}
	if(scale != 1) for(auto& f : fams()) { f.q = std::max(1L, long(f.q * scale)); f.t = std::max(1L, long(f.t * scale)); }
	if(!one.empty())
	{
		size_t p = one.find(':');
		std::string fn = one.substr(0, p); long i = atol(one.c_str() + p + 1);
		scratch_dir = "/tmp/vh_replay." + std::to_string(getpid()); mkdir(scratch_dir.c_str(), 0700);
		for(auto& f : fams()) if(f.name == fn) run_case(f, i, seed, thorough);
		dump_counters(fn.c_str());
		return vcount.empty() ? 0 : 1;
	}
	if(dir.empty()) { fprintf(stderr, "need --out\n"); return 2; }
	Shm* sh = (Shm*) mmap(0, sizeof(Shm) * nw, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	struct W { pid_t pid = 0; long f = 0, i = 0; int crashes = 0; bool single = false; bool fin = false; int retry = 0; };
	std::vector<W> ws(nw);
	FILE* res = fopen((dir + "/res.main").c_str(), "a");
	auto launch = [&](int w) {
			sh[w].done = 0; sh[w].fam = ws[w].f; sh[w].idx = ws[w].i; sh[w].cpu0 = 0;
			fflush(res);
			pid_t p = fork();
			if(p == 0) child(w, nw, &sh[w], ws[w].f, ws[w].i, ws[w].single, dir, seed, thorough);
			ws[w].pid = p;
		};
	for(int w = 0; w < nw; w++) { ws[w].f = 0; ws[w].i = w; launch(w); }
	int alive = nw;
	auto skip = [&](int w) { // continue after the case that went wrong
			ws[w].f = sh[w].fam; ws[w].i = sh[w].idx + nw; ws[w].single = false; ws[w].retry = 0;
			if(++ws[w].crashes > 40) { fprintf(res, "X\tworker %d stopped after too many crashes\n", w); ws[w].fin = true; alive--; return; }
			launch(w);
		};
	int rc = 0;
	while(alive > 0)
	{
		int st; pid_t p = waitpid(-1, &st, WNOHANG);
		if(p == 0)
		{
			usleep(20000);
			for(int w = 0; w < nw; w++)
			{
				if(ws[w].fin || !ws[w].pid) continue;
				clockid_t cid; timespec t;
				if(clock_getcpuclockid(ws[w].pid, &cid) == 0 && clock_gettime(cid, &t) == 0)
				{
					double cpu = t.tv_sec + 1e-9 * t.tv_nsec - sh[w].cpu0;
					if(sh[w].cpu0 > 0 && cpu > limit && cpu < 1e6)
					{
						long b = sh[w].beat; usleep(1000);
						if(b != sh[w].beat) continue;
						kill(ws[w].pid, SIGKILL); waitpid(ws[w].pid, &st, 0);
						if(ws[w].retry == 0) { ws[w].f = sh[w].fam; ws[w].i = sh[w].idx; ws[w].single = true; ws[w].retry = 1; launch(w); }
						else
						{
							fprintf(res, "C\t%s\t%ld\thang\tcpu>%.0fs twice\t%d\t%d\n", fams()[sh[w].fam].name.c_str(), (long) sh[w].idx, limit, ws[w].pid, w);
							skip(w);
						}
					}
				}
			}
			continue;
		}
		if(p < 0) break;
		for(int w = 0; w < nw; w++) if(!ws[w].fin && ws[w].pid == p)
			{
				if(sh[w].done && WIFEXITED(st) && WEXITSTATUS(st) == 0)
				{
					if(ws[w].single) { skip(w); }
					else { ws[w].fin = true; alive--; }
				}
				else if(WIFEXITED(st) && WEXITSTATUS(st) == 97) { fprintf(res, "X\tworker setup failed\n"); ws[w].fin = true; alive--; rc = 2; }
				else if(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)
				{
					fprintf(res, "X\tworker %d killed (out of memory?) at %s:%ld\n", w, fams()[sh[w].fam].name.c_str(), (long) sh[w].idx); rc = 2;
					ws[w].fin = true; alive--;
				}
				else
				{
					fprintf(res, "C\t%s\t%ld\t%s\t%d\t%d\t%d\n", fams()[sh[w].fam].name.c_str(), (long) sh[w].idx,
						WIFSIGNALED(st) ? "signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st), p, w);
					// keep the stderr of the crash
					rename((dir + "/stderr." + std::to_string(w)).c_str(), (dir + "/crash." + std::to_string(p)).c_str());
					skip(w);
				}
			}
	}
	fclose(res);
	return rc;
}
