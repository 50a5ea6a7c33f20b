#include "vx.hpp"
#include <csignal>
#include <cerrno>
#include <exception>
#include <fcntl.h>
#include <malloc.h>
#ifdef VX_THREADED
#include <atomic>
#include <sched.h>
#include <thread>
#include <vector>
#endif
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

// development only: line coverage of the workers
#ifdef VX_COVERAGE
extern "C" int __llvm_profile_write_file(void);
#define VX_LEAVE(c) (__llvm_profile_write_file(), _exit(c))
#else
#define VX_LEAVE(c) _exit(c)
#endif
namespace vx
{
	VX_TLS Ctx* cur = nullptr;
	VX_TLS Heap heap;
	static Suite* suites = nullptr; static Suite** tail = &suites;
	Suite::Suite(const char* n, CaseFn f, u64 q, u64 t, unsigned fl) : name(n), fn(f), quick(q), thorough(t), flags(fl), next(nullptr) { *tail = this; tail = &next; }

	constexpr std::size_t TraceCap = 1 << 16, SigCap = 1 << 21, MaxCounters = 512, MaxSuites = 128, SampleCap = 900;
	struct Shared
	{
		volatile u64 suite, index; volatile int failed, hang, done;
		char key[160]; char msg[2048];
		char trace[TraceCap]; std::size_t traceLen; bool traceWrapped;
		u64 evaluations, nontrivial, ops, checks, perSuite[MaxSuites];
		u64 sigs[SigCap]; u64 nsigs;
		struct { char name[64]; u64 n; } counters[MaxCounters]; std::size_t ncounters;
		char sample[MaxSuites][SampleCap];
	};
	static VX_TLS Shared* sh = nullptr;
	static Shared* sh0 = nullptr; // the main thread's
#ifdef VX_THREADED
	struct Skip {}; // thrown by what cannot run beside other threads
	static std::atomic<bool> somebodyFailed{false};
#endif
	static int errfd = -1;
	static bool hardAbort = false;

	void Ctx::log(const char* fmt, ...)
	{
		++ops;
		if (sh->traceLen + 600 > TraceCap) { sh->traceLen = TraceCap / 4; sh->traceWrapped = true; }
		char* p = sh->trace + sh->traceLen;
		va_list ap; va_start(ap, fmt);
		int n = std::vsnprintf(p, 512, fmt, ap);
		va_end(ap);
		if (n < 0) n = 0;
		if (n > 511) n = 511;
		for (int i = 0; i < n; ++i) mix((u8) p[i]);
		p[n] = '\n'; p[n + 1] = 0;
		sh->traceLen += (std::size_t) n + 1;
	}
	void Ctx::count(const char* c, u64 n)
	{
		for (std::size_t i = 0; i < sh->ncounters; ++i)
			if (!std::strcmp(sh->counters[i].name, c)) { sh->counters[i].n += n; return; }
		if (sh->ncounters < MaxCounters) { std::snprintf(sh->counters[sh->ncounters].name, 64, "%s", c); sh->counters[sh->ncounters++].n = n; }
	}
	void fail(const char* key, const char* fmt, ...)
	{
#ifdef VX_THREADED
		if (sh != sh0)
		{
			if (somebodyFailed.exchange(true)) for (;;) pause(); // the first one reports
			std::memcpy(sh0->trace, sh->trace, TraceCap); sh0->traceLen = sh->traceLen; sh = sh0;
		}
#endif
		va_list ap; va_start(ap, fmt);
		std::vsnprintf(sh->msg, sizeof sh->msg, fmt, ap);
		va_end(ap);
		std::snprintf(sh->key, sizeof sh->key, "%s", key);
		sh->failed = 1;
		if (hardAbort) { std::fprintf(stderr, "VXFAIL %s: %s\n%s", sh->key, sh->msg, sh->trace); std::abort(); }
		_exit(66);
	}

	// ---- heap monitor: side table address -> (size, kind)
	struct Blk { void* p; std::size_t size; std::size_t align; u8 kind; };
	static VX_TLS Blk* tab = nullptr; static VX_TLS std::size_t tabCap = 0, tabUsed = 0; // used includes tombstones
	static void tabPut(Blk b);
	static void tabGrow()
	{
		Blk* old = tab; std::size_t oc = tabCap;
		std::size_t live = 0; for (std::size_t i = 0; i < oc; ++i) if (old[i].p && old[i].p != (void*) 1) ++live;
		tabCap = 4096; while (tabCap < live * 4) tabCap *= 2;
		tab = (Blk*) std::calloc(tabCap, sizeof(Blk)); tabUsed = 0;
		for (std::size_t i = 0; i < oc; ++i) if (old[i].p && old[i].p != (void*) 1) tabPut(old[i]);
		std::free(old);
	}
	static std::size_t hp(void* p) { u64 x = (u64) p; x ^= x >> 31; x *= 0x9E3779B97F4A7C15ull; return (std::size_t) (x >> 20); }
	static void tabPut(Blk b)
	{
		if ((tabUsed + 1) * 2 > tabCap) tabGrow();
		std::size_t i = hp(b.p) & (tabCap - 1);
		while (tab[i].p && tab[i].p != (void*) 1) i = (i + 1) & (tabCap - 1);
		if (!tab[i].p) ++tabUsed;
		tab[i] = b;
	}
	static bool tabTake(void* p, Blk& out)
	{
		if (!tabCap) return false;
		for (std::size_t i = hp(p) & (tabCap - 1); tab[i].p; i = (i + 1) & (tabCap - 1))
			if (tab[i].p == p) { out = tab[i]; tab[i].p = (void*) 1; return true; }
		return false;
	}
	static void* heapNew(std::size_t n, std::size_t align, u8 kind)
	{
		if (heap.failIn >= 0 && heap.failIn-- == 0) { ++heap.failed; return nullptr; }
		if (n > (std::size_t(1) << 32)) return nullptr;
		if (sh && cur && heap.bytes + n > heap.most) fail("memory-explosion", "more than %llu MB live in one case", (unsigned long long) (heap.most >> 20));
		void* p = nullptr;
		if (align <= alignof(std::max_align_t)) p = std::malloc(n ? n : 1);
		else if (posix_memalign(&p, align, n ? n : 1)) p = nullptr;
		if (!p) return nullptr;
#ifndef VX_NOFILL
		std::memset(p, 0xA5, n);
#endif
		tabPut({p, n, align, kind});
		++heap.live; ++heap.total; heap.bytes += n;
		return p;
	}
	static void heapDel(void* p, u8 kind, std::size_t size, std::size_t align)
	{
		if (!p) return;
		Blk b;
		if (tabTake(p, b))
		{
			--heap.live; heap.bytes -= b.size;
			if (sh && cur)
			{
				if (b.kind != kind) fail("heap-new-delete-mismatch", "block allocated with new%s released with delete%s", b.kind ? "[]" : "", kind ? "[]" : "");
				if (size != ~std::size_t(0) && size != b.size) fail("heap-sized-delete-mismatch", "block of %zu bytes released as %zu bytes", b.size, size);
				if ((align > alignof(std::max_align_t) || b.align > alignof(std::max_align_t)) && align != b.align) fail("heap-aligned-delete-mismatch", "block of alignment %zu released with alignment %zu", b.align, align);
			}
		}
		else if (sh && cur)
			fail("heap-invalid-free", "pointer released twice or never allocated");
		std::free(p);
	}

	static void onProf(int) { if (sh0) sh0->hang = 1; _exit(77); }
	static void armCpu(long sec) { itimerval it{}; it.it_value.tv_sec = sec; setitimer(ITIMER_PROF, &it, nullptr); }

	Death run_isolated(void (*f)(void*), void* arg, unsigned cpuSeconds)
	{
#ifdef VX_THREADED
		(void) f; (void) arg; (void) cpuSeconds; throw Skip{};
#endif
		Death d;
		char path[] = "/tmp/vxdeathXXXXXX"; (void) path;
		int fd = (int) memfd_create("vxdeath", 0);
		pid_t pid = fork();
		if (pid == 0)
		{
			dup2(fd, 2);
			rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
			signal(SIGPROF, SIG_DFL); signal(SIGABRT, SIG_DFL); signal(SIGTRAP, SIG_DFL);
			armCpu(cpuSeconds);
			try { f(arg); } catch (...) { _exit(3); }
			VX_LEAVE(0);
		}
		int st = 0;
		while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
		if (WIFSIGNALED(st)) { d.signaled = true; d.sig = WTERMSIG(st); d.timedOut = d.sig == SIGPROF; }
		else { d.exited = true; d.code = WEXITSTATUS(st); }
		char buf[4096]; ssize_t n; lseek(fd, 0, SEEK_SET);
		Heap saved = heap; (void) saved;
		if ((n = read(fd, buf, sizeof buf)) > 0) d.err.assign(buf, (std::size_t) n);
		close(fd);
		return d;
	}

	static u64 hashName(const char* s) { u64 h = 0xcbf29ce484222325ull; for (; *s; ++s) h = (h ^ (u8) *s) * 0x100000001B3ull; return h; }

	static void runCase(Suite* s, u64 si, u64 idx, u64 total, u64 seed, const u8* bytes, std::size_t nbytes, long cpu)
	{
		Ctx cx;
		u64 k = seed * 0x9E3779B97F4A7C15ull ^ hashName(s->name) ^ (idx + 1) * 0xD6E8FEB86659FD93ull;
		cx.rng.s = splitmix(k); cx.rng.bytes = bytes; cx.rng.nbytes = nbytes;
		cx.index = idx; cx.total = total; cx.suite = s->name;
		sh->suite = si; sh->index = idx; sh->traceLen = 0; sh->trace[0] = 0; sh->traceWrapped = false;
		if (cpu) armCpu(cpu);
		u64 live = heap.live;
		cur = &cx;
		heap.failIn = -1;
		try { s->fn(cx); }
#ifdef VX_THREADED
		catch (const Skip&) {}
#endif
		catch (const std::exception& e) { heap.failIn = -1; fail("uncaught-exception", "exception escaped: %s", e.what()); }
		catch (...) { heap.failIn = -1; fail("uncaught-exception", "unknown exception escaped"); }
		heap.failIn = -1;
		if (!(s->flags & NoHeapBalance) && heap.live != live)
			fail("heap-leak", "%lld heap block(s) still allocated after every object of the case was destroyed", (long long) (heap.live - live));
		cur = nullptr;
		++sh->evaluations; sh->ops += cx.ops; sh->checks += cx.checks; ++sh->perSuite[si];
		if (cx.ops && cx.checks) { ++sh->nontrivial; if (sh->nsigs < SigCap) sh->sigs[sh->nsigs++] = cx.sig ^ si; }
		if (si < MaxSuites && !sh->sample[si][0] && sh->traceLen)
		{
			std::size_t n = sh->traceLen < SampleCap - 1 ? sh->traceLen : SampleCap - 1;
			std::memcpy(sh->sample[si], sh->trace, n); sh->sample[si][n] = 0;
		}
	}

#ifdef VX_THREADED
	// a group: 2 to 4 threads, each running a few cases; all of one suite, or each of another one
	constexpr int MaxThreads = 4; static Shared* shs[MaxThreads];
	struct Part { Suite* s; u64 si, idx, total; };
	static std::vector<std::vector<Part>> groupOf(Suite* s, u64 si, u64 g, u64 seed)
	{
		u64 k = seed * 0x9E3779B97F4A7C15ull ^ hashName(s->name) ^ (g + 1) * 0xC2B2AE3D27D4EB4Full; Rng r; r.s = splitmix(k);
		u64 nsuites = 0; for (Suite* t = suites; t; t = t->next) ++nsuites;
		std::vector<std::vector<Part>> res(2 + r.below(MaxThreads - 1)); bool same = g % 2 == 0;
		for (auto& parts : res)
		{
			Suite* t = s; u64 ti = si;
			if (!same && &parts != &res[0]) { ti = r.below(nsuites); t = suites; for (u64 j = ti; j--;) t = t->next; }
			for (u64 n = 1 + r.below(3); n--;) parts.push_back({t, ti, r.below(t->quick), t->quick});
		}
		return res;
	}
	static bool failsAlone(Suite* s, u64 si, u64 g, u64 seed, long cpu)
	{
		for (auto& parts : groupOf(s, si, g, seed))
			for (auto& p : parts)
			{
				pid_t pid = fork();
				if (pid == 0) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); runCase(p.s, p.si, p.idx, p.total, seed, nullptr, 0, cpu); _exit(0); }
				int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
				if (st) return true;
			}
		return false;
	}
	static std::atomic<int> gate{0};
	static void runGroup(Suite* s, u64 si, u64 g, u64 seed, long cpu)
	{
		auto grp = groupOf(s, si, g, seed); std::vector<std::thread> ts; ts.reserve(grp.size());
		sh0->suite = si; sh0->index = g; sh0->traceLen = 0; sh0->trace[0] = 0; armCpu(cpu * (long) grp.size() * 3);
		gate.store(0, std::memory_order_relaxed); int n = (int) grp.size();
		for (int i = 0; i < n; ++i)
		{
			shs[i]->evaluations = shs[i]->ops = shs[i]->checks = shs[i]->nontrivial = shs[i]->nsigs = shs[i]->ncounters = 0;
			ts.emplace_back([&, i] {
				sh = shs[i]; gate.fetch_add(1, std::memory_order_relaxed);
				while (gate.load(std::memory_order_relaxed) < n) sched_yield();
				for (auto& p : grp[(std::size_t) i]) runCase(p.s, p.si, p.idx, p.total, seed, nullptr, 0, 0);
			});
		}
		for (auto& t : ts) t.join();
		armCpu(0);
		for (int i = 0; i < n; ++i)
		{
			sh0->ops += shs[i]->ops; sh0->checks += shs[i]->checks; sh0->nontrivial += shs[i]->nontrivial; sh0->evaluations += shs[i]->evaluations;
			for (u64 j = 0; j < shs[i]->nsigs && sh0->nsigs < SigCap; ++j) sh0->sigs[sh0->nsigs++] = shs[i]->sigs[j] ^ 0x5555;
		}
		++sh0->perSuite[si];
	}
#endif

	static void jstr(FILE* f, const char* s, std::size_t n)
	{
		std::fputc('"', f);
		for (std::size_t i = 0; i < n && s[i]; ++i)
		{
			unsigned char c = (unsigned char) s[i];
			if (c == '"' || c == '\\') { std::fputc('\\', f); std::fputc(c, f); }
			else if (c < 0x20 || c >= 0x7f) std::fprintf(f, "\\u%04x", c);
			else std::fputc(c, f);
		}
		std::fputc('"', f);
	}
}

#ifndef VX_NOHEAP // thread-sanitized builds keep the sanitizer's allocator
void* operator new(std::size_t n) { if (void* p = vx::heapNew(n, 0, 0)) return p; throw std::bad_alloc(); }
void* operator new[](std::size_t n) { if (void* p = vx::heapNew(n, 0, 1)) return p; throw std::bad_alloc(); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return vx::heapNew(n, 0, 0); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return vx::heapNew(n, 0, 1); }
void* operator new(std::size_t n, std::align_val_t a) { if (void* p = vx::heapNew(n, (std::size_t) a, 0)) return p; throw std::bad_alloc(); }
void* operator new[](std::size_t n, std::align_val_t a) { if (void* p = vx::heapNew(n, (std::size_t) a, 1)) return p; throw std::bad_alloc(); }
void operator delete(void* p) noexcept { vx::heapDel(p, 0, ~std::size_t(0), 0); }
void operator delete[](void* p) noexcept { vx::heapDel(p, 1, ~std::size_t(0), 0); }
void operator delete(void* p, std::size_t n) noexcept { vx::heapDel(p, 0, n, 0); }
void operator delete[](void* p, std::size_t n) noexcept { vx::heapDel(p, 1, n, 0); }
void operator delete(void* p, const std::nothrow_t&) noexcept { vx::heapDel(p, 0, ~std::size_t(0), 0); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { vx::heapDel(p, 1, ~std::size_t(0), 0); }
void operator delete(void* p, std::align_val_t a) noexcept { vx::heapDel(p, 0, ~std::size_t(0), (std::size_t) a); }
void operator delete[](void* p, std::align_val_t a) noexcept { vx::heapDel(p, 1, ~std::size_t(0), (std::size_t) a); }
void operator delete(void* p, std::size_t n, std::align_val_t a) noexcept { vx::heapDel(p, 0, n, (std::size_t) a); }
void operator delete[](void* p, std::size_t n, std::align_val_t a) noexcept { vx::heapDel(p, 1, n, (std::size_t) a); }

#endif

extern "C" const char* __tsan_default_options() { return "halt_on_error=1:exitcode=97:history_size=4:second_deadlock_stack=1"; }
extern "C" const char* __asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=1:check_initialization_order=1:strict_init_order=0:handle_abort=0:detect_container_overflow=1:max_malloc_fill_size=1073741824:malloc_fill_byte=165:free_fill_byte=90:max_free_fill_size=4096:quarantine_size_mb=64"; }
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1"; }

static void mapShared()
{
	using namespace vx;
	sh = sh0 = (Shared*) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (sh == MAP_FAILED) { std::perror("mmap"); std::_Exit(2); }
}

#ifdef VX_FUZZER
extern "C" int LLVMFuzzerTestOneInput(const std::uint8_t* data, std::size_t size)
{
	using namespace vx;
	if (!sh) { mapShared(); hardAbort = true; }
	if (size < 3) return 0;
	std::size_t n = 0; for (Suite* s = suites; s; s = s->next) if (!(s->flags & Enumerates)) ++n;
	if (!n) return 0;
	std::size_t pick = data[0] % n, si = 0;
	Suite* s = suites;
	for (;; s = s->next, ++si) if (!(s->flags & Enumerates) && pick-- == 0) break;
	runCase(s, si, data[1] + 256u * data[2], s->quick, 0, data + 3, size - 3, 0);
	return 0;
}
#else
int main(int argc, char** argv)
{
	using namespace vx;
	mapShared();
	std::string mode = argc > 1 ? argv[1] : "list", only, out; u64 seed = 1, shard = 0, nshards = 1, thorough = 0, caseIdx = 0, maxFail = 3; double scale = 1; long cpu = 20;
	for (int i = 2; i + 1 < argc; i += 2)
	{
		std::string a = argv[i]; const char* v = argv[i + 1];
		if (a == "--seed") seed = std::strtoull(v, 0, 10); else if (a == "--shard") shard = std::strtoull(v, 0, 10); else if (a == "--nshards") nshards = std::strtoull(v, 0, 10);
		else if (a == "--thorough") thorough = std::strtoull(v, 0, 10); else if (a == "--suite") only = v; else if (a == "--case") caseIdx = std::strtoull(v, 0, 10);
		else if (a == "--out") out = v; else if (a == "--scale") scale = std::strtod(v, 0); else if (a == "--cpu") cpu = std::strtol(v, 0, 10); else if (a == "--maxfail") maxFail = std::strtoull(v, 0, 10);
	}
	rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
	signal(SIGPROF, onProf);
#ifdef VX_THREADED
	for (auto& p : shs) p = (Shared*) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	double suiteLimit = thorough ? 25 : 1.5;
	auto totalOf = [&](Suite*) { u64 t = (u64) ((thorough ? 60 : 1) * scale); return t ? t : 1; };
#else
	auto totalOf = [&](Suite* s) { u64 t = thorough ? s->thorough : s->quick; if (!(s->flags & Enumerates)) { t = (u64) ((double) t * scale); if (!t) t = 1; } return t; };
#endif
	if (mode == "list") { for (Suite* s = suites; s; s = s->next) std::printf("%s %llu %llu\n", s->name, (unsigned long long) s->quick, (unsigned long long) s->thorough); return 0; }
	if (mode == "one")
	{
		u64 si = 0;
		for (Suite* s = suites; s; s = s->next, ++si)
			if (only == s->name)
			{
				std::fflush(stdout);
				pid_t pid = fork();
#ifdef VX_THREADED
				if (pid == 0) { runGroup(s, si, caseIdx, seed, cpu); VX_LEAVE(0); }
#else
				if (pid == 0) { runCase(s, si, caseIdx, totalOf(s), seed, nullptr, 0, cpu); VX_LEAVE(0); }
#endif
				int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
				std::printf("--- trace of %s case %llu seed %llu\n%s", s->name, (unsigned long long) caseIdx, (unsigned long long) seed, sh->trace);
				if (sh->failed) std::printf("--- FAILED %s: %s\n", sh->key, sh->msg);
				else if (sh->hang) std::printf("--- FAILED hang: no end after %ld s of CPU time\n", cpu);
				else if (st) std::printf("--- FAILED crash: wait status 0x%x\n", st);
				else std::printf("--- passed\n");
				return sh->failed || sh->hang || st ? 1 : 0;
			}
		std::fprintf(stderr, "no such suite\n");
		return 2;
	}
	if (mode != "run") return 2;
	FILE* f = out.empty() ? stdout : std::fopen(out.c_str(), "w");
	if (!f) { std::perror("out"); return 2; }
	errfd = (int) memfd_create("vxerr", 0);
	std::fprintf(f, "{\"failures\":[");
	bool first = true;
	timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
	double suiteSec[MaxSuites] = {}; u64 si = 0, nhang = 0;
	for (Suite* s = suites; s; s = s->next, ++si)
	{
		if (si >= MaxSuites) { std::fprintf(stderr, "too many suites\n"); return 2; }
		if ((!only.empty() && only != s->name) || nhang >= 3) continue;
		u64 total = totalOf(s), idx = shard, nfail = 0;
		timespec a; clock_gettime(CLOCK_MONOTONIC, &a);
		while (idx < total && nfail < maxFail)
		{
			if (ftruncate(errfd, 0)) {}
			lseek(errfd, 0, SEEK_SET);
			sh->failed = sh->hang = sh->done = 0; sh->index = idx; sh->key[0] = sh->msg[0] = 0;
			std::fflush(f);
			pid_t pid = fork();
			if (pid < 0) { std::perror("fork"); return 2; }
			if (pid == 0)
			{
				dup2(errfd, 2);
#ifdef VX_THREADED
				timespec now; u64 done = 0;
				for (u64 i = idx; i < total; i += nshards)
				{
					clock_gettime(CLOCK_MONOTONIC, &now); if (done++ && double(now.tv_sec - a.tv_sec) > suiteLimit) break;
					runGroup(s, si, i, seed, cpu);
				}
#else
				for (u64 i = idx; i < total; i += nshards) runCase(s, si, i, total, seed, nullptr, 0, cpu);
#endif
				sh->done = 1;
				VX_LEAVE(0);
			}
			int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
			if (st == 0 && sh->done) break;
			char buf[6000]; lseek(errfd, 0, SEEK_SET); ssize_t n = read(errfd, buf, sizeof buf - 1); if (n < 0) n = 0; buf[n] = 0;
#ifdef VX_THREADED
			if (!std::strstr(buf, "ThreadSanitizer") && failsAlone(s, si, sh->index, seed, cpu)) { ++sh->perSuite[si]; idx = sh->index + nshards; ++nfail; continue; } // nothing to do with threads
#endif
			std::fprintf(f, "%s\n{\"suite\":\"%s\",\"case\":%llu,\"kind\":\"%s\",\"status\":%d,\"key\":", first ? "" : ",", s->name, (unsigned long long) sh->index, sh->failed ? "monitor" : sh->hang ? "hang" : "crash", st);
			first = false;
			jstr(f, sh->key, sizeof sh->key); std::fprintf(f, ",\"msg\":"); jstr(f, sh->msg, sizeof sh->msg);
			std::fprintf(f, ",\"trace\":"); jstr(f, sh->trace, sh->traceLen < TraceCap ? sh->traceLen : TraceCap); std::fprintf(f, ",\"stderr\":"); jstr(f, buf, sizeof buf); std::fprintf(f, "}");
			idx = sh->index + nshards; ++nfail;
			if (sh->hang) { nfail = maxFail; ++nhang; } // each one costs a whole CPU budget
		}
		timespec b; clock_gettime(CLOCK_MONOTONIC, &b);
		suiteSec[si] = double(b.tv_sec - a.tv_sec) + 1e-9 * double(b.tv_nsec - a.tv_nsec);
	}
	std::fprintf(f, "],\n\"evaluations\":%llu,\"nontrivial\":%llu,\"ops\":%llu,\"checks\":%llu,\"counters\":{", (unsigned long long) sh->evaluations, (unsigned long long) sh->nontrivial, (unsigned long long) sh->ops, (unsigned long long) sh->checks);
	for (std::size_t i = 0; i < sh->ncounters; ++i) { std::fprintf(f, "%s", i ? "," : ""); jstr(f, sh->counters[i].name, 64); std::fprintf(f, ":%llu", (unsigned long long) sh->counters[i].n); }
	std::fprintf(f, "},\n\"suites\":{"); si = 0; first = true;
	for (Suite* s = suites; s; s = s->next, ++si)
	{
		if (!only.empty() && only != s->name) continue;
		std::fprintf(f, "%s\"%s\":{\"cases\":%llu,\"sec\":%.3f,\"sample\":", first ? "" : ",\n", s->name, (unsigned long long) sh->perSuite[si], suiteSec[si]); first = false;
		jstr(f, sh->sample[si], SampleCap); std::fprintf(f, "}");
	}
	std::fprintf(f, "}}\n");
	std::fclose(f);
	if (!out.empty()) { f = std::fopen((out + ".sig").c_str(), "wb"); if (f) { std::fwrite(sh->sigs, 8, sh->nsigs, f); std::fclose(f); } }
	return 0;
}
#endif
