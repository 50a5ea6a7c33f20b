// the assertion macros and functions, compiled under several settings
#include <NazaraUtils/DebugBreak.hpp>
#include <csignal>
#include <unistd.h>
namespace
{
	struct MacroRun { int kind; std::string text; int a; const char* s; long line = 0; std::string want; bool cond; };
	int evaluated;
	bool count(bool v) { ++evaluated; return v; }
	template<class T, class U> constexpr bool sameType() { return std::is_same_v<T, U>; }
	// returns the line of the assertion
	long fire(MacroRun& m, bool cond)
	{
		long line = 0; int value = cond ? 7 : 8;
		switch (m.kind)
		{
			case 0: line = __LINE__; NazaraAssert(count(cond)); break;
			case 1: line = __LINE__; NazaraAssertMsg(count(cond), "plain text"); break;
			case 2: line = __LINE__; NazaraAssertMsg(count(cond), "value %d of %s", m.a, m.s); break;
			case 3: line = __LINE__; NazaraAssert(count(value % 8 == 7 % 8)); break;           // text of the condition holds a percent sign
			case 4: line = __LINE__; NazaraAssertMsg(count(cond), "100%% sure %d", m.a); break;
			case 5: line = __LINE__; if (m.a != -1) NazaraAssert(count(cond)); else evaluated += 100; break; // usable as one statement
			case 6: line = __LINE__; NazaraAssertMsg(count(cond), m.text.c_str()); break;      // a message which is not a literal
			case 7: line = __LINE__; NazaraAssert(count(cond) && (sameType<int, int>())); break;
			default: line = __LINE__; NazaraAssert(!count(!cond)); break;
		}
		return line;
	}
	// conditions which would hold if they were asked again; r counts how often they were
	void fickle(int how, int& n)
	{
		auto turn = [&](int after) { return n++ == after; };
		switch (how)
		{
			case 0: NazaraAssert(turn(1)); break;
			case 1: NazaraAssertMsg(turn(1), "plain"); break;
			case 2: NazaraAssertMsg(turn(1), "value %d", n); break;
			case 3: NazaraAssert(n++); break;
			case 4: NazaraAssertMsg(n++, "value %d", 3); break;
			default: { int* p[2] = {nullptr, &n}; int** q = p; NazaraAssert((++n, *q++)); break; }
		}
	}
	bool has(const std::string& s, const std::string& t) { return s.find(t) != std::string::npos; }
}
VX_SUITE("assertion macros (" VXNAME ")", 6, 60)
{
	auto& r = cx.rng; static const char* words[] = {"", "x", "some words", "with % inside", "%s%n%d"};
	MacroRun m{(int) (cx.index % 9), std::string("dynamic ") + words[r.below(5)], (int) r.range(-100000, 100000), words[r.below(5)], 0, {}, false};
	if (m.a == -1) m.a = 0;
	cx.log("form %d a=%d s=%s", m.kind, m.a, m.s);
	// a true condition: evaluated once when assertions are active, never otherwise
	evaluated = 0; long line = fire(m, true);
	VX_EQ("evaluations", evaluated, VXACTIVE ? 1 : 0); cx.count("conditions that hold");
	// a false one
	std::function<void()> f = [&] { evaluated = 0; fire(m, false); std::fprintf(stderr, "survived %d\n", evaluated); };
	Death d = run_isolated([](void* p) { (*(std::function<void()>*) p)(); }, &f);
	++cx.checks;
	if (VXACTIVE)
	{
		cx.count("conditions that do not hold");
		if (!(d.signaled && (d.sig == SIGTRAP || d.sig == SIGABRT || d.sig == SIGILL))) fail("not stopped", "assertion form %d did not stop the program (signal %d, exit code %d)\n%s", m.kind, d.sig, d.code, d.err.c_str());
		std::string want; char b[256] = "";
		switch (m.kind) { case 1: want = "plain text"; break; case 2: std::snprintf(b, sizeof b, "value %d of %s", m.a, m.s); want = b; break; case 3: want = "value % 8 == 7 % 8"; break; case 4: std::snprintf(b, sizeof b, "100%% sure %d", m.a); want = b; break; case 6: want = m.text; break; default: want = "count("; }
		if (!has(d.err, "ssertion")) fail("text", "nothing tells an assertion failed: %s", d.err.c_str());
		if (!has(d.err, want)) fail("message", "the report lacks \"%s\": %s", want.c_str(), d.err.c_str());
		if (!has(d.err, "c26_") || !has(d.err, std::to_string(line))) fail("location", "the report lacks the location (line %ld): %s", line, d.err.c_str());
		if (has(d.err, "survived")) fail("not stopped", "the statement after the failed assertion ran");
	}
	else if (d.signaled || d.code != 0 || !has(d.err, "survived 0")) fail("disabled", "a disabled assertion had an effect: signal %d, exit code %d, %s", d.sig, d.code, d.err.c_str());
}
VX_SUITE("fickle conditions (" VXNAME ")", 6, 60)
{
	// a condition is evaluated once: what it would say the second time does not matter
	int how = (int) (cx.index % 6); cx.log("form %d", how); std::function<void()> f = [&] { int n = 0; fickle(how, n); std::fprintf(stderr, "survived %d\n", n); };
	Death d = run_isolated([](void* p) { (*(std::function<void()>*) p)(); }, &f);
	++cx.checks;
	if (VXACTIVE)
	{
		cx.count("conditions that do not hold");
		if (!(d.signaled && (d.sig == SIGTRAP || d.sig == SIGABRT || d.sig == SIGILL)) || has(d.err, "survived")) fail("not stopped", "a condition that does not hold the first time did not stop the program (form %d, signal %d, exit code %d)\n%s", how, d.sig, d.code, d.err.c_str());
	}
	else if (d.signaled || d.code != 0 || !has(d.err, "survived 0")) fail("disabled", "a disabled assertion had an effect: signal %d, exit code %d, %s", d.sig, d.code, d.err.c_str());
	// holds the first time only
	int n = 1; fickle(how < 3 ? how : 3 + how % 2, n); VX_EQ("evaluations", n, VXACTIVE ? 2 : 1); cx.count("conditions that hold");
}
VX_SUITE("assertion functions (" VXNAME ")", 4, 40)
{
	// the functions check whatever the build
	auto& r = cx.rng; int k = (int) (cx.index % 7), a = (int) r.range(-1000, 1000); unsigned line = 1 + (unsigned) r.below(100000); static const char* msgs[] = {"short", "percent % text", "%s%n"}; const char* msg = msgs[r.below(3)];
	auto call = [&](bool c)
	{
		switch (k)
		{
			case 0: Nz::Assert(c); break;
			case 1: Nz::Assert(c, msg); break;
			case 2: Nz::Assert(c, "number %d text %s", a, msg); break;
			case 3: Nz::AssertWithSource(c, "thefile.cpp", line, msg); break;
			case 4: Nz::AssertWithSource(c, "thefile.cpp", line, "number %d text %s", a, msg); break;
			case 5: if (!c) Nz::AssertFailure(); break;
			default: if (!c) Nz::AssertFailure("number %d text %s", a, msg); break;
		}
	};
	call(true); cx.count("conditions that hold");
	std::function<void()> f = [&] { call(false); std::fprintf(stderr, "survived\n"); };
	Death d = run_isolated([](void* p) { (*(std::function<void()>*) p)(); }, &f);
	cx.checks += 2; cx.count("conditions that do not hold");
	if (!(d.signaled && (d.sig == SIGTRAP || d.sig == SIGABRT || d.sig == SIGILL)) || has(d.err, "survived")) fail("not stopped", "assertion function form %d did not stop the program (signal %d, exit code %d)\n%s", k, d.sig, d.code, d.err.c_str());
	char b[256]; std::snprintf(b, sizeof b, "number %d text %s", a, msg);
	if (!has(d.err, "ssertion")) fail("text", "nothing tells an assertion failed: %s", d.err.c_str());
	if ((k == 1 || k == 3) && !has(d.err, msg)) fail("message", "the report lacks \"%s\": %s", msg, d.err.c_str());
	if ((k == 2 || k == 4 || k == 6) && !has(d.err, b)) fail("message", "the report lacks \"%s\": %s", b, d.err.c_str());
	if ((k == 3 || k == 4) && (!has(d.err, "thefile.cpp") || !has(d.err, std::to_string(line)))) fail("location", "the report lacks thefile.cpp:%u: %s", line, d.err.c_str());
}
// the program stops even when something resumes it after the break: a debugger which continues, a handler of the signal
namespace
{
	volatile std::sig_atomic_t traps = 0;
	void onTrap(int) { traps = traps + 1; static const char t[] = "TRAPPED\n"; ssize_t ignored = write(2, t, sizeof t - 1); (void) ignored; }
	void onAbort(int) { static const char t[] = "ABORTED\n"; ssize_t ignored = write(2, t, sizeof t - 1); (void) ignored; signal(SIGABRT, SIG_DFL); raise(SIGABRT); }
}
VX_SUITE("resumed after the break (" VXNAME ")", 6, 60)
{
	auto& r = cx.rng; int k = (int) (cx.index % (VXACTIVE ? 9 : 7)), a = (int) r.range(-1000, 1000); cx.log("form %d", k);
	std::function<void()> f = [&]
	{
		traps = 0; signal(SIGTRAP, onTrap); signal(SIGABRT, onAbort);
		switch (k)
		{
			case 0: Nz::Assert(a > 1000); break;
			case 1: Nz::Assert(a > 1000, "the message"); break;
			case 2: Nz::Assert(a > 1000, "the %s %d", "message", a); break;
			case 3: Nz::AssertWithSource(a > 1000, "thefile.cpp", 12, "the message"); break;
			case 4: Nz::AssertFailure(); break;
			case 5: Nz::AssertFailure("the %s %d", "message", a); break;
			case 6: Nz::AssertFailureWithSource("thefile.cpp", 12, "the %s %d", "message", a); break;
			case 7: NazaraAssert(a > 1000); break;
			default: NazaraAssertMsg(a > 1000, "the %s %d", "message", a); break;
		}
		std::fprintf(stderr, "survived\n");
	};
	Death d = run_isolated([](void* p) { (*(std::function<void()>*) p)(); }, &f);
	cx.checks += 3; cx.count("assertions resumed after the break");
	if (has(d.err, "survived") || !d.signaled) fail("not stopped", "assertion form %d let the program go on once it was resumed after the break (signal %d, exit code %d)\n%s", k, d.sig, d.code, d.err.c_str());
	std::size_t report = d.err.find("ssertion"), trap = d.err.find("TRAPPED"), end = d.err.find("ABORTED");
	if (report == std::string::npos || (trap != std::string::npos && trap < report) || (end != std::string::npos && end < report)) fail("late report", "assertion form %d told what failed only after it had stopped: %s", k, d.err.c_str());
	if (trap != std::string::npos && d.err.find("TRAPPED", trap + 1) != std::string::npos) fail("several breaks", "assertion form %d stopped a debugger more than once: %s", k, d.err.c_str());
}
VX_SUITE("the break itself (" VXNAME ")", 2, 20)
{
	// one stop for each break, wherever a statement may stand, and the program goes on when resumed
	int n = (int) cx.rng.below(5); std::function<void()> f = [&]
	{
		traps = 0; signal(SIGTRAP, onTrap); int other = 0;
		for (int i = 0; i < n; ++i) if (i >= 0) NazaraDebugBreak(); else ++other;
		std::fprintf(stderr, "stops %d, other %d\n", (int) traps, other); if (traps != n || other) std::exit(3);
		signal(SIGTRAP, SIG_DFL); std::fprintf(stderr, "unattended\n"); NazaraDebugBreak(); std::fprintf(stderr, "survived\n");
	};
	cx.log("%d breaks", n); Death d = run_isolated([](void* p) { (*(std::function<void()>*) p)(); }, &f);
	++cx.checks; cx.count("debugger breaks", (std::uint64_t) n + 1);
	if (!d.signaled || d.sig != SIGTRAP || has(d.err, "survived") || !has(d.err, "unattended")) fail("break", "%d breaks resumed by a handler, then one unattended (signal %d, exit code %d)\n%s", n, d.sig, d.code, d.err.c_str());
}
// usable in constant expressions
#if defined(NAZARA_HAS_CONSTEVAL)
namespace { constexpr int checkedAtCompileTime(int v) { Nz::Assert(v > 0, "positive"); NazaraAssert(v > 0); NazaraAssertMsg(v > 0, "positive %d", v); return v; } static_assert(checkedAtCompileTime(3) == 3); }
#endif
