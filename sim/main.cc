// The simulator's command line: runs of many seeds, one scenario, minimising a scenario.
#include "props.h"
#include "seam.h"
#include <csignal>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <iostream>
#include <locale>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

using std::string;
using std::vector;
using namespace sim;

extern "C" char const* __asan_default_options()
{
	return "exitcode=99:detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=1024:handle_abort=0:detect_stack_use_after_return=0:"
		"max_malloc_fill_size=4096:malloc_fill_byte=190:quarantine_size_mb=16:detect_odr_violation=0:symbolize=1:print_legend=0:fast_unwind_on_malloc=1:malloc_context_size=6:hard_rss_limit_mb=6000";
}
extern "C" char const* __ubsan_default_options() { return "print_stacktrace=1"; }

namespace sim { extern std::streambuf* real_cout; }

static double now()
{
	struct timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return double(t.tv_sec) + double(t.tv_nsec) * 1e-9;
}

static uint64_t run_seed(uint64_t seed, string const& prop, uint64_t index) { return mix64(mix64(seed) ^ hash_str(prop) ^ mix64(index * 2 + 1)); }

namespace {
struct Verdict
{
	int status = 0;      ///< 1 pass, 2 fail, 3 invalid
	string cls, msg, known;
	uint64_t hash = 0, events = 0;
	bool nontrivial = false;
};
}

static int err_fd = -1;

static string crash_kind(int st, string const& err, string& msg)
{
	string k;
	auto after = [&](char const* what, char const* stop) -> string {
		size_t p = err.find(what);
		if (p == string::npos) return "";
		p += strlen(what);
		size_t e = err.find_first_of(stop, p);
		return err.substr(p, e == string::npos ? string::npos : e - p);
	};
	string w;
	if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGKILL)) k = "hang";
	else if (!(w = after("terminate called after throwing an instance of '", "'")).empty()) k = "crash: uncaught " + w;
	else if (err.find("terminate called") != string::npos) k = "crash: terminate";
	else if (!(w = after("Assertion '", "\n")).empty()) k = "crash: assertion " + w.substr(0, 50);
	else if (!(w = after("ERROR: AddressSanitizer: ", " \n")).empty()) k = "crash: " + w;
	else if (!(w = after("runtime error: ", "\n")).empty()) {
		// numbers and addresses vary
		string t;
		for (char c: w) { if (isdigit((unsigned char) c)) continue; t += c; }
		k = "crash: " + t.substr(0, 40);
	}
	else if (!(w = after("DATA RACE ", "\n")).empty()) k = "race " + w;
	else if (WIFSIGNALED(st)) k = "crash: signal " + std::to_string(WTERMSIG(st));
	else k = "crash: exit " + std::to_string(WEXITSTATUS(st));
	msg = k;
	// where in the library
	size_t p = 0;
	int n = 0;
	while (n < 3 && (p = err.find(" in ", p)) != string::npos) {
		p += 4;
		size_t e = err.find('\n', p);
		string const f = err.substr(p, e - p);
		if (f.find("/src/") != string::npos || f.compare(0, 5, "sub::") == 0) { msg += (n ? " < " : " in ") + f.substr(0, 160); ++n; }
	}
	if (n == 0 && !err.empty()) msg += ": " + err.substr(0, 600);
	return k;
}

/// do something in a process of its own, getting its verdict
static void clean_scratch();

static Verdict isolate(std::function<void ()> const& body, int attempts = 3)
{
	auto sh = shared;
	sh->done = 0;
	sh->cls[0] = sh->msg[0] = sh->known[0] = 0;
	sh->hash = 0;
	sh->run_events = 0;
	sh->nontrivial = 0;
	sh->blob_len = 0;
	struct stat sb;
	if (fstat(err_fd, &sb) == 0 && sb.st_size > 0) { int r = ftruncate(err_fd, 0); (void) r; }
	pid_t const pid = getenv("SIM_NOFORK") ? 0 : fork();   // for debugging
	if (pid == 0) {
		setpgid(0, 0);
		dup2(err_fd, 2);
#ifdef SIM_THREADS
		alarm(400);
		struct rlimit cpu = { 90, 95 };
#else
		alarm(200);
		struct rlimit cpu = { 40, 45 };
#endif
		setrlimit(RLIMIT_CPU, &cpu);
		struct rlimit core = { 0, 0 };
		setrlimit(RLIMIT_CORE, &core);
		std::cout.rdbuf(nullptr);
		// names must not depend on the process: they appear in error messages, and their length decides what is allocated
		if (chdir(scratch().substr(0, scratch().rfind('/')).c_str())) _exit(97);
		set_scratch("s");
		int status = 1;
		try {
			body();
		} catch (Failed& f) {
			strncpy(sh->cls, f.cls.c_str(), sizeof(sh->cls) - 1);
			strncpy(sh->msg, f.msg.c_str(), sizeof(sh->msg) - 1);
			status = 2;
		} catch (Invalid& i) {
			strncpy(sh->msg, i.why.c_str(), sizeof(sh->msg) - 1);
			status = 3;
		}
		sh->hash = hash_str(sh->cls, trace_hash);
		sh->run_events = trace_events;
		sh->done = status;
		_exit(0);
	}
	int st = 0;
	struct rusage ru;
	while (wait4(pid, &st, 0, &ru) < 0 && errno == EINTR) {}
	if (getenv("SIM_TIMES")) fprintf(stderr, "TIME %ld\n", long(ru.ru_utime.tv_sec + ru.ru_stime.tv_sec) * 1000 + long(ru.ru_utime.tv_usec + ru.ru_stime.tv_usec) / 1000);
	kill(-pid, SIGKILL);
	Verdict v;
	if (stopped_from_outside(st) || (WIFEXITED(st) && WEXITSTATUS(st) == INTERRUPTED)) {
		// somebody else's doing: do it again
		clean_scratch();
		if (attempts > 1) return isolate(body, attempts - 1);
		v.status = 3;
		v.msg = "interrupted";
		return v;
	}
	v.nontrivial = sh->nontrivial;
	v.known = sh->known;
	v.hash = sh->hash;
	v.events = sh->run_events;
	if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh->done) {
		v.status = sh->done;
		v.cls = sh->cls;
		v.msg = sh->msg;
	} else {
		string err;
		err.resize(20000);
		ssize_t const n = pread(err_fd, &err[0], err.size(), 0);
		err.resize(n > 0 ? size_t(n) : 0);
		v.status = 2;
		v.cls = crash_kind(st, err, v.msg);
	}
	return v;
}

static void clean_scratch()
{
	string const d = scratch();
	// only ordinary files and empty directories made by scenarios, directly inside
	vector<string> names;
	if (auto f = popen(("ls -A '" + d + "'").c_str(), "r")) {
		char b[1024];
		while (fgets(b, sizeof b, f)) { string s = b; while (!s.empty() && s.back() == '\n') s.pop_back(); names.push_back(s); }
		pclose(f);
	}
	for (auto const& n: names) { string const p = d + "/" + n; if (unlink(p.c_str())) rmdir(p.c_str()); }
}

/// a scenario's files go to a directory of its own, emptied afterwards if it left anything
static Verdict run_scenario(string const& prop, std::function<Value ()> const& get)
{
	Verdict const v = isolate([&] {
		Value const s = get();
		exec(prop, s);
	});
	if (rmdir(scratch().c_str()) == 0) mkdir(scratch().c_str(), 0700);
	else { clean_scratch(); }
	return v;
}

static Value verdict_json(Verdict const& v)
{
	Value o = Value::obj();
	o.set("status", v.status == 1 ? "pass" : v.status == 2 ? "fail" : "invalid").set("cls", v.cls).set("msg", v.msg).set("hash", std::to_string(v.hash)).set("events", (long long) v.events);
	if (!v.known.empty()) o.set("known", v.known);
	return o;
}

//---- minimising ---------------------------------------------------------------------------------------------
namespace {
struct Minimiser
{
	string prop, cls;
	double until;
	Value root;
	long tried = 0, kept = 0;

	bool test()
	{
		if (now() > until) return false;
		++tried;
		Value const copy = root;
		Verdict const v = run_scenario(prop, [&] { return copy; });
		bool const good = v.status == 2 && v.cls == cls;
		if (good) ++kept;
		return good;
	}

	bool shrink(Value& n, bool& any)
	{
		if (now() > until) return false;
		switch (n.kind) {
		case Value::ARR:
			for (size_t c = std::max<size_t>(1, n.a.size() / 2); ; c /= 2) {
				for (size_t i = 0; i + c <= n.a.size() && now() < until; ) {
					auto const was = n.a;
					n.a.erase(n.a.begin() + long(i), n.a.begin() + long(i + c));
					if (test()) any = true; else { n.a = was; i += c; }
				}
				if (c <= 1) break;
			}
			for (size_t i = 0; i < n.a.size(); ++i) shrink(n.a[i], any);
			break;
		case Value::OBJ:
			for (size_t i = 0; i < n.o.size(); ) {
				string const k = n.o[i].first;
				if (k == "fmt" || k == "op" || k == "k" || k == "kind" || k == "mode") { ++i; continue; }
				auto const was = n.o;
				n.o.erase(n.o.begin() + long(i));
				if (test()) any = true; else { n.o = was; ++i; }
			}
			for (size_t i = 0; i < n.o.size(); ++i) {
				string const k = n.o[i].first;
				if (k == "fmt" || k == "op" || k == "k" || k == "kind" || k == "mode") continue;
				shrink(n.o[i].second, any);
			}
			break;
		case Value::STR:
			for (size_t c = n.s.size(); c >= 1; c /= 2) {
				for (size_t i = 0; i + c <= n.s.size() && now() < until; ) {
					string const was = n.s;
					n.s.erase(i, c);
					if (test()) any = true; else { n.s = was; i += c; }
				}
			}
			break;
		case Value::BOOL:
			if (n.i) { n.i = 0; if (test()) any = true; else n.i = 1; }
			break;
		case Value::INT:
			for (int round = 0; round < 40 && n.i; ++round) {
				long long const was = n.i;
				bool better = false;
				for (long long c: { 0ll, was > 0 ? 1ll : -1ll, was / 2, was - was / 4, was > 0 ? was - 1 : was + 1 }) {
					if (c == was || std::llabs(c) >= std::llabs(was)) continue;
					n.i = c;
					if (test()) { any = better = true; break; }
					n.i = was;
				}
				if (!better) break;
			}
			break;
		default:
			break;
		}
		return any;
	}
};
}

static bool load(char const* path, string& text)
{
	FILE* f = fopen(path, "rb");
	if (!f) return false;
	char b[65536];
	size_t n;
	while ((n = fread(b, 1, sizeof b, f)) > 0) text.append(b, n);
	fclose(f);
	return true;
}

int main(int argc, char* argv[])
{
	if (argc < 2) return 2;
	string const mode = argv[1];
	shared = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
	real_cout = std::cout.rdbuf();
	auto arg = [&](char const* n, string d) { for (int i = 2; i + 1 < argc; ++i) if (!strcmp(argv[i], n)) return string(argv[i + 1]); return d; };
	string const base = arg("--scratch", "/tmp");
	string dir = base + "/run." + std::to_string(getpid());
	mkdir(dir.c_str(), 0700);
	string const top = dir;
	dir += "/s";
	mkdir(dir.c_str(), 0700);
	string const errp = base + "/err." + std::to_string(getpid());
	err_fd = open(errp.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600);
	set_scratch(dir);
	string const prop = arg("--prop", "");
	uint64_t const seed = strtoull(arg("--seed", "1").c_str(), nullptr, 10);
	int rc = 0;

	if (mode == "run") {
		uint64_t const from = strtoull(arg("--from", "0").c_str(), nullptr, 10), to = strtoull(arg("--to", "100").c_str(), nullptr, 10), stride = strtoull(arg("--stride", "1").c_str(), nullptr, 10);
		double const cap = now() + atof(arg("--cap", "1e9").c_str());
		int const max_fail = atoi(arg("--max-fail", "3").c_str());
		vector<uint64_t> hashes;
		uint64_t runs = 0, invalid = 0, nontrivial = 0, fails = 0, events = 0, all = 0xcbf29ce484222325ull;
		bool capped = false;
		for (uint64_t i = from; i < to; i += stride) {
			if (now() > cap) { capped = true; break; }
			uint64_t const s = run_seed(seed, prop, i);
			Verdict const v = run_scenario(prop, [&] { Rng r(s); return gen(prop, r); });
			++runs;
			events += v.events;
			if (v.status == 3) ++invalid;
			if (v.status == 1 && v.nontrivial) { ++nontrivial; hashes.push_back(v.hash); }
			uint64_t const mixed[3] = { i, v.hash, uint64_t(v.status) };
			all ^= hash_bytes(0xcbf29ce484222325ull, mixed, sizeof mixed);
			if (!v.known.empty()) { Value o = Value::obj(); o.set("known", v.known).set("index", (long long) i).set("seed", std::to_string(s)); printf("%s\n", o.json().c_str()); fflush(stdout); }
			if (v.status == 3 && getenv("SHOW_INVALID")) fprintf(stderr, "invalid %lu: %s\n", (unsigned long) i, v.msg.c_str());
			if (v.status == 2) {
				Value o = verdict_json(v);
				o.set("index", (long long) i).set("seed", std::to_string(s));
				printf("%s\n", o.json().c_str());
				fflush(stdout);
				if (++fails >= uint64_t(max_fail)) break;
			}
		}
		Value o = Value::obj(), c = Value::obj();
		for (auto const& x: shared->ctr) if (x.name[0]) c.set(x.name, (long long) x.n);
		o.set("summary", true).set("runs", (long long) runs).set("invalid", (long long) invalid).set("nontrivial", (long long) nontrivial).set("events", (long long) events).set("capped", capped).set("digest", std::to_string(all)).set("counters", c);
		printf("%s\n", o.json().c_str());
		string const hp = arg("--hashes", "");
		if (!hp.empty()) {
			FILE* f = fopen(hp.c_str(), "wb");
			if (!hashes.empty()) fwrite(hashes.data(), 8, hashes.size(), f);
			fclose(f);
		}
	} else if (mode == "gen") {
		uint64_t const s = strtoull(arg("--index", "0").c_str(), nullptr, 10);
		Rng r(run_seed(seed, prop, s));
		printf("%s\n", gen(prop, r).json().c_str());
	} else if (mode == "exec" || mode == "min") {
		string text;
		Value f;
		if (!load(arg("--file", "").c_str(), text) || !Value::parse(text, f)) { fprintf(stderr, "cannot read scenario\n"); rc = 2; }
		else {
			string const p = f["property"].str();
			Value s = f["scenario"];
			if (mode == "exec") {
				if (!arg("--trace", "").empty()) trace_verbose = true;
				Verdict const v = run_scenario(p, [&] { return s; });
				printf("%s\n", verdict_json(v).json().c_str());
				if (trace_verbose) { string e(4000000, 0); ssize_t n = pread(err_fd, &e[0], e.size(), 0); FILE* t = fopen(arg("--trace", "").c_str(), "wb"); if (n > 0) fwrite(e.data(), 1, size_t(n), t); fclose(t); }
			} else {
				Minimiser m;
				m.prop = p;
				m.cls = f["cls"].str();
				m.until = now() + atof(arg("--budget", "60").c_str());
				m.root = s;
				for (int round = 0; round < 20; ++round) { bool any = false; m.shrink(m.root, any); if (!any) break; }
				Verdict const v = run_scenario(p, [&] { return m.root; });
				Value o = verdict_json(v);
				o.set("scenario", m.root).set("tried", m.tried).set("kept", m.kept);
				printf("%s\n", o.json().c_str());
			}
		}
	} else if (mode == "list") {
		for (auto const& p: properties()) printf("%s\n", p.c_str());
	} else rc = 2;

	clean_scratch();
	rmdir(dir.c_str());
	rmdir(top.c_str());
	close(err_fd);
	unlink(errp.c_str());
	return rc;
}
