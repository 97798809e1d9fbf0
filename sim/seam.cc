#undef _FILE_OFFSET_BITS
#include "seam.h"
#include <cerrno>
#include <condition_variable>
#include <csignal>
#include <cstring>
#include <cstdarg>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <malloc.h>
#include <map>
#include <mutex>
#include <new>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>

extern "C" __attribute__((weak)) void sched_on_io();   ///< only in the program for threads

namespace sim {

Shared* shared = nullptr;

void bump(std::string const& name, uint64_t by)
{
	if (!shared) return;
	if (!name.compare(0, 6, "fault:") || !name.compare(0, 6, "sched:")) shared->nontrivial = 1;
	for (auto& c: shared->ctr) {
		if (!c.name[0]) {
			strncpy(c.name, name.c_str(), sizeof(c.name) - 1);
			c.n = by;
			return;
		}
		if (!strncmp(c.name, name.c_str(), sizeof(c.name) - 1)) { c.n += by; return; }
	}
}

uint64_t counter(std::string const& name)
{
	for (auto& c: shared->ctr) if (!strncmp(c.name, name.c_str(), sizeof(c.name) - 1)) return c.n;
	return 0;
}

uint64_t trace_hash = 0xcbf29ce484222325ull;
uint64_t trace_events = 0;
uint64_t trace_limit = 5000000;
bool trace_verbose = false;

void trace(char const* what, long a, long b, long c)
{
	AllocPause p;
	trace_hash = hash_bytes(trace_hash, what, strlen(what));
	long v[3] = { a, b, c };
	trace_hash = hash_bytes(trace_hash, v, sizeof v);
	++trace_events;
	if (trace_verbose) fprintf(stderr, "  %6lu %s %ld %ld %ld\n", (unsigned long) trace_events, what, a, b, c);
	if (trace_events > trace_limit && shared) {
		strcpy(shared->cls, "hang");
		strcpy(shared->msg, "the operation did not finish within the limit on simulated events");
		shared->hash = trace_hash;
		shared->done = 2;
		_exit(0);
	}
}

//---- tasks -------------------------------------------------------------------------------------
namespace {
struct TaskState
{
	std::mutex m;
	std::condition_variable cv;
	long current = -1;
	std::vector<bool> finished;
	Value const* sched = nullptr;
	size_t next = 0;
	long live = 0;

	long choose()
	{
		long k = 0;
		if (sched && next < sched->a.size()) k = sched->a[next++].num();
		std::vector<long> r;
		for (size_t i = 0; i < finished.size(); ++i) if (!finished[i]) r.push_back(long(i));
		if (r.empty()) return -1;
		if (k < 0) k = -k;
		return r[k % long(r.size())];
	}
};
TaskState* tasks = nullptr;
thread_local long my_task = -1;
}

std::function<void ()> at_io;

void yield_point()
{
	AllocPause p;
	if (at_io) at_io();
	if (sched_on_io) sched_on_io();
	if (!tasks || my_task < 0) return;
	std::unique_lock<std::mutex> l(tasks->m);
	if (tasks->live < 2) return;
	long n;
	if (tasks->sched && tasks->next < tasks->sched->a.size()) n = tasks->choose(); else return;
	if (n == my_task) return;
	trace("switch", my_task, n);
	bump("sched:task switches");
	tasks->current = n;
	tasks->cv.notify_all();
	tasks->cv.wait(l, [] { return tasks->current == my_task; });
}

void Tasks::run(std::vector<std::function<void ()>> const& fns, Value const& sched)
{
	if (fns.size() == 1) { fns[0](); return; }
	TaskState st;
	st.finished.assign(fns.size(), false);
	st.sched = &sched;
	st.live = long(fns.size());
	tasks = &st;
	std::vector<std::thread> th;
	for (size_t i = 0; i < fns.size(); ++i) {
		th.emplace_back([i, &fns, &st] {
			my_task = long(i);
			{
				std::unique_lock<std::mutex> l(st.m);
				st.cv.wait(l, [&] { return st.current == long(i); });
			}
			fns[i]();
			std::unique_lock<std::mutex> l(st.m);
			st.finished[i] = true;
			--st.live;
			st.current = st.choose();
			trace("task done", long(i), st.current);
			st.cv.notify_all();
		});
	}
	{
		std::unique_lock<std::mutex> l(st.m);
		st.current = st.choose();
		st.cv.notify_all();
	}
	for (auto& t: th) t.join();
	tasks = nullptr;
}

//---- allocation ----------------------------------------------------------------------------------
namespace {
bool al_active = false, al_persistent = false, al_fired = false;
long al_count = 0, al_fail = -1;
long al_live = 0, al_bytes = 0;
}
thread_local int al_pause = 0;

void Alloc::begin_count() { al_count = 0; al_fail = -1; al_active = true; al_fired = false; }
long Alloc::count() { return al_count; }
void Alloc::fail(long index, bool persistent) { al_count = 0; al_fail = index; al_persistent = persistent; al_fired = false; al_active = true; }
void Alloc::stop() { al_active = false; al_fail = -1; }
bool Alloc::fired() { return al_fired; }
long Alloc::live() { return __atomic_load_n(&al_live, __ATOMIC_RELAXED); }
long Alloc::live_bytes() { return __atomic_load_n(&al_bytes, __ATOMIC_RELAXED); }
AllocPause::AllocPause() { ++al_pause; }
AllocPause::~AllocPause() { --al_pause; }
AllocResume::AllocResume() : was(al_pause) { al_pause = 0; }
AllocResume::~AllocResume() { al_pause = was; }


static bool alloc_fails()
{
	if (!al_active || al_pause) return false;
	long const n = al_count++;
	if (al_fail >= 0 && (n == al_fail || (al_persistent && n > al_fail))) {
		al_fired = true;
		return true;
	}
	return false;
}

static void* sim_new(size_t n)
{
	if (alloc_fails()) return nullptr;
	void* p = malloc(n ? n : 1);
	if (p) {
		__atomic_add_fetch(&al_live, 1, __ATOMIC_RELAXED);
		__atomic_add_fetch(&al_bytes, long(malloc_usable_size(p)), __ATOMIC_RELAXED);
	}
	return p;
}

static void sim_delete(void* p)
{
	if (!p) return;
	size_t const n = malloc_usable_size(p);
	__atomic_sub_fetch(&al_live, 1, __ATOMIC_RELAXED);
	__atomic_sub_fetch(&al_bytes, long(n), __ATOMIC_RELAXED);
	free(p);
}

//---- delivery --------------------------------------------------------------------------------------
static struct { char const* n; int e; } const errnos[] = {
	{ "EIO", EIO }, { "EINTR", EINTR }, { "EAGAIN", EAGAIN }, { "ENOSPC", ENOSPC }, { "EDQUOT", EDQUOT }, { "EACCES", EACCES },
	{ "ENOENT", ENOENT }, { "EMFILE", EMFILE }, { "ENFILE", ENFILE }, { "ENOMEM", ENOMEM }, { "EISDIR", EISDIR }, { "ETIMEDOUT", ETIMEDOUT },
	{ "EROFS", EROFS }, { "EFBIG", EFBIG }, { "ESTALE", ESTALE }, { "ECONNRESET", ECONNRESET }, { "EBADF", EBADF }, { "EPERM", EPERM }
};
int errno_by_name(std::string const& n) { for (auto& x: errnos) if (n == x.n) return x.e; return EIO; }
std::string errno_name(int e) { for (auto& x: errnos) if (e == x.e) return x.n; return std::to_string(e); }

Delivery::Delivery(Value const& v)
{
	for (auto const& c: v["chunks"].a) chunks.push_back(int(std::max(1ll, c.num(1))));
	for (auto const& f: v["faults"].a) {
		faults.push_back(Fault{long(f["at"].num()), errno_by_name(f["err"].str_or("EIO")), long(f["n"].num(-1))});
		// nothing is interrupted for ever
		if (faults.back().err == EINTR && faults.back().n < 0) faults.back().n = 3;
	}
}

long Delivery::step(long pos, long want, long size, char const* what)
{
	for (auto& f: faults) {
		if (f.at == pos && f.n != 0) {
			if (f.n > 0) --f.n; else fired_permanent = true;
			if (!fired) first_at = pos;
			fired = true;
			fault_fired(std::string(what) + " " + errno_name(f.err));
			trace("fault", pos, f.err, f.n);
			errno = f.err;
			return -1;
		}
	}
	long m = size < 0 ? want : std::min(want, size - pos);
	if (!chunks.empty()) {
		long const c = chunks[next_chunk++ % chunks.size()];
		if (c < m) { m = c; fault_fired(std::string("short ") + what); }
	}
	for (auto& f: faults) if (f.n != 0 && f.at > pos && f.at - pos < m) m = f.at - pos;
	return m;
}

//---- FILE* sources -----------------------------------------------------------------------------------
static ssize_t src_read(void* c, char* buf, size_t n)
{
	AllocPause p;
	auto s = static_cast<FileSource*>(c);
	yield_point();
	long const m = s->delivery.step(s->pos, long(n), long(s->bytes.size()), "read");
	trace("fread", s->pos, long(n), m);
	if (m < 0) return -1;
	memcpy(buf, s->bytes.data() + s->pos, size_t(m));
	s->pos += m;
	return m;
}

static int src_seek(void* c, off64_t* off, int whence)
{
	AllocPause p;
	auto s = static_cast<FileSource*>(c);
	if (!s->seekable) { errno = ESPIPE; return -1; }
	long base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? s->pos : long(s->bytes.size());
	long const t = base + long(*off);
	if (t < 0) { errno = EINVAL; return -1; }
	s->pos = std::min(t, long(s->bytes.size()));
	*off = s->pos;
	trace("fseek", t, whence);
	return 0;
}

FileSource::FileSource(std::string b, Value const& src)
	: delivery(src)
	, bytes(std::move(b))
	, seekable(src["seek"].flag())
{
	AllocPause p;
	cookie_io_functions_t io;
	memset(&io, 0, sizeof io);
	io.read = src_read;
	io.seek = src_seek;
	_f = fopencookie(this, "r", io);
	long const buf = src["buf"].num(-1);
	if (buf == 0) {
		setvbuf(_f, nullptr, _IONBF, 0);
	} else if (buf > 0) {
		_buf.resize(size_t(buf));
		setvbuf(_f, _buf.data(), _IOFBF, size_t(buf));
	}
}

FileSource::~FileSource()
{
	AllocPause p;
	fclose(_f);
}

//---- istream sources ---------------------------------------------------------------------------------
namespace {
struct InjectedError : std::runtime_error { InjectedError() : std::runtime_error("injected stream failure") {} };

class SimBuf : public std::streambuf
{
public:
	SimBuf(std::string b, Value const& src) : delivery(src), bytes(std::move(b)), how(src["exc"].str_or("ios"))
	{
		cap = src["buf"].num(-1);
		if (cap <= 0) cap = 512;
		buf.resize(size_t(cap));
	}
	Delivery delivery;
	std::string bytes;
	long pos = 0;
	std::string how;
	long cap;
	std::vector<char> buf;
protected:
	int_type underflow() override
	{
		long m;
		{
			AllocPause p;
			yield_point();
			m = delivery.step(pos, cap, long(bytes.size()), "stream read");
			trace("underflow", pos, cap, m);
		}
		if (m < 0) {
			if (how == "runtime") throw InjectedError();
			if (how == "int") throw 42;
			throw std::ios_base::failure("injected stream failure");
		}
		if (m == 0) return traits_type::eof();
		memcpy(buf.data(), bytes.data() + pos, size_t(m));
		pos += m;
		setg(buf.data(), buf.data(), buf.data() + m);
		return traits_type::to_int_type(buf[0]);
	}
	pos_type seekoff(off_type off, std::ios_base::seekdir dir, std::ios_base::openmode) override
	{
		long const here = pos - (egptr() - gptr());
		long const base = dir == std::ios_base::beg ? 0 : dir == std::ios_base::cur ? here : long(bytes.size());
		long const t = base + long(off);
		if (t < 0 || t > long(bytes.size())) return pos_type(off_type(-1));
		if (!(dir == std::ios_base::cur && off == 0)) {
			setg(nullptr, nullptr, nullptr);
			pos = t;
		}
		return pos_type(t);
	}
	pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff(off_type(p), std::ios_base::beg, m); }
};
}

struct StreamSource::Impl
{
	Impl(std::string b, Value const& src) : buf(std::move(b), src), is(&buf)
	{
		if (src["mask"].flag()) is.exceptions(std::ios_base::badbit);
	}
	SimBuf buf;
	std::istream is;
};
StreamSource::StreamSource(std::string bytes, Value const& src) { AllocPause p; _impl.reset(new Impl(std::move(bytes), src)); }
StreamSource::~StreamSource() { AllocPause p; _impl.reset(); }
std::istream& StreamSource::stream() { return _impl->is; }
Delivery& StreamSource::delivery() { return _impl->buf.delivery; }

//---- files by name -------------------------------------------------------------------------------------
namespace {
std::string scratch_dir;
std::map<std::string, NameCfg>& configs() { static std::map<std::string, NameCfg> c; return c; }
struct FdState { NameCfg* cfg; long rpos, wpos; bool sim; };
FdState fds[1024];
long sim_open_count = 0;
}

std::string scratch() { return scratch_dir; }
void set_scratch(std::string d) { scratch_dir = d; }

NameCfg* configure(std::string const& path, Value const& v)
{
	AllocPause p;
	NameCfg c;
	c.path = path;
	if (v.has("open_err")) { c.open_err = errno_by_name(v["open_err"].str()); c.open_n = long(v["open_n"].num(-1)); }
	c.read = Delivery(v["read"]);
	c.write = Delivery(v["write"]);
	if (v.has("close_err")) c.close_err = errno_by_name(v["close_err"].str());
	c.kill_at = long(v["kill_at"].num(-1));
	c.kill_part = long(v["kill_part"].num(0));
	configs()[path] = c;
	return &configs()[path];
}
NameCfg* find_config(std::string const& path) { auto i = configs().find(path); return i == configs().end() ? nullptr : &i->second; }
void clear_configs()
{
	AllocPause p;
	for (auto& f: fds) f.cfg = nullptr;
	configs().clear();
}
long open_sim_files() { return sim_open_count; }
long open_fds()
{
	AllocPause p;
	long n = 0;
	if (DIR* d = opendir("/proc/self/fd")) {
		while (readdir(d)) ++n;
		closedir(d);
	}
	return n - 3;
}

static bool in_scratch(char const* path) { return path && !scratch_dir.empty() && !strncmp(path, scratch_dir.c_str(), scratch_dir.size()) && (path[scratch_dir.size()] == '/' || !path[scratch_dir.size()]); }

static void maybe_kill(NameCfg* c, int fd, void const* data, size_t n)
{
	if (!c) return;
	long const k = c->calls++;
	if (c->kill_at >= 0 && k == c->kill_at) {
		if (data && c->kill_part > 0) {
			long const r = syscall(SYS_write, fd, data, size_t(std::min<long>(long(n), c->kill_part)));
			(void) r;
		}
		fault_fired(data ? "kill during write" : "kill between calls");
		trace("kill", k);
		_exit(KILLED);
	}
}

static void sim_opened(int fd, char const* path)
{
	if (fd < 0 || fd >= 1024) return;
	AllocPause p;
	fds[fd] = FdState{find_config(path), 0, 0, true};
	++sim_open_count;
	if (fds[fd].cfg) ++fds[fd].cfg->opened;
	trace("open", fds[fd].cfg ? 1 : 0);
}

/// @return true if opening should fail (with errno)
static bool sim_open_fails(char const* path)
{
	AllocPause p;
	yield_point();
	auto c = find_config(path);
	if (!c) return false;
	maybe_kill(c, -1, nullptr, 0);
	if (c->open_err && c->open_n != 0) {
		if (c->open_n > 0) --c->open_n;
		c->open_failed = true;
		fault_fired("open " + errno_name(c->open_err));
		trace("open fails", c->open_err);
		errno = c->open_err;
		return true;
	}
	return false;
}

static ssize_t sim_read(int fd, void* buf, size_t n)
{
	AllocPause p;
	auto& st = fds[fd];
	yield_point();
	if (!st.cfg) {
		ssize_t r = syscall(SYS_read, fd, buf, n);
		trace("read", fd, long(n), long(r));
		return r;
	}
	maybe_kill(st.cfg, -1, nullptr, 0);
	long const m = st.cfg->read.step(st.rpos, long(n), -1, "file read");
	if (m < 0) return -1;
	ssize_t const r = syscall(SYS_read, fd, buf, size_t(m));
	trace("read", st.rpos, long(n), long(r));
	if (r > 0) st.rpos += r;
	return r;
}

static ssize_t sim_write(int fd, void const* buf, size_t n)
{
	AllocPause p;
	auto& st = fds[fd];
	yield_point();
	if (!st.cfg) {
		ssize_t r = syscall(SYS_write, fd, buf, n);
		trace("write", fd, long(n), long(r));
		return r;
	}
	maybe_kill(st.cfg, fd, buf, n);
	long const m = st.cfg->write.step(st.wpos, long(n), -1, "file write");
	if (m < 0) return -1;
	ssize_t const r = syscall(SYS_write, fd, buf, size_t(m));
	trace("write", st.wpos, long(n), long(r));
	if (r > 0) { st.wpos += r; st.cfg->wrote += r; }
	return r;
}

static void sim_closing(int fd, int* fail)
{
	AllocPause p;
	auto& st = fds[fd];
	yield_point();
	maybe_kill(st.cfg, -1, nullptr, 0);
	--sim_open_count;
	*fail = 0;
	if (st.cfg) {
		++st.cfg->closed;
		if (st.cfg->close_err) {
			*fail = st.cfg->close_err;
			st.cfg->close_failed = true;
			fault_fired("close " + errno_name(*fail));
		}
	}
	trace("close", *fail);
	st = FdState{nullptr, 0, 0, false};
}

static bool is_sim(int fd) { return fd >= 0 && fd < 1024 && fds[fd].sim; }

template <class F> F next_symbol(char const* n) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }

struct CookieFd { int fd; };
static ssize_t cf_read(void* c, char* b, size_t n) { return sim_read(static_cast<CookieFd*>(c)->fd, b, n); }
/// as stdio does it: go on after short writes, give up after an error
static ssize_t cf_write(void* c, char const* b, size_t n)
{
	size_t done = 0;
	while (done < n) {
		ssize_t const r = sim_write(static_cast<CookieFd*>(c)->fd, b + done, n - done);
		if (r <= 0) break;
		done += size_t(r);
	}
	return ssize_t(done);
}
static int cf_seek(void* c, off64_t* o, int w)
{
	int const fd = static_cast<CookieFd*>(c)->fd;
	long const r = lseek64(fd, *o, w);
	if (r < 0) return -1;
	fds[fd].rpos = r;
	*o = r;
	return 0;
}
static int cf_close(void* c)
{
	AllocPause p;
	auto f = static_cast<CookieFd*>(c);
	int fail;
	sim_closing(f->fd, &fail);
	syscall(SYS_close, f->fd);
	delete f;
	if (fail) { errno = fail; return -1; }
	return 0;
}

static FILE* cookie_open(char const* path, char const* mode)
{
	AllocPause p;
	if (sim_open_fails(path)) return nullptr;
	int flags = mode[0] == 'r' ? O_RDONLY : mode[0] == 'w' ? (O_WRONLY | O_CREAT | O_TRUNC) : (O_WRONLY | O_CREAT | O_APPEND);
	if (strchr(mode, '+')) flags = (flags & ~(O_RDONLY | O_WRONLY)) | O_RDWR;
	int const fd = int(syscall(SYS_openat, AT_FDCWD, path, flags | O_CLOEXEC, 0666));
	if (fd < 0) { fault_fired("open (real) " + errno_name(errno)); trace("open fails really", errno); return nullptr; }
	sim_opened(fd, path);
	cookie_io_functions_t io;
	io.read = cf_read; io.write = cf_write; io.seek = cf_seek; io.close = cf_close;
	return fopencookie(new CookieFd{fd}, mode, io);
}

void put_file(std::string const& path, std::string const& bytes)
{
	AllocPause p;
	int const fd = int(syscall(SYS_openat, AT_FDCWD, path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666));
	size_t o = 0;
	while (fd >= 0 && o < bytes.size()) {
		long const r = syscall(SYS_write, fd, bytes.data() + o, bytes.size() - o);
		if (r <= 0) break;
		o += size_t(r);
	}
	if (fd >= 0) syscall(SYS_close, fd);
	if (fd < 0 || o != bytes.size()) { fprintf(stderr, "harness: cannot write scratch file %s\n", path.c_str()); _exit(98); }
}

bool get_file(std::string const& path, std::string& bytes)
{
	AllocPause p;
	bytes.clear();
	int const fd = int(syscall(SYS_openat, AT_FDCWD, path.c_str(), O_RDONLY, 0));
	if (fd < 0) return false;
	char b[8192];
	long r;
	while ((r = syscall(SYS_read, fd, b, sizeof b)) > 0) bytes.append(b, size_t(r));
	syscall(SYS_close, fd);
	return r == 0;
}

void remove_file(std::string const& path) { unlink(path.c_str()); }

bool stopped_from_outside(int st) { return WIFSIGNALED(st) && (WTERMSIG(st) == SIGTERM || WTERMSIG(st) == SIGINT || WTERMSIG(st) == SIGHUP); }

int nested(std::function<std::string ()> const& f, std::string& result)
{
	AllocPause p;
	fflush(nullptr);
	shared->blob_len = 0;
	pid_t const pid = fork();
	if (pid == 0) {
		al_pause = 0;
		std::string r = f();
		++al_pause;
		size_t n = std::min(r.size(), sizeof(shared->blob));
		memcpy(shared->blob, r.data(), n);
		shared->blob_len = n;
		_exit(0);
	}
	int st = 0;
	while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
	if (stopped_from_outside(st)) _exit(INTERRUPTED);
	result.assign(shared->blob, shared->blob_len);
	return st;
}

}

//---- interposed symbols -----------------------------------------------------------------------------------
using namespace sim;

void* operator new(size_t n) { void* p = sim_new(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = sim_new(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, std::nothrow_t const&) noexcept { return sim_new(n); }
void* operator new[](size_t n, std::nothrow_t const&) noexcept { return sim_new(n); }
void operator delete(void* p) noexcept { sim_delete(p); }
void operator delete[](void* p) noexcept { sim_delete(p); }
void operator delete(void* p, size_t) noexcept { sim_delete(p); }
void operator delete[](void* p, size_t) noexcept { sim_delete(p); }
void operator delete(void* p, std::nothrow_t const&) noexcept { sim_delete(p); }
void operator delete[](void* p, std::nothrow_t const&) noexcept { sim_delete(p); }

extern "C" {

// calls from code linked into this program (libsub) ...
FILE* __real_fopen64(char const*, char const*);
FILE* __wrap_fopen64(char const* path, char const* mode)
{
	if (in_scratch(path)) return cookie_open(path, mode);
	static auto real = next_symbol<FILE* (*)(char const*, char const*)>("fopen64");
	return real(path, mode);
}
FILE* __wrap_fopen(char const* path, char const* mode) { return __wrap_fopen64(path, mode); }

// ... and from shared libraries (std::fstream)
static FILE* lib_fopen(char const* path, char const* mode)
{
	static auto real = next_symbol<FILE* (*)(char const*, char const*)>("fopen64");
	if (!in_scratch(path)) return real(path, mode);
	if (sim_open_fails(path)) return nullptr;
	FILE* f = real(path, mode);
	if (f) sim_opened(fileno(f), path); else { AllocPause p; int e = errno; fault_fired("open (real) " + errno_name(e)); errno = e; }
	return f;
}
FILE* fopen64(char const* path, char const* mode) { return lib_fopen(path, mode); }
FILE* fopen(char const* path, char const* mode) { return lib_fopen(path, mode); }

int fclose(FILE* f)
{
	static auto real = next_symbol<int (*)(FILE*)>("fclose");
	int const fd = fileno(f);
	if (!is_sim(fd)) return real(f);
	int fail;
	sim_closing(fd, &fail);
	int const r = real(f);
	if (fail) { errno = fail; return EOF; }
	return r;
}

ssize_t read(int fd, void* b, size_t n) { return is_sim(fd) ? sim_read(fd, b, n) : syscall(SYS_read, fd, b, n); }
ssize_t write(int fd, void const* b, size_t n) { return is_sim(fd) ? sim_write(fd, b, n) : syscall(SYS_write, fd, b, n); }
ssize_t writev(int fd, struct iovec const* v, int c)
{
	if (!is_sim(fd)) return syscall(SYS_writev, fd, v, c);
	AllocPause p;
	std::string all;
	for (int i = 0; i < c; ++i) all.append(static_cast<char const*>(v[i].iov_base), v[i].iov_len);
	return sim_write(fd, all.data(), all.size());
}
int open64(char const* path, int flags, ...)
{
	va_list a;
	va_start(a, flags);
	int const mode = va_arg(a, int);
	va_end(a);
	if (!in_scratch(path)) return int(syscall(SYS_openat, AT_FDCWD, path, flags, mode));
	if (sim_open_fails(path)) return -1;
	int const fd = int(syscall(SYS_openat, AT_FDCWD, path, flags, mode));
	if (fd >= 0) sim_opened(fd, path);
	return fd;
}
int open(char const* path, int flags, ...)
{
	va_list a;
	va_start(a, flags);
	int const mode = va_arg(a, int);
	va_end(a);
	return open64(path, flags, mode);
}
int close(int fd)
{
	if (!is_sim(fd)) return int(syscall(SYS_close, fd));
	int fail;
	sim_closing(fd, &fail);
	int const r = int(syscall(SYS_close, fd));
	if (fail) { errno = fail; return -1; }
	return r;
}

}
