// What the compiler's thread instrumentation calls: here, a seeded scheduler and a happens-before race detector.
#include "threads.h"
#include "seam.h"
#include "props.h"
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <cxxabi.h>
#include <dlfcn.h>
#include <iostream>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

using std::string;

extern char __data_start[], _end[];
extern "C" { void* __real_memset(void*, int, size_t); int __real_vsnprintf(char*, size_t, char const*, va_list); }

namespace sim {

extern thread_local int al_pause;

namespace {

typedef uint32_t Clock;
struct VC
{
	Clock c[MAX_THREADS];
	void join(VC const& o) { for (int i = 0; i < MAX_THREADS; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};

enum State { RUNNABLE, BLOCKED, FINISHED };

struct Thread
{
	int id;
	State state;
	void const* on;          ///< what it waits for
	int go;                  ///< futex
	VC vc, pending, fence;
	uintptr_t stack_lo, stack_hi;
	void const* spin_at;
	int spin;
};

Thread threads[MAX_THREADS];
int nthreads = 0;
bool running = false;
thread_local Thread* self = nullptr;

//---- sync objects: a small table by address -----------------------------------------------------------------
struct Sync
{
	void const* at;
	VC vc;
	int owner;               ///< -1 if none
	int depth;
	int readers;
};
int const SYNCS = 1 << 14;
Sync syncs[SYNCS];

Sync& sync_for(void const* p)
{
	size_t i = (uintptr_t(p) * 0x9e3779b97f4a7c15ull) >> 50;
	for (int n = 0; n < SYNCS; ++n, i = (i + 1) % SYNCS) {
		if (!syncs[i].at) { syncs[i].at = p; syncs[i].owner = -1; return syncs[i]; }
		if (syncs[i].at == p) return syncs[i];
	}
	fprintf(stderr, "harness: too many synchronisation objects\n");
	_exit(98);
}

Sync* find_sync(void const* p)
{
	size_t i = (uintptr_t(p) * 0x9e3779b97f4a7c15ull) >> 50;
	for (int n = 0; n < SYNCS; ++n, i = (i + 1) % SYNCS) {
		if (!syncs[i].at) return nullptr;
		if (syncs[i].at == p) return &syncs[i];
	}
	return nullptr;
}

//---- ending the run -------------------------------------------------------------------------------------------
[[noreturn]] void end_failed(char const* cls, string const& msg)
{
	++al_pause;
	strncpy(shared->cls, cls, sizeof(shared->cls) - 1);
	strncpy(shared->msg, msg.c_str(), sizeof(shared->msg) - 1);
	shared->hash = hash_str(cls, trace_hash);
	shared->run_events = trace_events;
	shared->done = 2;
	_exit(0);
}

string where(void const* pc)
{
	++al_pause;
	Dl_info i;
	string r = "?";
	if (dladdr(pc, &i) && i.dli_fbase) {
		char cmd[600];
		snprintf(cmd, sizeof cmd, "addr2line -Cfs -e '%s' 0x%lx 2>/dev/null", i.dli_fname, (unsigned long) (uintptr_t(pc) - uintptr_t(i.dli_fbase) - 1));
		if (FILE* f = popen(cmd, "r")) {
			char b[600] = "", l[200] = "";
			if (fgets(b, sizeof b, f) && fgets(l, sizeof l, f)) {
				b[strcspn(b, "\n")] = 0;
				l[strcspn(l, "\n")] = 0;
				r = string(b).substr(0, 200) + " (" + l + ")";
			}
			pclose(f);
		}
	}
	--al_pause;
	return r;
}

//---- scheduling ------------------------------------------------------------------------------------------------
// each kind of event has points of its own, in order
struct Want { char kind; size_t next; long left, to; };
Value const* points = nullptr;
Want wants[5];
long last_to = 0;
uint64_t steps = 0, since_switch = 0;
uint64_t const MAX_STEPS = 1000000000ull, MAX_STRETCH = 30000000ull;

void next_want(Want& w)
{
	w.left = 0;
	while (points && w.next < points->a.size()) {
		auto const& p = points->a[w.next++];
		string const& k = p["k"].str();
		if (k.empty() || k[0] != w.kind) continue;
		w.left = long(std::max(1ll, p["n"].num(1)));
		w.to = long(p["to"].num(0));
		return;
	}
}

void start_wants(Value const& p)
{
	points = &p;
	static char const kinds[] = "aslio";
	for (int i = 0; i < 5; ++i) { wants[i].kind = kinds[i]; wants[i].next = 0; next_want(wants[i]); }
}

void futex_wait(int* p) { while (__atomic_load_n(p, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, p, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); __atomic_store_n(p, 0, __ATOMIC_RELAXED); }
void futex_wake(int* p) { __atomic_store_n(p, 1, __ATOMIC_RELEASE); syscall(SYS_futex, p, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

int choose(long k, int except)
{
	int r[MAX_THREADS], n = 0;
	for (int i = 0; i < nthreads; ++i) if (threads[i].state == RUNNABLE && i != except) r[n++] = i;
	if (!n) return -1;
	if (k < 0) k = -k;
	return r[k % n];
}

void go_to(Thread* me, int n)
{
	since_switch = 0;
	if (n == me->id) return;
	futex_wake(&threads[n].go);
	futex_wait(&me->go);
}

/// change thread, if there is another to change to
void change(Thread* me, long k, char const* why)
{
	int const n = choose(k, me->id);
	if (n < 0) return;
	++al_pause;
	trace(why, me->id, n, long(steps & 0xffffffff));
	bump(string("sched:") + why);
	--al_pause;
	me->spin = 0;
	go_to(me, n);
}

void block(Thread* me, void const* on)
{
	me->state = BLOCKED;
	me->on = on;
	int const n = choose(last_to, -1);
	++al_pause;
	trace("block", me->id, n);
	bump("sched:waited for a lock");
	--al_pause;
	if (n < 0) end_failed("deadlock", "every thread waits for another");
	since_switch = 0;
	futex_wake(&threads[n].go);
	futex_wait(&me->go);
}

void unblock(void const* on) { for (int i = 0; i < nthreads; ++i) if (threads[i].state == BLOCKED && threads[i].on == on) threads[i].state = RUNNABLE; }

void event(Thread* me, char kind)
{
	++steps;
	if (++since_switch > MAX_STRETCH) change(me, 0, "long stretch");
	if (steps > MAX_STEPS) end_failed("hang", "the threads did not finish within the limit on accesses");
	bool now = false;
	for (auto& w: wants) {
		if (w.left && (w.kind == kind || w.kind == 'a') && --w.left == 0) {
			now = true;
			last_to = w.to;
			++al_pause;
			next_want(w);
			--al_pause;
		}
	}
	if (now) change(me, last_to, "preemption");
}

//---- shadow memory ---------------------------------------------------------------------------------------------
struct Cell
{
	uint8_t w_tid, w_mask, w_atomic, pad;   // w_tid is one more than the thread's number
	Clock w_clk;
	void const* w_pc;
	Clock r_clk[MAX_THREADS];
	uint8_t r_mask[MAX_THREADS], r_atomic[MAX_THREADS];
	void const* r_pc[MAX_THREADS];
};

Cell** top[1 << 17];

void* fresh(size_t n)
{
	static char* at = nullptr;
	static size_t left = 0;
	n = (n + 15) & ~size_t(15);
	if (n > left) {
		size_t const chunk = std::max<size_t>(n, 16 << 20);
		at = static_cast<char*>(mmap(nullptr, chunk, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
		if (at == MAP_FAILED) { fprintf(stderr, "harness: no shadow memory\n"); _exit(98); }
		left = chunk;
	}
	char* r = at;
	at += n;
	left -= n;
	return r;
}

Cell* page(uintptr_t a, bool make)
{
	size_t const i = (a >> 30) & ((1 << 17) - 1), j = (a >> 12) & ((1 << 18) - 1);
	if (!top[i]) {
		if (!make) return nullptr;
		top[i] = static_cast<Cell**>(fresh(sizeof(Cell*) << 18));
	}
	if (!top[i][j]) {
		if (!make) return nullptr;
		top[i][j] = static_cast<Cell*>(fresh(sizeof(Cell) * 512));
	}
	return top[i][j];
}

void forget(void const* p, size_t n)
{
	uintptr_t a = uintptr_t(p) & ~uintptr_t(7);
	uintptr_t const e = (uintptr_t(p) + n + 7) & ~uintptr_t(7);
	while (a < e) {
		uintptr_t const pe = std::min(e, (a | 4095) + 1);
		if (Cell* c = page(a, false)) __real_memset(c + ((a >> 3) & 511), 0, sizeof(Cell) * ((pe - a) >> 3));
		a = pe;
	}
}

bool exempt(uintptr_t a)
{
	// the standard streams may be used by several threads, and are not otherwise looked at
	static struct { void* p; size_t n; } const s[] = {
		{ &std::cout, sizeof std::cout }, { &std::cerr, sizeof std::cerr }, { &std::clog, sizeof std::clog }, { &std::cin, sizeof std::cin },
		{ &std::wcout, sizeof std::wcout }, { &std::wcerr, sizeof std::wcerr }, { &std::wclog, sizeof std::wclog }, { &std::wcin, sizeof std::wcin }
	};
	for (auto const& x: s) if (a >= uintptr_t(x.p) && a < uintptr_t(x.p) + x.n) return true;
	return false;
}

bool is_static(uintptr_t a) { return a >= uintptr_t(__data_start) && a < uintptr_t(_end); }

[[noreturn]] void race(char const* a, void const* apc, char const* b, void const* bpc, uintptr_t addr)
{
	string what = is_static(addr) ? "static storage" : "memory";
	Dl_info i;
	if (is_static(addr) && dladdr(reinterpret_cast<void*>(addr), &i) && i.dli_sname && addr - uintptr_t(i.dli_saddr) < 256) {
		++al_pause;
		int st;
		char* d = abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &st);
		what += string(" near ") + (d ? d : i.dli_sname);
	}
	end_failed("race", string("unsynchronised ") + a + " in " + where(apc) + " and " + b + " in " + where(bpc) + " of " + what);
}

void check_cell(Thread* me, Cell& c, uint8_t mask, bool write, bool atomic, void const* pc, uintptr_t addr)
{
	int const t = me->id;
	if (c.w_tid && c.w_tid != t + 1 && (c.w_mask & mask) && !(atomic && c.w_atomic) && c.w_clk > me->vc.c[c.w_tid - 1]) race(write ? "write" : "read", pc, "write", c.w_pc, addr);
	if (write) {
		for (int u = 0; u < nthreads; ++u) {
			if (u != t && (c.r_mask[u] & mask) && !(atomic && c.r_atomic[u]) && c.r_clk[u] > me->vc.c[u]) race("write", pc, "read", c.r_pc[u], addr);
		}
		if (c.w_tid == t + 1 && c.w_clk == me->vc.c[t] && bool(c.w_atomic) == atomic) c.w_mask |= mask;
		else { c.w_tid = uint8_t(t + 1); c.w_clk = me->vc.c[t]; c.w_mask = mask; c.w_atomic = atomic; }
		c.w_pc = pc;
	} else {
		if (c.r_clk[t] == me->vc.c[t] && bool(c.r_atomic[t]) == atomic) c.r_mask[t] |= mask;
		else { c.r_clk[t] = me->vc.c[t]; c.r_mask[t] = mask; c.r_atomic[t] = atomic; }
		c.r_pc[t] = pc;
	}
}

bool used_by_another(Thread* me, Cell const& c)
{
	if (c.w_tid && c.w_tid != me->id + 1) return true;
	for (int u = 0; u < nthreads; ++u) if (u != me->id && c.r_mask[u]) return true;
	return false;
}

void access(void const* p, size_t n, bool write, bool atomic, void const* pc)
{
	Thread* me = self;
	if (!me || al_pause || !n) return;
	uintptr_t const a = uintptr_t(p);
	if (a >= me->stack_lo && a < me->stack_hi) { event(me, 'a'); return; }
	if (exempt(a)) return;
	Cell* c0 = page(a, true) + ((a >> 3) & 511);
	event(me, atomic || is_static(a) || used_by_another(me, *c0) ? 's' : 'a');
	uintptr_t const e = a + n;
	for (uintptr_t g = a & ~uintptr_t(7); g < e; g += 8) {
		uint8_t mask = 0xff;
		if (g < a) mask &= uint8_t(0xff << (a - g));
		if (g + 8 > e) mask &= uint8_t(0xff >> (g + 8 - e));
		check_cell(me, page(g, true)[(g >> 3) & 511], mask, write, atomic, pc, g);
	}
}

void enter(void const*)
{
	Thread* me = self;
	if (!me || al_pause) return;
	event(me, 'a');
}

//---- synchronisation ----------------------------------------------------------------------------------------
bool acquires(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
bool releases(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

void tick(Thread* me) { ++me->vc.c[me->id]; }

void atomic_event(void const* p, size_t n, bool write, void const* pc)
{
	Thread* me = self;
	if (!me || al_pause) return;
	access(p, n, write, true, pc);
	// something waiting for another thread must let it run
	if (me->spin_at == p) {
		if (++me->spin > 60) change(me, 0, "spinning");
	} else { me->spin_at = p; me->spin = 0; }
}

void on_load(void const* p, int mo)
{
	Thread* me = self;
	if (!me || al_pause) return;
	if (Sync* s = find_sync(p)) { if (acquires(mo)) me->vc.join(s->vc); else me->pending.join(s->vc); }
}

void on_store(void const* p, int mo, bool rmw)
{
	Thread* me = self;
	if (!me || al_pause) return;
	if (is_static(uintptr_t(p)) || rmw || releases(mo) || find_sync(p)) {
		Sync& s = sync_for(p);
		VC add = {};
		if (releases(mo)) add = me->vc; else add = me->fence;
		if (rmw) s.vc.join(add); else s.vc = add;
		if (releases(mo)) tick(me);
	}
}

void acquire_lock(Thread* me, void const* m)
{
	me->vc.join(sync_for(m).vc);
}

void release_lock(Thread* me, void const* m)
{
	sync_for(m).vc.join(me->vc);
	tick(me);
}

bool lock(void const* m, bool recursive, bool trying, bool shared_lock)
{
	Thread* me = self;
	if (!al_pause) event(me, 'l');
	Sync& s = sync_for(m);
	for (;;) {
		if (s.owner == me->id && !shared_lock) {
			if (recursive) { ++s.depth; return true; }
			if (trying) return false;
			end_failed("deadlock", "a thread locks a mutex that it has locked");
		}
		if (s.owner < 0 && (shared_lock || !s.readers)) break;
		if (trying) return false;
		block(me, m);
	}
	if (shared_lock) ++s.readers; else { s.owner = me->id; s.depth = 1; }
	acquire_lock(me, m);
	return true;
}

void unlock(void const* m)
{
	Thread* me = self;
	Sync& s = sync_for(m);
	if (s.owner == me->id) {
		if (--s.depth > 0) return;
		s.owner = -1;
	} else if (s.readers > 0) --s.readers;
	release_lock(me, m);
	unblock(m);
	if (!al_pause) event(me, 'l');
}

}

//---- running ----------------------------------------------------------------------------------------------------
void thread_point()
{
	if (self) event(self, 'o');
}

struct Start { Thread* t; std::function<void ()> const* f; };

static void* start(void* p)
{
	auto s = static_cast<Start*>(p);
	Thread* me = s->t;
	al_pause = 1;
	pthread_attr_t a;
	void* lo = nullptr;
	size_t n = 0;
	pthread_getattr_np(pthread_self(), &a);
	pthread_attr_getstack(&a, &lo, &n);
	pthread_attr_destroy(&a);
	me->stack_lo = uintptr_t(lo);
	me->stack_hi = me->stack_lo + n;
	futex_wait(&me->go);
	self = me;
	al_pause = 0;
	try {
		++al_pause;
		(*s->f)();
		--al_pause;
	} catch (Failed& f) {
		end_failed(f.cls.c_str(), f.msg);
	}
	++al_pause;
	me->state = FINISHED;
	self = nullptr;
	int const next = choose(last_to, -1);
	trace("thread done", me->id, next);
	if (next >= 0) futex_wake(&threads[next].go);
	return nullptr;
}

void run_threads(std::vector<std::function<void ()>> const& fns, Value const& sched)
{
	AllocPause p;
	nthreads = int(fns.size());
	if (nthreads < 1 || nthreads > MAX_THREADS) throw Invalid{"number of threads"};
	memset(static_cast<void*>(threads), 0, sizeof threads);
	steps = since_switch = 0;
	start_wants(sched["points"]);
	std::vector<Start> st;
	for (int i = 0; i < nthreads; ++i) {
		threads[i].id = i;
		threads[i].vc.c[i] = 1;
		st.push_back(Start{ &threads[i], &fns[size_t(i)] });
	}
	pthread_t th[MAX_THREADS];
	for (int i = 0; i < nthreads; ++i) if (pthread_create(&th[i], nullptr, start, &st[size_t(i)])) { fprintf(stderr, "harness: no thread\n"); _exit(98); }
	running = true;
	futex_wake(&threads[choose(long(sched["first"].num(0)), -1)].go);
	for (int i = 0; i < nthreads; ++i) pthread_join(th[i], nullptr);
	running = false;
	bump("simulated accesses", steps);
}

}

//---- interposed ---------------------------------------------------------------------------------------------------
using namespace sim;

extern "C" void sched_on_io()
{
	if (self) event(self, 'i');
}

#define PC __builtin_return_address(0)

extern "C" {

void __tsan_init() {}
void __tsan_func_entry(void* p) { enter(p); }
void __tsan_func_exit(void*) {}
void __tsan_vptr_update(void** p, void*) { access(p, 8, true, false, PC); }
void __tsan_vptr_read(void** p) { access(p, 8, false, false, PC); }
#define RW(n) \
void __tsan_read##n(void* p) { access(p, n, false, false, PC); } \
void __tsan_write##n(void* p) { access(p, n, true, false, PC); } \
void __tsan_volatile_read##n(void* p) { access(p, n, false, false, PC); } \
void __tsan_volatile_write##n(void* p) { access(p, n, true, false, PC); } \
void __tsan_unaligned_read##n(void* p) { access(p, n, false, false, PC); } \
void __tsan_unaligned_write##n(void* p) { access(p, n, true, false, PC); } \
void __tsan_unaligned_volatile_read##n(void* p) { access(p, n, false, false, PC); } \
void __tsan_unaligned_volatile_write##n(void* p) { access(p, n, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { access(p, n, false, false, PC); }
void __tsan_write_range(void* p, unsigned long n) { access(p, n, true, false, PC); }
void __tsan_mutex_create(void*, unsigned) {}
void __tsan_mutex_destroy(void*, unsigned) {}
void __tsan_mutex_pre_lock(void*, unsigned) {}
void __tsan_mutex_post_lock(void*, unsigned, int) {}
int __tsan_mutex_pre_unlock(void*, unsigned) { return 0; }
void __tsan_mutex_post_unlock(void*, unsigned) {}
void __tsan_mutex_pre_signal(void*, unsigned) {}
void __tsan_mutex_post_signal(void*, unsigned) {}
void __tsan_mutex_pre_divert(void*, unsigned) {}
void __tsan_mutex_post_divert(void*, unsigned) {}

#define RMW(T, n, name, expr) T __tsan_atomic##n##_##name(volatile T* p, T v, int mo) { \
	atomic_event(const_cast<T*>(p), sizeof(T), true, PC); on_load(const_cast<T*>(p), mo); T const old = *p; *p = T(expr); on_store(const_cast<T*>(p), mo, true); return old; }
#define ATOMIC(T, n) \
T __tsan_atomic##n##_load(volatile T const* p, int mo) { atomic_event(const_cast<T const*>(p), sizeof(T), false, PC); on_load(const_cast<T const*>(p), mo); return *p; } \
void __tsan_atomic##n##_store(volatile T* p, T v, int mo) { atomic_event(const_cast<T*>(p), sizeof(T), true, PC); *p = v; on_store(const_cast<T*>(p), mo, false); } \
RMW(T, n, exchange, v) RMW(T, n, fetch_add, old + v) RMW(T, n, fetch_sub, old - v) RMW(T, n, fetch_and, old & v) RMW(T, n, fetch_or, old | v) RMW(T, n, fetch_xor, old ^ v) RMW(T, n, fetch_nand, ~(old & v)) \
int __tsan_atomic##n##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int fmo) { \
	atomic_event(const_cast<T*>(p), sizeof(T), true, PC); \
	T const old = *p; \
	if (old == *e) { on_load(const_cast<T*>(p), mo); *p = v; on_store(const_cast<T*>(p), mo, true); return 1; } \
	on_load(const_cast<T*>(p), fmo); *e = old; return 0; } \
int __tsan_atomic##n##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int fmo) { return __tsan_atomic##n##_compare_exchange_strong(p, e, v, mo, fmo); }
ATOMIC(uint8_t, 8) ATOMIC(uint16_t, 16) ATOMIC(uint32_t, 32) ATOMIC(uint64_t, 64)
void __tsan_atomic_thread_fence(int mo)
{
	if (!self || al_pause) return;
	if (acquires(mo)) self->vc.join(self->pending);
	if (releases(mo)) { self->fence = self->vc; tick(self); }
}
void __tsan_atomic_signal_fence(int) {}

//---- locks: for all callers, also in shared libraries
#define REAL(name) static decltype(&name) real = nullptr; if (!real) real = reinterpret_cast<decltype(&name)>(dlsym(RTLD_NEXT, #name))

int pthread_mutex_lock(pthread_mutex_t* m) noexcept
{
	if (self) { lock(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE, false, false); return 0; }
	REAL(pthread_mutex_lock);
	return real(m);
}
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept
{
	if (self) return lock(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE, true, false) ? 0 : EBUSY;
	REAL(pthread_mutex_trylock);
	return real(m);
}
int pthread_mutex_timedlock(pthread_mutex_t* m, struct timespec const*) noexcept { return pthread_mutex_lock(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept
{
	if (self) { unlock(m); return 0; }
	REAL(pthread_mutex_unlock);
	return real(m);
}
int pthread_spin_lock(pthread_spinlock_t* m) noexcept { if (self) lock(const_cast<int*>(m), false, false, false); return 0; }
int pthread_spin_trylock(pthread_spinlock_t* m) noexcept { return !self || lock(const_cast<int*>(m), false, true, false) ? 0 : EBUSY; }
int pthread_spin_unlock(pthread_spinlock_t* m) noexcept { if (self) unlock(const_cast<int*>(m)); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept
{
	if (self) { lock(m, false, false, true); return 0; }
	REAL(pthread_rwlock_rdlock);
	return real(m);
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) noexcept
{
	if (self) return lock(m, false, true, true) ? 0 : EBUSY;
	REAL(pthread_rwlock_tryrdlock);
	return real(m);
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept
{
	if (self) { lock(m, false, false, false); return 0; }
	REAL(pthread_rwlock_wrlock);
	return real(m);
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) noexcept
{
	if (self) return lock(m, false, true, false) ? 0 : EBUSY;
	REAL(pthread_rwlock_trywrlock);
	return real(m);
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept
{
	if (self) { unlock(m); return 0; }
	REAL(pthread_rwlock_unlock);
	return real(m);
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
	if (self) {
		// waking for no reason is allowed
		unlock(m);
		change(self, 0, "condition wait");
		if (Sync* s = find_sync(c)) self->vc.join(s->vc);
		lock(m, false, false, false);
		return 0;
	}
	REAL(pthread_cond_wait);
	return real(c, m);
}
int pthread_cond_signal(pthread_cond_t* c) noexcept
{
	if (self) { release_lock(self, c); return 0; }
	REAL(pthread_cond_signal);
	return real(c);
}
int pthread_cond_broadcast(pthread_cond_t* c) noexcept
{
	if (self) { release_lock(self, c); return 0; }
	REAL(pthread_cond_broadcast);
	return real(c);
}
int pthread_once(pthread_once_t* o, void (*f)())
{
	if (self) {
		// 2 is what the C library leaves in it when it is done
		if (!al_pause) event(self, 'l');
		Sync& s = sync_for(o);
		while (s.owner >= 0 && s.owner != self->id) block(self, o);
		if (*o != 2) {
			s.owner = self->id;
			struct Undo { void const* o; bool ok; ~Undo() { if (!ok) { sync_for(o).owner = -1; unblock(o); } } } undo = { o, false };
			f();
			undo.ok = true;
			*o = 2;
			s.owner = -1;
			release_lock(self, o);
			unblock(o);
		}
		acquire_lock(self, o);
		return 0;
	}
	REAL(pthread_once);
	return real(o, f);
}
int sched_yield() noexcept { if (self) change(self, 0, "gives way"); return 0; }
int usleep(useconds_t) { if (self) change(self, 0, "sleep"); return 0; }
int nanosleep(struct timespec const*, struct timespec*) { if (self) change(self, 0, "sleep"); return 0; }
int clock_nanosleep(clockid_t, int, struct timespec const*, struct timespec*) { if (self) change(self, 0, "sleep"); return 0; }

}

namespace __cxxabiv1 {
extern "C" {
int __cxa_guard_acquire(__guard* g) noexcept(false)
{
	if (self) {
		if (!al_pause) event(self, 'l');
		Sync& s = sync_for(g);
		for (;;) {
			if (*reinterpret_cast<char*>(g)) { acquire_lock(self, g); return 0; }
			if (s.owner < 0) break;
			if (s.owner == self->id) end_failed("deadlock", "a static variable's initialisation needs itself");
			block(self, g);
		}
		s.owner = self->id;
		acquire_lock(self, g);
		++al_pause; probe("static initialisation among threads"); --al_pause;
		return 1;
	}
	REAL(__cxa_guard_acquire);
	return real(g);
}
void __cxa_guard_release(__guard* g) noexcept
{
	if (self) {
		*reinterpret_cast<char*>(g) = 1;
		sync_for(g).owner = -1;
		release_lock(self, g);
		unblock(g);
		if (!al_pause) event(self, 'l');
		return;
	}
	REAL(__cxa_guard_release);
	real(g);
}
void __cxa_guard_abort(__guard* g) noexcept
{
	if (self) {
		sync_for(g).owner = -1;
		release_lock(self, g);
		unblock(g);
		return;
	}
	REAL(__cxa_guard_abort);
	real(g);
}
}
}

//---- memory
extern "C" {

void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void __libc_free(void*);

void* malloc(size_t n) { void* p = __libc_malloc(n); if (self && p) forget(p, malloc_usable_size(p)); return p; }
void* calloc(size_t a, size_t b) { void* p = __libc_calloc(a, b); if (self && p) forget(p, malloc_usable_size(p)); return p; }
void* realloc(void* o, size_t n) { if (self && o) forget(o, malloc_usable_size(o)); void* p = __libc_realloc(o, n); if (self && p) forget(p, malloc_usable_size(p)); return p; }
void free(void* p) { if (self && p) forget(p, malloc_usable_size(p)); __libc_free(p); }

//---- functions of the C library that access memory, called from the library or from headers
void* __real_memcpy(void*, void const*, size_t);
void* __wrap_memcpy(void* d, void const* s, size_t n) { access(s, n, false, false, PC); access(d, n, true, false, PC); return __real_memcpy(d, s, n); }
void* __real_memmove(void*, void const*, size_t);
void* __wrap_memmove(void* d, void const* s, size_t n) { access(s, n, false, false, PC); access(d, n, true, false, PC); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { access(d, n, true, false, PC); return __real_memset(d, c, n); }
int __real_memcmp(void const*, void const*, size_t);
int __wrap_memcmp(void const* a, void const* b, size_t n) { access(a, n, false, false, PC); access(b, n, false, false, PC); return __real_memcmp(a, b, n); }
void* __real_memchr(void const*, int, size_t);
void* __wrap_memchr(void const* a, int c, size_t n) { void* r = __real_memchr(a, c, n); access(a, r ? size_t(static_cast<char*>(r) - static_cast<char const*>(a)) + 1 : n, false, false, PC); return r; }
size_t __real_strlen(char const*);
size_t __wrap_strlen(char const* s) { size_t const n = __real_strlen(s); access(s, n + 1, false, false, PC); return n; }
char* __real_strcpy(char*, char const*);
char* __wrap_strcpy(char* d, char const* s) { size_t const n = __real_strlen(s) + 1; access(s, n, false, false, PC); access(d, n, true, false, PC); return __real_strcpy(d, s); }
char* __real_strncpy(char*, char const*, size_t);
char* __wrap_strncpy(char* d, char const* s, size_t n) { access(s, strnlen(s, n), false, false, PC); access(d, n, true, false, PC); return __real_strncpy(d, s, n); }
char* __real_strcat(char*, char const*);
char* __wrap_strcat(char* d, char const* s) { size_t const n = __real_strlen(s) + 1; access(s, n, false, false, PC); access(d + __real_strlen(d), n, true, false, PC); return __real_strcat(d, s); }
int __real_strcmp(char const*, char const*);
int __wrap_strcmp(char const* a, char const* b) { access(a, 1, false, false, PC); access(b, 1, false, false, PC); return __real_strcmp(a, b); }
int __real_strncmp(char const*, char const*, size_t);
int __wrap_strncmp(char const* a, char const* b, size_t n) { if (n) { access(a, 1, false, false, PC); access(b, 1, false, false, PC); } return __real_strncmp(a, b, n); }
int __real_atoi(char const*);
int __wrap_atoi(char const* s) { access(s, 1, false, false, PC); return __real_atoi(s); }
char* __real_fgets(char*, int, FILE*);
char* __wrap_fgets(char* b, int n, FILE* f) { access(b, 1, true, false, PC); char* r = __real_fgets(b, n, f); if (r) access(b, __real_strlen(b) + 1, true, false, PC); return r; }
size_t __real_fread(void*, size_t, size_t, FILE*);
size_t __wrap_fread(void* b, size_t s, size_t n, FILE* f) { access(b, 1, true, false, PC); size_t const r = __real_fread(b, s, n, f); access(b, r * s, true, false, PC); return r; }
int __wrap_vsnprintf(char* b, size_t n, char const* f, va_list a)
{
	int const r = __real_vsnprintf(b, n, f, a);
	if (r >= 0 && n) access(b, std::min(n, size_t(r) + 1), true, false, PC);
	return r;
}
int __wrap_snprintf(char* b, size_t n, char const* f, ...)
{
	va_list a;
	va_start(a, f);
	int const r = __real_vsnprintf(b, n, f, a);
	va_end(a);
	if (r >= 0 && n) access(b, std::min(n, size_t(r) + 1), true, false, PC);
	return r;
}
int __wrap_sprintf(char* b, char const* f, ...)
{
	va_list a;
	va_start(a, f);
	int const r = vsprintf(b, f, a);
	va_end(a);
	if (r >= 0) access(b, size_t(r) + 1, true, false, PC);
	return r;
}

//---- functions with hidden static state: their use counts as a write to it
static long hidden[8];
#define HIDDEN(n) access(&hidden[n], 8, true, false, PC)
char* __real_strtok(char*, char const*);
char* __wrap_strtok(char* s, char const* d) { HIDDEN(0); return __real_strtok(s, d); }
char* __real_setlocale(int, char const*);
char* __wrap_setlocale(int c, char const* n) { if (n) HIDDEN(1); else access(&hidden[1], 8, false, false, PC); return __real_setlocale(c, n); }
struct tm* __real_localtime(time_t const*);
struct tm* __wrap_localtime(time_t const* t) { HIDDEN(2); return __real_localtime(t); }
struct tm* __real_gmtime(time_t const*);
struct tm* __wrap_gmtime(time_t const* t) { HIDDEN(2); return __real_gmtime(t); }
char* __real_asctime(struct tm const*);
char* __wrap_asctime(struct tm const* t) { HIDDEN(2); return __real_asctime(t); }
char* __real_ctime(time_t const*);
char* __wrap_ctime(time_t const* t) { HIDDEN(2); return __real_ctime(t); }
int __real_chdir(char const*);
int __wrap_chdir(char const* p) { HIDDEN(3); return __real_chdir(p); }
mode_t __real_umask(mode_t);
mode_t __wrap_umask(mode_t m) { HIDDEN(4); return __real_umask(m); }
int __real_setenv(char const*, char const*, int);
int __wrap_setenv(char const* a, char const* b, int c) { HIDDEN(5); return __real_setenv(a, b, c); }
int __real_unsetenv(char const*);
int __wrap_unsetenv(char const* a) { HIDDEN(5); return __real_unsetenv(a); }
char* __real_getenv(char const*);
char* __wrap_getenv(char const* a) { access(&hidden[5], 8, false, false, PC); return __real_getenv(a); }

}
