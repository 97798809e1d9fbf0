// The seams: everything nondeterministic that libsub can meet is decided here.
#pragma once
#include "rng.h"
#include "value.h"
#include <cstdio>
#include <functional>
#include <istream>
#include <memory>
#include <string>
#include <vector>

namespace sim {

//---- shared with the parent process ------------------------------------------------------------
struct Counter { char name[48]; uint64_t n; };

struct Shared
{
	Counter ctr[512];
	uint64_t events;      ///< simulated I/O and scheduling events, all runs
	// result of the current run
	int done;             ///< 0 running, 1 pass, 2 fail, 3 invalid scenario
	char cls[96];
	char msg[4096];
	uint64_t hash;
	uint64_t run_events;
	int nontrivial;
	char known[256];      ///< a known finding that this run showed
	char blob[1 << 20];   ///< results passed back by nested processes
	size_t blob_len;
};
extern Shared* shared;

void bump(std::string const& name, uint64_t by = 1);   ///< count something (fault fired, rare condition hit, ...)
uint64_t counter(std::string const& name);
inline void fault_fired(std::string const& name) { bump("fault:" + name); }
inline void probe(std::string const& name) { bump("probe:" + name); }

//---- trace of the run: every event is folded into a hash ---------------------------------------
void trace(char const* what, long a = 0, long b = 0, long c = 0);
extern uint64_t trace_hash;
extern uint64_t trace_events;
extern bool trace_verbose;
/// events beyond this many end the run as a hang
extern uint64_t trace_limit;

//---- cooperative tasks: at most one runs, the schedule says which ------------------------------
class Tasks
{
public:
	/// Run some functions as interleaved tasks; they change over only at yield_point()
	static void run(std::vector<std::function<void ()>> const& fns, Value const& sched);
};
void yield_point();
/// called at every I/O event, e.g. to switch locale or cut in with other work
extern std::function<void ()> at_io;

//---- allocation ------------------------------------------------------------------------------
struct Alloc
{
	static void begin_count();             ///< start counting allocations
	static long count();
	static void fail(long index, bool persistent);   ///< fail the index'th allocation from now (and all later ones)
	static void stop();
	static bool fired();
	static long live();                    ///< live allocations made through operator new
	static long live_bytes();
};
/// harness work inside library calls does not count and never fails
struct AllocPause { AllocPause(); ~AllocPause(); };
/// ... except for the library calls themselves
struct AllocResume { AllocResume(); ~AllocResume(); int was; };

//---- delivery of bytes -------------------------------------------------------------------------
struct Fault { long at; int err; long n; };

class Delivery
{
public:
	Delivery() {}
	explicit Delivery(Value const& v);     ///< {"chunks":[..],"faults":[{"at":..,"err":"EIO","n":..}]}
	/// @return bytes to move now, or -1 with errno
	long step(long pos, long want, long size, char const* what);
	bool fired = false;                    ///< some fault fired
	bool fired_permanent = false;
	long first_at = -1;                    ///< offset of the first fault that fired
	std::vector<int> chunks;
	std::vector<Fault> faults;
	size_t next_chunk = 0;
};

int errno_by_name(std::string const& n);
std::string errno_name(int e);

/// A document behind a FILE*
class FileSource
{
public:
	FileSource(std::string bytes, Value const& src);
	~FileSource();
	FILE* file() { return _f; }
	Delivery delivery;
	std::string bytes;
	long pos = 0;
	bool seekable = false;
private:
	FILE* _f = nullptr;
	std::vector<char> _buf;
};

/// A document behind a std::istream
class StreamSource
{
public:
	StreamSource(std::string bytes, Value const& src);
	~StreamSource();
	std::istream& stream();
	Delivery& delivery();
private:
	struct Impl;
	std::unique_ptr<Impl> _impl;
};

//---- files by name ---------------------------------------------------------------------------
struct NameCfg
{
	std::string path;
	int open_err = 0;
	long open_n = -1;
	Delivery read, write;
	int close_err = 0;
	long kill_at = -1;     ///< kill the process at this system call on the file
	long kill_part = 0;    ///< ... after this many bytes of it
	// observed
	long calls = 0, opened = 0, closed = 0;
	bool open_failed = false, close_failed = false;
	long wrote = 0;
};
std::string scratch();                     ///< this process's scratch directory
void set_scratch(std::string dir);
NameCfg* configure(std::string const& path, Value const& v);
NameCfg* find_config(std::string const& path);
void clear_configs();
long open_sim_files();                     ///< files open through any seam
long open_fds();                           ///< descriptors open in this process
int const KILLED = 77;
int const INTERRUPTED = 78;

/// was a process ended by a signal that nothing in a run sends?
bool stopped_from_outside(int status);


void put_file(std::string const& path, std::string const& bytes);
bool get_file(std::string const& path, std::string& bytes);
void remove_file(std::string const& path);

/// Run a function in a nested process, getting back a string. @return exit status as from waitpid
int nested(std::function<std::string ()> const& f, std::string& result);

}
