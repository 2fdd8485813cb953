// Runtime monitor linked into the interpreter built from /repo (see lib/build.py).
//  * monitorStep/monitorEnd: the FUNGE_MONITOR observation points; they log machine state and never change it.
//  * interposed libc calls: every file-system mutation and process creation the interpreter attempts is logged and
//    confined to the job's scratch directory; external commands are never run (a recording stand-in answers).
//  * main(): a fork server, so that thousands of short executions share one start-up.
#include "FungeRunner.h"
#include "FungeUniverse.h"
#include "Field.h"
#include "StackStack.h"
#include "InstructionPointer.h"
#include "FungeMonitor.h"
#include <atomic>
#include <cerrno>
#include <condition_variable>
#include <chrono>
#include <charconv>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <map>
#include <mutex>
#include <string>
#include <vector>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <grp.h>
#include <poll.h>
#include <spawn.h>
#include <sys/ioctl.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <termios.h>
#include <time.h>
#include <unistd.h>

extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
int funge_real_main(int argc, char** argv, char** envp);

namespace mon {

static bool armed = false;             // inside a job
static int traceFd = -1;
static long stepLimit = 1000;
static long maxCells = 60000;          // largest box dumped
static unsigned perturb = 0;           // schedule perturbation seed
static long maxLog = 30000;             // lines per thread in light traces
static bool lightTrace = false;        // only ids/positions (thread-safe, lock-free)
static char scratch[512] = "";
static char fingDir[512] = "";
static std::atomic<long> steps{0};
static std::mutex mtx;
static std::string* buf = nullptr;
static std::map<Funge::FungeUniverse*, int>* unis = nullptr;
static int uniCount = 0;

static void rawWrite(const char* p, size_t n){
	while(n > 0){
		long r = syscall(SYS_write, traceFd, p, n);
		if(r <= 0) break;
		p += r; n -= r;
	}
}

static void flushLocked(){
	if(buf && !buf->empty()){ rawWrite(buf->data(), buf->size()); buf->clear(); }
}

static void putNum(std::string& s, long long v){
	char t[24];
	char* e = std::to_chars(t, t+sizeof(t)-1, v).ptr;
	*e++ = ' ';
	s.append(t, e-t);
}

static void putVec(std::string& s, const Funge::Vector& v){
	putNum(s, v.size());
	for(size_t i = 0; i < v.size(); ++i) putNum(s, v.get(i));
}

static void hex(std::string& s, const char* p, size_t n){
	static const char* d = "0123456789abcdef";
	s += 'x';
	for(size_t i = 0; i < n; ++i){ s += d[(p[i]>>4)&15]; s += d[p[i]&15]; }
	s += ' ';
}

// F <uni> <ndims> min.. max.. <ncells> (coords.. value)..
static void dumpField(std::string& s, char tag, int idx, Funge::FungeUniverse& u){
	const Funge::Field& f = u.getField();
	size_t d = std::max<size_t>(u.dimensions(), f.size());
	for(size_t i = d; i < 10; ++i) if(f.min(i) != 0 || f.max(i) != 0) d = i+1;
	s += tag; s += ' ';
	if(d > 1000){
		putNum(s, idx); putNum(s, u.dimensions()); putNum(s, 0);
		s += "-1\n";
		return;
	}
	putNum(s, idx); putNum(s, u.dimensions()); putNum(s, d);
	std::vector<long long> lo(d), hi(d);
	__int128 vol = 1;
	bool bad = false;
	for(size_t i = 0; i < d; ++i){
		lo[i] = f.min(i); hi[i] = f.max(i);
		putNum(s, lo[i]); putNum(s, hi[i]);
		if(hi[i] < lo[i] || (__int128)hi[i]-lo[i] > maxCells) bad = true;
		else{
			if(d <= 3){ lo[i] -= 1; hi[i] += 1; }
			vol *= hi[i]-lo[i]+1;
			if(vol > maxCells) { bad = true; vol = maxCells; }
		}
	}
	if(bad){ s += "-1\n"; return; }
	std::string cells;
	long count = 0;
	std::vector<long long> p(lo);
	if(d > 0) for(;;){
		Funge::Vector v;
		for(size_t i = 0; i < d; ++i) v.set(i, p[i]);
		long long c = f.get(v);
		if(c != ' '){
			++count;
			for(size_t i = 0; i < d; ++i) putNum(cells, p[i]);
			putNum(cells, c);
		}
		size_t i = 0;
		for( ; i < d; ++i){
			if(++p[i] <= hi[i]) break;
			p[i] = lo[i];
		}
		if(i == d) break;
	}
	putNum(s, count);
	s += cells;
	s += '\n';
}

static int uniIndex(std::string& s, Funge::FungeUniverse& u){
	auto it = unis->find(&u);
	if(it != unis->end()) return it->second;
	int idx = uniCount++;
	(*unis)[&u] = idx;
	s += "U ";
	putNum(s, idx);
	const std::string& n = u.getName();
	hex(s, n.data(), n.size());
	s += '\n';
	dumpField(s, 'I', idx, u);
	return idx;
}

static void event(const char* kind, const char* a, const char* b = nullptr, bool denied = false){
	if(lightTrace){
		std::string s = "E ";
		s += kind; s += denied ? " 1 " : " 0 ";
		hex(s, a, strlen(a));
		s += '\n';
		rawWrite(s.data(), s.size());
		return;
	}
	std::lock_guard<std::mutex> g(mtx);
	if(!buf) return;
	*buf += "E "; *buf += kind; *buf += denied ? " 1 " : " 0 ";
	hex(*buf, a, strlen(a));
	if(b) hex(*buf, b, strlen(b));
	*buf += '\n';
}

struct Local {
	std::string s;
	unsigned rng = 0;
	long lines = 0;
	bool init = false;
	~Local(){ rawWrite(s.data(), s.size()); }
};
static thread_local Local local;

static unsigned baton = 0;              // universes take turns; seed of the order
static std::mutex turnMtx;
static std::condition_variable turnCv;
static std::vector<int> waiting;
static int tickets = 0, granted = 0;
static bool held = false, ready = false, settled = false;
static unsigned turnRng = 1;
static thread_local bool holding = false;
static thread_local int burst = 0;
static unsigned turnRandom(){
	turnRng = turnRng * 1664525u + 1013904223u;
	return turnRng >> 8;
}

static long long clockNow(clockid_t c){
	struct timespec t;
	clock_gettime(c, &t);
	return t.tv_sec * 1000000LL + t.tv_nsec / 1000;
}

// With the option pty=N standard input is a terminal: its settings must be the original ones in every step and at the end.
static int pty = 0;
static bool prompt = false;
static termios ptyOriginal;
static bool terminalChanged(){
	termios t;
	memset(&t, 0, sizeof(t));
	if(tcgetattr(0, &t) != 0) return true;
	return t.c_iflag != ptyOriginal.c_iflag || t.c_oflag != ptyOriginal.c_oflag || t.c_cflag != ptyOriginal.c_cflag
		|| t.c_lflag != ptyOriginal.c_lflag || memcmp(t.c_cc, ptyOriginal.c_cc, sizeof(t.c_cc)) != 0;
}
static void terminalAtExit(){
	if(terminalChanged()) event("termios-end", "");
}

// With the option heap=N the resources in use are noted whenever IP 0 comes to the origin, N times, and nothing else.
static long heapRounds = 0, heapSeen = 0;
static long countDir(const char* dir){
	int fd = syscall(SYS_openat, AT_FDCWD, dir, O_RDONLY | O_DIRECTORY);
	if(fd < 0) return -1;
	char b[4096];
	long n = 0, k;
	while((k = syscall(SYS_getdents64, fd, b, sizeof(b))) > 0){
		for(long at = 0; at < k; at += *reinterpret_cast<unsigned short*>(b+at+16)) ++n;
	}
	syscall(SYS_close, fd);
	return n;
}
static size_t liveBytes(){
	return __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0;
}
// With the option settle=N (milliseconds, for all rounds together) the threads that are about to end may do so first.
static long settleTotal = 0, settleLeft = 0, settleBase = 0;
static bool settleDown(){
	if(settleTotal == 0) return true;
	if(settleBase == 0) settleBase = countDir("/proc/self/task");
	size_t last = 0;
	int same = 0;
	for(long us = 0; us < settleTotal * 1000 / 40 && settleLeft > 0; ){
		size_t now = liveBytes();
		if(countDir("/proc/self/task") <= settleBase && now == last){
			if(++same >= 3) return true;
		}else same = 0;
		last = now;
		struct timespec ts = {0, 300000};
		syscall(SYS_nanosleep, &ts, nullptr);
		us += 300; settleLeft -= 300;
	}
	return false;
}
static void noteResources(){
	bool settled = settleDown();
	char b[200];
	long pages = -1;
	int fd = syscall(SYS_openat, AT_FDCWD, "/proc/self/statm", O_RDONLY);
	if(fd >= 0){
		long k = syscall(SYS_read, fd, b, sizeof(b)-1);
		if(k > 0){ b[k] = 0; pages = strtol(b, nullptr, 10); }
		syscall(SYS_close, fd);
	}
	int n = snprintf(b, sizeof(b), "H %zu %ld %ld %ld %d\n", liveBytes(), countDir("/proc/self/fd"), countDir("/proc/self/task"), pages, settled);
	rawWrite(b, n);
}

static void finishLimit(){
	if(buf){
		*buf += "L\n";
		for(auto& u : *unis) dumpField(*buf, 'F', u.second, *u.first);
		flushLocked();
	}else{
		rawWrite("L\n", 2);
	}
	std::cout.flush();
	std::cerr.flush();
	fflush(stdout);
	fflush(stderr);
	syscall(SYS_exit_group, 77);
}

} // namespace mon

namespace Funge {

void monitorStep(FungeRunner& r, inst_t i){
	using namespace mon;
	if(!armed) return;
	long n = steps.fetch_add(1, std::memory_order_relaxed);
	if(pty && terminalChanged()) event("termios-step", "");
	if(heapRounds){
		const Vector& at = r.getIP().getPos();
		if(r.getID() == 0 && at.get(0) == 0 && at.get(1) == 0){
			noteResources();
			if(++heapSeen >= heapRounds) finishLimit();
		}
		if(n >= stepLimit) finishLimit();
		return;
	}
	if(lightTrace){
		Local& l = local;
		if(!l.init){ l.init = true; l.rng = perturb * 2654435761u + (unsigned)r.getID() * 40503u + 12345u; }
		if(++l.lines <= maxLog){
		l.s += "S ";
		putNum(l.s, r.getID()); putNum(l.s, i);
		putVec(l.s, r.getIP().getPos());
		const StackStack& st = r.getStack();
		const Stack& top = st.at(0);
		putNum(l.s, st.size()); putNum(l.s, top.size());
		for(size_t j = 1; j <= 3; ++j) putNum(l.s, top.get(j));
		l.s += '\n';
		}
		if(l.s.size() > 30000){ rawWrite(l.s.data(), l.s.size()); l.s.clear(); }
		if(perturb){
			l.rng = l.rng * 1664525u + 1013904223u;
			unsigned k = (l.rng >> 16) & 31;
			if(k == 0) { struct timespec ts = {0, 200000}; syscall(SYS_nanosleep, &ts, nullptr); }
			else if(k < 6) syscall(SYS_sched_yield);
		}
		if(n >= stepLimit) finishLimit();
		return;
	}
	std::unique_lock<std::mutex> g(mtx);
	std::string& s = *buf;
	FungeUniverse& u = r.getUniverse();
	int idx = uniIndex(s, u);
	s += "S ";
	putNum(s, idx); putNum(s, r.getID()); putNum(s, i);
	InstructionPointer& ip = r.getIP();
	putVec(s, ip.getPos());
	putVec(s, ip.getDelta());
	putVec(s, ip.getStorage());
	const StackStack& st = r.getStack();
	size_t ns = st.size();
	putNum(s, u.getMode());
	putNum(s, ns);
	long sel = -1;
	for(size_t k = 0; k < ns; ++k) if(&st.at(k) == &st.top()) sel = k;
	putNum(s, sel);
	putNum(s, clockNow(CLOCK_REALTIME)); putNum(s, clockNow(CLOCK_MONOTONIC));
	for(size_t k = 0; k < ns && k < 10; ++k){
		const Stack& t = st.at(k);
		size_t sz = t.size();
		putNum(s, sz);
		for(size_t j = 1; j <= sz && j <= 48; ++j) putNum(s, t.get(j));
	}
	s += '\n';
	if(s.size() > 200000) flushLocked();
	if(n >= stepLimit) finishLimit();
	if(perturb){
		g.unlock();
		Local& l = local;
		if(!l.init){ l.init = true; l.rng = perturb * 2654435761u + (unsigned)r.getID() * 40503u + 12345u; }
		l.rng = l.rng * 1664525u + 1013904223u;
		unsigned k = (l.rng >> 16) & 31;
		if(k == 0) { struct timespec ts = {0, 100000}; syscall(SYS_nanosleep, &ts, nullptr); }
		else if(k < 8) syscall(SYS_sched_yield);
	}
}

// Turns: with the option baton=N only one universe acts at a time; who is next and for how long is drawn at random.
void monitorTurn(){
	using namespace mon;
	if(!armed || !baton || holding) return;
	std::unique_lock<std::mutex> g(turnMtx);
	int my = ++tickets;
	waiting.push_back(my);
	auto start = std::chrono::steady_clock::now();
	while(granted != my){
		if(!held && granted == 0 && ready){
			if(waiting.size() == 1 && !settled){
				// Let the others come first once in a while
				settled = true;
				turnCv.wait_for(g, std::chrono::microseconds(200));
				continue;
			}
			granted = waiting[turnRandom() % waiting.size()];
			turnCv.notify_all();
			continue;
		}
		turnCv.wait_for(g, std::chrono::milliseconds(20));
		if(granted != my && std::chrono::steady_clock::now() - start > std::chrono::milliseconds(400)){
			// The holder waits for something else: the order is no longer decided
			std::string s = "X\n";
			rawWrite(s.data(), s.size());
			break;
		}
	}
	for(size_t k = 0; k < waiting.size(); ++k) if(waiting[k] == my) { waiting.erase(waiting.begin()+k); break; }
	if(granted == my) granted = 0;
	held = true;
	holding = true;
	settled = false;
	unsigned k = turnRandom() % 8;
	burst = k < 4 ? 0 : k < 7 ? turnRandom() % 6 : turnRandom() % 60;
}

void monitorRest(bool more){
	using namespace mon;
	if(!holding) return;
	if(more && burst-- > 0) return;
	std::lock_guard<std::mutex> g(turnMtx);
	holding = false;
	held = false;
	if(waiting.size() > 0 && granted == 0 && turnRandom() % 4 != 0){
		granted = waiting[turnRandom() % waiting.size()];
	}
	turnCv.notify_all();
}

void monitorReady(){
	using namespace mon;
	std::lock_guard<std::mutex> g(turnMtx);
	ready = true;
	turnCv.notify_all();
}

void monitorEnd(FungeUniverse& u){
	using namespace mon;
	if(!armed || lightTrace) {
		if(armed && !heapRounds && traceFd >= 0){
			std::string s;
			dumpField(s, 'F', uniCount++, u);
			rawWrite(s.data(), s.size());
		}
		return;
	}
	std::lock_guard<std::mutex> g(mtx);
	if(!buf) return;
	auto it = unis->find(&u);
	int idx = it == unis->end() ? uniIndex(*buf, u) : it->second;
	it = unis->find(&u);
	dumpField(*buf, 'F', idx, u);
	if(it != unis->end()) unis->erase(it);
	flushLocked();
}

} // namespace Funge

// ---------------------------------------------------------------------------------------------------------------
// Interposed calls

namespace {
template<typename F> F real(const char* name){
	return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}

bool startsWith(const char* s, const char* p){ return strncmp(s, p, strlen(p)) == 0; }

// Where would this path end up?  Resolve the directory part.
bool inside(const char* path, bool forWrite){
	char full[4096];
	if(path[0] == '/') snprintf(full, sizeof(full), "%s", path);
	else{
		char cwd[1024];
		if(!getcwd(cwd, sizeof(cwd))) return false;
		snprintf(full, sizeof(full), "%s/%s", cwd, path);
	}
	char res[PATH_MAX];
	if(realpath(full, res) == nullptr){
		char* slash = strrchr(full, '/');
		if(slash == nullptr) return false;
		if(slash != full) *slash = 0;
		if(realpath(full, res) == nullptr) return true; // the parent does not exist: the call fails by itself
	}
	size_t n = strlen(mon::scratch);
	if(strncmp(res, mon::scratch, n) == 0 && (res[n] == '/' || res[n] == 0)) return true;
	if(!forWrite){
		n = strlen(mon::fingDir);
		if(n && strncmp(res, mon::fingDir, n) == 0 && (res[n] == '/' || res[n] == 0)) return true;
		if(startsWith(res, "/usr/share/zoneinfo") || startsWith(res, "/etc/localtime")) return true;
	}
	return false;
}

// 0: not a job; 1: allowed; -1: denied
int gate(const char* kind, const char* path, bool write){
	if(!mon::armed) return 0;
	bool ok = inside(path, write);
	if(write || !ok || startsWith(kind, "open")) mon::event(kind, path, nullptr, !ok);
	if(!ok){ errno = EACCES; return -1; }
	return 1;
}
}

extern "C" {

int system(const char* cmd){
	if(!mon::armed) { errno = EPERM; return -1; }
	if(cmd == nullptr) return 1;
	unsigned s = 0;
	for(const char* c = cmd; *c; ++c) s += (unsigned char)*c;
	// How much of the program's output is there by now?
	struct stat st;
	std::string size = std::to_string(fstat(1, &st) == 0 && S_ISREG(st.st_mode) ? (long)st.st_size : -1L);
	mon::event("system", cmd, size.c_str());
	if(mon::pty && !mon::prompt && strstr(cmd, "stty") && tcgetattr(0, &mon::ptyOriginal) == 0){
		// A command may change the terminal's settings
		mon::ptyOriginal.c_lflag ^= ECHO;
		tcsetattr(0, TCSANOW, &mon::ptyOriginal);
		tcgetattr(0, &mon::ptyOriginal);
	}
	return (int)((s % 200) << 8);
}
FILE* popen(const char* cmd, const char* mode){ (void)mode; mon::event("popen", cmd); errno = EPERM; return nullptr; }
int execve(const char* p, char* const a[], char* const e[]){ (void)a; (void)e; mon::event("exec", p); errno = EPERM; return -1; }
int execv(const char* p, char* const a[]){ (void)a; mon::event("exec", p); errno = EPERM; return -1; }
int execvp(const char* p, char* const a[]){ (void)a; mon::event("exec", p); errno = EPERM; return -1; }
int posix_spawn(pid_t*, const char* p, const posix_spawn_file_actions_t*, const posix_spawnattr_t*, char* const*, char* const*){ mon::event("exec", p); return EPERM; }
int posix_spawnp(pid_t*, const char* p, const posix_spawn_file_actions_t*, const posix_spawnattr_t*, char* const*, char* const*){ mon::event("exec", p); return EPERM; }

FILE* fopen(const char* path, const char* mode){
	bool w = strpbrk(mode, "wa+") != nullptr;
	if(gate(w ? "openw" : "openr", path, w) < 0) return nullptr;
	return real<FILE*(*)(const char*, const char*)>("fopen")(path, mode);
}
FILE* fopen64(const char* path, const char* mode){
	bool w = strpbrk(mode, "wa+") != nullptr;
	if(gate(w ? "openw" : "openr", path, w) < 0) return nullptr;
	return real<FILE*(*)(const char*, const char*)>("fopen64")(path, mode);
}
int open(const char* path, int flags, ...){
	va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, mode_t); va_end(ap);
	bool w = (flags & (O_WRONLY|O_RDWR|O_CREAT|O_TRUNC)) != 0;
	if(gate(w ? "openw" : "openr", path, w) < 0) return -1;
	return (int)syscall(SYS_openat, AT_FDCWD, path, flags, m);
}
int open64(const char* path, int flags, ...){
	va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, mode_t); va_end(ap);
	bool w = (flags & (O_WRONLY|O_RDWR|O_CREAT|O_TRUNC)) != 0;
	if(gate(w ? "openw" : "openr", path, w) < 0) return -1;
	return (int)syscall(SYS_openat, AT_FDCWD, path, flags, m);
}
int creat(const char* path, mode_t m){
	if(gate("openw", path, true) < 0) return -1;
	return (int)syscall(SYS_openat, AT_FDCWD, path, O_CREAT|O_WRONLY|O_TRUNC, m);
}
int mkdir(const char* path, mode_t m){
	if(gate("mkdir", path, true) < 0) return -1;
	return (int)syscall(SYS_mkdir, path, m);
}
int rmdir(const char* path){
	if(gate("rmdir", path, true) < 0) return -1;
	return (int)syscall(SYS_rmdir, path);
}
int unlink(const char* path){
	if(gate("unlink", path, true) < 0) return -1;
	return (int)syscall(SYS_unlink, path);
}
int remove(const char* path){
	if(gate("remove", path, true) < 0) return -1;
	long r = syscall(SYS_unlink, path);
	if(r != 0 && (errno == EISDIR || errno == EPERM)) r = syscall(SYS_rmdir, path);
	return (int)r;
}
int unlinkat(int dfd, const char* path, int flags){
	if(mon::armed){ mon::event("unlinkat", path, nullptr, true); errno = EACCES; return -1; }
	return (int)syscall(SYS_unlinkat, dfd, path, flags);
}
int rename(const char* a, const char* b){
	if(gate("rename", a, true) < 0 || gate("rename", b, true) < 0) return -1;
	return (int)syscall(SYS_rename, a, b);
}
int truncate(const char* path, off_t n){
	if(gate("truncate", path, true) < 0) return -1;
	return (int)syscall(SYS_truncate, path, n);
}
int symlink(const char* a, const char* b){
	if(mon::armed){ mon::event("symlink", b, a, true); errno = EACCES; return -1; }
	return (int)syscall(SYS_symlink, a, b);
}
int link(const char* a, const char* b){
	if(mon::armed){ mon::event("link", b, a, true); errno = EACCES; return -1; }
	return (int)syscall(SYS_link, a, b);
}
int chdir(const char* path){
	if(mon::armed){
		if(gate("chdir", path, true) < 0) return -1;
	}
	return (int)syscall(SYS_chdir, path);
}
pid_t vfork(void){
	if(mon::armed){ mon::event("fork", ""); errno = EPERM; return -1; }
	errno = EPERM; return -1;
}
pid_t fork(void){
	if(mon::armed){ mon::event("fork", ""); errno = EPERM; return -1; }
	return real<pid_t(*)(void)>("fork")();
}

} // extern "C"

// ---------------------------------------------------------------------------------------------------------------
// Fork server.  A job is a directory with files: job (NUL separated: key=value.., "--", argv.., "--env", env..),
// stdin, and cwd/; it receives out, err, trace.

static std::string slurp(const std::string& p){
	std::string s;
	int fd = (int)syscall(SYS_openat, AT_FDCWD, p.c_str(), O_RDONLY, 0);
	if(fd < 0) return s;
	char b[65536];
	long n;
	while((n = syscall(SYS_read, fd, b, sizeof(b))) > 0) s.append(b, n);
	close(fd);
	return s;
}

static void redirect(const std::string& p, int flags, int fd){
	int f = (int)syscall(SYS_openat, AT_FDCWD, p.c_str(), flags, 0666);
	if(f < 0) _exit(99);
	dup2(f, fd);
	close(f);
}

// Called when a sanitizer ends the process, and on SIGUSR1 just before a hanging process is killed.
static void lastWords(){
	if(mon::buf && mon::mtx.try_lock()){ mon::flushLocked(); mon::mtx.unlock(); }
}
static void onSignal(int){
	lastWords();
	syscall(SYS_exit_group, 76);
}
#ifndef VARIANT_PLAIN
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#endif

// Standard input becomes a terminal on which someone types the text: all at once (1) or key by key (2).
// prompt: standard output is the terminal too, and a key is typed whenever a ? appears on it.
static bool openTerminal(const std::string& text, int how, const std::string& screen){
	int master = (int)syscall(SYS_openat, AT_FDCWD, "/dev/ptmx", O_RDWR|O_NOCTTY, 0);
	int unlock = 0;
	if(master < 0 || ioctl(master, TIOCSPTLCK, &unlock) != 0) return false;
	int slave = ioctl(master, TIOCGPTPEER, O_RDWR|O_NOCTTY);
	if(slave < 0) return false;
	dup2(slave, 0);
	close(slave);
	memset(&mon::ptyOriginal, 0, sizeof(mon::ptyOriginal));
	if(tcgetattr(0, &mon::ptyOriginal) != 0) return false;
	if(mon::prompt){
		mon::ptyOriginal.c_oflag &= ~OPOST;
		mon::ptyOriginal.c_lflag &= ~ECHO;
		if(tcsetattr(0, TCSANOW, &mon::ptyOriginal) != 0 || tcgetattr(0, &mon::ptyOriginal) != 0) return false;
		if(syscall(SYS_fork) == 0){
			close(0); close(1); close(2);
			int out = (int)syscall(SYS_openat, AT_FDCWD, screen.c_str(), O_WRONLY|O_CREAT|O_TRUNC, 0666);
			size_t key = 0;
			for(;;){
				char b[4096];
				long n = syscall(SYS_read, master, b, sizeof(b));
				if(n <= 0) syscall(SYS_exit_group, 0);      // nobody has the terminal any more
				if(syscall(SYS_write, out, b, n) != n) syscall(SYS_exit_group, 1);
				for(long i = 0; i < n; ++i) if(b[i] == '?' && key < text.size()) syscall(SYS_write, master, &text[key++], 1);
			}
		}
		close(master);
		dup2(0, 1);
		return true;
	}
	if(how % 4 == 3) mon::ptyOriginal.c_lflag &= ~ECHO;
	if(how % 7 == 3) mon::ptyOriginal.c_lflag &= ~ECHOE;
	if(how % 5 == 3) mon::ptyOriginal.c_iflag &= ~IXON;
	if(how % 6 == 3) mon::ptyOriginal.c_lflag &= ~ICANON;
	if(tcsetattr(0, TCSANOW, &mon::ptyOriginal) != 0 || tcgetattr(0, &mon::ptyOriginal) != 0) return false;
	if(how == 1){
		if(write(master, text.data(), text.size()) != (long)text.size()) return false;
		fcntl(master, F_SETFD, FD_CLOEXEC);
		return true;
	}
	pid_t parent = getpid();
	if(syscall(SYS_fork) == 0){
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		close(0); close(1); close(2);
		unsigned r = how;
		for(size_t i = 0; i < text.size() && getppid() == parent; ){
			r = r * 1664525u + 1013904223u;
			size_t n = std::min<size_t>(text.size()-i, 1 + (r >> 28) / 5);
			long w = syscall(SYS_write, master, text.data()+i, n);
			if(w <= 0) break;
			i += w;
			struct timespec ts = {0, (long)(r >> 16 & 15) * 20000};
			syscall(SYS_nanosleep, &ts, nullptr);
			char echo[256];
			int waiting = 0;
			while(ioctl(master, FIONREAD, &waiting) == 0 && waiting > 0) if(syscall(SYS_read, master, echo, sizeof(echo)) <= 0) break;
		}
		for(;;){
			if(getppid() != parent) syscall(SYS_exit_group, 0);
			struct timespec ts = {0, 50000000};
			syscall(SYS_nanosleep, &ts, nullptr);
		}
	}
	close(master);
	return true;
}

static void runJob(const std::string& dir){
	std::string job = slurp(dir + "/job");
	static std::vector<std::string> parts;
	for(size_t i = 0; i < job.size(); ){
		size_t e = job.find('\0', i);
		if(e == std::string::npos) e = job.size();
		parts.push_back(job.substr(i, e-i));
		i = e+1;
	}
	static std::vector<char*> argv, envp;
	argv.push_back((char*)"funge");
	size_t i = 0;
	bool staysOpen = false;
	for( ; i < parts.size() && parts[i] != "--"; ++i){
		const std::string& k = parts[i];
		if(startsWith(k.c_str(), "steps=")) mon::stepLimit = atol(k.c_str()+6);
		else if(startsWith(k.c_str(), "cells=")) mon::maxCells = atol(k.c_str()+6);
		else if(startsWith(k.c_str(), "heap=")){ mon::heapRounds = atol(k.c_str()+5); mon::lightTrace = true; }
		else if(startsWith(k.c_str(), "settle=")) mon::settleLeft = 1000 * (mon::settleTotal = atol(k.c_str()+7));
		else if(startsWith(k.c_str(), "maxlog=")) mon::maxLog = atol(k.c_str()+7);
		else if(startsWith(k.c_str(), "perturb=")) mon::perturb = (unsigned)atol(k.c_str()+8);
		else if(startsWith(k.c_str(), "baton=")) { mon::baton = (unsigned)atol(k.c_str()+6); mon::turnRng = mon::baton; }
		else if(startsWith(k.c_str(), "prompt=")) mon::prompt = atoi(k.c_str()+7) != 0;
		else if(startsWith(k.c_str(), "open=")) staysOpen = atoi(k.c_str()+5) != 0;
		else if(startsWith(k.c_str(), "pty=")) mon::pty = atoi(k.c_str()+4);
		else if(startsWith(k.c_str(), "light=")) mon::lightTrace = atoi(k.c_str()+6) != 0;
	}
	for(++i; i < parts.size() && parts[i] != "--env"; ++i) argv.push_back(&parts[i][0]);
	for(++i; i < parts.size(); ++i) envp.push_back(&parts[i][0]);
	int argc = (int)argv.size();
	argv.push_back(nullptr); envp.push_back(nullptr);

	if(staysOpen){
		// Nothing comes after the text, but the writer stays
		std::string text = slurp(dir + "/stdin");
		int p[2];
		if(pipe2(p, O_CLOEXEC) != 0 || text.size() > 60000 || syscall(SYS_write, p[1], text.data(), text.size()) != (long)text.size()) _exit(99);
		dup2(p[0], 0);
		close(p[0]);
	}
	else if(!mon::pty) redirect(dir + "/stdin", O_RDONLY, 0);
	else if(!openTerminal(slurp(dir + "/stdin"), mon::pty, dir + "/out")) _exit(95);
	if(!mon::prompt) redirect(dir + "/out", O_WRONLY|O_CREAT|O_TRUNC, 1);
	redirect(dir + "/err", O_WRONLY|O_CREAT|O_TRUNC, 2);
	mon::traceFd = (int)syscall(SYS_openat, AT_FDCWD, (dir + "/trace").c_str(), O_WRONLY|O_CREAT|O_TRUNC|O_APPEND, 0666);
	std::string cwd = dir + "/cwd";
	if(syscall(SYS_chdir, cwd.c_str()) != 0) _exit(98);
	char res[PATH_MAX];
	if(realpath(cwd.c_str(), res)) snprintf(mon::scratch, sizeof(mon::scratch), "%s", res);
	if(realpath("/proc/self/exe", res)){
		std::string f(res);
		f = f.substr(0, f.rfind('/'));
		f = f.substr(0, f.rfind('/')) + "/fing";
		snprintf(mon::fingDir, sizeof(mon::fingDir), "%s", f.c_str());
	}
	struct rlimit rl = {64u<<20, 64u<<20};
	setrlimit(RLIMIT_FSIZE, &rl);
	rl.rlim_cur = rl.rlim_max = 0;
	setrlimit(RLIMIT_CORE, &rl);
#ifdef VARIANT_PLAIN
	rl.rlim_cur = rl.rlim_max = 4ul<<30;
	setrlimit(RLIMIT_AS, &rl);
#endif
	signal(SIGPIPE, SIG_DFL);
	if(geteuid() == 0){
		setgroups(0, nullptr);
		if(setgid(65534) == 0 && setuid(65534) == 0) prctl(PR_SET_DUMPABLE, 1);
	}
	umask(0);
	if(!mon::lightTrace){
		mon::buf = new std::string();
		mon::unis = new std::map<Funge::FungeUniverse*, int>();
	}
	signal(SIGUSR1, onSignal);
#ifndef VARIANT_PLAIN
	__sanitizer_set_death_callback(lastWords);
#endif
	mon::armed = true;
	if(mon::pty) atexit(mon::terminalAtExit);
	int rc = funge_real_main(argc, argv.data(), envp.data());
	exit(rc);
}

static long long nowMs(){
	struct timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return t.tv_sec*1000LL + t.tv_nsec/1000000;
}

// Resident memory of a job, in MB: one that grows without bound is ended before it harms the machine.
static long rssMb(pid_t pid){
	char p[64];
	snprintf(p, sizeof(p), "/proc/%d/statm", (int)pid);
	std::string s = slurp(p);
	size_t sp = s.find(' ');
	return sp == std::string::npos ? 0 : atol(s.c_str()+sp+1)*4/1024;
}

static int serve(){
	int in = dup(0), out = dup(1);
	prctl(PR_SET_CHILD_SUBREAPER, 1);
	std::string acc;
	for(;;){
		size_t nl;
		while((nl = acc.find('\n')) == std::string::npos){
			char b[4096];
			long n = read(in, b, sizeof(b));
			if(n <= 0) return 0;
			acc.append(b, n);
		}
		std::string line = acc.substr(0, nl);
		acc.erase(0, nl+1);
		size_t sp = line.find(' ');
		long timeout = atol(line.c_str());
		std::string dir = line.substr(sp+1);
		pid_t pid = fork();
		if(pid == 0){
			setpgid(0, 0);
			close(in); close(out);
			runJob(dir);
			_exit(97);
		}
		int status = 0;
		bool timed = false, big = false;
		long long end = nowMs() + timeout;
		int pfd = (int)syscall(SYS_pidfd_open, pid, 0);
		if(pfd >= 0){
			for(;;){
				long long left = end - nowMs();
				struct pollfd p = {pfd, POLLIN, 0};
				int r = poll(&p, 1, left > 100 ? 100 : left > 0 ? (int)left : 0);
				if(r > 0) break;
				if(nowMs() >= end){ timed = true; break; }
				if(rssMb(pid) > 2500){ big = true; kill(-pid, SIGKILL); kill(pid, SIGKILL); break; }
			}
			close(pfd);
		}else{
			while(waitpid(pid, &status, WNOHANG) == 0){
				if(nowMs() >= end){ timed = true; break; }
				usleep(300);
			}
		}
		if(timed){
			kill(pid, SIGUSR1);
			for(int k = 0; k < 400; ++k){
				siginfo_t si; si.si_pid = 0;
				if(waitid(P_PID, pid, &si, WEXITED|WNOHANG|WNOWAIT) == 0 && si.si_pid == pid) break;
				usleep(1000);
			}
			kill(-pid, SIGKILL), kill(pid, SIGKILL);
		}
		struct rusage ru;
		wait4(pid, &status, 0, &ru);
		// Helpers of the job end when it has ended
		for(int k = 0; k < 2000; ++k){
			pid_t h = waitpid(-1, nullptr, WNOHANG);
			if(h < 0) break;
			if(h == 0) usleep(500);
		}
		char b[96];
		int n = snprintf(b, sizeof(b), "%d %d %ld %ld\n", timed ? 1 : big ? 2 : 0, status, ru.ru_maxrss,
			(ru.ru_utime.tv_sec + ru.ru_stime.tv_sec)*1000 + (ru.ru_utime.tv_usec + ru.ru_stime.tv_usec)/1000);
		if(write(out, b, n) != n) return 1;
	}
}

int main(int argc, char** argv){
	if(argc > 2 && strcmp(argv[1], "--job") == 0){ runJob(argv[2]); return 97; }
	return serve();
}
