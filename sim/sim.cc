// Deterministic user-space kernel for hush, loaded with LD_PRELOAD.
//
// The real hush binary runs on top of this: its threads are real pthreads that are released one
// at a time by a seeded scheduler; every libc call it makes that touches the outside world
// (descriptors, pipes, files, directories, processes, threads, futexes, clocks, entropy) is served
// from simulated state held in this library.  Child commands are simulated processes: op lists
// stepped by the scheduler.  Nothing outside the process is ever touched, except that the event
// log is written to a shared mapping which the fork server ships to the orchestrator.
//
// One request = one fork of the pre-initialised hush process = one simulated execution.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <algorithm>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <spawn.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <linux/futex.h>

#define EXPORT extern "C" __attribute__((visibility("default")))
typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
using std::string;
using std::vector;

// ------------------------------------------------------------------ raw system calls
static inline long raw6(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) {
  long ret;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return ret;
}
static void raw_write_all(int fd, const void* p, size_t n) {
  const char* c = (const char*)p;
  while (n) {
    long r = raw6(SYS_write, fd, (long)c, n);
    if (r == -EINTR) continue;
    if (r <= 0) raw6(SYS_exit_group, 96);
    c += r; n -= r;
  }
}
static bool raw_read_all(int fd, void* p, size_t n) {
  char* c = (char*)p;
  while (n) {
    long r = raw6(SYS_read, fd, (long)c, n);
    if (r == -EINTR) continue;
    if (r <= 0) return false;
    c += r; n -= r;
  }
  return true;
}
template <class T> static T real(const char* name) { return (T)dlsym(RTLD_NEXT, name); }
#define REAL(name) ([]() { static auto p = real<decltype(&::name)>(#name); return p; }())

// ------------------------------------------------------------------ log
static const size_t LOGCAP = 96u << 20;
struct LogHdr { volatile u64 len; volatile u64 truncated; };
static char* g_log;
static void log_raw(const char* p, size_t n) {
  LogHdr* h = (LogHdr*)g_log;
  size_t off = sizeof(LogHdr) + h->len;
  if (off + n > LOGCAP) { h->truncated = 1; return; }
  memcpy(g_log + off, p, n);
  h->len += n;
}
static string hexs(const string& s) {
  static const char* d = "0123456789abcdef";
  string r = "x"; r.reserve(s.size() * 2 + 1);
  for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; }
  return r;
}
static u64 g_seq = 0;
static bool g_logging = true;
static void logf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

// ------------------------------------------------------------------ rng / decisions
struct Rng {
  u64 s[2];
  void seed(u64 x) { for (int i = 0; i < 2; i++) { x += 0x9e3779b97f4a7c15ull; u64 z = x; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; s[i] = z ^ (z >> 31); } }
  u64 next() { u64 a = s[0], b = s[1]; s[0] = b; a ^= a << 23; s[1] = a ^ b ^ (a >> 17) ^ (b >> 26); return s[1] + b; }
  u32 below(u32 n) { return n ? (u32)(next() % n) : 0; }
  bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
};
static Rng g_rng, g_entropy;
static bool g_replay = false;
static std::map<u32, u32> g_choices;          // sparse: non-default decisions (replay mode)
static vector<std::pair<u32, u32>> g_nonzero; // recorded non-default decisions
static u32 g_ndec = 0;
static bool g_record = false;
// A decision among n alternatives. `pick` is consulted in search mode; in replay mode the recorded
// value is used and every decision not recorded takes the default 0.
template <class F> static u32 decide(u32 n, F pick) {
  if (n <= 1) return 0;
  u32 ix = g_ndec++, v;
  if (g_replay) {
    auto it = g_choices.find(ix);
    v = it == g_choices.end() ? 0 : it->second % n;
  } else v = pick() % n;
  if (v && g_record) g_nonzero.push_back({ix, v});
  return v;
}

// ------------------------------------------------------------------ knobs
static std::map<string, string> g_knobs;
static double knobf(const char* k, double d) { auto i = g_knobs.find(k); return i == g_knobs.end() ? d : atof(i->second.c_str()); }
static long knobi(const char* k, long d) { auto i = g_knobs.find(k); return i == g_knobs.end() ? d : atol(i->second.c_str()); }
static double k_eintr, k_short, k_chunk, k_stall, k_dtunk, k_spur;
static long k_pipecap, k_nofile, k_nproc, k_strategy, k_maxsteps, k_trace;

// ------------------------------------------------------------------ file system
struct Node {
  int id; char type; // 'd' dir, 'f' file, 'l' link, 'n' null, 'F' full (ENOSPC), 'z' fifo-less error file (EIO on read)
  string data;       // file content or link target
  string prog;       // program name if executable
  string aud;        // every byte ever transferred, in order (file contents change, the history must not)
  string perm;       // letters: r = unreadable, w = unwritable, x = not searchable/executable
  std::map<string, Node*> kids; Node* parent = nullptr; bool linked = true;
};
static int g_nextid = 1;
static vector<Node*> g_nodes;
static Node* g_root;
static Node* mknode(char t) { Node* n = new Node(); n->id = g_nextid++; n->type = t; g_nodes.push_back(n); return n; }
static string node_path(Node* n) {
  if (n == g_root) return "/";
  string s;
  for (Node* x = n; x != g_root; x = x->parent) {
    if (!x->parent || !x->linked) return "";
    string name;
    for (auto& k : x->parent->kids) if (k.second == x) name = k.first;
    s = "/" + name + s;
  }
  return s;
}
// Resolve `path` from `cwd`. follow: follow a final link. On success *out is the node (or null if only
// the last component is missing, with *dir/*base set). Returns 0 or errno.
static int resolve(Node* cwd, const string& path, bool follow, Node** out, Node** dir = nullptr, string* base = nullptr, int depth = 0) {
  if (path.empty()) return ENOENT;
  if (path.size() > 4095) return ENAMETOOLONG;
  if (depth > 40) return ELOOP;
  Node* cur = path[0] == '/' ? g_root : cwd;
  size_t i = 0;
  bool trailing = path.size() > 1 && path.back() == '/';
  vector<string> parts;
  while (i < path.size()) {
    while (i < path.size() && path[i] == '/') i++;
    size_t j = i;
    while (j < path.size() && path[j] != '/') j++;
    if (j > i) parts.push_back(path.substr(i, j - i));
    i = j;
  }
  if (parts.empty()) { *out = cur; if (dir) { *dir = cur; *base = "."; } return 0; }
  for (size_t k = 0; k < parts.size(); k++) {
    bool last = k + 1 == parts.size();
    if (cur->type != 'd') return ENOTDIR;
    if (cur->perm.find('x') != string::npos) return EACCES;
    if (!cur->linked && cur != g_root && parts[k] != ".") return ENOENT;
    Node* nx = nullptr;
    if (parts[k].size() > 255) return ENAMETOOLONG;
    if (parts[k] == ".") nx = cur;
    else if (parts[k] == "..") nx = cur->parent ? cur->parent : cur;
    else { auto it = cur->kids.find(parts[k]); if (it != cur->kids.end()) nx = it->second; }
    if (!nx) {
      if (last && dir) { *out = nullptr; *dir = cur; *base = parts[k]; return 0; }
      return ENOENT;
    }
    if (nx->type == 'l' && (!last || follow || trailing)) {
      string rest = nx->data;
      for (size_t m = k + 1; m < parts.size(); m++) rest += "/" + parts[m];
      if (last && trailing) rest += "/";
      return resolve(cur, rest, follow, out, dir, base, depth + 1);
    }
    if (last) {
      if (trailing && nx->type != 'd' && nx->type != 'l') return ENOTDIR;
      *out = nx; if (dir) { *dir = cur; *base = parts[k]; } return 0;
    }
    cur = nx;
  }
  return ENOENT;
}

// ------------------------------------------------------------------ objects and descriptors
struct Pipe {
  int id; size_t cap; size_t rd = 0; string all; // all bytes ever written; [rd, size) is in flight
  int readers = 0, writers = 0; bool sock = false; vector<size_t> msgs;
  size_t avail() const { return all.size() - rd; }
  size_t space() const { return avail() >= cap ? 0 : cap - avail(); }
};
static vector<Pipe*> g_pipes;
struct OFD { int refs = 0; char kind; /* r,w pipe ends; f node; s socket */ Pipe* p = nullptr; Pipe* p2 = nullptr; Node* n = nullptr; int flags = 0; u64 off = 0; };
struct FdEnt { OFD* o; bool cloexec; };
typedef std::map<int, FdEnt> FdTab;
static void ofd_unref(OFD* o) {
  if (--o->refs == 0) {
    if (o->kind == 'r') o->p->readers--;
    if (o->kind == 'w') o->p->writers--;
    if (o->kind == 's') { o->p->readers--; o->p2->writers--; }
    delete o;
  }
}
static Pipe* mkpipe() { Pipe* p = new Pipe(); p->id = g_nextid++; p->cap = k_pipecap; g_pipes.push_back(p); return p; }
static OFD* mkofd(char kind, Pipe* p, Node* n, int flags) {
  OFD* o = new OFD(); o->kind = kind; o->p = p; o->n = n; o->flags = flags;
  if (kind == 'r') p->readers++;
  if (kind == 'w') p->writers++;
  return o;
}
static void fd_set_ent(FdTab& t, int fd, OFD* o, bool ce) {
  o->refs++;
  auto it = t.find(fd);
  if (it != t.end()) { OFD* old = it->second.o; t.erase(it); ofd_unref(old); }
  t[fd] = FdEnt{o, ce};
}
static bool fd_close(FdTab& t, int fd) {
  auto it = t.find(fd);
  if (it == t.end()) return false;
  OFD* o = it->second.o; t.erase(it); ofd_unref(o); return true;
}
static int fd_lowest(FdTab& t, int from) { int f = from; while (t.count(f)) f++; return f; }
static int ofd_oid(OFD* o) { return o->kind == 'f' ? o->n->id : o->p->id; }
static string fds_str(FdTab& t) {
  string s; char b[64];
  for (auto& e : t) { snprintf(b, sizeof b, "%s%d:%d:%c%s", s.empty() ? "" : ",", e.first, ofd_oid(e.second.o), e.second.o->kind, e.second.cloexec ? "c" : ""); s += b; }
  return s.empty() ? "-" : s;
}

// ------------------------------------------------------------------ tasks
enum TState { T_READY, T_BLOCKED, T_DONE };
struct Proc;
struct Task {
  int id; bool is_thread; TState st = T_READY; std::function<bool()> pred; i64 deadline = -1; u64 prio = 0;
  // thread
  volatile int grant = 0; pthread_t pt{}; void* (*fn)(void*) = nullptr; void* arg = nullptr; bool detached = false; bool futex_woken = false;
  Proc* proc = nullptr;
};
typedef vector<string> Op;
struct Proc {
  int pid, ppid; Task* task; string prog; vector<string> argv, env; Node* cwd; FdTab fds; bool sigpipe_dfl = true;
  const vector<Op>* ops; size_t pc = 0; u64 prog_n = 0; string buf; size_t chunk = 0; int opst = 0;
  bool dead = false, reaped = false, external = false, stillborn = false; int status = 0;
};
static vector<Task*> g_tasks;
static vector<Proc*> g_procs;
static Task* g_cur = nullptr;
static __thread Task* self = nullptr;
static bool g_active = false, g_in_child = false, g_hush_dead = false;
static i64 g_now = 0, g_wall = 0, g_mono = 0;   // since the start; offset of the wall clock; what the monotonic clock showed at the start
static u64 g_steps = 0, g_hash = 1469598103934665603ull;
static std::set<u64> g_states;
static FdTab g_fds; // hush's table
static Node* g_cwd;
static const i64 WALL0 = 1700000000ll * 1000000000ll;
static int g_pid = 100, g_nextpid = 101;
static bool g_sigpipe_ign = false, g_sigchld_ign = false;
static std::map<string, vector<Op>> g_progs;
static std::set<string> g_marks;
static std::map<string, u64> g_soft; // soft fault counters

static void hmix(u64 x) { for (int i = 0; i < 8; i++) { g_hash ^= (x >> (i * 8)) & 255; g_hash *= 1099511628211ull; } }
static void hmixs(const char* s) { while (*s) { g_hash ^= (unsigned char)*s++; g_hash *= 1099511628211ull; } }
static string actor() {
  char b[32];
  if (g_cur && !g_cur->is_thread) snprintf(b, sizeof b, "P%d", g_cur->proc->pid);
  else snprintf(b, sizeof b, "T%d", g_cur ? g_cur->id : 0);
  return b;
}
static void logf(const char* fmt, ...) {
  if (!g_logging || g_in_child) return;
  char b[512]; va_list ap;
  int n = snprintf(b, 96, "%lu %ld %s ", (unsigned long)g_seq++, (long)g_now, actor().c_str());
  log_raw(b, n);
  va_start(ap, fmt);
  int m = vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  if (m >= (int)sizeof b) { // long line: format again into the heap
    string s(m + 1, 0);
    va_start(ap, fmt); vsnprintf(&s[0], m + 1, fmt, ap); va_end(ap);
    log_raw(s.data(), m);
  } else log_raw(b, m);
  log_raw("\n", 1);
}
static void trace(const char* fmt, ...) {
  if (!k_trace || g_in_child) return;
  char b[400]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  logf("SYS %s", b);
}

static void futex_wait_word(volatile int* w) { while (__atomic_load_n(w, __ATOMIC_ACQUIRE) == 0) raw6(SYS_futex, (long)w, FUTEX_WAIT_PRIVATE, 0, 0); }
static void grant(Task* t) { __atomic_store_n(&t->grant, 1, __ATOMIC_RELEASE); raw6(SYS_futex, (long)&t->grant, FUTEX_WAKE_PRIVATE, 1); }
static void await_grant(Task* t) { futex_wait_word(&t->grant); t->grant = 0; }

[[noreturn]] static void finish(const char* how, int code);
static bool proc_runnable(Proc* p);
static void proc_step(Proc* p);

static bool runnable(Task* t) {
  if (t->st == T_DONE) return false;
  if (t->is_thread) {
    if (g_hush_dead) return false;
    if (t->st == T_READY) return true;
    return (t->pred && t->pred()) || (t->deadline >= 0 && g_now >= t->deadline);
  }
  return proc_runnable(t->proc);
}
static u64 g_prio_low = 0;
static u32 strategy_pick(vector<Task*>& r) {
  u32 n = r.size();
  switch (k_strategy) {
    default:
    case 0: return g_rng.below(n);                                        // uniform
    case 1: return g_rng.chance(0.85) ? 0 : g_rng.below(n);               // sticky
    case 2: {                                                             // random priorities with change points
      u32 b = 0;
      for (u32 i = 1; i < n; i++) if (r[i]->prio > r[b]->prio) b = i;
      if (g_rng.chance(0.02)) r[b]->prio = 1000000 - ++g_prio_low;
      return b;
    }
    case 3: case 4: {                                                     // hush first / commands first
      bool want = k_strategy == 3; vector<u32> c;
      for (u32 i = 0; i < n; i++) if (r[i]->is_thread == want) c.push_back(i);
      if (c.empty() || g_rng.chance(0.03)) return g_rng.below(n);
      return c[g_rng.below(c.size())];
    }
    case 5: return n - 1;                                                 // newest first
    case 6: { // youngest-biased: creation order reversed most of the time
      return g_rng.chance(0.7) ? n - 1 : g_rng.below(n);
    }
  }
}
static Task* mktask(bool thr) {
  Task* t = new Task(); t->id = g_tasks.size(); t->is_thread = thr; t->prio = 1000001 + g_rng.below(1000000); g_tasks.push_back(t); return t;
}
static void note_state() {
  u64 h = 14695981039346656037ull; auto mix = [&](u64 x) { h ^= x; h *= 1099511628211ull; h ^= h >> 29; };
  for (auto t : g_tasks) { mix(t->st); if (!t->is_thread) { mix(t->proc->pc); mix(t->proc->dead); mix(t->proc->reaped); } }
  for (auto p : g_pipes) { mix(p->avail() == 0 ? 0 : p->space() == 0 ? 2 : 1); mix(p->readers); mix(p->writers); }
  for (auto& f : g_fds) mix(f.first);
  g_states.insert(h);
}
// Run the scheduler until `self` is chosen (or, if self is done, until the token has been passed on).
// With self == nullptr: run processes to quiescence.
static void schedule() {
  vector<Task*> r;
  for (;;) {
    if (++g_steps > (u64)k_maxsteps) finish("STEPLIMIT", 0);
    g_now += 1000;
    if ((g_steps & 3) == 0) note_state();
    r.clear();
    if (g_cur && runnable(g_cur)) r.push_back(g_cur);
    for (auto t : g_tasks) if (t != g_cur && runnable(t)) r.push_back(t);
    if (r.empty()) {
      i64 best = -1;
      for (auto t : g_tasks) if (t->st != T_DONE && t->deadline >= 0 && !(t->is_thread && g_hush_dead) && (best < 0 || t->deadline < best)) best = t->deadline;
      if (best >= 0) { if (best > g_now) g_now = best; continue; }
      if (g_hush_dead) return;
      finish("DEADLOCK", 0);
    }
    if (k_stall > 0) { // time passes although work is pending: slow machine
      u32 s = decide(4, [&]() -> u32 { return g_rng.chance(k_stall) ? 1 + g_rng.below(3) : 0; });
      if (s) { static const i64 d[] = {0, 50000, 3000000, 400000000}; g_now += d[s]; g_soft["stall"]++; }
    }
    u32 c = decide(r.size(), [&]() { return strategy_pick(r); });
    Task* t = r[c];
    g_cur = t;
    hmix(t->id);
    if (!t->is_thread) { proc_step(t->proc); continue; }
    t->st = T_READY;
    if (t == self) return;
    Task* me = self;
    grant(t);
    if (me && me->st != T_DONE) await_grant(me);
    return;
  }
}
static bool on() { return g_active && (self || g_in_child); }
static void yield_pt(const char* op) {
  if (g_in_child) return;
  hmixs(op); hmix(self->id);
  self->st = T_READY;
  schedule();
}
template <class F> static void block(F pred, i64 deadline = -1) {
  if (g_in_child) return;
  if (pred()) return;
  self->pred = pred; self->deadline = deadline; self->st = T_BLOCKED;
  schedule();
  self->pred = nullptr; self->deadline = -1;
}

// ------------------------------------------------------------------ faults
struct Fault { string cls; long nth; long count; int err; string path; long seen = 0; long fired = 0; };
static vector<Fault> g_faults;
static std::map<string, long> g_calls;
static std::map<std::pair<string, string>, long> g_callp;
static int fault(const char* cls, const string& path = "") {
  if (g_in_child && strcmp(cls, "exec")) return 0;
  g_calls[cls]++; g_callp[{cls, path}]++;
  for (auto& f : g_faults) {
    if (f.cls != cls) continue;
    if (!f.path.empty() && (f.path[0] == '=' ? path != f.path.substr(1) : path.find(f.path) == string::npos)) continue;
    long k = f.seen++;
    if (k >= f.nth && k < f.nth + f.count) {
      f.fired++;
      logf("FAULT %s %ld %d %s", cls, k, f.err, hexs(path).c_str());
      return f.err;
    }
  }
  return 0;
}
static bool soft_eintr(const char* what) {
  if (k_eintr <= 0 || g_in_child) return false;
  if (decide(2, [&]() -> u32 { return g_rng.chance(k_eintr); })) { g_soft[string("eintr_") + what]++; return true; }
  return false;
}
// how many of n bytes to transfer (>=1)
static size_t soft_len(size_t n, double p, const char* what) {
  if (n <= 1 || p <= 0 || g_in_child) return n;
  u32 v = decide(5, [&]() -> u32 { return g_rng.chance(p) ? 1 + g_rng.below(4) : 0; });
  size_t m = n;
  switch (v) {
    case 0: return n;
    case 1: m = 1; break;
    case 2: m = n / 2; break;
    case 3: m = n > 512 ? 512 : (n + 1) / 3; break;
    case 4: m = n - 1; break;
  }
  if (m < 1) m = 1;
  if (m > n) m = n;
  if (m < n) g_soft[what]++;
  return m;
}

// ------------------------------------------------------------------ data transfer (shared by hush and processes)
static const size_t PBUF = 4096;
// bytes that can be written now: 0 = must wait
static size_t w_room(OFD* o, size_t n) {
  if (o->kind == 'f') return n;
  Pipe* p = o->kind == 's' ? o->p2 : o->p;
  if (p->readers == 0) return n; // EPIPE immediately
  if (n <= PBUF) return p->space() >= n ? n : 0;
  return std::min(n, p->space());
}
// perform; returns >=0 bytes or -errno
static long do_write(OFD* o, const char* d, size_t n, const string& who, int fd) {
  if (o->kind == 'r') return -EBADF;
  if (o->kind == 'f') {
    if ((o->flags & O_ACCMODE) == O_RDONLY) return -EBADF;
    if (o->n->type == 'n') return n;
    if (o->n->type == 'F') return -ENOSPC;
    if (o->n->type == 'd') return -EISDIR;
    if (o->flags & O_APPEND) o->off = o->n->data.size();
    if (o->off > o->n->data.size()) o->n->data.resize(o->off, 0);
    u64 off = o->off;
    if (off == o->n->data.size()) o->n->data.append(d, n);
    else { if (o->n->data.size() < off + n) o->n->data.resize(off + n); memcpy(&o->n->data[off], d, n); }
    o->off += n;
    logf("W %s %d %d %lu %lu %lu", who.c_str(), fd, o->n->id, (unsigned long)off, (unsigned long)n, (unsigned long)o->n->aud.size());
    o->n->aud.append(d, n);
    return n;
  }
  Pipe* p = o->kind == 's' ? o->p2 : o->p;
  if (p->readers == 0) return -EPIPE;
  u64 off = p->all.size();
  p->all.append(d, n);
  if (p->sock) p->msgs.push_back(n);
  logf("W %s %d %d %lu %lu", who.c_str(), fd, p->id, (unsigned long)off, (unsigned long)n);
  return n;
}
static bool r_ready(OFD* o) {
  if (o->kind == 'f') return true;
  Pipe* p = o->p;
  return p->avail() > 0 || p->writers == 0;
}
static long do_read(OFD* o, char* d, size_t n, const string& who, int fd) {
  if (o->kind == 'w') return -EBADF;
  if (o->kind == 'f') {
    if ((o->flags & O_ACCMODE) == O_WRONLY) return -EBADF;
    if (o->n->type == 'd') return -EISDIR;
    if (o->n->type == 'n') return 0;
    if (o->n->type == 'F') { memset(d, 0, n); return n; }
    if (o->off >= o->n->data.size()) { logf("E %s %d %d", who.c_str(), fd, o->n->id); return 0; }
    n = std::min<size_t>(n, o->n->data.size() - o->off);
    memcpy(d, o->n->data.data() + o->off, n);
    logf("R %s %d %d %lu %lu %lu", who.c_str(), fd, o->n->id, (unsigned long)o->off, (unsigned long)n, (unsigned long)o->n->aud.size());
    o->n->aud.append(d, n);
    o->off += n;
    return n;
  }
  Pipe* p = o->p;
  n = std::min(n, p->avail());
  if (p->sock && !p->msgs.empty()) { n = std::min(n, p->msgs[0]); p->msgs.erase(p->msgs.begin()); }
  if (n == 0) { logf("E %s %d %d", who.c_str(), fd, p->id); return 0; }
  memcpy(d, p->all.data() + p->rd, n);
  logf("R %s %d %d %lu %lu", who.c_str(), fd, p->id, (unsigned long)p->rd, (unsigned long)n);
  p->rd += n;
  return n;
}

// ------------------------------------------------------------------ simulated processes
static void proc_exit(Proc* p, int status) {
  for (auto& e : p->fds) ofd_unref(e.second.o);
  p->fds.clear();
  p->dead = true; p->status = status; p->task->st = T_DONE;
  logf("EXIT %d %d", p->pid, status);
  if (g_sigchld_ign && p->ppid == g_pid) p->reaped = true;
}
static string proc_name(Proc* p) { char b[24]; snprintf(b, sizeof b, "P%d", p->pid); return b; }
static string joinhex(const vector<string>& v) { string s; for (auto& x : v) { if (!s.empty()) s += ","; s += hexs(x); } return s.empty() ? "-" : s; }
static Proc* mkproc(int pid, int ppid, const string& prog, const vector<string>& argv, const vector<string>& env, Node* cwd, bool sigpipe_dfl, const char* how) {
  Proc* p = new Proc();
  p->pid = pid; p->ppid = ppid; p->prog = prog; p->argv = argv; p->env = env; p->cwd = cwd; p->sigpipe_dfl = sigpipe_dfl;
  static const vector<Op> none;
  auto it = g_progs.find(prog);
  p->ops = it == g_progs.end() ? &none : &it->second;
  p->task = mktask(false); p->task->proc = p;
  g_procs.push_back(p);
  (void)how;
  return p;
}
static void log_spawn(Proc* p, const char* how) {
  logf("SPAWN %s %d %d %s %s %d %s %s %s", how, p->pid, p->ppid, hexs(p->prog).c_str(), hexs(node_path(p->cwd)).c_str(), p->sigpipe_dfl ? 1 : 0, fds_str(p->fds).c_str(), joinhex(p->argv).c_str(), joinhex(p->env).c_str());
}
static inline unsigned char patbyte(u64 tag, u64 i) { u64 x = (i + 1) * 0x9E3779B97F4A7C15ull + tag * 0xD1B54A32D192ED03ull; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; return (x >> 40) & 255; }
static OFD* pfd(Proc* p, const string& s) { auto it = p->fds.find(atoi(s.c_str())); return it == p->fds.end() ? nullptr : it->second.o; }
static bool proc_runnable(Proc* p) {
  if (p->dead) return false;
  if (p->pc >= p->ops->size()) return true;
  const Op& o = (*p->ops)[p->pc];
  const string& k = o[0];
  if (k == "w" || k == "ws") {
    OFD* f = pfd(p, o[1]);
    if (!f) return true;
    if (!p->chunk) return true; // chunk not chosen yet
    return w_room(f, p->chunk) > 0;
  }
  if (k == "cat" || k == "head") {
    if (!p->buf.empty()) { OFD* f = pfd(p, o[2]); if (!f || !p->chunk) return true; return w_room(f, p->chunk) > 0; }
    OFD* f = pfd(p, o[1]);
    if (k == "head" && p->prog_n >= (u64)atoll(o[3].c_str())) return true;
    return !f || r_ready(f);
  }
  if (k == "line") { OFD* f = pfd(p, o[1]); return !f || r_ready(f); }
  if (k == "drain" || k == "readn") {
    if (k == "readn" && p->prog_n >= (u64)atoll(o[2].c_str())) return true;
    OFD* f = pfd(p, o[1]); return !f || r_ready(f);
  }
  if (k == "sleep") return p->opst == 0 || g_now >= p->task->deadline;
  if (k == "wmark") return g_marks.count(o[1]) > 0;
  if (k == "wnord") { OFD* f = pfd(p, o[1]); return !f || !f->p || f->p->readers == 0; } // wait until nobody can read
  if (k == "wgone") { // wait until hush no longer exists
    return g_hush_dead;
  }
  if (k == "block") return false;
  return true;
}
static size_t pick_chunk(size_t n, bool big) {
  if (n <= 1 || k_chunk <= 0) return std::min<size_t>(n, 65536);
  u32 v = decide(6, [&]() -> u32 { return g_rng.chance(k_chunk) ? 1 + g_rng.below(5) : 0; });
  size_t m = n;
  switch (v) {
    case 1: m = big ? 300 : 1; break;
    case 2: m = big ? 4096 : 3; break;
    case 3: m = n / 2; break;
    case 4: m = big ? 4097 : n - 1; break;
    case 5: m = big ? 1 + n / 3 : 7; break;
  }
  return std::max<size_t>(1, std::min<size_t>(std::min(m, n), 65536));
}
static void proc_next(Proc* p) { p->pc++; p->prog_n = 0; p->opst = 0; p->chunk = 0; p->buf.clear(); p->task->deadline = -1; }
static void proc_werr(Proc* p, int e) {
  logf("WERR %d %d", p->pid, e);
  if (e == EPIPE && p->sigpipe_dfl) { proc_exit(p, SIGPIPE); return; }
  proc_exit(p, 1 << 8);
}
static void proc_bg(Proc* p, const string& prog) {
  Proc* c = mkproc(g_nextpid++, p->pid, prog, {prog}, p->env, p->cwd, p->sigpipe_dfl, "bg");
  for (auto& e : p->fds) fd_set_ent(c->fds, e.first, e.second.o, false);
  log_spawn(c, "bg");
}
static void proc_step(Proc* p) {
  if (p->pc >= p->ops->size()) { proc_exit(p, 0); return; }
  const Op& o = (*p->ops)[p->pc];
  const string& k = o[0];
  hmixs(k.c_str()); hmix(p->pc);
  string me = proc_name(p);
  if (k == "w" || k == "ws") {
    OFD* f = pfd(p, o[1]);
    u64 total = k == "w" ? (u64)atoll(o[2].c_str()) : o[2].size();
    if (p->prog_n >= total) { proc_next(p); return; }
    if (!f) { proc_werr(p, EBADF); return; }
    if (!p->chunk) { p->chunk = pick_chunk(total - p->prog_n, total > 3000); if (!w_room(f, p->chunk)) return; }
    size_t n = w_room(f, p->chunk);
    if (!n) return;
    string d(n, 0);
    if (k == "w") { u64 tag = strtoull(o[3].c_str(), nullptr, 10); for (size_t i = 0; i < n; i++) d[i] = patbyte(tag, p->prog_n + i); }
    else d = o[2].substr(p->prog_n, n);
    long r = do_write(f, d.data(), n, me, atoi(o[1].c_str()));
    if (r < 0) { proc_werr(p, -r); return; }
    p->prog_n += r;
    if ((size_t)r >= p->chunk) p->chunk = 0; else p->chunk -= r;
    if (p->prog_n >= total) proc_next(p);
    return;
  }
  if (k == "cat" || k == "head") {
    int key = k == "cat" ? atoi(o[3].c_str()) : 0;
    u64 lim = k == "head" ? (u64)atoll(o[3].c_str()) : ~0ull;
    if (!p->buf.empty()) {
      OFD* f = pfd(p, o[2]);
      if (!f) { proc_werr(p, EBADF); return; }
      if (!p->chunk) { p->chunk = pick_chunk(p->buf.size(), p->buf.size() > 3000); }
      size_t n = w_room(f, p->chunk);
      if (!n) return;
      long r = do_write(f, p->buf.data(), n, me, atoi(o[2].c_str()));
      if (r < 0) { proc_werr(p, -r); return; }
      p->buf.erase(0, r);
      if ((size_t)r >= p->chunk) p->chunk = 0; else p->chunk -= r;
      return;
    }
    if (p->prog_n >= lim) { proc_next(p); return; }
    OFD* f = pfd(p, o[1]);
    if (!f) { proc_werr(p, EBADF); return; }
    string d(std::min<u64>(pick_chunk(8192, true), lim - p->prog_n), 0);
    long r = do_read(f, &d[0], d.size(), me, atoi(o[1].c_str()));
    if (r < 0) { proc_werr(p, -r); return; }
    if (r == 0) { proc_next(p); return; }
    d.resize(r);
    if (key) for (auto& c : d) c ^= key;
    p->prog_n += r; p->buf = d;
    return;
  }
  if (k == "line") { // copy one line byte by byte, consuming nothing beyond it
    OFD* f = pfd(p, o[1]);
    if (!f) { proc_werr(p, EBADF); return; }
    char c;
    long r = do_read(f, &c, 1, me, atoi(o[1].c_str()));
    if (r < 0) { proc_werr(p, -r); return; }
    if (r == 0 || c == '\n') proc_next(p);
    return;
  }
  if (k == "drain" || k == "readn") {
    OFD* f = pfd(p, o[1]);
    u64 lim = k == "readn" ? (u64)atoll(o[2].c_str()) : ~0ull;
    if (p->prog_n >= lim) { proc_next(p); return; }
    if (!f) { proc_werr(p, EBADF); return; }
    string d(std::min<u64>(pick_chunk(16384, true), lim - p->prog_n), 0);
    long r = do_read(f, &d[0], d.size(), me, atoi(o[1].c_str()));
    if (r < 0) { proc_werr(p, -r); return; }
    if (r == 0) { proc_next(p); return; }
    p->prog_n += r;
    return;
  }
  if (k == "sleep") {
    if (p->opst == 0) { p->opst = 1; p->task->deadline = g_now + atoll(o[1].c_str()) * 1000; return; }
    proc_next(p); return;
  }
  if (k == "exit") { proc_exit(p, (atoi(o[1].c_str()) & 255) << 8); return; }
  if (k == "sig") { proc_exit(p, (atoi(o[1].c_str()) & 127) | (o.size() > 2 && o[2] == "1" ? 128 : 0)); return; }
  if (k == "close") { fd_close(p->fds, atoi(o[1].c_str())); proc_next(p); return; }
  if (k == "mark") { g_marks.insert(o[1]); logf("MARK %d %s", p->pid, hexs(o[1]).c_str()); proc_next(p); return; }
  if (k == "wmark" || k == "wgone" || k == "wnord" || k == "nop") { proc_next(p); return; }
  if (k == "ignpipe") { p->sigpipe_dfl = false; proc_next(p); return; }
  if (k == "bg") { proc_bg(p, o[1]); proc_next(p); return; }
  if (k == "dup2") { OFD* f = pfd(p, o[1]); if (f) fd_set_ent(p->fds, atoi(o[2].c_str()), f, false); proc_next(p); return; }
  if (k == "fwrite" || k == "fappend") {
    Node *n, *d; string b;
    int e = resolve(p->cwd, o[1], true, &n, &d, &b);
    if (!e && !n) { n = mknode('f'); n->parent = d; d->kids[b] = n; }
    if (!e && n->type == 'f') { if (k == "fwrite") n->data = o[2]; else n->data += o[2]; logf("FWRITE %d %s %d", p->pid, hexs(o[1]).c_str(), n->id); }
    else logf("FERR %d %d", p->pid, e);
    proc_next(p); return;
  }
  if (k == "rm" || k == "rmdir") {
    Node *n, *d; string b;
    int e = resolve(p->cwd, o[1], false, &n, &d, &b);
    if (!e && n && n != g_root) { d->kids.erase(b); n->linked = false; logf("RM %d %s", p->pid, hexs(o[1]).c_str()); }
    proc_next(p); return;
  }
  if (k == "mkdir") {
    Node *n, *d; string b;
    int e = resolve(p->cwd, o[1], false, &n, &d, &b);
    if (!e && !n) { n = mknode('d'); n->parent = d; d->kids[b] = n; }
    proc_next(p); return;
  }
  if (k == "symlink") {
    Node *n, *d; string b;
    int e = resolve(p->cwd, o[1], false, &n, &d, &b);
    if (!e && !n) { n = mknode('l'); n->parent = d; n->data = o[2]; d->kids[b] = n; }
    proc_next(p); return;
  }
  logf("BADOP %s", k.c_str());
  proc_exit(p, 99 << 8);
}

// ------------------------------------------------------------------ end of a run
static string children_str() {
  int live = 0, zomb = 0;
  for (auto p : g_procs) if (p->ppid == g_pid && !p->external) { if (!p->dead) live++; else if (!p->reaped) zomb++; }
  char b[64]; snprintf(b, sizeof b, "%d %d", live, zomb); return b;
}
static Proc* g_execd = nullptr;
static void dump_all() {
  char b[256];
  for (auto p : g_pipes) {
    int n = snprintf(b, sizeof b, "OBJ %d p %lu %lu\n", p->id, (unsigned long)p->all.size(), (unsigned long)p->rd);
    log_raw(b, n); log_raw(p->all.data(), p->all.size()); log_raw("\n", 1);
  }
  for (auto nd : g_nodes) if (nd->type == 'f' && nd->prog.empty()) {
    string path = nd->linked ? node_path(nd) : "";
    string l = "OBJ " + std::to_string(nd->id) + " f " + std::to_string(nd->data.size()) + " " + hexs(path) + "\n";
    log_raw(l.data(), l.size()); log_raw(nd->data.data(), nd->data.size()); log_raw("\n", 1);
    if (!nd->aud.empty()) { l = "AUD " + std::to_string(nd->id) + " " + std::to_string(nd->aud.size()) + "\n"; log_raw(l.data(), l.size()); log_raw(nd->aud.data(), nd->aud.size()); log_raw("\n", 1); }
  }
  for (auto& c : g_calls) { int n = snprintf(b, sizeof b, "CALLS %s %ld\n", c.first.c_str(), c.second); log_raw(b, n); }
  for (auto& c : g_callp) { string l = "CALLP " + c.first.first + " " + std::to_string(c.second) + " " + hexs(c.first.second) + "\n"; log_raw(l.data(), l.size()); }
  for (auto& c : g_soft) { int n = snprintf(b, sizeof b, "SOFT %s %lu\n", c.first.c_str(), (unsigned long)c.second); log_raw(b, n); }
  int n = snprintf(b, sizeof b, "STATS %lu %ld %lu %u %lu\n", (unsigned long)g_steps, (long)g_now, (unsigned long)g_hash, g_ndec, (unsigned long)g_states.size());
  log_raw(b, n);
  if (g_record) for (auto& c : g_nonzero) { n = snprintf(b, sizeof b, "CH %u %u\n", c.first, c.second); log_raw(b, n); }
  log_raw("END\n", 4);
}
static bool g_finishing = false;
[[noreturn]] static void finish(const char* how, int code) {
  if (g_finishing) { raw6(SYS_exit_group, 97); __builtin_unreachable(); }
  g_finishing = true;
  logf("HUSH %s %d %s %s", how, code, fds_str(g_fds).c_str(), children_str().c_str());
  bool stuck = !strcmp(how, "DEADLOCK") || !strcmp(how, "STEPLIMIT");
  if (stuck) {
    for (auto t : g_tasks) {
      if (t->st == T_DONE) continue;
      if (t->is_thread) logf("STUCK T%d %d", t->id, (int)t->st);
      else logf("STUCK P%d %s pc=%lu %s", t->proc->pid, hexs(t->proc->prog).c_str(), (unsigned long)t->proc->pc, t->proc->pc < t->proc->ops->size() ? (*t->proc->ops)[t->proc->pc][0].c_str() : "end");
    }
  } else {
    g_hush_dead = true;
    for (auto& e : g_fds) ofd_unref(e.second.o);
    g_fds.clear();
    for (auto p : g_procs) if (p->ppid == g_pid && p->dead) p->reaped = true;
    k_maxsteps += 200000;
    g_finishing = false; self = nullptr; g_cur = nullptr;
    schedule();
    g_finishing = true;
    for (auto p : g_procs) if (!p->dead) logf("LEFT %d %s", p->pid, hexs(p->prog).c_str());
    if (g_execd) logf("EXECEND %d", g_execd->dead ? g_execd->status : -1);
  }
  dump_all();
  raw6(SYS_exit_group, 0);
  __builtin_unreachable();
}

// ------------------------------------------------------------------ helpers for the interposed calls
static int seterr(int e) { errno = e; return -1; }
static OFD* hfd(int fd) { auto it = g_fds.find(fd); return it == g_fds.end() ? nullptr : it->second.o; }
static int alloc_fd(OFD* o, bool ce, int from = 0) {
  int fd = fd_lowest(g_fds, from);
  if (fd >= k_nofile) { if (o->refs == 0) { o->refs = 1; ofd_unref(o); } g_soft["nofile"]++; logf("FAULT nofile 0 24 x"); return -EMFILE; }
  fd_set_ent(g_fds, fd, o, ce);
  return fd;
}
static string tn() { char b[16]; snprintf(b, sizeof b, "T%d", self ? self->id : 0); return b; }
struct ChildWrite { OFD* o; string d; };
static vector<ChildWrite> g_cw;

// ------------------------------------------------------------------ interposed: descriptors
static int sim_pipe(int fds[2], int flags) {
  yield_pt("pipe");
  if (int e = fault("pipe")) return seterr(e);
  Pipe* p = mkpipe();
  OFD* r = mkofd('r', p, nullptr, O_RDONLY | (flags & O_NONBLOCK));
  OFD* w = mkofd('w', p, nullptr, O_WRONLY | (flags & O_NONBLOCK));
  int a = alloc_fd(r, flags & O_CLOEXEC);
  if (a < 0) { w->refs = 1; ofd_unref(w); return seterr(-a); }
  int b = alloc_fd(w, flags & O_CLOEXEC);
  if (b < 0) { fd_close(g_fds, a); return seterr(-b); }
  fds[0] = a; fds[1] = b;
  trace("pipe %d %d obj %d", a, b, p->id);
  return 0;
}
EXPORT int pipe2(int fds[2], int flags) { if (!on()) return REAL(pipe2)(fds, flags); return sim_pipe(fds, flags); }
EXPORT int pipe(int fds[2]) { if (!on()) return REAL(pipe)(fds); return sim_pipe(fds, 0); }
EXPORT int socketpair(int dom, int type, int proto, int sv[2]) {
  if (!on()) return REAL(socketpair)(dom, type, proto, sv);
  yield_pt("socketpair");
  if (int e = fault("socketpair")) return seterr(e);
  Pipe *a = mkpipe(), *b = mkpipe();
  a->sock = b->sock = (type & 0xf) != SOCK_STREAM;
  OFD *x = mkofd('s', a, nullptr, O_RDWR), *y = mkofd('s', b, nullptr, O_RDWR);
  x->p2 = b; y->p2 = a; a->readers = 1; a->writers = 1; b->readers = 1; b->writers = 1;
  int f = alloc_fd(x, type & SOCK_CLOEXEC);
  if (f < 0) { y->refs = 1; ofd_unref(y); return seterr(-f); }
  int g = alloc_fd(y, type & SOCK_CLOEXEC);
  if (g < 0) { fd_close(g_fds, f); return seterr(-g); }
  sv[0] = f; sv[1] = g;
  return 0;
}
EXPORT int close(int fd) {
  if (!on()) return (int)({ long r = raw6(SYS_close, fd); r < 0 ? seterr(-r) : r; });
  yield_pt("close");
  trace("close %d", fd);
  if (!fd_close(g_fds, fd)) return seterr(EBADF);
  return 0;
}
EXPORT int close_range(unsigned a, unsigned b, int flags) {
  if (!on()) return (int)raw6(SYS_close_range, a, b, flags);
  vector<int> v;
  for (auto& e : g_fds) if ((unsigned)e.first >= a && (unsigned)e.first <= b) v.push_back(e.first);
  for (int f : v) { if (flags & 4) g_fds[f].cloexec = true; else fd_close(g_fds, f); }
  return 0;
}
static int sim_dup(int fd, int from, bool ce) {
  yield_pt("dup");
  OFD* o = hfd(fd);
  if (!o) return seterr(EBADF);
  if (int e = fault("dup")) return seterr(e);
  int n = alloc_fd(o, ce, from);
  if (n < 0) return seterr(-n);
  trace("dup %d -> %d", fd, n);
  return n;
}
EXPORT int dup(int fd) { if (!on()) return (int)({ long r = raw6(SYS_dup, fd); r < 0 ? seterr(-r) : r; }); return sim_dup(fd, 0, false); }
static int sim_dup3(int a, int b, int flags) {
  yield_pt("dup2");
  OFD* o = hfd(a);
  if (!o || b < 0 || b >= k_nofile) return seterr(EBADF);
  if (int e = fault("dup")) return seterr(e);
  if (a != b) fd_set_ent(g_fds, b, o, flags & O_CLOEXEC);
  trace("dup2 %d -> %d", a, b);
  return b;
}
EXPORT int dup2(int a, int b) { if (!on()) return (int)({ long r = raw6(SYS_dup2, a, b); r < 0 ? seterr(-r) : r; }); return sim_dup3(a, b, 0); }
EXPORT int dup3(int a, int b, int f) { if (!on()) return (int)({ long r = raw6(SYS_dup3, a, b, f); r < 0 ? seterr(-r) : r; }); if (a == b) return seterr(EINVAL); return sim_dup3(a, b, f); }
static int sim_fcntl(int fd, int cmd, long arg) {
  if (!on()) { long r = raw6(SYS_fcntl, fd, cmd, arg); return r < 0 ? seterr(-r) : (int)r; }
  auto it = g_fds.find(fd);
  if (it == g_fds.end()) return seterr(EBADF);
  switch (cmd) {
    case F_DUPFD: return sim_dup(fd, arg, false);
    case F_DUPFD_CLOEXEC: return sim_dup(fd, arg, true);
    case F_GETFD: return it->second.cloexec ? FD_CLOEXEC : 0;
    case F_SETFD: yield_pt("setfd"); it = g_fds.find(fd); if (it == g_fds.end()) return seterr(EBADF); it->second.cloexec = arg & FD_CLOEXEC; return 0;
    case F_GETFL: return it->second.o->flags;
    case F_SETFL: it->second.o->flags = (it->second.o->flags & (O_ACCMODE)) | (arg & (O_NONBLOCK | O_APPEND)); return 0;
    case F_GETPIPE_SZ: return it->second.o->p ? (int)it->second.o->p->cap : seterr(EBADF);
    case F_SETPIPE_SZ: return seterr(EPERM);
    default: return seterr(EINVAL);
  }
}
EXPORT int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return sim_fcntl(fd, cmd, a); }
EXPORT int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return sim_fcntl(fd, cmd, a); }
EXPORT int ioctl(int fd, unsigned long req, ...) {
  va_list ap; va_start(ap, req); void* a = va_arg(ap, void*); va_end(ap);
  if (!on()) { long r = raw6(SYS_ioctl, fd, req, (long)a); return r < 0 ? seterr(-r) : (int)r; }
  auto it = g_fds.find(fd);
  if (it == g_fds.end()) return seterr(EBADF);
  if (req == FIONBIO) { if (*(int*)a) it->second.o->flags |= O_NONBLOCK; else it->second.o->flags &= ~O_NONBLOCK; return 0; }
  if (req == FIOCLEX) { it->second.cloexec = true; return 0; }
  if (req == FIONCLEX) { it->second.cloexec = false; return 0; }
  if (req == FIONREAD && it->second.o->p) { *(int*)a = it->second.o->p->avail(); return 0; }
  return seterr(ENOTTY);
}
EXPORT int isatty(int fd) { if (!on()) return 0; errno = hfd(fd) ? ENOTTY : EBADF; return 0; }

static ssize_t sim_read(int fd, char* buf, size_t n, i64 at = -1) {
  yield_pt("read");
  OFD* o = hfd(fd);
  if (!o) return seterr(EBADF);
  // (the channel on which the copy made by fork() reports a failed exec to its parent does not fail)
  if (o->kind != 's' && !(n == 8 && o->kind != 'f')) if (int e = fault("read", fd == 0 ? string("|0") : o->kind == 'f' ? node_path(o->n) : string("|p"))) return seterr(e);
  if (soft_eintr("read")) return seterr(EINTR);
  if (o->kind != 'w' && !r_ready(o)) {
    if (o->flags & O_NONBLOCK) return seterr(EAGAIN);
    o->refs++;
    block([o] { return r_ready(o); });
    o->refs--;
    if (o->refs == 0) { o->refs = 1; ofd_unref(o); return seterr(EBADF); }
  }
  if (n == 0) return 0;
  // what a failed exec reports to its parent (8 bytes, written at once) is read at once on any real system
  if (n > 8) n = soft_len(n, k_short, "short_read");
  if (at >= 0) { u64 save = o->off; o->off = at; long r = do_read(o, buf, n, tn(), fd); o->off = save; return r < 0 ? seterr(-r) : r; }
  // a socket message must come whole
  long r = do_read(o, buf, n, tn(), fd);
  trace("read %d n=%lu -> %ld", fd, (unsigned long)n, r);
  if (r < 0) return seterr(-r);
  return r;
}
EXPORT ssize_t read(int fd, void* b, size_t n) { if (!on()) { long r = raw6(SYS_read, fd, (long)b, n); return r < 0 ? seterr(-r) : r; } return sim_read(fd, (char*)b, n); }
EXPORT ssize_t pread(int fd, void* b, size_t n, off_t at) { if (!on()) { long r = raw6(SYS_pread64, fd, (long)b, n, at); return r < 0 ? seterr(-r) : r; } return sim_read(fd, (char*)b, n, at); }
EXPORT ssize_t pread64(int fd, void* b, size_t n, off_t at) { return pread(fd, b, n, at); }
EXPORT ssize_t readv(int fd, const struct iovec* iov, int c) {
  if (!on()) { long r = raw6(SYS_readv, fd, (long)iov, c); return r < 0 ? seterr(-r) : r; }
  for (int i = 0; i < c; i++) if (iov[i].iov_len) return sim_read(fd, (char*)iov[i].iov_base, iov[i].iov_len);
  return sim_read(fd, (char*)"", 0);
}
static ssize_t sim_write(int fd, const char* d, size_t n) {
  if (g_in_child) { OFD* o = hfd(fd); if (!o) return seterr(EBADF); g_cw.push_back({o, string(d, n)}); return n; }
  yield_pt("write");
  OFD* o = hfd(fd);
  if (!o) return seterr(EBADF);
  if (int e = fault("write", o->kind == 'f' ? node_path(o->n) : fd <= 2 ? "|" + std::to_string(fd) : string("|p"))) {
    if (e == EPIPE && !g_sigpipe_ign) finish("SIGNAL", SIGPIPE);
    return seterr(e);
  }
  if (soft_eintr("write")) return seterr(EINTR);
  if (n > 1 && o->kind != 's') n = soft_len(n, k_short, "short_write");
  if (fd == 1 || fd == 2) logf("H %d %s %s", fd, fds_str(g_fds).c_str(), children_str().c_str());
  size_t done = 0;
  for (;;) {
    if (n && o->kind != 'r' && !w_room(o, n - done)) {
      if (o->flags & O_NONBLOCK) { if (done) return done; return seterr(EAGAIN); }
      size_t left = n - done;
      o->refs++;
      block([o, left] { return w_room(o, left) > 0; });
      o->refs--;
      if (o->refs == 0) { o->refs = 1; ofd_unref(o); return seterr(EBADF); }
    }
    size_t m = n ? w_room(o, n - done) : 0;
    if (o->kind == 'r') m = n;
    long r = do_write(o, d + done, m, tn(), fd);
    trace("write %d n=%lu -> %ld", fd, (unsigned long)m, r);
    if (r < 0) {
      if (r == -EPIPE) { logf("HEPIPE %d", fd); if (!g_sigpipe_ign) finish("SIGNAL", SIGPIPE); }
      if (done) return done;
      return seterr(-r);
    }
    done += r;
    if (done >= n) return done;
  }
}
EXPORT ssize_t write(int fd, const void* b, size_t n) { if (!on()) { long r = raw6(SYS_write, fd, (long)b, n); return r < 0 ? seterr(-r) : r; } return sim_write(fd, (const char*)b, n); }
EXPORT ssize_t writev(int fd, const struct iovec* iov, int c) {
  if (!on()) { long r = raw6(SYS_writev, fd, (long)iov, c); return r < 0 ? seterr(-r) : r; }
  string s;
  for (int i = 0; i < c; i++) s.append((const char*)iov[i].iov_base, iov[i].iov_len);
  return sim_write(fd, s.data(), s.size());
}
EXPORT ssize_t pwrite(int fd, const void* b, size_t n, off_t at) {
  if (!on()) { long r = raw6(SYS_pwrite64, fd, (long)b, n, at); return r < 0 ? seterr(-r) : r; }
  yield_pt("pwrite");
  OFD* o = hfd(fd);
  if (!o) return seterr(EBADF);
  if (o->kind != 'f') return seterr(ESPIPE);
  if (int e = fault("write", node_path(o->n))) return seterr(e);
  u64 save = o->off; o->off = at; long r = do_write(o, (const char*)b, n, tn(), fd); o->off = save;
  return r < 0 ? seterr(-r) : r;
}
EXPORT ssize_t pwrite64(int fd, const void* b, size_t n, off_t at) { return pwrite(fd, b, n, at); }
EXPORT ssize_t send(int fd, const void* b, size_t n, int) { if (!on()) return seterr(ENOTSOCK); return sim_write(fd, (const char*)b, n); }
EXPORT ssize_t sendmsg(int fd, const struct msghdr* m, int) { if (!on()) return seterr(ENOTSOCK); return writev(fd, m->msg_iov, m->msg_iovlen); }
EXPORT ssize_t recv(int fd, void* b, size_t n, int) { if (!on()) return seterr(ENOTSOCK); return sim_read(fd, (char*)b, n); }
EXPORT ssize_t recvmsg(int fd, struct msghdr* m, int) { if (!on()) return seterr(ENOTSOCK); m->msg_controllen = 0; return readv(fd, m->msg_iov, m->msg_iovlen); }
EXPORT ssize_t splice(int, off64_t*, int, off64_t*, size_t, unsigned) { return seterr(EINVAL); }
EXPORT ssize_t sendfile(int, int, off_t*, size_t) { return seterr(EINVAL); }
EXPORT ssize_t sendfile64(int, int, off64_t*, size_t) { return seterr(EINVAL); }
EXPORT ssize_t copy_file_range(int, off64_t*, int, off64_t*, size_t, unsigned) { return seterr(ENOSYS); }
EXPORT off64_t lseek64(int fd, off64_t off, int wh) {
  if (!on()) { long r = raw6(SYS_lseek, fd, off, wh); return r < 0 ? seterr(-r) : r; }
  OFD* o = hfd(fd);
  if (!o) return seterr(EBADF);
  if (o->kind != 'f') return seterr(ESPIPE);
  i64 b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (i64)o->off : (i64)o->n->data.size();
  if (b + off < 0) return seterr(EINVAL);
  o->off = b + off;
  return o->off;
}
EXPORT off_t lseek(int fd, off_t off, int wh) { return lseek64(fd, off, wh); }
EXPORT int ftruncate64(int fd, off64_t n) { if (!on()) { long r = raw6(SYS_ftruncate, fd, n); return r < 0 ? seterr(-r) : r; } OFD* o = hfd(fd); if (!o || o->kind != 'f') return seterr(EINVAL); o->n->data.resize(n, 0); return 0; }
EXPORT int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
EXPORT int fsync(int fd) { if (!on()) { long r = raw6(SYS_fsync, fd); return r < 0 ? seterr(-r) : r; } return hfd(fd) ? 0 : seterr(EBADF); }
EXPORT int fdatasync(int fd) { return fsync(fd); }
EXPORT int memfd_create(const char*, unsigned fl) {
  if (!on()) return seterr(ENOSYS);
  yield_pt("memfd");
  if (int e = fault("open", "memfd")) return seterr(e);
  Node* n = mknode('f'); n->linked = false; n->parent = g_root;
  int fd = alloc_fd(mkofd('f', nullptr, n, O_RDWR), fl & 1);
  return fd < 0 ? seterr(-fd) : fd;
}
EXPORT int poll(struct pollfd* f, nfds_t n, int timeout) {
  if (!on()) { long r = raw6(SYS_poll, (long)f, n, timeout); return r < 0 ? seterr(-r) : (int)r; }
  yield_pt("poll");
  auto eval = [f, n]() {
    int c = 0;
    for (nfds_t i = 0; i < n; i++) {
      f[i].revents = 0;
      if (f[i].fd < 0) continue;
      OFD* o = hfd(f[i].fd);
      if (!o) f[i].revents = POLLNVAL;
      else {
        if ((f[i].events & POLLIN) && o->kind != 'w' && r_ready(o)) { if (o->kind == 'f' || o->p->avail()) f[i].revents |= POLLIN; }
        if (o->kind == 'r' && o->p->writers == 0) f[i].revents |= POLLHUP;
        if (o->kind == 'w' && o->p->readers == 0) f[i].revents |= POLLERR;
        if ((f[i].events & POLLOUT) && o->kind != 'r' && w_room(o, 1)) f[i].revents |= POLLOUT;
      }
      if (f[i].revents) c++;
    }
    return c;
  };
  if (timeout != 0 && soft_eintr("poll")) return seterr(EINTR);
  int c = eval();
  if (c || timeout == 0) return c;
  block([&] { return eval() > 0; }, timeout < 0 ? -1 : g_now + (i64)timeout * 1000000);
  return eval();
}

// ------------------------------------------------------------------ interposed: files and directories
static int sim_open(const char* path, int flags, mode_t) {
  yield_pt("open");
  string p = path;
  if (int e = fault("open", p)) return seterr(e);
  if (soft_eintr("open")) return seterr(EINTR);
  if (fd_lowest(g_fds, 0) >= k_nofile) { g_soft["nofile"]++; logf("FAULT nofile 0 24 x"); return seterr(EMFILE); }
  Node *n, *d = nullptr; string b;
  int e = resolve(g_cwd, p, !(flags & O_NOFOLLOW), &n, (flags & O_CREAT) ? &d : nullptr, &b);
  if (e) return seterr(e);
  if (!n) {
    if (d->perm.find('w') != string::npos) return seterr(EACCES);
    if (!d->linked && d != g_root) return seterr(ENOENT);
    if (p.back() == '/') return seterr(EISDIR);
    n = mknode('f'); n->parent = d; d->kids[b] = n;
    logf("CREATE %s %d", hexs(p).c_str(), n->id);
  } else if ((flags & (O_CREAT | O_EXCL)) == (O_CREAT | O_EXCL)) return seterr(EEXIST);
  int acc = flags & O_ACCMODE;
  if (n->type == 'l') return seterr(ELOOP);
  if (n->type == 'd' && (acc != O_RDONLY || (flags & O_CREAT))) return seterr(EISDIR);
  if ((flags & O_DIRECTORY) && n->type != 'd') return seterr(ENOTDIR);
  if (acc != O_WRONLY && n->perm.find('r') != string::npos) return seterr(EACCES);
  if (acc != O_RDONLY && n->perm.find('w') != string::npos) return seterr(EACCES);
  int fd = alloc_fd(mkofd('f', nullptr, n, flags), flags & O_CLOEXEC);
  if (fd < 0) return seterr(-fd);
  if ((flags & O_TRUNC) && acc != O_RDONLY && n->type == 'f') { if (!n->data.empty()) logf("TRUNC %s %d", hexs(p).c_str(), n->id); n->data.clear(); }
  logf("OPEN %s %d %d", hexs(p).c_str(), flags, n->id);
  return fd;
}
static bool passthru_path(const char* p) { (void)p; return !on(); }
#define OPENBODY(extra) va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, int); va_end(ap); \
  if (passthru_path(path)) { long r = raw6(SYS_open, (long)path, flags extra, m); return r < 0 ? seterr(-r) : (int)r; } return sim_open(path, flags extra, m);
EXPORT int open64(const char* path, int flags, ...) { OPENBODY() }
EXPORT int open(const char* path, int flags, ...) { OPENBODY() }
EXPORT int openat(int dfd, const char* path, int flags, ...) {
  va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, int); va_end(ap);
  if (!on()) { long r = raw6(SYS_openat, dfd, (long)path, flags, m); return r < 0 ? seterr(-r) : (int)r; }
  if (dfd != AT_FDCWD && path[0] != '/') { OFD* o = hfd(dfd); if (!o || o->kind != 'f') return seterr(EBADF); return sim_open((node_path(o->n) + "/" + path).c_str(), flags, m); }
  return sim_open(path, flags, m);
}
EXPORT int openat64(int dfd, const char* path, int flags, ...) { va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, int); va_end(ap); return openat(dfd, path, flags, m); }
EXPORT int creat(const char* path, mode_t m) { if (!on()) { long r = raw6(SYS_creat, (long)path, m); return r < 0 ? seterr(-r) : (int)r; } return sim_open(path, O_CREAT | O_WRONLY | O_TRUNC, m); }
static unsigned node_mode(Node* n) {
  unsigned m = n->type == 'd' ? S_IFDIR : n->type == 'l' ? S_IFLNK : n->type == 'f' ? S_IFREG : S_IFCHR;
  unsigned p = 0777;
  if (n->perm.find('r') != string::npos) p &= ~0444u;
  if (n->perm.find('w') != string::npos) p &= ~0222u;
  if (n->type == 'f' && n->prog.empty()) p &= ~0111u;
  return m | p;
}
static void fill_stat(struct stat64* s, Node* n, OFD* o) {
  memset(s, 0, sizeof *s);
  if (n) { s->st_mode = node_mode(n); s->st_size = n->type == 'f' || n->type == 'l' ? n->data.size() : 0; s->st_ino = n->id; }
  else { s->st_mode = (o->kind == 's' ? S_IFSOCK : S_IFIFO) | 0600; s->st_ino = o->p->id; }
  s->st_nlink = 1; s->st_blksize = 4096; s->st_dev = 7;
}
static int path_stat(const char* path, bool follow, Node** n, int dfd = AT_FDCWD) {
  yield_pt("stat");
  string p = path;
  if (int e = fault("stat", p)) return e;
  Node* base = g_cwd;
  if (dfd != AT_FDCWD && path[0] != '/') { OFD* o = hfd(dfd); if (!o || o->kind != 'f') return EBADF; base = o->n; }
  return resolve(base, p, follow, n);
}
EXPORT int stat64(const char* path, struct stat64* s) { if (!on()) return REAL(stat64)(path, s); Node* n; int e = path_stat(path, true, &n); if (e) return seterr(e); fill_stat(s, n, nullptr); return 0; }
EXPORT int lstat64(const char* path, struct stat64* s) { if (!on()) return REAL(lstat64)(path, s); Node* n; int e = path_stat(path, false, &n); if (e) return seterr(e); fill_stat(s, n, nullptr); return 0; }
EXPORT int stat(const char* path, struct stat* s) { if (!on()) return REAL(stat)(path, s); return stat64(path, (struct stat64*)s); }
EXPORT int lstat(const char* path, struct stat* s) { if (!on()) return REAL(lstat)(path, s); return lstat64(path, (struct stat64*)s); }
EXPORT int fstat64(int fd, struct stat64* s) { if (!on()) return REAL(fstat64)(fd, s); OFD* o = hfd(fd); if (!o) return seterr(EBADF); fill_stat(s, o->kind == 'f' ? o->n : nullptr, o); return 0; }
EXPORT int fstat(int fd, struct stat* s) { if (!on()) return REAL(fstat)(fd, s); return fstat64(fd, (struct stat64*)s); }
EXPORT int fstatat64(int dfd, const char* path, struct stat64* s, int fl) {
  if (!on()) return REAL(fstatat64)(dfd, path, s, fl);
  if ((fl & AT_EMPTY_PATH) && !*path) return fstat64(dfd, s);
  Node* n; int e = path_stat(path, !(fl & AT_SYMLINK_NOFOLLOW), &n, dfd); if (e) return seterr(e); fill_stat(s, n, nullptr); return 0;
}
EXPORT int fstatat(int dfd, const char* path, struct stat* s, int fl) { if (!on()) return REAL(fstatat)(dfd, path, s, fl); return fstatat64(dfd, path, (struct stat64*)s, fl); }
EXPORT int statx(int dfd, const char* path, int fl, unsigned mask, struct statx* x) {
  if (!on()) { long r = raw6(SYS_statx, dfd, (long)path, fl, mask, (long)x); return r < 0 ? seterr(-r) : (int)r; }
  { const char* volatile vp = path; void* volatile vx = x; if (!vp || !vx) return seterr(EFAULT); }
  struct stat64 s;
  if ((fl & AT_EMPTY_PATH) && path && !*path) { if (fstat64(dfd, &s)) return -1; }
  else { Node* n; int e = path_stat(path, !(fl & AT_SYMLINK_NOFOLLOW), &n, dfd); if (e) return seterr(e); fill_stat(&s, n, nullptr); }
  memset(x, 0, sizeof *x);
  x->stx_mask = STATX_BASIC_STATS; x->stx_mode = s.st_mode; x->stx_size = s.st_size; x->stx_ino = s.st_ino; x->stx_nlink = 1; x->stx_blksize = 4096; x->stx_dev_minor = 7;
  return 0;
}
EXPORT int access(const char* path, int mode) {
  if (!on()) { long r = raw6(SYS_access, (long)path, mode); return r < 0 ? seterr(-r) : (int)r; }
  Node* n; int e = path_stat(path, true, &n); if (e) return seterr(e);
  if ((mode & R_OK) && n->perm.find('r') != string::npos) return seterr(EACCES);
  if ((mode & W_OK) && n->perm.find('w') != string::npos) return seterr(EACCES);
  if ((mode & X_OK) && n->type == 'f' && n->prog.empty()) return seterr(EACCES);
  return 0;
}
EXPORT int faccessat(int dfd, const char* path, int mode, int) { (void)dfd; return access(path, mode); }
EXPORT ssize_t readlink(const char* path, char* buf, size_t n) {
  if (!on()) { long r = raw6(SYS_readlink, (long)path, (long)buf, n); return r < 0 ? seterr(-r) : r; }
  Node* nd; int e = path_stat(path, false, &nd); if (e) return seterr(e);
  if (nd->type != 'l') return seterr(EINVAL);
  size_t m = std::min(n, nd->data.size()); memcpy(buf, nd->data.data(), m); return m;
}
EXPORT char* realpath(const char* path, char* out) {
  if (!on()) return REAL(realpath)(path, out);
  yield_pt("realpath");
  if (int e = fault("realpath", path)) { errno = e; return nullptr; }
  Node* n; int e = resolve(g_cwd, path, true, &n);
  if (e) { errno = e; return nullptr; }
  string s = node_path(n);
  if (s.empty()) { errno = ENOENT; return nullptr; }
  if (!out) out = (char*)malloc(s.size() + 1);
  strcpy(out, s.c_str());
  return out;
}
EXPORT int chdir(const char* path) {
  if (!on()) return REAL(chdir)(path);
  yield_pt("chdir");
  if (int e = fault("chdir", path)) return seterr(e);
  Node* n; int e = resolve(g_cwd, path, true, &n);
  if (e) return seterr(e);
  if (n->type != 'd') return seterr(ENOTDIR);
  if (n->perm.find('x') != string::npos) return seterr(EACCES);
  g_cwd = n;
  logf("CHDIR %s %s", hexs(path).c_str(), hexs(node_path(n)).c_str());
  return 0;
}
EXPORT int fchdir(int fd) { if (!on()) return REAL(fchdir)(fd); OFD* o = hfd(fd); if (!o) return seterr(EBADF); if (o->kind != 'f' || o->n->type != 'd') return seterr(ENOTDIR); g_cwd = o->n; return 0; }
EXPORT char* getcwd(char* buf, size_t n) {
  if (!on()) return REAL(getcwd)(buf, n);
  yield_pt("getcwd");
  if (int e = fault("getcwd")) { errno = e; return nullptr; }
  string s = node_path(g_cwd);
  if (s.empty()) { errno = ENOENT; return nullptr; }
  if (!buf) { buf = (char*)malloc(std::max(n, s.size() + 1)); strcpy(buf, s.c_str()); return buf; }
  if (n < s.size() + 1) { errno = ERANGE; return nullptr; }
  strcpy(buf, s.c_str());
  return buf;
}
struct SimDir { u64 magic; int fd; vector<string> names; vector<unsigned char> types; size_t i; struct dirent64 de; };
static SimDir* mkdirstream(Node* n, int fd) {
  SimDir* d = new SimDir(); d->magic = 0x51D1; d->fd = fd; d->i = 0;
  vector<std::pair<string, Node*>> v; v.push_back({".", n}); v.push_back({"..", n->parent ? n->parent : n});
  for (auto& k : n->kids) v.push_back(k);
  // the file system enumerates in an arbitrary order
  for (size_t i = v.size(); i > 1; i--) { u32 j = decide(i, [&]() { return g_rng.below(i); }); std::swap(v[i - 1], v[(i - 1 + j) % i]); }
  bool unk = k_dtunk > 0 && decide(2, [&]() -> u32 { return g_rng.chance(k_dtunk); });
  for (auto& e : v) { d->names.push_back(e.first); char t = e.second->type; d->types.push_back(unk ? DT_UNKNOWN : t == 'd' ? DT_DIR : t == 'l' ? DT_LNK : t == 'f' ? DT_REG : DT_CHR); }
  return d;
}
EXPORT DIR* opendir(const char* path) {
  if (!on()) return REAL(opendir)(path);
  yield_pt("opendir");
  if (int e = fault("opendir", path)) { errno = e; return nullptr; }
  Node* n; int e = resolve(g_cwd, path, true, &n);
  if (e) { errno = e; return nullptr; }
  if (n->type != 'd') { errno = ENOTDIR; return nullptr; }
  if (n->perm.find('r') != string::npos) { errno = EACCES; return nullptr; }
  int fd = alloc_fd(mkofd('f', nullptr, n, O_RDONLY | O_DIRECTORY), true);
  if (fd < 0) { errno = -fd; return nullptr; }
  return (DIR*)mkdirstream(n, fd);
}
EXPORT DIR* fdopendir(int fd) {
  if (!on()) return REAL(fdopendir)(fd);
  OFD* o = hfd(fd);
  if (!o || o->kind != 'f' || o->n->type != 'd') { errno = ENOTDIR; return nullptr; }
  return (DIR*)mkdirstream(o->n, fd);
}
EXPORT struct dirent64* readdir64(DIR* dd) {
  if (!on()) return REAL(readdir64)(dd);
  SimDir* d = (SimDir*)dd;
  if (int e = fault("readdir")) { errno = e; return nullptr; }
  if (d->i >= d->names.size()) return nullptr;
  memset(&d->de, 0, sizeof d->de);
  d->de.d_ino = d->i + 1; d->de.d_off = d->i + 1; d->de.d_type = d->types[d->i];
  size_t l = std::min<size_t>(d->names[d->i].size(), 255);
  memcpy(d->de.d_name, d->names[d->i].data(), l);
  d->de.d_reclen = (sizeof(d->de) - 256 + l + 1 + 7) & ~7u;
  d->i++;
  return &d->de;
}
EXPORT struct dirent* readdir(DIR* d) { if (!on()) return REAL(readdir)(d); return (struct dirent*)readdir64(d); }
EXPORT int dirfd(DIR* d) { if (!on()) return REAL(dirfd)(d); return ((SimDir*)d)->fd; }
EXPORT int closedir(DIR* dd) { if (!on()) return REAL(closedir)(dd); SimDir* d = (SimDir*)dd; fd_close(g_fds, d->fd); delete d; return 0; }
static int dir_op(const char* op, const char* path, Node** n, Node** d, string* b) {
  yield_pt(op);
  if (int e = fault(op, path)) return e;
  return resolve(g_cwd, path, false, n, d, b);
}
EXPORT int unlink(const char* path) { if (!on()) return REAL(unlink)(path); Node *n, *d; string b; int e = dir_op("unlink", path, &n, &d, &b); if (e) return seterr(e); if (!n) return seterr(ENOENT); if (n->type == 'd') return seterr(EISDIR); d->kids.erase(b); n->linked = false; logf("UNLINK %s", hexs(path).c_str()); return 0; }
EXPORT int rmdir(const char* path) { if (!on()) return REAL(rmdir)(path); Node *n, *d; string b; int e = dir_op("rmdir", path, &n, &d, &b); if (e) return seterr(e); if (!n) return seterr(ENOENT); if (n->type != 'd') return seterr(ENOTDIR); if (!n->kids.empty()) return seterr(ENOTEMPTY); d->kids.erase(b); n->linked = false; return 0; }
EXPORT int mkdir(const char* path, mode_t) { if (!on()) return REAL(mkdir)(path, 0777); Node *n, *d; string b; int e = dir_op("mkdir", path, &n, &d, &b); if (e) return seterr(e); if (n) return seterr(EEXIST); n = mknode('d'); n->parent = d; d->kids[b] = n; return 0; }
EXPORT int rename(const char* a, const char* c) {
  if (!on()) return REAL(rename)(a, c);
  Node *n, *d, *n2, *d2; string b, b2; int e = dir_op("rename", a, &n, &d, &b); if (e) return seterr(e); if (!n) return seterr(ENOENT);
  e = resolve(g_cwd, c, false, &n2, &d2, &b2); if (e) return seterr(e);
  if (n2 && n2 != n) n2->linked = false;
  d->kids.erase(b); d2->kids[b2] = n; n->parent = d2; logf("RENAME %s %s", hexs(a).c_str(), hexs(c).c_str()); return 0;
}

// ------------------------------------------------------------------ interposed: processes
struct FA { char kind; int a, b, flags; string path; };
struct FAs { vector<FA> v; };
struct Attr { short flags = 0; sigset_t def; };
EXPORT int posix_spawn_file_actions_init(posix_spawn_file_actions_t* p) { if (!on()) return REAL(posix_spawn_file_actions_init)(p); *(FAs**)p = new FAs(); return 0; }
EXPORT int posix_spawn_file_actions_destroy(posix_spawn_file_actions_t* p) { if (!on()) return REAL(posix_spawn_file_actions_destroy)(p); delete *(FAs**)p; return 0; }
EXPORT int posix_spawn_file_actions_adddup2(posix_spawn_file_actions_t* p, int a, int b) { if (!on()) return REAL(posix_spawn_file_actions_adddup2)(p, a, b); (*(FAs**)p)->v.push_back({'d', a, b, 0, ""}); return 0; }
EXPORT int posix_spawn_file_actions_addclose(posix_spawn_file_actions_t* p, int a) { if (!on()) return REAL(posix_spawn_file_actions_addclose)(p, a); (*(FAs**)p)->v.push_back({'c', a, 0, 0, ""}); return 0; }
EXPORT int posix_spawn_file_actions_addopen(posix_spawn_file_actions_t* p, int a, const char* path, int fl, mode_t m) { if (!on()) return REAL(posix_spawn_file_actions_addopen)(p, a, path, fl, m); (*(FAs**)p)->v.push_back({'o', a, 0, fl, path}); return 0; }
EXPORT int posix_spawn_file_actions_addchdir_np(posix_spawn_file_actions_t* p, const char* path) { if (!on()) return REAL(posix_spawn_file_actions_addchdir_np)(p, path); (*(FAs**)p)->v.push_back({'h', 0, 0, 0, path}); return 0; }
EXPORT int posix_spawn_file_actions_addchdir(posix_spawn_file_actions_t* p, const char* path) { return posix_spawn_file_actions_addchdir_np(p, path); }
EXPORT int posix_spawnattr_init(posix_spawnattr_t* p) { if (!on()) return REAL(posix_spawnattr_init)(p); Attr* a = new Attr(); sigemptyset(&a->def); *(Attr**)p = a; return 0; }
EXPORT int posix_spawnattr_destroy(posix_spawnattr_t* p) { if (!on()) return REAL(posix_spawnattr_destroy)(p); delete *(Attr**)p; return 0; }
EXPORT int posix_spawnattr_setflags(posix_spawnattr_t* p, short f) { if (!on()) return REAL(posix_spawnattr_setflags)(p, f); (*(Attr**)p)->flags = f; return 0; }
EXPORT int posix_spawnattr_setpgroup(posix_spawnattr_t* p, pid_t g) { if (!on()) return REAL(posix_spawnattr_setpgroup)(p, g); return 0; }
EXPORT int posix_spawnattr_setsigdefault(posix_spawnattr_t* p, const sigset_t* s) { if (!on()) return REAL(posix_spawnattr_setsigdefault)(p, s); (*(Attr**)p)->def = *s; return 0; }
EXPORT int posix_spawnattr_setsigmask(posix_spawnattr_t* p, const sigset_t* s) { if (!on()) return REAL(posix_spawnattr_setsigmask)(p, s); return 0; }
// Find the program like execvp does.
static int find_prog(const string& file, const string& path_env, Node* cwd, string* prog) {
  auto check = [&](const string& p) -> int {
    Node* n; int e = resolve(cwd, p, true, &n);
    if (e) return e;
    if (n->type != 'f' || n->prog.empty() || n->perm.find('x') != string::npos) return EACCES;
    *prog = n->prog; return 0;
  };
  if (file.empty()) return ENOENT;
  if (file.find('/') != string::npos) return check(file);
  if (file.size() > 255) return ENAMETOOLONG;
  int seen = ENOENT; size_t i = 0;
  for (;;) {
    size_t j = path_env.find(':', i);
    string dir = path_env.substr(i, j == string::npos ? string::npos : j - i);
    int e = check(dir.empty() ? file : dir + "/" + file);
    if (!e) return 0;
    if (e == EACCES) seen = EACCES;
    else if (e != ENOENT && e != ENOTDIR) return e;
    if (j == string::npos) break;
    i = j + 1;
  }
  return seen;
}
static vector<string> cvec(char* const* v) { vector<string> r; if (v) for (; *v; v++) r.push_back(*v); return r; }
// The kernel limits each argument and variable (MAX_ARG_STRLEN).
static bool too_big(char* const* argv, char* const* envp) {
  for (char* const* v : {argv, envp}) if (v) for (; *v; v++) if (strlen(*v) >= 131072) return true;
  return false;
}
static string path_of_env() { const char* p = ::getenv("PATH"); return p ? p : "/bin:/usr/bin"; }
static int live_children() { int n = 0; for (auto p : g_procs) if (p->ppid == g_pid && !p->external && !p->reaped) n++; return n; }
static int sim_spawn(pid_t* pid, const char* file, const posix_spawn_file_actions_t* fa, const posix_spawnattr_t* at, char* const argv[], char* const envp[], bool search) {
  yield_pt("spawn");
  if (int e = fault("spawn", file)) return e;
  if (k_nproc > 0 && live_children() >= k_nproc) { g_soft["nproc"]++; logf("FAULT nproc 0 11 x"); return EAGAIN; }
  FdTab t; Node* cwd = g_cwd; int err = 0;
  for (auto& e : g_fds) fd_set_ent(t, e.first, e.second.o, e.second.cloexec);
  if (fa) for (auto& a : (*(FAs* const*)fa)->v) {
    if (a.kind == 'd') { auto it = t.find(a.a); if (it == t.end()) { err = EBADF; break; } if (a.a == a.b) it->second.cloexec = false; else fd_set_ent(t, a.b, it->second.o, false); }
    else if (a.kind == 'c') fd_close(t, a.a);
    else if (a.kind == 'h') { Node* n; err = resolve(cwd, a.path, true, &n); if (!err && n->type != 'd') err = ENOTDIR; if (err) break; cwd = n; }
    else if (a.kind == 'o') {
      Node *n, *d; string b; err = resolve(cwd, a.path, true, &n, &d, &b);
      if (!err && !n) { if (a.flags & O_CREAT) { n = mknode('f'); n->parent = d; d->kids[b] = n; } else err = ENOENT; }
      if (err) break;
      if ((a.flags & O_TRUNC) && n->type == 'f') n->data.clear();
      fd_set_ent(t, a.a, mkofd('f', nullptr, n, a.flags), false);
    }
  }
  string prog;
  if (!err) err = find_prog(file, search ? path_of_env() : "", cwd, &prog);
  if (!err && too_big(argv, envp ? envp : environ)) err = E2BIG;
  if (err) { for (auto& e : t) ofd_unref(e.second.o); trace("spawn %s -> err %d", file, err); return err; }
  bool dfl = !g_sigpipe_ign;
  if (at) { Attr* a = *(Attr* const*)at; if ((a->flags & POSIX_SPAWN_SETSIGDEF) && sigismember(&a->def, SIGPIPE)) dfl = true; }
  for (auto it = t.begin(); it != t.end();) { if (it->second.cloexec) { OFD* o = it->second.o; it = t.erase(it); ofd_unref(o); } else ++it; }
  Proc* p = mkproc(g_nextpid++, g_pid, prog, cvec(argv), cvec(envp ? envp : environ), cwd, dfl, "spawn");
  p->fds = t;
  log_spawn(p, "spawn");
  if (pid) *pid = p->pid;
  return 0;
}
EXPORT int posix_spawnp(pid_t* pid, const char* f, const posix_spawn_file_actions_t* fa, const posix_spawnattr_t* at, char* const argv[], char* const envp[]) {
  if (!on()) return REAL(posix_spawnp)(pid, f, fa, at, argv, envp);
  return sim_spawn(pid, f, fa, at, argv, envp, true);
}
EXPORT int posix_spawn(pid_t* pid, const char* f, const posix_spawn_file_actions_t* fa, const posix_spawnattr_t* at, char* const argv[], char* const envp[]) {
  if (!on()) return REAL(posix_spawn)(pid, f, fa, at, argv, envp);
  return sim_spawn(pid, f, fa, at, argv, envp, false);
}
EXPORT int pidfd_spawnp(int*, const char*, const posix_spawn_file_actions_t*, const posix_spawnattr_t*, char* const[], char* const[]) { return ENOSYS; }
EXPORT pid_t pidfd_getpid(int) { return seterr(ENOSYS); }

static int g_child_pipe = -1;
static void ship(int fd, const string& s) { u32 n = s.size(); raw_write_all(fd, &n, 4); raw_write_all(fd, s.data(), n); }
static string unship(int fd) { u32 n; if (!raw_read_all(fd, &n, 4)) raw6(SYS_exit_group, 95); string s(n, 0); if (n && !raw_read_all(fd, &s[0], n)) raw6(SYS_exit_group, 95); return s; }
static void ship_writes(int fd) { ship(fd, std::to_string(g_cw.size())); for (auto& w : g_cw) { ship(fd, string((char*)&w.o, sizeof w.o)); ship(fd, w.d); } }
// fork(): the copy runs the code between fork and exec on its own copy of the simulated state; what it
// ends in (exec or exit, its descriptor table, what it wrote) is then applied atomically here.
EXPORT pid_t fork(void) {
  if (!on()) return REAL(fork)();
  yield_pt("fork");
  if (int e = fault("fork")) return seterr(e);
  if (k_nproc > 0 && live_children() >= k_nproc) { g_soft["nproc"]++; logf("FAULT nproc 0 11 x"); return seterr(EAGAIN); }
  int pp[2];
  raw6(SYS_pipe2, (long)pp, O_CLOEXEC);
  static auto rf = real<pid_t (*)()>("fork");
  pid_t r = rf();
  if (r == 0) { g_in_child = true; g_child_pipe = pp[1]; g_cw.clear(); return 0; }
  raw6(SYS_close, pp[1]);
  string kind = unship(pp[0]);
  int pid = g_nextpid++;
  int nw = atoi(unship(pp[0]).c_str());
  vector<ChildWrite> ws;
  for (int i = 0; i < nw; i++) { string o = unship(pp[0]); string d = unship(pp[0]); ws.push_back({*(OFD**)o.data(), d}); }
  Proc* p;
  if (kind == "exec") {
    string prog = unship(pp[0]), cw = unship(pp[0]), dfl = unship(pp[0]);
    vector<string> av, ev;
    int n = atoi(unship(pp[0]).c_str()); for (int i = 0; i < n; i++) av.push_back(unship(pp[0]));
    n = atoi(unship(pp[0]).c_str()); for (int i = 0; i < n; i++) ev.push_back(unship(pp[0]));
    p = mkproc(pid, g_pid, prog, av, ev, *(Node**)cw.data(), dfl == "1", "fork");
    n = atoi(unship(pp[0]).c_str());
    for (int i = 0; i < n; i++) { int fd = atoi(unship(pp[0]).c_str()); string o = unship(pp[0]); fd_set_ent(p->fds, fd, *(OFD**)o.data(), false); }
    for (auto& w : ws) do_write(w.o, w.d.data(), w.d.size(), proc_name(p), -1);
    log_spawn(p, "fork");
  } else {
    int code = atoi(unship(pp[0]).c_str());
    p = mkproc(pid, g_pid, "", {}, {}, g_cwd, true, "fork");
    for (auto& w : ws) do_write(w.o, w.d.data(), w.d.size(), proc_name(p), -1);
    p->stillborn = true;
    logf("FORKFAIL %d %d", pid, code);
    proc_exit(p, code);
  }
  raw6(SYS_close, pp[0]);
  int st; raw6(SYS_wait4, r, (long)&st, 0, 0);
  return pid;
}
EXPORT pid_t vfork(void) { return fork(); }
static int do_exec(const char* file, char* const argv[], char* const envp[], bool search) {
  yield_pt("exec");
  if (int e = fault("exec", file)) return seterr(e);
  string prog;
  // execvp searches the PATH of the environment in force
  int err = find_prog(file, search ? path_of_env() : "", g_cwd, &prog);
  if (!err && too_big(argv, envp)) err = E2BIG;
  if (err) { trace("exec %s -> %d", file, err); return seterr(err); }
  vector<string> av = cvec(argv), ev = cvec(envp);
  if (g_in_child) {
    int fd = g_child_pipe;
    ship(fd, "exec"); ship_writes(fd);
    ship(fd, prog); ship(fd, string((char*)&g_cwd, sizeof g_cwd)); ship(fd, g_sigpipe_ign ? "0" : "1");
    ship(fd, std::to_string(av.size())); for (auto& s : av) ship(fd, s);
    ship(fd, std::to_string(ev.size())); for (auto& s : ev) ship(fd, s);
    int n = 0; for (auto& e : g_fds) if (!e.second.cloexec) n++;
    ship(fd, std::to_string(n));
    for (auto& e : g_fds) if (!e.second.cloexec) { ship(fd, std::to_string(e.first)); ship(fd, string((char*)&e.second.o, sizeof(OFD*))); }
    raw6(SYS_exit_group, 0);
  }
  Proc* p = mkproc(g_pid, 1, prog, av, ev, g_cwd, !g_sigpipe_ign, "exec");
  for (auto& e : g_fds) if (!e.second.cloexec) fd_set_ent(p->fds, e.first, e.second.o, false);
  log_spawn(p, "exec");
  g_execd = p;
  finish("EXEC", 0);
}
EXPORT int execvp(const char* f, char* const argv[]) { if (!on()) return REAL(execvp)(f, argv); return do_exec(f, argv, environ, true); }
EXPORT int execv(const char* f, char* const argv[]) { if (!on()) return REAL(execv)(f, argv); return do_exec(f, argv, environ, false); }
EXPORT int execve(const char* f, char* const argv[], char* const envp[]) { if (!on()) return REAL(execve)(f, argv, envp); return do_exec(f, argv, envp, false); }
EXPORT int execvpe(const char* f, char* const argv[], char* const envp[]) { if (!on()) return REAL(execvpe)(f, argv, envp); return do_exec(f, argv, envp, true); }
static Proc* find_child(pid_t pid) {
  Proc* any = nullptr;
  for (auto p : g_procs) {
    if (p->ppid != g_pid || p->reaped || p->external) continue;
    if (pid > 0 && p->pid == pid) return p;
    if (pid <= 0) { if (p->dead) return p; if (!any) any = p; }
  }
  return any;
}
static pid_t sim_wait(pid_t pid, int* st, int opts, bool nowait = false) {
  yield_pt("wait");
  Proc* p = find_child(pid);
  // (std asserts that the wait for a copy that could not exec succeeds)
  if (!(p && p->stillborn)) if (int e = fault("wait")) return seterr(e);
  if (!p) return seterr(ECHILD);
  if (!p->dead) {
    if (opts & WNOHANG) return 0;
    if (soft_eintr("wait")) return seterr(EINTR);
    block([pid] { Proc* q = find_child(pid); return !q || q->dead; });
    p = find_child(pid);
    if (!p) return seterr(ECHILD);
  }
  if (!nowait) { p->reaped = true; logf("REAP %d %d", p->pid, p->status); }
  if (st) *st = p->status;
  return p->pid;
}
EXPORT pid_t waitpid(pid_t pid, int* st, int opts) { if (!on()) { long r = raw6(SYS_wait4, pid, (long)st, opts, 0); return r < 0 ? seterr(-r) : r; } return sim_wait(pid, st, opts); }
EXPORT pid_t wait(int* st) { return waitpid(-1, st, 0); }
EXPORT pid_t wait4(pid_t pid, int* st, int opts, struct rusage* u) { if (u) memset(u, 0, sizeof *u); return waitpid(pid, st, opts); }
EXPORT int waitid(idtype_t t, id_t id, siginfo_t* si, int opts) {
  if (!on()) { long r = raw6(SYS_waitid, t, id, (long)si, opts, 0); return r < 0 ? seterr(-r) : (int)r; }
  if (t != P_PID && t != P_ALL) return seterr(EINVAL);
  int st = 0; pid_t r = sim_wait(t == P_ALL ? -1 : (pid_t)id, &st, opts & WNOHANG, opts & WNOWAIT);
  if (r < 0) return -1;
  if (si) { memset(si, 0, sizeof *si); if (r > 0) { si->si_pid = r; si->si_signo = SIGCHLD; si->si_code = WIFEXITED(st) ? CLD_EXITED : CLD_KILLED; si->si_status = WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st); } }
  return 0;
}
EXPORT int kill(pid_t pid, int sig) {
  if (!on()) { long r = raw6(SYS_kill, pid, sig); return r < 0 ? seterr(-r) : (int)r; }
  yield_pt("kill");
  if (pid == g_pid) finish("SIGNAL", sig);
  for (auto p : g_procs) if (p->pid == pid && !p->reaped) { logf("KILL %d %d", pid, sig); if (sig && !p->dead) proc_exit(p, sig & 127); return 0; }
  return seterr(ESRCH);
}
EXPORT int raise(int sig) { if (!on()) { raw6(SYS_tkill, raw6(SYS_gettid), sig); return 0; } finish("SIGNAL", sig); }
EXPORT pid_t getpid(void) { if (!on()) return raw6(SYS_getpid); return g_pid; }
EXPORT pid_t getppid(void) { if (!on()) return raw6(SYS_getppid); return 1; }
EXPORT pid_t gettid(void) { if (!on()) return raw6(SYS_gettid); return 5000 + (self ? self->id : 0); }
EXPORT pid_t setsid(void) { if (!on()) return (pid_t)raw6(SYS_setsid); return g_pid; }
EXPORT int setpgid(pid_t, pid_t) { return 0; }
EXPORT int chroot(const char*) { return seterr(EPERM); }
static void child_exit(int st) { int fd = g_child_pipe; ship(fd, "exit"); ship_writes(fd); ship(fd, std::to_string(st)); raw6(SYS_exit_group, 0); }
EXPORT void exit(int c) {
  if (!on()) { real<void (*)(int)>("exit")(c); __builtin_unreachable(); }
  if (g_in_child) child_exit((c & 255) << 8);
  yield_pt("exit");
  finish("EXIT", c & 255);
}
EXPORT void _exit(int c) {
  if (!on()) { raw6(SYS_exit_group, c); __builtin_unreachable(); }
  if (g_in_child) child_exit((c & 255) << 8);
  finish("EXIT", c & 255);
}
EXPORT void _Exit(int c) { _exit(c); }
EXPORT void abort(void) {
  if (!on()) { raw6(SYS_tkill, raw6(SYS_gettid), SIGABRT); raw6(SYS_exit_group, 134); __builtin_unreachable(); }
  if (g_in_child) child_exit(SIGABRT);
  finish("ABORT", SIGABRT);
}

// ------------------------------------------------------------------ interposed: signals
EXPORT int sigaction(int sig, const struct sigaction* a, struct sigaction* o) {
  if (on() && (sig == SIGPIPE || sig == SIGCHLD)) {
    bool& ign = sig == SIGPIPE ? g_sigpipe_ign : g_sigchld_ign;
    if (o) { memset(o, 0, sizeof *o); o->sa_handler = ign ? SIG_IGN : SIG_DFL; }
    if (a) ign = a->sa_handler == SIG_IGN;
    return 0;
  }
  return REAL(sigaction)(sig, a, o);
}
EXPORT sighandler_t signal(int sig, sighandler_t h) {
  if (on() && (sig == SIGPIPE || sig == SIGCHLD)) {
    bool& ign = sig == SIGPIPE ? g_sigpipe_ign : g_sigchld_ign;
    sighandler_t old = ign ? SIG_IGN : SIG_DFL; ign = h == SIG_IGN; return old;
  }
  return REAL(signal)(sig, h);
}
EXPORT int pause(void) { if (!on()) return (int)raw6(SYS_pause); block([] { return false; }); return seterr(EINTR); }

// ------------------------------------------------------------------ interposed: threads and futexes
static pthread_key_t g_key;
static void thread_done(void* v) {
  Task* t = (Task*)v;
  if (g_finishing || !g_active || g_in_child) return;
  t->st = T_DONE;
  hmixs("tdone"); hmix(t->id);
  schedule(); // passes the token on
}
static void* thread_main(void* v) {
  Task* t = (Task*)v;
  self = t;
  await_grant(t);
  pthread_setspecific(g_key, t);
  return t->fn(t->arg);
}
EXPORT int pthread_create(pthread_t* pt, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
  static auto rc = real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
  if (!on()) return rc(pt, at, fn, arg);
  yield_pt("thread");
  if (int e = fault("thread")) return e;
  Task* t = mktask(true);
  t->fn = fn; t->arg = arg;
  int r = rc(&t->pt, at, thread_main, t);
  if (r) { t->st = T_DONE; return r; }
  *pt = t->pt;
  logf("THREAD %d", t->id);
  return 0;
}
EXPORT int pthread_join(pthread_t pt, void** ret) {
  static auto rj = real<int (*)(pthread_t, void**)>("pthread_join");
  if (!on()) return rj(pt, ret);
  yield_pt("join");
  Task* t = nullptr;
  for (auto x : g_tasks) if (x->is_thread && !x->detached && x->pt == pt && x->id != 0) t = x; // latest with this handle
  if (t) { block([t] { return t->st == T_DONE; }); t->detached = true; }
  return rj(pt, ret);
}
EXPORT int pthread_detach(pthread_t pt) {
  static auto rd = real<int (*)(pthread_t)>("pthread_detach");
  if (on()) for (auto it = g_tasks.rbegin(); it != g_tasks.rend(); ++it) if ((*it)->is_thread && (*it)->pt == pt && (*it)->id != 0) { (*it)->detached = true; break; }
  return rd(pt);
}
EXPORT int sched_yield(void) { if (!on()) return (int)raw6(SYS_sched_yield); yield_pt("yield"); return 0; }
struct Waiter { u32* a; Task* t; u32 mask; };
static vector<Waiter> g_waiters;
static long sim_futex(u32* a, int op, u32 val, const struct timespec* ts, u32 mask) {
  int cmd = op & 127;
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    yield_pt("fwait");
    if (__atomic_load_n(a, __ATOMIC_SEQ_CST) != val) return seterr(EAGAIN);
    if (soft_eintr("futex")) return seterr(EINTR);
    if (k_spur > 0 && decide(2, [&]() -> u32 { return g_rng.chance(k_spur); })) { g_soft["futex_spurious"]++; return 0; }
    i64 dl = -1;
    if (ts) { i64 v = (i64)ts->tv_sec * 1000000000 + ts->tv_nsec; dl = cmd == FUTEX_WAIT ? g_now + v : (op & FUTEX_CLOCK_REALTIME) ? v - WALL0 - g_wall : v - g_mono; if (dl < 0) dl = 0; }
    Task* me = self;
    me->futex_woken = false;
    g_waiters.push_back({a, me, cmd == FUTEX_WAIT ? ~0u : mask});
    block([me] { return me->futex_woken; }, dl);
    for (size_t i = 0; i < g_waiters.size(); i++) if (g_waiters[i].t == me) { g_waiters.erase(g_waiters.begin() + i); break; }
    if (me->futex_woken) return 0;
    return seterr(ETIMEDOUT);
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    long n = 0;
    for (auto& w : g_waiters) { if (n >= (long)(int)val) break; if (w.a == a && !w.t->futex_woken && (w.mask & (cmd == FUTEX_WAKE ? ~0u : mask))) { w.t->futex_woken = true; n++; } }
    yield_pt("fwake");
    return n;
  }
  return seterr(ENOSYS);
}
static ssize_t sim_random(void* b, size_t n) { unsigned char* c = (unsigned char*)b; for (size_t i = 0; i < n; i++) c[i] = g_entropy.next() >> 24; g_soft["entropy"]++; return n; }
EXPORT long syscall(long n, ...) {
  va_list ap; va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (on()) switch (n) {
    case SYS_futex: return sim_futex((u32*)a, (int)b, (u32)c, (const struct timespec*)d, (u32)f);
    case SYS_getrandom: return sim_random((void*)a, b);
    case SYS_gettid: return gettid();
    case SYS_getpid: return g_pid;
    case SYS_statx: return statx(a, (const char*)b, c, d, (struct statx*)e);
    case SYS_close_range: return close_range(a, b, c);
    case SYS_copy_file_range: case SYS_pidfd_open: case SYS_clone3: case SYS_memfd_create: return seterr(ENOSYS);
    case SYS_exit_group: _exit(a);
    default: break;
  }
  long r = raw6(n, a, b, c, d, e, f);
  return r < 0 && r > -4096 ? seterr(-r) : r;
}
EXPORT ssize_t getrandom(void* b, size_t n, unsigned) { if (!on()) { long r = raw6(SYS_getrandom, (long)b, n, 0); return r < 0 ? seterr(-r) : r; } return sim_random(b, n); }
EXPORT int getentropy(void* b, size_t n) { return getrandom(b, n, 0) == (ssize_t)n ? 0 : -1; }

// ------------------------------------------------------------------ interposed: time
EXPORT int clock_gettime(clockid_t c, struct timespec* ts) {
  if (!on()) { long r = raw6(SYS_clock_gettime, c, (long)ts); return r < 0 ? seterr(-r) : 0; }
  i64 t = g_now;
  if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) {
    // the wall clock jumps, in both directions
    if (knobf("walljump", 0) > 0) { u32 v = decide(4, [&]() -> u32 { return g_rng.chance(knobf("walljump", 0)) ? 1 + g_rng.below(3) : 0; }); static const i64 j[] = {0, 3600000000000ll, -7200000000000ll, 500000000ll}; if (v) { g_wall += j[v]; g_soft["walljump"]++; } }
    t += WALL0 + g_wall;
  } else t += g_mono;
  ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000;
  return 0;
}
EXPORT int gettimeofday(struct timeval* tv, void*) { struct timespec ts; int r = clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return r; }
EXPORT time_t time(time_t* p) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (p) *p = ts.tv_sec; return ts.tv_sec; }
static int sim_sleep(clockid_t clk, int flags, const struct timespec* rq, struct timespec* rm) {
  yield_pt("sleep");
  i64 v = rq->tv_sec > 9000000000ll ? 9000000000000000000ll : (i64)rq->tv_sec * 1000000000 + rq->tv_nsec;
  if (rq->tv_nsec < 0 || rq->tv_nsec > 999999999 || rq->tv_sec < 0) return EINVAL;
  i64 end;
  if (flags & TIMER_ABSTIME) end = clk == CLOCK_REALTIME ? v - WALL0 - g_wall : v - g_mono;
  else end = v > 4000000000000000000ll - g_now ? 4000000000000000000ll : g_now + v;
  if (end < g_now) end = g_now;
  logf("SLEEP %ld %ld", (long)g_now, (long)(end - g_now));
  bool intr = soft_eintr("sleep");
  i64 wake = end;
  if (intr && end > g_now) { u32 q = decide(8, [&]() { return g_rng.below(8); }); wake = g_now + (end - g_now) / 8 * q; }
  block([] { return false; }, wake);
  if (intr) {
    i64 left = end - g_now; if (left < 0) left = 0;
    if (rm && !(flags & TIMER_ABSTIME)) { rm->tv_sec = left / 1000000000; rm->tv_nsec = left % 1000000000; }
    return EINTR;
  }
  logf("WAKE %ld", (long)g_now);
  return 0;
}
EXPORT int clock_nanosleep(clockid_t c, int fl, const struct timespec* rq, struct timespec* rm) { if (!on()) return (int)-raw6(SYS_clock_nanosleep, c, fl, (long)rq, (long)rm); return sim_sleep(c, fl, rq, rm); }
EXPORT int nanosleep(const struct timespec* rq, struct timespec* rm) { if (!on()) { long r = raw6(SYS_nanosleep, (long)rq, (long)rm); return r < 0 ? seterr(-r) : 0; } int e = sim_sleep(CLOCK_MONOTONIC, 0, rq, rm); return e ? seterr(e) : 0; }
EXPORT int usleep(useconds_t u) { struct timespec t = {(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return nanosleep(&t, nullptr); }
EXPORT unsigned sleep(unsigned s) { struct timespec t = {(time_t)s, 0}; nanosleep(&t, nullptr); return 0; }

// ------------------------------------------------------------------ scenario and fork server
struct Reader {
  const string& b; size_t i = 0;
  string s() { u32 n; memcpy(&n, b.data() + i, 4); i += 4; string r = b.substr(i, n); i += n; return r; }
  long n() { return atol(s().c_str()); }
};
static Node* mkpath(const string& path, char type) {
  Node* cur = g_root; size_t i = 0; vector<string> parts;
  while (i < path.size()) { while (i < path.size() && path[i] == '/') i++; size_t j = i; while (j < path.size() && path[j] != '/') j++; if (j > i) parts.push_back(path.substr(i, j - i)); i = j; }
  for (size_t k = 0; k < parts.size(); k++) {
    bool last = k + 1 == parts.size();
    auto it = cur->kids.find(parts[k]);
    Node* n;
    if (it == cur->kids.end()) { n = mknode(last ? type : 'd'); n->parent = cur; cur->kids[parts[k]] = n; }
    else n = it->second;
    cur = n;
  }
  return cur;
}
static vector<char*> g_argv;
static OFD* stdio_spec(const string& spec, int fd, std::map<string, Pipe*>& named) {
  // pipe:NAME | file:PATH[:a] | null | full | none
  if (spec == "none") return nullptr;
  bool out = fd != 0;
  if (spec.compare(0, 5, "pipe:") == 0) {
    string nm = spec.substr(5);
    Pipe*& p = named[nm];
    if (!p) { p = mkpipe(); }
    return mkofd(out ? 'w' : 'r', p, nullptr, out ? O_WRONLY : O_RDONLY);
  }
  if (spec.compare(0, 5, "file:") == 0) return mkofd('f', nullptr, mkpath(spec.substr(5), 'f'), out ? O_WRONLY : O_RDONLY);
  if (spec.compare(0, 7, "append:") == 0) { return mkofd('f', nullptr, mkpath(spec.substr(7), 'f'), O_WRONLY | O_APPEND); }
  if (spec == "full") return mkofd('f', nullptr, mkpath("/dev/full", 'F'), O_WRONLY);
  return mkofd('f', nullptr, mkpath("/dev/null", 'n'), out ? O_WRONLY : O_RDONLY);
}
static void load(const string& blob) {
  Reader r{blob};
  u64 seed = strtoull(r.s().c_str(), nullptr, 10), ent = strtoull(r.s().c_str(), nullptr, 10);
  g_rng.seed(seed); g_entropy.seed(ent ^ 0xabcdef);
  // what else differs from one machine and run to the next
  g_pid = 100 + (int)((ent >> 3) % 30000); g_nextpid = g_pid + 1; g_wall = (i64)(ent % 100000007) * 999999937; g_mono = (i64)(ent % 1000003) * 1000003;
  for (long n = r.n(); n > 0; n--) { string k = r.s(); g_knobs[k] = r.s(); }
  k_eintr = knobf("eintr", 0); k_short = knobf("short", 0); k_chunk = knobf("chunk", 0); k_stall = knobf("stall", 0); k_dtunk = knobf("dtunknown", 0); k_spur = knobf("spurious", 0);
  k_pipecap = knobi("pipecap", 65536); k_nofile = knobi("nofile", 1024); k_nproc = knobi("nproc", 0); k_strategy = knobi("strategy", 0); k_maxsteps = knobi("maxsteps", 400000); k_trace = knobi("trace", 0);
  g_record = knobi("record", 0); g_replay = knobi("replay", 0);
  for (long n = r.n(); n > 0; n--) { u32 k = r.n(); g_choices[k] = r.n(); }
  g_root = mknode('d'); g_root->parent = g_root;
  vector<string> av; for (long n = r.n(); n > 0; n--) av.push_back(r.s());
  clearenv(); for (long n = r.n(); n > 0; n--) { string e = r.s(); putenv(strdup(e.c_str())); }
  string cwd = r.s();
  mkpath("/dev/null", 'n'); mkpath("/dev/full", 'F');
  for (long n = r.n(); n > 0; n--) {
    string t = r.s(), path = r.s(), data = r.s(), perm = r.s();
    Node* nd = mkpath(path, t[0] == 'x' ? 'f' : t[0]);
    if (t[0] == 'x') nd->prog = data; else nd->data = data;
    nd->perm = perm;
  }
  g_cwd = mkpath(cwd, 'd');
  for (long n = r.n(); n > 0; n--) {
    string name = r.s(); auto& ops = g_progs[name];
    for (long k = r.n(); k > 0; k--) { Op o; for (long m = r.n(); m > 0; m--) o.push_back(r.s()); ops.push_back(o); }
  }
  std::map<string, Pipe*> named;
  for (int fd = 0; fd < 3; fd++) { string spec = r.s(); OFD* o = stdio_spec(spec, fd, named); if (o) fd_set_ent(g_fds, fd, o, false); }
  { auto a = g_fds.find(1), b = g_fds.find(2); (void)a; (void)b; }
  Task* t0 = mktask(true); (void)t0;
  for (long n = r.n(); n > 0; n--) { // external actors: prog, then (fd, pipe name, r|w)*
    string prog = r.s();
    Proc* p = mkproc(10 + (int)g_procs.size(), 1, prog, {prog}, {}, g_root, true, "ext");
    p->external = true;
    for (long k = r.n(); k > 0; k--) { int fd = r.n(); string nm = r.s(), dir = r.s(); Pipe*& q = named[nm]; if (!q) q = mkpipe(); fd_set_ent(p->fds, fd, mkofd(dir[0], q, nullptr, dir[0] == 'r' ? O_RDONLY : O_WRONLY), false); }
  }
  for (long n = r.n(); n > 0; n--) { Fault f; f.cls = r.s(); f.nth = r.n(); f.count = r.n(); f.err = r.n(); f.path = r.s(); g_faults.push_back(f); }
  for (auto& s : av) g_argv.push_back(strdup(s.c_str()));
  g_argv.push_back(nullptr);
  g_cur = g_tasks[0];
  for (auto p : g_procs) log_spawn(p, "ext");
  for (int fd = 0; fd < 3; fd++) if (hfd(fd)) logf("STDIO %d %d %c", fd, ofd_oid(hfd(fd)), hfd(fd)->kind);
}
static int (*g_main)(int, char**, char**);
static const int RQ = 3, RS = 4;
static int server_main(int argc, char** argv, char** envp) {
  if (!getenv("HUSHSIM")) return g_main(argc, argv, envp);
  g_log = (char*)mmap(nullptr, LOGCAP, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  raw6(SYS_fcntl, RQ, F_DUPFD, 700); raw6(SYS_fcntl, RS, F_DUPFD, 701);
  raw6(SYS_close, RQ); raw6(SYS_close, RS);
  static auto rf = real<pid_t (*)()>("fork");
  for (;;) {
    u32 n;
    if (!raw_read_all(700, &n, 4)) raw6(SYS_exit_group, 0);
    string blob(n, 0);
    if (!raw_read_all(700, &blob[0], n)) raw6(SYS_exit_group, 0);
    LogHdr* h = (LogHdr*)g_log; h->len = 0; h->truncated = 0;
    pid_t pid = rf();
    if (pid == 0) {
      raw6(SYS_close, 700); raw6(SYS_close, 701);
      raw6(SYS_prctl, 1 /*PR_SET_PDEATHSIG*/, SIGKILL);
      struct rlimit rl = {20, 22}; raw6(SYS_setrlimit, RLIMIT_CPU, (long)&rl);
      struct rlimit rc = {0, 0}; raw6(SYS_setrlimit, RLIMIT_CORE, (long)&rc);
      pthread_key_create(&g_key, thread_done);
      load(blob);
      self = g_tasks[0]; self->pt = pthread_self();
      g_active = true;
      int rcode = g_main((int)g_argv.size() - 1, g_argv.data(), environ);
      exit(rcode);
    }
    int st = 0;
    while (raw6(SYS_wait4, pid, (long)&st, 0, 0) == -EINTR) {}
    u64 hdr[3] = {(u64)(u32)st, h->len, h->truncated};
    raw_write_all(701, hdr, sizeof hdr);
    raw_write_all(701, g_log + sizeof(LogHdr), h->len);
  }
}
EXPORT int __libc_start_main(int (*m)(int, char**, char**), int argc, char** argv, void (*init)(void), void (*fini)(void), void (*rtld_fini)(void), void* stack_end) {
  typedef int (*F)(int (*)(int, char**, char**), int, char**, void (*)(void), void (*)(void), void (*)(void), void*);
  g_main = m;
  F f = (F)dlsym(RTLD_NEXT, "__libc_start_main");
  return f(server_main, argc, argv, init, fini, rtld_fini, stack_end);
}
