// tsim: deterministic discrete-event simulator that runs every MPI rank of a
// tempestmodel program as a coroutine in this one process.
//
//   * each rank is a private copy (dlopen of its own memfd) of the program;
//   * MPI, file I/O, clocks, rand and malloc are implemented here;
//   * every choice (delay, stall, protocol, reduction order, fault) is a pure
//     function of (seed, logical identity of the event) or is listed
//     explicitly in the plan, so one plan is one exactly repeatable execution.
//
// usage: tsim PLAN    (see lib/sim.py for the plan format; result is JSON)
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <dlfcn.h>
#include <exception>
#include <execinfo.h>
#include <fcntl.h>
#include <map>
#include <unordered_map>
#include <cmath>
#include <set>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <typeinfo>
#include <unistd.h>
#include <unordered_map>
#include <vector>
#include <deque>
#include <queue>
#include "include/mpi.h"

typedef uint64_t u64;
typedef int64_t i64;

extern "C" void *__libc_malloc(size_t);
extern "C" void __libc_free(void *);

// ---------------------------------------------------------------- state ----
static bool g_inrank = false;   // executing code under test
static int g_cur = -1;          // current rank

struct HostScope { bool s; int e; HostScope() : s(g_inrank), e(errno) { g_inrank = false; } ~HostScope() { g_inrank = s; } };

static inline u64 mix(u64 z) { z += 0x9e3779b97f4a7c15ULL; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
static inline u64 fnv(u64 h, const void *p, size_t n) { const unsigned char *c = (const unsigned char *)p; while (n >= 8) { u64 w; memcpy(&w, c, 8); h = (h ^ w) * 0x100000001b3ULL; h ^= h >> 29; c += 8; n -= 8; } while (n--) h = (h ^ *c++) * 0x100000001b3ULL; return h; }

// ------------------------------------------------------------- plan --------
struct IoFault { std::string op, path, action; long nth; long param; int persist; int rank; long seen; long fired; bool active; };
struct AllocFault { int rank; long nth; long minsize; int persist; long fired; };
struct ClockJump { int rank; long nth; long delta_us; long fired; };
struct KillMpi { int rank; long call; };
struct ExcFault { int rank; long call; };
static struct Plan {
	std::string prog, cwd, out, tracefile;
	int ranks; u64 seed; std::vector<std::string> args;
	std::map<std::string, double> pol;
	std::vector<IoFault> io; std::vector<AllocFault> alloc; std::vector<ClockJump> clockj;
	std::vector<KillMpi> killmpi;
	bool explicit_mode, record; long maxcalls; int wall;
	int fill; double fill_free; bool guard; int hook;
	i64 epoch_us; std::vector<i64> skew_us; std::vector<double> drift;
	long disk_budget; bool trace;
	bool iolog;
	Plan() : ranks(1), seed(1), explicit_mode(false), record(false), maxcalls(20000000), wall(120), fill(0), fill_free(0), guard(false), hook(0), epoch_us(1700000000000000LL), disk_budget(-1), trace(false), iolog(false) {}
} P;
static double pol(const char *k, double d) { std::map<std::string, double>::iterator i = P.pol.find(k); return i == P.pol.end() ? d : i->second; }
static struct Pol { double lat_p, lat_max, lat_tail_p, lat_tail, slow_p, slow_f, stall_p, stall_max, slowrank_p, slowrank, rndv_p, xfer_p, xfer_max, ack_p, ack_max, coll_p, coll_max, early_p, redperm_p, iostall_p, iostall_max, starve_p, starve_max; } Q;

struct PKey { char k; int a, b; long c; bool operator<(const PKey &o) const { if (k != o.k) return k < o.k; if (a != o.a) return a < o.a; if (b != o.b) return b < o.b; return c < o.c; } };
static std::map<PKey, long> g_pert;       // explicit perturbations
static std::vector<std::pair<PKey, long>> *g_rec; // recorded
static std::map<char, u64> g_pert_count;

static u64 Hk(char k, int a, int b, long c) { return mix(mix(mix(mix(P.seed * 2654435761ULL + (unsigned char)k) + (u64)(a + 7)) + (u64)(b + 13)) + (u64)c); }
static double Uk(char k, int a, int b, long c) { return (Hk(k, a, b, c) >> 11) * (1.0 / 9007199254740992.0); }
static double Uk2(char k, int a, int b, long c) { return (mix(Hk(k, a, b, c)) >> 11) * (1.0 / 9007199254740992.0); }
static long decide(char k, int a, int b, long c, long seeded) {
	if (P.explicit_mode) { PKey key = {k, a, b, c}; std::map<PKey, long>::iterator i = g_pert.find(key); long v = (i == g_pert.end()) ? 0 : i->second; if (v) g_pert_count[k]++; return v; }
	if (seeded) { g_pert_count[k]++; if (P.record) { PKey key = {k, a, b, c}; g_rec->push_back(std::make_pair(key, seeded)); } }
	return seeded;
}

// ----------------------------------------------------------- trace ---------
static u64 g_hash = 1469598103934665603ULL;   // every event
static u64 g_order = 1469598103934665603ULL;  // receive-completion order only
static FILE *g_trace;
static u64 g_now = 0;
static void ev(const char *tag, i64 a = 0, i64 b = 0, i64 c = 0, u64 d = 0) {
	i64 v[6] = {(i64)g_cur, a, b, c, (i64)d, (i64)g_now};
	g_hash = fnv(g_hash, tag, strlen(tag)); g_hash = fnv(g_hash, v, sizeof v);
	if (g_trace) fprintf(g_trace, "%12llu r%d %s %lld %lld %lld %016llx\n", (unsigned long long)g_now, g_cur, tag, (long long)a, (long long)b, (long long)c, (unsigned long long)d);
}
static std::vector<std::string> *g_viol;
static void viol(const char *fmt, ...) { HostScope hs; char b[512]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); if (g_viol->size() < 50) g_viol->push_back(b); ev("VIOL", 0, 0, 0, fnv(0, b, strlen(b))); }
static std::map<std::string, long> *g_fault;   // fault kind -> count
static void fault(const char *k) { (*g_fault)[k]++; }

// ------------------------------------------------------- coroutines --------
enum RState { RUN, BLOCK, DONE };
struct EhGlobals { void *caught; unsigned int uncaught; };
extern "C" EhGlobals *__cxa_get_globals();
struct Rank {
	void *sp; char *stack; size_t stksz; RState st; u64 ready; int id;
	EhGlobals eh; long calls; bool inited, finalized, dead; int code;
	long collno; long gtod; long allocs; int err; unsigned rnd; std::string blockop; long tests_failed;
	int (*mainf)(int, char **); std::vector<char *> argv; bool slow; long stallno;
	u64 mpi_calls, io_ops;
	u64 ordhash;
	long live, livemax, blocks, fin_live, fin_blocks, fin_fds, fin_reqs, st_live, st_blocks, st_fds, st_reqs, end_live, end_fds;
};
static std::vector<Rank> R;
static void *g_sched_sp;
extern "C" void tsim_switch(void **save, void *to);
asm(".text\n.globl tsim_switch\n.type tsim_switch,@function\ntsim_switch:\n"
    "pushq %rbp\npushq %rbx\npushq %r12\npushq %r13\npushq %r14\npushq %r15\n"
    "movq %rsp,(%rdi)\nmovq %rsi,%rsp\n"
    "popq %r15\npopq %r14\npopq %r13\npopq %r12\npopq %rbx\npopq %rbp\nret\n");

[[noreturn]] static void finish(const char *status, int code, const std::string &detail);
static int g_memfd = -1; static off_t g_outpos = 0;
struct OutSeg { int rank; off_t a, b; };
static std::vector<OutSeg> *g_seg;
static void flush_out(int rank) {
	fflush(stdout);
	off_t p = lseek(1, 0, SEEK_CUR);
	if (p > g_outpos) { if (!g_seg->empty() && g_seg->back().rank == rank) g_seg->back().b = p; else { OutSeg s = {rank, g_outpos, p}; g_seg->push_back(s); } g_outpos = p; }
}
static void to_sched() {  // called in rank context, inside HostScope
	Rank &r = R[g_cur];
	r.err = errno;
	EhGlobals *g = __cxa_get_globals(); r.eh = *g;
	tsim_switch(&r.sp, g_sched_sp);
	g = __cxa_get_globals(); *g = R[g_cur].eh; errno = R[g_cur].err;
}

// ---------------------------------------------------------- MPI core -------
struct Req { int id; bool send, done, active, userdone, freed; int owner, peer, tag, comm; char *buf; size_t len; u64 chk; bool persistent; MPI_Status st; bool cancelled; std::string *coll; long uid; };
struct Msg { int src, dst, tag, comm; long seq; size_t len; bool eager; std::string data; int sreq; bool arrived, matched; };
struct FdInfo { bool on; std::string path; bool wr; off_t size; int rank; };
static std::map<int, FdInfo> *g_fd;
static std::vector<Req *> g_req;
static std::deque<int> g_reqfree;
static long g_requid = 0;
struct Event { u64 t; u64 key; u64 n; int kind; long a, b; bool operator<(const Event &o) const { if (t != o.t) return t > o.t; if (key != o.key) return key > o.key; return n > o.n; } };
static std::priority_queue<Event> *g_ev;
static u64 g_evn = 0;
enum { E_ARRIVE, E_XFER, E_ACK };
static void push_ev(u64 t, int kind, long a, long b, u64 key) { Event e = {t, key, g_evn++, kind, a, b}; g_ev->push(e); }
static std::vector<Msg *> g_msg;
static std::vector<std::vector<std::deque<int>>> g_unexp_; // unused placeholder
static std::vector<std::deque<long>> g_unexp;   // per dst: arrived unmatched msg ids, arrival order
static std::vector<std::deque<int>> g_posted;   // per dst: posted recv req ids
static std::map<std::pair<int, int>, long> g_seq; static std::map<std::pair<int, int>, u64> g_lastarr;
static long g_nmsg = 0, g_nbytes = 0, g_ncoll = 0, g_nrndv = 0, g_unrecv = 0;
static int g_ncomm = 2;

static size_t tsize(MPI_Datatype t) {
	switch (t) {
	case MPI_CHAR: case MPI_SIGNED_CHAR: case MPI_UNSIGNED_CHAR: case MPI_BYTE: case MPI_C_BOOL: case MPI_CXX_BOOL: return 1;
	case MPI_SHORT: case MPI_UNSIGNED_SHORT: return 2;
	case MPI_INT: case MPI_UNSIGNED: case MPI_FLOAT: case MPI_INT32_T: case MPI_UINT32_T: return 4;
	case MPI_LONG: case MPI_UNSIGNED_LONG: case MPI_LONG_LONG: case MPI_UNSIGNED_LONG_LONG: case MPI_DOUBLE: case MPI_INT64_T: case MPI_UINT64_T: case MPI_2INT: return 8;
	case MPI_LONG_DOUBLE: case MPI_DOUBLE_INT: return 16;
	}
	return 1;
}
static long g_totalcalls = 0;
static void wake(int r, u64 t) { if (R[r].st == BLOCK) { R[r].st = RUN; if (R[r].ready < t) R[r].ready = t; } }
static void poison(char *b, size_t n, u64 s) { if (!n) return; memset(b, 0xFF, n); (void)s; }
static u64 poison_chk(size_t n) { static std::string p; if (p.size() < n) p.assign(n, (char)0xFF); return fnv(0, p.data(), n); }

static int newreq(bool send, int owner, int peer, int tag, int comm, void *buf, size_t len) {
	int id; if (!g_reqfree.empty() && g_reqfree.size() > 64) { id = g_reqfree.front(); g_reqfree.pop_front(); } else { id = (int)g_req.size(); g_req.push_back(new Req()); }
	Req *q = g_req[id]; *q = Req(); q->id = id; q->send = send; q->owner = owner; q->peer = peer; q->tag = tag; q->comm = comm; q->buf = (char *)buf; q->len = len; q->active = true; q->uid = g_requid++; q->st.MPI_SOURCE = MPI_ANY_SOURCE; q->st.MPI_TAG = MPI_ANY_TAG; q->st.MPI_ERROR = 0; return id;
}
static void relreq(int id) { Req *q = g_req[id]; q->active = false; g_reqfree.push_back(id); }

static bool matches(Req *q, Msg *m) { return q->comm == m->comm && (q->peer == MPI_ANY_SOURCE || q->peer == m->src) && (q->tag == MPI_ANY_TAG || q->tag == m->tag); }
static void do_match(int rid, long mid) {
	Req *q = g_req[rid]; Msg *m = g_msg[mid]; m->matched = true;
	q->st.MPI_SOURCE = m->src; q->st.MPI_TAG = m->tag;
	long x = 0; if (Q.xfer_p > 0 && Uk('X', m->src, m->dst, m->seq) < Q.xfer_p) x = 1 + (long)(Uk2('X', m->src, m->dst, m->seq) * Q.xfer_max);
	x = decide('X', m->src, m->dst, m->seq, x);
	push_ev(g_now + (m->eager ? 0 : 200) + x, E_XFER, rid, mid, Hk('k', m->src, m->dst, m->seq));
}
static void on_arrive(long mid) {
	Msg *m = g_msg[mid]; m->arrived = true; ev("arrive", m->src, m->dst, m->seq, m->len);
	std::deque<int> &pq = g_posted[m->dst];
	for (size_t i = 0; i < pq.size(); i++) if (matches(g_req[pq[i]], m)) { int rid = pq[i]; pq.erase(pq.begin() + i); do_match(rid, mid); return; }
	g_unexp[m->dst].push_back(mid); wake(m->dst, g_now);
}
static void on_xfer(int rid, long mid) {
	Req *q = g_req[rid]; Msg *m = g_msg[mid];
	const char *src; if (m->eager) src = m->data.data(); else src = g_req[m->sreq]->buf;
	if (!m->eager) { Req *s = g_req[m->sreq]; if (fnv(1, s->buf, s->len) != s->chk) viol("send-buffer-modified-in-flight: rank %d -> %d message #%ld (%zu bytes)", m->src, m->dst, m->seq, m->len); }
	if (m->len > q->len) { viol("message-truncated: rank %d -> %d message of %zu bytes into a receive of %zu", m->src, m->dst, m->len, q->len); q->st.MPI_ERROR = MPI_ERR_TRUNCATE; }
	if (q->len && fnv(0, q->buf, q->len) != poison_chk(q->len)) viol("receive-buffer-touched-in-flight: rank %d buffer for message from %d", m->dst, m->src);
	size_t n = std::min(m->len, q->len); if (n) memcpy(q->buf, src, n);
	q->st.tsim_bytes = m->len; q->done = true;
	u64 h = fnv(2, src, n); ev("deliver", m->src, m->dst, m->seq, h);
	if (!m->eager) {
		long a = 0; if (Q.ack_p > 0 && Uk('A', m->src, m->dst, m->seq) < Q.ack_p) a = 1 + (long)(Uk2('A', m->src, m->dst, m->seq) * Q.ack_max);
		a = decide('A', m->src, m->dst, m->seq, a);
		push_ev(g_now + 100 + a, E_ACK, m->sreq, g_req[m->sreq]->uid, Hk('k', m->src, m->dst, m->seq));
	}
	std::string().swap(m->data); g_unrecv--;
	wake(q->owner, g_now);
	delete m; g_msg[mid] = NULL;
}
static void on_ack(int sid, long uid) { Req *q = g_req[sid]; if (q->uid != uid) return; q->done = true; if (q->freed) { relreq(sid); return; } wake(q->owner, g_now); }

static bool prog_sched_point(const char *what);
// common entry of every MPI call and tracked I/O call: account, stall, yield
static void enter(const char *what, char kind) {
	Rank &r = R[g_cur]; r.calls++; g_totalcalls++;
	if (kind == 'M') r.mpi_calls++; else r.io_ops++;
	if (g_totalcalls > P.maxcalls) finish("steplimit", 98, what);
	u64 cost = 200; long s = 0; long no = r.calls;
	if (kind == 'M') { if (Q.stall_p > 0 && Uk('S', g_cur, 0, no) < Q.stall_p) s = 1 + (long)(Uk2('S', g_cur, 0, no) * Q.stall_max); if (r.slow) s += (long)Q.slowrank; }
	else { if (Q.iostall_p > 0 && Uk('S', g_cur, 0, no) < Q.iostall_p) s = 1 + (long)(Uk2('S', g_cur, 0, no) * Q.iostall_max); }
	if (Q.starve_p > 0 && Uk('V', g_cur, 0, no) < Q.starve_p) s += (long)(Uk2('V', g_cur, 0, no) * Q.starve_max);
	s = decide('S', g_cur, 0, no, s);
	for (size_t i = 0; i < P.killmpi.size(); i++) if (P.killmpi[i].rank == g_cur && P.killmpi[i].call == r.calls) { fault("kill"); ev("KILL", g_cur, r.calls); finish("killed", 137, std::string("killed at ") + what); }
	r.ready = std::max(r.ready, g_now) + cost + s; r.blockop = what;
	to_sched();
}
static void block(const char *op) { Rank &r = R[g_cur]; r.st = BLOCK; r.blockop = op; to_sched(); }
#define CHK(name) HostScope hs_; if (!R[g_cur].inited) viol("%s before MPI_Init on rank %d", name, g_cur); if (R[g_cur].finalized) viol("%s after MPI_Finalize on rank %d", name, g_cur);
static int csize(MPI_Comm c) { return c == MPI_COMM_SELF ? 1 : P.ranks; }
static int crank(MPI_Comm c) { return c == MPI_COMM_SELF ? 0 : g_cur; }
static int wrank(MPI_Comm c, int r) { return (c == MPI_COMM_SELF && r == 0) ? g_cur : r; }

static int do_isend(const void *b, size_t len, int dst, int tag, MPI_Comm c, int forced, const char *op) {
	if (dst == MPI_PROC_NULL) { int id = newreq(true, g_cur, dst, tag, c, (void *)b, 0); g_req[id]->done = true; return id; }
	dst = wrank(c, dst);
	if (dst < 0 || dst >= P.ranks) { viol("%s: invalid rank %d", op, dst); finish("mpierr", 96, "invalid rank"); }
	int id = newreq(true, g_cur, dst, tag, c, (void *)b, len); Req *q = g_req[id]; q->chk = fnv(1, b, len);
	std::pair<int, int> ch(g_cur, dst); long seq = ++g_seq[ch]; g_nmsg++; g_nbytes += len; g_unrecv++;
	long rv = forced; if (!forced) { rv = (Q.rndv_p > 0 && Uk('P', g_cur, dst, seq) < Q.rndv_p) ? 1 : 0; rv = decide('P', g_cur, dst, seq, rv); }
	Msg *m = new Msg(); m->src = g_cur; m->dst = dst; m->tag = tag; m->comm = c; m->seq = seq; m->len = len; m->eager = !rv; m->sreq = id; m->arrived = m->matched = false;
	if (m->eager) { m->data.assign((const char *)b, len); q->done = true; } else g_nrndv++;
	long mid = (long)g_msg.size(); g_msg.push_back(m);
	long l = 0; if (Q.lat_p > 0 && Uk('L', g_cur, dst, seq) < Q.lat_p) { double u = Uk2('L', g_cur, dst, seq); l = 1 + (long)(u * Q.lat_max); if (Q.lat_tail_p > 0 && Uk('t', g_cur, dst, seq) < Q.lat_tail_p) l = (long)(Q.lat_tail * (0.2 + u)); }
	if (Q.slow_p > 0 && Uk('W', g_cur, dst, 0) < Q.slow_p) l += (long)Q.slow_f;
	l = decide('L', g_cur, dst, seq, l);
	u64 arr = g_now + 1000 + l; u64 &la = g_lastarr[ch]; if (arr <= la) arr = la + 1; la = arr;
	ev(op, dst, tag, seq, q->chk); push_ev(arr, E_ARRIVE, mid, 0, Hk('k', g_cur, dst, seq));
	return id;
}
static int do_irecv(void *b, size_t len, int src, int tag, MPI_Comm c) {
	int id = newreq(false, g_cur, src, tag, c, b, len); Req *q = g_req[id];
	if (src == MPI_PROC_NULL) { q->done = true; q->len = 0; q->st.MPI_SOURCE = MPI_PROC_NULL; return id; }
	if (src != MPI_ANY_SOURCE) { q->peer = src = wrank(c, src); if (src < 0 || src >= P.ranks) { viol("MPI_Irecv: invalid rank %d", src); finish("mpierr", 96, "invalid rank"); } }
	poison(q->buf, len, 0); ev("irecv", src, tag, len);
	std::deque<long> &uq = g_unexp[g_cur];
	for (size_t i = 0; i < uq.size(); i++) if (matches(q, g_msg[uq[i]])) { long mid = uq[i]; uq.erase(uq.begin() + i); do_match(id, mid); return id; }
	g_posted[g_cur].push_back(id); return id;
}
// user-visible completion of a request
static void complete(MPI_Request *r, MPI_Status *s) {
	Req *q = g_req[*r];
	if (q->send && q->buf && q->len && fnv(1, q->buf, q->len) != q->chk) viol("send-buffer-modified-before-completion: rank %d send to %d (%zu bytes)", q->owner, q->peer, q->len);
	if (s) { *s = q->st; }
	if (!q->send) { i64 v[2] = {g_cur, q->st.MPI_SOURCE}; R[g_cur].ordhash = fnv(R[g_cur].ordhash, v, sizeof v); }
	ev("complete", q->send, q->send ? q->peer : q->st.MPI_SOURCE, q->tag);
	relreq(*r); *r = MPI_REQUEST_NULL;
}
static void nullstat(MPI_Status *s) { if (s) { memset(s, 0, sizeof *s); s->MPI_SOURCE = MPI_ANY_SOURCE; s->MPI_TAG = MPI_ANY_TAG; } }
static bool okreq(MPI_Request q, const char *op) { if (q == MPI_REQUEST_NULL) return false; if (q < 0 || q >= (int)g_req.size() || !g_req[q]->active || g_req[q]->owner != g_cur) { viol("%s: invalid request handle on rank %d", op, g_cur); finish("mpierr", 96, "invalid request"); } return true; }
static void poll_backoff() {
	Rank &r = R[g_cur]; r.tests_failed++;
	if (r.tests_failed < 64) return;
	// long poll loop: sleep until something happens for this rank (any event wakes it),
	// with a bounded nap so a loop that polls for something else still advances
	r.ready = g_now + (2000ULL << std::min<u64>(9, (r.tests_failed - 64) / 32));
	to_sched();
}

extern "C" {
int MPI_Init(int *, char ***) { HostScope hs; Rank &r = R[g_cur]; if (r.inited) viol("MPI_Init called twice on rank %d", g_cur); r.inited = true; enter("MPI_Init", 'M'); return 0; }
int MPI_Init_thread(int *a, char ***b, int, int *p) { if (p) *p = MPI_THREAD_SINGLE; return MPI_Init(a, b); }
int MPI_Initialized(int *f) { *f = R[g_cur].inited; return 0; }
int MPI_Finalized(int *f) { *f = R[g_cur].finalized; return 0; }
int MPI_Comm_rank(MPI_Comm c, int *r) { CHK("MPI_Comm_rank"); *r = crank(c); return 0; }
int MPI_Comm_size(MPI_Comm c, int *s) { CHK("MPI_Comm_size"); *s = csize(c); return 0; }
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return 0; }
int MPI_Errhandler_set(MPI_Comm, MPI_Errhandler) { return 0; }
int MPI_Get_processor_name(char *n, int *l) { *l = snprintf(n, MPI_MAX_PROCESSOR_NAME, "sim%d", g_cur); return 0; }
int MPI_Error_string(int e, char *s, int *l) { *l = snprintf(s, MPI_MAX_ERROR_STRING, "MPI error %d", e); return 0; }
int MPI_Type_size(MPI_Datatype t, int *s) { *s = (int)tsize(t); return 0; }
int MPI_Get_count(const MPI_Status *s, MPI_Datatype t, int *n) { size_t z = tsize(t); *n = (s->tsim_bytes % z) ? MPI_UNDEFINED : (int)(s->tsim_bytes / z); return 0; }
int MPI_Abort(MPI_Comm, int code) { HostScope hs; ev("abort", code); finish("abort", code ? code : 1, "MPI_Abort"); }

int MPI_Isend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r) { CHK("MPI_Isend"); enter("MPI_Isend", 'M'); *r = do_isend(b, n * tsize(t), d, tag, c, 0, "isend"); return 0; }
int MPI_Irsend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r) { return MPI_Isend(b, n, t, d, tag, c, r); }
int MPI_Issend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r) { CHK("MPI_Issend"); enter("MPI_Issend", 'M'); *r = do_isend(b, n * tsize(t), d, tag, c, 1, "issend"); return 0; }
int MPI_Irecv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request *r) { CHK("MPI_Irecv"); enter("MPI_Irecv", 'M'); *r = do_irecv(b, n * tsize(t), s, tag, c); return 0; }
static int wait1(MPI_Request *r, MPI_Status *s, const char *op) {
	if (!okreq(*r, op)) { nullstat(s); return 0; }
	while (!g_req[*r]->done) block(op);
	int e = g_req[*r]->st.MPI_ERROR; complete(r, s); return e;
}
int MPI_Send(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { CHK("MPI_Send"); enter("MPI_Send", 'M'); MPI_Request q = do_isend(b, n * tsize(t), d, tag, c, 0, "send"); return wait1(&q, 0, "MPI_Send"); }
int MPI_Rsend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return MPI_Send(b, n, t, d, tag, c); }
int MPI_Ssend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { CHK("MPI_Ssend"); enter("MPI_Ssend", 'M'); MPI_Request q = do_isend(b, n * tsize(t), d, tag, c, 1, "ssend"); return wait1(&q, 0, "MPI_Ssend"); }
int MPI_Recv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status *st) { CHK("MPI_Recv"); enter("MPI_Recv", 'M'); MPI_Request q = do_irecv(b, n * tsize(t), s, tag, c); return wait1(&q, st, "MPI_Recv"); }
int MPI_Sendrecv(const void *sb, int sn, MPI_Datatype stp, int d, int stag, void *rb, int rn, MPI_Datatype rt, int s, int rtag, MPI_Comm c, MPI_Status *st) { CHK("MPI_Sendrecv"); enter("MPI_Sendrecv", 'M'); MPI_Request q = do_irecv(rb, rn * tsize(rt), s, rtag, c); MPI_Request p = do_isend(sb, sn * tsize(stp), d, stag, c, 0, "sendrecv"); int e = wait1(&q, st, "MPI_Sendrecv"); wait1(&p, 0, "MPI_Sendrecv"); return e; }
int MPI_Wait(MPI_Request *r, MPI_Status *s) { CHK("MPI_Wait"); enter("MPI_Wait", 'M'); return wait1(r, s, "MPI_Wait"); }
int MPI_Waitall(int n, MPI_Request *r, MPI_Status *s) { CHK("MPI_Waitall"); enter("MPI_Waitall", 'M'); int e = 0; for (int i = 0; i < n; i++) { if (wait1(&r[i], s ? &s[i] : 0, "MPI_Waitall")) e = MPI_ERR_IN_STATUS; } return e; }
int MPI_Test(MPI_Request *r, int *f, MPI_Status *s) {
	CHK("MPI_Test"); enter("MPI_Test", 'M'); if (!okreq(*r, "MPI_Test")) { *f = 1; nullstat(s); return 0; }
	if (g_req[*r]->done) { R[g_cur].tests_failed = 0; int e = g_req[*r]->st.MPI_ERROR; *f = 1; complete(r, s); return e; }
	*f = 0; poll_backoff(); return 0;
}
int MPI_Testall(int n, MPI_Request *r, int *f, MPI_Status *s) {
	CHK("MPI_Testall"); enter("MPI_Testall", 'M'); bool all = true; for (int i = 0; i < n; i++) if (okreq(r[i], "MPI_Testall") && !g_req[r[i]]->done) all = false;
	*f = all; if (!all) { poll_backoff(); return 0; } R[g_cur].tests_failed = 0; for (int i = 0; i < n; i++) wait1(&r[i], s ? &s[i] : 0, "MPI_Testall"); return 0;
}
// choice among several completed requests is nondeterministic in MPI: seeded
static int pick(int n, MPI_Request *r, const char *op, bool &any) { std::vector<int> c; any = false; for (int i = 0; i < n; i++) if (okreq(r[i], op)) { any = true; if (g_req[r[i]]->done) c.push_back(i); } if (c.empty()) return -1; long k = decide('Y', g_cur, 0, R[g_cur].calls, c.size() > 1 && Q.lat_p > 0 ? (long)(Hk('Y', g_cur, 0, R[g_cur].calls) % c.size()) : 0); return c[k % c.size()]; }
int MPI_Testany(int n, MPI_Request *r, int *ix, int *f, MPI_Status *s) { CHK("MPI_Testany"); enter("MPI_Testany", 'M'); bool any; int i = pick(n, r, "MPI_Testany", any); if (!any) { *f = 1; *ix = MPI_UNDEFINED; nullstat(s); return 0; } if (i < 0) { *f = 0; *ix = MPI_UNDEFINED; poll_backoff(); return 0; } R[g_cur].tests_failed = 0; *f = 1; *ix = i; return wait1(&r[i], s, "MPI_Testany"); }
int MPI_Waitany(int n, MPI_Request *r, int *ix, MPI_Status *s) { CHK("MPI_Waitany"); enter("MPI_Waitany", 'M'); for (;;) { bool any; int i = pick(n, r, "MPI_Waitany", any); if (!any) { *ix = MPI_UNDEFINED; nullstat(s); return 0; } if (i >= 0) { *ix = i; return wait1(&r[i], s, "MPI_Waitany"); } block("MPI_Waitany"); } }
static int some(int n, MPI_Request *r, int *oc, int *ix, MPI_Status *s, const char *op) { int k = 0; bool any = false; for (int i = 0; i < n; i++) if (okreq(r[i], op)) { any = true; if (g_req[r[i]]->done) { ix[k] = i; wait1(&r[i], s ? &s[k] : 0, op); k++; } } *oc = any ? k : MPI_UNDEFINED; return any; }
int MPI_Testsome(int n, MPI_Request *r, int *oc, int *ix, MPI_Status *s) { CHK("MPI_Testsome"); enter("MPI_Testsome", 'M'); some(n, r, oc, ix, s, "MPI_Testsome"); if (*oc == 0) poll_backoff(); else R[g_cur].tests_failed = 0; return 0; }
int MPI_Waitsome(int n, MPI_Request *r, int *oc, int *ix, MPI_Status *s) { CHK("MPI_Waitsome"); enter("MPI_Waitsome", 'M'); for (;;) { some(n, r, oc, ix, s, "MPI_Waitsome"); if (*oc != 0) return 0; block("MPI_Waitsome"); } }
int MPI_Request_free(MPI_Request *r) { CHK("MPI_Request_free"); if (okreq(*r, "MPI_Request_free")) { if (g_req[*r]->done) relreq(*r); else g_req[*r]->freed = true; } *r = MPI_REQUEST_NULL; return 0; }
int MPI_Cancel(MPI_Request *) { return 0; }
static Msg *findmsg(int s, int tag, MPI_Comm c) { Req q; q.peer = s; q.tag = tag; q.comm = c; std::deque<long> &uq = g_unexp[g_cur]; for (size_t i = 0; i < uq.size(); i++) if (matches(&q, g_msg[uq[i]])) return g_msg[uq[i]]; return 0; }
static void mstat(Msg *m, MPI_Status *s) { if (s) { nullstat(s); s->MPI_SOURCE = m->src; s->MPI_TAG = m->tag; s->tsim_bytes = m->len; } }
int MPI_Iprobe(int s, int tag, MPI_Comm c, int *f, MPI_Status *st) { CHK("MPI_Iprobe"); enter("MPI_Iprobe", 'M'); Msg *m = findmsg(s, tag, c); *f = m != 0; if (m) { R[g_cur].tests_failed = 0; mstat(m, st); } else poll_backoff(); return 0; }
int MPI_Probe(int s, int tag, MPI_Comm c, MPI_Status *st) { CHK("MPI_Probe"); enter("MPI_Probe", 'M'); Msg *m; while (!(m = findmsg(s, tag, c))) block("MPI_Probe"); mstat(m, st); return 0; }
}

// ------------------------------------------------------ collectives --------
struct Coll { std::string op; int root, comm; std::vector<std::string> data; std::vector<bool> in; std::vector<bool> out; int nin, nout; MPI_Datatype t; MPI_Op mop; u64 lastin; };
static std::map<std::pair<int, long>, Coll *> g_coll;
template <class T> static void redT(T *a, const T *b, size_t n, MPI_Op op) { for (size_t i = 0; i < n; i++) switch (op) { case MPI_SUM: a[i] = a[i] + b[i]; break; case MPI_PROD: a[i] = a[i] * b[i]; break; case MPI_MAX: if (b[i] > a[i]) a[i] = b[i]; break; case MPI_MIN: if (b[i] < a[i]) a[i] = b[i]; break; case MPI_LAND: a[i] = a[i] && b[i]; break; case MPI_LOR: a[i] = a[i] || b[i]; break; default: break; } }
template <class T> static void redI(T *a, const T *b, size_t n, MPI_Op op) { if (op == MPI_BAND) for (size_t i = 0; i < n; i++) a[i] &= b[i]; else if (op == MPI_BOR) for (size_t i = 0; i < n; i++) a[i] |= b[i]; else redT(a, b, n, op); }
static void reduce_into(std::string &a, const std::string &b, MPI_Datatype t, MPI_Op op) {
	size_t n = a.size() / tsize(t); void *A = &a[0]; const void *B = b.data();
	switch (t) {
	case MPI_DOUBLE: redT((double *)A, (const double *)B, n, op); break;
	case MPI_FLOAT: redT((float *)A, (const float *)B, n, op); break;
	case MPI_INT: case MPI_INT32_T: redI((int *)A, (const int *)B, n, op); break;
	case MPI_UNSIGNED: case MPI_UINT32_T: redI((unsigned *)A, (const unsigned *)B, n, op); break;
	case MPI_LONG: case MPI_LONG_LONG: case MPI_INT64_T: redI((long *)A, (const long *)B, n, op); break;
	case MPI_UNSIGNED_LONG: case MPI_UNSIGNED_LONG_LONG: case MPI_UINT64_T: redI((unsigned long *)A, (const unsigned long *)B, n, op); break;
	case MPI_LONG_DOUBLE: redT((long double *)A, (const long double *)B, n, op); break;
	case MPI_DOUBLE_INT: { struct DI { double d; int i; }; DI *x = (DI *)A; const DI *y = (const DI *)B; for (size_t i = 0; i < n; i++) if ((op == MPI_MAXLOC && (y[i].d > x[i].d || (y[i].d == x[i].d && y[i].i < x[i].i))) || (op == MPI_MINLOC && (y[i].d < x[i].d || (y[i].d == x[i].d && y[i].i < x[i].i)))) x[i] = y[i]; break; }
	default: redI((unsigned char *)A, (const unsigned char *)B, n, op);
	}
}
// contribute and (unless allowed to leave early) wait for everyone
static Coll *coll_enter(const char *op, MPI_Comm c, int root, const void *b, size_t len, MPI_Datatype t, MPI_Op mop, bool mustwait) {
	enter(op, 'M'); Rank &r = R[g_cur]; int me = crank(c), n = csize(c);
	std::pair<int, long> key(c == MPI_COMM_SELF ? 1000 + g_cur : c, r.collno++);
	Coll *&k = g_coll[key];
	if (!k) { k = new Coll(); k->op = op; k->root = root; k->comm = c; k->data.resize(n); k->in.resize(n); k->out.resize(n); k->nin = k->nout = 0; k->t = t; k->mop = mop; g_ncoll++; }
	if (k->op != op || k->root != root || k->t != t || k->mop != mop) { viol("collective-mismatch: rank %d calls %s(root %d) where others call %s(root %d)", g_cur, op, root, k->op.c_str(), k->root); finish("mpierr", 96, "collective mismatch"); }
	k->data[me].assign((const char *)b, b ? len : 0); k->in[me] = true; k->nin++; ev(op, root, len, key.second, fnv(3, b, b ? len : 0));
	bool early = !mustwait && n > 1;
	if (early) { long e = (Q.early_p > 0 && Uk('E', g_cur, 0, key.second) < Q.early_p) ? 1 : 0; early = decide('E', g_cur, 0, key.second, e) != 0; }
	if (k->nin == n) { k->lastin = g_now; for (int i = 0; i < P.ranks; i++) if (i != g_cur && R[i].st == BLOCK && R[i].blockop == op) {
			long d = 0; if (Q.coll_p > 0 && Uk('C', i, 0, R[i].collno) < Q.coll_p) d = 1 + (long)(Uk2('C', i, 0, R[i].collno) * Q.coll_max);
			d = decide('C', i, 0, R[i].collno, d); wake(i, g_now + 500 + d); } }
	else if (!early) while (k->nin < n) block(op);
	return k;
}
static void coll_leave(Coll *k) { if (++k->nout == csize(k->comm)) { for (std::map<std::pair<int, long>, Coll *>::iterator i = g_coll.begin(); i != g_coll.end(); ++i) if (i->second == k) { g_coll.erase(i); break; } delete k; } }
static void do_reduce(Coll *k, std::string &res, long collno) {
	int n = (int)k->data.size(); std::vector<int> ord(n); for (int i = 0; i < n; i++) ord[i] = i;
	long p = 0; if (Q.redperm_p > 0 && Uk('R', 0, 0, collno) < Q.redperm_p) p = 1 + (long)(Hk('r', 0, 0, collno) & 0xffffff);
	p = decide('R', 0, 0, collno, p); if (p) { u64 z = p; for (int i = n - 1; i > 0; i--) { z = mix(z); std::swap(ord[i], ord[z % (i + 1)]); } }
	res = k->data[ord[0]]; for (int i = 1; i < n; i++) { if (k->data[ord[i]].size() != res.size()) { viol("collective-mismatch: %s contributions of %zu and %zu bytes", k->op.c_str(), res.size(), k->data[ord[i]].size()); continue; } reduce_into(res, k->data[ord[i]], k->t, k->mop); }
}
extern "C" {
int MPI_Barrier(MPI_Comm c) { CHK("MPI_Barrier"); coll_leave(coll_enter("MPI_Barrier", c, 0, 0, 0, 0, 0, true)); return 0; }
int MPI_Reduce(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) {
	CHK("MPI_Reduce"); int me = crank(c); const void *b = sb;
	if (sb == MPI_IN_PLACE) { if (me != root) viol("MPI_Reduce: MPI_IN_PLACE on non-root rank %d", g_cur); b = rb; } else if (me == root && sb == rb && n) viol("MPI_Reduce: aliased buffers on root %d", g_cur);
	long cn = R[g_cur].collno; Coll *k = coll_enter("MPI_Reduce", c, root, b, n * tsize(t), t, op, me == root);
	if (me == root) { std::string res; do_reduce(k, res, cn); if (res.size()) memcpy(rb, res.data(), res.size()); ev("reduced", n, 0, 0, fnv(4, res.data(), res.size())); } coll_leave(k); return 0;
}
int MPI_Allreduce(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
	CHK("MPI_Allreduce"); const void *b = sb == MPI_IN_PLACE ? rb : sb; long cn = R[g_cur].collno;
	Coll *k = coll_enter("MPI_Allreduce", c, 0, b, n * tsize(t), t, op, true); std::string res; do_reduce(k, res, cn); if (res.size()) memcpy(rb, res.data(), res.size()); ev("reduced", n, 0, 0, fnv(4, res.data(), res.size())); coll_leave(k); return 0;
}
int MPI_Scan(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
	CHK("MPI_Scan"); const void *b = sb == MPI_IN_PLACE ? rb : sb; int me = crank(c);
	Coll *k = coll_enter("MPI_Scan", c, 0, b, n * tsize(t), t, op, true); std::string res = k->data[0]; for (int i = 1; i <= me; i++) reduce_into(res, k->data[i], t, op); memcpy(rb, res.data(), res.size()); coll_leave(k); return 0;
}
int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c) {
	CHK("MPI_Bcast"); int me = crank(c); size_t len = n * tsize(t); Coll *k = coll_enter("MPI_Bcast", c, root, me == root ? b : 0, len, 0, 0, me != root);
	if (me != root) { if (k->data[root].size() != len) viol("collective-mismatch: MPI_Bcast length"); memcpy(b, k->data[root].data(), std::min(len, k->data[root].size())); } coll_leave(k); return 0;
}
int MPI_Gather(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, int root, MPI_Comm c) {
	CHK("MPI_Gather"); int me = crank(c), n = csize(c); size_t z = rn * tsize(rt); const void *b = sb == MPI_IN_PLACE ? (char *)rb + me * z : sb; size_t len = sb == MPI_IN_PLACE ? z : sn * tsize(st);
	Coll *k = coll_enter("MPI_Gather", c, root, b, len, 0, 0, me == root); if (me == root) for (int i = 0; i < n; i++) memcpy((char *)rb + i * z, k->data[i].data(), std::min(z, k->data[i].size())); coll_leave(k); return 0;
}
int MPI_Gatherv(const void *sb, int sn, MPI_Datatype st, void *rb, const int *rc, const int *dp, MPI_Datatype rt, int root, MPI_Comm c) {
	CHK("MPI_Gatherv"); int me = crank(c), n = csize(c); size_t z = tsize(rt); const void *b = sb == MPI_IN_PLACE ? (char *)rb + dp[me] * z : sb; size_t len = sb == MPI_IN_PLACE ? rc[me] * z : sn * tsize(st);
	Coll *k = coll_enter("MPI_Gatherv", c, root, b, len, 0, 0, me == root); if (me == root) for (int i = 0; i < n; i++) memcpy((char *)rb + dp[i] * z, k->data[i].data(), std::min((size_t)rc[i] * z, k->data[i].size())); coll_leave(k); return 0;
}
int MPI_Scatter(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, int root, MPI_Comm c) {
	CHK("MPI_Scatter"); int me = crank(c), n = csize(c); size_t z = sn * tsize(st); Coll *k = coll_enter("MPI_Scatter", c, root, me == root ? sb : 0, z * n, 0, 0, me != root);
	if (rb != MPI_IN_PLACE) { size_t y = rn * tsize(rt); const std::string &d = k->data[root]; memcpy(rb, d.data() + me * y, std::min(y, d.size() - me * y)); } coll_leave(k); return 0;
}
int MPI_Allgather(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, MPI_Comm c) {
	CHK("MPI_Allgather"); int me = crank(c), n = csize(c); size_t z = rn * tsize(rt); const void *b = sb == MPI_IN_PLACE ? (char *)rb + me * z : sb; size_t len = sb == MPI_IN_PLACE ? z : sn * tsize(st);
	Coll *k = coll_enter("MPI_Allgather", c, 0, b, len, 0, 0, true); for (int i = 0; i < n; i++) memcpy((char *)rb + i * z, k->data[i].data(), std::min(z, k->data[i].size())); coll_leave(k); return 0;
}
int MPI_Allgatherv(const void *sb, int sn, MPI_Datatype st, void *rb, const int *rc, const int *dp, MPI_Datatype rt, MPI_Comm c) {
	CHK("MPI_Allgatherv"); int me = crank(c), n = csize(c); size_t z = tsize(rt); const void *b = sb == MPI_IN_PLACE ? (char *)rb + dp[me] * z : sb; size_t len = sb == MPI_IN_PLACE ? rc[me] * z : sn * tsize(st);
	Coll *k = coll_enter("MPI_Allgatherv", c, 0, b, len, 0, 0, true); for (int i = 0; i < n; i++) memcpy((char *)rb + dp[i] * z, k->data[i].data(), std::min((size_t)rc[i] * z, k->data[i].size())); coll_leave(k); return 0;
}
int MPI_Alltoall(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, MPI_Comm c) {
	CHK("MPI_Alltoall"); int me = crank(c), n = csize(c); size_t z = sn * tsize(st), y = rn * tsize(rt); Coll *k = coll_enter("MPI_Alltoall", c, 0, sb, z * n, 0, 0, true); for (int i = 0; i < n; i++) memcpy((char *)rb + i * y, k->data[i].data() + me * z, std::min(y, z)); coll_leave(k); return 0;
}
int MPI_Comm_dup(MPI_Comm c, MPI_Comm *o) { CHK("MPI_Comm_dup"); std::string v((char *)&g_ncomm, sizeof(int)); Coll *k = coll_enter("MPI_Comm_dup", c, 0, &g_ncomm, sizeof(int), 0, 0, true); int id; memcpy(&id, k->data[csize(c) - 1].data(), sizeof id); if (id >= g_ncomm) g_ncomm = id + 1; *o = id; coll_leave(k); return 0; }
int MPI_Comm_free(MPI_Comm *c) { *c = MPI_COMM_NULL; return 0; }
int MPI_Finalize(void) {
	CHK("MPI_Finalize"); coll_leave(coll_enter("MPI_Finalize", MPI_COMM_WORLD, 0, 0, 0, 0, 0, true)); Rank &r = R[g_cur]; r.finalized = true;
	r.fin_live = r.live; r.fin_blocks = r.blocks; for (std::map<int, FdInfo>::iterator it = g_fd->begin(); it != g_fd->end(); ++it) if (it->second.rank == g_cur) r.fin_fds++; for (size_t i = 0; i < g_req.size(); i++) if (g_req[i]->active && g_req[i]->owner == g_cur) r.fin_reqs++;
	for (size_t i = 0; i < g_posted[g_cur].size(); i++) viol("receive-never-matched: rank %d from %d tag %d at MPI_Finalize", g_cur, g_req[g_posted[g_cur][i]]->peer, g_req[g_posted[g_cur][i]]->tag);
	return 0;
}
}

// --------------------------------------------------------- allocator -------
struct Hdr { u64 magic; size_t size; void *raw; u64 tail; };
static const u64 MAGIC = 0x7451a110c8ed51d3ULL;
static const size_t TAIL = 16;
static long g_heapviol = 0;
static u64 g_allocs = 0, g_alloc_bytes = 0;
static void fillmem(char *p, size_t n) {
	switch (P.fill) {
	case 1: memset(p, 0xFF, n); break;                       // NaN doubles, -1 ints
	case 2: { u64 z = P.seed ^ (n * 31); size_t i = 0; for (; i + 8 <= n; i += 8) { z = z * 6364136223846793005ULL + 1442695040888963407ULL; memcpy(p + i, &z, 8); } for (; i < n; i++) p[i] = (char)z; break; }
	case 3: { double d = 3.0e5; size_t i = 0; for (; i + 8 <= n; i += 8) memcpy(p + i, &d, 8); for (; i < n; i++) p[i] = 0x41; break; }
	default: memset(p, 0, n);
	}
}
static bool alloc_fail(size_t n) {
	Rank &r = R[g_cur]; r.allocs++;
	for (size_t i = 0; i < P.alloc.size(); i++) { AllocFault &f = P.alloc[i]; if (f.rank == g_cur && n >= (size_t)f.minsize) { f.nth--; if (f.nth == 0 || (f.nth < 0 && f.persist)) { f.fired++; HostScope hs; if (getenv("TSIM_BT")) { void *bt[40]; int k = backtrace(bt, 40); backtrace_symbols_fd(bt, k, 2); } fault("alloc"); ev("ALLOCFAIL", n, r.allocs); return true; } } }
	return false;
}
static void *do_alloc(size_t n, size_t al, bool zero) {
	if (n > (size_t)1 << 40) { errno = ENOMEM; return 0; }
	bool inr = g_inrank && g_cur >= 0;
	if (inr && alloc_fail(n)) { errno = ENOMEM; return 0; }
	if (al < 16) al = 16;
	char *raw, *p; size_t tl = TAIL; u64 pages = 0;
	static long nguard = 0;   // the kernel allows some 65000 mappings: the later small blocks of a big run go unguarded
	bool guarded = P.guard && inr && n >= (nguard < 14000 ? 32u : 512u) && al == 16 && nguard < 28000;
	if (guarded) {
		nguard++;
		// the block ends (up to rounding to 16 bytes) at an inaccessible page; freed blocks stay inaccessible
		size_t rn = (n + 15) & ~(size_t)15; pages = (rn + sizeof(Hdr) + 4095) / 4096;
		raw = (char *)mmap(0, (pages + 1) * 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (raw == MAP_FAILED) return 0;
		mprotect(raw + pages * 4096, 4096, PROT_NONE); p = raw + pages * 4096 - rn; tl = rn - n;
	} else {
		raw = (char *)__libc_malloc(n + sizeof(Hdr) + al + TAIL); if (!raw) return 0;
		p = (char *)(((uintptr_t)raw + sizeof(Hdr) + al - 1) & ~(uintptr_t)(al - 1));
	}
	Hdr *h = (Hdr *)p - 1; h->magic = MAGIC; h->size = n; h->raw = raw; h->tail = (pages << 16) | (inr ? g_cur + 1 : 0);
	memset(p + n, 0xC9, tl);
	if (inr) { g_allocs++; g_alloc_bytes += n; Rank &r = R[g_cur]; r.blocks++; r.live += n; if (r.live > r.livemax) r.livemax = r.live; }
	if (zero) memset(p, 0, n); else if (inr) fillmem(p, n); else memset(p, 0, n);
	return p;
}
static void check_tail(Hdr *h, const char *op) { const unsigned char *t = (const unsigned char *)(h + 1) + h->size; size_t tl = h->tail >> 16 ? ((h->size + 15) & ~(size_t)15) - h->size : TAIL; for (size_t i = 0; i < tl; i++) if (t[i] != 0xC9) { if (g_viol && g_heapviol++ < 5) viol("heap-overrun: block of %zu bytes written past its end (found at %s on rank %d)", h->size, op, g_cur); return; } }
extern "C" {
void *malloc(size_t n) { return do_alloc(n, 16, false); }
void *calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return 0; } return do_alloc(n, 16, true); }
void *memalign(size_t a, size_t n) { return do_alloc(n, a, false); }
void *aligned_alloc(size_t a, size_t n) { return do_alloc(n, a, false); }
int posix_memalign(void **p, size_t a, size_t n) { void *q = do_alloc(n, a, false); if (!q) return ENOMEM; *p = q; return 0; }
void *valloc(size_t n) { return do_alloc(n, 4096, false); }
size_t malloc_usable_size(void *p) { return p ? ((Hdr *)p - 1)->size : 0; }
void free(void *p) {
	if (!p) return; int e = errno; Hdr *h = (Hdr *)p - 1;
	if (h->magic != MAGIC) { if (h->magic == ~MAGIC && g_viol) { viol("double-free of %zu bytes on rank %d", h->size, g_cur); } return; }
	if (g_inrank && g_cur >= 0) {
		check_tail(h, "free");
		for (size_t i = 0; i < g_req.size(); i++) { Req *q = g_req[i]; if (q->active && q->owner == g_cur && !q->done && q->len && q->buf < (char *)p + h->size && q->buf + q->len > (char *)p) viol("buffer-freed-in-flight: rank %d %s %d (%zu bytes)", g_cur, q->send ? "send to" : "receive from", q->peer, q->len); }
		if (P.fill) memset(p, 0xD7, h->size);
	}
	long ow = h->tail & 0xffff; if (ow && ow <= (long)R.size()) { R[ow - 1].blocks--; R[ow - 1].live -= h->size; }
	u64 pages = h->tail >> 16; h->magic = ~MAGIC; void *raw = h->raw; if (pages) { madvise(raw, pages * 4096, MADV_DONTNEED); mprotect(raw, pages * 4096, PROT_NONE); } else __libc_free(raw);
	errno = e;
}
void cfree(void *p) { free(p); }
void *realloc(void *p, size_t n) { if (!p) return malloc(n); if (!n) { free(p); return 0; } Hdr *h = (Hdr *)p - 1; if (h->magic != MAGIC) { void *q = malloc(n); return q; } void *q = malloc(n); if (!q) return 0; memcpy(q, p, std::min(n, h->size)); free(p); return q; }
}

// ------------------------------------------------------------ files --------
#define REAL(name, type) static type real_##name; if (!real_##name) { HostScope hs; real_##name = (type)dlsym(RTLD_NEXT, #name); }
static long g_iono = 0; static long g_written = 0; static u64 g_iohash = 0;
static std::vector<std::string> *g_iolog;
static bool tracked_path(const char *p) { if (!g_inrank || g_cur < 0 || !p) return false; static const char *ex[] = {"/dev", "/proc", "/usr", "/etc", "/lib", "/opt", "/sys", "/bin", "/root/", 0}; if (p[0] == '/') for (int i = 0; ex[i]; i++) if (!strncmp(p, ex[i], strlen(ex[i]))) return false; return true; }
enum { A_NONE, A_ERR, A_SHORT, A_KILL };
struct Act { int kind; int err; long param; };
static Act io_point(const char *op, const std::string &path, long len) {
	enter(op, 'I'); g_iono++;
	Act a = {A_NONE, 0, 0};
	if (P.iolog) { char b[64]; snprintf(b, sizeof b, " %ld", len); g_iolog->push_back(std::string("r") + std::to_string(g_cur) + " " + op + " " + path + b); }
	ev(op, g_iono, len, 0, fnv(5, path.data(), path.size()));
	for (size_t i = 0; i < P.io.size(); i++) {
		IoFault &f = P.io[i];
		if (f.op != "any" && f.op != op) continue; if (f.path != "*" && path.find(f.path) == std::string::npos) continue; if (f.rank >= 0 && f.rank != g_cur) continue;
		if (f.action == "hole") continue;
		f.seen++; bool hit = f.seen == f.nth || (f.persist && f.seen > f.nth); if (!hit) continue;
		f.fired++; std::string k = std::string(op) + ":" + f.action; fault(k.c_str()); ev("IOFAULT", i, f.seen);
		a.param = f.param;
		if (f.action == "enospc") a.kind = A_ERR, a.err = ENOSPC; else if (f.action == "eio") a.kind = A_ERR, a.err = EIO; else if (f.action == "eintr") a.kind = A_ERR, a.err = EINTR;
		else if (f.action == "emfile") a.kind = A_ERR, a.err = EMFILE; else if (f.action == "eacces") a.kind = A_ERR, a.err = EACCES; else if (f.action == "erofs") a.kind = A_ERR, a.err = EROFS; else if (f.action == "edquot") a.kind = A_ERR, a.err = EDQUOT;
		else if (f.action == "short") a.kind = A_SHORT; else if (f.action == "kill") a.kind = A_KILL;
		return a;
	}
	return a;
}
[[noreturn]] static void do_kill(const char *op) { fault("kill"); finish("killed", 137, std::string("killed in ") + op); }
static long clampw(Act &a, size_t n) { long k = a.param < 0 ? (long)(n * (-a.param) / 1000) : std::min((long)n, a.param); return k; }
// bytes that still fit under the simulated disk budget
static long budget(long n) { if (P.disk_budget < 0) return n; long left = P.disk_budget - g_written; if (left <= 0) { fault("diskfull"); return -1; } if (left < n) { fault("diskfull"); return left; } return n; }
static FdInfo *fdi(int fd) { if (!g_inrank || !g_fd) return 0; std::map<int, FdInfo>::iterator i = g_fd->find(fd); return i == g_fd->end() ? 0 : &i->second; }
static int g_logfd = -1;
extern "C" {
typedef int (*open_t)(const char *, int, ...);
static int do_open(open_t real, const char *p, int fl, mode_t m) {
	if (!tracked_path(p)) return real(p, fl, m);
	HostScope hs; Act a = io_point((fl & O_ACCMODE) == O_RDONLY ? "openr" : "openw", p, 0);
	if (a.kind == A_KILL) do_kill("open"); if (a.kind == A_ERR) { errno = a.err; return -1; }
	int fd = real(p, fl, m); int e = errno; if (fd >= 0) { FdInfo f = {true, p, (fl & O_ACCMODE) != O_RDONLY, 0, g_cur}; (*g_fd)[fd] = f; } errno = e; return fd;
}
int open(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); mode_t m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap); REAL(open, open_t); return do_open(real_open, p, fl, m); }
int open64(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); mode_t m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap); REAL(open64, open_t); return do_open(real_open64, p, fl, m); }
int creat(const char *p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
typedef FILE *(*fopen_t)(const char *, const char *);
static FILE *do_fopen(fopen_t real, const char *p, const char *m) {
	if (!tracked_path(p)) return real(p, m);
	HostScope hs; bool rd = m[0] == 'r' && !strchr(m, '+'); Act a = io_point(rd ? "openr" : "openw", p, 0);
	if (a.kind == A_KILL) do_kill("open"); if (a.kind == A_ERR) { errno = a.err; return 0; }
	FILE *f = real(p, m); int e = errno; if (f) { FdInfo i = {true, p, !rd, 0, g_cur}; (*g_fd)[fileno(f)] = i; } errno = e; return f;
}
FILE *fopen(const char *p, const char *m) { REAL(fopen, fopen_t); return do_fopen(real_fopen, p, m); }
FILE *fopen64(const char *p, const char *m) { REAL(fopen64, fopen_t); return do_fopen(real_fopen64, p, m); }
int fclose(FILE *f) {
	typedef int (*T)(FILE *); REAL(fclose, T); int fd = g_inrank ? fileno(f) : -1; FdInfo *i = fd >= 0 ? fdi(fd) : 0; if (!i) return real_fclose(f);
	HostScope hs; Act a = io_point(i->wr ? "closew" : "closer", i->path, 0); if (a.kind == A_KILL) do_kill("close"); g_fd->erase(fd); int r = real_fclose(f); if (a.kind == A_ERR) { errno = a.err; return EOF; } return r;
}
int close(int fd) {
	typedef int (*T)(int); REAL(close, T); FdInfo *i = fdi(fd); if (!i) return real_close(fd);
	HostScope hs; Act a = io_point(i->wr ? "closew" : "closer", i->path, 0); if (a.kind == A_KILL) do_kill("close"); g_fd->erase(fd); int r = real_close(fd); if (a.kind == A_ERR) { errno = a.err; return -1; } return r;
}
static long raw_write(int fd, const void *b, size_t n) { return syscall(SYS_write, fd, b, n); }
static long faulty_write(int fd, FdInfo *i, const char *b, size_t n) {
	std::string path = i->path; Act a = io_point("write", path, n);
	if (a.kind == A_KILL) { long k = clampw(a, n); if (k) raw_write(fd, b, k); do_kill("write"); }
	if (a.kind == A_ERR) { errno = a.err; return -1; }
	if (a.kind == A_SHORT && n > 1) { long k = clampw(a, n); if (k < 1) k = 1; n = std::min((size_t)k, n); }
	long m = budget(n); if (m < 0) { errno = ENOSPC; return -1; }
	long r = raw_write(fd, b, m); if (r > 0) { g_written += r; g_iohash = fnv(g_iohash, b, r); } return r;
}
ssize_t write(int fd, const void *b, size_t n) { FdInfo *i = fdi(fd); if (!i) return raw_write(fd, b, n); HostScope hs; return faulty_write(fd, i, (const char *)b, n); }
ssize_t writev(int fd, const struct iovec *v, int c) {
	typedef ssize_t (*T)(int, const struct iovec *, int); REAL(writev, T); FdInfo *i = fdi(fd); if (!i) return real_writev(fd, v, c);
	HostScope hs; std::string s; for (int k = 0; k < c; k++) s.append((const char *)v[k].iov_base, v[k].iov_len); return faulty_write(fd, i, s.data(), s.size());
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { FdInfo *i = fdi(fd); if (!i) return syscall(SYS_pwrite64, fd, b, n, o); HostScope hs; Act a = io_point("write", i->path, n); if (a.kind == A_KILL) { long k = clampw(a, n); if (k) syscall(SYS_pwrite64, fd, b, k, o); do_kill("pwrite"); } if (a.kind == A_ERR) { errno = a.err; return -1; } if (a.kind == A_SHORT && n > 1) n = std::max(1L, clampw(a, n)); long m = budget(n); if (m < 0) { errno = ENOSPC; return -1; } long r = syscall(SYS_pwrite64, fd, b, m, o); if (r > 0) g_written += r; return r; }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return pwrite(fd, b, n, o); }
static ssize_t faulty_read(int fd, FdInfo *i, void *b, size_t n, bool at, off_t o) {
	Act a = io_point("read", i->path, n); if (a.kind == A_KILL) do_kill("read"); if (a.kind == A_ERR) { errno = a.err; return -1; } if (a.kind == A_SHORT && n > 1) n = std::max(1L, std::min((long)n, clampw(a, n)));
	return at ? syscall(SYS_pread64, fd, b, n, o) : syscall(SYS_read, fd, b, n);
}
ssize_t read(int fd, void *b, size_t n) { FdInfo *i = fdi(fd); if (!i) return syscall(SYS_read, fd, b, n); HostScope hs; return faulty_read(fd, i, b, n, false, 0); }
ssize_t __read_chk(int fd, void *b, size_t n, size_t) { return read(fd, b, n); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { FdInfo *i = fdi(fd); if (!i) return syscall(SYS_pread64, fd, b, n, o); HostScope hs; return faulty_read(fd, i, b, n, true, o); }
ssize_t pread64(int fd, void *b, size_t n, off_t o) { return pread(fd, b, n, o); }
int fsync(int fd) { FdInfo *i = fdi(fd); if (!i) return (int)syscall(SYS_fsync, fd); HostScope hs; Act a = io_point("fsync", i->path, 0); if (a.kind == A_KILL) do_kill("fsync"); if (a.kind == A_ERR) { errno = a.err; return -1; } return 0; }
int fdatasync(int fd) { return fsync(fd); }
int ftruncate(int fd, off_t n) { FdInfo *i = fdi(fd); if (!i) return (int)syscall(SYS_ftruncate, fd, n); HostScope hs; Act a = io_point("ftruncate", i->path, n); if (a.kind == A_KILL) do_kill("ftruncate"); if (a.kind == A_ERR) { errno = a.err; return -1; } return (int)syscall(SYS_ftruncate, fd, n); }
int ftruncate64(int fd, off_t n) { return ftruncate(fd, n); }
int mkdir(const char *p, mode_t m) { if (!tracked_path(p)) return (int)syscall(SYS_mkdir, p, m); HostScope hs; Act a = io_point("mkdir", p, 0); if (a.kind == A_KILL) do_kill("mkdir"); if (a.kind == A_ERR) { errno = a.err; return -1; } return (int)syscall(SYS_mkdir, p, m); }
int rename(const char *o, const char *n) { if (!tracked_path(n)) return (int)syscall(SYS_rename, o, n); HostScope hs; Act a = io_point("rename", n, 0); if (a.kind == A_KILL) { if (a.param) syscall(SYS_rename, o, n); do_kill("rename"); } if (a.kind == A_ERR) { errno = a.err; return -1; } return (int)syscall(SYS_rename, o, n); }
static int do_unlink(const char *p) { if (!tracked_path(p)) return (int)syscall(SYS_unlink, p); HostScope hs; Act a = io_point("unlink", p, 0); if (a.kind == A_KILL) do_kill("unlink"); if (a.kind == A_ERR) { errno = a.err; return -1; } return (int)syscall(SYS_unlink, p); }
int unlink(const char *p) { return do_unlink(p); }
int remove(const char *p) { return do_unlink(p); }

// ------------------------------------------------------------ clocks -------
static i64 wall_us(int r) { Rank &k = R[r]; double t = g_now / 1000.0; i64 w = P.epoch_us + (i64)(t * (1.0 + P.drift[r])) + P.skew_us[r]; for (size_t i = 0; i < P.clockj.size(); i++) if (P.clockj[i].rank == r && k.gtod >= P.clockj[i].nth) { w += P.clockj[i].delta_us; if (!P.clockj[i].fired++) { HostScope hs; fault("clockjump"); } } return w; }
int gettimeofday(struct timeval *tv, void *) {
	if (!g_inrank || g_cur < 0) return (int)syscall(SYS_gettimeofday, tv, 0);
	R[g_cur].gtod++; i64 w = wall_us(g_cur); tv->tv_sec = w / 1000000; tv->tv_usec = w % 1000000; return 0;
}
time_t time(time_t *t) { if (!g_inrank || g_cur < 0) { time_t x = (time_t)syscall(SYS_time, 0); if (t) *t = x; return x; } R[g_cur].gtod++; time_t x = wall_us(g_cur) / 1000000; if (t) *t = x; return x; }
int clock_gettime(clockid_t c, struct timespec *ts) { if (!g_inrank || g_cur < 0) return (int)syscall(SYS_clock_gettime, c, ts); R[g_cur].gtod++; i64 w = c == CLOCK_REALTIME ? wall_us(g_cur) : (i64)(g_now / 1000); ts->tv_sec = w / 1000000; ts->tv_nsec = (w % 1000000) * 1000; return 0; }
clock_t clock(void) { return g_now / 1000; }
double MPI_Wtime(void) { R[g_cur].gtod++; return wall_us(g_cur) * 1e-6; }
double MPI_Wtick(void) { return 1e-6; }
unsigned int sleep(unsigned int s) { if (!g_inrank) return 0; HostScope hs; R[g_cur].ready = g_now + s * 1000000000ULL; to_sched(); return 0; }
int usleep(useconds_t s) { if (!g_inrank) return 0; HostScope hs; R[g_cur].ready = g_now + s * 1000ULL; to_sched(); return 0; }
int nanosleep(const struct timespec *q, struct timespec *) { if (!g_inrank) return 0; HostScope hs; R[g_cur].ready = g_now + q->tv_sec * 1000000000ULL + q->tv_nsec; to_sched(); return 0; }
int sched_yield(void) { if (!g_inrank) return 0; HostScope hs; R[g_cur].ready = g_now + 100; to_sched(); return 0; }
// ------------------------------------------------------------ random -------
void srand(unsigned s) { if (g_cur >= 0) R[g_cur].rnd = s; }
int rand(void) { if (g_cur < 0) return 4; unsigned &x = R[g_cur].rnd; x = x * 1103515245u + 12345u; return (int)((x >> 1) & 0x7fffffff); }
void srandom(unsigned s) { srand(s); }
long random(void) { return rand(); }
ssize_t getrandom(void *b, size_t n, unsigned) { memset(b, 0x5a, n); return n; }
void exit(int code) {
	if (!g_inrank || g_cur < 0) _exit(code);
	HostScope hs; Rank &r = R[g_cur]; ev("exit", code);
	if (P.ranks > 1 && r.inited && !r.finalized) finish("abort", code ? code : 1, "exit() before MPI_Finalize on rank " + std::to_string(g_cur));
	r.st = DONE; r.code = code; to_sched(); _exit(97);
}
}


// ------------------------------------------------ state seen at each step --
// Called from sim/hook.cpp inside the program under test: every copy of every node at the end of each step.
struct NKey { int step, k, comp; i64 q[3]; bool operator==(const NKey &o) const { return step == o.step && k == o.k && comp == o.comp && q[0] == o.q[0] && q[1] == o.q[1] && q[2] == o.q[2]; } };
struct NHash { size_t operator()(const NKey &k) const { u64 h = 1469598103934665603ULL; u64 w[6] = {(u64)k.step, (u64)k.k, (u64)k.comp, (u64)k.q[0], (u64)k.q[1], (u64)k.q[2]}; for (int i = 0; i < 6; i++) { h = (h ^ w[i]) * 0x9E3779B97F4A7C15ULL; h ^= h >> 29; } return h; } };
struct NComp { double maxabs, maxdiff; long cmp, n, nonfinite; int wstep; double wx[3]; NComp() : maxabs(0), maxdiff(0), cmp(0), n(0), nonfinite(0), wstep(-1) { wx[0] = wx[1] = wx[2] = 0; } };
static std::unordered_map<NKey, double, NHash> *g_nodes;
static std::map<int, NComp> *g_ncomp;
static std::map<int, u64> *g_digest;
static std::map<std::pair<int, int>, int> *g_npatch; // (step, patch) -> times reported
extern "C" {
int tsim_hook_level() {
	if (P.hook && g_cur >= 0) { // what the processor holds at the end of a step
		HostScope hs; Rank &r = R[g_cur]; r.st_live = r.live; r.st_blocks = r.blocks; r.st_fds = r.st_reqs = 0;
		for (std::map<int, FdInfo>::iterator it = g_fd->begin(); it != g_fd->end(); ++it) if (it->second.rank == g_cur) r.st_fds++;
		for (size_t i = 0; i < g_req.size(); i++) if (g_req[i]->active && g_req[i]->owner == g_cur) r.st_reqs++;
	}
	return P.hook;
}
void tsim_hook_patch(int step, int patch) { HostScope hs; if (!g_npatch) { g_npatch = new std::map<std::pair<int, int>, int>(); } (*g_npatch)[std::make_pair(step, patch)]++; }
void tsim_hook_node(int step, const double *x, int k, int comp, double v) {
	HostScope hs;
	if (!g_nodes) { g_nodes = new std::unordered_map<NKey, double, NHash>(); g_nodes->reserve(1 << 18); g_ncomp = new std::map<int, NComp>(); g_digest = new std::map<int, u64>(); }
	NKey key; key.step = step; key.k = k; key.comp = comp; for (int i = 0; i < 3; i++) key.q[i] = (i64)floor(x[i] * 1e6 + 0.377);
	NComp &c = (*g_ncomp)[comp]; c.n++;
	if (getenv("TSIM_DUMP")) { static FILE *f = fopen("nodes.dump", "w"); setlinebuf(f); fprintf(f, "%d %d %d %.9g %.9g %.9g %.17g\n", step, comp, k, x[0], x[1], x[2], v); }
	if (!(fabs(v) <= 1.7e308)) { c.nonfinite++; }
	else if (fabs(v) > c.maxabs) c.maxabs = fabs(v);
	double z = v == 0 ? 0.0 : v; u64 bits; memcpy(&bits, &z, 8);
	if (comp < 100 || comp >= 200) { NKey k0 = key; k0.step = 0; u64 h = NHash()(k0) ^ (bits * 0xD6E8FEB86659FD93ULL); h ^= h >> 32; h *= 0xD6E8FEB86659FD93ULL; h ^= h >> 32; (*g_digest)[step] += h; }
	if (P.hook < 2) return;
	std::pair<std::unordered_map<NKey, double, NHash>::iterator, bool> it = g_nodes->insert(std::make_pair(key, v));
	if (!it.second) { double d = fabs(it.first->second - v); c.cmp++; if (!(d <= c.maxdiff)) { c.maxdiff = d; c.wstep = step; for (int i = 0; i < 3; i++) c.wx[i] = x[i]; } }
}
}

// --------------------------------------------------------- main loop -------
static void rank_entry() {
	Rank &r = R[g_cur]; int code = 255; std::string exc;
	g_inrank = true;
	try { code = r.mainf((int)r.argv.size() - 1, r.argv.data()); }
	catch (std::exception &e) { g_inrank = false; exc = std::string("uncaught ") + typeid(e).name(); }
	catch (...) { g_inrank = false; std::type_info *t = abi::__cxa_current_exception_type(); exc = std::string("uncaught ") + (t ? t->name() : "?"); }
	g_inrank = false;
	if (!exc.empty()) finish("abort", 134, exc + " on rank " + std::to_string(g_cur));
	ev("return", code);
	r.end_live = r.live; r.end_fds = 0; for (std::map<int, FdInfo>::iterator it = g_fd->begin(); it != g_fd->end(); ++it) if (it->second.rank == g_cur) r.end_fds++;
	if (P.ranks > 1 && !r.finalized) finish("abort", code ? code : 1, "rank " + std::to_string(g_cur) + " left main without MPI_Finalize");
	if (r.inited && !r.finalized && P.ranks == 1 && code == 0) { /* singleton: mpirun not involved */ }
	r.st = DONE; r.code = code;
	to_sched(); _exit(97);
}
static void jstr(std::string &o, const std::string &s) { o += '"'; for (size_t i = 0; i < s.size(); i++) { unsigned char c = s[i]; if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; } o += '"'; }
static bool g_finishing = false;
static void finish(const char *status, int code, const std::string &detail) {
	g_inrank = false; if (g_finishing) _exit(95); g_finishing = true; alarm(0);
	// user-space buffers of FILE streams die with the process, exactly as on a kill; only stdout is ours
	flush_out(g_cur);
	if (!strcmp(status, "ok")) for (size_t i = 0; i < g_msg.size(); i++) if (g_msg[i]) viol("message-never-received: rank %d -> %d #%ld (%zu bytes)", g_msg[i]->src, g_msg[i]->dst, g_msg[i]->seq, g_msg[i]->len);
	std::string o = "{\"status\":"; jstr(o, status); char b[256]; snprintf(b, sizeof b, ",\"code\":%d,\"rank\":%d,\"hash\":\"%016llx\",\"vtime_ns\":%llu,\"msgs\":%ld,\"bytes\":%ld,\"colls\":%ld,\"rndv\":%ld,\"calls\":%ld,\"io_ops\":%ld,\"written\":%ld,\"allocs\":%llu,\"detail\":", code, g_cur, (unsigned long long)g_hash, (unsigned long long)g_now, g_nmsg, g_nbytes, g_ncoll, g_nrndv, g_totalcalls, g_iono, g_written, (unsigned long long)g_allocs); o += b; jstr(o, detail);
	u64 oh = 7; for (size_t i = 0; i < R.size(); i++) oh = fnv(oh, &R[i].ordhash, 8); snprintf(b, sizeof b, ",\"order\":\"%016llx\"", (unsigned long long)oh); o += b;
	o += ",\"viol\":["; for (size_t i = 0; i < g_viol->size(); i++) { if (i) o += ','; jstr(o, (*g_viol)[i]); } o += "],\"faults\":{"; bool f = true; for (std::map<std::string, long>::iterator i = g_fault->begin(); i != g_fault->end(); ++i) { if (!f) o += ','; f = false; jstr(o, i->first); o += ':' + std::to_string(i->second); }
	o += "},\"perts\":{"; f = true; for (std::map<char, u64>::iterator i = g_pert_count.begin(); i != g_pert_count.end(); ++i) { if (!f) o += ','; f = false; o += std::string("\"") + i->first + "\":" + std::to_string(i->second); }
	o += "},\"mem\":["; for (size_t i = 0; i < R.size(); i++) { char b[300]; snprintf(b, sizeof b, "%s[%ld,%ld,%ld,%ld,%ld,%ld,%ld,%ld,%ld,%ld,%ld]", i ? "," : "", R[i].livemax, R[i].fin_live, R[i].fin_blocks, R[i].fin_fds, R[i].fin_reqs, R[i].st_live, R[i].st_blocks, R[i].st_fds, R[i].st_reqs, R[i].end_live, R[i].end_fds); o += b; }
	o += "],\"rankallocs\":["; for (size_t i = 0; i < R.size(); i++) { if (i) o += ','; o += std::to_string(R[i].allocs); }
	o += "],\"rankcalls\":["; for (size_t i = 0; i < R.size(); i++) { if (i) o += ','; o += std::to_string(R[i].calls); }
	o += "],\"blocked\":["; f = true; for (size_t i = 0; i < R.size(); i++) { if (!f) o += ','; f = false; jstr(o, (R[i].st == DONE ? "done" : (R[i].st == BLOCK ? "blocked in " : "running, last ")) + (R[i].st == DONE ? std::string() : R[i].blockop)); }
	o += "],\"out\":["; { std::string all(g_outpos, 0); lseek(1, 0, SEEK_SET); size_t got = 0; while (got < all.size()) { ssize_t k = syscall(SYS_read, 1, &all[got], all.size() - got); if (k <= 0) break; got += k; } f = true; for (size_t i = 0; i < g_seg->size(); i++) { OutSeg &s = (*g_seg)[i]; if (!f) o += ','; f = false; o += "[" + std::to_string(s.rank) + ","; jstr(o, all.substr(s.a, s.b - s.a)); o += "]"; } } o += "]";
	if (P.hook && g_ncomp) {
		o += ",\"nodes\":{"; f = true; for (std::map<int, NComp>::iterator i = g_ncomp->begin(); i != g_ncomp->end(); ++i) { NComp &c = i->second; char b[400]; double md = c.maxdiff; bool bad = !(md <= 1e300); snprintf(b, sizeof b, "%s\"%d\":[%.17g,%.17g,%ld,%ld,%ld,%d,%.6f,%.6f,%.6f]", f ? "" : ",", i->first, c.maxabs, bad ? 1e300 : md, c.cmp, c.n, c.nonfinite, c.wstep, c.wx[0], c.wx[1], c.wx[2]); f = false; o += b; }
		o += "},\"digest\":{"; f = true; for (std::map<int, u64>::iterator i = g_digest->begin(); i != g_digest->end(); ++i) { char b[80]; snprintf(b, sizeof b, "%s\"%d\":\"%016llx\"", f ? "" : ",", i->first, (unsigned long long)i->second); f = false; o += b; }
		o += "},\"patches\":["; f = true; for (std::map<std::pair<int, int>, int>::iterator i = g_npatch->begin(); i != g_npatch->end(); ++i) { char b[80]; snprintf(b, sizeof b, "%s[%d,%d,%d]", f ? "" : ",", i->first.first, i->first.second, i->second); f = false; o += b; }
		o += "]";
	}
	if (P.iolog) { o += ",\"iolog\":["; for (size_t i = 0; i < g_iolog->size(); i++) { if (i) o += ','; jstr(o, (*g_iolog)[i]); } o += "]"; }
	if (P.record) { o += ",\"rec\":["; for (size_t i = 0; i < g_rec->size(); i++) { PKey &k = (*g_rec)[i].first; snprintf(b, sizeof b, "%s\"%c %d %d %ld %ld\"", i ? "," : "", k.k, k.a, k.b, k.c, (*g_rec)[i].second); o += b; } o += "]"; }
	o += "}\n";
	if (g_trace) fflush(g_trace);
	int fd = (int)syscall(SYS_openat, AT_FDCWD, P.out.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644); size_t w = 0; while (w < o.size()) { ssize_t k = syscall(SYS_write, fd, o.data() + w, o.size() - w); if (k <= 0) _exit(94); w += k; }
	_exit(0);
}
static void on_sig(int s) { g_inrank = false; if (getenv("TSIM_BT")) { void *bt[40]; int n = backtrace(bt, 40); backtrace_symbols_fd(bt, n, 2); } char b[64]; snprintf(b, sizeof b, "signal %d on rank %d", s, g_cur); finish(s == SIGALRM ? "walltimeout" : "signal", 128 + s, b); }

int main(int argc, char **argv) {
	if (argc < 2) return 93;
	if (!getenv("TSIM_NOASLR")) { int p = personality(0xffffffff); if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) != -1) { setenv("TSIM_NOASLR", "1", 1); execv("/proc/self/exe", argv); } }
	g_viol = new std::vector<std::string>(); g_fault = new std::map<std::string, long>(); g_fd = new std::map<int, FdInfo>(); g_iolog = new std::vector<std::string>(); g_rec = new std::vector<std::pair<PKey, long>>(); g_seg = new std::vector<OutSeg>(); g_ev = new std::priority_queue<Event>();
	FILE *f = fopen(argv[1], "r"); if (!f) return 92; char line[65536];
	while (fgets(line, sizeof line, f)) {
		std::string s(line); while (!s.empty() && (s.back() == '\n' || s.back() == '\r')) s.pop_back(); if (s.empty() || s[0] == '#') continue;
		size_t sp = s.find(' '); std::string k = s.substr(0, sp), v = sp == std::string::npos ? "" : s.substr(sp + 1); char b1[256], b2[1024], b3[64]; long a, b, c; int i1, i2;
		if (k == "prog") P.prog = v; else if (k == "cwd") P.cwd = v; else if (k == "out") P.out = v; else if (k == "ranks") P.ranks = atoi(v.c_str()); else if (k == "seed") P.seed = strtoull(v.c_str(), 0, 10); else if (k == "arg") P.args.push_back(v);
		else if (k == "pol") { double d; if (sscanf(v.c_str(), "%255s %lf", b1, &d) == 2) P.pol[b1] = d; }
		else if (k == "io") { IoFault x; x.param = 0; x.persist = 0; x.rank = -1; x.seen = x.fired = 0; x.active = false; if (sscanf(v.c_str(), "%255s %1023s %ld %63s %ld %d %d", b1, b2, &x.nth, b3, &x.param, &x.persist, &x.rank) < 4) return 91; x.op = b1; x.path = b2; x.action = b3; P.io.push_back(x); }
		else if (k == "alloc") { AllocFault x; x.minsize = 0; x.persist = 0; x.fired = 0; if (sscanf(v.c_str(), "%d %ld %ld %d", &x.rank, &x.nth, &x.minsize, &x.persist) < 2) return 91; P.alloc.push_back(x); }
		else if (k == "clockjump") { ClockJump x; x.fired = 0; sscanf(v.c_str(), "%d %ld %ld", &x.rank, &x.nth, &x.delta_us); P.clockj.push_back(x); }
		else if (k == "killmpi") { KillMpi x; sscanf(v.c_str(), "%d %ld", &x.rank, &x.call); P.killmpi.push_back(x); }
		else if (k == "skew") { long x; double d; int rr; sscanf(v.c_str(), "%d %ld %lf", &rr, &x, &d); if ((int)P.skew_us.size() <= rr) { P.skew_us.resize(rr + 1); P.drift.resize(rr + 1); } P.skew_us[rr] = x; P.drift[rr] = d; }
		else if (k == "epoch") P.epoch_us = atoll(v.c_str()); else if (k == "disk") P.disk_budget = atol(v.c_str()); else if (k == "hook") P.hook = atoi(v.c_str()); else if (k == "guard") P.guard = atoi(v.c_str()); else if (k == "fill") P.fill = atoi(v.c_str()); else if (k == "explicit") P.explicit_mode = true; else if (k == "record") P.record = true; else if (k == "iolog") P.iolog = true; else if (k == "trace") P.tracefile = v; else if (k == "maxcalls") P.maxcalls = atol(v.c_str()); else if (k == "wall") P.wall = atoi(v.c_str());
		else if (k == "pert") { char c1; if (sscanf(v.c_str(), "%c %d %d %ld %ld", &c1, &i1, &i2, &a, &b) == 5) { PKey key = {c1, i1, i2, a}; g_pert[key] = b; } }
		else { (void)c; return 90; }
	}
	fclose(f);
	Q.lat_p = pol("lat_p", 0); Q.lat_max = pol("lat_max", 0); Q.lat_tail_p = pol("lat_tail_p", 0); Q.lat_tail = pol("lat_tail", 0); Q.slow_p = pol("slow_p", 0); Q.slow_f = pol("slow_f", 0); Q.stall_p = pol("stall_p", 0); Q.stall_max = pol("stall_max", 0); Q.slowrank_p = pol("slowrank_p", 0); Q.slowrank = pol("slowrank", 0); Q.rndv_p = pol("rndv_p", 0); Q.xfer_p = pol("xfer_p", 0); Q.xfer_max = pol("xfer_max", 0); Q.ack_p = pol("ack_p", 0); Q.ack_max = pol("ack_max", 0); Q.coll_p = pol("coll_p", 0); Q.coll_max = pol("coll_max", 0); Q.early_p = pol("early_p", 0); Q.redperm_p = pol("redperm_p", 0); Q.iostall_p = pol("iostall_p", 0); Q.iostall_max = pol("iostall_max", 0); Q.starve_p = pol("starve_p", 0); Q.starve_max = pol("starve_max", 0);
	P.skew_us.resize(P.ranks); P.drift.resize(P.ranks);
	if (chdir(P.cwd.c_str())) return 89;
	if (!P.tracefile.empty()) g_trace = fopen(P.tracefile.c_str(), "w");
	// private copy of the program per rank
	R.resize(P.ranks); g_unexp.resize(P.ranks); g_posted.resize(P.ranks);
	int src = open(P.prog.c_str(), O_RDONLY); struct stat sb; if (src < 0 || fstat(src, &sb)) return 88;
	std::vector<void *> hs; std::vector<int> mfds;
	g_memfd = memfd_create("out", 0); fflush(stdout); static char obuf[1 << 20]; setvbuf(stdout, obuf, _IOFBF, sizeof obuf); dup2(g_memfd, 1);
	for (int r = 0; r < P.ranks; r++) {
		char nm[64]; int fd = memfd_create("rank", MFD_CLOEXEC); off_t o = 0; while (o < sb.st_size) if (sendfile(fd, src, &o, sb.st_size - o) <= 0) return 87; snprintf(nm, sizeof nm, "/proc/self/fd/%d", fd); mfds.push_back(fd);
		g_cur = r; void *h = dlopen(nm, RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "dlopen: %s\n", dlerror()); return 86; }
		Rank &k = R[r]; k.id = r; k.mainf = (int (*)(int, char **))dlsym(h, "main"); if (!k.mainf) { fprintf(stderr, "no entry\n"); return 85; }
		for (size_t i = 0; i < mfds.size(); i++) {}
	}
	// keep rank fds open (closing is harmless but changes fd numbers); code under test sees stable numbers
	for (int r = 0; r < P.ranks; r++) {
		Rank &k = R[r]; k.st = RUN; k.ready = 0; k.stksz = 64 << 20; k.stack = (char *)mmap(0, k.stksz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); mprotect(k.stack, 4096, PROT_NONE);
		if (P.fill) { size_t n = 1 << 20; g_cur = r; fillmem(k.stack + k.stksz - n, n); }
		k.eh.caught = 0; k.eh.uncaught = 0; k.rnd = 12345; k.ordhash = 99 + r; k.slow = !P.explicit_mode && Q.slowrank_p > 0 && Uk('B', r, 0, 0) < Q.slowrank_p;
		k.argv.push_back(strdup("prog")); for (size_t i = 0; i < P.args.size(); i++) k.argv.push_back(strdup(P.args[i].c_str())); k.argv.push_back(0);
		void **sp = (void **)(((uintptr_t)k.stack + k.stksz - 256) & ~(uintptr_t)15); *--sp = 0; *--sp = (void *)rank_entry; for (int i = 0; i < 6; i++) *--sp = 0; k.sp = sp;
	}
	static char alt[65536]; stack_t ss; ss.ss_sp = alt; ss.ss_size = sizeof alt; ss.ss_flags = 0; sigaltstack(&ss, 0);
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_sig; sa.sa_flags = SA_ONSTACK; int sg[] = {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL, SIGALRM}; for (int i = 0; i < 6; i++) sigaction(sg[i], &sa, 0);
	alarm(P.wall);
	g_cur = -1;
	for (;;) {
		// earliest of: next event, next runnable rank (ties by keyed hash)
		int best = -1; bool alive = false; for (int i = 0; i < P.ranks; i++) { if (R[i].st != DONE) alive = true; if (R[i].st == RUN) { if (best < 0 || R[i].ready < R[best].ready || (R[i].ready == R[best].ready && !P.explicit_mode && Hk('q', i, 0, R[i].calls) < Hk('q', best, 0, R[best].calls) && Q.lat_p > 0)) best = i; } }
		if (!alive) { int code = 0; for (int i = 0; i < P.ranks; i++) if (R[i].code) code = R[i].code; g_cur = -1; finish(code ? "exit" : "ok", code, ""); }
		if (!g_ev->empty() && (best < 0 || g_ev->top().t <= R[best].ready)) {
			Event e = g_ev->top(); g_ev->pop(); if (e.t > g_now) g_now = e.t; g_cur = -1;
			if (e.kind == E_ARRIVE) on_arrive(e.a); else if (e.kind == E_XFER) on_xfer((int)e.a, e.b); else on_ack((int)e.a, e.b);
			continue;
		}
		if (best < 0) { g_cur = -1; std::string d; for (int i = 0; i < P.ranks; i++) d += "rank " + std::to_string(i) + (R[i].st == DONE ? ": done; " : ": " + R[i].blockop + "; "); finish("deadlock", 99, d); }
		Rank &r = R[best]; if (r.ready > g_now) g_now = r.ready; g_cur = best;
		EhGlobals *g = __cxa_get_globals(); EhGlobals hold = *g; *g = r.eh;
		tsim_switch(&g_sched_sp, r.sp);
		*__cxa_get_globals() = hold;
		flush_out(g_cur);
	}
}
