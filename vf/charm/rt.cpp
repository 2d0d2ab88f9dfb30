#include "charm++.h"
#include <ucontext.h>
#include <sys/mman.h>
#include <cstdarg>
#include <map>
#include <random>
#include <set>
#include <string>
#include <tuple>
namespace vf {
int N[3], NT;
CkArrayIndex3D creating;
std::vector<std::function<void(int)>> migratable;
std::function<void()> finished;
struct Ev { int src; std::function<void()> go; const char *en; };
struct Fiber { ucontext_t c; int owner; std::function<void()> body; bool done = false; void *stk; };
static std::mt19937 rng;
// 0: every receiver handles its messages in the order they were sent; 1: in order per sender and receiver only;
// 2: as 1, but when several chares send a receiver equally many messages of one entry (as an earlier run of mode 0 found), the messages of a round are handled before those of the next
static int mode = 0;
typedef std::tuple<std::string, int, int> Key; // entry, sender, receiver
static std::map<Key, long> done_n, total_n;
static std::map<std::pair<std::string, int>, std::vector<int>> senders;
static bool held(const Ev &e, int dst) {
  if (mode != 2 || !e.en[0]) return false;
  auto q = senders.find({e.en, dst});
  if (q == senders.end()) return false;
  long k = done_n[Key(e.en, e.src, dst)], t = total_n[Key(e.en, e.src, dst)];
  for (int s : q->second)
    if (s != e.src && total_n[Key(e.en, s, dst)] == t && done_n[Key(e.en, s, dst)] < k) return true;
  return false;
}
static std::map<int, std::deque<Ev>> byrecv;
static std::map<std::pair<int, int>, std::deque<Ev>> bypair;
static std::vector<Fiber *> fibers;
static Fiber *run = nullptr;
static ucontext_t sched;
static int now = -1;
static bool exited = false;
static long delivered = 0;
int cur() { return now; }
void send(int dst, std::function<void()> d, const char *en) { if (mode == 0) byrecv[dst].push_back({now, d, en}); else bypair[{now, dst}].push_back({now, d, en}); }
static void tramp() { Fiber *f = run; f->body(); f->done = true; swapcontext(&f->c, &sched); }
static const size_t STK = 8u << 20;
static void resume(Fiber *f) { Fiber *o = run; run = f; now = f->owner; swapcontext(&sched, &f->c); run = o; }
void spawn(int owner, std::function<void()> body) {
  Fiber *f = new Fiber;
  f->owner = owner;
  f->body = body;
  f->stk = mmap(0, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  getcontext(&f->c);
  f->c.uc_stack.ss_sp = f->stk;
  f->c.uc_stack.ss_size = STK;
  f->c.uc_link = &sched;
  makecontext(&f->c, tramp, 0);
  fibers.push_back(f);
}
void yield() { if (!run) { fprintf(stderr, "VFERR when outside an entry method\n"); exit(72); } Fiber *f = run; swapcontext(&f->c, &sched); }
static void pump(int owner) {
  // continue every entry method of this chare until each is blocked again
  for (size_t i = 0; i < fibers.size(); i++) {
    Fiber *f = fibers[i];
    if (f->owner != owner || f->done)
      continue;
    resume(f);
  }
  for (size_t i = 0; i < fibers.size();)
    if (fibers[i]->done) { munmap(fibers[i]->stk, STK); delete fibers[i]; fibers.erase(fibers.begin() + i); } else i++;
}
struct Red { int n = 0; std::set<int> who; std::vector<double> acc; std::vector<std::vector<double>> parts; CkCallback cb; CkReduction::reducerType t; };
static std::map<long, Red> reds;
static std::map<int, long> redno;
void contribute(int who, std::vector<double> v, CkReduction::reducerType t, const CkCallback &cb) {
  long k = redno[who]++;
  Red &r = reds[k];
  if (r.n && (r.t != t || r.parts[0].size() != v.size())) { fprintf(stderr, "VFERR mismatched contributions\n"); exit(73); }
  r.t = t; r.n++; r.parts.push_back(v); r.cb = cb;
  if (r.n == NT) {
    CkReductionMsg *m = new CkReductionMsg;
    m->d = r.parts[0];
    for (int i = 1; i < NT; i++)
      for (size_t j = 0; j < m->d.size(); j++)
        m->d[j] = t == CkReduction::sum_double ? m->d[j] + r.parts[i][j] : t == CkReduction::max_double ? std::max(m->d[j], r.parts[i][j]) : std::min(m->d[j], r.parts[i][j]);
    CkCallback c = r.cb;
    reds.erase(k);
    int keep = now; now = -1;
    c.fire(m);
    now = keep;
  }
}
static int ckpts = 0;
static std::vector<CkCallback> pending_ck;
} // namespace vf
using namespace vf;
double CkWallTimer() { return 0.0; }
int CkMyPe() { return 0; }
int CkNumPes() { return 1; }
void CkExit() { exited = true; }
void CkAbort(const char *s, ...) { fprintf(stderr, "VFERR CkAbort %s\n", s); exit(74); }
void CkStartCheckpoint(const char *, const CkCallback &cb) { pending_ck.push_back(cb); }
namespace Ck { namespace IO {
struct F { std::string name, data; std::vector<char> wr; bool open = true; };
struct S { int file; size_t bytes, off, got = 0; CkCallback complete; };
static std::vector<F> files;
static std::vector<S> sess;
static void fire(CkCallback cb, CkMessage *m) { int keep = now; now = -1; cb.fire(m); now = keep; }
void open(std::string name, CkCallback opened, Options) {
  F f; f.name = name;
  files.push_back(f);
  FileReadyMsg *m = new FileReadyMsg; m->file.id = (int)files.size() - 1;
  fire(opened, m);
}
void startSession(File file, size_t bytes, size_t offset, CkCallback ready, CkCallback complete) {
  S s; s.file = file.id; s.bytes = bytes; s.off = offset; s.complete = complete;
  F &f = files.at(file.id);
  if (f.data.size() < offset + bytes) { f.data.resize(offset + bytes, '\0'); f.wr.resize(offset + bytes, 0); }
  sess.push_back(s);
  SessionReadyMsg *m = new SessionReadyMsg; m->session.id = (int)sess.size() - 1;
  fire(ready, m);
  if (bytes == 0) fire(complete, new CkReductionMsg);
}
void write(Session session, const char *data, size_t bytes, size_t offset) {
  S &s = sess.at(session.id);
  F &f = files.at(s.file);
  if (offset < s.off || offset + bytes > s.off + s.bytes) { fprintf(stderr, "VFERR write outside the session: %s offset %zu bytes %zu of %zu\n", f.name.c_str(), offset, bytes, s.bytes); exit(75); }
  for (size_t i = 0; i < bytes; i++) {
    if (f.wr[offset + i]) { fprintf(stderr, "VFERR two chares write the same bytes of %s\n", f.name.c_str()); exit(76); }
    f.wr[offset + i] = 1;
    f.data[offset + i] = data[i];
  }
  s.got += bytes;
  if (s.got == s.bytes) { CkCallback c = s.complete; fire(c, new CkReductionMsg); }
}
void close(File file, CkCallback closed) {
  F &f = files.at(file.id);
  for (size_t i = 0; i < f.name.size(); i++) if (f.name[i] == '/') f.name[i] = '_';
  FILE *o = fopen(f.name.c_str(), "w");
  fwrite(f.data.data(), 1, f.data.size(), o);
  fclose(o);
  f.open = false;
  fire(closed, new CkReductionMsg);
}
} }
extern void vf_start_main(CkArgMsg *m);
int main(int argc, char **argv) {
  const char *s = getenv("VF_SEED");
  rng.seed(s ? atoi(s) : 1);
  const char *m = getenv("VF_MODE");
  mode = m ? atoi(m) : 0;
  const char *cf = getenv("VF_COUNTS");
  if (cf && mode == 2) {
    FILE *f = fopen(cf, "r");
    char en[256]; int a, b; long n;
    while (f && fscanf(f, "%255s %d %d %ld", en, &a, &b, &n) == 4) { total_n[Key(en, a, b)] = n; senders[{en, b}].push_back(a); }
    if (f) fclose(f);
  }
  CkArgMsg a = {argc, argv};
  vf_start_main(&a);
  for (;;) {
    int dst = -2;
    Ev e;
    if (mode == 0) {
      std::vector<int> k;
      for (auto &q : byrecv) if (!q.second.empty()) k.push_back(q.first);
      if (!k.empty()) { dst = k[rng() % k.size()]; e = byrecv[dst].front(); byrecv[dst].pop_front(); }
    } else {
      std::vector<std::pair<int, int>> k;
      for (auto &q : bypair) if (!q.second.empty() && !held(q.second.front(), q.first.second)) k.push_back(q.first);
      if (k.empty()) for (auto &q : bypair) if (!q.second.empty()) k.push_back(q.first);
      if (!k.empty()) { auto c = k[rng() % k.size()]; dst = c.second; e = bypair[c].front(); bypair[c].pop_front(); }
    }
    if (dst == -2) {
      if (!pending_ck.empty()) { // quiescent: every chare waits for the checkpoint
        CkCallback cb = pending_ck.back();
        pending_ck.clear();
        ckpts++;
        for (auto &f : migratable) f(0);
        now = -1;
        cb.fire(nullptr);
        continue;
      }
      break;
    }
    delivered++;
    done_n[Key(e.en, e.src, dst)]++;
    now = dst;
    run = nullptr;
    e.go();
    pump(dst);
  }
  if (cf && mode == 0) {
    FILE *f = fopen(cf, "w");
    for (auto &q : done_n) if (!std::get<0>(q.first).empty()) fprintf(f, "%s %d %d %ld\n", std::get<0>(q.first).c_str(), std::get<1>(q.first), std::get<2>(q.first), q.second);
    fclose(f);
  }
  int stuck = 0;
  for (auto *f : fibers) if (!f->done) stuck++;
  for (auto &f : Ck::IO::files) if (f.open) { fprintf(stderr, "VFERR %s never closed\n", f.name.c_str()); stuck++; }
  printf("VFDONE exit=%d stuck=%d delivered=%ld checkpoints=%d\n", (int)exited, stuck, delivered, ckpts);
  fflush(stdout);
  if (finished) finished();
  _Exit(stuck ? 77 : 0);
}
