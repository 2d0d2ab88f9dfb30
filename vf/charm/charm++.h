// Stand-in for Charm++: chares as fibers, messages in queues, delivery order chosen by a seeded scheduler.
#ifndef VF_CHARM_H
#define VF_CHARM_H
#include "ckio.h"
#include <cmath>
#include <deque>
#include <functional>
#include <memory>
struct CkMigrateMessage {};
struct CkArgMsg { int argc; char **argv; };
struct CkArrayIndex3D { int x, y, z; CkArrayIndex3D(int a = 0, int b = 0, int c = 0) : x(a), y(b), z(c) {} };
struct CkMessage { virtual ~CkMessage() {} virtual CkMessage *clone() const = 0; };
struct CkReductionMsg : CkMessage {
  std::vector<double> d;
  size_t getSize() const { return d.size() * sizeof(double); }
  int getLength() const { return (int)getSize(); }
  void *getData() { return d.data(); }
  CkMessage *clone() const { return new CkReductionMsg(*this); }
};
namespace Ck { namespace IO {
class FileReadyMsg : public CkMessage { public: File file; CkMessage *clone() const { return new FileReadyMsg(*this); } };
class SessionReadyMsg : public CkMessage { public: Session session; CkMessage *clone() const { return new SessionReadyMsg(*this); } };
} }
class CkCallback {
public:
  std::function<void(CkMessage *)> fire; // takes ownership of the message
  CkCallback() {}
  template <class P> CkCallback(int ep, const P &proxy) { P p = proxy; fire = [ep, p](CkMessage *m) { p.vf_ep(ep, m); }; }
};
struct CkReduction { enum reducerType { nop, sum_double, max_double, min_double, sum_int, max_int, min_int }; };
#define CkReductionTarget(cls, fn) CkIndex_##cls::fn()
#define CkAssert(x) do { if (!(x)) { fprintf(stderr, "VFERR CkAssert %s\n", #x); exit(71); } } while (0)
#define CkPrintf printf
#define CkError(...) fprintf(stderr, __VA_ARGS__)
double CkWallTimer();
int CkMyPe();
int CkNumPes();
void CkExit();
void CkAbort(const char *s, ...);
void CkStartCheckpoint(const char *dir, const CkCallback &cb);
namespace vf {
int cur();                                                  // chare now running (-1: the main chare)
void send(int dst, std::function<void()> deliver, const char *entry = "");          // network
void spawn(int owner, std::function<void()> body);          // entry method with when clauses
void yield();
void contribute(int who, std::vector<double> v, CkReduction::reducerType t, const CkCallback &cb);
struct State { virtual ~State() {} };
template <class Q> typename Q::value_type wait(Q &q) { while (q.empty()) yield(); auto m = q.front(); q.pop_front(); return m; }
template <class Q> typename Q::value_type wait_ref(Q &q, long ref) {
  for (;;) {
    for (auto it = q.begin(); it != q.end(); ++it)
      if ((long)it->a0 == ref) { auto m = *it; q.erase(it); return m; }
    yield();
  }
}
extern int N[3], NT;
extern CkArrayIndex3D creating;
extern std::vector<std::function<void(int phase)>> migratable;
extern std::function<void()> finished;
} // namespace vf
#endif
