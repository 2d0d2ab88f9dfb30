// Stand-in for Charm++'s pup.h: sizing, packing and unpacking into one flat byte buffer.
#ifndef VF_PUP_H
#define VF_PUP_H
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <type_traits>
#include <vector>
#include <string>
namespace PUP {
class er {
public:
  enum Mode { SIZING, PACKING, UNPACKING } mode;
  std::vector<char> *buf;
  size_t pos = 0;
  er(Mode m, std::vector<char> *b) : mode(m), buf(b) {}
  bool isUnpacking() const { return mode == UNPACKING; }
  bool isPacking() const { return mode == PACKING; }
  bool isSizing() const { return mode == SIZING; }
  void bytes(void *q, size_t n) {
    if (n == 0)
      return;
    if (mode == SIZING) {
      pos += n;
      return;
    }
    if (pos + n > buf->size()) {
      fprintf(stderr, "VFERR pup: more bytes than the sizing pass counted\n");
      exit(70);
    }
    if (mode == PACKING)
      memcpy(buf->data() + pos, q, n);
    else
      memcpy(q, buf->data() + pos, n);
    pos += n;
  }
  template <class T> void operator()(T *q, size_t n) { static_assert(std::is_trivially_copyable<T>::value, "pup array"); bytes((void *)q, n * sizeof(T)); }
  template <class T> void operator()(T &q) { *this | q; }
};
} // namespace PUP
template <class T> inline typename std::enable_if<std::is_arithmetic<T>::value || std::is_enum<T>::value>::type operator|(PUP::er &p, T &t) { p.bytes((void *)&t, sizeof(T)); }
template <class T, size_t N> inline void operator|(PUP::er &p, T (&t)[N]) { for (size_t i = 0; i < N; i++) p | t[i]; }
template <class T> inline auto operator|(PUP::er &p, T &t) -> decltype(t.pup(p), void()) { t.pup(p); }
template <class T> inline void PUParray(PUP::er &p, T *q, size_t n) { p(q, n); }
template <class T> inline void operator|(PUP::er &p, std::vector<T> &v) {
  size_t n = v.size();
  p | n;
  if (p.isUnpacking())
    v.resize(n);
  for (auto &e : v)
    p | e;
}
#endif
