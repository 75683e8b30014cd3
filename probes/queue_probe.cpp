// Instantiates every channel operation for the static analyser.  Nothing here is executed.
#include "cler.hpp"
#include <new>
extern "C" void verif_filled(size_t);                    // the user filled / read `n` items of the offered window
extern "C" void verif_ctor_done(void *obj, size_t requested, size_t capacity, bool mapped, size_t size);
struct Odd12 { float a, b, c; };
struct Opq { Opq() noexcept; Opq(const Opq &) noexcept; Opq(Opq &&) noexcept; Opq &operator=(const Opq &) noexcept; Opq &operator=(Opq &&) noexcept; ~Opq() noexcept; char d[24]; };
template <class T> using H = cler::Channel<T, 0>;
#define META(V, T) extern "C" { extern const size_t meta_##V; const size_t meta_##V = sizeof(T); extern const size_t objsize_##V; }
#define COMMON(V, Q, T)                                                                                          \
  META(V, T) extern "C" const size_t objsize_##V = sizeof(Q);                                                    \
  extern "C" void P_push__##V(Q *q, const T *v) { q->Q::push(*v); }                                              \
  extern "C" bool P_try_push__##V(Q *q, const T *v) { return q->Q::try_push(*v); }                               \
  extern "C" void P_pushmv__##V(Q *q, T *v) { q->_queue.push(std::move(*v)); }                                   \
  extern "C" bool P_try_pushmv__##V(Q *q, T *v) { return q->_queue.try_push(std::move(*v)); }                    \
  extern "C" void C_pop__##V(Q *q, T *v) { q->Q::pop(*v); }                                                      \
  extern "C" bool C_try_pop__##V(Q *q, T *v) { return q->Q::try_pop(*v); }                                       \
  extern "C" size_t N_size__##V(Q *q) { return q->Q::size(); }                                                   \
  extern "C" size_t N_space__##V(Q *q) { return q->Q::space(); }                                                 \
  extern "C" bool N_empty__##V(Q *q) { return q->_queue.empty(); }                                               \
  extern "C" size_t N_capacity__##V(Q *q) { return q->_queue.capacity(); }                                       \
  extern "C" bool N_mapped__##V(Q *q) { return q->_queue.is_doubly_mapped(); }                                   \
  extern "C" size_t P_peekw__##V(Q *q, T **p1, size_t *s1, T **p2, size_t *s2) { return q->Q::peek_write(*p1, *s1, *p2, *s2); } \
  extern "C" size_t C_peekr__##V(Q *q, const T **p1, size_t *s1, const T **p2, size_t *s2) { return q->Q::peek_read(*p1, *s1, *p2, *s2); } \
  extern "C" void P_commitw__##V(Q *q, size_t n) { q->Q::commit_write(n); }                                      \
  extern "C" void C_commitr__##V(Q *q, size_t n) { q->Q::commit_read(n); }                                       \
  extern "C" void P_peekcommit__##V(Q *q, size_t n) { T *a, *b; size_t x, y; size_t t = q->Q::peek_write(a, x, b, y); if (n > t) n = t; verif_filled(n); q->Q::commit_write(n); } \
  extern "C" void C_peekcommit__##V(Q *q, size_t n) { const T *a, *b; size_t x, y; size_t t = q->Q::peek_read(a, x, b, y); if (n > t) n = t; verif_filled(n); q->Q::commit_read(n); } \
  extern "C" void P_dbf__##V(Q *q, T **p, size_t *n, bool *m) { bool d = q->_queue.is_doubly_mapped(); auto r = q->Q::write_dbf(); *p = r.first; *n = r.second; *m = d; } \
  extern "C" void C_dbf__##V(Q *q, const T **p, size_t *n, bool *m) { bool d = q->_queue.is_doubly_mapped(); auto r = q->Q::read_dbf(); *p = r.first; *n = r.second; *m = d; } \
  extern "C" void P_dbfcommit__##V(Q *q, size_t n) { auto r = q->Q::write_dbf(); if (n > r.second) n = r.second; verif_filled(n); q->Q::commit_write(n); } \
  extern "C" void C_dbfcommit__##V(Q *q, size_t n) { auto r = q->Q::read_dbf(); if (n > r.second) n = r.second; verif_filled(n); q->Q::commit_read(n); }
#define BULK(V, Q, T)                                                                                            \
  extern "C" size_t P_writeN__##V(Q *q, const T *s, size_t n) { return q->Q::writeN(s, n); }                     \
  extern "C" size_t C_readN__##V(Q *q, T *d, size_t n) { return q->Q::readN(d, n); }
#define HEAPCTOR(V, Q) extern "C" void ctor__##V(void *m, size_t n) { Q *q = new (m) Q(n); verif_ctor_done(q, n, q->_queue.capacity(), q->_queue.is_doubly_mapped(), q->Q::size()); }
#define STACKCTOR(V, Q, N) extern "C" void ctor__##V(void *m) { Q *q = new (m) Q(); verif_ctor_done(q, N, q->_queue.capacity(), q->_queue.is_doubly_mapped(), q->Q::size()); }
// items that are not trivially copyable only exist on the queue itself
template <size_t N> struct Raw { dro::SPSCQueue<Opq, N> _queue; Raw() {} explicit Raw(size_t n) : _queue(n) {}
  void push(const Opq &v) { _queue.push(v); } bool try_push(const Opq &v) { return _queue.try_push(v); } void pop(Opq &v) { _queue.pop(v); } bool try_pop(Opq &v) { return _queue.try_pop(v); }
  size_t size() { return _queue.size(); } size_t space() { return _queue.space(); }
  size_t peek_write(Opq *&a, size_t &x, Opq *&b, size_t &y) { return _queue.peek_write(a, x, b, y); } size_t peek_read(const Opq *&a, size_t &x, const Opq *&b, size_t &y) { return _queue.peek_read(a, x, b, y); }
  void commit_write(size_t n) { _queue.commit_write(n); } void commit_read(size_t n) { _queue.commit_read(n); }
  auto write_dbf() { return _queue.write_dbf(); } auto read_dbf() { return _queue.read_dbf(); } };
typedef H<float> Qf; typedef H<Odd12> Qo; typedef Raw<0> Qx; typedef cler::Channel<float, 16> Sf; typedef cler::Channel<Odd12, 7> So; typedef Raw<5> Sx; typedef H<std::complex<float>> Qc;
typedef std::complex<float> cf;
COMMON(f0, Qf, float) BULK(f0, Qf, float) HEAPCTOR(f0, Qf)
COMMON(c0, Qc, cf) BULK(c0, Qc, cf) HEAPCTOR(c0, Qc)
COMMON(o0, Qo, Odd12) BULK(o0, Qo, Odd12) HEAPCTOR(o0, Qo)
COMMON(x0, Qx, Opq) HEAPCTOR(x0, Qx)
COMMON(f16, Sf, float) BULK(f16, Sf, float) STACKCTOR(f16, Sf, 16)
COMMON(o7, So, Odd12) BULK(o7, So, Odd12) STACKCTOR(o7, So, 7)
COMMON(x5, Sx, Opq) STACKCTOR(x5, Sx, 5)
#ifdef MORE
struct Big { char d[4096]; }; struct Three { unsigned char a, b, c; }; struct Twenty { int a[5]; };
typedef cler::Channel<unsigned char, 0> Qb; typedef cler::Channel<double, 0> Qd; typedef cler::Channel<Three, 0> Qt; typedef cler::Channel<Twenty, 0> Qw;
typedef cler::Channel<unsigned char, 1> Sb; typedef cler::Channel<double, 2> Sd; typedef cler::Channel<Three, 9> St; typedef cler::Channel<Twenty, 3> Sw; typedef Raw<1> S1;
COMMON(b0, Qb, unsigned char) BULK(b0, Qb, unsigned char) HEAPCTOR(b0, Qb)
COMMON(d0, Qd, double) BULK(d0, Qd, double) HEAPCTOR(d0, Qd)
COMMON(t0, Qt, Three) BULK(t0, Qt, Three) HEAPCTOR(t0, Qt)
COMMON(w0, Qw, Twenty) BULK(w0, Qw, Twenty) HEAPCTOR(w0, Qw)
COMMON(b1, Sb, unsigned char) BULK(b1, Sb, unsigned char) STACKCTOR(b1, Sb, 1)
COMMON(d2, Sd, double) BULK(d2, Sd, double) STACKCTOR(d2, Sd, 2)
COMMON(t9, St, Three) BULK(t9, St, Three) STACKCTOR(t9, St, 9)
COMMON(w3, Sw, Twenty) BULK(w3, Sw, Twenty) STACKCTOR(w3, Sw, 3)
COMMON(x1, S1, Opq) STACKCTOR(x1, S1, 1)
#endif
