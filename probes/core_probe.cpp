// Harnesses for the small core facilities; nothing here is executed.
#include "cler.hpp"
#include "cler_embeddable_string.hpp"
#include <string>
extern "C" { bool verif_nondet() noexcept; size_t verif_slen(const char *p) noexcept; void verif_str(const char *p, size_t len, size_t cap, size_t want) noexcept; void verif_expect(bool) noexcept; void verif_never() noexcept;
  void verif_vm(bool valid, const void *data, const void *second, size_t size, size_t asked, int created, int only) noexcept; void verif_done() noexcept; void verif_cap(const void *obj, size_t cap) noexcept; }
#ifdef SET_STR
// every reachable string state is one built from some C string: the operations are checked from those
template <size_t N> struct H {
  typedef cler::EmbeddableString<N> E;
  static inline size_t cut(size_t n) { return n < N - 1 ? n : N - 1; }
  static inline void chk(const E &e, size_t want) { verif_str(e.c_str(), e.length(), N, want); verif_expect(e.empty() == (e.length() == 0)); verif_expect((const char *)e == e.c_str()); }
};
#define CAPS(X) X(1) X(2) X(16) X(64)
#define STR(N) \
  extern "C" void str_##N##_default() { cler::EmbeddableString<N> a; H<N>::chk(a, 0); } \
  extern "C" void str_##N##_cstr(const char *p) { cler::EmbeddableString<N> a(p); H<N>::chk(a, p ? H<N>::cut(verif_slen(p)) : 0); } \
  extern "C" void str_##N##_std(const std::string &s) { cler::EmbeddableString<N> a(s); H<N>::chk(a, H<N>::cut(verif_slen(s.c_str()))); } \
  extern "C" void str_##N##_copy(const char *p) { cler::EmbeddableString<N> a(p); cler::EmbeddableString<N> b(a); H<N>::chk(b, a.length()); H<N>::chk(a, a.length()); } \
  extern "C" void str_##N##_move(const char *p) { cler::EmbeddableString<N> a(p); size_t n = a.length(); cler::EmbeddableString<N> b(std::move(a)); H<N>::chk(b, n); } \
  extern "C" void str_##N##_assign(const char *p, const char *q) { cler::EmbeddableString<N> a(p), b(q); a = b; H<N>::chk(a, b.length()); H<N>::chk(b, b.length()); } \
  extern "C" void str_##N##_self(const char *p) { cler::EmbeddableString<N> a(p); size_t n = a.length(); cler::EmbeddableString<N> &r = a; a = r; H<N>::chk(a, n); } \
  extern "C" void str_##N##_literal(const char *p, const char *q) { cler::EmbeddableString<N> a(p); a = q; H<N>::chk(a, q ? H<N>::cut(verif_slen(q)) : 0); } \
  extern "C" void str_##N##_plus(const char *p, const char *q) { cler::EmbeddableString<N> a(p); auto c = a + q; H<N>::chk(c, q ? H<N>::cut(a.length() + verif_slen(q)) : a.length()); H<N>::chk(a, a.length()); } \
  extern "C" void str_##N##_cat(const char *p, const char *q) { cler::EmbeddableString<N> a(p), b(q); auto c = a + b; H<N>::chk(c, H<N>::cut(a.length() + b.length())); } \
  extern "C" void str_##N##_catself(const char *p) { cler::EmbeddableString<N> a(p); auto c = a + a; H<N>::chk(c, H<N>::cut(a.length() + a.length())); } \
  extern "C" void str_##N##_plusself(const char *p) { cler::EmbeddableString<N> a(p); size_t n = a.length(); a = a + a.c_str(); H<N>::chk(a, H<N>::cut(n + n)); }
CAPS(STR)
#endif
#ifdef SET_RESULT
struct Big { double d[3]; int k; };
static inline bool same(int a, int b) { return a == b; }
static inline bool same(cler::Empty, cler::Empty) { return true; }
static inline bool same(const Big &a, const Big &b) { return a.k == b.k; }
static inline bool same(const void *a, const void *b) { return a == b; }
#define RES(NAME, T, ARG) \
  typedef cler::Result<T, cler::Error> R_##NAME; \
  extern "C" void res_##NAME##_ok(ARG) { R_##NAME r(v); verif_expect(r.is_ok()); verif_expect(!r.is_err()); verif_expect(same(r.unwrap(), v)); verif_done(); } \
  extern "C" void res_##NAME##_err(ARG, int e) { R_##NAME r((cler::Error)e); verif_expect(!r.is_ok()); verif_expect(r.is_err()); verif_expect((int)r.unwrap_err() == e); verif_done(); } \
  extern "C" void resx_##NAME##_okerr(ARG) { R_##NAME r(v); verif_done(); (void)r.unwrap_err(); verif_never(); } \
  extern "C" void resx_##NAME##_errok(ARG, int e) { R_##NAME r((cler::Error)e); verif_done(); (void)r.unwrap(); verif_never(); } \
  extern "C" void res_##NAME##_copy(ARG, int e) { R_##NAME a(v), b((cler::Error)e); R_##NAME c(a); verif_expect(c.is_ok()); verif_expect(same(c.unwrap(), v)); a = b; verif_expect(a.is_err()); verif_expect((int)a.unwrap_err() == e); b = c; verif_expect(b.is_ok()); verif_expect(same(b.unwrap(), v)); verif_done(); } \
  extern "C" void resx_##NAME##_late(ARG, int e) { R_##NAME a(v), b((cler::Error)e); a = b; verif_done(); (void)a.unwrap(); verif_never(); } \
  extern "C" void resx_##NAME##_late2(ARG, int e) { R_##NAME a(v), b((cler::Error)e); b = a; verif_done(); (void)b.unwrap_err(); verif_never(); }
RES(int, int, int v) RES(empty, cler::Empty, cler::Empty v) RES(big, Big, const Big &v) RES(ptr, const void *, const void *v)
#endif
#ifdef SET_VMEM
#include "virtual_memory/cler_vmem_posix.hpp"
typedef cler::vmem::DoublyMappedAllocation A;
#define SEE(x, asked, made, only) verif_vm((x).valid(), (x).data(), (x).second_mapping(), (x).size(), asked, made, only)
extern "C" void vm_none() { A a; SEE(a, 0, 0, 1); }
extern "C" void vm_once(size_t n) { A a; bool k = a.create(n); SEE(a, n, k, 1); }
extern "C" void vm_again(size_t n, size_t m) { A a; a.create(n); bool k = a.create(m); SEE(a, m, k, 1); }
extern "C" void vm_move(size_t n) { A a; bool k = a.create(n); A b(std::move(a)); SEE(b, n, k, 1); SEE(a, n, 0, 0); }
extern "C" void vm_move_reuse(size_t n, size_t m) { A a; bool k = a.create(n); A b(std::move(a)); bool j = a.create(m); SEE(a, m, j, 0); SEE(b, n, k, 0); }
extern "C" void vm_assign(size_t n, size_t m) { A a, b; a.create(n); bool k = b.create(m); a = std::move(b); SEE(a, m, k, 1); SEE(b, m, 0, 0); }
extern "C" void vm_self(size_t n) { A a; bool k = a.create(n); A &r = a; a = std::move(r); SEE(a, n, k, 1); }
extern "C" void vm_probe() { bool k = cler::platform::supports_doubly_mapped_buffers(); (void)k; }
#endif
#ifdef SET_PLATFORM
extern "C" size_t plat_page() { return cler::platform::get_page_size(); }
extern "C" bool plat_map() { return cler::platform::supports_doubly_mapped_buffers(); }
#endif
#ifdef SET_ERROR
#include "error_list.inc" // one line per enumerator of the current source: ERR(name)
#define ERR(N) extern "C" const char *txt_##N() { return cler::to_str(cler::Error::N); } extern "C" bool fat_##N() { return cler::is_fatal(cler::Error::N); }
ERRORS(ERR)
extern "C" const char *txt__any(int e) { return cler::to_str((cler::Error)e); }
#endif
