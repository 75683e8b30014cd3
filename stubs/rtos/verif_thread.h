// std::thread as its callers see it, over calls whose meaning is given in tool/rtos.cpp.
#pragma once
#include <thread>
#include <future>
#include <functional>
#include <memory>
#include <mutex>
#include <condition_variable>
#include <chrono>
#include <tuple>
#include <utility>
extern "C" { long verif_thread_start(void (*)(void *), void *); void verif_thread_join(long) noexcept; void verif_thread_detach(long) noexcept; void verif_thread_end(long) noexcept; void verif_thread_misuse() noexcept; }
namespace std {
class verif_thread {
  long h = 0;
  template <class T> static void run(void *p) { unique_ptr<T> t(static_cast<T *>(p)); (*t)(); }
public:
  typedef std::thread::id id; typedef std::thread::native_handle_type native_handle_type;
  verif_thread() noexcept {} verif_thread(const verif_thread &) = delete; verif_thread &operator=(const verif_thread &) = delete;
  verif_thread(verif_thread &&o) noexcept : h(o.h) { o.h = 0; }
  verif_thread &operator=(verif_thread &&o) noexcept { if (h) verif_thread_misuse(); h = o.h; o.h = 0; return *this; }
  template <class F, class = enable_if_t<!is_same<decay_t<F>, verif_thread>::value>> explicit verif_thread(F &&f) { typedef decay_t<F> T; unique_ptr<T> t(new T(std::forward<F>(f))); h = verif_thread_start(&run<T>, t.get()); t.release(); }
  ~verif_thread() { if (h) verif_thread_misuse(); }
  bool joinable() const noexcept { return h != 0; } void join() { if (!h) verif_thread_misuse(); verif_thread_join(h); h = 0; } void detach() { if (!h) verif_thread_misuse(); verif_thread_detach(h); h = 0; }
  id get_id() const noexcept { return id(); } native_handle_type native_handle() { return native_handle_type(); } void swap(verif_thread &o) noexcept { long t = h; h = o.h; o.h = t; }
  static unsigned hardware_concurrency() noexcept { return std::thread::hardware_concurrency(); }
};
}
#define thread verif_thread
