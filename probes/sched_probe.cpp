// Instantiates FlowGraph with an analysis-only task policy and blocks whose processing call is unknown code.
#include "cler.hpp"
#include "task_policies/cler_task_policy_base.hpp"
using namespace cler;
extern "C" {
  int sp_proc(int block, void* self, int first_fatal) noexcept;   // <0: success, otherwise an error code
  void sp_sleep(size_t us) noexcept; void sp_relax() noexcept; void sp_yield() noexcept; void sp_pin(size_t) noexcept;
  int sp_create(void (*)(void*), void*) noexcept; void sp_join(int) noexcept;
  void sp_ran() noexcept; void sp_born(const void*) noexcept; void sp_end() noexcept; void sp_cb(void*);
}
template <class D> void sp_body(void* p) { (*static_cast<D*>(p))(); }
struct Pol : TaskPolicyBase<Pol> {
  struct task_type { int id; };
  template <class F> static task_type create_task(F&& f) { using D = std::decay_t<F>; D c(std::forward<F>(f)); return task_type{sp_create(&sp_body<D>, &c)}; }
  static void join_task(task_type& t) { sp_join(t.id); }
  static void yield() { sp_yield(); }
  static void sleep_us(size_t us) { sp_sleep(us); }
  static void relax() { sp_relax(); }
  static void pin_to_core(size_t w) { sp_pin(w); }
};
template <int I> struct B {
  const char* name() const { return "b"; }
  template <class... O> Result<Empty, Error> procedure(O*...) { int e = sp_proc(I, this, (int)Error::TERMINATE_FLOWGRAPH); if (e < 0) return Empty{}; return static_cast<Error>(e); }
};
template <class S> struct Mk;
template <size_t... I> struct Mk<std::index_sequence<I...>> { using FG = FlowGraph<Pol, BlockRunner<B<(int)I>, ChannelBase<float>>...>; };
template <int N> using FGn = typename Mk<std::make_index_sequence<N>>::FG;
template <class S> struct Life;
template <size_t... I> struct Life<std::index_sequence<I...>> { static void none() { B<0>* b = nullptr; (void)b; typename Mk<std::index_sequence<I...>>::FG g{BlockRunner<B<(int)I>, ChannelBase<float>>(static_cast<B<(int)I>*>(nullptr), static_cast<ChannelBase<float>*>(nullptr))...}; sp_born(&g); } };
using C = FlowGraphConfig;
#define OPS(N) \
  extern "C" void life__run_stop__##N(FGn<N>* g, const C* c) { g->run(*c); sp_ran(); g->stop(); sp_end(); } \
  extern "C" void life__run_stop_stop__##N(FGn<N>* g, const C* c) { g->run(*c); g->stop(); g->stop(); sp_end(); } \
  extern "C" void life__run_destroy__##N(FGn<N>* g, const C* c) { g->run(*c); g->~FlowGraph(); sp_end(); } \
  extern "C" void life__run_stop_run_stop__##N(FGn<N>* g, const C* c) { g->run(*c); g->stop(); g->run(*c); g->stop(); sp_end(); } \
  extern "C" void life__run_for__##N(FGn<N>* g, const C* c) { g->run_for(std::chrono::milliseconds(250), *c); sp_end(); } \
  extern "C" void life__none__##N() { Life<std::make_index_sequence<N>>::none(); sp_end(); } \
  extern "C" bool acc__flag__##N(FGn<N>* g) { return g->is_stopped(); } \
  extern "C" void* acc__cb__##N(FGn<N>* g) { return (void*)g->on_err_terminate_cb(); } \
  extern "C" void* acc__ctx__##N(FGn<N>* g) { return g->on_err_terminate_context(); } \
  extern "C" const void* adr__stats__##N(FGn<N>* g) { return &g->stats(); } \
  extern const size_t objsize_##N = sizeof(FGn<N>);
OPS(1) OPS(2) OPS(3) OPS(5) OPS(10)
#ifdef MORE
OPS(4) OPS(7) OPS(9) OPS(16) OPS(40)
#endif
#define FLD(f) extern "C" const void* adr__cfg_##f(C* c) { return &c->f; }
FLD(scheduler) FLD(num_workers) FLD(adaptive_sleep) FLD(adaptive_sleep_multiplier) FLD(adaptive_sleep_max_us) FLD(adaptive_sleep_fail_threshold) FLD(collect_detailed_stats) FLD(max_calls_per_tick) FLD(pin_workers)
#define ST(f) extern "C" const void* adr__st_##f(BlockExecutionStats* c) { return &c->f; }
ST(successful_procedures) ST(failed_procedures) ST(current_adaptive_sleep_us) ST(consecutive_fails)
extern const size_t stats_size = sizeof(BlockExecutionStats);
extern const size_t cfg_size = sizeof(C);
