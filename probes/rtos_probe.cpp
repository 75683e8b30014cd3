// The life of tasks as FlowGraph makes them: created into an array element by assignment, joined, joined again.
#include <cstddef>
#include <cstdint>
#include <stddef.h>
#include <stdint.h>
#include <atomic>
#include <memory>
#include <functional>
#include <utility>
#include <new>
#if defined(SET_DESKTOP)
#include "verif_thread.h"
#endif
#include "cler.hpp"
#if defined(SET_FREERTOS)
#include "task_policies/cler_freertos_tpolicy.hpp"
typedef cler::FreeRTOSTaskPolicy P;
#elif defined(SET_THREADX)
#include "task_policies/cler_threadx_tpolicy.hpp"
typedef cler::ThreadXTaskPolicy P;
#elif defined(SET_DESKTOP)
#include "task_policies/cler_desktop_tpolicy.hpp"
typedef cler::DesktopTaskPolicy P;
#else
#include "task_policies/cler_zephyr_tpolicy.hpp"
typedef cler::ZephyrTaskPolicy P;
#endif
extern "C" { void verif_work_made(const void *) noexcept; void verif_work_gone(const void *) noexcept; void verif_work_run(const void *) noexcept; void verif_joined(int) noexcept; void verif_end() noexcept; }
struct Work { int *graph; size_t index; Work(int *g, size_t i) noexcept : graph(g), index(i) { verif_work_made(this); } Work(const Work &o) noexcept : graph(o.graph), index(o.index) { verif_work_made(this); } Work(Work &&o) noexcept : graph(o.graph), index(o.index) { verif_work_made(this); } ~Work() { verif_work_gone(this); } void operator()() const noexcept { verif_work_run(this); } };
typedef P::task_type Tasks[2];
static void start(Tasks &t, int i, int *g) { t[i] = P::create_task(Work(g, i)); }
static void startCopy(Tasks &t, int i, int *g) { Work w(g, i); t[i] = P::create_task(w); }
extern "C" void life_one() { int g = 0; { Tasks t{}; start(t, 0, &g); P::join_task(t[0]); verif_joined(1); } verif_end(); }
extern "C" void life_again() { int g = 0; { Tasks t{}; start(t, 0, &g); P::join_task(t[0]); verif_joined(1); P::join_task(t[0]); } verif_end(); }
extern "C" void life_two() { int g = 0; { Tasks t{}; start(t, 0, &g); startCopy(t, 1, &g); P::join_task(t[0]); P::join_task(t[1]); verif_joined(2); } verif_end(); }
extern "C" void life_reuse() { int g = 0; { Tasks t{}; startCopy(t, 0, &g); P::join_task(t[0]); verif_joined(1); start(t, 0, &g); P::join_task(t[0]); verif_joined(2); P::join_task(t[0]); } verif_end(); }
extern "C" void life_never() { { Tasks t{}; P::join_task(t[1]); verif_joined(0); } verif_end(); }
extern "C" void life_wait() { P::yield(); P::sleep_us(100); P::relax(); verif_end(); }
