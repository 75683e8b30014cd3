// Declarations of the Zephyr calls task policies use; their meaning is given in tool/rtos.cpp.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
typedef struct k_thread { unsigned long verif_state[32]; } k_thread_t; typedef struct k_sem { unsigned long verif_state[8]; } k_sem_t; typedef char k_thread_stack_t; typedef int32_t k_timeout_t; typedef k_thread *k_tid_t; typedef void (*k_thread_entry_t)(void *, void *, void *);
#define K_NO_WAIT 0
#define K_FOREVER (-1)
#define K_MSEC(x) (x)
int k_sem_init(k_sem *, unsigned, unsigned); int k_sem_take(k_sem *, int32_t); void k_sem_give(k_sem *); void k_sem_reset(k_sem *);
k_tid_t k_thread_create(k_thread *, k_thread_stack_t *, size_t, k_thread_entry_t, void *, void *, void *, int, uint32_t, int32_t); int k_thread_join(k_thread *, int32_t); void k_thread_abort(k_thread *); void k_thread_start(k_thread *);
void k_yield(); int32_t k_usleep(int32_t); int32_t k_msleep(int32_t); int64_t k_uptime_get(); void *k_malloc(size_t); void k_free(void *);
}
