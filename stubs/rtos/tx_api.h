// Declarations of the ThreadX calls task policies use; their meaning is given in tool/rtos.cpp.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
typedef unsigned char UCHAR; typedef char CHAR; typedef unsigned int UINT; typedef unsigned long ULONG; typedef void VOID;
#define TX_SUCCESS 0
#define TX_NO_INSTANCE 0x0D
#define TX_WAIT_FOREVER 0xFFFFFFFFul
#define TX_NO_WAIT 0
#define TX_AUTO_START 1
#define TX_DONT_START 0
#define TX_NO_TIME_SLICE 0
#define TX_TIMER_TICKS_PER_SECOND 100
typedef struct TX_THREAD_STRUCT { ULONG verif_state[32]; } TX_THREAD; typedef struct TX_SEMAPHORE_STRUCT { ULONG verif_state[8]; } TX_SEMAPHORE;
UINT tx_semaphore_create(TX_SEMAPHORE *, CHAR *, ULONG); UINT tx_semaphore_get(TX_SEMAPHORE *, ULONG); UINT tx_semaphore_put(TX_SEMAPHORE *); UINT tx_semaphore_delete(TX_SEMAPHORE *);
UINT tx_thread_create(TX_THREAD *, CHAR *, VOID (*)(ULONG), ULONG, VOID *, ULONG, UINT, UINT, ULONG, UINT); UINT tx_thread_resume(TX_THREAD *); UINT tx_thread_terminate(TX_THREAD *); UINT tx_thread_delete(TX_THREAD *);
void tx_thread_relinquish(); UINT tx_thread_sleep(ULONG); ULONG tx_time_get(); void tx_kernel_enter();
}
