/* Declarations of the libhackrf interface the blocks use. */
#pragma once
#include <stdint.h>
enum { HACKRF_SUCCESS = 0, HACKRF_TRUE = 1 };
struct hackrf_device;
typedef struct { struct hackrf_device *device; uint8_t *buffer; int buffer_length; int valid_length; void *rx_ctx; void *tx_ctx; } hackrf_transfer;
typedef int (*hackrf_sample_block_cb_fn)(hackrf_transfer *transfer);
#ifdef __cplusplus
extern "C" {
#endif
int hackrf_init(void); int hackrf_exit(void); int hackrf_open(struct hackrf_device **device); int hackrf_close(struct hackrf_device *device);
int hackrf_start_rx(struct hackrf_device *device, hackrf_sample_block_cb_fn callback, void *rx_ctx); int hackrf_stop_rx(struct hackrf_device *device);
int hackrf_start_tx(struct hackrf_device *device, hackrf_sample_block_cb_fn callback, void *tx_ctx); int hackrf_stop_tx(struct hackrf_device *device);
int hackrf_set_freq(struct hackrf_device *device, const uint64_t freq_hz); int hackrf_set_sample_rate(struct hackrf_device *device, const double freq_hz);
int hackrf_set_lna_gain(struct hackrf_device *device, uint32_t value); int hackrf_set_vga_gain(struct hackrf_device *device, uint32_t value);
int hackrf_set_txvga_gain(struct hackrf_device *device, uint32_t value); int hackrf_set_amp_enable(struct hackrf_device *device, const uint8_t value);
int hackrf_set_baseband_filter_bandwidth(struct hackrf_device *device, const uint32_t bandwidth_hz);
const char *hackrf_error_name(int errcode);
#ifdef __cplusplus
}
#endif
