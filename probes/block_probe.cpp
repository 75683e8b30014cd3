// Instantiates every self-contained desktop block for the static analyser: construct, any number of processing
// calls, destroy.  Nothing here is executed.  The channel operations themselves are taken at their contract.
#include "cler.hpp"
#include <complex>
#include <cstring>
#include <vector>
#include <thread>
#ifdef SET_MATH
#include "desktop_blocks/math/add.hpp"
#include "desktop_blocks/math/complex_demux.hpp"
#include "desktop_blocks/math/frequency_shift.hpp"
#include "desktop_blocks/math/gain.hpp"
#include "desktop_blocks/noise/awgn.hpp"
#include "desktop_blocks/utils/fanout.hpp"
#include "desktop_blocks/utils/throttle.hpp"
#include "desktop_blocks/utils/throughput.hpp"
#include "desktop_blocks/sinks/sink_null.hpp"
#include "desktop_blocks/sources/source_chirp.hpp"
#include "desktop_blocks/sources/source_cw.hpp"
#endif
#ifdef SET_LIQUID
#include "desktop_blocks/channelizers/polyphase_channelizer.hpp"
#include "desktop_blocks/resamplers/multistage_resampler.hpp"
#include "desktop_blocks/fm/fm_demod.hpp"
#include "desktop_blocks/filters/kaiser_lpf.hpp"
#include "desktop_blocks/ezgmsk/ezgmsk_demod.hpp"
#include "desktop_blocks/ezgmsk/ezgmsk_mod.hpp"
#endif
#ifdef SET_SDR
#include "desktop_blocks/sources/source_soapysdr.hpp"
#include "desktop_blocks/sources/source_hackrf.hpp"
#include <atomic>
#include <iostream>
#define private public
#include "desktop_blocks/sinks/sink_hackrf.hpp"
#undef private
#endif
#ifdef SET_FILE
#include "desktop_blocks/sinks/sink_file.hpp"
#include "desktop_blocks/sources/source_file.hpp"
#endif
#ifdef SET_UDP
#include "desktop_blocks/udp/source_udp.hpp"
#include "desktop_blocks/udp/sink_udp.hpp"
#include "desktop_blocks/udp/shared.cpp"
#include "desktop_blocks/blob.cpp"
#endif
typedef std::complex<float> cf; typedef std::complex<double> cd;
template <class T> using Ch = cler::Channel<T, 0>;
template <class T> using Base = cler::ChannelBase<T>;
template struct cler::Channel<float, 0>; template struct cler::Channel<double, 0>; template struct cler::Channel<cf, 0>; template struct cler::Channel<int, 0>; template struct cler::Channel<unsigned char, 0>;
#if defined(SET_LIQUID) || defined(SET_UDP)
template struct cler::Channel<Blob, 0>;
#endif
struct Pkt { uint8_t b[16]; };
#ifdef SET_UDP
template struct cler::Channel<Pkt, 0>;
extern "C" { bool verif_valid_blob(const Blob &, void *) noexcept; bool verif_valid_pkt(const Pkt &, void *) noexcept; void verif_cb_blob(const Blob &, void *) noexcept; void verif_cb_pkt(const Pkt &, void *) noexcept; }
#endif
extern "C" { bool verif_nondet() noexcept; void verif_begin() noexcept; void verif_end(int code) noexcept; }
template <class R> static inline int code(R &r) { return r.is_err() ? 1 + (int)r.unwrap_err() : 0; }
// one: one item out per item in; src: source; snk: sink; any: no fixed relation; cN: N items in per item on each output
#define BLOCK(KIND, NAME, BT, PARAMS, CTOR, OUTS) \
  extern "C" void blk_##KIND##__##NAME PARAMS { BT b CTOR; while (verif_nondet()) { verif_begin(); auto r = b.procedure OUTS; verif_end(code(r)); } }
typedef const char *S;
#ifdef SET_MATH
BLOCK(one, add_f, AddBlock<float>, (Base<float> *o, S n, size_t k, size_t z), (n, k, z), (o))
BLOCK(one, add_c, AddBlock<cf>, (Base<cf> *o, S n, size_t k, size_t z), (n, k, z), (o))
BLOCK(one, demux, ComplexToMagPhaseBlock, (Base<float> *o, Base<float> *p, S n, int m, size_t z), (n, (ComplexToMagPhaseBlock::Mode)m, z), (o, p))
BLOCK(one, shift, FrequencyShiftBlock, (Base<cf> *o, S n, double f, double s, size_t z), (n, f, s, z), (o))
BLOCK(one, gain_f, GainBlock<float>, (Base<float> *o, S n, float g, size_t z), (n, g, z), (o))
BLOCK(one, gain_c, GainBlock<cf>, (Base<cf> *o, S n, const cf *g, size_t z), (n, *g, z), (o))
BLOCK(one, noise_f, NoiseAWGNBlock<float>, (Base<float> *o, S n, float g, size_t z), (n, g, z), (o))
BLOCK(one, noise_c, NoiseAWGNBlock<cf>, (Base<cf> *o, S n, float g, size_t z), (n, g, z), (o))
BLOCK(one, fanout1, FanoutBlock<float>, (Base<float> *o, S n, size_t z), (n, 1, z), (o))
BLOCK(one, fanout3, FanoutBlock<cf>, (Base<cf> *o, Base<cf> *p, Base<cf> *q, S n, size_t z), (n, 3, z), (o, p, q))
BLOCK(one, throttle_f, ThrottleBlock<float>, (Base<float> *o, S n, size_t s, size_t z), (n, s, z), (o))
BLOCK(one, throttle_c, ThrottleBlock<cf>, (Base<cf> *o, S n, size_t s, size_t z), (n, s, z), (o))
BLOCK(one, throughput_f, ThroughputBlock<float>, (Base<float> *o, S n, size_t z), (n, z), (o))
BLOCK(one, throughput_c, ThroughputBlock<cf>, (Base<cf> *o, S n, size_t z), (n, z), (o))
BLOCK(snk, null_f, SinkNullBlock<float>, (S n, size_t z), (n, nullptr, nullptr, z), ())
BLOCK(src, chirp_f, SourceChirpBlock<float>, (Base<float> *o, S n, float a, float f, float g, size_t s, float d), (n, a, f, g, s, d), (o))
BLOCK(src, chirp_c, SourceChirpBlock<cf>, (Base<cf> *o, S n, float a, float f, float g, size_t s, float d), (n, a, f, g, s, d), (o))
BLOCK(src, cw_f, SourceCWBlock<float>, (Base<float> *o, S n, float a, float f, size_t s), (n, a, f, s), (o))
BLOCK(src, cw_c, SourceCWBlock<cf>, (Base<cf> *o, S n, float a, float f, size_t s), (n, a, f, s), (o))
#endif
#ifdef SET_LIQUID
BLOCK(c1, chan1, PolyphaseChannelizerBlock, (Base<cf> *o, S n, float a, size_t m, size_t z), (n, 1, a, m, z), (o))
BLOCK(c3, chan3, PolyphaseChannelizerBlock, (Base<cf> *o, Base<cf> *p, Base<cf> *q, S n, float a, size_t m, size_t z), (n, 3, a, m, z), (o, p, q))
BLOCK(any, resamp_f, MultiStageResamplerBlock<float>, (Base<float> *o, S n, float r, float a, size_t z), (n, r, a, z), (o))
BLOCK(any, resamp_c, MultiStageResamplerBlock<cf>, (Base<cf> *o, S n, float r, float a, size_t z), (n, r, a, z), (o))
BLOCK(one, fm, FMDemodBlock, (Base<float> *o, S n, double r, double d, size_t z), (n, r, d, z), (o))
BLOCK(one, lpf_f, KaiserLPFBlock<float>, (Base<float> *o, S n, double a, double e, double c, double d, size_t z), (n, a, e, c, d, z), (o))
BLOCK(one, lpf_c, KaiserLPFBlock<cf>, (Base<cf> *o, S n, double a, double e, double c, double d, size_t z), (n, a, e, c, d, z), (o))
#endif
#ifdef SET_FILE
BLOCK(snk, file_f, SinkFileBlock<float>, (S n, S f, size_t z), (n, f, z), ())
BLOCK(snk, file_c, SinkFileBlock<cf>, (S n, S f, size_t z), (n, f, z), ())
BLOCK(src, rdfile_f, SourceFileBlock<float>, (Base<float> *o, S n, S f, bool r, SourceFileBlock<float>::on_eof e), (n, f, r, e), (o))
BLOCK(src, rdfile_c, SourceFileBlock<cf>, (Base<cf> *o, S n, S f, bool r, SourceFileBlock<cf>::on_eof e), (n, f, r, e), (o))
#endif
#ifdef SET_SDR
BLOCK(src, sdrrx_f, SourceSoapySDRBlock<float>, (Base<float> *o, S n, const std::string &a, double f, double r, double g, size_t k), (n, a, f, r, g, k), (o))
BLOCK(src, sdrrx_c, SourceSoapySDRBlock<cf>, (Base<cf> *o, S n, const std::string &a, double f, double r, double g, size_t k), (n, a, f, r, g, k), (o))
BLOCK(one, hackrx, SourceHackRFBlock, (Base<cf> *o, S n, uint64_t f, uint32_t r, int l, int v, bool a, size_t z), (n, f, r, l, v, a, z), (o))
// the device's own thread asks for samples to send
extern "C" void blk_snk__hacktx(S n, uint64_t f, uint32_t r, int g, bool a, size_t z, hackrf_transfer *t, unsigned short k) { SinkHackRFBlock b(n, f, r, g, a, z); while (verif_nondet()) { t->tx_ctx = &b; t->buffer_length = 2 * (int)k; verif_begin(); int e = SinkHackRFBlock::tx_callback(t); verif_end(e ? 1000 : 0); } }
#endif
#ifdef SET_UDP
typedef UDPBlock::SocketType ST; typedef const std::string &Str;
BLOCK(udp, src_blob, SourceUDPSocketBlock<Blob>, (Base<Blob> *o, S n, int t, Str a, size_t k), (n, (ST)t, a, nullptr, nullptr, nullptr, 256, k), (o))
BLOCK(udp, src_blob_v, SourceUDPSocketBlock<Blob>, (Base<Blob> *o, S n, int t, Str a, size_t k, void *c), (n, (ST)t, a, verif_valid_blob, verif_cb_blob, c, 256, k), (o))
BLOCK(udp, src_pkt, SourceUDPSocketBlock<Pkt>, (Base<Pkt> *o, S n, int t, Str a), (n, (ST)t, a), (o))
BLOCK(udp, src_pkt_v, SourceUDPSocketBlock<Pkt>, (Base<Pkt> *o, S n, int t, Str a, void *c), (n, (ST)t, a, verif_valid_pkt, verif_cb_pkt, c), (o))
BLOCK(udp, snk_blob, SinkUDPSocketBlock<Blob>, (S n, int t, Str a, size_t z), (n, (ST)t, a, nullptr, nullptr, z), ())
BLOCK(udp, snk_blob_v, SinkUDPSocketBlock<Blob>, (S n, int t, Str a, size_t z, void *c), (n, (ST)t, a, verif_cb_blob, c, z), ())
BLOCK(udp, snk_pkt, SinkUDPSocketBlock<Pkt>, (S n, int t, Str a, size_t z), (n, (ST)t, a, nullptr, nullptr, z), ())
BLOCK(udp, snk_pkt_v, SinkUDPSocketBlock<Pkt>, (S n, int t, Str a, size_t z, void *c), (n, (ST)t, a, verif_cb_pkt, c, z), ())
// the socket wrapper on its own: every way of making, using and destroying one
typedef UDPBlock::GenericDatagramSocket GS;
extern "C" { void verif_rx(long r, const void *buf, size_t n) noexcept; void verif_tx(long r, const void *buf, size_t n) noexcept; }
extern "C" void sock_receiver(int t, Str a) { GS s = GS::make_receiver((ST)t, a); }
extern "C" void sock_sender(int t, Str a) { GS s = GS::make_sender((ST)t, a); }
extern "C" void sock_moved(int t, Str a) { GS s = GS::make_receiver((ST)t, a); GS u(std::move(s)); }
extern "C" void sock_recv(const GS *s, uint8_t *b, size_t n) { long r = s->recv(b, n); verif_rx(r, b, n); }
extern "C" void sock_send(const GS *s, const uint8_t *b, size_t n) { long r = s->send(b, n); verif_tx(r, b, n); }
// the slab on its own
extern "C" { void verif_filled(size_t n) noexcept; void verif_took(bool ok, const void *data, size_t len, size_t slot, const void *owner, const void *slab) noexcept; void verif_gave(size_t slot) noexcept; }
extern "C" void slab_life(size_t k) { Slab s(k, 256); verif_filled(k); while (verif_nondet()) { auto r = s.take_slot(); bool ok = r.is_ok(); Blob b{}; if (ok) b = r.unwrap(); verif_took(ok, b.data, b.len, b.slot_idx, b.owner_slab, &s); if (ok) { b.release(); verif_gave(b.slot_idx); } } }
#endif
