// Entry points of objects that more than one thread uses: race_<role>__<object>__<operation>(object, ...).
// worker: the block's processing call; gui: what the GUI thread calls; any: may run in several threads at once.
#include "cler.hpp"
#include <complex>
#include <ctime>
#include <cstring>
#include <mutex>
#include <vector>
#define WORKER(OBJ, T) extern "C" int race_worker__##OBJ(T *b) { auto r = b->procedure(); return r.is_err() ? 1 + (int)r.unwrap_err() : 0; }
#define GUI(OBJ, T) extern "C" void race_gui__##OBJ(T *b, int k, float x, float y, float w, float h) { if (k) b->render(); else b->set_initial_window(x, y, w, h); }
#ifdef SET_PLOTS
#include "desktop_blocks/plots/plot_timeseries.cpp"
#include "desktop_blocks/plots/plot_cspectrum.cpp"
#include "desktop_blocks/plots/plot_cspectrogram.cpp"
WORKER(timeseries, PlotTimeSeriesBlock)
GUI(timeseries, PlotTimeSeriesBlock)
WORKER(cspectrum, PlotCSpectrumBlock)
GUI(cspectrum, PlotCSpectrumBlock)
WORKER(cspectrogram, PlotCSpectrogramBlock)
GUI(cspectrogram, PlotCSpectrogramBlock)
#endif
#ifdef SET_ADSB
#include "desktop_blocks/adsb/adsb_aggregate.hpp"
WORKER(aggregate, ADSBAggregateBlock)
GUI(aggregate, ADSBAggregateBlock)
extern "C" size_t race_any__aggregate__get(const ADSBAggregateBlock *b, ADSBState *o, size_t n) { return b->get_aircrafts(o, n); }
extern "C" size_t race_any__aggregate__count(const ADSBAggregateBlock *b) { return b->aircraft_count(); }
#include "desktop_blocks/adsb/adsb_decoder.hpp"
extern "C" int race_worker__decoder(ADSBDecoderBlock *b, cler::ChannelBase<mode_s_msg> *out) { auto r = b->procedure(out); return r.is_err() ? 1 + (int)r.unwrap_err() : 0; }
extern "C" void race_any__decoder__filter(ADSBDecoderBlock *b, uint32_t f) { b->set_df_filter(f); }
#endif
#ifdef SET_SLAB
#include "desktop_blocks/blob.cpp"
extern "C" bool race_worker__slab__take(Slab *s, Blob *out) { auto r = s->take_slot(); if (r.is_err()) return false; *out = r.unwrap(); return true; }
extern "C" void race_any__slab__release(Slab *s, size_t i) { s->release_slot(i); }
extern "C" size_t race_any__slab__free(Slab *s) { return s->available_slots(); }
extern "C" size_t race_any__slab__sizes(Slab *s) { return s->capacity() + s->max_blob_size(); }
#endif
