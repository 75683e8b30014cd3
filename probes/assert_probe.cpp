// Everything of the framework that can be compiled here, with every member of every template instantiated once, so
// that each assertion appears in the intermediate representation.
#include <algorithm>
#include <array>
#include <atomic>
#include <cassert>
#include <chrono>
#include <cmath>
#include <complex>
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <functional>
#include <iostream>
#include <fstream>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <random>
#include <sstream>
#include <string>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <variant>
#include <vector>
#include <errno.h>
#include <fcntl.h>
#include <immintrin.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <unistd.h>
#include "liquid.h"
#include "imgui.h"
#include "implot.h"
#include "cler.hpp"
#include "cler_embeddable_string.hpp"
#include "cler_utils.hpp"
#include "task_policies/cler_desktop_tpolicy.hpp"
#include "virtual_memory/cler_vmem_posix.hpp"
#include "cler_desktop_utils.hpp"
template class dro::SPSCQueue<float>; template class dro::SPSCQueue<std::complex<double>>; template class dro::SPSCQueue<int, 16>;
template struct cler::Channel<float>; template struct cler::Channel<std::complex<float>>; template struct cler::Channel<int, 8>;
template struct cler::EmbeddableString<16>; template class cler::Result<cler::Empty, cler::Error>; template class cler::Result<int, cler::Error>;
#include "desktop_blocks/math/add.hpp"
#include "desktop_blocks/math/complex_demux.hpp"
#include "desktop_blocks/math/frequency_shift.hpp"
#include "desktop_blocks/math/gain.hpp"
#include "desktop_blocks/noise/awgn.hpp"
#include "desktop_blocks/utils/fanout.hpp"
#include "desktop_blocks/utils/throttle.hpp"
#include "desktop_blocks/utils/throughput.hpp"
#include "desktop_blocks/sinks/sink_null.hpp"
#include "desktop_blocks/sources/source_chirp.hpp"
#include "desktop_blocks/sources/source_cw.hpp"
#include "desktop_blocks/channelizers/polyphase_channelizer.hpp"
#include "desktop_blocks/resamplers/multistage_resampler.hpp"
#include "desktop_blocks/fm/fm_demod.hpp"
#include "desktop_blocks/filters/kaiser_lpf.hpp"
#include "desktop_blocks/ezgmsk/ezgmsk_demod.hpp"
#include "desktop_blocks/ezgmsk/ezgmsk_mod.hpp"
#include "desktop_blocks/sinks/sink_file.hpp"
#include "desktop_blocks/sources/source_file.hpp"
#include "desktop_blocks/udp/source_udp.hpp"
#include "desktop_blocks/udp/sink_udp.hpp"
#include "desktop_blocks/udp/shared.cpp"
#include "desktop_blocks/blob.cpp"
#include "desktop_blocks/plots/plot_timeseries.cpp"
#include "desktop_blocks/plots/plot_cspectrum.cpp"
#include "desktop_blocks/plots/plot_cspectrogram.cpp"
#include "desktop_blocks/adsb/adsb_aggregate.hpp"
#include "desktop_blocks/adsb/adsb_decoder.hpp"
#include "desktop_blocks/adsb/adsb_decoder.hpp"
typedef std::complex<float> cf;
template struct AddBlock<float>; template struct GainBlock<float>; template struct NoiseAWGNBlock<float>; template struct NoiseAWGNBlock<cf>; template struct FanoutBlock<float>; template struct ThrottleBlock<float>; template struct ThroughputBlock<float>;
template struct SinkNullBlock<float>; template struct SourceChirpBlock<float>; template struct SourceChirpBlock<cf>; template struct SourceCWBlock<float>; template struct SourceCWBlock<cf>; template struct MultiStageResamplerBlock<float>; template struct MultiStageResamplerBlock<cf>;
template struct KaiserLPFBlock<float>; template struct KaiserLPFBlock<cf>; template struct SinkFileBlock<float>; template struct SourceFileBlock<float>; template struct SourceUDPSocketBlock<Blob>; template struct SinkUDPSocketBlock<Blob>;
struct verif_packet { unsigned char b[64]; }; template struct SourceUDPSocketBlock<verif_packet>; template struct SinkUDPSocketBlock<verif_packet>;
struct verif_block : cler::BlockBase { cler::Channel<float> in; verif_block() : BlockBase("b"), in(8) {} cler::Result<cler::Empty, cler::Error> procedure(cler::ChannelBase<float> *) { return cler::Empty{}; } };
void verif_graph(verif_block &a, verif_block &b) { auto g = cler::make_desktop_flowgraph(cler::BlockRunner(&a, &b.in), cler::BlockRunner(&b, &a.in)); cler::FlowGraphConfig c; c.scheduler = cler::SchedulerType::FixedThreadPool; g.run(c); (void)g.is_stopped(); (void)g.config(); (void)g.stats(); g.stop(); g.run_for(std::chrono::seconds(1), c); g.run_for(std::chrono::milliseconds(1), c); }
void verif_calls(FanoutBlock<float> &f, PolyphaseChannelizerBlock &p, cler::Channel<float> &a, cler::Channel<float> &b, cler::Channel<cf> &x, cler::Channel<cf> &y) { (void)f.procedure(&a, &b); (void)p.procedure(&x, &y); }
