// Declarations of the SoapySDR device interface the blocks use, without virtual dispatch, so that calls are found by name.
#pragma once
#include <complex>
#include <cstddef>
#include <string>
#include <vector>
#include <SoapySDR/Constants.h>
#include <SoapySDR/Types.hpp>
namespace SoapySDR {
class Stream;
class Device {
public:
    static KwargsList enumerate(const Kwargs &args = Kwargs());
    static KwargsList enumerate(const std::string &args);
    static Device *make(const Kwargs &args = Kwargs());
    static Device *make(const std::string &args);
    static void unmake(Device *device);
    std::string getDriverKey() const;
    std::string getHardwareKey() const;
    Kwargs getHardwareInfo() const;
    size_t getNumChannels(const int direction) const;
    Stream *setupStream(const int direction, const std::string &format, const std::vector<size_t> &channels = std::vector<size_t>(), const Kwargs &args = Kwargs());
    void closeStream(Stream *stream);
    size_t getStreamMTU(Stream *stream) const;
    int activateStream(Stream *stream, const int flags = 0, const long long timeNs = 0, const size_t numElems = 0);
    int deactivateStream(Stream *stream, const int flags = 0, const long long timeNs = 0);
    int readStream(Stream *stream, void *const *buffs, const size_t numElems, int &flags, long long &timeNs, const long timeoutUs = 100000) noexcept;
    int writeStream(Stream *stream, const void *const *buffs, const size_t numElems, int &flags, const long long timeNs = 0, const long timeoutUs = 100000) noexcept;
    int readStreamStatus(Stream *stream, size_t &chanMask, int &flags, long long &timeNs, const long timeoutUs = 100000);
    std::vector<std::string> listAntennas(const int direction, const size_t channel) const;
    void setAntenna(const int direction, const size_t channel, const std::string &name);
    std::string getAntenna(const int direction, const size_t channel) const;
    bool hasDCOffsetMode(const int direction, const size_t channel) const;
    void setDCOffsetMode(const int direction, const size_t channel, const bool automatic);
    bool hasDCOffset(const int direction, const size_t channel) const;
    void setDCOffset(const int direction, const size_t channel, const std::complex<double> &offset);
    bool hasIQBalance(const int direction, const size_t channel) const;
    void setIQBalance(const int direction, const size_t channel, const std::complex<double> &balance);
    std::vector<std::string> listGains(const int direction, const size_t channel) const;
    bool hasGainMode(const int direction, const size_t channel) const;
    void setGainMode(const int direction, const size_t channel, const bool automatic);
    void setGain(const int direction, const size_t channel, const double value);
    void setGain(const int direction, const size_t channel, const std::string &name, const double value);
    double getGain(const int direction, const size_t channel) const;
    Range getGainRange(const int direction, const size_t channel) const;
    Range getGainRange(const int direction, const size_t channel, const std::string &name) const;
    void setFrequency(const int direction, const size_t channel, const double frequency, const Kwargs &args = Kwargs());
    double getFrequency(const int direction, const size_t channel) const;
    RangeList getFrequencyRange(const int direction, const size_t channel) const;
    void setSampleRate(const int direction, const size_t channel, const double rate);
    double getSampleRate(const int direction, const size_t channel) const;
    RangeList getSampleRateRange(const int direction, const size_t channel) const;
    void setBandwidth(const int direction, const size_t channel, const double bw);
    double getBandwidth(const int direction, const size_t channel) const;
    RangeList getBandwidthRange(const int direction, const size_t channel) const;
};
}
