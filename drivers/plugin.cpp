// the plugin's signal path, with a stand-in for JUCE
#include <cstddef>
#include <span>
#include <tuple>
#include <neo/algorithm.hpp>
#include <dsp/AudioBuffer.cpp>
#include <dsp/AudioFile.cpp>
#include <dsp/ConstantOverlapAdd.hpp>
#include <dsp/DenseConvolution.cpp>
#include <dsp/Convolution.cpp>
#include <dsp/Convolution.hpp>
using uz = std::size_t;
using juce::AudioBuffer;
using Ctx = juce::dsp::ProcessContextNonReplacing<float>;
static auto buf(float const* x, int ch, int n) { AudioBuffer<float> b{ch, n}; for (int c = 0; c < ch; ++c) for (int i = 0; i < n; ++i) b.setSample(c, i, x[c * n + i]); return b; }
static void put(AudioBuffer<float> const& b, float* y) { for (int c = 0; c < b.getNumChannels(); ++c) for (int i = 0; i < b.getNumSamples(); ++i) y[c * b.getNumSamples() + i] = b.getSample(c, i); }
// frame callback: identity, or multiplication by the frame number
struct frames final : neo::ConstantOverlapAdd<float>
{
    float* seen; uz count{0}, prepared{0}, resets{0}, weigh;
    frames(int f, int h, float* s, uz w) : neo::ConstantOverlapAdd<float>{f, h}, seen{s}, weigh{w} {}
    void prepareFrame(juce::dsp::ProcessSpec const& s) override { prepared = s.maximumBlockSize * 100 + s.numChannels; }
    void processFrame(juce::dsp::ProcessContextReplacing<float> const& c) override
    {
        ++count; auto b = c.getOutputBlock();
        if (weigh != 0) b.multiplyBy(float(count));
    }
    void resetFrame() override { ++resets; }
};
// stream n samples per channel in calls of the given sizes (the last call takes what is left)
template<typename P> static void stream(P& p, float* x, float* y, int ch, int n, uz const* calls, uz k, int replace)
{
    float* xs[4] = {x, x + n, x + 2 * n, x + 3 * n}; float* ys[4] = {y, y + n, y + 2 * n, y + 3 * n};
    uz at = 0;
    for (uz i = 0; at < uz(n); ++i) {
        auto const m = std::min(calls[i % k], uz(n) - at);
        auto in = juce::dsp::AudioBlock<float>{xs, uz(ch), at, m}; auto out = juce::dsp::AudioBlock<float>{ys, uz(ch), at, m};
        if (replace != 0) { out.copyFrom(in); p.process(juce::dsp::ProcessContextReplacing<float>{out}); } else { p.process(Ctx{in, out}); }
        at += m;
    }
}
// history: bit 0 prior stream then reset, bit 1 prior stream then prepare, bit 2 replacing context
extern "C" void d_pl_cola(float* x, float* y, float* z, int ch, int n, int f, int h, unsigned maxb, uz const* calls, uz k, uz weigh, uz history, uz* e)
{
    frames p{f, h, nullptr, weigh};
    p.prepare({44100.0, maxb, unsigned(ch)});
    e[0] = p.prepared;
    if ((history & 1) != 0) { stream(p, x, z, ch, n, calls, k, 0); p.reset(); }
    if ((history & 2) != 0) { stream(p, x, z, ch, n, calls, k, 0); p.prepare({44100.0, maxb, unsigned(ch)}); }
    p.count = 0;
    stream(p, x, y, ch, n, calls, k, int(history & 4));
    e[1] = p.count; e[2] = p.resets;
}
// dense: mode 0 no impulse, 1 impulse loaded before prepare, 2 after, 3 twice, 4 prepared and used in another way first, 5 another impulse used first
extern "C" void d_pl_dense(float* x, float const* hh, float* y, int ch, int n, int m, double rate, double frate, int block, unsigned maxb, uz const* calls, uz k, int mode)
{
    juce::Source s{hh, ch, m, frate, 1}; juce::File f{&s};
    juce::Source s2{hh, ch, m > 1 ? m / 2 : 1, frate, 1}; juce::File f2{&s2};
    neo::DenseConvolution p{block};
    if (mode == 1 || mode == 3 || mode == 4) p.loadImpulseResponse(f.createInputStream());
    if (mode == 5) p.loadImpulseResponse(f2.createInputStream());
    if (mode == 4) { p.prepare({rate * 2, maxb + 1, unsigned(ch)}); stream(p, x, y, ch, n, calls, k, 0); }
    p.prepare({rate, maxb, unsigned(ch)});
    if (mode == 5) { stream(p, x, y, ch, n, calls, k, 0); p.reset(); }
    if (mode == 2 || mode == 3 || mode == 5) p.loadImpulseResponse(f.createInputStream());
    stream(p, x, y, ch, n, calls, k, 0);
}
extern "C" void d_pl_denseconv(float const* x, float const* hh, float* y, int ch, int n, int m, int block, int which, uz* e)
{
    using namespace neo::convolution;
    auto const r = which == 0 ? neo::dense_convolve<upola_convolver<std::complex<float>>>(buf(x, ch, n), buf(hh, ch, m), block) : neo::dense_convolve<upols_convolver<std::complex<float>>>(buf(x, ch, n), buf(hh, ch, m), block);
    e[0] = uz(r.getNumChannels()); e[1] = uz(r.getNumSamples()); put(r, y);
}
extern "C" void d_pl_sparseconv(float const* x, float const* hh, float* y, int ch, int n, int m, int block, double rate, float db, int low, uz* e)
{
    auto const r = neo::sparse_convolve(buf(x, ch, n), buf(hh, ch, m), block, rate, db, low);
    e[0] = uz(r.getNumChannels()); e[1] = uz(r.getNumSamples()); put(r, y);
}
// order: 0 prepare, load; 1 load, prepare; 2 reset after both; 3 unreadable file; 4 reset then prepare; 5 another rate, size and channel count first; 6 another impulse first; 7 an unreadable file afterwards
extern "C" void d_pl_conv(float* x, float const* hh, float* y, int ch, int n, int m, double rate, double frate, unsigned maxb, uz const* calls, uz k, int order, int replace)
{
    juce::Source s{hh, 2, m, frate, order == 3 ? 0 : 1}; juce::File f{&s};
    juce::Source s2{hh, 2, m > 1 ? m / 2 : 1, frate, 1}; juce::File f2{&s2};
    juce::Source s3{hh, 2, m, frate, 0}; juce::File f3{&s3};
    neo::Convolution p;
    using C = neo::Convolution;
    if (order == 5) { p.prepare({rate * 2, maxb * 2, unsigned(3 - ch)}); p.loadImpulseResponse(f, C::Stereo::yes, C::Trim::no, 0, C::Normalise::no); }
    if (order == 6) { p.prepare({rate, maxb, unsigned(ch)}); p.loadImpulseResponse(f2, C::Stereo::yes, C::Trim::no, 0, C::Normalise::no); stream(p, x, y, ch, n, calls, k, 0); }
    if (order == 1) p.loadImpulseResponse(f, C::Stereo::yes, C::Trim::no, 0, C::Normalise::no);
    if (order != 6) p.prepare({rate, maxb, unsigned(ch)});
    if (order != 1 && order != 5) p.loadImpulseResponse(f, C::Stereo::yes, C::Trim::no, 0, C::Normalise::no);
    if (order == 2 || order == 4) p.reset();
    if (order == 7) p.loadImpulseResponse(f3, C::Stereo::yes, C::Trim::no, 0, C::Normalise::no);
    if (order == 4) p.prepare({rate, maxb, unsigned(ch)});
    stream(p, x, y, ch, n, calls, k, replace);
}
extern "C" void d_pl_resample(float const* x, float* y, int ch, int n, double from, double to, int load, uz* e, double* sr)
{
    juce::Source s{x, ch, n, from, 1}; juce::File f{&s}; juce::AudioFormatManager m; m.registerBasicFormats();
    auto const r = load == 0 ? neo::resample({buf(x, ch, n), from}, to) : load == 1 ? neo::loadAndResample(m, f, to) : neo::load(m, f);
    e[0] = uz(r.buffer.getNumChannels()); e[1] = uz(r.buffer.getNumSamples()); *sr = r.sampleRate; put(r.buffer, y);
}
extern "C" void d_pl_badload(float const* x, int ch, int n, double from, int ok, int reg, uz* e, double* sr)
{
    juce::Source s{x, ch, n, from, ok}; juce::File f{&s}; juce::AudioFormatManager m; if (reg != 0) m.registerBasicFormats();
    auto const r = neo::load(m, f); e[0] = uz(r.buffer.getNumChannels()); e[1] = uz(r.buffer.getNumSamples()); *sr = r.sampleRate;
}
extern "C" void d_pl_write(float const* x, float* y, int ch, int n, double rate, int bits, int refuse, uz* e, double* sr)
{
    juce::written = {}; juce::written.sink = y; juce::written.refuse = refuse != 0; juce::FileOutputStream::alive = 0; juce::FileOutputStream::made = 0;
    neo::writeToWavFile(juce::File{}, buf(x, ch, n), rate, bits);
    e[0] = juce::written.channels; e[1] = uz(juce::written.bits); e[2] = uz(juce::written.frames); e[3] = uz(juce::written.writes); e[4] = uz(juce::FileOutputStream::alive); e[5] = uz(juce::FileOutputStream::made); *sr = juce::written.rate;
}
struct probe
{
    uz* e; uz k{0};
    void prepare(juce::dsp::ProcessSpec const& s) { e[k++] = 1000000 + s.maximumBlockSize * 100 + s.numChannels; }
    void reset() { e[k++] = 2000000; }
    template<typename C> void process(C const& c) { auto i = c.getInputBlock(); auto o = c.getOutputBlock(); e[k++] = 3000000 + i.getNumSamples() * 100 + o.getNumSamples(); for (uz ch = 0; ch < i.getNumChannels(); ++ch) for (uz j = 0; j < i.getNumSamples(); ++j) o.getChannelPointer(ch)[j] = i.getChannelPointer(ch)[j] * float(k); }
};
extern "C" void d_pl_blocks(float* x, float* y, int ch, int n, uz block, double rate, uz* e)
{
    float* xs[4] = {x, x + n, x + 2 * n, x + 3 * n}; float* ys[4] = {y, y + n, y + 2 * n, y + 3 * n};
    probe p{e}; neo::processBlocks(p, juce::dsp::AudioBlock<float const>{juce::dsp::AudioBlock<float>{xs, uz(ch), 0, uz(n)}}, juce::dsp::AudioBlock<float>{ys, uz(ch), 0, uz(n)}, block, rate);
}
