// stand-in for the parts of JUCE the plugin's signal path uses; memory JUCE leaves uninitialised is left uninitialised here
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <functional>
#include <limits>
#include <memory>
#include <optional>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#define jassert(x) ((void)0)
#define jassertquiet(x) ((void)(x))
#define jassertfalse ((void)0)
#define JUCE_CALLTYPE
#define JUCE_DECLARE_NON_COPYABLE(x) x(x const&) = delete; x& operator=(x const&) = delete;
#define JUCE_LEAK_DETECTOR(x)
#define JUCE_DECLARE_NON_COPYABLE_WITH_LEAK_DETECTOR(x) JUCE_DECLARE_NON_COPYABLE(x)
#define DBG(x) ((void)0)
extern "C" void mark(int);
namespace juce {
using uint8 = std::uint8_t; using int8 = std::int8_t; using uint16 = std::uint16_t; using int16 = std::int16_t;
using uint32 = std::uint32_t; using int32 = std::int32_t; using int64 = long long; using uint64 = unsigned long long;
template<typename... T> void ignoreUnused(T&&...) noexcept {}
template<typename T> constexpr T jmax(T a, T b) { return a < b ? b : a; }
template<typename T> constexpr T jmax(T a, T b, T c) { return jmax(a, jmax(b, c)); }
template<typename T> constexpr T jmin(T a, T b) { return b < a ? b : a; }
template<typename T> constexpr T jmin(T a, T b, T c) { return jmin(a, jmin(b, c)); }
template<typename T> constexpr T jlimit(T lo, T hi, T v) { return v < lo ? lo : (hi < v ? hi : v); }
template<typename T> constexpr bool exactlyEqual(T a, T b) { return a == b; }
template<typename T> constexpr bool approximatelyEqual(T a, T b) { return a == b; }
template<typename T> constexpr bool isPowerOfTwo(T v) { return (v & (v - 1)) == 0; }
inline int nextPowerOfTwo(int n) { int r = 1; while (r < n) r <<= 1; return r; }
template<typename T> constexpr bool isPositiveAndBelow(T v, T hi) { return T() <= v && v < hi; }
// JUCE rounds half to even (default rounding mode)
template<typename T> int roundToInt(T v) { return static_cast<int>(std::nearbyint(v)); }
template<typename A, typename B> constexpr bool isWithin(A, A, B) { return false; }
struct FloatVectorOperations
{
    template<typename T> static void multiply(T* d, T const* a, T const* b, std::type_identity_t<int> n) { for (int i = 0; i < n; ++i) d[i] = a[i] * b[i]; }
    template<typename T> static void multiply(T* d, T const* a, std::type_identity_t<T> b, int n) { for (int i = 0; i < n; ++i) d[i] = a[i] * b; }
    template<typename T> static void multiply(T* d, T const* a, int n) { for (int i = 0; i < n; ++i) d[i] *= a[i]; }
    template<typename T> static void multiply(T* d, T* a, int n) { for (int i = 0; i < n; ++i) d[i] *= a[i]; }
    template<typename T> static void multiply(T* d, std::type_identity_t<T> a, int n) { for (int i = 0; i < n; ++i) d[i] *= a; }
    template<typename T> static void add(T* d, T const* a, T const* b, std::type_identity_t<int> n) { for (int i = 0; i < n; ++i) d[i] = a[i] + b[i]; }
    template<typename T> static void add(T* d, T const* a, int n) { for (int i = 0; i < n; ++i) d[i] += a[i]; }
    template<typename T> static void addWithMultiply(T* d, T const* a, std::type_identity_t<T> b, int n) { for (int i = 0; i < n; ++i) d[i] += a[i] * b; }
    template<typename T> static void copy(T* d, T const* a, int n) { for (int i = 0; i < n; ++i) d[i] = a[i]; }
    template<typename T> static void copyWithMultiply(T* d, T const* a, std::type_identity_t<T> b, int n) { for (int i = 0; i < n; ++i) d[i] = a[i] * b; }
    template<typename T> static void clear(T* d, int n) { for (int i = 0; i < n; ++i) d[i] = T(0); }
    template<typename T> static void fill(T* d, std::type_identity_t<T> v, int n) { for (int i = 0; i < n; ++i) d[i] = v; }
};
template<typename T> class AudioBuffer
{
public:
    AudioBuffer() = default;
    AudioBuffer(int ch, int n) { alloc(ch, n); }
    AudioBuffer(AudioBuffer const& o) { alloc(o._ch, o._n); copyAll(o); }
    AudioBuffer(AudioBuffer&& o) noexcept : _ch(std::exchange(o._ch, 0)), _n(std::exchange(o._n, 0)), _data(std::move(o._data)), _ptr(std::move(o._ptr)) {}
    AudioBuffer& operator=(AudioBuffer const& o) { if (this != &o) { alloc(o._ch, o._n); copyAll(o); } return *this; }
    AudioBuffer& operator=(AudioBuffer&& o) noexcept { _ch = std::exchange(o._ch, 0); _n = std::exchange(o._n, 0); _data = std::move(o._data); _ptr = std::move(o._ptr); return *this; }
    int getNumChannels() const { return _ch; }
    int getNumSamples() const { return _n; }
    T const* getReadPointer(int c) const { return _ptr[std::size_t(c)]; }
    T const* getReadPointer(int c, int i) const { return _ptr[std::size_t(c)] + i; }
    T* getWritePointer(int c) { return _ptr[std::size_t(c)]; }
    T* getWritePointer(int c, int i) { return _ptr[std::size_t(c)] + i; }
    T const* const* getArrayOfReadPointers() const { return _ptr.data(); }
    T* const* getArrayOfWritePointers() { return _ptr.data(); }
    T getSample(int c, int i) const { return _ptr[std::size_t(c)][i]; }
    void setSample(int c, int i, T v) { _ptr[std::size_t(c)][i] = v; }
    void addSample(int c, int i, T v) { _ptr[std::size_t(c)][i] += v; }
    // contents are uninitialised unless kept or cleared
    void setSize(int ch, int n, bool keep = false, bool clearExtra = false, bool avoidRealloc = false)
    {
        (void)avoidRealloc;
        if (ch == _ch && n == _n) return;
        AudioBuffer b; b.alloc(ch, n);
        if (clearExtra) b.clear();
        if (keep) for (int c = 0; c < std::min(ch, _ch); ++c) for (int i = 0; i < std::min(n, _n); ++i) b.setSample(c, i, getSample(c, i));
        *this = std::move(b);
    }
    void clear() { for (int c = 0; c < _ch; ++c) clear(c, 0, _n); }
    void clear(int s, int n) { for (int c = 0; c < _ch; ++c) clear(c, s, n); }
    void clear(int c, int s, int n) { for (int i = 0; i < n; ++i) _ptr[std::size_t(c)][s + i] = T(0); }
    void addFrom(int dc, int ds, AudioBuffer const& src, int sc, int ss, int n, T g = T(1)) { addFrom(dc, ds, src.getReadPointer(sc, ss), n, g); }
    void addFrom(int dc, int ds, T const* src, int n, T g = T(1)) { T* d = getWritePointer(dc, ds); for (int i = 0; i < n; ++i) d[i] += g == T(1) ? src[i] : src[i] * g; }
    void copyFrom(int dc, int ds, AudioBuffer const& src, int sc, int ss, int n) { copyFrom(dc, ds, src.getReadPointer(sc, ss), n); }
    void copyFrom(int dc, int ds, T const* src, int n) { T* d = getWritePointer(dc, ds); for (int i = 0; i < n; ++i) d[i] = src[i]; }
    void copyFrom(int dc, int ds, T const* src, int n, T g) { T* d = getWritePointer(dc, ds); for (int i = 0; i < n; ++i) d[i] = src[i] * g; }
    void applyGain(int c, int s, int n, T g) { for (int i = 0; i < n; ++i) _ptr[std::size_t(c)][s + i] *= g; }
    void applyGain(int s, int n, T g) { for (int c = 0; c < _ch; ++c) applyGain(c, s, n, g); }
    void applyGain(T g) { applyGain(0, _n, g); }
    void makeCopyOf(AudioBuffer const& o, bool = false) { *this = o; }
private:
    void alloc(int ch, int n)
    {
        _ch = ch; _n = n;
        _data.reset(new T[std::size_t(ch) * std::size_t(n) + 1]);
        _ptr.clear();
        for (int c = 0; c < ch; ++c) _ptr.push_back(_data.get() + std::size_t(c) * std::size_t(n));
    }
    void copyAll(AudioBuffer const& o) { for (int c = 0; c < _ch; ++c) for (int i = 0; i < _n; ++i) setSample(c, i, o.getSample(c, i)); }
    int _ch{0}, _n{0};
    std::unique_ptr<T[]> _data{};
    std::vector<T*> _ptr{};
};
struct String { std::string s; String() = default; String(char const* p) : s(p) {} String(std::string p) : s(std::move(p)) {} };
struct StringRef { char const* p; StringRef(char const* q) : p(q) {} };
struct StringArray { std::vector<String> v; void add(String s) { v.push_back(std::move(s)); } };
struct StringPairArray {};
struct InputStream { float const* data{}; int channels{}; int frames{}; double rate{}; bool readable{true}; virtual ~InputStream() = default; };
struct OutputStream { virtual ~OutputStream() = default; };
struct FileOutputStream : OutputStream { static inline int alive{}, made{}; FileOutputStream() { ++alive; ++made; } ~FileOutputStream() override { --alive; } };
struct FileInputStream : InputStream {};
struct Source { float const* data; int channels, frames; double rate; int ok; };
struct File
{
    Source const* src{}; bool writable{true};
    File() = default; explicit File(Source const* s) : src(s) {} explicit File(char const*) {}
    std::unique_ptr<FileInputStream> createInputStream() const
    {
        if (src == nullptr || src->ok == 0) return nullptr;
        auto r = std::make_unique<FileInputStream>(); r->data = src->data; r->channels = src->channels; r->frames = src->frames; r->rate = src->rate; r->readable = src->ok == 1;
        return r;
    }
    std::unique_ptr<FileOutputStream> createOutputStream(std::size_t = 0) const { return writable ? std::make_unique<FileOutputStream>() : nullptr; }
};
struct AudioFormatReader
{
    std::unique_ptr<InputStream> in; double sampleRate{}; unsigned numChannels{}; int64 lengthInSamples{};
    virtual ~AudioFormatReader() = default;
    bool read(float* const* dest, int ch, int64 start, int n)
    {
        if (!in->readable) return false;
        for (int c = 0; c < ch; ++c) for (int i = 0; i < n; ++i) dest[c][i] = in->data[c * in->frames + int(start) + i];
        return true;
    }
    void read(AudioBuffer<float>* b, int ds, int n, int64 ss, bool, bool) { for (int c = 0; c < b->getNumChannels(); ++c) for (int i = 0; i < n; ++i) b->setSample(c, ds + i, in->data[c * in->frames + int(ss) + i]); }
};
struct AudioFormatManager
{
    bool reg{false};
    void registerBasicFormats() { reg = true; }
    AudioFormatReader* createReaderFor(std::unique_ptr<InputStream> s)
    {
        if (s == nullptr || !reg) return nullptr;
        auto* r = new AudioFormatReader{}; r->sampleRate = s->rate; r->numChannels = unsigned(s->channels); r->lengthInSamples = s->frames; r->in = std::move(s);
        return r;
    }
    AudioFormatReader* createReaderFor(File const& f) { return createReaderFor(f.createInputStream()); }
};
struct Written { double rate{}; unsigned channels{}; int bits{}, frames{}, writes{}; float* sink{}; bool refuse{}; };
inline Written written;
struct AudioFormatWriter
{
    OutputStream* out{};
    virtual ~AudioFormatWriter() { delete out; }
    bool writeFromFloatArrays(float const* const* p, int ch, int n)
    {
        ++written.writes; written.frames = n;
        for (int c = 0; c < ch; ++c) for (int i = 0; i < n; ++i) written.sink[c * n + i] = p[c][i];
        return true;
    }
    bool writeFromAudioSampleBuffer(AudioBuffer<float> const& b, int s, int n)
    {
        ++written.writes; written.frames = n;
        for (int c = 0; c < b.getNumChannels(); ++c) for (int i = 0; i < n; ++i) written.sink[c * n + i] = b.getSample(c, s + i);
        return true;
    }
};
struct WavAudioFormat
{
    AudioFormatWriter* createWriterFor(OutputStream* o, double sr, unsigned ch, int bits, StringPairArray const&, int)
    {
        if (o == nullptr || written.refuse) return nullptr;
        written.rate = sr; written.channels = ch; written.bits = bits;
        auto* w = new AudioFormatWriter{}; w->out = o; return w;
    }
};
struct AudioSourceChannelInfo
{
    AudioBuffer<float>* buffer{}; int startSample{}; int numSamples{};
    AudioSourceChannelInfo() = default; AudioSourceChannelInfo(AudioBuffer<float>* b, int s, int n) : buffer(b), startSample(s), numSamples(n) {}
    explicit AudioSourceChannelInfo(AudioBuffer<float>& b) : buffer(&b), startSample(0), numSamples(b.getNumSamples()) {}
};
struct AudioSource { virtual ~AudioSource() = default; };
struct MemoryAudioSource : AudioSource { AudioBuffer<float>& b; MemoryAudioSource(AudioBuffer<float>& x, bool, bool = false) : b(x) {} };
// nearest earlier source sample, zero after the end
struct ResamplingAudioSource : AudioSource
{
    MemoryAudioSource* in; double ratio{1.0}; int prepared{0}, ch;
    ResamplingAudioSource(MemoryAudioSource* s, bool, int c = 2) : in(s), ch(c) {}
    void setResamplingRatio(double r) { ratio = r; }
    void prepareToPlay(int n, double) { prepared = n; }
    void getNextAudioBlock(AudioSourceChannelInfo const& o)
    {
        for (int c = 0; c < o.buffer->getNumChannels(); ++c)
            for (int i = 0; i < o.numSamples; ++i) {
                int const p = int(double(i) * ratio);
                o.buffer->setSample(c, o.startSample + i, c < ch && p < in->b.getNumSamples() ? in->b.getSample(c, p) : 0.0F);
            }
    }
};
namespace dsp {
struct ProcessSpec { double sampleRate; uint32 maximumBlockSize; uint32 numChannels; };
template<typename T> struct AudioBlock
{
    using V = std::remove_const_t<T>;
    using NumericType = V; using SampleType = T;
    T* const* ch{}; uint32 nc{}; std::size_t start{}, n{};
    AudioBlock() = default;
    AudioBlock(T* const* c, std::size_t k, std::size_t s, std::size_t m) : ch(c), nc(uint32(k)), start(s), n(m) {}
    AudioBlock(T* const* c, std::size_t k, std::size_t m) : AudioBlock(c, k, 0, m) {}
    AudioBlock(AudioBuffer<V>& b) : AudioBlock(b.getArrayOfWritePointers(), std::size_t(b.getNumChannels()), 0, std::size_t(b.getNumSamples())) {}
    AudioBlock(AudioBuffer<V> const& b) requires(std::is_const_v<T>) : AudioBlock(b.getArrayOfReadPointers(), std::size_t(b.getNumChannels()), 0, std::size_t(b.getNumSamples())) {}
    template<typename U> requires(std::is_const_v<T> and std::is_same_v<U, V>) AudioBlock(AudioBlock<U> const& b) : ch(b.ch), nc(b.nc), start(b.start), n(b.n) {}
    std::size_t getNumChannels() const { return nc; }
    std::size_t getNumSamples() const { return n; }
    T* getChannelPointer(std::size_t c) const { return ch[c] + start; }
    V getSample(int c, int i) const { return getChannelPointer(std::size_t(c))[i]; }
    void setSample(int c, int i, V v) const { getChannelPointer(std::size_t(c))[i] = v; }
    AudioBlock getSubBlock(std::size_t s, std::size_t m) const { return {ch, nc, start + s, m}; }
    AudioBlock getSubBlock(std::size_t s) const { return {ch, nc, start + s, n - s}; }
    AudioBlock getSingleChannelBlock(std::size_t c) const { return {ch + c, 1, start, n}; }
    AudioBlock const& clear() const { for (std::size_t c = 0; c < nc; ++c) for (std::size_t i = 0; i < n; ++i) getChannelPointer(c)[i] = V(0); return *this; }
    template<typename U> AudioBlock const& copyFrom(AudioBlock<U> const& o) const { for (std::size_t c = 0; c < std::min<std::size_t>(nc, o.nc); ++c) for (std::size_t i = 0; i < std::min(n, o.n); ++i) getChannelPointer(c)[i] = o.getChannelPointer(c)[i]; return *this; }
    template<typename U> AudioBlock const& add(AudioBlock<U> const& o) const { for (std::size_t c = 0; c < std::min<std::size_t>(nc, o.nc); ++c) for (std::size_t i = 0; i < std::min(n, o.n); ++i) getChannelPointer(c)[i] += o.getChannelPointer(c)[i]; return *this; }
    AudioBlock const& multiplyBy(V g) const { for (std::size_t c = 0; c < nc; ++c) for (std::size_t i = 0; i < n; ++i) getChannelPointer(c)[i] *= g; return *this; }
};
template<typename T> AudioBlock(AudioBuffer<T>&) -> AudioBlock<T>;
template<typename T> struct ProcessContextReplacing
{
    using SampleType = T; using AudioBlockType = AudioBlock<T>; using ConstAudioBlockType = AudioBlock<T const>;
    AudioBlock<T> b; bool isBypassed{false};
    ProcessContextReplacing(AudioBlock<T>& x) : b(x) {}
    static constexpr bool usesSeparateInputAndOutputBlocks() { return false; }
    AudioBlock<T const> getInputBlock() const { return b; }
    AudioBlock<T> getOutputBlock() const { return b; }
};
template<typename T> struct ProcessContextNonReplacing
{
    using SampleType = T; using AudioBlockType = AudioBlock<T>; using ConstAudioBlockType = AudioBlock<T const>;
    AudioBlock<T const> i; AudioBlock<T> o; bool isBypassed{false};
    ProcessContextNonReplacing(AudioBlock<T const> const& x, AudioBlock<T>& y) : i(x), o(y) {}
    static constexpr bool usesSeparateInputAndOutputBlocks() { return true; }
    AudioBlock<T const> getInputBlock() const { return i; }
    AudioBlock<T> getOutputBlock() const { return o; }
};
template<typename T> struct WindowingFunction
{
    enum WindowingMethod { rectangular, triangular, hann, hamming };
    static void fillWindowingTables(T* p, std::size_t n, WindowingMethod m, bool normalise = true, T = T(0))
    {
        double const pi2 = 6.283185307179586476925286766559;
        for (std::size_t i = 0; i < n; ++i) p[i] = m == rectangular ? T(1) : m == hann ? T(0.5 - 0.5 * std::cos(pi2 * double(i) / double(n - 1))) : m == hamming ? T(0.54 - 0.46 * std::cos(pi2 * double(i) / double(n - 1))) : T(1.0 - std::abs((2.0 * double(i) - double(n - 1)) / double(n)));
        if (normalise) { T s = T(0); for (std::size_t i = 0; i < n; ++i) s += p[i]; for (std::size_t i = 0; i < n; ++i) p[i] *= T(n) / s; }
    }
};
struct Convolution
{
    struct Latency { int latencyInSamples; }; struct NonUniform { int headSizeInSamples; };
    enum class Stereo { no, yes }; enum class Trim { no, yes }; enum class Normalise { no, yes };
};
}  // namespace dsp
}  // namespace juce
