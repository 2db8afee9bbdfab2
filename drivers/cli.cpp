// the command line convolver, with stand-ins for dr_wav, fmt and std::filesystem
#include <chrono>
#include <cstddef>
#include <algorithm>
#include <span>
#include <tuple>
#define main neo_cli_main
#include NEO_CLI_MAIN
#undef main
using uz = std::size_t;
extern "C" void mark(int);
// files: path is one character, '0' + index; opened/closed counts are kept
struct file { unsigned ok, channels, rate; uz frames, readable; float const* data; };
static file files[2];
static float* sink; static uz* info; static float const* fresh; static float peak; static uz ncalls;
drwav_bool32 drwav_init_file(drwav* w, char const* p, void const*)
{
    auto const& f = files[p[0] - '0'];
    if (f.ok == 0) return 0;
    ++info[0];
    w->channels = drwav_uint16(f.channels); w->sampleRate = f.rate; w->totalPCMFrameCount = f.frames; w->id = p[0] - '0'; w->open = 1;
    return 1;
}
drwav_uint64 drwav_read_pcm_frames_f32(drwav* w, drwav_uint64 n, float* o)
{
    auto const& f = files[w->id];
    if (w->open != 1) ++info[9];
    if (n > f.readable) n = f.readable;
    for (uz i = 0; i < n * f.channels; ++i) o[i] = f.data[i];
    return n;
}
drwav_bool32 drwav_init_file_write(drwav* w, char const* p, drwav_data_format const* f, void const*)
{
    ++info[0]; ++info[2]; if (p[0] != info[14]) ++info[9];
    w->channels = drwav_uint16(f->channels); w->open = 2; w->id = p[0] - '0';
    info[3] = f->channels; info[4] = f->sampleRate; info[5] = f->bitsPerSample; info[6] = f->format; info[7] = uz(f->container); info[10] = uz(p[0]);
    return 1;
}
drwav_uint64 drwav_write_pcm_frames(drwav* w, drwav_uint64 n, void const* d)
{
    if (w->open != 2) ++info[9];
    auto const* f = static_cast<float const*>(d);
    for (uz i = 0; i < n * w->channels; ++i) sink[i] = f[i];
    sink += n * w->channels;
    info[8] = n;
    return n;
}
std::uint32_t drwav_uninit(drwav* w) { ++info[1]; if (w->open == 0) ++info[9]; w->open = 0; return 0; }
// out: channel-major copy of the loaded buffer
template<typename F> static void ld(float const* d, unsigned ok, unsigned ch, unsigned rate, uz frames, uz readable, F* out, uz* e, double* sr)
{
    info = e; files[0] = file{ok, ch, rate, frames, readable, d};
    auto const r = neo::load_wav_file<F>("0");
    e[11] = r.first.extent(0); e[12] = r.first.extent(1); *sr = r.second;
    for (uz c = 0; c < r.first.extent(0); ++c) for (uz i = 0; i < r.first.extent(1); ++i) out[c * r.first.extent(1) + i] = r.first(c, i);
}
extern "C" void d_cli_load(float const* d, unsigned ok, unsigned ch, unsigned rate, uz frames, uz readable, float* out, uz* e, double* sr) { ld<float>(d, ok, ch, rate, frames, readable, out, e, sr); }
extern "C" void d_cli_loadd(float const* d, unsigned ok, unsigned ch, unsigned rate, uz frames, uz readable, double* out, uz* e, double* sr) { ld<double>(d, ok, ch, rate, frames, readable, out, e, sr); }
static auto buf(float const* x, uz ch, uz n) { neo::audio_buffer<float> b{ch, n}; for (uz c = 0; c < ch; ++c) for (uz i = 0; i < n; ++i) b(c, i) = x[c * n + i]; return b; }
extern "C" void d_cli_write(float const* x, uz ch, uz n, double rate, float* out, uz* e) { info = e; sink = out; neo::write_wav_file(buf(x, ch, n), rate, "1"); }
#define CV(nm, T) extern "C" void d_cli_conv_##nm(float const* x, float const* h, uz ch, uz n, uz m, int block, float* y, uz* e) \
{ auto const s = buf(x, ch, n); auto const f = buf(h, ch, m); auto const r = convolve<T>(s, f, block); e[0] = r.extent(0); e[1] = r.extent(1); for (uz c = 0; c < r.extent(0); ++c) for (uz i = 0; i < r.extent(1); ++i) y[c * r.extent(1) + i] = r(c, i); }
CV(upola, conv::upola_convolver<std::complex<float>>)
CV(split, conv::split_upola_convolver<std::complex<float>>)
extern "C" int d_cli_main(int argc, float const* a, unsigned oka, unsigned cha, unsigned ra, uz na, float const* b, unsigned okb, unsigned chb, unsigned rb, uz nb, float* out, uz* e)
{
    static float const one[3] = {1, 1, 1}; fresh = one; peak = 1;
    info = e; sink = out; files[0] = file{oka, cha, ra, na, na, a}; files[1] = file{okb, chb, rb, nb, nb, b};
    static char p[4][2] = {{'x', 0}, {'0', 0}, {'1', 0}, {'2', 0}};
    char* argv[5] = {p[0], p[1], p[2], p[3], p[3]};
    return neo_cli_main(argc, argv);
}

// main with convolve() and normalize_peak() replaced by recording stand-ins

extern "C" neo::audio_buffer<float> d_stub_convolve(neo::audio_buffer<float> const& s, neo::audio_buffer<float> const& f, int block)
{
    ++ncalls; if (block < 2 or (block & (block - 1)) != 0) info[9] += 100;
    neo::audio_buffer<float> r{s.extent(0), s.extent(1)};
    for (uz c = 0; c < s.extent(0); ++c) for (uz i = 0; i < s.extent(1); ++i) r(c, i) = fresh[0] * s(c, i) + fresh[1] * (c < f.extent(0) ? f(c, i % f.extent(1)) : 0.0f);
    return r;
}
extern "C" void d_stub_peak(decltype(std::declval<neo::audio_buffer<float>&>().to_mdspan()) v) { for (uz c = 0; c < v.extent(0); ++c) for (uz i = 0; i < v.extent(1); ++i) v(c, i) *= peak; }
extern "C" int d_cli_ok(float const* a, unsigned ch, unsigned rate, uz na, float const* b, uz nb, float const* k, float* out, uz* e)
{
    fresh = k; peak = k[2]; ncalls = 0; info = e; sink = out; files[0] = file{1, ch, rate, na, na, a}; files[1] = file{1, ch, rate, nb, nb, b};
    static char p[4][2] = {{'x', 0}, {'0', 0}, {'1', 0}, {'2', 0}};
    char* argv[5] = {p[0], p[1], p[2], p[3], p[3]};
    auto const r = neo_cli_main(4, argv); e[12] = ncalls; return r;
}
