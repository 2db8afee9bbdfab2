// stand-in for dr_wav: files are provided and received by the driver
#pragma once
#include <cstddef>
#include <cstdint>
typedef std::uint32_t drwav_bool32; typedef std::uint64_t drwav_uint64; typedef std::uint32_t drwav_uint32; typedef std::uint16_t drwav_uint16;
enum drwav_container { drwav_container_riff = 0, drwav_container_w64 = 2 };
#define DR_WAVE_FORMAT_PCM 0x1
#define DR_WAVE_FORMAT_IEEE_FLOAT 0x3
struct drwav { drwav_uint16 channels; drwav_uint32 sampleRate; drwav_uint64 totalPCMFrameCount; int id; int open; };
struct drwav_data_format { drwav_container container; drwav_uint32 format; drwav_uint32 channels; drwav_uint32 sampleRate; drwav_uint32 bitsPerSample; };
drwav_bool32 drwav_init_file(drwav*, char const*, void const*);
drwav_uint64 drwav_read_pcm_frames_f32(drwav*, drwav_uint64, float*);
drwav_bool32 drwav_init_file_write(drwav*, char const*, drwav_data_format const*, void const*);
drwav_uint64 drwav_write_pcm_frames(drwav*, drwav_uint64, void const*);
std::uint32_t drwav_uninit(drwav*);
