/* Calls the library the way a C program does: through the declarations of its public header. */
#include <stddef.h>
#include "ebur128.h"

void vk_get_version(int* a, int* b, int* c) { ebur128_get_version(a, b, c); }
ebur128_state* vk_init(unsigned int c, unsigned long r, int m) { return ebur128_init(c, r, m); }
void vk_destroy(ebur128_state** s) { ebur128_destroy(s); }
int vk_set_channel(ebur128_state* s, unsigned int c, int v) { return ebur128_set_channel(s, c, v); }
int vk_change_parameters(ebur128_state* s, unsigned int c, unsigned long r) { return ebur128_change_parameters(s, c, r); }
int vk_set_max_window(ebur128_state* s, unsigned long w) { return ebur128_set_max_window(s, w); }
int vk_set_max_history(ebur128_state* s, unsigned long h) { return ebur128_set_max_history(s, h); }
int vk_add_frames_short(ebur128_state* s, const short* d, size_t n) { return ebur128_add_frames_short(s, d, n); }
int vk_add_frames_int(ebur128_state* s, const int* d, size_t n) { return ebur128_add_frames_int(s, d, n); }
int vk_add_frames_float(ebur128_state* s, const float* d, size_t n) { return ebur128_add_frames_float(s, d, n); }
int vk_add_frames_double(ebur128_state* s, const double* d, size_t n) { return ebur128_add_frames_double(s, d, n); }
int vk_loudness_global(ebur128_state* s, double* o) { return ebur128_loudness_global(s, o); }
int vk_loudness_global_multiple(ebur128_state** s, size_t n, double* o) { return ebur128_loudness_global_multiple(s, n, o); }
int vk_loudness_momentary(ebur128_state* s, double* o) { return ebur128_loudness_momentary(s, o); }
int vk_loudness_shortterm(ebur128_state* s, double* o) { return ebur128_loudness_shortterm(s, o); }
int vk_loudness_window(ebur128_state* s, unsigned long w, double* o) { return ebur128_loudness_window(s, w, o); }
int vk_loudness_range(ebur128_state* s, double* o) { return ebur128_loudness_range(s, o); }
int vk_loudness_range_multiple(ebur128_state** s, size_t n, double* o) { return ebur128_loudness_range_multiple(s, n, o); }
int vk_sample_peak(ebur128_state* s, unsigned int c, double* o) { return ebur128_sample_peak(s, c, o); }
int vk_prev_sample_peak(ebur128_state* s, unsigned int c, double* o) { return ebur128_prev_sample_peak(s, c, o); }
int vk_true_peak(ebur128_state* s, unsigned int c, double* o) { return ebur128_true_peak(s, c, o); }
int vk_prev_true_peak(ebur128_state* s, unsigned int c, double* o) { return ebur128_prev_true_peak(s, c, o); }
int vk_relative_threshold(ebur128_state* s, double* o) { return ebur128_relative_threshold(s, o); }

/* The public fields. */
int vk_field_mode(const ebur128_state* s) { return s->mode; }
unsigned int vk_field_channels(const ebur128_state* s) { return s->channels; }
unsigned long vk_field_samplerate(const ebur128_state* s) { return s->samplerate; }

/* The header's constants, in the order of its enums. */
const int vk_channels[] = {
  EBUR128_UNUSED, EBUR128_LEFT, EBUR128_RIGHT, EBUR128_CENTER, EBUR128_LEFT_SURROUND, EBUR128_RIGHT_SURROUND,
  EBUR128_DUAL_MONO, EBUR128_MpSC, EBUR128_MmSC, EBUR128_Mp060, EBUR128_Mm060, EBUR128_Mp090, EBUR128_Mm090,
  EBUR128_Mp135, EBUR128_Mm135, EBUR128_Mp180, EBUR128_Up000, EBUR128_Up030, EBUR128_Um030, EBUR128_Up045,
  EBUR128_Um045, EBUR128_Up090, EBUR128_Um090, EBUR128_Up110, EBUR128_Um110, EBUR128_Up135, EBUR128_Um135,
  EBUR128_Up180, EBUR128_Tp000, EBUR128_Bp000, EBUR128_Bp045, EBUR128_Bm045
};
const int vk_channel_aliases[] = { EBUR128_Mp030, EBUR128_Mm030, EBUR128_Mp000, EBUR128_Mp110, EBUR128_Mm110 };
const int vk_errors[] = {
  EBUR128_SUCCESS, EBUR128_ERROR_NOMEM, EBUR128_ERROR_INVALID_MODE, EBUR128_ERROR_INVALID_CHANNEL_INDEX, EBUR128_ERROR_NO_CHANGE
};
const int vk_modes[] = {
  EBUR128_MODE_M, EBUR128_MODE_S, EBUR128_MODE_I, EBUR128_MODE_LRA, EBUR128_MODE_SAMPLE_PEAK, EBUR128_MODE_TRUE_PEAK, EBUR128_MODE_HISTOGRAM
};
const int vk_version[] = { EBUR128_VERSION_MAJOR, EBUR128_VERSION_MINOR, EBUR128_VERSION_PATCH };
