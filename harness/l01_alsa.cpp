// L01: the ALSA sink against a device that may refuse, accept partly, or run dry. The ALSA library is replaced by a recording device.
#include "sym.h"
#include "io/alsa_module.hpp"
#include "source_module.hpp"
#include <cerrno>
#include <cmath>
#include <cstdlib>
#include <cstring>
struct _snd_pcm { int state; int configured; };   // 0 open, 1 ready, 2 underrun
struct _snd_pcm_hw_params { unsigned ch, rate, per; unsigned long size; int fmt, acc, any; };
static int opens, closes, openFails, writes, drains, mode; static const char *wantName; static int ndev = 2, hintErr; static int nulls;
static const int errs[] = {-1, -ENOENT, -EBUSY, -1}; static bool dry, gone; static int16_t got[140000]; static int ngot; static int devCh = 1; static unsigned committed[4]; static int sawFmt, sawAcc;
static char *dup(const char *s) { char *p = (char *)malloc(strlen(s) + 1); strcpy(p, s); return p; }
static int h0, h1, h2; static const char *names[] = {"default", "other", "other:2"};
static int idx(const void *h) { return h == &h0 ? 0 : h == &h1 ? 1 : 2; }
extern "C" {
int snd_device_name_hint(int, const char *, void ***hints) { if (hintErr) { *hints = nullptr; return -ENOENT; } void **a = (void **)malloc(4 * sizeof(void *)); void *all[] = {&h0, &h1, &h2}; for (int i = 0; i < ndev; i++) a[i] = all[i]; a[ndev] = nullptr; *hints = a; return 0; }
int snd_device_name_free_hint(void **h) { sym_assert(h != nullptr, "hints freed once"); free(h); return 0; }
char *snd_device_name_get_hint(const void *h, const char *id) { if (id[0] == 'N') return (nulls & 1) && idx(h) ? nullptr : dup(names[idx(h)]); if (id[0] == 'D') return nulls & 2 ? nullptr : dup("text"); return idx(h) == 0 ? nullptr : dup(idx(h) == 1 ? "Output" : "Input"); }
int snd_pcm_open(snd_pcm_t **p, const char *name, snd_pcm_stream_t st, int) { if (wantName) sym_assert(strcmp(name, wantName) == 0 && st == SND_PCM_STREAM_PLAYBACK, "the configured device is opened for playback"); if (openFails) return errs[openFails & 3]; opens++; *p = new _snd_pcm{0, 0}; return 0; }
int snd_pcm_close(snd_pcm_t *p) { p->state = 9; closes++; delete p; return 0; }
int snd_pcm_hw_free(snd_pcm_t *p) { p->configured = 0; return 0; }
int snd_pcm_drain(snd_pcm_t *p) { drains++; p->state = 0; return 0; }
int snd_pcm_prepare(snd_pcm_t *p) { p->state = 1; return 0; }
snd_pcm_sframes_t snd_pcm_writei(snd_pcm_t *p, const void *b, snd_pcm_uframes_t n) {
    sym_assert(p->configured && p->state == 1, "the device is configured, and prepared after an underrun, before a write"); sym_assert(n > 0 && n < 70001, "a write has the block's frames"); writes++; int r = mode == 2 ? 4 : writes > 4 || mode == 0 ? 0 : sym_pick("result", 4); const int16_t *s = (const int16_t *)b;
    if (r == 1) { if (dry) gone = true; dry = true; p->state = 2; return -EPIPE; } dry = false; if (r == 3) { gone = true; return -EIO; } int k = r == 2 ? sym_range("accepted", 1, (int)n) : r == 4 && n > 40000 ? 40000 : (int)n; int16_t last = 0; for (int i = 0; i < (int)n * devCh; i++) last = s[i]; (void)last; for (int i = 0; i < k * devCh; i++) got[ngot++] = s[i]; return k;
}
size_t snd_pcm_hw_params_sizeof(void) { return sizeof(_snd_pcm_hw_params); }
int snd_pcm_hw_params_any(snd_pcm_t *p, snd_pcm_hw_params_t *h) { p->state = 0; h->ch = 2; h->rate = 48000; h->per = 4; h->size = 1024; h->any = 1; return 0; }
int snd_pcm_hw_params_set_rate_resample(snd_pcm_t *p, snd_pcm_hw_params_t *h, unsigned) { return p->configured + h->any >= 0 ? 0 : -1; }
int snd_pcm_hw_params_set_access(snd_pcm_t *p, snd_pcm_hw_params_t *h, snd_pcm_access_t a) { (void)p->state; h->acc = a; return 0; }
int snd_pcm_hw_params_set_format(snd_pcm_t *p, snd_pcm_hw_params_t *h, snd_pcm_format_t f) { (void)p->state; h->fmt = f; return 0; }
int snd_pcm_hw_params_set_channels(snd_pcm_t *p, snd_pcm_hw_params_t *h, unsigned v) { (void)p->state; sym_assert(v != 0, "a setting of 0 is left to the device"); h->ch = v; return 0; }
int snd_pcm_hw_params_set_rate(snd_pcm_t *p, snd_pcm_hw_params_t *h, unsigned v, int dir) { (void)p->state; sym_assert(dir == 0, "the exact value is asked for"); sym_assert(v != 0, "a setting of 0 is left to the device"); h->rate = v; return 0; }
int snd_pcm_hw_params_set_period_size(snd_pcm_t *p, snd_pcm_hw_params_t *h, snd_pcm_uframes_t v, int dir) { (void)p->state; sym_assert(dir == 0, "the exact value is asked for"); sym_assert(v != 0, "a setting of 0 is left to the device"); h->size = v; return 0; }
int snd_pcm_hw_params_set_periods(snd_pcm_t *p, snd_pcm_hw_params_t *h, unsigned v, int dir) { (void)p->state; sym_assert(dir == 0, "the exact value is asked for"); sym_assert(v != 0, "a setting of 0 is left to the device"); h->per = v; return 0; }
int snd_pcm_hw_params(snd_pcm_t *p, snd_pcm_hw_params_t *h) { sym_assert(h->any, "parameters are initialised"); committed[0] = h->ch; committed[1] = h->rate; committed[2] = h->per; committed[3] = (unsigned)h->size; sawFmt = h->fmt; sawAcc = h->acc; p->configured = 1; p->state = 1; return 0; }
#define GET(n, T, v) int snd_pcm_hw_params_get_##n(const snd_pcm_hw_params_t *h, T *o, int *) { (void)h; *o = v; return 0; }
#define GET2(n, T, v) int snd_pcm_hw_params_get_##n(const snd_pcm_hw_params_t *h, T *o) { (void)h; *o = v; return 0; }
GET(periods, unsigned, h->per) GET(periods_max, unsigned, 32) GET(periods_min, unsigned, 2) GET(period_size, snd_pcm_uframes_t, h->size) GET(period_size_max, snd_pcm_uframes_t, 4096) GET(period_size_min, snd_pcm_uframes_t, 16)
GET2(channels, unsigned, h->ch) GET2(channels_max, unsigned, 8) GET2(channels_min, unsigned, 1) GET(period_time, unsigned, 77) GET(period_time_max, unsigned, 99) GET(period_time_min, unsigned, 11)
GET(rate, unsigned, h->rate) GET(rate_max, unsigned, 192000) GET(rate_min, unsigned, 8000) GET2(buffer_size, snd_pcm_uframes_t, 8192) GET2(buffer_size_max, snd_pcm_uframes_t, 65536) GET2(buffer_size_min, snd_pcm_uframes_t, 64)
int snd_pcm_hw_params_get_sbits(const snd_pcm_hw_params_t *) { return 16; }
int snd_pcm_recover(snd_pcm_t *p, int, int) { p->state = 1; return 0; }
int snd_pcm_drop(snd_pcm_t *p) { p->state = 0; return 0; }
const char *snd_strerror(int) { return "error"; }
}
static DeviceInfo dev(unsigned ch, unsigned rate, unsigned per, unsigned long size) { DeviceInfo d; d.name = "other"; d.channels = ch; d.sample_rate = rate; d.period = per; d.period_size = size; d.output = true; return d; }
HARNESS(h_write) { // every frame accepted once, in order, whatever the device answers
    ALSASink k; devCh = sym_range("channels", 1, 3); k.set_device(dev(devCh, 8000, 2, 8)); k.start(); mode = 1; int16_t want[32]; int n = 0;
    for (int b = 0; b < 2; b++) { int f = sym_range("frames", b, 2); AudioBuffer x(f, devCh); for (int i = 0; i < f; i++) for (int c = 0; c < devCh; c++) { double v = c == 1 ? (b ? -1.0 : 1.0) : (i + 1) * 0.25 - c * 0.125; x.at(c, i) = v; want[n++] = (int16_t)(v < 0 ? v * 32768 : v * 32767); } k.set_buffer(std::move(x)); int before = ngot, w = writes; dry = gone = false; k.process(); int sent = ngot - before; sym_assert(f > 0 || writes == w, "an empty block sends nothing"); sym_assert(sent <= f * devCh, "no frame is sent twice"); for (int i = 0; i < sent; i++) sym_assert(got[before + i] == want[n - f * devCh + i], "the block's samples in order, as 16 bit integers"); if (sent < f * devCh) { sym_assert(gone, "partial writes and a single underrun lose nothing"); n = 0; ngot = 0; sym_reach("given up"); } }
    k.stop(); sym_assert(opens == closes && drains == 1, "the device is drained and closed"); sym_reach("write");
}
HARNESS(h_all) { // a device that accepts parts, or runs dry between accepted writes, still gets everything
    sym_mode(1); ALSASink k; devCh = sym_range("channels", 1, 2); k.set_device(dev(devCh, 8000, 2, 8)); k.start(); int f = sym_range("frames", 1, 2), n = f * devCh; AudioBuffer x(f, devCh); for (int i = 0; i < f; i++) for (int c = 0; c < devCh; c++) x.at(c, i) = sym_fp("value", -1, 1); AudioBuffer y = x; k.set_buffer(std::move(x)); mode = 1; k.process(); if (ngot < n) sym_stop(); for (int i = 0; i < n; i++) { double v = y.at(i % devCh, i / devCh), g = got[i]; sym_assert(v < 0 ? fabs(g - v * 32768) <= 1 : fabs(g - v * 32767) <= 1, "each sample's 16 bit value"); } k.stop(); sym_reach("all");
}
HARNESS(h_start) { // settings, failing devices, any order of start, write and stop
    unsigned ch = (unsigned)sym_range("channels", 0, 2), rate = sym_pick("rate", 2) ? 22050 : 0, per = (unsigned)sym_pick("periods", 2) * 3, size = (unsigned)sym_pick("size", 2) * 512; ALSASink k; k.set_device(dev(ch, rate, per, size)); int o0 = opens, c0 = closes; wantName = "other"; int running = 0;
    for (int i = 0; i < 3; i++) switch (sym_pick("operation", 4)) {
    case 0: openFails = 0; k.start(); running = 1; sym_assert(committed[0] == (ch ? ch : 2) && committed[1] == (rate ? rate : 48000) && committed[2] == (per ? per : 4) && committed[3] == (size ? size : 1024) && sawFmt == SND_PCM_FORMAT_S16 && sawAcc == SND_PCM_ACCESS_RW_INTERLEAVED, "the device gets the chosen settings, interleaved 16 bit"); sym_assert(k.get_device().period == committed[2] && k.get_device().period_size == committed[3], "the settings in effect are reported"); per = committed[2]; size = committed[3]; break;
    case 1: openFails = 1 + 2 * sym_pick("error", 2); k.start(); running = 0; break;
    case 2: { devCh = ch ? (int)ch : 2; AudioBuffer x(1, devCh); for (int c = 0; c < devCh; c++) x.at(c) = 0.5; k.set_buffer(std::move(x)); int w = writes; k.process(); sym_assert(writes - w == running, "a block is sent if and only if the device is running"); break; }
    default: k.stop(); running = 0; }
    sym_assert(opens - o0 == closes - c0 + running, "every device opened is closed once"); k.stop(); sym_assert(opens - o0 == closes - c0, "every device opened is closed once"); sym_reach("start");
}
HARNESS(h_info) { // device lists
    nulls = sym_pick("missing", 4); ndev = sym_range("devices", 0, 3); hintErr = sym_pick("nolist", 2); openFails = sym_range("broken", 0, 3); long long live = sym_live();
    { ALSABase a; sym_assert(a.get_device().load_fail == (hintErr || ndev < 1 || openFails), "a device that is missing or cannot be opened is reported"); int n = hintErr ? 0 : ndev; sym_assert(a.get_device_count() == n, "number of devices"); int i = sym_range("index", -1, 3); DeviceInfo d = a.get_device_by_id(i); bool there = i >= 0 && i < n; sym_assert(d.load_fail == (!there || openFails), "a device that is missing or cannot be opened is reported"); if (there) { bool named = !(nulls & 1) || i == 0; sym_assert(d.id == i && d.name == (named ? names[i] : "") && d.description == (nulls & 2 ? "" : "text"), "id, name and description"); sym_assert(d.output == (i != 2) && d.input == (i != 1), "direction"); }
      if (there && !openFails) sym_assert(d.channels == 1 && d.sample_rate == 44100 && d.period == 4 && d.period_size == 1024 && d.channels_max == 8 && d.channels_min == 1 && d.period_max == 32 && d.period_min == 2 && d.period_size_max == 4096 && d.period_size_min == 16 && d.sample_rate_max == 192000 && d.sample_rate_min == 8000 && d.period_time == 77 && d.period_time_max == 99 && d.period_time_min == 11 && d.buffer_size == 8192 && d.buffer_size_max == 65536 && d.buffer_size_min == 64, "the device's limits and settings");
      openFails = 0; DeviceInfo u = dev((unsigned)sym_range("set_channels", 0, 3), (unsigned)sym_pick("set_rate", 2) * 22050, (unsigned)sym_pick("set_periods", 2) * 3, (unsigned long)sym_pick("set_size", 2) * 512); DeviceInfo w = u; wantName = nullptr; u.update(); sym_assert(!u.load_fail && u.channels == (w.channels ? w.channels : 2) && u.sample_rate == (w.sample_rate ? w.sample_rate : 48000) && u.period == (w.period ? w.period : 4) && u.period_size == (w.period_size ? w.period_size : 1024), "a setting left open becomes the device's, the others stay");
      static const char *ask[] = {"default", "other", "other:2", "othe", "defaults"}; int w2 = sym_pick("wanted", 5); DeviceInfo e = a.get_device_by_name(ask[w2]); if (w2 < n && (!(nulls & 1) || w2 == 0)) sym_assert(!e.load_fail && e.id == w2 && e.name == ask[w2], "a device is found by its whole name"); else sym_assert(e.load_fail, "a device that is missing or cannot be opened is reported"); sym_assert(opens == closes, "every device opened is closed once"); }
    sym_assert(sym_live() == live, "nothing is leaked"); sym_reach("info");
}
struct Src : SourceModule { int calls = 0; void process() override { this->reserve(); for (int i = 0; i < (int)this->buff.size(); i++) this->buff.at(i) = 0.5; calls++; } };
HARNESS(h_chain) { // a chain ending in the sink produces the device's format
    ALSASink k; devCh = sym_range("channels", 1, 3); k.get_chain_info()->channels = sym_range("chain_channels", 1, 2); k.get_chain_info()->sample_rate = 16000; int per = sym_range("periods", 1, 3), size = 2 * sym_range("size", 1, 3); k.set_device(dev(devCh, 32000, per, size)); Src s; k.link(&s); for (int i = sym_range("syncs", 1, 2); i > 0; i--) k.meta_info_sync(); sym_assert(s.get_info()->channels == devCh && s.get_info()->sample_rate == 32000 && s.get_info()->out_buffer == size / 2 && k.get_info()->channels == devCh, "modules behind the sink produce the device's channels, rate and block size"); sym_assert(k.get_chain_info()->module_num == 2, "modules are counted once"); k.meta_start(); k.meta_process(); sym_assert(s.calls == per && ngot == per * size / 2 * devCh, "one block per period reaches the device"); for (int i = 0; i < ngot; i++) sym_assert(got[i] == 16383, "sample value"); k.meta_stop(); sym_assert(opens == closes, "closed"); sym_reach("chain");
}
HARNESS(h_unset) { // settings the device leaves open come from the chain
    ALSASink k; int ch = sym_range("channels", 1, 3), rate = 8000 * sym_range("rate", 1, 2); k.get_chain_info()->channels = ch; k.get_chain_info()->sample_rate = rate; DeviceInfo d = dev(0, 0, 2, 8); k.set_device(d); Src s; k.link(&s); k.meta_info_sync(); sym_assert(s.get_info()->channels == ch && s.get_info()->sample_rate == rate && s.get_info()->out_buffer == 4 && k.get_period() == 2, "settings the device leaves open come from the chain"); sym_reach("unset");
}
HARNESS(h_big) { // blocks of more frames than 16 bits count, accepted in parts
    ALSASink k; devCh = sym_range("channels", 1, 2); k.set_device(dev(devCh, 8000, 2, 140000)); Src s; k.link(&s); k.meta_info_sync(); sym_assert(s.get_info()->out_buffer == 70000, "modules behind the sink produce the device's channels, rate and block size"); k.start(); int f = 70000; AudioBuffer x(f, devCh); for (int i = 0; i < f * devCh; i++) x.at(i) = ((i % 511) - 255) / 512.0; k.set_buffer(std::move(x)); mode = sym_pick("parts", 2) ? 2 : 0; k.process(); sym_assert(ngot == f * devCh, "partial writes lose nothing"); for (int i = 0; i < ngot; i++) { double v = ((i % 511) - 255) / 512.0; sym_assert(got[i] == (int16_t)(v < 0 ? v * 32768 : v * 32767), "the block's samples in order, as 16 bit integers"); } k.stop(); sym_reach("big");
}
