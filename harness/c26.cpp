// C26: memory held by a session does not grow with the number of GOPs.
#include <sanitizer/allocator_interface.h>

#include <algorithm>

#include "hostile.hpp"
#include "mangle.hpp"

namespace {
// The bytes allocated and not freed by the calls so far.
struct Meter {
  long held = 0, peak = 0;
  long t = 0;
  void begin() { t = (long)__sanitizer_get_current_allocated_bytes(); }
  void end()
  {
    held += (long)__sanitizer_get_current_allocated_bytes() - t;
    peak = std::max(peak, held);
  }
};

void judge(Ctx &c, const std::vector<long> &m, long content, const std::string &what)
{
  // Warm-up excluded, the last third never lies completely above the middle third.
  size_t n = m.size();
  if (n < 12) return;
  long mid = *std::max_element(m.begin() + (long)(n / 3), m.begin() + (long)(2 * n / 3));
  long last = *std::min_element(m.begin() + (long)(2 * n / 3), m.end());
  long top = *std::max_element(m.begin(), m.end());
  c.log("held after each GOP: first %ld mid max %ld last min %ld max %ld, content of a GOP %ld", m[0], mid, last, top, content);
  CHECK(last <= mid + 1024, "growth", "memory grows with the number of GOPs: at most %ld bytes in the middle, at least %ld at the end of %zu GOPs (%s)", mid, last, n, what.c_str());
  // A few GOPs of content and of list items, and the fixed parts of a session.
  CHECK(top <= 300000 + 12 * content, "bound", "%ld bytes are held with GOPs of %ld bytes (%s)", top, content, what.c_str());
  c.ev("sessions_judged");
  c.ev("gops_measured", n);
}
}  // namespace

PROPERTY(C26)
{
  SignCfg cfg = random_cfg(r);
  cfg.eos = false;
  cfg.timestamps = r.chance(50);
  if (cfg.api == 2 && r.chance(50)) cfg.api = 1;
  // One period of GOPs, repeated.
  GopShape sh;
  sh.min_gops = 2;
  sh.max_gops = 4;
  sh.max_frames = 4;
  sh.max_size = 300;
  sh.big = 0;
  Stream period = random_video(r, cfg.codec, sh);
  while (!period.empty() && !(period.back().type == 'I')) period.pop_back();
  if (!period.empty()) period.pop_back();
  if (period.empty()) return;
  int gops_in_period = 0;
  for (auto &n : period) gops_in_period += n.type == 'I';
  if (!gops_in_period) return;
  int n_periods = (c.thorough ? 150 : 60) / gops_in_period;
  // Units outside of the list are small and few.
  long content = 0;
  for (auto &n : period) content += (long)n.data.size() + 500;
  content += 2000 + (long)cfg.max_sei;

  enum { SIGN, INTACT, DELAY, LOSE_P, LOSE_SEI, NO_SEI, ALTER, BAD_SEI, UNSIGNED, FOREIGN, HOSTILE, DUPSEI, RESET, LEGACY, N };
  static const char *names[] = {"sign", "intact", "delay", "lose P", "lose SEI", "no SEIs later", "alter", "bad SEI", "unsigned", "foreign units", "hostile SEIs", "repeated SEIs", "resets", "legacy"};
  int kind = (int)r.below(N);
  std::string what = std::string(names[kind]) + " " + cfg.str();
  c.ev(std::string("kind:") + names[kind]);
  c.log("%s %d periods of %s", what.c_str(), n_periods, types_of(period).c_str());
  Meter m;
  std::vector<long> held;

  Stream video;
  for (int p = 0; p < n_periods; p++)
    for (auto n : period) {
      // Same size, other content.
      if (n.picture() && n.data.size() > 12) n.data[n.data.size() - 3] = (uint8_t)(1 + (p & 0x7f)), n.data[n.data.size() - 4] = (uint8_t)(1 + (p >> 7));
      n.uid = (int)video.size();
      video.push_back(n);
    }
  if (kind == SIGN) {
    Sv sv = make_signer(cfg);
    if (cfg.golden) signed_video_generate_golden_sei(sv.get());
    int64_t ts = 1000;
    int lag = r.chance(40) ? r.range(1, 20) : 0;  // SEIs are pulled this many units late.
    std::vector<uint8_t> buf(200000);
    for (size_t i = 0; i < video.size(); i++) {
      const Nalu &n = video[i];
      ts += 40000;
      m.begin();
      SignedVideoReturnCode rc = signed_video_add_nalu_for_signing_with_timestamp(sv.get(), n.data.data(), n.data.size(), cfg.timestamps ? &ts : nullptr);
      m.end();
      if (cfg.api || !lag) CHECK(rc == SV_OK || lag, "sign", "add_nalu failed: %d", rc);
      if (lag && i % (size_t)(lag + 1)) continue;
      for (int g = 0; g < 100; g++) {
        size_t size = 0;
        m.begin();
        if (cfg.api == 2) {
          signed_video_nalu_to_prepend_t p;
          memset(&p, 0, sizeof p);
          signed_video_get_nalu_to_prepend(sv.get(), &p);
          if (p.prepend_instruction != SIGNED_VIDEO_PREPEND_NOTHING) size = p.nalu_data_size, signed_video_nalu_data_free(p.nalu_data);
        } else {
          signed_video_get_sei(sv.get(), nullptr, &size, nullptr, nullptr, 0, nullptr);
          if (size && size <= buf.size()) signed_video_get_sei(sv.get(), buf.data(), &size, nullptr, nullptr, 0, nullptr);
        }
        m.end();
        if (!size) break;
        c.ev("seis_pulled");
      }
      if (n.type == 'I') held.push_back(m.held);
    }
    judge(c, held, content, what);
    c.seen(what + types_of(period));
    c.sample(what + strf(": %ld bytes after %zu GOPs", held.back(), held.size()));
    return;
  }
  long delivered = 0;
  Stream s;
  if (kind == LEGACY) {
    int idx = (int)r.below((uint64_t)legacy_count());
    Stream l = legacy_stream(idx, cfg.codec);
    for (int p = 0; p < 20; p++) s.insert(s.end(), l.begin(), l.end());
    content = 0;
    for (auto &n : l) content += (long)n.data.size() + 500;
  } else if (kind == UNSIGNED) {
    s = video;
  } else {
    SignedStream ss = sign_video(c, r, cfg, video);
    s = ss.s;
  }
  Stream t;
  std::vector<Nalu> seis;
  size_t k = 0;
  int pos_in_gop = 0;
  for (auto n : s) {
    k++;
    pos_in_gop = n.type == 'I' ? 0 : pos_in_gop + 1;
    if (kind == LOSE_P && n.type == 'P' && pos_in_gop <= 2) continue;
    if (kind == LOSE_SEI && n.type == 'S' && n.gop > 2 && n.gop % 2) continue;
    if (kind == NO_SEI && n.type == 'S' && n.gop > 4) continue;
    if (kind == ALTER && n.type == 'P' && n.data.size() > 20) n.data[n.data.size() - 6] ^= 0x10;
    if (kind == BAD_SEI && n.type == 'S' && n.gop > 2 && n.data.size() > 80) n.data[n.data.size() - 20] ^= 0x10;
    if (n.type == 'S' && seis.size() < 5) seis.push_back(n);
    if (kind == FOREIGN && r.chance(20)) t.push_back(make_nalu(r, cfg.codec, r.chance(50) ? 'P' : 'v', 60, 4));
    t.push_back(n);
    if (kind == DUPSEI && n.type == 'S' && !seis.empty()) t.push_back(r.pick(seis));
    if (kind == HOSTILE && n.type == 'S' && r.chance(60)) {
      std::string d;
      Sei base = parse_sei(cfg.codec, n.data);
      Nalu x = hostile_sei(r, cfg.codec, base, r.chance(50) ? &key_get(cfg.ec, cfg.key_idx) : nullptr, cfg.hash, d);
      x.gop = n.gop;
      if (x.data.size() < 4000) t.push_back(x);
    }
  }
  if (kind == DELAY) t = delay_seis(r, t, r.range(5, 40));
  // A SEI may tell of many missing units.
  if (kind == HOSTILE) delivered += 65536 * 300;
  int ask = (int)r.below(3);
  Sv sv(signed_video_create(cfg.codec));
  if (!cfg.pubkey_in_sei) signed_video_set_public_key(sv.get(), key_get(cfg.ec, cfg.key_idx).pub.data(), key_get(cfg.ec, cfg.key_idx).pub.size());
  size_t since = 0;
  for (size_t i = 0; i < t.size(); i++) {
    if (kind == RESET && t[i].type == 'I' && ++since % 3 == 0) {
      m.begin();
      signed_video_reset(sv.get());
      m.end();
    }
    signed_video_authenticity_t *a = nullptr;
    delivered += (long)t[i].data.size() + 500;
    m.begin();
    signed_video_add_nalu_and_authenticate(sv.get(), t[i].data.data(), t[i].data.size(), ask ? &a : nullptr);
    if (a) signed_video_authenticity_report_free(a), c.ev("reports");
    if (ask == 2 && i % 7 == 0) signed_video_authenticity_report_free(signed_video_get_authenticity_report(sv.get()));
    m.end();
    if (t[i].type == 'I') held.push_back(m.held);
  }
  // Units stay pending until a signature arrives. Without signatures only the delivered content bounds what is held.
  CHECK(m.peak <= 300000 + 3 * delivered, "bound-delivered", "%ld bytes held at most, %ld bytes were delivered (%s)", m.peak, delivered, what.c_str());
  if (kind != UNSIGNED && kind != NO_SEI && kind != HOSTILE) judge(c, held, content, what);
  else c.ev("sessions_without_signatures");
  c.seen(what + types_of(period));
  c.sample(what + strf(": %ld bytes after %zu GOPs", held.empty() ? 0 : held.back(), held.size()));
}
