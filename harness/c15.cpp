// C15: metadata in the reports is what was given to the signer.
#include "common.hpp"

#define OKRC(expr, what) \
  do { \
    SignedVideoReturnCode rc_ = (expr); \
    CHECK(rc_ == SV_OK, std::string("sign-api:") + what, "%s returned %d", what, (int)rc_); \
  } while (0)

static std::string random_string(Rng &r)
{
  size_t n;
  switch (r.below(8)) {
    case 0: n = 0; break;
    case 1: n = 1; break;
    case 2: n = (size_t)r.range(250, 258); break;
    case 3: n = (size_t)r.range(259, 3000); break;
    default: n = (size_t)r.range(2, 60);
  }
  std::string s(n, 'a');
  int mode = (int)r.below(3);
  for (auto &ch : s) ch = mode == 0 ? (char)('a' + r.below(26)) : mode == 1 ? (char)(1 + r.below(255)) : (char)(1 + r.below(3));
  return s;
}

static int64_t random_ts(Rng &r)
{
  static const int64_t k[] = {0, 1, -1, INT64_MAX, INT64_MIN, INT64_MAX - 1, 1LL << 32, -(1LL << 32), 255, 256, 65535, 1LL << 31, 0x0000010000000000LL};
  if (r.chance(40)) return k[r.below(13)];
  if (r.chance(50)) return (int64_t)r.next();
  return 1700000000000000LL + (int64_t)r.below(1u << 30);
}

PROPERTY(C15)
{
  SignCfg cfg = random_cfg(r);
  cfg.parts = false;
  bool set_pi = r.chance(85);
  cfg.product = false;
  GopShape sh;
  sh.min_gops = 2;
  sh.max_gops = 6;
  sh.max_frames = 3;
  sh.max_size = 60;
  sh.big = 0;
  Stream video = random_video(r, cfg.codec, sh);
  Sv svp = make_signer(cfg);
  signed_video_t *sv = svp.get();
  std::string pi[5];
  bool null_pi[5] = {true, true, true, true, true};
  auto set_info = [&]() {
    std::string n[5];
    const char *p[5];
    for (int i = 0; i < 5; i++) {
      n[i] = random_string(r);
      bool null = r.chance(10);
      p[i] = null ? nullptr : n[i].c_str();
      if (null) n[i].clear();
      null_pi[i] = null;
    }
    OKRC(signed_video_set_product_info(sv, p[0], p[1], p[2], p[3], p[4]), "set_product_info");
    for (int i = 0; i < 5; i++) pi[i] = n[i].substr(0, 254);
  };
  if (set_pi) set_info();
  if (cfg.golden) OKRC(signed_video_generate_golden_sei(sv), "golden");
  // Per SEI what is expected.
  struct Exp {
    bool has_ts = false;
    int64_t ts = 0;
    std::string pi[5];
  };
  std::vector<Exp> exp;
  std::vector<int> sei_of;  // Per delivered unit, index of the SEI or -1.
  Stream s;
  Exp next;  // Of the SEI generated by the unit added last.
  size_t n_sei = 0;
  auto drain = [&]() {
    for (;;) {
      size_t size = 0;
      OKRC(signed_video_get_sei(sv, nullptr, &size, nullptr, nullptr, 0, nullptr), "get_sei");
      if (!size) return;
      Nalu n;
      n.data.resize(size);
      OKRC(signed_video_get_sei(sv, n.data.data(), &size, nullptr, nullptr, 0, nullptr), "get_sei");
      n.sc = 4;
      n.type = classify(cfg.codec, n.data.data(), n.data.size());
      s.push_back(n);
      if (n.type == 'G') {
        sei_of.push_back(-1);
        continue;
      }
      exp.push_back(next);
      sei_of.push_back((int)n_sei++);
    }
  };
  drain();
  bool some_ts = r.chance(80);
  for (size_t i = 0; i < video.size(); i++) {
    // The product information may change in the course of the stream; it is in the next SEI then.
    if (set_pi && !cfg.golden && cfg.recurrence <= 1 && r.chance(4)) set_info();
    int64_t ts = random_ts(r);
    bool with = some_ts && r.chance(90);
    Bytes d = video[i].data;
    next = Exp();
    next.has_ts = with;
    next.ts = ts;
    for (int k = 0; k < 5; k++) next.pi[k] = pi[k];
    OKRC(signed_video_add_nalu_for_signing_with_timestamp(sv, d.data(), d.size(), with ? &ts : nullptr), "add_nalu");
    drain();
    s.push_back(video[i]);
    sei_of.push_back(-1);
  }
  // Possibly altered after signing.
  int altered = -1;
  std::string what;
  if (r.chance(35) && n_sei > 0) {
    std::vector<size_t> cand;
    for (size_t i = 0; i < s.size(); i++)
      if (s[i].sv_sei()) cand.push_back(i);
    size_t at = r.chance(40) ? cand[0] : r.pick(cand);
    Sei e = parse_sei(cfg.codec, s[at].data);
    CHECK(e.ok, "sei-parse", "%s", e.err.c_str());
    std::vector<Tlv> tl = e.tlvs;
    for (auto &t : tl) {
      if (t.tag == T_PRODUCT && r.chance(70)) {
        // Another character in one of the strings.
        std::vector<size_t> pos;
        size_t p = 1;
        for (int k = 0; k < 5 && p < t.val.size(); k++) {
          size_t n = t.val[p++];
          for (size_t j = 0; j + 1 < n; j++) pos.push_back(p + j);
          p += n;
        }
        if (pos.empty()) continue;
        size_t q = r.pick(pos);
        uint8_t nb;
        do nb = (uint8_t)(1 + r.below(255));
        while (nb == t.val[q]);
        t.val[q] = nb;
        altered = (int)at;
        what = strf("product info of SEI %zu altered", at);
        break;
      }
      if (t.tag == T_GENERAL && e.has_ts) {
        // Eight bytes of the timestamp somewhere in the TLV.
        Bytes b(8);
        for (int k = 0; k < 8; k++) b[(size_t)k] = (uint8_t)((uint64_t)e.ts >> (56 - 8 * k));
        for (size_t k = 0; k + 8 <= t.val.size(); k++)
          if (memcmp(&t.val[k], b.data(), 8) == 0 && k > 8) {
            t.val[k + r.below(8)] ^= (uint8_t)(1 << r.below(8));
            altered = (int)at;
            what = strf("timestamp of SEI %zu altered", at);
            break;
          }
        if (altered >= 0) break;
      }
    }
    if (altered >= 0) s[at].data = build_sei(cfg.codec, e.reserved, tl, nullptr, cfg.hash, e.epb);
  }
  std::string desc = cfg.str() + " " + types_of(s) + " " + what;
  c.log("%s", desc.c_str());
  Sv vp(signed_video_create(cfg.codec));
  CHECK(vp != nullptr, "create", "failed");
  int last_sei = -1;
  bool any_ts = false;
  int64_t first_ts = 0, last_ts = 0;
  for (size_t i = 0; i < s.size(); i++) {
    if (sei_of[i] >= 0) last_sei = sei_of[i];
    Bytes d = s[i].data;
    signed_video_authenticity_t *a = nullptr;
    SignedVideoReturnCode rc = signed_video_add_nalu_and_authenticate(vp.get(), d.data(), d.size(), &a);
    CHECK(rc == SV_OK || altered >= 0 || s[i].type == 'U', "validate-rc", "unit %zu returned %d", i, rc);
    if (!a) continue;
    Report p = to_report(a, i);
    signed_video_authenticity_report_free(a);
    c.log("%s", p.str().c_str());
    if (p.auth != SV_AUTH_RESULT_OK && p.auth != SV_AUTH_RESULT_OK_WITH_MISSING_INFO) {
      if (altered < 0) CHECK(p.auth == SV_AUTH_RESULT_NOT_SIGNED || p.auth == SV_AUTH_RESULT_SIGNATURE_PRESENT, "intact-not-ok", "%s", p.str().c_str());
      continue;
    }
    c.ev("ok_reports");
    CHECK(last_sei >= 0, "ok-without-sei", "OK before the first SEI");
    const Exp &e = exp[(size_t)last_sei];
    // Altered product information is shown until replaced, but the session is not OK anymore.
    const bool acc_ok = p.acc_auth == SV_AUTH_RESULT_OK || p.acc_auth == SV_AUTH_RESULT_OK_WITH_MISSING_INFO;
    for (int k = 0; k < 5 && (altered < 0 || acc_ok); k++)
      CHECK(p.pi[k] == e.pi[k], altered >= 0 ? "altered-product-info-ok" : "product-info", "OK with product info %d \"%s\" (%zu), signed was \"%s\" (%zu)%s", k,
          p.pi[k].substr(0, 40).c_str(), p.pi[k].size(), e.pi[k].substr(0, 40).c_str(), e.pi[k].size(), altered >= 0 ? " (altered)" : "");
    CHECK(p.has_ts == e.has_ts, "timestamp-presence", "OK with%s timestamp, signed with%s", p.has_ts ? "" : "out", e.has_ts ? "" : "out");
    if (e.has_ts) CHECK(p.ts == e.ts, "timestamp", "timestamp %lld, signed %lld", (long long)p.ts, (long long)e.ts);
    if (e.has_ts) {
      if (!any_ts) first_ts = e.ts;
      any_ts = true;
      last_ts = e.ts;
      c.ev("timestamps_checked");
    }
    if (altered < 0) {
      CHECK(p.acc_has_ts == any_ts, "accumulated-timestamp-presence", "%d %d", p.acc_has_ts, any_ts);
      if (any_ts)
        CHECK(p.first_ts == first_ts && p.last_ts == last_ts, "accumulated-timestamps", "%lld..%lld, expected %lld..%lld", (long long)p.first_ts, (long long)p.last_ts,
            (long long)first_ts, (long long)last_ts);
    }
    CHECK(p.ver_this == signed_video_get_version(), "this-version", "%s", p.ver_this.c_str());
    CHECK(p.ver_sign == signed_video_get_version(), "signing-version", "%s", p.ver_sign.c_str());
  }
  if (altered >= 0) c.ev("altered");
  c.ev("seis", n_sei);
  c.seen(desc + pi[0]);
  c.sample(desc);
}
