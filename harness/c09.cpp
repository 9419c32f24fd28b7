// C09: hostile input to a validating session. The sanitizers and the watchdog decide safety; here units that nobody signed
// are followed.
#include <algorithm>

#include "hostile.hpp"
#include "mangle.hpp"

static const char *kAxis = "Axis Communications AB";

// Each field of a SEI put last and cut at each of its first bytes, so that whatever is read beyond is outside the SEI.
static void cuts(Ctx &c, Rng &r)
{
  SignCfg cfg = random_cfg(r);
  cfg.recurrence = 1;
  if (r.chance(70)) cfg.timestamps = true;
  if (r.chance(50)) cfg.pi[3] = kAxis, cfg.product = true;
  GopShape sh;
  sh.min_gops = sh.max_gops = 2;
  sh.max_frames = 3;
  sh.max_size = 40;
  Stream s = sign_video(c, r, cfg, random_video(r, cfg.codec, sh)).s;
  const Key &key = key_get(cfg.ec, cfg.key_idx);
  size_t at = 0;
  while (at < s.size() && !(s[at].sv_sei() && parse_sei(cfg.codec, s[at].data).has_general)) at++;
  if (at == s.size()) return;
  Sei base = parse_sei(cfg.codec, s[at].data);
  std::vector<RawTlv> all;
  for (auto &x : base.tlvs) {
    RawTlv y;
    y.tag = x.tag;
    y.val = x.val;
    all.push_back(y);
  }
  RawTlv v;
  v.tag = T_VENDOR;
  v.val = {1, 4, 'c', 'h', 'i', 'p', 0, 2, 'a', 'b'};
  v.val.resize(40, 'c');
  all.insert(all.begin(), v);
  for (size_t k = 0; k < all.size(); k++) {
    for (size_t len = 0; len <= std::min<size_t>(all[k].val.size(), 44); len++) {
      std::vector<RawTlv> t = all;
      RawTlv x = t[k];
      t.erase(t.begin() + (long)k);
      if (k) t.erase(t.begin());
      x.val.resize(len);
      t.push_back(x);
      Nalu h = s[at];
      h.data = craft_sei(cfg.codec, base.reserved, t, &key, cfg.hash, cfg.sei_epb, 0, false);
      Sv sv(signed_video_create(cfg.codec));
      if (r.chance(50)) signed_video_set_public_key(sv.get(), key.pub.data(), key.pub.size());
      for (size_t i = 0; i < s.size(); i++) {
        Bytes d = i == at ? h.data : s[i].data;
        d.shrink_to_fit();
        signed_video_authenticity_t *a = nullptr;
        signed_video_add_nalu_and_authenticate(sv.get(), d.data(), d.size(), &a);
        if (a) to_report(a, i);
        signed_video_authenticity_report_free(a);
      }
      signed_video_is_golden_sei(sv.get(), h.data.data(), h.data.size());
      signed_video_parse_sei(h.data.data(), h.data.size(), cfg.codec);
      c.ev("cut_fields");
    }
  }
  c.seen("cuts " + cfg.str() + types_of(s));
  c.sample("cuts " + cfg.str() + " " + types_of(s));
}

PROPERTY(C09)
{
  if (c.case_idx % 100 == 17) {
    cuts(c, r);
    return;
  }
  SignCfg cfg = random_cfg(r);
  cfg.eos = r.chance(20);
  int kind = (int)r.below(8);
  static const char *names[] = {"mangled", "crafted", "crafted-signed", "random-seis", "garbage", "legacy-mangled", "legacy-crafted", "vendor"};
  GopShape sh;
  sh.min_gops = 2;
  sh.max_gops = 5;
  sh.max_frames = 4;
  sh.max_size = 60;
  if (kind == 7) cfg.pi[3] = kAxis, cfg.product = true;
  bool legacy = kind == 5 || kind == 6;
  Stream orig;
  if (legacy) {
    orig = legacy_stream((int)r.below((uint64_t)legacy_count()), cfg.codec);
  } else if (kind != 4) {
    orig = sign_video(c, r, cfg, random_video(r, cfg.codec, sh)).s;
  }
  const Key &right = key_get(cfg.ec, cfg.key_idx);
  bool attacker_key = false;  // A SEI signed by somebody is in the stream.
  Stream s = orig;
  std::string what;
  auto spoil = [&](bool sign) {
    // Replace or insert SEIs made from genuine ones.
    std::vector<size_t> seis;
    for (size_t i = 0; i < s.size(); i++)
      if (s[i].sv_sei()) seis.push_back(i);
    if (seis.empty()) return;
    int n = r.range(1, 3);
    for (int k = 0; k < n; k++) {
      size_t at = r.pick(seis);
      Sei base = parse_sei(cfg.codec, s[at].data);
      if (!base.ok && base.tlvs.empty()) continue;
      const Key *key = nullptr;
      if (sign) {
        key = r.chance(60) ? &right : &key_get(true, r.range(0, 3));
        attacker_key = true;
      }
      Nalu h;
      if (kind == 7 && r.chance(70)) {
        std::vector<RawTlv> t;
        for (auto &x : base.tlvs)
          if (x.tag != T_VENDOR) {
            RawTlv y;
            y.tag = x.tag;
            y.val = x.val;
            t.push_back(y);
          }
        RawTlv v;
        v.tag = T_VENDOR;
        v.val = r.bytes(r.below(r.chance(50) ? 20 : 1500));
        if (!v.val.empty() && r.chance(80)) v.val[0] = (uint8_t)r.range(1, 3);
        if (v.val.size() > 2 && r.chance(60)) v.val[1] = (uint8_t)r.below(std::min<size_t>(256, v.val.size()));
        if (v.val.size() > 100 && r.chance(60)) {
          static const char c0[] = "-----BEGIN CERTIFICATE-----\n", c1[] = "-----END CERTIFICATE-----\n";
          for (int q = r.range(0, 4); q > 0; q--) {
            const char *m = r.chance(50) ? c0 : c1;
            size_t o = 2 + r.below(v.val.size() - 40);
            std::copy(m, m + strlen(m), v.val.begin() + (long)o);
          }
        }
        t.insert(t.end() - (t.empty() ? 0 : 1), v);
        h.data = craft_sei(cfg.codec, base.reserved, t, key, cfg.hash, true);
        h.sc = 4;
        h.type = classify(cfg.codec, h.data.data(), h.data.size());
        what += strf("vendor %zu ", v.val.size());
      } else {
        h = hostile_sei(r, cfg.codec, base, key, cfg.hash, what);
      }
      if (r.chance(60)) s[at] = h;
      else {
        s.insert(s.begin() + (long)r.below(s.size() + 1), h);
        break;
      }
    }
  };
  switch (kind) {
    case 0:
    case 5:
      what = mangle(r, cfg.codec, s, r.range(1, r.chance(70) ? 6 : 40));
      break;
    case 1:
      spoil(false);
      break;
    case 2:
    case 7:
      spoil(true);
      if (r.chance(30)) what += mangle(r, cfg.codec, s, r.range(1, 5));
      break;
    case 6:
      spoil(r.chance(60));
      if (r.chance(20)) what += mangle(r, cfg.codec, s, r.range(1, 5));
      break;
    case 3:
      for (int n = r.range(1, 20); n > 0; n--) s.insert(s.begin() + (long)r.below(s.size() + 1), random_sei(r, cfg.codec));
      break;
    default:
      for (int n = r.range(1, 60); n > 0; n--) {
        if (r.chance(60)) s.push_back(garbage_nalu(r, cfg.codec));
        else if (r.chance(50)) s.push_back(random_sei(r, cfg.codec));
        else {
          s.push_back(make_nalu(r, cfg.codec, "IPipzv_oU"[r.below(9)], (size_t)r.range(4, 60), 4));
          s.back().uid = -1;
        }
      }
  }
  // A random stream of the other codec, or the two formats mixed.
  SignedVideoCodec codec = cfg.codec;
  bool mixed = false;
  if (r.chance(5)) {
    SignedVideoCodec lc;
    Stream l = legacy_stream((int)r.below((uint64_t)legacy_count()), lc);
    size_t at = r.below(s.size() + 1);
    s.insert(s.begin() + (long)at, l.begin(), l.end());
    mixed = true;
    what += strf("legacy at %zu ", at);
  }
  if (r.chance(2)) {
    codec = codec == SV_CODEC_H264 ? SV_CODEC_H265 : SV_CODEC_H264;
    mixed = true;
    what += "other codec ";
  }
  for (auto &u : s) u.type = classify(codec, u.data.data(), u.data.size());
  std::string desc = strf("%s %s %s %s", names[kind], cfg.str().c_str(), types_of(s).c_str(), what.c_str());
  c.log("%s", desc.c_str());
  c.ev(std::string("kind:") + names[kind]);
  Sv sv(signed_video_create(codec));
  CHECK(sv != nullptr, "create", "create failed");
  if (r.chance(25)) {
    const Key &k = r.chance(60) ? right : key_get(r.chance(50), r.range(0, 2));
    signed_video_set_public_key(sv.get(), k.pub.data(), k.pub.size());
  }
  std::set<Bytes> genuine;
  for (auto &u : orig)
    if (u.picture()) genuine.insert(u.core());
  ValRun run;
  int reset_pct = r.chance(15) ? 3 : 0;
  for (size_t i = 0; i < s.size(); i++) {
    Bytes d = s[i].data;
    d.shrink_to_fit();
    signed_video_authenticity_t *a = nullptr;
    SignedVideoReturnCode rc = signed_video_add_nalu_and_authenticate(sv.get(), d.data(), d.size(), &a);
    run.rc.push_back(rc);
    c.ev(rc == SV_OK ? "units_accepted" : "units_refused");
    bool known = rc == SV_OK || rc == SV_MEMORY || rc == SV_INVALID_PARAMETER || rc == SV_NOT_SUPPORTED || rc == SV_INCOMPATIBLE_VERSION ||
        rc == SV_EXTERNAL_ERROR || rc == SV_VENDOR_ERROR || rc == SV_AUTHENTICATION_ERROR || rc == SV_UNKNOWN_FAILURE;
    CHECK(known, "return-code", "undocumented return code %d", rc);
    if (a) {
      run.reports.push_back(to_report(a, i));
      signed_video_authenticity_report_free(a);
      c.ev("reports");
      c.ev(std::string("report:") + auth_name(run.reports.back().auth));
    }
    if (r.chance(3)) {
      a = signed_video_get_authenticity_report(sv.get());
      if (a) to_report(a, i);
      signed_video_authenticity_report_free(a);
    }
    if (r.chance(10)) signed_video_is_golden_sei(sv.get(), d.data(), d.size());
    if (r.chance(10)) signed_video_parse_sei(d.data(), d.size(), codec);
    if (r.chance(reset_pct)) {
      signed_video_reset(sv.get());
      c.ev("resets");
    }
  }
  map_statuses(s, run);
  // Whatever nobody signed is not authentic.
  if (!attacker_key && !mixed) {
    for (size_t i = 0; i < s.size(); i++) {
      if (!s[i].picture() || genuine.count(s[i].core())) continue;
      c.ev("foreign_pictures");
      CHECK(run.status_hist[i].find('.') == std::string::npos, strf("foreign-authentic:%s", names[kind]), "unit %zu (%c), which was not signed, is marked authentic (%s)", i, s[i].type, run.status_hist[i].c_str());
    }
  }
  c.seen(desc);
  c.sample(desc);
}
