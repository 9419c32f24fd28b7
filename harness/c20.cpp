// C20: the accumulated verdict is the worst so far.
#include <algorithm>

#include "mangle.hpp"

// From bad to good. With a version mismatch nothing is guaranteed.
static int rank(int auth) { return auth == SV_AUTH_RESULT_VERSION_MISMATCH ? 2 * SV_AUTH_RESULT_NOT_OK + 1 : 2 * auth; }

PROPERTY(C20)
{
  Stream s;
  std::string desc;
  SignCfg cfg = random_cfg(r);
  int n = r.chance(70) ? 1 : r.range(2, 3);
  for (int i = 0; i < n; i++) {
    SignCfg k = random_cfg(r);
    k.codec = cfg.codec;
    if (r.chance(60)) k.ec = cfg.ec, k.key_idx = cfg.key_idx, k.hash = cfg.hash, k.set_hash = cfg.set_hash;
    GopShape sh;
    sh.min_gops = 3;
    sh.max_gops = 14;
    sh.max_frames = 3;
    sh.max_size = 40;
    sh.big = 0;
    Stream v = random_video(r, cfg.codec, sh);
    SignedStream ss = sign_video(c, r, k, v);
    Stream t = ss.s;
    if (r.chance(30) && !k.golden) t = delay_seis(r, t, r.range(1, 8));
    if (r.chance(10)) t = v;
    desc += k.str() + " ";
    if (r.chance(12)) {
      // Some SEIs are from a newer version.
      int v[3] = {r.range(2, 9), 0, 0};
      size_t from = r.below(t.size()), to = r.chance(50) ? t.size() : r.below(t.size());
      Stream u(t.begin() + (long)std::min(from, to), t.begin() + (long)std::max(from, to));
      set_version(u, k, v);
      std::copy(u.begin(), u.end(), t.begin() + (long)std::min(from, to));
      desc += "newer ";
      c.ev("newer_version");
    }
    if (r.chance(80)) desc += mangle(r, cfg.codec, t, r.range(1, 6));
    if (r.chance(25)) {
      // SEIs at the start: alterations of the first one or copies of others.
      std::vector<size_t> seis;
      for (size_t q = 0; q < t.size(); q++)
        if (t[q].sv_sei()) seis.push_back(q);
      if (!seis.empty()) {
        Nalu g = t[r.chance(60) ? seis[0] : r.pick(seis)];
        if (r.chance(70) && g.data.size() > 60) g.data[40 + r.below(g.data.size() - 50)] ^= (uint8_t)(1 << r.below(8));
        g.uid = -1;
        t.insert(t.begin() + (long)r.below(std::min<size_t>(t.size(), 6)), g);
        desc += strf("SEI %c in front ", g.type);
      }
    }
    s.insert(s.end(), t.begin(), t.end());
  }
  desc += types_of(s);
  c.log("%s", desc.c_str());
  Sv sv(signed_video_create(cfg.codec));
  CHECK(sv != nullptr, "create", "failed");
  int worst = -1;  // The worst verdict of a completed validation.
  bool changed = false, bad_key = false, after_not_ok = false;
  int prev_acc = -1;
  for (size_t i = 0; i < s.size(); i++) {
    Bytes d = s[i].data;
    signed_video_authenticity_t *a = nullptr;
    signed_video_add_nalu_and_authenticate(sv.get(), d.data(), d.size(), &a);
    bool fresh = a;
    if (!a && r.chance(10)) a = signed_video_get_authenticity_report(sv.get());
    if (!a) continue;
    Report p = to_report(a, i);
    signed_video_authenticity_report_free(a);
    c.log("%s", p.str().c_str());
    if (fresh) {
      c.ev("reports");
      if (p.auth >= SV_AUTH_RESULT_NOT_OK) {
        if (worst >= SV_AUTH_RESULT_NOT_OK && rank(p.auth) > rank(worst)) c.ev("better_after_worse");
        if (worst < 0 || rank(p.auth) < rank(worst)) worst = p.auth;
      }
      changed |= p.key_changed;
      bad_key |= p.pubkey == SV_PUBKEY_VALIDATION_NOT_OK;
      if (p.key_changed) c.ev("key_changes");
    }
    if (worst >= SV_AUTH_RESULT_NOT_OK)
      CHECK(p.acc_auth == worst, rank(p.acc_auth) > rank(worst) || p.acc_auth < SV_AUTH_RESULT_NOT_OK ? "accumulated-better" : "accumulated-not-worst",
          "accumulated %s, the worst report is %s", auth_name(p.acc_auth), auth_name(worst));
    if (prev_acc >= SV_AUTH_RESULT_NOT_OK)
      CHECK(rank(p.acc_auth) <= rank(prev_acc), "accumulated-improved", "accumulated went from %s to %s", auth_name(prev_acc), auth_name(p.acc_auth));
    if (p.acc_auth >= SV_AUTH_RESULT_NOT_OK) prev_acc = p.acc_auth;
    if (worst == SV_AUTH_RESULT_NOT_OK) after_not_ok = true;
    if (changed) CHECK(p.acc_key_changed, "key-change-cleared", "a key change is no longer accumulated");
    if (bad_key) CHECK(p.acc_pubkey == SV_PUBKEY_VALIDATION_NOT_OK, "bad-key-cleared", "an invalid key is no longer accumulated");
    c.ev(std::string("acc:") + auth_name(p.acc_auth));
  }
  if (after_not_ok) c.ev("streams_not_ok");
  c.seen(desc);
  c.sample(desc.substr(0, 300));
}
