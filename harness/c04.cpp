// C04: a forged or altered SEI never authenticates anything.
#include <algorithm>

#include "common.hpp"

PROPERTY(C04)
{
  SignCfg cfg = random_cfg(r);
  cfg.golden = false;
  GopShape sh;
  sh.min_gops = 4;
  sh.max_gops = 6;
  sh.max_frames = 4;
  sh.max_size = 120;
  Stream video = random_video(r, cfg.codec, sh);
  SignedStream ss = sign_video(c, r, cfg, video);
  Stream s = ss.s;
  int delay = 0;
  if (r.chance(20)) s = delay_seis(r, s, delay = r.range(1, 8));
  std::vector<size_t> seis;
  for (size_t i = 0; i < s.size(); i++)
    if (s[i].type == 'S') seis.push_back(i);
  size_t at = r.chance(70) && seis.size() > 2 ? seis[1 + r.below(seis.size() - 2)] : r.pick(seis);
  int g = s[at].gop;
  Sei sei = parse_sei(cfg.codec, s[at].data);
  CHECK(sei.ok, "malformed", "SEI is malformed: %s", sei.err.c_str());
  CHECK(build_sei(cfg.codec, sei.reserved, sei.tlvs, nullptr, "", cfg.sei_epb) == s[at].data, "rebuild", "the SEI could not be rebuilt from its parts");
  int kind = (int)r.below(10);
  std::string what;
  Bytes core = sei.core;
  std::vector<Tlv> tlvs = sei.tlvs;
  bool rebuild = false;
  auto tlv = [&](int tag) -> Tlv * {
    for (auto &t : tlvs)
      if (t.tag == tag) return &t;
    return nullptr;
  };
  size_t hs = sei.gop_hash.size();
  switch (kind) {
    case 0:
    case 1: {  // Any bits of the signed document
      int n = kind == 0 ? 1 : r.range(2, 4);
      for (int k = 0; k < n; k++) {
        size_t i = r.below(sei.doc_len_in_core);
        core[i] ^= (uint8_t)(1 << r.below(8));
        what += strf("doc byte %zu/%zu ", i, sei.doc_len_in_core);
      }
      if (core == sei.core) return;
      set_core(s[at], core);
      break;
    }
    case 2: {  // Any bit of the signature
      size_t n = sei.signature.size();
      Tlv *t = tlv(T_SIGNATURE);
      size_t i = r.below(n);
      t->val[5 + i] ^= (uint8_t)(1 << r.below(8));
      what = strf("signature byte %zu/%zu", i, n);
      rebuild = true;
      break;
    }
    case 3: {  // The size of the signature, or an empty one
      Tlv *t = tlv(T_SIGNATURE);
      size_t n = r.below(sei.signature.size());
      if (r.chance(30)) n = 0;
      t->val[3] = (uint8_t)(n >> 8);
      t->val[4] = (uint8_t)n;
      what = strf("signature cut to %zu", n);
      rebuild = true;
      break;
    }
    case 4: {  // A field of the general TLV
      Tlv *t = tlv(T_GENERAL);
      Bytes old = t->val;
      size_t i = r.below(t->val.size());
      t->val[i] = (uint8_t)r.next();
      if (r.chance(30)) {  // all of the GOP hash / linked hash
        bool link = r.chance(50);
        size_t o = t->val.size() - (link ? 2 : 1) * hs;
        for (size_t k = 0; k < hs; k++) t->val[o + k] = (uint8_t)r.next();
      }
      if (t->val == old) return;
      what = strf("general byte %zu", i);
      rebuild = true;
      break;
    }
    case 5: {  // Altered pictures with the hashes of the SEI recomputed
      std::vector<size_t> mine;
      for (size_t i = 0; i < s.size(); i++)
        if (s[i].picture() && s[i].gop == g) mine.push_back(i);
      if (mine.empty()) return;
      size_t v = r.pick(mine);
      Bytes b = s[v].core();
      b[b.size() - 2] ^= (uint8_t)(1 + r.below(255));
      if (b.size() < 5) return;
      set_core(s[v], b);
      if (classify(cfg.codec, s[v].data.data(), s[v].data.size()) != ss.s[0].type && !s[v].picture()) return;
      Bytes ref, all;
      for (size_t i : mine) {
        Bytes h = unit_hash(cfg.hash, s[i].core(), ref.empty() ? nullptr : &ref);
        if (ref.empty()) ref = h;
        all.insert(all.end(), h.begin(), h.end());
      }
      if (Tlv *t = tlv(T_HASHLIST)) std::copy(all.begin(), all.end(), t->val.begin() + 1);
      Bytes gh = digest(cfg.hash, all);
      Tlv *t = tlv(T_GENERAL);
      std::copy(gh.begin(), gh.end(), t->val.end() - (long)hs);
      what = strf("picture %zu altered and its hashes recomputed", v);
      rebuild = true;
      break;
    }
    case 6: {  // A TLV is removed, repeated or moved
      size_t i = r.below(tlvs.size() - 1);
      int how = (int)r.below(3);
      what = strf("TLV %d %s", tlvs[i].tag, how == 0 ? "removed" : how == 1 ? "repeated" : "moved first");
      Tlv t = tlvs[i];
      if (how == 0) tlvs.erase(tlvs.begin() + (long)i);
      else if (how == 1) tlvs.insert(tlvs.begin() + (long)r.below(tlvs.size()), t);
      else {
        if (i == 0) return;
        tlvs.erase(tlvs.begin() + (long)i);
        tlvs.insert(tlvs.begin(), t);
      }
      rebuild = true;
      break;
    }
    case 7: {  // The SEI of another GOP, or the signature of another SEI
      size_t o = r.pick(seis);
      if (o == at) return;
      if (r.chance(50)) {
        s[at].data = s[o].data;
        what = strf("SEI of GOP %d again", s[o].gop);
      } else {
        Sei so = parse_sei(cfg.codec, s[o].data);
        tlv(T_SIGNATURE)->val = so.tlvs.back().val;
        what = strf("signature of GOP %d", s[o].gop);
        rebuild = true;
      }
      break;
    }
    case 8: {  // The SEI of another stream signed with the same key and configuration
      Stream v2 = video;
      for (auto &n : v2)
        if (n.picture()) {
          Bytes b = n.core();
          b[b.size() - 2] ^= (uint8_t)(1 + r.below(255));
          if (b.size() > 4) set_core(n, b);
        }
      SignedStream s2 = sign_video(c, r, cfg, v2);
      if ((size_t)g >= s2.seis.size()) return;
      s[at].data = s2.seis[(size_t)g].data;
      what = "SEI of another stream";
      break;
    }
    default: {  // A value of another TLV
      std::vector<Tlv *> others;
      for (auto &t : tlvs)
        if (t.tag != T_SIGNATURE && t.tag != T_GENERAL) others.push_back(&t);
      if (others.empty()) return;
      Tlv *t = r.pick(others);
      Bytes old = t->val;
      size_t i = r.below(t->val.size());
      int how = (int)r.below(3);
      if (how == 0) t->val[i] ^= (uint8_t)(1 + r.below(255));
      else if (how == 1) t->val.resize(1 + r.below(t->val.size()));
      else {
        Bytes x = r.bytes(1 + r.below(70));
        t->val.insert(t->val.end(), x.begin(), x.end());
      }
      if (t->val == old) return;
      if (t->tag == T_CRYPTO && t->val.size() > 255) return;
      what = strf("TLV %d value byte %zu how %d", t->tag, i, how);
      rebuild = true;
    }
  }
  if (rebuild) s[at].data = build_sei(cfg.codec, sei.reserved, tlvs, nullptr, "", cfg.sei_epb);
  if (s[at].core() == sei.core) return;
  s[at].type = classify(cfg.codec, s[at].data.data(), s[at].data.size());
  c.log("%s delay=%d %s\nSEI %zu of GOP %d: kind %d %s", cfg.str().c_str(), delay, types_of(s).c_str(), at, g, kind, what.c_str());
  ValRun run = validate(c, cfg, s);
  for (auto &p : run.reports) c.log("%s", p.str().c_str());
  for (size_t i = 0; i < s.size(); i++)
    if (s[i].picture() && s[i].uid != -2 && s[i].gop == g && i != at)
      CHECK(run.status_hist[i].find('.') == std::string::npos, strf("authentic:%d", kind),
          "unit %zu (%c) of GOP %d, whose SEI was forged (%s), got '%s'", i, s[i].type, g, what.c_str(), run.status_hist[i].c_str());
  if (run.status_hist[at].size())
    CHECK(run.status_hist[at].find('.') == std::string::npos || kind == 7 || kind == 8, strf("sei-authentic:%d", kind),
        "the forged SEI %zu (%s) got '%s'", at, what.c_str(), run.status_hist[at].c_str());
  size_t first = s.size();
  for (size_t i = 0; i < s.size(); i++)
    if (s[i].picture() && s[i].gop == g) {
      first = i;
      break;
    }
  bool ok_before = false, not_ok = false;
  for (auto &p : run.reports) {
    ok_before |= p.auth == SV_AUTH_RESULT_OK && p.after < std::min(first, at);
    not_ok |= p.auth == SV_AUTH_RESULT_NOT_OK || p.auth == SV_AUTH_RESULT_VERSION_MISMATCH;
  }
  int later = 0;
  for (size_t i = at + 1; i < s.size(); i++) later += s[i].type == 'S' && s[i].gop > g;
  if (ok_before && later >= 2) {
    c.ev("judged");
    c.ev(strf("judged:%d", kind));
    CHECK(run.final_report.acc_auth != SV_AUTH_RESULT_OK, strf("acc:%d", kind), "session with a forged SEI (%s) is accumulated as OK", what.c_str());
    CHECK(run.final_report.acc_auth == SV_AUTH_RESULT_NOT_OK || run.final_report.acc_auth == SV_AUTH_RESULT_VERSION_MISMATCH, strf("acc-weak:%d", kind),
        "session with a forged SEI (%s) is accumulated as %s", what.c_str(), auth_name(run.final_report.acc_auth));
    CHECK(not_ok, strf("no-not-ok:%d", kind), "no report tells about the forged SEI (%s)", what.c_str());
  } else
    c.ev("not_judged");
  c.ev(strf("forged:%d", kind));
  c.seen(cfg.str() + types_of(s) + what);
  c.sample(types_of(s) + " SEI " + std::to_string(at) + ": " + what + " -> " + auth_name(run.final_report.acc_auth));
}
