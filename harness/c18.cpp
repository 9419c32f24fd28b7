// C18: golden SEIs supply the key and nothing else.
#include "common.hpp"

// The user has set a key, but the stream is somebody else's and starts with a golden SEI that is not valid.
static void user_key_attack(Ctx &c, Rng &r)
{
  SignCfg cfg = random_cfg(r);
  cfg.golden = r.chance(50);
  cfg.eos = false;
  GopShape sh;
  sh.min_gops = 3;
  sh.max_gops = 6;
  sh.max_size = 60;
  sh.big = 0;
  Stream video = random_video(r, cfg.codec, sh);
  Stream s = sign_video(c, r, cfg, video).s;
  SignCfg o = cfg;
  o.golden = true;
  do {
    o.ec = r.chance(60);
    o.key_idx = r.range(0, key_count(o.ec) - 1);
  } while (o.ec == cfg.ec && o.key_idx == cfg.key_idx);
  if (!o.ec) o.hash = "sha256", o.set_hash = false;
  Nalu g;
  for (auto &n : sign_video(c, r, o, video).s)
    if (n.type == 'G') g = n;
  g.uid = -1;
  Sei e = parse_sei(cfg.codec, g.data);
  std::vector<Tlv> tl;
  std::string what;
  for (auto &t : e.tlvs) {
    if (t.tag == T_PUBKEY && r.chance(50)) {
      what += "no key ";
      continue;
    }
    tl.push_back(t);
    if (r.chance(30) && t.val.size() > 1) {
      tl.back().val[r.below(t.val.size())] ^= (uint8_t)(1 << r.below(8));
      what += strf("tag %d altered ", t.tag);
    }
  }
  if (!tl.empty()) g.data = build_sei(cfg.codec, e.reserved, tl, nullptr, o.hash, o.sei_epb);
  int copies = r.range(1, 2);
  for (int k = 0; k < copies; k++) s.insert(s.begin() + (long)(k ? r.below(s.size()) : 0), g);
  const Key &user = key_get(o.ec, o.key_idx);
  std::string desc = "user key " + cfg.str() + " " + types_of(s) + " golden: " + what;
  c.log("%s", desc.c_str());
  ValRun run = validate(c, cfg, s, user.pub.c_str());
  for (auto &p : run.reports) c.log("%s", p.str().c_str());
  for (auto &p : run.reports) {
    CHECK(p.acc_auth != SV_AUTH_RESULT_OK && p.acc_auth != SV_AUTH_RESULT_OK_WITH_MISSING_INFO, "user-key-replaced",
        "accumulated OK for a stream of another key than the one set by the user\n%s", p.str().c_str());
    c.ev("user_key_reports");
  }
  c.seen(desc);
  c.sample(desc);
}

// A golden SEI with altered product information, behind other SEIs that carry no key.
static void hidden_golden(Ctx &c, Rng &r)
{
  SignCfg cfg = random_cfg(r);
  cfg.golden = true;
  cfg.product = true;
  cfg.eos = false;
  GopShape sh;
  sh.min_gops = 3;
  sh.max_gops = 6;
  sh.max_size = 60;
  sh.big = 0;
  Stream video = random_video(r, cfg.codec, sh);
  Stream s = sign_video(c, r, cfg, video).s;
  size_t at = 0;
  std::vector<Nalu> seis;
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i].type == 'G') at = i;
    else if (s[i].sv_sei()) seis.push_back(s[i]);
  }
  Sei e = parse_sei(cfg.codec, s[at].data);
  std::vector<Tlv> tl = e.tlvs;
  for (auto &t : tl)
    if (t.tag == T_PRODUCT && t.val.size() > 4) t.val[2 + r.below(t.val.size() - 3)] ^= 1;
  s[at].data = build_sei(cfg.codec, e.reserved, tl, nullptr, cfg.hash, cfg.sei_epb);
  // Other SEIs first, whole or crippled.
  std::string what;
  for (int k = r.range(1, 2); k > 0 && !seis.empty(); k--) {
    Nalu n = r.pick(seis);
    n.uid = -1;
    Sei p = parse_sei(cfg.codec, n.data);
    std::vector<Tlv> keep;
    for (auto &t : p.tlvs)
      if (r.chance(60)) keep.push_back(t);
    if (r.chance(70) && !keep.empty()) n.data = build_sei(cfg.codec, p.reserved, keep, nullptr, cfg.hash, cfg.sei_epb), what += "crippled ";
    s.insert(s.begin(), n);
  }
  std::string desc = "hidden golden " + what + cfg.str() + " " + types_of(s);
  c.log("%s", desc.c_str());
  ValRun run = validate(c, cfg, s);
  for (auto &p : run.reports) {
    c.log("%s", p.str().c_str());
    CHECK(p.acc_auth != SV_AUTH_RESULT_OK && p.acc_auth != SV_AUTH_RESULT_OK_WITH_MISSING_INFO, "hidden-golden-ok",
        "accumulated OK with an altered golden SEI\n%s", p.str().c_str());
    c.ev("hidden_golden_reports");
  }
  c.seen(desc);
  c.sample(desc);
}

PROPERTY(C18)
{
  if (r.chance(12)) return user_key_attack(c, r);
  if (r.chance(12)) return hidden_golden(c, r);
  SignCfg cfg = random_cfg(r);
  cfg.golden = true;
  cfg.eos = r.chance(20);
  GopShape sh;
  sh.min_gops = 3;
  sh.max_gops = 6;
  sh.max_size = 100;
  sh.big = 0;
  Stream video = random_video(r, cfg.codec, sh);
  SignedStream ss = sign_video(c, r, cfg, video);
  Stream s = ss.s;
  // What is signed.
  size_t golden = 0, n_golden = 0;
  for (size_t i = 0; i < s.size(); i++) {
    if (!s[i].sv_sei()) continue;
    Sei p = parse_sei(cfg.codec, s[i].data);
    CHECK(p.ok, "sei-parse", "%s", p.err.c_str());
    if (s[i].type == 'G') {
      golden = i;
      n_golden++;
      CHECK(p.has_pubkey && p.has_crypto && !p.has_general && !p.has_hash_list, "golden-content", "golden SEI: key %d crypto %d general %d list %d", p.has_pubkey,
          p.has_crypto, p.has_general, p.has_hash_list);
      CHECK(p.pubkey == key_get(cfg.ec, cfg.key_idx).pub, "golden-key", "the golden SEI has another key");
      CHECK(verify_sig(key_get(cfg.ec, cfg.key_idx).pub, digest(cfg.hash, p.doc), p.signature), "golden-signature", "the golden SEI is not properly signed");
    } else {
      CHECK(!p.has_pubkey && !p.has_product && !p.has_crypto, "recurrent-data", "recurrent data in a SEI although a golden SEI is used");
    }
  }
  CHECK(n_golden == 1, "golden-count", "%zu golden SEIs", n_golden);
  int kind = (int)r.below(9);
  std::string what;
  bool user_key = r.chance(15);
  const Key &key = key_get(cfg.ec, cfg.key_idx);
  bool never_ok = false, intact = false, tampered = false;
  size_t first_bad = 0;
  Sei g = parse_sei(cfg.codec, s[golden].data);
  if (kind <= 1) {
    what = "intact";
    intact = true;
    if (r.chance(40)) {
      // The SEIs come later, the golden one as well.
      s = delay_seis(r, s, r.range(1, 12));
      what = "delayed";
    }
  } else if (kind == 2) {
    // Any byte of what is signed, or of the signature.
    Bytes core = s[golden].core();
    size_t lo = cfg.codec == SV_CODEC_H264 ? 1 : 2;
    // Not the SEI header (type and size): then it would be another SEI.
    while (lo < core.size() && memcmp(&core[lo], kUuid, 4) != 0) lo++;
    lo += 17;
    size_t hi = g.sig_off_in_core + g.signature.size();
    size_t at = lo + r.below(hi - lo);
    core[at] ^= (uint8_t)(1 << r.below(8));
    what = strf("golden byte %zu altered", at);
    set_core(s[golden], core);
    Sei q = parse_sei(cfg.codec, s[golden].data);
    // An alteration that makes another valid encoding of the same data does not count.
    if (q.ok && q.doc == g.doc && q.signature == g.signature) intact = false;
    else never_ok = true;
  } else if (kind == 3) {
    // A golden SEI of somebody else.
    SignCfg o = cfg;
    o.ec = r.chance(70);
    do o.key_idx = r.range(0, key_count(o.ec) - 1);
    while (o.ec == cfg.ec && o.key_idx == cfg.key_idx);
    if (!o.ec) o.hash = "sha256", o.set_hash = false;
    SignedStream f = sign_video(c, r, o, video);
    for (auto &n : f.s)
      if (n.type == 'G') s[golden].data = n.data;
    what = "foreign golden SEI";
    never_ok = true;
  } else if (kind == 4) {
    // Somebody's key in the golden SEI, signed with that key or not.
    std::vector<Tlv> tl = g.tlvs;
    const Key &o = key_get(true, (cfg.ec ? cfg.key_idx + 1 : 0) % key_count(true));
    for (auto &t : tl)
      if (t.tag == T_PUBKEY) t.val = Bytes(1, t.val[0]), t.val.insert(t.val.end(), o.pub.begin(), o.pub.end());
    bool resign = r.chance(50);
    s[golden].data = build_sei(cfg.codec, g.reserved, tl, resign ? &o : nullptr, cfg.hash, cfg.sei_epb);
    what = resign ? "other key, signed" : "other key";
    never_ok = true;
  } else if (kind == 5) {
    // Lost.
    s.erase(s.begin() + (long)golden);
    what = "golden lost";
    never_ok = true;
  } else if (kind == 6) {
    // The key of somebody else comes later.
    SignCfg o = cfg;
    o.ec = true;
    do o.key_idx = r.range(0, key_count(true) - 1);
    while (cfg.ec && o.key_idx == cfg.key_idx);
    SignedStream f = sign_video(c, r, o, video);
    Nalu fg;
    for (auto &n : f.s)
      if (n.type == 'G') fg = n;
    fg.uid = -1;
    size_t at = 1 + s.size() / 2 + r.below(s.size() / 2 - 1);
    s.insert(s.begin() + (long)at, fg);
    what = strf("foreign golden SEI at %zu", at);
  } else {
    // Picture units tampered with.
    std::vector<size_t> pics;
    std::set<int> gops;
    for (size_t i = 0; i < s.size(); i++)
      if (s[i].picture() && s[i].gop >= 1 && s[i].gop + 1 < (int)ss.gop_uids.size()) pics.push_back(i);
    if (pics.empty()) return;
    size_t at = r.pick(pics);
    Bytes core = s[at].core();
    if (core.size() < 6) return;
    size_t b = 4 + r.below(core.size() - 5);
    core[b] ^= (uint8_t)(1 << r.range(1, 6));
    set_core(s[at], core);
    if (classify(cfg.codec, s[at].data.data(), s[at].data.size()) != s[at].type) return;
    first_bad = at;
    tampered = true;
    what = strf("unit %zu altered", at);
  }
  if (user_key) what += " user key";
  std::string desc = cfg.str() + " " + types_of(s) + " " + what;
  c.log("%s", desc.c_str());
  ValRun run = validate(c, cfg, s, user_key ? key.pub.c_str() : nullptr);
  for (auto &p : run.reports) c.log("%s", p.str().c_str());
  c.ev("kind:" + what.substr(0, what.find_first_of("0123456789")));
  // With the key set by the user the golden SEI is not needed, but may not be wrong.
  if (intact) {
    check_intact(c, ss.gop_uids.size(), s, run);
    c.ev("intact_ok");
  }
  if (never_ok && !(user_key && kind == 5)) {
    for (auto &p : run.reports) {
      CHECK(p.auth != SV_AUTH_RESULT_OK && p.auth != SV_AUTH_RESULT_OK_WITH_MISSING_INFO, "golden-ok", "OK although: %s\n%s", what.c_str(), p.str().c_str());
      CHECK(p.acc_auth != SV_AUTH_RESULT_OK && p.acc_auth != SV_AUTH_RESULT_OK_WITH_MISSING_INFO, "golden-acc-ok", "accumulated OK although: %s", what.c_str());
    }
    c.ev("never_ok_checked");
  }
  if (tampered && run.status[first_bad] != 'P' && run.status[first_bad] != '-') {
    CHECK(run.status[first_bad] == 'N', "tampered-unit", "the altered unit has status '%c'", run.status[first_bad]);
    bool seen = false;
    for (auto &p : run.reports) seen |= p.auth == SV_AUTH_RESULT_NOT_OK;
    CHECK(seen, "tampering-not-reported", "the altered unit was never reported as NOT_OK");
    CHECK(run.reports.back().acc_auth == SV_AUTH_RESULT_NOT_OK, "tampering-accumulated", "accumulated %s", auth_name(run.reports.back().acc_auth));
    c.ev("tampered_judged");
  }
  if (kind == 6) {
    // A picture unit is authentic only if signed by the owner of the golden SEI; no unit is altered, so all OK marks are right.
    for (size_t i = 0; i < s.size(); i++)
      if (s[i].picture()) CHECK(run.status[i] != 'E', "error-mark", "unit %zu in error", i);
  }
  c.seen(desc);
  c.sample(desc);
}
