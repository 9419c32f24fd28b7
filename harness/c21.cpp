// C21: long GOPs and SEI size limits fall back without losing authenticity.
#include <algorithm>

#include "common.hpp"

PROPERTY(C21)
{
  SignCfg cfg = random_cfg(r);
  cfg.golden = false;
  cfg.pubkey_in_sei = true;
  cfg.level = r.chance(85) ? SV_AUTHENTICITY_LEVEL_FRAME : SV_AUTHENTICITY_LEVEL_GOP;
  cfg.eos = r.chance(20);
  cfg.max_sei = 0;
  size_t hs = digest(cfg.hash, Bytes()).size();
  int n_gops = r.range(2, 4);
  bool huge = r.chance(c.thorough ? 4 : 1);
  // A list that fits a GOP of 300 of the largest hashes.
  int cap = (int)(300 * 64 / hs);
  Stream video;
  std::vector<int> len;
  int uid = 0;
  for (int g = 0; g <= n_gops; g++) {
    int n;
    switch (r.below(8)) {
      case 0: n = r.range(1, 5); break;
      case 1: n = r.range(6, 100); break;
      case 2: n = cap + r.range(-2, 3); break;
      case 3: n = 300 + r.range(-2, 2); break;
      case 4: n = r.range(cap, cap + 500); break;
      case 5: n = 65535 / (int)hs + r.range(-1, 1); break;  // Where the length field of the list ends.
      default: n = r.range(10, 299);
    }
    if (huge && g == 0) n = c.thorough && r.chance(10) ? 65535 : r.range(3000, 9000);
    if (g == n_gops) n = r.range(2, 4);
    len.push_back(n);
    for (int i = 0; i < n; i++) {
      char t = i == 0 ? 'I' : r.chance(20) && g < n_gops ? (video.back().type == 'I' || video.back().type == 'i' ? 'i' : 'p') : 'P';
      Nalu u = make_nalu(r, cfg.codec, t, (size_t)r.range(2, 40), 4);
      u.uid = uid++;
      u.gop = g;
      video.push_back(u);
    }
  }
  if (r.chance(60)) {
    // Around the size of the SEI of one of the GOPs, or anything.
    int g = (int)r.below((uint64_t)n_gops);
    long full = 230 + (long)hs * (2 + len[(size_t)g]);
    switch (r.below(5)) {
      case 0: cfg.max_sei = (size_t)r.range(1, 700); break;
      case 1: cfg.max_sei = (size_t)r.range(1, 30000); break;
      case 2: cfg.max_sei = 65535 + (size_t)r.range(-3, 3); break;
      default: cfg.max_sei = (size_t)std::max(1L, full + (cfg.recurrence ? 0 : 400) + r.range(-300, 300));
    }
  }
  bool exact = false;
  if (!huge && r.chance(35)) {
    // Exactly the size of one of the SEIs, or a byte less or more.
    Rng again = r;
    SignCfg unlimited = cfg;
    unlimited.max_sei = 0;
    SignedStream first = sign_video(c, again, unlimited, video);
    if (!first.seis.empty()) {
      Sei s = parse_sei(cfg.codec, first.seis[r.below(first.seis.size())].data);
      if (s.ok) cfg.max_sei = s.payload_size - 1 + r.below(3), exact = true;
    }
  }
  std::string lens;
  for (auto x : len) lens += strf("%d ", x);
  c.log("%s GOPs of %s", cfg.str().c_str(), lens.c_str());
  SignedStream ss = sign_video(c, r, cfg, video);
  // The reference model.
  std::vector<std::vector<Bytes>> h((size_t)n_gops + 1);
  Bytes ihash;
  for (auto &n : video) {
    auto &l = h[(size_t)n.gop];
    if (n.type == 'I') ihash = unit_hash(cfg.hash, n.core(), nullptr), l.push_back(ihash);
    else l.push_back(unit_hash(cfg.hash, n.core(), &ihash));
  }
  const Key &key = key_get(cfg.ec, cfg.key_idx);
  CHECK(ss.seis.size() == (size_t)n_gops + (cfg.eos ? 1 : 0), "sei-count", "%zu SEIs for %d GOPs", ss.seis.size(), n_gops);
  for (size_t g = 0; g < ss.seis.size(); g++) {
    Sei s = parse_sei(cfg.codec, ss.seis[g].data);
    CHECK(s.ok, "malformed", "SEI %zu is malformed: %s", g, s.err.c_str());
    CHECK(verify_sig(key.pub, digest(cfg.hash, s.doc), s.signature), "signature", "the signature of SEI %zu does not verify", g);
    Bytes all;
    for (auto &x : h[g]) all.insert(all.end(), x.begin(), x.end());
    CHECK(s.has_general && s.num_nalus == h[g].size(), "num-nalus", "%u units, GOP %zu has %zu", s.num_nalus, g, h[g].size());
    CHECK(s.gop_hash == digest(cfg.hash, all), "gop-hash", "the hash of GOP %zu of %zu units differs", g, h[g].size());
    CHECK(s.gop_counter == g + 1, "counter", "GOP counter %u", s.gop_counter);
    if (s.has_hash_list) {
      CHECK(cfg.level == SV_AUTHENTICITY_LEVEL_FRAME, "list-gop-level", "a list of hashes at GOP level");
      CHECK(s.hash_list == all, "hash-list", "the list of GOP %zu of %zu units is not complete (%zu bytes of %zu)", g, h[g].size(), s.hash_list.size(), all.size());
      CHECK(!cfg.max_sei || s.payload_size <= cfg.max_sei, "limit", "a payload of %zu bytes, the limit is %zu", s.payload_size, cfg.max_sei);
      c.ev("lists_checked");
      if (h[g].size() > 290) c.ev("long_lists");
      if (exact && s.payload_size == cfg.max_sei) c.ev("limit_just_met");
    } else if (cfg.level == SV_AUTHENTICITY_LEVEL_FRAME) {
      // Only for a reason.
      size_t full = s.payload_size + 4 + all.size();
      bool too_long = h[g].size() > 300, too_big = cfg.max_sei && full > cfg.max_sei;
      CHECK(too_long || too_big, "list-missing", "no list for GOP %zu of %zu units (payload %zu, limit %zu)", g, h[g].size(), s.payload_size, cfg.max_sei);
      c.ev(too_big ? "fallback_limit" : "fallback_long");
      if (exact && full == cfg.max_sei + 1) c.ev("limit_just_exceeded");
    }
    c.ev("seis_checked");
  }
  Stream s = ss.s;
  if (r.chance(30)) s = delay_seis(r, s, 10);
  ValRun run = validate(c, cfg, s);
  check_intact(c, ss.gop_uids.size(), s, run);
  c.ev("streams_validated");
  // The same with one unit altered or lost, not in the first GOP, with another one after it.
  if (n_gops >= 3) {
    std::vector<size_t> cand;
    for (size_t i = 0; i < ss.s.size(); i++)
      if (ss.s[i].picture() && ss.s[i].gop >= 1 && ss.s[i].gop < n_gops - 1) cand.push_back(i);
    if (!cand.empty()) {
      size_t at = r.chance(30) ? cand.back() : r.chance(20) ? cand[0] : r.pick(cand);
      Stream t = ss.s;
      bool lost = r.chance(50) && t[at].type != 'I';
      std::string what;
      if (lost) {
        what = strf("lost %c %zu of GOP %d", t[at].type, at, t[at].gop);
        t.erase(t.begin() + (long)at);
      } else {
        what = strf("altered %c %zu of GOP %d", t[at].type, at, t[at].gop);
        Bytes core = t[at].core();
        core[core.size() - 2] ^= 0x08;
        if (core.size() < 6) core.insert(core.end() - 1, {0x55, 0x66, 0x77});
        set_core(t[at], core);
      }
      c.log("%s", what.c_str());
      ValRun bad = validate(c, cfg, t);
      CHECK(bad.has_final && bad.final_report.acc_auth != SV_AUTH_RESULT_OK, lost ? "lost-ok" : "altered-ok", "a stream with %s is reported OK", what.c_str());
      if (!lost) CHECK(bad.final_report.acc_auth == SV_AUTH_RESULT_NOT_OK, "altered-weak", "a stream with %s is reported %s", what.c_str(), auth_name(bad.final_report.acc_auth));
      if (!lost) CHECK(bad.status[at] != '.', "altered-unit", "the altered unit is reported authentic (%s)", what.c_str());
      c.ev("damaged_judged");
    }
  }
  c.seen(cfg.str() + lens);
  c.sample(cfg.str() + " GOPs of " + lens);
}
