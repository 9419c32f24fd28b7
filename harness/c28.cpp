// C28: a part of an intact signed recording validates by itself.
#include "common.hpp"

PROPERTY(C28)
{
  SignCfg cfg = random_cfg(r);
  GopShape sh;
  sh.longs = 2;
  sh.min_gops = 4;
  sh.max_gops = r.chance(20) ? 14 : 9;
  if (r.chance(30)) sh.max_frames = 2;
  if (r.chance(40)) cfg.recurrence = (unsigned)r.range(2, 30);
  Stream video = random_video(r, cfg.codec, sh);
  SignedStream ss = sign_video(c, r, cfg, video);
  Stream s = ss.s;
  int delay = 0;
  if (r.chance(40) && !cfg.golden) s = delay_seis(r, s, delay = r.range(1, 12));
  // A part starts at a random access point, possibly at the SEIs and the parameter sets in front of it, and ends anywhere.
  std::vector<size_t> starts;
  for (size_t i = 1; i + 2 < s.size(); i++)
    if (s[i].type == 'I') starts.push_back(i);
  if (starts.empty()) return;
  size_t from = starts[r.below(starts.size())];
  if (r.chance(50))
    while (from > 0 && !s[from - 1].picture() && !s[from - 1].sv_sei()) from--;
  if (r.chance(50) && from > 0 && s[from - 1].sv_sei()) from--;
  size_t to = r.chance(70) ? s.size() : from + 1 + r.below(s.size() - from);
  Stream t(s.begin() + (long)from, s.begin() + (long)to);
  int first_gop = -1;
  for (auto &n : t)
    if (n.picture()) {
      first_gop = n.gop;
      break;
    }
  if (first_gop < 0) return;
  // The key: from the SEIs, or set by the user when they have none.
  const char *pub = nullptr;
  bool keyed = false;  // Some SEI of the part carries the key.
  bool algo_first = false;  // The first one has the hash algorithm.
  int early = 0, total = 0;
  for (auto &n : t) {
    if (!n.sv_sei()) continue;
    Sei p = parse_sei(cfg.codec, n.data);
    CHECK(p.ok, "malformed", "malformed SEI: %s", p.err.c_str());
    total++;
    early += n.gop < first_gop;
    if (total == 1)
      for (auto &x : p.tlvs) algo_first |= x.tag == T_CRYPTO;
    for (auto &x : p.tlvs) keyed |= x.tag == T_PUBKEY && x.val.size() > 2;
  }
  std::string desc = cfg.str() + strf(" delay=%d from=%zu to=%zu ", delay, from, to) + types_of(s) + " -> " + types_of(t);
  c.log("%s", desc.c_str());
  // With SEIs of several GOPs in front of the part, it is not in sync after the first one. Not claimed.
  if (early > 1) {
    c.ev("out_of_scope");
    return;
  }
  if (!cfg.pubkey_in_sei || cfg.golden || r.chance(20)) pub = key_get(cfg.ec, cfg.key_idx).pub.c_str();
  // Which hash algorithm is used is known from the SEIs only, unless it is the default one.
  if (pub && cfg.hash != "sha256" && !algo_first) {
    c.ev("unknown_hash_algorithm");
    return;
  }
  ValRun run = validate(c, cfg, t, pub);
  for (auto &p : run.reports) c.log("%s", p.str().c_str());
  size_t first_sei = t.size();
  for (size_t i = 0; i < t.size(); i++)
    if (t[i].sv_sei()) {
      first_sei = i;
      break;
    }
  check_counters(c, t, run);
  bool ok = false;
  size_t n_ok = 0;
  for (auto &p : run.reports) {
    if (p.auth == SV_AUTH_RESULT_OK) {
      ok = true;
      n_ok++;
      CHECK(p.acc_auth == SV_AUTH_RESULT_OK, "acc", "accumulated %s after OK", auth_name(p.acc_auth));
      for (char ch : p.vstr) CHECK(ch != 'N' && ch != 'M' && ch != 'E', "bad-status", "an OK report of an intact part has status %c in %s", ch, p.vstr.c_str());
      continue;
    }
    CHECK(!ok, "late", "%s in a part of an intact stream, after OK", auth_name(p.auth));
    // Once a SEI has come the video is known to be signed.
    if (p.after >= first_sei)
      CHECK(p.auth == SV_AUTH_RESULT_SIGNATURE_PRESENT, "early", "%s in a part of an intact stream, unit %zu, first SEI %zu", auth_name(p.auth), p.after, first_sei);
    else
      CHECK(p.auth == SV_AUTH_RESULT_NOT_SIGNED, "unsigned", "%s without any SEI", auth_name(p.auth));
  }
  if (total) {
    bool present = false;
    for (auto &p : run.reports) present |= p.after == first_sei || p.after > first_sei;
    // Reported by the SEI itself, or by the I-frame after it.
    size_t next_i = first_sei + 1;
    while (next_i < t.size() && t[next_i].type != 'I') next_i++;
    if (next_i < t.size()) CHECK(present, "not-detected", "there are SEIs, but no report");
  }
  // GOPs of which all units and the SEI are here are authentic as soon as there is a key.
  std::set<int> have;
  for (auto &n : t)
    if (n.sv_sei() && n.gop >= first_gop) have.insert(n.gop);
  bool can = pub || keyed;
  if (!have.empty() && can) {
    CHECK(ok && run.final_report.acc_auth == SV_AUTH_RESULT_OK, "acc-final", "a part of an intact stream is accumulated as %s", auth_name(run.final_report.acc_auth));
    for (size_t i = 0; i < t.size(); i++)
      if (t[i].picture() && have.count(t[i].gop)) {
        CHECK(run.status[i] == '.', "picture-status", "unit %zu (%c, GOP %d) of a complete GOP got '%c' (%s)", i, t[i].type, t[i].gop, run.status[i], run.status_hist[i].c_str());
        c.ev("authentic_pictures");
      }
    c.ev("parts_ok");
    c.ev(early ? "parts_with_early_sei" : "parts_without_early_sei");
  } else if (!can) {
    CHECK(!ok, "no-key", "OK without any key");
    if (total) c.ev("parts_without_key");
  }
  c.seen(desc);
  c.sample(desc);
}
