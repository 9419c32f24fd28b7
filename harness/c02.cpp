// C02: altered, inserted, duplicated or reordered picture data is never reported as authentic.
#include "damage.hpp"

// Whole GOPs, with the SEIs that sign them: another recording of the same camera takes over, a GOP is repeated or GOPs
// change places. All units and SEIs are authentic by themselves.
static void whole_gops(Ctx &c, Rng &r)
{
  SignCfg cfg = random_cfg(r);
  cfg.golden = false;
  GopShape sh;
  sh.min_gops = 6;
  sh.max_gops = 9;
  sh.max_frames = 6;
  Stream va = random_video(r, cfg.codec, sh), vb = random_video(r, cfg.codec, sh);
  // The hash of an I-frame may start with zeros.
  int zeros = r.chance(30);
  if (zeros)
    for (auto &n : va)
      for (int k = 0; n.type == 'I' && k < 3000 && unit_hash(cfg.hash, n.core(), nullptr)[0]; k++) {
        Bytes b = n.core();
        b[b.size() - 2] = (uint8_t)(4 + r.below(250));
        b[b.size() - 1] = (uint8_t)(4 + r.below(250));
        set_core(n, b);
      }
  SignedStream sa = sign_video(c, r, cfg, va), sb = sign_video(c, r, cfg, vb);
  Stream a = sa.s, b = sb.s, s;
  // The start of each GOP.
  auto starts = [](const Stream &x) {
    std::vector<size_t> v;
    for (size_t i = 0; i < x.size(); i++)
      if (x[i].type == 'I') v.push_back(i);
    return v;
  };
  std::vector<size_t> ia = starts(a), ib = starts(b);
  if (ia.size() < 6 || ib.size() < 6) return;
  int kind = (int)r.below(4);
  static const char *kName[] = {"other-recording", "repeated-gop", "swapped-gops", "replaced-gop"};
  size_t ka = 2 + r.below(ia.size() - 4), at = ia[ka];
  auto counter = [&](const Stream &x, int gop) {
    for (auto &n : x)
      if (n.type == 'S' && n.gop == gop) return parse_sei(cfg.codec, n.data).gop_counter;
    return 0u;
  };
  std::string what;
  if (kind == 0) {
    size_t kb = 1 + r.below(ib.size() - 4);
    bool follow = r.chance(80);
    if (follow) renumber(b, cfg, counter(a, a[ia[ka]].gop) - counter(b, b[ib[kb]].gop));
    s.assign(a.begin(), a.begin() + (long)at);
    s.insert(s.end(), b.begin() + (long)ib[kb], b.end());
    what = strf("GOP %zu on is replaced by GOP %zu on of another recording%s", ka, kb, follow ? " with the next counter" : "");
  } else if (kind == 1) {
    size_t n = 1 + r.below(std::min<size_t>(3, ka - 1));
    s.assign(a.begin(), a.begin() + (long)at);
    s.insert(s.end(), a.begin() + (long)ia[ka - n], a.end());
    what = strf("%zu GOPs before GOP %zu are repeated", n, ka);
  } else if (kind == 2) {
    s.assign(a.begin(), a.begin() + (long)at);
    s.insert(s.end(), a.begin() + (long)ia[ka + 1], a.begin() + (long)ia[ka + 2]);
    s.insert(s.end(), a.begin() + (long)at, a.begin() + (long)ia[ka + 1]);
    s.insert(s.end(), a.begin() + (long)ia[ka + 2], a.end());
    what = strf("GOP %zu and the next are swapped", ka);
  } else {
    size_t kb = 1 + r.below(ib.size() - 4);
    renumber(b, cfg, counter(a, a[ia[ka]].gop) - counter(b, b[ib[kb]].gop));
    s.assign(a.begin(), a.begin() + (long)at);
    s.insert(s.end(), b.begin() + (long)ib[kb], b.begin() + (long)ib[kb + 1]);
    s.insert(s.end(), a.begin() + (long)ia[ka + 1], a.end());
    what = strf("GOP %zu is replaced by GOP %zu of another recording", ka, kb);
  }
  c.log("%s %s: %s%s\n%s", cfg.str().c_str(), kName[kind], what.c_str(), zeros ? " (zeros)" : "", types_of(s).c_str());
  ValRun run = validate(c, cfg, s);
  for (auto &p : run.reports) c.log("%s", p.str().c_str());
  bool ok_before = false;
  for (auto &p : run.reports) ok_before |= p.auth == SV_AUTH_RESULT_OK && p.after <= at;
  size_t seis = 0;
  for (size_t i = at; i < s.size(); i++) seis += s[i].type == 'S';
  if (!ok_before || seis < 3) return;
  c.ev("judged");
  c.ev(std::string("judged:") + kName[kind]);
  if (zeros) c.ev("hash_starts_with_zeros");
  CHECK(run.final_report.acc_auth == SV_AUTH_RESULT_NOT_OK, strf("gops:%s", kName[kind]), "%s, but the session is accumulated as %s", what.c_str(),
      auth_name(run.final_report.acc_auth));
  c.seen(cfg.str() + types_of(s) + what);
}

PROPERTY(C02)
{
  if (r.chance(15)) return whole_gops(c, r);
  SignCfg cfg = random_cfg(r);
  GopShape sh;
  sh.min_gops = 4;
  sh.max_gops = 7;
  sh.big = 14;
  sh.longs = 2;
  Stream video = random_video(r, cfg.codec, sh);
  SignedStream ss = sign_video(c, r, cfg, video);
  Stream s = ss.s;
  maybe_wraparound(c, r, s, cfg, ss.gop_uids.size());
  int delay = 0;
  if (r.chance(25) && !cfg.golden) s = delay_seis(r, s, delay = r.range(1, 12));
  // The strict verdict needs a tampered GOP which is not the first and has its SEI and one more.
  int last_gop = (int)ss.gop_uids.size() - 1;  // The unfinished one.
  Tamper t = tamper(r, cfg.codec, s);
  if (!t.done) return;
  const std::string &what = t.what;
  size_t at = t.at;
  int g = t.g, g_hi = t.g_hi;
  c.log("%s delay=%d %s\n%s: %s in GOP %d..%d of %d", cfg.str().c_str(), delay, types_of(s).c_str(), t.name, what.c_str(), g, g_hi, last_gop);
  ValRun run = validate(c, cfg, s);
  for (auto &p : run.reports) c.log("%s", p.str().c_str());
  // 1. No altered or foreign unit is ever marked as authentic.
  for (size_t i = 0; i < s.size(); i++)
    if (s[i].uid == -1)
      CHECK(run.status_hist[i].find('.') == std::string::npos, strf("foreign-authentic:%s", t.name),
          "unit %zu (%c) which was never signed got '%s' (%s)", i, s[i].type, run.status_hist[i].c_str(), what.c_str());
  // 2. The units of the tampered GOPs that were to be validated do not all come out authentic.
  // (The GOP hash covers all of them; if per unit hashes are there, at least one is not '.'.)
  // 3. The session verdict: from the first OK on, the tampering has to be seen.
  size_t first_ok = (size_t)-1;
  size_t last_ok_before = (size_t)-1;
  for (auto &p : run.reports)
    if (p.auth == SV_AUTH_RESULT_OK && first_ok == (size_t)-1) first_ok = p.after;
  for (auto &p : run.reports)
    if (p.auth == SV_AUTH_RESULT_OK && p.after < at) last_ok_before = p.after;
  // With as many units as were signed, none is reported as missing.
  bool in_place = true;  // Neither displaced nor turned into something that is not a valid unit.
  for (size_t i = 0; i < s.size(); i++) in_place &= !s[i].picture() || (s[i].uid != -3 && !(s[i].uid == -1 && run.status_hist[i].find('U') != std::string::npos));
  if (in_place && last_ok_before != (size_t)-1 && (t.kind == 0 || t.kind == 5)) {
    for (auto &p : run.reports)
      CHECK(p.vstr.find('M') == std::string::npos, strf("missing:%s", t.name), "all units were delivered, but some are reported as missing (%s): %s", what.c_str(), p.vstr.c_str());
    c.ev("none_missing");
  }
  bool judged = last_ok_before != (size_t)-1 && g_hi <= last_gop - 2;
  if (judged) {
    c.ev("judged");
    c.ev(std::string("judged:") + t.name);
    const Report &f = run.final_report;
    CHECK(f.acc_auth != SV_AUTH_RESULT_OK, strf("acc-ok:%s", t.name), "tampered session is accumulated as OK (%s)", what.c_str());
    CHECK(f.acc_auth == SV_AUTH_RESULT_NOT_OK, strf("acc-weak:%s", t.name), "tampered session is accumulated as %s (%s)", auth_name(f.acc_auth), what.c_str());
    bool rep = false;
    for (auto &p : run.reports) rep |= p.after >= at && p.auth == SV_AUTH_RESULT_NOT_OK;
    CHECK(rep, strf("no-not-ok:%s", t.name), "no report tells about the tampering (%s)", what.c_str());
  } else {
    c.ev("pending_or_first");
  }
  c.seen(strf("%s|%s|%s|%d|%d", cfg.str().c_str(), types_of(s).c_str(), what.c_str(), g, g_hi));
  c.sample(types_of(s) + " " + t.name + ": " + what + " -> " + auth_name(run.final_report.acc_auth));
}
