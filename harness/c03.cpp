// C03: missing picture data, or a missing SEI, never passes as plain authentic.
#include "damage.hpp"

PROPERTY(C03)
{
  SignCfg cfg = random_cfg(r);
  GopShape sh;
  if (r.chance(4)) {
    sh.longs = 100;
    if (r.chance(70)) cfg.level = SV_AUTHENTICITY_LEVEL_FRAME, cfg.max_sei = 0;
  }
  sh.min_gops = 4;
  sh.max_gops = 8;
  Stream video = random_video(r, cfg.codec, sh);
  SignedStream ss = sign_video(c, r, cfg, video);
  Stream s = ss.s;
  maybe_wraparound(c, r, s, cfg, ss.gop_uids.size());
  int delay = 0;
  if (r.chance(25) && !cfg.golden) s = delay_seis(r, s, delay = r.range(1, 12));
  int last_gop = (int)ss.gop_uids.size() - 1;
  Loss l = lose(r, s, last_gop);
  if (!l.n_pic && !l.n_sei) return;
  const Stream &t = l.left;
  c.log("%s delay=%d %s", cfg.str().c_str(), delay, types_of(s).c_str());
  c.log("%s: lost %d picture units and %d SEIs (GOPs up to %d of %d), left %s", l.name, l.n_pic, l.n_sei, l.g_hi, last_gop, types_of(t).c_str());
  ValRun run = validate(c, cfg, t);
  for (auto &p : run.reports) c.log("%s", p.str().c_str());
  // The units of a GOP without its SEI can never be shown to be authentic.
  for (size_t i = 0; i < t.size(); i++)
    if (t[i].picture() && l.lost_sei_gops.count(t[i].gop))
      CHECK(run.status_hist[i].find('.') == std::string::npos, strf("unsigned-authentic:%s", l.name),
          "unit %zu (%c) of GOP %d, whose SEI was lost, got '%s'", i, t[i].type, t[i].gop, run.status_hist[i].c_str());
  size_t ok_before = (size_t)-1;
  for (auto &p : run.reports)
    if (p.auth == SV_AUTH_RESULT_OK && p.after < l.first_in_left) ok_before = p.after;
  // Without a SEI the number of expected picture units is unknown.
  for (size_t i = 0; ok_before != (size_t)-1 && i < t.size(); i++)
    if (t[i].picture() && l.lost_sei_gops.count(t[i].gop) && run.status[i] == 'N' && run.resolved_in[i] >= 0) {
      const Report &p = run.reports[(size_t)run.resolved_in[i]];
      CHECK(p.expected < 0, "expected-known", "the report @%zu of GOP %d, whose SEI was lost, has %d expected picture units", p.after, t[i].gop, p.expected);
      c.ev("unknown_expected");
    }
  // No report which closes an incomplete GOP is plain OK.
  if (ok_before != (size_t)-1)
    for (size_t i = 0; i < t.size(); i++)
      if (t[i].type == 'S' && l.lost_gops.count(t[i].gop) && run.resolved_in[i] >= 0) {
        const Report &p = run.reports[(size_t)run.resolved_in[i]];
        CHECK(p.auth != SV_AUTH_RESULT_OK, strf("incomplete-ok:%s", l.name),
            "the report @%zu of GOP %d, which is incomplete, is OK: %s", p.after, t[i].gop, p.vstr.c_str());
        c.ev("incomplete_gops_reported");
      }
  // With the hash of each unit in the SEI, a GOP that lacks units other than its first tells how many, and what is left is authentic.
  if (ok_before != (size_t)-1 && !delay && !l.n_sei && l.lost_gops.size() == 1) {
    int g = *l.lost_gops.begin(), n = 0;
    bool first_lost = false, listed = false, started = false;
    for (size_t i = 0; i < s.size(); i++) {
      if (!s[i].picture() || s[i].gop != g) continue;
      if (l.drop[i]) n++, first_lost |= !started;
      started = true;
    }
    for (size_t i = 0; i < t.size(); i++)
      if (t[i].type == 'S' && t[i].gop == g) {
        for (auto &x : parse_sei(cfg.codec, t[i].data).tlvs) listed |= x.tag == T_HASHLIST;
        if (!listed || first_lost || run.resolved_in[i] < 0) continue;
        const Report &p = run.reports[(size_t)run.resolved_in[i]];
        int m = (int)std::count(p.vstr.begin(), p.vstr.end(), 'M');
        CHECK(p.auth == SV_AUTH_RESULT_OK_WITH_MISSING_INFO && m == n, "missing-count", "GOP %d lacks %d units, but the report @%zu is %s with %d missing: %s", g, n, p.after,
            auth_name(p.auth), m, p.vstr.c_str());
        for (size_t k = 0; k < t.size(); k++)
          if (t[k].picture() && t[k].gop == g)
            CHECK(run.status[k] == '.', "left-authentic", "unit %zu of GOP %d, which lacks units, got '%c' although it was signed", k, g, run.status[k]);
        c.ev("missing_counted");
      }
  }
  // SEIs which come after the hole and sign GOPs after the hole.
  int later_seis = 0;
  for (size_t i = l.last + 1; i < s.size(); i++)
    later_seis += s[i].type == 'S' && s[i].gop > l.g_hi && !l.drop[i];
  if (ok_before != (size_t)-1 && later_seis >= 2) {
    c.ev("judged");
    c.ev(std::string("judged:") + l.name);
    const Report &f = run.final_report;
    CHECK(f.acc_auth == SV_AUTH_RESULT_NOT_OK || f.acc_auth == SV_AUTH_RESULT_OK_WITH_MISSING_INFO,
        strf("acc:%s", l.name), "a session with %d picture units and %d SEIs lost is accumulated as %s", l.n_pic, l.n_sei, auth_name(f.acc_auth));
    bool rep = false;
    for (auto &p : run.reports) rep |= p.after >= l.first_in_left && p.auth != SV_AUTH_RESULT_OK;
    CHECK(rep, strf("no-report:%s", l.name), "no report tells about the loss");
    // Losing the SEI makes its GOP unverifiable, which is more than missing information.
    if (l.n_sei && l.kind == 4)
      CHECK(f.acc_auth == SV_AUTH_RESULT_NOT_OK, "acc-sei", "a session with a lost SEI is accumulated as %s", auth_name(f.acc_auth));
  } else
    c.ev("not_judged");
  c.seen(cfg.str() + types_of(s) + "|" + types_of(t));
  c.sample(types_of(s) + " " + l.name + " -> " + types_of(t) + ": " + auth_name(run.final_report.acc_auth));
}
