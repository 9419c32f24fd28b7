// C06: reports account for every delivered unit.
#include <algorithm>

#include "mangle.hpp"

PROPERTY(C06)
{
  SignCfg cfg = random_cfg(r);
  cfg.eos = r.chance(20);
  GopShape sh;
  sh.longs = 2;
  sh.min_gops = 2;
  sh.max_gops = 6;
  sh.max_frames = 5;
  sh.max_size = 80;
  Stream video = random_video(r, cfg.codec, sh);
  Stream s;
  int kind = (int)r.below(5);
  std::string what;
  if (kind == 0) {
    s = video;
    what = "unsigned ";
  } else {
    if (r.chance(15)) random_eos(r, cfg, video);
    SignedStream ss = sign_video(c, r, cfg, video);
    s = ss.s;
    if (r.chance(30) && !cfg.golden) s = delay_seis(r, s, r.range(1, 10));
    if (kind >= 2) what = mangle(r, cfg.codec, s, r.range(1, kind == 2 ? 1 : 6));
    if (r.chance(25) && s.size() > 4) {  // starts in the middle
      size_t cut = r.below(s.size() / 2);
      s.erase(s.begin(), s.begin() + (long)cut);
      what += strf("start at %zu ", cut);
    }
  }
  std::string desc = cfg.str() + " " + types_of(s) + " " + what;
  c.log("%s", desc.c_str());
  Sv sv(signed_video_create(cfg.codec));
  CHECK(sv != nullptr, "create", "create failed");
  size_t w = 0;  // The first unit not yet accounted for.
  unsigned validated = 0;
  std::vector<char> last(s.size(), '-');
  std::vector<int> rcs;
  bool is_signed = false;
  for (size_t i = 0; i < s.size(); i++) {
    Bytes d = s[i].data;
    signed_video_authenticity_t *a = nullptr;
    bool ask = !r.chance(1);  // Not every report is fetched.
    SignedVideoReturnCode rc = signed_video_add_nalu_and_authenticate(sv.get(), d.data(), d.size(), ask ? &a : nullptr);
    c.ev("units_validated");
    rcs.push_back(rc);
    if (!ask) {
      // Whatever was to be reported now is seen in the report on request.
      a = signed_video_get_authenticity_report(sv.get());
      CHECK(a, "no-report-on-request", "no report on request after unit %zu (%d)", i, rc);
      Report p = to_report(a, i);
      signed_video_authenticity_report_free(a);
      CHECK(p.acc_received == i + 1, "received", "%u units received of %zu", p.acc_received, i + 1);
      // Synchronise the model: was there a new report? The strings tell only if their last unit is this one, so stop.
      c.ev("skipped_fetch");
      break;
    }
    if (!a) {
      if (r.chance(10)) {
        a = signed_video_get_authenticity_report(sv.get());
        CHECK(a, "no-report-on-request", "no report on request after unit %zu", i);
        Report p = to_report(a, i);
        signed_video_authenticity_report_free(a);
        CHECK(p.acc_received == i + 1, "received", "%u units received of %zu", p.acc_received, i + 1);
        unsigned pend = is_signed ? (unsigned)(i + 1 - w) : (unsigned)(i + 1);
        CHECK(p.acc_pending == pend, "pending-on-request", "%u units pending, %u expected", p.acc_pending, pend);
        CHECK(p.acc_validated == validated, "validated-on-request", "%u units validated, %u expected", p.acc_validated, validated);
        c.ev("reports_on_request");
      }
      continue;
    }
    Report p = to_report(a, i);
    signed_video_authenticity_report_free(a);
    c.ev("reports");
    c.ev(std::string("report:") + auth_name(p.auth));
    c.log("%s", p.str().c_str());
    CHECK(rc == SV_OK, "report-on-error", "a report although unit %zu was refused: %d", i, rc);
    CHECK(p.vstr.size() == p.nstr.size(), "string-lengths", "%zu statuses for %zu units", p.vstr.size(), p.nstr.size());
    // Walk through the strings. Missing units do not consume a delivered unit.
    size_t u = w;
    int pend = 0, new_n = 0, new_m = 0, new_e = 0, new_dot = 0, new_pic = 0, missing_kept = 0;
    bool leading = true;
    size_t lead = 0;
    for (size_t k = 0; k < p.vstr.size(); k++) {
      char st = p.vstr[k], ty = p.nstr[k];
      CHECK(strchr("PU_.NME", st), "status-char", "unknown status '%c'", st);
      CHECK((st == 'M') == (ty == ' '), "missing-mark", "status '%c' with type '%c'", st, ty);
      if (st == 'P') leading = false;
      if (st == 'M') {
        new_m++;
        if (!leading) missing_kept++;
        c.ev("missing_marks");
        continue;
      }
      CHECK(u <= i, "too-many-units", "the report has more units than delivered");
      CHECK(ty == s[u].type, "unit-type", "unit %zu is reported as '%c' and is '%c' (%s)", u, ty, s[u].type, p.nstr.c_str());
      if (leading) lead++;
      pend += st == 'P';
      bool fresh = last[u] == '-' || last[u] == 'P';
      if (!fresh) CHECK(last[u] == st, "status-changed", "unit %zu was '%c' and is '%c'", u, last[u], st);
      if (fresh) {
        new_n += st == 'N';
        new_e += st == 'E' && rcs[u] == SV_OK;  // If not OK, the user has been told.
        new_dot += st == '.';
        new_pic += st == '.' && s[u].picture();
      }
      if (st == 'E') c.ev("error_marks");
      // What is never signed is ignored; what cannot be parsed is unknown or in error.
      bool pristine = s[u].uid != -1;
      if (strchr("v_o", ty)) CHECK(st == '_' || (!pristine && st == 'U'), "ignored-status", "unit %zu (%c) has status '%c'", u, ty, st);
      if (ty == 'z') CHECK(st == '_' || (!pristine && st == 'U'), "other-sei-status", "other SEI %zu has status '%c'", u, st);
      if (ty == 'U') CHECK(st == 'U' || st == 'E', "undefined-status", "undefined unit %zu has status '%c'", u, st);
      if (s[u].picture()) CHECK(st != '_', "picture-ignored", "picture unit %zu has status '%c'", u, st);
      last[u] = st;
      u++;
    }
    CHECK(u == i + 1, "units-lost", "the report ends at unit %zu, the latest is %zu", u, i + 1);
    CHECK(p.pending == pend, "pending-count", "%d units are pending, %d reported", pend, p.pending);
    switch (p.auth) {
      case SV_AUTH_RESULT_OK:
        CHECK(!new_n && !new_e && !new_m, "ok-with-bad-units", "OK with %d not authentic, %d erroneous and %d missing units", new_n, new_e, new_m);
        CHECK(new_dot > 0, "ok-without-units", "OK without any authentic unit");
        // The numbers of picture units, the expected one may be unknown.
        CHECK(p.received == new_pic, "counter-received", "OK with %d received picture units, %d became authentic", p.received, new_pic);
        CHECK(p.expected == new_pic || p.expected == -1, "counter-expected", "OK with %d expected picture units, %d became authentic", p.expected, new_pic);
        c.ev("ok_checked");
        break;
      case SV_AUTH_RESULT_OK_WITH_MISSING_INFO:
        CHECK(!new_n && !new_e, "missing-info-with-bad-units", "OK_WITH_MISSING_INFO with %d not authentic and %d erroneous units", new_n, new_e);
        CHECK(new_m > 0, "no-missing", "OK_WITH_MISSING_INFO without missing units");
        CHECK(p.received == new_pic, "counter-received-missing", "OK_WITH_MISSING_INFO with %d received picture units, %d became authentic", p.received, new_pic);
        CHECK(p.expected == new_pic + new_m || p.expected == -1, "counter-expected-missing", "OK_WITH_MISSING_INFO with %d expected picture units, %d became authentic and %d are missing", p.expected, new_pic, new_m);
        break;
      case SV_AUTH_RESULT_NOT_SIGNED:
        CHECK(!new_dot && !new_n && !new_m, "not-signed-with-judged-units", "NOT_SIGNED with judged units");
        break;
      default:
        break;
    }
    CHECK(p.acc_received == i + 1, "received", "%u units received of %zu", p.acc_received, i + 1);
    w += lead;
    is_signed = p.acc_auth != SV_AUTH_RESULT_NOT_SIGNED;
    if (is_signed) validated += (unsigned)lead;
    CHECK(p.acc_validated == validated, "validated", "%u units validated, %u expected", p.acc_validated, validated);
    unsigned exp_pend = is_signed ? (unsigned)(i + 1 - w) : (unsigned)(i + 1);
    CHECK(p.acc_pending == exp_pend, missing_kept ? "pending-with-missing" : "pending", "%u units pending, %u expected", p.acc_pending, exp_pend);
  }
  c.seen(desc);
  c.sample(desc);
}
