// C19: streams signed with the legacy format keep their verdicts.
#include "legacy.hpp"

#include <algorithm>

#include "damage.hpp"
#include "hostile.hpp"

namespace {
ValRun run_it(Ctx &c, const LegacyCfg &l, const Stream &s, const char *pub = nullptr)
{
  SignCfg cfg;
  cfg.codec = l.codec;
  ValRun run = validate(c, cfg, s, pub);
  for (auto &p : run.reports) c.log("%s", p.str().c_str());
  c.log("final %s", run.final_report.str().c_str());
  return run;
}

// The recorded streams: the signer of the harness makes the same hashes, and the verdicts are those of the recording.
void recorded(Ctx &c, Rng &r)
{
  SignedVideoCodec codec;
  int idx = (int)r.below((uint64_t)legacy_count());
  Stream s = legacy_stream(idx, codec), video;
  for (auto &n : s)
    if (n.type != 'S') video.push_back(n);
  LegacyCfg l;
  l.codec = codec;
  SignedStream mine = legacy_sign(l, video);
  size_t k = 0;
  for (auto &n : s)
    if (n.type == 'S') {
      Sei a = parse_sei(codec, n.data), b = parse_sei(codec, mine.seis[k++].data);
      if (a.find(T_HASHLIST)) {
        if (a.find(T_HASHLIST)->val != b.find(T_HASHLIST)->val) {
          fprintf(stderr, "HARNESS: the legacy signer differs from the recording\n");
          _Exit(3);
        }
        c.ev("recorded_lists_equal");
      }
    }
  c.log("recorded %d %s", idx, types_of(s).c_str());
  if (r.chance(50)) {
    bool sc = r.chance(60), zeros = r.chance(60);
    for (auto &n : s) reform(r, n, sc, zeros);
  }
  ValRun run = run_it(c, l, s);
  const Report &f = run.final_report;
  CHECK(f.acc_auth == SV_AUTH_RESULT_OK && f.acc_received == 15 && f.acc_validated == 13 && f.acc_pending == 2, "recorded", "recorded stream %d: %s %u %u %u", idx, auth_name(f.acc_auth), f.acc_received,
      f.acc_validated, f.acc_pending);
  CHECK(run.reports.size() == 4, "recorded-reports", "%zu reports", run.reports.size());
  for (auto &p : run.reports) CHECK(p.auth == SV_AUTH_RESULT_OK, "recorded-report", "%s", auth_name(p.auth));
  c.ev("recorded_ok");
  c.seen(strf("recorded %d", idx));
}
}  // namespace

PROPERTY(C19)
{
  if (r.chance(3)) return recorded(c, r);
  LegacyCfg l = random_legacy_cfg(r);
  GopShape sh;
  sh.min_gops = 4;
  sh.max_gops = 7;
  Stream video = random_video(r, l.codec, sh);
  SignedStream ss = legacy_sign(l, video);
  Stream s = ss.s;
  int last_gop = (int)ss.gop_uids.size() - 1;
  int delay = 0;
  if (r.chance(25)) s = delay_seis(r, s, delay = r.range(1, 10));
  c.log("%s delay=%d %s", l.str().c_str(), delay, types_of(s).c_str());
  enum { INTACT, TAMPER, LOSE, FORGE, KEYSET, KEYCHANGE, EXPORT, RESET, N };
  static const char *names[] = {"intact", "tamper", "lose", "forge", "key set", "key change", "export", "reset"};
  static const int weight[] = {15, 25, 20, 15, 5, 5, 10, 5};
  int kind = 0;
  for (int w = (int)r.below(100); w >= weight[kind]; kind++) w -= weight[kind];
  c.ev(std::string("kind:") + names[kind]);
  std::string what = names[kind];
  if (kind != TAMPER && kind != FORGE && kind != KEYCHANGE && r.chance(30)) {
    bool sc = r.chance(60), zeros = r.chance(60);
    for (auto &n : s) reform(r, n, sc, zeros);
    c.ev("other_forms");
    what += strf(" sc=%d zeros=%d", sc, zeros);
  }
  auto ok_before = [](const ValRun &run, size_t at) {
    for (auto &p : run.reports)
      if (p.auth == SV_AUTH_RESULT_OK && p.after < at) return true;
    return false;
  };
  switch (kind) {
    case INTACT: {
      ValRun run = run_it(c, l, s);
      check_intact(c, (size_t)last_gop, s, run);
      for (auto &p : run.reports) {
        if (p.auth != SV_AUTH_RESULT_OK) continue;
        CHECK(p.ver_sign == "v1.1.20", "version", "version %s", p.ver_sign.c_str());
        for (int k = 0; k < 5; k++) CHECK(!l.product || p.pi[k] == l.pi[k], "product", "'%s' instead of '%s'", p.pi[k].c_str(), l.pi[k].c_str());
        CHECK(p.has_ts == l.timestamps, "timestamp", "has timestamp %d", p.has_ts);
        if (p.has_ts) {
          bool one = false;
          for (auto &n : ss.seis) one |= parse_sei(l.codec, n.data).ts == p.ts;
          CHECK(one, "timestamp-value", "timestamp %lld was never signed", (long long)p.ts);
        }
      }
      break;
    }
    case TAMPER: {
      Tamper t = tamper(r, l.codec, s);
      if (!t.done) return;
      what += std::string(" ") + t.name + " " + t.what;
      c.log("%s: %s in GOP %d..%d of %d\n%s", t.name, t.what.c_str(), t.g, t.g_hi, last_gop, types_of(s).c_str());
      ValRun run = run_it(c, l, s);
      for (size_t i = 0; i < s.size(); i++)
        if (s[i].uid == -1)
          CHECK(run.status_hist[i].find('.') == std::string::npos, strf("foreign-authentic:%s", t.name), "unit %zu (%c) which was never signed got '%s' (%s)", i, s[i].type,
              run.status_hist[i].c_str(), t.what.c_str());
      if (ok_before(run, t.at) && t.g_hi <= last_gop - 2) {
        c.ev("judged:tamper");
        CHECK(run.final_report.acc_auth != SV_AUTH_RESULT_OK, strf("tampered-ok:%s", t.name), "tampered session is accumulated as OK (%s)", t.what.c_str());
        c.ev(strf("tamper-acc:%s", auth_name(run.final_report.acc_auth)));
      }
      break;
    }
    case LOSE: {
      Loss o = lose(r, s, last_gop);
      if (!o.n_pic && !o.n_sei) return;
      what += std::string(" ") + o.name + " " + types_of(o.left);
      c.log("%s: lost %d picture units and %d SEIs (GOPs up to %d of %d), left %s", o.name, o.n_pic, o.n_sei, o.g_hi, last_gop, types_of(o.left).c_str());
      ValRun run = run_it(c, l, o.left);
      int later = 0;
      for (size_t i = o.last + 1; i < s.size(); i++) later += s[i].type == 'S' && s[i].gop > o.g_hi && !o.drop[i];
      if (ok_before(run, o.first_in_left) && later >= 2) {
        c.ev("judged:lose");
        CHECK(run.final_report.acc_auth != SV_AUTH_RESULT_OK, strf("lossy-ok:%s", o.name), "a session with %d picture units and %d SEIs lost is accumulated as OK", o.n_pic, o.n_sei);
        c.ev(strf("lose-acc:%s", auth_name(run.final_report.acc_auth)));
      }
      break;
    }
    case FORGE: {
      std::vector<size_t> seis;
      for (size_t i = 0; i < s.size(); i++)
        if (s[i].type == 'S') seis.push_back(i);
      size_t at = r.pick(seis);
      Sei sei = parse_sei(l.codec, s[at].data);
      Bytes core = sei.core;
      if (r.chance(70)) {
        size_t i = r.below(sei.doc_len_in_core);
        core[i] ^= (uint8_t)(1 << r.below(8));
        what += strf(" doc byte %zu/%zu", i, sei.doc_len_in_core);
        set_core(s[at], core);
      } else {
        std::vector<Tlv> t = sei.tlvs;
        size_t i = r.below(sei.signature.size());
        t.back().val[5 + i] ^= (uint8_t)(1 << r.below(8));
        s[at].data = build_sei(l.codec, sei.reserved, t, nullptr, "", true);
        what += strf(" signature byte %zu", i);
      }
      int g = s[at].gop;
      s[at].type = classify(l.codec, s[at].data.data(), s[at].data.size());
      c.log("SEI %zu of GOP %d: %s", at, g, what.c_str());
      ValRun run = run_it(c, l, s);
      size_t first = s.size();
      for (size_t i = 0; i < s.size(); i++)
        if (s[i].picture() && s[i].gop == g) {
          first = std::min(first, i);
          CHECK(run.status_hist[i].find('.') == std::string::npos, "forged-authentic", "unit %zu (%c) of GOP %d, whose SEI was forged (%s), got '%s'", i, s[i].type, g, what.c_str(),
              run.status_hist[i].c_str());
        }
      int later = 0;
      for (size_t i = at + 1; i < s.size(); i++) later += s[i].type == 'S' && s[i].gop > g;
      if (ok_before(run, std::min(first, at)) && later >= 2) {
        c.ev("judged:forge");
        CHECK(run.final_report.acc_auth != SV_AUTH_RESULT_OK, "forged-ok", "session with a forged SEI (%s) is accumulated as OK", what.c_str());
        c.ev(strf("forge-acc:%s", auth_name(run.final_report.acc_auth)));
      }
      break;
    }
    case KEYSET: {
      // A public key set by the user is the one to trust.
      int other = (l.key_idx + 1) % key_count(l.ec);
      bool right = r.chance(50);
      what += right ? " right" : " wrong";
      ValRun run = run_it(c, l, s, key_get(l.ec, right ? l.key_idx : other).pub.c_str());
      if (right) check_intact(c, (size_t)last_gop, s, run);
      else CHECK(run.final_report.acc_auth != SV_AUTH_RESULT_OK, "wrong-key-ok", "OK although another key was set");
      break;
    }
    case KEYCHANGE: {
      // From some GOP on the stream is signed with another key.
      LegacyCfg l2 = l;
      l2.key_idx = (l.key_idx + 1) % key_count(l.ec);
      SignedStream s2 = legacy_sign(l2, video);
      size_t from = 2 + r.below(ss.seis.size() - 2), k = 0;
      Stream t;
      for (auto &n : ss.s)
        if (n.type == 'S') {
          t.push_back(k >= from ? s2.seis[k] : n);
          k++;
        } else t.push_back(n);
      what += strf(" from SEI %zu", from);
      c.log("%s", what.c_str());
      ValRun run = run_it(c, l, t);
      if (l.recurrence == 1) {
        CHECK(run.final_report.acc_auth == SV_AUTH_RESULT_NOT_OK, "key-change-ok", "key change accumulated as %s", auth_name(run.final_report.acc_auth));
        CHECK(run.final_report.acc_key_changed, "key-change-flag", "a key change is not flagged");
        c.ev("key_changes");
      }
      break;
    }
    case EXPORT: {
      // The stream from some GOP on. The legacy format needs the access unit of the I-frame, with its SEI, to begin with.
      if (delay) return;
      int g = r.range(1, last_gop - 2);
      Stream t;
      size_t from = 0;
      while (!(s[from].type == 'I' && s[from].gop == g)) from++;
      from--;
      t.assign(s.begin() + (long)from, s.end());
      if (l.recurrence > 1) return;
      what += strf(" from GOP %d", g);
      c.log("%s %s", what.c_str(), types_of(t).c_str());
      ValRun run = run_it(c, l, t);
      bool ok = false;
      for (auto &p : run.reports) {
        if (p.auth == SV_AUTH_RESULT_OK) ok = true;
        else CHECK(!ok && (p.auth == SV_AUTH_RESULT_SIGNATURE_PRESENT || p.auth == SV_AUTH_RESULT_NOT_SIGNED), "export", "%s in an exported part of an intact stream", auth_name(p.auth));
      }
      CHECK(ok && run.final_report.acc_auth == SV_AUTH_RESULT_OK, "export-acc", "an exported part of an intact stream is accumulated as %s", auth_name(run.final_report.acc_auth));
      c.ev("exports_ok");
      break;
    }
    default: {
      Sv sv(signed_video_create(l.codec));
      size_t cut = r.below(s.size());
      Stream head(s.begin(), s.begin() + (long)cut);
      validate_with(c, sv.get(), l.codec, head);
      CHECK(signed_video_reset(sv.get()) == SV_OK, "reset", "reset failed");
      what += strf(" after %zu", cut);
      c.log("%s", what.c_str());
      ValRun run = validate_with(c, sv.get(), l.codec, s);
      signed_video_authenticity_t *a = signed_video_get_authenticity_report(sv.get());
      CHECK(a, "no-report", "no report after the stream");
      run.has_final = true;
      run.final_report = to_report(a, s.size() - 1);
      signed_video_authenticity_report_free(a);
      map_statuses(s, run);
      for (auto &p : run.reports) c.log("%s", p.str().c_str());
      check_intact(c, (size_t)last_gop, s, run);
    }
  }
  c.seen(l.str() + types_of(s) + what);
  c.sample(l.str() + " " + types_of(s) + " " + what);
}
