// C05: only the right public key authenticates, and key changes are flagged.
#include <algorithm>

#include "common.hpp"

namespace {
SignCfg other_key(Rng &r, SignCfg cfg)
{
  SignCfg o = cfg;
  for (;;) {
    // With RSA the digest size has to fit.
    bool ec = r.chance(70) || (cfg.hash != "sha256" && cfg.hash != "sha3-256") ? true : r.chance(50);
    o.ec = ec;
    o.key_idx = r.range(0, key_count(ec) - 1);
    if (o.ec != cfg.ec || o.key_idx != cfg.key_idx) return o;
  }
}
}  // namespace

PROPERTY(C05)
{
  SignCfg cfg = random_cfg(r);
  cfg.golden = false;
  cfg.eos = r.chance(20);
  GopShape sh;
  sh.min_gops = 3;
  sh.max_gops = 5;
  sh.max_frames = 4;
  sh.max_size = 100;
  int kind = (int)r.below(5);
  cfg.pubkey_in_sei = r.chance(50);
  if (kind == 2 || kind == 1) cfg.pubkey_in_sei = false;
  if (kind >= 3) cfg.pubkey_in_sei = true;
  Stream video = random_video(r, cfg.codec, sh);
  const Key &key = key_get(cfg.ec, cfg.key_idx);
  static const char *names[] = {"right key", "wrong key", "no key", "other key in the stream", "key change"};
  if (kind < 4) {
    SignedStream ss = sign_video(c, r, cfg, video);
    Stream s = ss.s;
    if (r.chance(30)) s = delay_seis(r, s, r.range(1, 12));
    SignCfg o = other_key(r, cfg);
    const Key &wrong = key_get(o.ec, o.key_idx);
    std::string desc = strf("%s: %s other=%s%d %s", names[kind], cfg.str().c_str(), o.ec ? "ec" : "rsa", o.key_idx, types_of(s).c_str());
    c.log("%s", desc.c_str());
    const char *set = kind == 0 ? key.pub.c_str() : kind == 2 ? nullptr : wrong.pub.c_str();
    ValRun run = validate(c, cfg, s, set);
    for (auto &p : run.reports) c.log("%s", p.str().c_str());
    c.ev(std::string("kind:") + names[kind]);
    if (kind == 0) {
      check_intact(c, ss.gop_uids.size(), s, run);
    } else if (kind == 3) {
      // The key in the stream rules, but it is not the expected one and that has to be told.
      CHECK(run.has_final && run.final_report.acc_key_changed, "change-not-flagged", "the stream has another key than the one set, which was not flagged");
      CHECK(run.final_report.acc_auth == SV_AUTH_RESULT_NOT_OK, "acc-change", "accumulated %s although the stream has another key than the one set", auth_name(run.final_report.acc_auth));
      bool flagged = false;
      for (auto &p : run.reports) {
        if (!flagged && p.auth != SV_AUTH_RESULT_NOT_SIGNED) {
          CHECK(p.key_changed, "first-not-flagged", "the first report of a signed stream does not flag the other key");
          CHECK(p.auth == SV_AUTH_RESULT_NOT_OK, "first-verdict", "first verdict is %s", auth_name(p.auth));
          flagged = true;
        }
      }
    } else {
      // Nothing can be authenticated.
      for (size_t i = 0; i < s.size(); i++)
        CHECK(run.status_hist[i].find('.') == std::string::npos, strf("authentic:%d", kind), "unit %zu (%c) is marked authentic with %s", i, s[i].type, names[kind]);
      for (auto &p : run.reports) {
        CHECK(p.auth <= SV_AUTH_RESULT_NOT_OK, strf("verdict:%d", kind), "verdict %s with %s", auth_name(p.auth), names[kind]);
        CHECK(p.acc_auth <= SV_AUTH_RESULT_NOT_OK, strf("acc:%d", kind), "accumulated %s with %s", auth_name(p.acc_auth), names[kind]);
      }
      size_t seis = 0;
      for (auto &n : s) seis += n.type == 'S';
      if (kind == 1 && seis > 2)
        CHECK(run.has_final && run.final_report.acc_auth == SV_AUTH_RESULT_NOT_OK, "wrong-key-final", "final %s with a wrong key", auth_name(run.final_report.acc_auth));
    }
    c.seen(desc);
    c.sample(desc + " -> " + (run.has_final ? auth_name(run.final_report.acc_auth) : "none"));
    return;
  }
  // Several streams, each signed with its own key, one after the other.
  cfg.eos = false;
  Stream all;
  std::vector<SignCfg> cfgs;
  std::vector<size_t> starts;
  int n = r.range(2, 3);
  bool other_hash = r.chance(20);
  std::string desc = "key change: ";
  for (int k = 0; k < n; k++) {
    SignCfg k_cfg = cfgs.empty() ? cfg : other_key(r, cfgs.back());
    if (other_hash) {
      k_cfg.set_hash = true;
      static const char *h32[] = {"sha256", "sha3-256"}, *all_h[] = {"sha256", "sha512", "sha384", "sha1"};
      k_cfg.hash = k_cfg.ec ? all_h[r.below(4)] : h32[r.below(2)];
    }
    Stream v = cfgs.empty() ? video : random_video(r, cfg.codec, sh);
    SignedStream ss = sign_video(c, r, k_cfg, v);
    Stream s = ss.s;
    if (r.chance(30)) s = delay_seis(r, s, r.range(1, 8));
    starts.push_back(all.size());
    for (auto &u : s) {
      u.gop += 1000 * k;
      all.push_back(u);
    }
    desc += k_cfg.str() + " " + types_of(s) + " | ";
    cfgs.push_back(k_cfg);
  }
  c.log("%s", desc.c_str());
  ValRun run = validate(c, cfg, all, r.chance(40) ? key.pub.c_str() : nullptr);
  for (auto &p : run.reports) c.log("%s", p.str().c_str());
  for (size_t i = 0; i < run.rc.size(); i++)
    if (run.rc[i]) c.log("unit %zu: %d", i, run.rc[i]);
  c.ev("kind:key change");
  bool ok_before = false;
  bool flagged = false;
  size_t changed_at = 0;
  // The first SEI with the second key
  for (size_t i = starts[1]; i < all.size(); i++)
    if (all[i].type == 'S') {
      Sei sei = parse_sei(cfg.codec, all[i].data);
      if (sei.ok && sei.has_pubkey && sei.pubkey == key_get(cfgs[1].ec, cfgs[1].key_idx).pub) {
        changed_at = i;
        break;
      }
    }
  if (!changed_at) return;
  // Is there anything that makes sure the SEI is validated?
  size_t later = 0;
  for (size_t i = changed_at; i < all.size(); i++) later += all[i].type == 'S';
  if (later < 2) return;
  bool bad_after = false;
  for (auto &p : run.reports) {
    if (p.after < changed_at) {
      ok_before |= p.auth == SV_AUTH_RESULT_OK;
      CHECK(!p.key_changed && !p.acc_key_changed, "early-flag", "key change flagged before it happened (@%zu < %zu)", p.after, changed_at);
    } else {
      flagged |= p.key_changed;
      bad_after |= p.auth == SV_AUTH_RESULT_NOT_OK;
      if (p.key_changed) {
        CHECK(p.auth == SV_AUTH_RESULT_NOT_OK, "flagged-ok", "verdict %s with a changed key", auth_name(p.auth));
        CHECK(p.acc_key_changed, "acc-flag", "the key change is not accumulated");
      }
      if (flagged) {
        CHECK(p.acc_key_changed, "acc-flag-lost", "the key change is no longer flagged");
        CHECK(p.acc_auth == SV_AUTH_RESULT_NOT_OK, "acc-verdict", "accumulated %s after a key change", auth_name(p.acc_auth));
      }
    }
  }
  if (!ok_before) return;
  c.ev("key_changes_judged");
  CHECK(run.final_report.acc_key_changed, "change-not-flagged", "the key changed at unit %zu, which is not flagged", changed_at);
  CHECK(bad_after && run.final_report.acc_auth == SV_AUTH_RESULT_NOT_OK, "change-verdict", "accumulated %s after a key change", auth_name(run.final_report.acc_auth));
  c.seen(desc);
  c.sample(desc);
}
