#include "script.hpp"

#include <algorithm>

#include "pki.hpp"

extern "C" {
#include "includes/sv_vendor_axis_communications.h"
}

std::string Script::str() const
{
  return strf("%s %s %s %s", kind == SIGN ? "sign" : kind == VALIDATE ? "validate" : "help", cfg.str().c_str(), what.c_str(), types_of(units).c_str());
}

static std::string fake_chain(Rng &r)
{
  std::string chain;
  int k = r.range(0, 4);
  for (int i = 0; i < k; i++) {
    chain += "-----BEGIN CERTIFICATE-----\n";
    for (auto x : r.bytes((size_t)r.range(0, 300))) chain += strf("%02x", x);
    chain += "\n-----END CERTIFICATE-----\n";
  }
  return chain;
}

Script random_script(Ctx &c, Rng &r, bool small, bool rsa)
{
  Script s;
  s.cfg = random_cfg(r);
  if (rsa && s.cfg.ec) s.cfg.ec = false, s.cfg.key_idx = r.range(0, key_count(false) - 1), s.cfg.hash = "sha256";
  GopShape sh;
  if (small) sh.max_gops = 4, sh.max_frames = 3, sh.max_size = 150, sh.big = 1;
  bool axis = r.chance(15);
  if (axis) {
    s.cfg.product = true;
    s.cfg.pi[3] = "Axis Communications AB";
    if (s.cfg.ec && r.chance(50)) {
      s.cfg.pi[2] = "ACCC8E123456";
      Attested a = make_attested(r, key_get(true, s.cfg.key_idx), r.chance(80) ? s.cfg.pi[2] : "other");
      s.attestation = a.attestation;
      s.chain = a.chain;
      s.what += "attested ";
    } else {
      s.attestation = r.bytes((size_t)r.range(1, 200));
      s.chain = fake_chain(r);
    }
  }
  int k = (int)r.below(100);
  if (k < 40) {
    s.kind = Script::SIGN;
    s.cfg.eos = r.chance(25);
    s.units = random_video(r, s.cfg.codec, sh);
    if (r.chance(20)) s.resets.insert(r.below(s.units.size()));
    s.cuts.resize(s.units.size());
    if (r.chance(40))
      for (size_t i = 0; i < s.units.size(); i++) {
        size_t first = (size_t)s.units[i].sc + 3;
        if (s.units[i].type == 'U' || s.units[i].data.size() <= first) continue;
        std::set<size_t> cuts;
        for (int j = r.range(0, 3); j > 0; j--) cuts.insert(first + r.below(s.units[i].data.size() - first));
        s.cuts[i].assign(cuts.begin(), cuts.end());
      }
  } else if (k < 92) {
    s.kind = Script::VALIDATE;
    int n = r.range(1, 2);
    for (int j = 0; j < n; j++) {
      Stream t;
      if (r.chance(15)) {
        SignedVideoCodec codec;
        for (;;) {
          t = legacy_stream((int)r.below((uint64_t)legacy_count()), codec);
          if (!j || codec == s.cfg.codec) break;
        }
        s.cfg.codec = codec;
        s.what += "legacy ";
      } else {
        SignCfg cfg = s.cfg;
        Stream v = random_video(r, cfg.codec, sh);
        if (r.chance(12)) t = v, s.what += "unsigned ";
        else {
          Sv sv = make_signer(cfg);
          if (axis) sv_vendor_axis_communications_set_attestation_report(sv.get(), s.attestation.data(), (uint8_t)s.attestation.size(), s.chain.c_str());
          t = sign_video_with(c, r, sv.get(), cfg, v).s;
        }
        if (r.chance(30)) t = delay_seis(r, t, 8);
      }
      if (r.chance(60)) s.what += mangle(r, s.cfg.codec, t, r.range(1, 4)) + " ";
      if (r.chance(20)) {
        for (int x = r.range(1, 3); x > 0; x--) t.insert(t.begin() + (long)r.below(t.size()), random_sei(r, s.cfg.codec));
      }
      if (j && r.chance(50)) s.resets.insert(s.units.size());
      s.units.insert(s.units.end(), t.begin(), t.end());
    }
    if (!s.cfg.pubkey_in_sei || r.chance(20)) s.pubkey = key_get(s.cfg.ec, r.chance(90) ? s.cfg.key_idx : 0).pub;
    if (r.chance(20)) s.resets.insert(r.below(s.units.size()));
    for (int x = r.range(0, 3); x > 0; x--) s.extra_reports.insert(r.below(s.units.size()));
  } else {
    s.kind = Script::HELP;
    s.units.resize((size_t)r.range(3, 10));
    for (auto &n : s.units) n = r.chance(50) ? random_sei(r, s.cfg.codec) : make_nalu(r, s.cfg.codec, 'P', 20, 4);
  }
  for (size_t i = 0; i < s.units.size(); i++) s.ts.push_back(1000 * (int64_t)r.range(1, 1 << 30));
  return s;
}

void Player::rc(const char *what, int v)
{
  if (in_) in_->done();
  calls++;
  trace.push_back(strf("%s=%d", what, v));
}

void Player::start()
{
  started_ = true;
  const SignCfg &g = s_.cfg;
  if (s_.kind == Script::HELP) return;
  sv_.reset(signed_video_create(g.codec));
  signed_video_t *sv = sv_.get();
  CHECK(sv || may_fail, "create", "signed_video_create failed");
  if (!sv) {
    trace.push_back("create=-1");
    ended_ = true;
    return;
  }
  if (s_.kind == Script::VALIDATE) {
    if (!s_.pubkey.empty()) rc("set_public_key", signed_video_set_public_key(sv, str(s_.pubkey), s_.pubkey.size()));
    return;
  }
  const Key &k = key_get(g.ec, g.key_idx);
  rc("set_private_key", signed_video_set_private_key_new(sv, str(k.pem), k.pem.size()));
  rc("set_authenticity_level", signed_video_set_authenticity_level(sv, g.level));
  if (g.set_hash) rc("set_hash_algo", signed_video_set_hash_algo(sv, str(g.hash)));
  rc("set_sei_epb", signed_video_set_sei_epb(sv, g.sei_epb));
  if (g.golden) rc("set_using_golden_sei", signed_video_set_using_golden_sei(sv, true));
  if (!g.pubkey_in_sei) rc("add_public_key_to_sei", signed_video_add_public_key_to_sei(sv, false));
  if (g.max_sei) rc("set_max_sei_payload_size", signed_video_set_max_sei_payload_size(sv, g.max_sei));
  if (g.recurrence) rc("set_recurrence", signed_video_set_recurrence_interval_frames(sv, g.recurrence));
  if (g.product) rc("set_product_info", signed_video_set_product_info(sv, str(g.pi[0]), str(g.pi[1]), str(g.pi[2]), str(g.pi[3]), str(g.pi[4])));
  if (!s_.attestation.empty())
    rc("set_attestation", sv_vendor_axis_communications_set_attestation_report(sv, put(s_.attestation.data(), s_.attestation.size()), (uint8_t)s_.attestation.size(), str(s_.chain)));
  if (g.golden) {
    rc("generate_golden_sei", signed_video_generate_golden_sei(sv));
    if (g.api == 2) prepend();
    else if (g.api == 1) pull(nullptr);
  }
}

void Player::got_sei(const uint8_t *d, size_t n)
{
  seis++;
  Sei p = parse_sei(s_.cfg.codec, Bytes(d, d + n));
  if (!p.ok) {
    trace.push_back("sei malformed");
    return;
  }
  std::string t = strf("sei %02x", p.reserved);
  for (auto &x : p.tlvs) t += strf(" %d:", x.tag) + (x.tag == T_SIGNATURE ? "" : hexs(x.val, 1 << 20));
  trace.push_back(t);
}

void Player::pull(const Nalu *peek)
{
  for (int guard = 0; guard < 200; guard++) {
    size_t size = 0, ps = peek ? peek->data.size() : 0;
    unsigned pending = 0;
    int off = -1;
    const uint8_t *pk = peek ? (const uint8_t *)put(peek->data.data(), ps) : nullptr;
    rc("get_sei", signed_video_get_sei(sv_.get(), nullptr, &size, &off, pk, ps, &pending));
    if (!size) break;
    std::unique_ptr<uint8_t[]> b(new uint8_t[size]);
    pk = peek ? (const uint8_t *)put(peek->data.data(), ps) : nullptr;
    rc("get_sei", signed_video_get_sei(sv_.get(), b.get(), &size, &off, pk, ps, &pending));
    got_sei(b.get(), size);
    trace.push_back(strf("pending %u", pending));
  }
}

void Player::prepend()
{
  for (int guard = 0; guard < 200; guard++) {
    signed_video_nalu_to_prepend_t p;
    memset(&p, 0, sizeof p);
    int v = signed_video_get_nalu_to_prepend(sv_.get(), &p);
    rc("get_nalu_to_prepend", v);
    trace.push_back(strf("instruction %d", (int)p.prepend_instruction));
    if (v != SV_OK || p.prepend_instruction == SIGNED_VIDEO_PREPEND_NOTHING) break;
    got_sei(p.nalu_data, p.nalu_data_size);
    signed_video_nalu_data_free(p.nalu_data);
  }
}

void Player::sign_unit(size_t i)
{
  signed_video_t *sv = sv_.get();
  const Nalu &n = s_.units[i];
  if (s_.cfg.api == 0) pull(&n);
  const int64_t *ts = s_.cfg.timestamps ? (const int64_t *)put(&s_.ts[i], 8) : nullptr;
  if (s_.cuts[i].empty()) {
    rc("add_nalu", signed_video_add_nalu_for_signing_with_timestamp(sv, (const uint8_t *)put(n.data.data(), n.data.size()), n.data.size(), ts));
  } else {
    size_t pos = 0;
    for (size_t j = 0; j <= s_.cuts[i].size(); j++) {
      size_t e = j < s_.cuts[i].size() ? s_.cuts[i][j] : n.data.size();
      if (e <= pos) continue;
      ts = s_.cfg.timestamps ? (const int64_t *)put(&s_.ts[i], 8) : nullptr;
      rc("add_part", signed_video_add_nalu_part_for_signing_with_timestamp(sv, (const uint8_t *)put(n.data.data() + pos, e - pos), e - pos, ts, e == n.data.size()));
      pos = e;
    }
  }
  if (s_.cfg.api == 1) pull(nullptr);
  if (s_.cfg.api == 2) prepend();
}

void Player::got_report(const signed_video_authenticity_t *a, size_t i)
{
  reports++;
  Report p = to_report(a, i);
  if (keep_reports) got.push_back(p);
  std::string t = "report " + p.str();
  for (int k = 0; k < 5; k++) t += p.pi_null[k] ? " -" : " " + p.pi[k];
  if (p.acc_has_ts) t += strf(" %lld %lld", (long long)p.first_ts, (long long)p.last_ts);
  trace.push_back(t);
}

void Player::validate_unit(size_t i)
{
  signed_video_authenticity_t *a = nullptr;
  const Nalu &n = s_.units[i];
  rc("add_nalu", signed_video_add_nalu_and_authenticate(sv_.get(), (const uint8_t *)put(n.data.data(), n.data.size()), n.data.size(), &a));
  if (a) got_report(a, i);
  signed_video_authenticity_report_free(a);
  if (s_.extra_reports.count(i)) {
    a = signed_video_get_authenticity_report(sv_.get());
    if (a) got_report(a, i);
    else trace.push_back("get_report=-");
    signed_video_authenticity_report_free(a);
  }
}

void Player::help(size_t i)
{
  const Nalu &n = s_.units[i];
  switch (i % 4) {
    case 0: {
      char *key = nullptr;
      size_t size = 0;
      rc("generate_ecdsa", signed_video_generate_ecdsa_private_key(nullptr, &key, &size));
      trace.push_back(strf("key %d", key && size && !memcmp(key, "-----BEGIN", 10)));
      free(key);
      break;
    }
    case 1: rc("compare_versions", signed_video_compare_versions(str("v1.1." + std::to_string(i)), str("v1.1.4"))); break;
    case 2: trace.push_back(std::string("version ") + signed_video_get_version()); break;
    default: {
      Sv sv(signed_video_create(s_.cfg.codec));
      rc("is_golden_sei", signed_video_is_golden_sei(sv.get(), (const uint8_t *)put(n.data.data(), n.data.size()), n.data.size()));
    }
  }
}

void Player::end()
{
  ended_ = true;
  if (s_.kind == Script::SIGN) {
    if (s_.cfg.eos) {
      if (s_.cfg.api == 0) pull(nullptr);
      rc("set_end_of_stream", signed_video_set_end_of_stream(sv_.get()));
      if (s_.cfg.api == 2) prepend();
    }
    if (s_.cfg.api != 2) pull(nullptr);
  } else if (s_.kind == Script::VALIDATE) {
    signed_video_authenticity_t *a = signed_video_get_authenticity_report(sv_.get());
    if (a) got_report(a, s_.units.size());
    else trace.push_back("get_report=-");
    signed_video_authenticity_report_free(a);
  }
  sv_.reset();
}

bool Player::step()
{
  if (ended_) return false;
  if (!started_) {
    start();
    return true;
  }
  if (at_ >= s_.units.size()) {
    end();
    return false;
  }
  size_t i = at_++;
  if (s_.resets.count(i)) rc("reset", signed_video_reset(sv_.get()));
  if (s_.kind == Script::SIGN) sign_unit(i);
  else if (s_.kind == Script::VALIDATE) validate_unit(i);
  else help(i);
  return true;
}

std::string trace_diff(const std::vector<std::string> &a, const std::vector<std::string> &b)
{
  for (size_t i = 0; i < std::max(a.size(), b.size()); i++) {
    std::string x = i < a.size() ? a[i] : "(end)", y = i < b.size() ? b[i] : "(end)";
    if (x != y) return strf("event %zu:\n%.1500s\n%.1500s", i, x.c_str(), y.c_str());
  }
  return "";
}
