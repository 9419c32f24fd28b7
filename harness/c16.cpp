// C16: with Axis vendor data in the stream the verdict on the public key is decided by the attestation. The trusted root of
// the library is replaced by a root of the test when it is read through libcrypto.
#include "pki.hpp"
extern "C" {
#include "includes/sv_vendor_axis_communications.h"
}

static const int kP256 = 4;  // The first keys are on the curve P-256.
static const int kCurves = 11;  // Some more are only used here.
static const char *kAxis = "Axis Communications AB";

PROPERTY(C16)
{
  Pki &p = pki();
  SignCfg cfg = random_cfg(r);
  cfg.ec = true;
  cfg.key_idx = r.range(0, kP256 - 1);
  cfg.product = true;
  cfg.golden = r.chance(20);
  cfg.pubkey_in_sei = true;
  cfg.pi[3] = kAxis;
  cfg.pi[2] = strf("ACCC8E%06X", (unsigned)r.below(1 << 24));
  if (r.chance(20)) cfg.pi[2] = std::string((size_t)r.range(1, 19), 'x');
  GopShape sh;
  sh.min_gops = 2;
  sh.max_gops = 4;
  sh.max_frames = 3;
  sh.max_size = 80;
  enum { OK, NOT_OK, NOT_FEASIBLE, ANY } want = OK;
  static const char *kinds[] = {"valid", "attestation of another key", "attestation signed by another key", "altered signature", "altered timestamp",
      "other chip id signed", "untrusted root", "missing intermediate", "expired", "no common name", "other common name", "wrong chip id prefix", "wrong chip id size",
      "no serial number", "other serial number", "long serial number", "RSA attestation certificate", "too many certificates", "short attestation",
      "list length", "signature size", "no attestation", "no chain", "neither", "public key not in the stream", "other manufacturer", "altered chain",
      "RSA video key", "key change", "crafted TLV", "few certificates", "leaf is not signed", "attestation changed", "non-hex chip id",
      "video key on another curve", "too many certificates crafted", "serial number varies", "attestation altered once"};
  int kind = r.chance(15) ? 0 : (int)r.below(sizeof(kinds) / sizeof(*kinds));
  std::string k = kinds[kind];
  auto is = [&](const char *s) { return k == s; };
  Bytes chip = {0x04, 0x00, 0x50, 0x01};
  Bytes rest = r.bytes(14);
  chip.insert(chip.end(), rest.begin(), rest.end());
  if (is("wrong chip id prefix")) chip[r.below(4)] ^= (uint8_t)(1 << r.below(8)), want = NOT_OK;
  CertSpec leaf;
  leaf.cn = "Axis Edge Vault Attestation " + hex(chip);
  leaf.serial = cfg.pi[2];
  if (r.chance(8)) leaf.comment = (size_t)r.range(500, 9000), c.ev("large_chain");
  if (is("expired")) leaf.expired = true, want = NOT_OK;
  if (is("no common name")) leaf.has_cn = false, want = NOT_OK;
  if (is("other common name")) leaf.cn = r.chance(50) ? "Axis Edge Vault " + hex(chip) : hex(chip), want = NOT_OK;
  if (is("wrong chip id size")) {
    leaf.cn = "Axis Edge Vault Attestation " + (r.chance(50) ? hex(chip).substr(0, r.below(36)) : hex(chip) + std::string(r.range(1, 2) * 1, 'A'));
    want = NOT_OK;
  }
  if (is("non-hex chip id")) leaf.cn[leaf.cn.size() - 1 - r.below(28)] = 'z', want = ANY;
  if (is("no serial number")) leaf.has_serial = false, want = NOT_OK;
  if (is("other serial number")) {
    leaf.serial = r.chance(50) ? leaf.serial + "1" : "other";
    if (leaf.serial.size() > 19) leaf.serial = "other";
    want = NOT_OK;
  }
  // X.520 allows 64 characters.
  if (is("long serial number")) {
    leaf.serial = std::string((size_t)r.range(20, 64), 'A');
    cfg.pi[2] = r.chance(50) ? leaf.serial : leaf.serial.substr(0, 19);
    want = cfg.pi[2] == leaf.serial ? ANY : NOT_OK;
  }
  EVP_PKEY *att_key = is("RSA attestation certificate") ? p.rsa_key : p.att_key;
  if (is("RSA attestation certificate")) want = NOT_OK;
  if (is("RSA video key")) {
    cfg.ec = false;
    cfg.key_idx = 0;
    cfg.hash = "sha256";
    cfg.set_hash = false;
    want = NOT_OK;
  }
  // Properly attested, but not on the right curve.
  if (is("video key on another curve")) cfg.key_idx = r.range(kP256, kCurves - 1), want = NOT_OK;
  bool evil = is("untrusted root");
  X509 *inter = evil ? p.evil_inter : p.inter;
  X509 *root = evil ? p.evil_root : p.root;
  if (evil) want = NOT_OK;
  EVP_PKEY *leaf_issuer = p.inter_key;
  if (is("leaf is not signed")) leaf_issuer = p.evil_key, want = NOT_OK;
  X509 *lc = make_cert(att_key, leaf, leaf_issuer, inter);
  std::string lp = pem(lc);
  X509_free(lc);
  std::string chain = lp + pem(inter) + pem(root);
  if (r.chance(30) && chain.back() == '\n') chain.pop_back();
  if (is("missing intermediate")) chain = lp + lp + pem(root), want = NOT_OK;
  if (is("too many certificates")) chain = lp + pem(inter) + pem(inter) + pem(root), want = OK;
  if (is("altered chain")) {
    // A character inside of the encoded certificates.
    size_t which = r.below(2);
    size_t b = which ? lp.size() : 0;
    size_t body = b + 28;
    size_t len = (which ? pem(inter).size() : lp.size()) - 28 - 40;
    for (;;) {
      size_t at = body + r.below(len);
      char ch = chain[at];
      if (ch == '\n' || ch == '=' || ch == '-') continue;
      chain[at] = ch == 'A' ? 'B' : 'A';
      break;
    }
    want = NOT_OK;
  }
  Bytes timestamp = r.bytes(12);
  Bytes sig;
  const Key &vk = key_get(cfg.ec, cfg.key_idx);
  const Key &other = key_get(true, (cfg.key_idx + 1) % kP256);
  if (is("attestation of another key") || is("RSA video key")) {
    sig = sign_data(att_key, signed_data(other, chip, timestamp));
    want = NOT_OK;
  } else if (is("attestation signed by another key")) {
    sig = sign_data(p.evil_key, signed_data(vk, chip, timestamp));
    want = NOT_OK;
  } else if (is("other chip id signed")) {
    Bytes c2 = chip;
    c2[4 + r.below(14)] ^= (uint8_t)(1 << r.below(8));
    sig = sign_data(att_key, signed_data(vk, c2, timestamp));
    want = NOT_OK;
  } else {
    sig = sign_data(att_key, signed_data(vk, chip, timestamp));
  }
  if (sig.size() > 230) sig.resize(200);
  Bytes att = attestation(r, timestamp, sig);
  if (is("altered signature")) {
    att[23 + r.below(att.size() - 23)] ^= (uint8_t)(1 << r.below(8));
    want = NOT_OK;
  }
  if (is("altered timestamp")) att[9 + r.below(12)] ^= (uint8_t)(1 << r.below(8)), want = NOT_OK;
  if (is("short attestation")) att.resize(1 + r.below(att.size() - 1)), want = NOT_OK;
  if (is("list length")) att[8] = (uint8_t)(r.chance(50) ? 0 : r.range(2, 255)), want = NOT_OK;
  if (is("signature size")) {
    if (r.chance(50)) att[21 + r.below(2)] ^= (uint8_t)(1 << r.below(8));
    else att.resize(att.size() + 1 + r.below(10));
    want = NOT_OK;
  }
  bool set_att = true, set_chain = true;
  if (is("no attestation")) set_att = false, want = NOT_FEASIBLE;
  if (is("no chain")) set_chain = false, want = NOT_FEASIBLE;
  if (is("neither")) set_att = set_chain = false, want = NOT_FEASIBLE;
  if (is("few certificates")) {
    int n = r.range(0, 2);
    chain = n == 0 ? "no certificate" : n == 1 ? lp : lp + pem(inter);
    want = ANY;
  }
  bool set_key = false;
  if (is("public key not in the stream")) cfg.pubkey_in_sei = false, set_key = true, want = NOT_FEASIBLE;
  if (is("other manufacturer")) {
    cfg.pi[3] = r.chance(50) ? "Axis Communications A" : r.chance(50) ? "Axis Communications AB " : "other";
    want = NOT_FEASIBLE;
  }
  if (cfg.golden && (is("key change") || is("crafted TLV") || is("too many certificates crafted") || is("attestation changed") || is("serial number varies"))) cfg.golden = false;
  Stream video = random_video(r, cfg.codec, sh);
  auto signer = [&](const SignCfg &g, const Bytes &a) {
    Sv sv = make_signer(g);
    int rc = SV_OK;
    if (set_att && set_chain && r.chance(50)) {
      rc = sv_vendor_axis_communications_set_attestation_report(sv.get(), a.data(), (uint8_t)a.size(), chain.c_str());
    } else {
      if (set_att) rc = sv_vendor_axis_communications_set_attestation_report(sv.get(), a.data(), (uint8_t)a.size(), nullptr);
      CHECK(rc == SV_OK, "set-attestation", "set_attestation_report returned %d", rc);
      if (set_chain) rc = sv_vendor_axis_communications_set_attestation_report(sv.get(), nullptr, 0, chain.c_str());
    }
    CHECK(rc == SV_OK, "set-attestation", "set_attestation_report returned %d", rc);
    // What is set cannot be replaced.
    if (r.chance(30)) {
      Bytes junk = r.bytes((size_t)r.range(1, 200));
      bool a2 = set_att && r.chance(70), c2 = set_chain && (!a2 || r.chance(50));
      if (set_att && !set_chain) a2 = true;
      if (set_chain && !set_att && r.chance(50)) a2 = true, c2 = true;
      if (set_att && !set_chain && r.chance(50)) c2 = true;
      if (a2 || c2) {
        rc = sv_vendor_axis_communications_set_attestation_report(sv.get(), a2 ? junk.data() : nullptr, a2 ? (uint8_t)junk.size() : 0, c2 ? "other chain" : nullptr);
        CHECK(rc == SV_NOT_SUPPORTED, "set-again", "setting the attestation report again returned %d", rc);
        c.ev("refused");
      }
    }
    return sv;
  };
  c.log("%s: %s %s", k.c_str(), cfg.str().c_str(), types_of(video).c_str());
  Sv sv = signer(cfg, att);
  SignedStream ss = sign_video_with(c, r, sv.get(), cfg, video);
  Stream s = ss.s;
  size_t from = 0;  // Reports from here on are judged.
  bool intact = true;
  if (is("key change")) {
    SignCfg g = cfg;
    g.key_idx = (cfg.key_idx + 1) % kP256;
    Sv sv2 = signer(g, att);
    SignedStream s2 = sign_video_with(c, r, sv2.get(), g, video);
    from = s.size();
    s.insert(s.end(), s2.s.begin(), s2.s.end());
    intact = false;
    want = NOT_OK;
  }
  if (is("attestation changed")) {
    Sv sv2 = signer(cfg, attestation(r, r.bytes(12), sig));
    SignedStream s2 = sign_video_with(c, r, sv2.get(), cfg, video);
    from = s.size();
    s.insert(s.end(), s2.s.begin(), s2.s.end());
    intact = false;
    want = ANY;
  }
  if (is("crafted TLV")) {
    intact = false;
    want = ANY;
    for (auto &n : s) {
      if (n.type != 'S' || r.chance(30)) continue;
      Sei e = parse_sei(cfg.codec, n.data);
      if (!e.ok) continue;
      for (auto &t : e.tlvs) {
        if (t.tag != T_VENDOR) continue;
        switch (r.below(5)) {
          case 0: t.val.resize(r.below(t.val.size() + 1)); break;
          case 1: t.val = r.bytes(r.below(40)); t.val.empty() ? (void)0 : (void)(t.val[0] = 1); break;
          case 2: if (t.val.size() > 1) t.val[1] = (uint8_t)r.next(); break;
          case 3: { Bytes x = r.bytes(r.below(2000)); t.val.insert(t.val.end(), x.begin(), x.end()); break; }
          default: if (!t.val.empty()) t.val[r.below(t.val.size())] ^= (uint8_t)(1 + r.below(255));
        }
      }
      n.data = build_sei(cfg.codec, e.reserved, e.tlvs, &vk, cfg.hash, cfg.sei_epb);
      n.sc = 4;
    }
  }
  size_t altered = 0;
  if (is("attestation altered once")) {
    intact = false;
    want = ANY;
    std::vector<size_t> seis;
    size_t last = 0;
    for (size_t i = 0; i < s.size(); i++) {
      if (s[i].type != 'S') continue;
      last = i;
      Sei e = parse_sei(cfg.codec, s[i].data);
      if (e.ok && e.find(T_VENDOR)) seis.push_back(i);
    }
    if (!seis.empty() && seis.back() == last) seis.pop_back();
    // What is not covered by the attestation itself can only be recognised as a change.
    if (!seis.empty()) seis.erase(seis.begin());
    if (!seis.empty()) {
      altered = r.pick(seis);
      Nalu &u = s[altered];
      Sei e = parse_sei(cfg.codec, u.data);
      for (auto &t : e.tlvs)
        if (t.tag == T_VENDOR) {
          size_t a = 2 + t.val[1];
          size_t at = r.chance(60) ? 2 + r.below(a - 2) : a + r.below(t.val.size() - a);
          t.val[at] ^= (uint8_t)(1 + r.below(127));
          c.log("byte %zu of %zu, attestation of %zu", at, t.val.size(), a - 2);
        }
      u.data = build_sei(cfg.codec, e.reserved, e.tlvs, &vk, cfg.hash, cfg.sei_epb);
      u.sc = 4;
    }
  }
  std::map<size_t, bool> serial_ok;  // By SEI.
  if (is("serial number varies")) {
    want = ANY;
    bool now = true;
    for (size_t i = 0; i < s.size(); i++) {
      if (s[i].type != 'S') continue;
      Sei e = parse_sei(cfg.codec, s[i].data);
      CHECK(e.ok, "malformed", "malformed SEI: %s", e.err.c_str());
      if (e.has_product && r.chance(50)) {
        now = r.chance(50);
        std::string sn = leaf.serial;
        if (!now) switch (r.below(4)) {
            case 0: sn.pop_back(); break;
            case 1: sn += "0"; break;
            case 2: sn[r.below(sn.size())] ^= 1; break;
            default: sn = "";
          }
        for (auto &t : e.tlvs)
          if (t.tag == T_PRODUCT) {
            Bytes v(1, t.val[0]);
            for (int j = 0; j < 5; j++) {
              std::string x = j == 2 ? std::string(sn.c_str(), sn.size() + 1) : e.pi[j];
              v.push_back((uint8_t)x.size());
              v.insert(v.end(), x.begin(), x.end());
            }
            t.val = v;
          }
        s[i].data = build_sei(cfg.codec, e.reserved, e.tlvs, &vk, cfg.hash, cfg.sei_epb);
        s[i].sc = 4;
      } else if (e.has_product)
        now = true;
      serial_ok[i] = now;
    }
  }
  if (is("too many certificates crafted")) {
    intact = false;
    want = ANY;
    std::string extra = pem(inter);
    for (int i = r.range(0, 3); i > 0; i--) extra += pem(root);
    for (auto &n : s) {
      if (n.type != 'S') continue;
      Sei e = parse_sei(cfg.codec, n.data);
      CHECK(e.ok, "malformed", "malformed SEI: %s", e.err.c_str());
      for (auto &t : e.tlvs)
        if (t.tag == T_VENDOR) t.val.insert(t.val.end(), extra.begin(), extra.end());
      n.data = build_sei(cfg.codec, e.reserved, e.tlvs, &vk, cfg.hash, cfg.sei_epb);
      n.sc = 4;
    }
  }
  ValRun run = validate(c, cfg, s, set_key ? vk.pub.c_str() : nullptr);
  for (auto &q : run.reports) c.log("%s", q.str().c_str());
  c.ev("kind:" + k);
  if (intact && want != ANY) check_intact(c, ss.gop_uids.size(), s, run);
  static const int map[] = {SV_PUBKEY_VALIDATION_OK, SV_PUBKEY_VALIDATION_NOT_OK, SV_PUBKEY_VALIDATION_NOT_FEASIBLE};
  static const char *names[] = {"not feasible", "not OK", "OK"};
  bool judged = false, bad = false;
  for (auto &q : run.reports) {
    CHECK(q.pubkey >= 0 && q.pubkey < 3 && q.acc_pubkey >= 0 && q.acc_pubkey < 3, "range", "unknown public key verdict %d %d", q.pubkey, q.acc_pubkey);
    if (q.pubkey == SV_PUBKEY_VALIDATION_NOT_OK) bad = true;
    CHECK(!bad || q.acc_pubkey == SV_PUBKEY_VALIDATION_NOT_OK, "sticky", "the accumulated public key verdict is %s although it was not OK", names[q.acc_pubkey]);
    if (serial_ok.count(q.after) && q.auth == SV_AUTH_RESULT_OK) {
      int w = serial_ok[q.after] ? SV_PUBKEY_VALIDATION_OK : SV_PUBKEY_VALIDATION_NOT_OK;
      CHECK(q.pubkey == w, "serial-varies", "public key verdict '%s' @%zu, expected '%s' by the serial number", names[q.pubkey], q.after, names[w]);
      c.ev("serial_varies_checked");
    }
    if (q.auth == SV_AUTH_RESULT_NOT_SIGNED || q.after < from || want == ANY) continue;
    // After a change of the key the first report may concern what came before.
    if (is("key change") && !q.key_changed && !q.acc_key_changed) continue;
    CHECK(q.pubkey == map[want], strf("verdict-%s", want == OK ? "valid" : want == NOT_OK ? "invalid" : "absent"), "%s: public key verdict '%s', expected '%s'", k.c_str(), names[q.pubkey], names[map[want]]);
    CHECK(q.acc_pubkey == map[want], "acc-verdict", "%s: accumulated public key verdict '%s', expected '%s'", k.c_str(), names[q.acc_pubkey], names[map[want]]);
    judged = true;
    c.ev("verdicts_checked");
  }
  CHECK(judged || want == ANY, "not-judged", "%s: no report", k.c_str());
  if (altered) {
    const Report &f = run.final_report;
    CHECK(run.rc[altered] != SV_OK || !(f.acc_auth == SV_AUTH_RESULT_OK && f.acc_pubkey == SV_PUBKEY_VALIDATION_OK), "altered", "all is OK although the attestation or chain in SEI %zu was altered", altered);
    c.ev("altered_checked");
  }
  // Whatever is done, never accept if the data is not the valid one.
  if (is("few certificates"))
    for (auto &q : run.reports) CHECK(q.pubkey != SV_PUBKEY_VALIDATION_OK, "accepted", "public key accepted without a chain");
  c.seen(k + cfg.str() + types_of(video));
  c.sample(k + ": " + cfg.str() + " " + types_of(s));
}
