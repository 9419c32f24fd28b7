// C27: a setting that is accepted is what later SEIs are made with; one that is refused changes nothing. A reference model of the
// setters predicts every SEI. In the stub variant the signatures hold bytes which need emulation prevention.
#include "common.hpp"

#ifdef HARNESS_STUB
#include "zeroplug.hpp"
#endif

namespace {
struct Settings {
  SignedVideoAuthenticityLevel level = SV_AUTHENTICITY_LEVEL_FRAME;
  bool epb = true, pub = true, golden = false;
  std::string pi[5];
  unsigned rec = 1;
  size_t max_sei = 0;
  std::string hash = "sha256";
  const Key *key = nullptr;
};
struct Expect {
  Settings s;
  bool golden = false, recurrent = false, has_ts = false, optional = false;
  int64_t ts = 0;
  uint32_t counter = 0;
  std::vector<Bytes> hashes;
  Bytes linked;
};
std::string random_string(Rng &r)
{
  std::string s;
  int len = r.chance(10) ? r.range(250, 300) : r.range(0, 30);
  for (int i = 0; i < len; i++) s.push_back((char)(r.chance(20) ? r.range(1, 3) : r.range(1, 255)));
  return s;
}
}  // namespace

static void check_sei(Ctx &c, SignedVideoCodec codec, const Expect &e, const Nalu &n)
{
  Sei s = parse_sei(codec, n.data);
  CHECK(s.ok, "malformed", "the SEI is malformed: %s: %s", s.err.c_str(), hexs(n.data, 4000).c_str());
  CHECK(s.golden == e.golden, "golden", "golden flag %d", s.golden);
  CHECK(s.epb == e.s.epb, "epb-flag", "emulation prevention flag %d", s.epb);
  Bytes want = e.s.epb ? add_epb(s.rbsp) : s.rbsp;
  CHECK(s.core == want, "epb", "emulation prevention does not follow the setting: %s", hexs(s.core, 4000).c_str());
#ifdef HARNESS_STUB
  Bytes d = digest(e.s.hash, s.doc);
  bool found = false;
  for (auto &q : g_signed) found |= q.first == d && q.second == s.signature;
  CHECK(found, "signature", "not the signature of this SEI");
#else
  CHECK(verify_sig(e.s.key->pub, digest(e.s.hash, s.doc), s.signature), "signature", "the signature does not verify with the key in force");
#endif
  CHECK(s.has_crypto == e.recurrent && s.has_product == e.recurrent, "recurrent", "recurrent data %s", s.has_crypto ? "present" : "missing");
  CHECK(s.has_pubkey == (e.recurrent && e.s.pub), "pubkey", "public key %s", s.has_pubkey ? "present" : "missing");
  if (s.has_pubkey) CHECK(s.pubkey == e.s.key->pub, "pubkey-content", "not the public key in force");
  if (e.recurrent) {
    CHECK(digest(s.hash_algo, Bytes()) == digest(e.s.hash, Bytes()), "hash-algo", "hash algorithm %s", s.hash_algo.c_str());
    for (int i = 0; i < 5; i++) {
      std::string w = e.s.pi[i].substr(0, 254);
      w.push_back('\0');
      CHECK(s.pi[i] == w, "product", "product info %d: '%s'", i, s.pi[i].c_str());
    }
  }
  if (e.golden) {
    CHECK(!s.has_general && !s.has_hash_list, "golden-content", "golden SEI with GOP information");
    c.ev("golden_checked");
    return;
  }
  Bytes all;
  for (auto &h : e.hashes) all.insert(all.end(), h.begin(), h.end());
  CHECK(s.has_general && s.gop_counter == e.counter, "counter", "GOP counter %u, want %u", s.gop_counter, e.counter);
  CHECK(s.num_nalus == e.hashes.size(), "num-nalus", "%u units, want %zu", s.num_nalus, e.hashes.size());
  CHECK(s.gop_hash == digest(e.s.hash, all), "gop-hash", "GOP hash differs");
  CHECK(s.linked_hash == e.linked, "linked-hash", "linked hash differs");
  CHECK(s.has_ts == e.has_ts && (!e.has_ts || s.ts == e.ts), "timestamp", "timestamp %d %lld", s.has_ts, (long long)s.ts);
  size_t full = s.payload_size + (s.has_hash_list ? 0 : 4 + all.size());
  bool list = e.s.level == SV_AUTHENTICITY_LEVEL_FRAME && (!e.s.max_sei || full <= e.s.max_sei);
  CHECK(s.has_hash_list == list, "hash-list-presence", "hash list %s (payload %zu, with it %zu, limit %zu)", s.has_hash_list ? "present" : "missing", s.payload_size,
      full, e.s.max_sei);
  if (list) CHECK(s.hash_list == all, "hash-list", "hash list differs");
  if (e.s.level == SV_AUTHENTICITY_LEVEL_FRAME && !list) c.ev("limited");
  c.ev("seis_checked");
}

// Refused settings do not affect a validating session.
static void validator_noise(Ctx &c, Rng &r, const SignCfg &cfg, const Stream &s)
{
  const Key &k = key_get(cfg.ec, cfg.key_idx);
  bool user_key = r.chance(50);
  auto run = [&](bool noise) {
    Sv sv(signed_video_create(cfg.codec));
    if (noise && r.chance(60)) {
      Bytes junk = r.bytes((size_t)r.range(1, 300));
      CHECK(signed_video_set_public_key(sv.get(), (const char *)junk.data(), junk.size()) != SV_OK, "junk-key", "an unreadable public key was accepted");
      c.ev("refused");
    }
    if (user_key) {
      CHECK(signed_video_set_public_key(sv.get(), k.pub.data(), k.pub.size()) == SV_OK, "set-public-key", "the public key was refused");
      if (noise) {
        const Key &o = key_get(!cfg.ec, 0);
        CHECK(signed_video_set_public_key(sv.get(), o.pub.data(), o.pub.size()) == SV_NOT_SUPPORTED, "second-key", "a second public key was not refused");
        c.ev("refused");
      }
    }
    ValRun out;
    for (size_t i = 0; i < s.size(); i++) {
      signed_video_authenticity_t *a = nullptr;
      out.rc.push_back(signed_video_add_nalu_and_authenticate(sv.get(), s[i].data.data(), s[i].data.size(), &a));
      if (a) out.reports.push_back(to_report(a, i)), signed_video_authenticity_report_free(a);
      if (noise && r.chance(20)) {
        const Key &o = key_get(!cfg.ec, 0);
        CHECK(signed_video_set_public_key(sv.get(), o.pub.data(), o.pub.size()) == SV_NOT_SUPPORTED, "late-key", "a public key was accepted in an ongoing session");
        c.ev("refused");
      }
    }
    return out;
  };
  ValRun a = run(false), b = run(true);
  CHECK(a.rc == b.rc && a.reports.size() == b.reports.size(), "validator-changed", "a refused public key affects the validation");
  for (size_t i = 0; i < a.reports.size(); i++)
    CHECK(a.reports[i] == b.reports[i], "validator-changed", "a refused public key affects the validation\n%s\n%s", a.reports[i].str().c_str(), b.reports[i].str().c_str());
  c.ev("validations_compared");
}

// A hash algorithm which is accepted should be possible to sign with.
static void rsa_hash(Ctx &c, Rng &r)
{
  SignCfg cfg;
  cfg.ec = false;
  cfg.hash = "sha512";
  cfg.set_hash = true;
  GopShape sh;
  Stream video = random_video(r, cfg.codec, sh);
  Sv sv = make_signer(cfg);
  for (auto &n : video) {
    SignedVideoReturnCode rc = signed_video_add_nalu_for_signing_with_timestamp(sv.get(), n.data.data(), n.data.size(), nullptr);
    CHECK(rc != SV_EXTERNAL_ERROR, "rsa-hash-size", "sha512 was accepted, but nothing can be signed with it and an RSA key");
    CHECK(rc == SV_OK, "add", "add_nalu returned %d", (int)rc);
    size_t size = 0;
    CHECK(signed_video_get_sei(sv.get(), nullptr, &size, nullptr, nullptr, 0, nullptr) == SV_OK, "get", "get_sei failed");
    Bytes b(size);
    if (size) CHECK(signed_video_get_sei(sv.get(), b.data(), &size, nullptr, nullptr, 0, nullptr) == SV_OK, "get", "get_sei failed");
  }
  c.ev("rsa_sha512");
}

PROPERTY(C27)
{
#ifndef HARNESS_STUB
  if (c.case_idx == 0) return rsa_hash(c, r);
#endif
  const SignedVideoCodec codec = r.chance(50) ? SV_CODEC_H264 : SV_CODEC_H265;
  // Streams which can be validated: no other key, and nothing that hides it.
  const bool verifiable = r.chance(50);
  Settings m;
  GopShape sh;
  sh.min_gops = 3;
  sh.max_gops = 10;
  sh.max_frames = 4;
  sh.max_size = 80;
  sh.big = 0;
  Stream video = random_video(r, codec, sh);
#ifdef HARNESS_STUB
  g_rng = &r;
  g_signed.clear();
  g_refuse_setup = false;
  const int live = g_live;
#endif
  Sv sv(signed_video_create(codec));
  CHECK(sv != nullptr, "create", "no session");
  std::string desc = strf("%s %s ", codec == SV_CODEC_H264 ? "h264" : "h265", types_of(video).c_str());
  struct Log {
    Ctx &c;
    std::string &d;
    ~Log() { c.log("%s", d.c_str()); }
  } log{c, desc};
  bool started = false, flag = false, enabled = false, in_gop = false;
  unsigned frames = 0;
  uint32_t counter = 0;
  std::vector<Expect> pending;
  std::vector<Bytes> gop;
  Bytes ihash, linked, last_linked;
  Stream out;
  size_t n_gops = 0, seis = 0;
  SignCfg used;
  auto set_key = [&](bool other) {
    bool ec = used.ec;
    int idx = used.key_idx;
    if (other || !m.key) {
      // With RSA only hashes of 32 bytes can be signed; see rsa_hash().
      ec = r.chance(70) || digest(m.hash, Bytes()).size() != 32;
      idx = r.range(0, key_count(ec) - 1);
    }
    const Key &k = key_get(ec, idx);
    SignedVideoReturnCode rc = r.chance(50) ? signed_video_set_private_key_new(sv.get(), k.pem.data(), k.pem.size())
                                            : signed_video_set_private_key(sv.get(), k.ec ? SIGN_ALGO_ECDSA : SIGN_ALGO_RSA, k.pem.data(), k.pem.size());
    CHECK(rc == SV_OK, "set-key", "a private key was refused: %d", (int)rc);
    m.key = &k;
    used.ec = ec;
    used.key_idx = idx;
    for (auto &e : pending) e.optional = true;
    desc += strf("key(%s%d) ", ec ? "ec" : "rsa", idx);
    c.ev("keys_set");
  };
  auto setter = [&]() {
    switch (r.below(12)) {
      case 0: {
        int l = r.chance(70) ? r.range(0, 1) : r.range(-3, 5);
        SignedVideoReturnCode rc = signed_video_set_authenticity_level(sv.get(), (SignedVideoAuthenticityLevel)l);
        bool ok = l == 0 || l == 1;
        CHECK(rc == (ok ? SV_OK : SV_NOT_SUPPORTED), "rc-level", "level %d: %d", l, (int)rc);
        if (ok) m.level = (SignedVideoAuthenticityLevel)l;
        else c.ev("refused");
        desc += strf("level(%d) ", l);
        break;
      }
      case 1:
      case 2:
        m.epb = r.chance(50);
        CHECK(signed_video_set_sei_epb(sv.get(), m.epb) == SV_OK, "rc-epb", "set_sei_epb failed");
        desc += strf("epb(%d) ", m.epb);
        if (!pending.empty()) c.ev("epb_while_pending");
        break;
      case 3: {
        unsigned rec = r.chance(15) ? 0 : (unsigned)r.range(1, 8);
        SignedVideoReturnCode rc = signed_video_set_recurrence_interval_frames(sv.get(), rec);
        CHECK(rc == (rec ? SV_OK : SV_NOT_SUPPORTED), "rc-recurrence", "recurrence %u: %d", rec, (int)rc);
        if (rec) m.rec = rec;
        else c.ev("refused");
        desc += strf("rec(%u) ", rec);
        break;
      }
      case 4:
        m.max_sei = r.chance(40) ? 0 : (size_t)r.range(1, 1500);
        CHECK(signed_video_set_max_sei_payload_size(sv.get(), m.max_sei) == SV_OK, "rc-max", "set_max_sei_payload_size failed");
        desc += strf("max(%zu) ", m.max_sei);
        break;
      case 5:
      case 6: {
        const char *p[5];
        for (int i = 0; i < 5; i++) {
          m.pi[i] = random_string(r);
          p[i] = m.pi[i].c_str();
          if (r.chance(10)) p[i] = nullptr, m.pi[i].clear();
        }
        CHECK(signed_video_set_product_info(sv.get(), p[0], p[1], p[2], p[3], p[4]) == SV_OK, "rc-product", "set_product_info failed");
        desc += "product ";
        break;
      }
      case 7: {
        bool g = r.chance(50);
        SignedVideoReturnCode rc = signed_video_set_using_golden_sei(sv.get(), g);
        CHECK(rc == (started ? SV_NOT_SUPPORTED : SV_OK), "rc-golden", "set_using_golden_sei %s start: %d", started ? "after" : "before", (int)rc);
        if (!started) m.golden = g;
        else c.ev("refused_started");
        desc += strf("golden(%d) ", g);
        break;
      }
      case 8: {
        static const char *names[] = {"sha256", "sha512", "sha384", "sha3-256", "sha3-512", "sha224", "sha1", "2.16.840.1.101.3.4.2.3", "nonsense", "", "1.2.3.4", "shake256"};
        size_t k = r.below(13);
        while (m.key && !m.key->ec && (k == 1 || k == 2 || (k >= 4 && k < 8))) k = r.below(13);
        const char *name = k == 12 ? nullptr : names[k];
        SignedVideoReturnCode rc = signed_video_set_hash_algo(sv.get(), name);
        if (started) {
          CHECK(rc == SV_NOT_SUPPORTED, "rc-hash", "set_hash_algo after start: %d", (int)rc);
          c.ev("refused_started");
        } else if (k >= 8 && k < 11) {
          CHECK(rc != SV_OK, "rc-hash", "hash algorithm '%s' accepted", name);
          c.ev("refused");
        } else if (k == 11) {
          // An extendable output function. Not part of the model.
          CHECK(signed_video_set_hash_algo(sv.get(), nullptr) == SV_OK, "rc-hash", "no default hash algorithm");
          m.hash = "sha256";
        } else {
          CHECK(rc == SV_OK, "rc-hash", "hash algorithm '%s' refused: %d", name ? name : "NULL", (int)rc);
          m.hash = k == 12 ? "sha256" : k == 7 ? "sha512" : name;
        }
        desc += strf("hash(%s) ", name ? name : "NULL");
        break;
      }
      case 9: {
        if (verifiable) break;
        m.pub = r.chance(50);
        CHECK(signed_video_add_public_key_to_sei(sv.get(), m.pub) == SV_OK, "rc-pub", "add_public_key_to_sei failed");
        desc += strf("pub(%d) ", m.pub);
        break;
      }
      case 10: {
        // Keys that cannot be used.
        const Key &k = key_get(true, 0);
        SignedVideoReturnCode rc = SV_OK;
        switch (r.below(4)) {
          case 0: {
            Bytes junk = r.bytes((size_t)r.range(1, 200));
            rc = signed_video_set_private_key_new(sv.get(), (const char *)junk.data(), junk.size());
            break;
          }
          case 1:
            rc = signed_video_set_private_key_new(sv.get(), k.pem.data(), k.pem.size() / 2);
            break;
          case 2:
            rc = signed_video_set_private_key_new(sv.get(), k.pub.data(), k.pub.size());
            break;
          default:
            rc = signed_video_set_private_key(sv.get(), (sign_algo_t)r.range(2, 5), k.pem.data(), k.pem.size());
            break;
        }
        CHECK(rc != SV_OK, "rc-bad-key", "a private key that cannot be used was accepted");
#ifdef HARNESS_STUB
        if (r.chance(50)) {
          g_refuse_setup = true;
          rc = signed_video_set_private_key_new(sv.get(), k.pem.data(), k.pem.size());
          g_refuse_setup = false;
          CHECK(rc == SV_EXTERNAL_ERROR, "rc-plugin", "the plugin refused the key, yet: %d", (int)rc);
        }
#endif
        desc += "badkey ";
        c.ev("refused");
        break;
      }
      default:
        if (m.key && (verifiable || !started)) break;
        set_key(true);
        break;
    }
  };
  auto pull = [&]() {
    bool lifo = r.chance(30);
    std::vector<Nalu> got;
    for (int guard = 0; guard < 10; guard++) {
      Nalu n;
      if (lifo) {
        signed_video_nalu_to_prepend_t p;
        CHECK(signed_video_get_nalu_to_prepend(sv.get(), &p) == SV_OK, "get", "get_nalu_to_prepend failed");
        if (p.prepend_instruction == SIGNED_VIDEO_PREPEND_NOTHING) break;
        n.data.assign(p.nalu_data, p.nalu_data + p.nalu_data_size);
        signed_video_nalu_data_free(p.nalu_data);
      } else {
        size_t size = 0;
        CHECK(signed_video_get_sei(sv.get(), nullptr, &size, nullptr, nullptr, 0, nullptr) == SV_OK, "get", "get_sei failed");
        if (!size) break;
        n.data.resize(size);
        CHECK(signed_video_get_sei(sv.get(), n.data.data(), &size, nullptr, nullptr, 0, nullptr) == SV_OK, "get", "get_sei failed");
      }
      n.sc = 4;
      n.type = classify(codec, n.data.data(), n.data.size());
      n.uid = -2;
      got.push_back(n);
    }
    size_t k = 0;
    for (auto &n : got) {
      while (k < pending.size() && pending[k].optional && got.size() - (size_t)(&n - got.data()) < pending.size() - k) k++, c.ev("dropped");
      CHECK(k < pending.size(), "extra-sei", "an unexpected SEI");
      check_sei(c, codec, pending[k], n);
      k++;
      seis++;
      out.push_back(n);
    }
    for (; k < pending.size(); k++) {
      CHECK(pending[k].optional, "missing-sei", "a SEI is missing");
      c.ev("dropped");
    }
    if (!got.empty()) flag = false;
    pending.clear();
  };
  auto expect = [&](bool golden) {
    Expect e;
    e.s = m;
    e.golden = golden;
    e.recurrent = golden || (flag && !m.golden);
    pending.push_back(e);
  };
  auto golden_sei = [&]() {
    if (!pending.empty()) return;
    CHECK(signed_video_generate_golden_sei(sv.get()) == SV_OK, "golden-sei", "generate_golden_sei failed");
    started = true;
    flag = true;
    expect(true);
    desc += "G ";
    if (r.chance(50)) setter();
    pull();
  };

  for (int k = r.range(0, 6); k > 0; k--) setter();
  if (!m.key) {
    // Nothing can be signed without a key, and this does not start the session.
    if (r.chance(30)) {
      CHECK(signed_video_add_nalu_for_signing_with_timestamp(sv.get(), video[0].data.data(), video[0].data.size(), nullptr) != SV_OK, "no-key", "signing without a key");
      c.ev("refused");
    }
    set_key(false);
  }
  for (int k = r.range(0, 6); k > 0; k--) setter();
  int noise = r.chance(30) ? 60 : r.range(5, 30);
  linked = Bytes(digest(m.hash, Bytes()).size(), 0);
  for (size_t i = 0; i < video.size(); i++) {
    const Nalu &n = video[i];
    while (r.chance(noise)) setter();
    if (!started && m.golden && (verifiable || r.chance(70))) golden_sei();
    if (!verifiable && r.chance(2)) golden_sei();
    if (!verifiable && n.type == 'I' && r.chance(10)) {
      CHECK(signed_video_reset(sv.get()) == SV_OK, "reset", "reset failed");
      started = enabled = in_gop = false;
      gop.clear();
      last_linked.clear();
      desc += "reset ";
      for (int k = r.range(0, 4); k > 0; k--) setter();
      linked = Bytes(digest(m.hash, Bytes()).size(), 0);
      c.ev("resets");
    }
    int64_t ts = (int64_t)r.next();
    bool has_ts = r.chance(60);
    size_t cut = n.data.size() > 12 && n.type != 'z' && r.chance(20) ? (size_t)r.range(9, (int)n.data.size() - 1) : 0;
    if (cut) {
      CHECK(signed_video_add_nalu_part_for_signing_with_timestamp(sv.get(), n.data.data(), cut, has_ts ? &ts : nullptr, false) == SV_OK, "add", "add_nalu_part failed");
      started = true;
      if (r.chance(30)) setter();
    }
    // The model of the settings in force is that of the last part.
    if (n.type == 'I' || n.type == 'P') {
      if (frames % m.rec == 0) flag = true;
      frames++;
    }
    if (n.type == 'I') {
      if (enabled) {
        expect(false);
        Expect &e = pending.back();
        e.has_ts = has_ts;
        e.ts = ts;
        e.counter = ++counter;
        e.hashes = gop;
        e.linked = last_linked.empty() ? Bytes(digest(m.hash, Bytes()).size(), 0) : last_linked;
        last_linked = ihash;
        n_gops++;
      }
      enabled = true;
      ihash = unit_hash(m.hash, n.core(), nullptr);
      gop.clear();
      gop.push_back(ihash);
      in_gop = true;
    } else if (n.picture() && in_gop) {
      gop.push_back(unit_hash(m.hash, n.core(), &ihash));
    } else if (n.picture()) {
      // Without an I-frame there is no reference; these belong to no GOP that can be validated.
      in_gop = false;
    }
    SignedVideoReturnCode rc = signed_video_add_nalu_part_for_signing_with_timestamp(
        sv.get(), n.data.data() + cut, n.data.size() - cut, has_ts ? &ts : nullptr, true);
    CHECK(rc == SV_OK, "add", "add_nalu returned %d", (int)rc);
    started = true;
    c.ev("units");
    if (r.chance(noise)) setter();
    pull();
    out.push_back(n);
  }
  CHECK(seis > 0 || !verifiable, "no-seis", "no SEIs");
  sv.reset();
#ifdef HARNESS_STUB
  CHECK(g_live == live, "plugin-sessions", "%d plugin sessions not torn down", g_live - live);
#else
  if (verifiable) {
    used.codec = codec;
    ValRun run = validate(c, used, out);
    check_intact(c, n_gops, out, run);
    c.ev("streams_validated");
    if (r.chance(30)) validator_noise(c, r, used, out);
  }
#endif
  c.seen(desc);
  c.sample(desc);
}
