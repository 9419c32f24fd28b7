// C14: after a reset a session behaves as a fresh one.
#include <algorithm>
#include <set>

#include "hostile.hpp"
#include "mangle.hpp"

#define OKRC(expr, what) \
  do { \
    SignedVideoReturnCode rc_ = (expr); \
    CHECK(rc_ == SV_OK, std::string("sign-api:") + what, "%s returned %d", what, (int)rc_); \
  } while (0)

// Removes altered SEIs which may carry another key.
static void keep_key(SignedVideoCodec codec, const Stream &orig, Stream &s, const std::string *pub)
{
  std::set<Bytes> known;
  for (auto &n : orig) known.insert(n.data);
  s.erase(std::remove_if(s.begin(), s.end(),
              [&](const Nalu &n) {
                if (known.count(n.data)) return false;
                Sei p = parse_sei(codec, n.data);
                if (pub && p.has_pubkey && std::string(p.pubkey.begin(), p.pubkey.end()) == *pub) return false;
                static const char t[] = "PUBLIC";
                return n.sv_sei() || std::search(n.data.begin(), n.data.end(), t, t + 6) != n.data.end();
              }),
      s.end());
}

// All signed streams of a case have the same key; with legacy streams it is one and the same stream. A key received before the
// reset is still in use afterwards (when scrubbing, the SEIs ahead may lack it), and another key is reported as changed.
static Stream history(Ctx &c, Rng &r, std::string &what, SignedVideoCodec codec, const SignCfg *same, int legacy, const Stream *recording)
{
  if (recording && r.chance(85)) {
    // Scrubbing in one recording: any part of it, forwards or backwards.
    size_t from = r.below(recording->size() - 4), n = (size_t)r.range(4, (int)(recording->size() - from));
    if (r.chance(70))
      while (from + 4 < recording->size() && (*recording)[from].type != 'I') from++;
    n = std::min(n, recording->size() - from);
    what += strf("units %zu to %zu ", from, from + n);
    c.ev("scrubbed_parts");
    return Stream(recording->begin() + (long)from, recording->begin() + (long)(from + n));
  }
  if (legacy >= 0 && r.chance(80)) {
    SignedVideoCodec lc;
    what += strf("legacy %d ", legacy);
    Stream l = legacy_stream(legacy, lc);
    if (r.chance(30)) {
      Stream o = l;
      what += mangle(r, codec, l, r.range(1, 2));
      keep_key(codec, o, l, nullptr);
    }
    return l;
  }
  SignCfg cfg = random_cfg(r);
  cfg.codec = codec;
  cfg.ec = same->ec;
  cfg.key_idx = same->key_idx;
  if (!cfg.ec) cfg.hash = "sha256";
  GopShape sh;
  sh.max_gops = 4;
  sh.max_size = 80;
  sh.big = 0;
  Stream v = random_video(r, codec, sh);
  if (legacy >= 0 || r.chance(10)) {
    what += "unsigned ";
    return v;
  }
  SignedStream ss = sign_video(c, r, cfg, v);
  Stream s = ss.s;
  what += cfg.hash + (cfg.ec ? "/ec " : "/rsa ");
  if (r.chance(30) && !cfg.golden) s = delay_seis(r, s, r.range(1, 10));
  if (r.chance(40)) {
    Stream o = s;
    what += mangle(r, codec, s, r.range(1, 4));
    keep_key(codec, o, s, &key_get(cfg.ec, cfg.key_idx).pub);
  }
  return s;
}

static void validating(Ctx &c, Rng &r)
{
  SignedVideoCodec codec = r.chance(50) ? SV_CODEC_H264 : SV_CODEC_H265;
  int legacy = -1;
  if (r.chance(25)) {
    legacy = (int)r.below((uint64_t)legacy_count());
    legacy_stream(legacy, codec);
  }
  std::string what;
  Sv a(signed_video_create(codec)), b(signed_video_create(codec));
  CHECK(a && b, "create", "create failed");
  SignCfg same = random_cfg(r);
  if (legacy < 0 && r.chance(20)) {
    const Key &k = key_get(same.ec, same.key_idx);
    OKRC(signed_video_set_public_key(a.get(), k.pub.data(), k.pub.size()), "set_public_key");
    OKRC(signed_video_set_public_key(b.get(), k.pub.data(), k.pub.size()), "set_public_key");
    what += "key set ";
  }
  Stream recording;
  if (legacy < 0 && r.chance(25)) {
    SignCfg cfg = random_cfg(r);
    cfg.codec = codec;
    cfg.ec = same.ec;
    cfg.key_idx = same.key_idx;
    cfg.golden = false;
    if (!cfg.ec) cfg.hash = "sha256";
    GopShape sh;
    sh.min_gops = 6;
    sh.max_gops = 14;
    sh.max_size = 80;
    sh.big = 0;
    recording = sign_video(c, r, cfg, random_video(r, codec, sh)).s;
    if (r.chance(30)) recording = delay_seis(r, recording, r.range(1, 10));
    what += "recording " + cfg.str() + " ";
  }
  const Stream *rec = recording.size() > 10 ? &recording : nullptr;
  int resets = r.range(1, 3);
  for (int i = 0; i < resets; i++) {
    Stream h = history(c, r, what, codec, &same, legacy, rec);
    size_t n = r.chance(50) ? h.size() : r.below(h.size() + 1);
    for (size_t k = 0; k < n; k++) {
      signed_video_authenticity_t *rep = nullptr;
      Bytes d = h[k].data;
      if (r.chance(2)) d.resize(r.below(d.size() + 1));
      if (d.empty()) continue;
      signed_video_add_nalu_and_authenticate(a.get(), d.data(), d.size(), r.chance(80) ? &rep : nullptr);
      if (rep) signed_video_authenticity_report_free(rep);
      c.ev("history_units");
    }
    what += strf("reset at %zu of %s | ", n, types_of(h).c_str());
    OKRC(signed_video_reset(a.get()), "reset");
    if (r.chance(20)) OKRC(signed_video_reset(a.get()), "reset");
  }
  std::string w2;
  Stream s = history(c, r, w2, codec, &same, legacy, rec);
  // Without a key in the first SEI, only the reset session has one.
  bool first_has_key = false;
  std::string first_key;
  for (auto &n : s)
    if (n.sv_sei()) {
      Sei p = parse_sei(codec, n.data);
      first_has_key = p.ok && p.has_pubkey;
      break;
    }
  if (!first_has_key) s.erase(std::remove_if(s.begin(), s.end(), [](const Nalu &n) { return n.sv_sei(); }), s.end());
  c.log("%s then %s %s", what.c_str(), w2.c_str(), types_of(s).c_str());
  for (size_t k = 0; k < s.size(); k++) {
    signed_video_authenticity_t *ra = nullptr, *rb = nullptr;
    Bytes d = s[k].data;
    SignedVideoReturnCode rca = signed_video_add_nalu_and_authenticate(a.get(), d.data(), d.size(), &ra);
    SignedVideoReturnCode rcb = signed_video_add_nalu_and_authenticate(b.get(), d.data(), d.size(), &rb);
    if (!ra && !rb && r.chance(5)) {
      ra = signed_video_get_authenticity_report(a.get());
      rb = signed_video_get_authenticity_report(b.get());
    }
    bool ha = ra, hb = rb;
    Report pa{}, pb{};
    if (ra) pa = to_report(ra, k);
    if (rb) pb = to_report(rb, k);
    signed_video_authenticity_report_free(ra);
    signed_video_authenticity_report_free(rb);
    CHECK(rca == rcb, "reset-return-code", "unit %zu: reset session returned %d, fresh session %d", k, rca, rcb);
    CHECK(ha == hb, "reset-report-presence", "unit %zu: reset session has %s report, fresh session %s", k, ha ? "a" : "no", hb ? "a" : "no");
    if (!ha) continue;
    // Metadata of the previous stream may be shown until there is other.
    if (pb.auth != SV_AUTH_RESULT_OK && pb.auth != SV_AUTH_RESULT_OK_WITH_MISSING_INFO) {
      pa.ver_sign = pb.ver_sign;
      for (int i = 0; i < 5; i++) pa.pi[i] = pb.pi[i], pa.pi_null[i] = pb.pi_null[i];
    }
    if (!(pa == pb)) {
      bool pi = false;
      for (int i = 0; i < 5; i++) pi |= pa.pi[i] != pb.pi[i] || pa.pi_null[i] != pb.pi_null[i];
      const char *key = pi ? "reset-product-info" : pa.ver_sign != pb.ver_sign ? "reset-version" : "reset-report";
      fail(key, "reset: %s pi=%s\nfresh: %s pi=%s", pa.str().c_str(), pa.pi[0].c_str(), pb.str().c_str(), pb.pi[0].c_str());
    }
    c.ev("reports_compared");
    c.ev(std::string("compared:") + auth_name(pa.auth));
  }
  c.seen(what + w2 + types_of(s));
  c.sample("validating: " + what.substr(0, 150) + " then " + w2);
}

static std::vector<Bytes> drain(signed_video_t *sv)
{
  std::vector<Bytes> out;
  for (;;) {
    size_t size = 0;
    OKRC(signed_video_get_sei(sv, nullptr, &size, nullptr, nullptr, 0, nullptr), "get_sei");
    if (!size) return out;
    Bytes b(size);
    OKRC(signed_video_get_sei(sv, b.data(), &size, nullptr, nullptr, 0, nullptr), "get_sei");
    out.push_back(b);
  }
}

static void signing(Ctx &c, Rng &r)
{
  SignCfg cfg = random_cfg(r);
  cfg.recurrence = 0;
  cfg.golden = false;
  std::string what = cfg.str() + " ";
  Sv a = make_signer(cfg);
  GopShape sh;
  sh.max_gops = 3;
  sh.max_size = 80;
  sh.big = 0;
  int resets = r.range(1, 3);
  for (int i = 0; i < resets; i++) {
    Stream v = random_video(r, cfg.codec, sh);
    size_t n = r.below(v.size() + 1);
    for (size_t k = 0; k < n; k++) {
      Bytes d = v[k].data;
      int64_t ts = (int64_t)r.next();
      drain(a.get());
      if (k + 1 == n && d.size() > 12 && r.chance(30)) {
        // The reset comes in the middle of a unit.
        OKRC(signed_video_add_nalu_part_for_signing_with_timestamp(a.get(), d.data(), 10, &ts, false), "add_part");
        what += "in a unit ";
      } else {
        OKRC(signed_video_add_nalu_for_signing_with_timestamp(a.get(), d.data(), d.size(), &ts), "add_nalu");
      }
    }
    if (n && r.chance(20)) signed_video_set_end_of_stream(a.get());
    bool late = r.chance(50);
    if (!late) drain(a.get());
    OKRC(signed_video_reset(a.get()), "reset");
    // SEIs of what was signed before may still be fetched.
    if (late) drain(a.get());
    what += strf("reset at %zu of %s | ", n, types_of(v).c_str());
  }
  if (r.chance(25)) {
    // A new stream may have another hash algorithm.
    static const char *k[] = {"sha256", "sha512", "sha384", "sha3-256", "sha3-512", "sha224"};
    cfg.hash = cfg.ec ? k[r.below(6)] : (r.chance(50) ? "sha256" : "sha3-256");
    cfg.set_hash = true;
    OKRC(signed_video_set_hash_algo(a.get(), cfg.hash.c_str()), "set_hash_algo");
    what += "hash " + cfg.hash + " ";
  }
  SignCfg bc = cfg;
  Sv b = make_signer(bc);
  Stream v = random_video(r, cfg.codec, sh);
  c.log("%s then %s", what.c_str(), types_of(v).c_str());
  Stream out;
  std::vector<Bytes> sa, sb;
  size_t n_gops = 0;
  for (auto &n : v) {
    Bytes d = n.data;
    int64_t ts = (int64_t)(r.next() >> 8);
    const int64_t *tp = cfg.timestamps ? &ts : nullptr;
    SignedVideoReturnCode rca = signed_video_add_nalu_for_signing_with_timestamp(a.get(), d.data(), d.size(), tp);
    SignedVideoReturnCode rcb = signed_video_add_nalu_for_signing_with_timestamp(b.get(), d.data(), d.size(), tp);
    CHECK(rca == SV_OK && rcb == SV_OK, "reset-sign-rc", "adding a unit returned %d after a reset, %d in a fresh session", rca, rcb);
    std::vector<Bytes> ga = drain(a.get()), gb = drain(b.get());
    CHECK(ga.size() == gb.size(), "reset-sei-count", "%zu SEIs after a reset, %zu in a fresh session", ga.size(), gb.size());
    for (size_t i = 0; i < ga.size(); i++) {
      Sei x = parse_sei(cfg.codec, ga[i]), y = parse_sei(cfg.codec, gb[i]);
      CHECK(x.ok && y.ok, "reset-sei-parse", "%s %s", x.err.c_str(), y.err.c_str());
      CHECK(x.reserved == y.reserved && x.num_nalus == y.num_nalus && x.has_ts == y.has_ts && x.ts == y.ts && x.hash_list == y.hash_list &&
              x.gop_hash == y.gop_hash && x.linked_hash == y.linked_hash && x.has_pubkey == y.has_pubkey && x.pubkey == y.pubkey &&
              x.has_product == y.has_product && x.has_crypto == y.has_crypto && x.hash_algo == y.hash_algo && x.tlvs.size() == y.tlvs.size(),
          "reset-sei", "SEI %zu differs: nalus %u/%u ts %d/%d %lld/%lld linked %s/%s gop_hash %s/%s list %zu/%zu key %d/%d", sa.size(), x.num_nalus, y.num_nalus, x.has_ts,
          y.has_ts, (long long)x.ts, (long long)y.ts, hexs(x.linked_hash, 8).c_str(), hexs(y.linked_hash, 8).c_str(), hexs(x.gop_hash, 8).c_str(),
          hexs(y.gop_hash, 8).c_str(), x.hash_list.size(), y.hash_list.size(), x.has_pubkey, y.has_pubkey);
      sa.push_back(ga[i]);
      Nalu s;
      s.type = 'S';
      s.data = ga[i];
      s.sc = 4;
      s.gop = (int)sa.size() - 1;
      out.push_back(s);
      c.ev("seis_compared");
    }
    if (n.type == 'I') n_gops++;
    out.push_back(n);
  }
  ValRun run = validate(c, cfg, out);
  for (auto &p : run.reports) c.log("%s", p.str().c_str());
  check_intact(c, n_gops, out, run);
  c.seen(what + types_of(out));
  c.sample("signing: " + what.substr(0, 200));
}

PROPERTY(C14)
{
  if (r.chance(60)) validating(c, r);
  else signing(c, r);
}
