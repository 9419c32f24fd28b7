// C10: any sequence of API calls is safe, free of leaks and leaves a usable session.
#include <openssl/evp.h>
#include <openssl/pem.h>

#include <algorithm>

#include "hostile.hpp"
#include "mangle.hpp"
#ifdef HARNESS_THREADED
#include "threads.hpp"
#endif
extern "C" {
#include "includes/sv_vendor_axis_communications.h"
}

namespace {
bool documented(int rc)
{
  static const std::set<int> ok = {SV_OK, SV_MEMORY, SV_INVALID_PARAMETER, SV_NOT_SUPPORTED, SV_INCOMPATIBLE_VERSION, SV_EXTERNAL_ERROR, SV_VENDOR_ERROR,
      SV_AUTHENTICATION_ERROR, SV_UNKNOWN_FAILURE};
  return ok.count(rc) > 0;
}

std::string pem_of(EVP_PKEY *k, bool pub)
{
  BIO *b = BIO_new(BIO_s_mem());
  if (pub) PEM_write_bio_PUBKEY(b, k);
  else PEM_write_bio_PrivateKey(b, k, nullptr, nullptr, 0, nullptr, nullptr);
  char *p = nullptr;
  long n = BIO_get_mem_data(b, &p);
  std::string s(p, (size_t)n);
  BIO_free(b);
  EVP_PKEY_free(k);
  return s;
}

// Keys of kinds which the library does not generate.
const std::vector<std::string> &odd_keys(bool pub)
{
  static std::vector<std::string> v[2];
  if (v[0].empty())
    for (int i = 0; i < 2; i++) {
      auto &l = v[i];
      l.push_back(pem_of(EVP_PKEY_Q_keygen(nullptr, nullptr, "ED25519"), i));
      l.push_back(pem_of(EVP_PKEY_Q_keygen(nullptr, nullptr, "X25519"), i));
      l.push_back(pem_of(EVP_EC_gen("P-384"), i));
      l.push_back(pem_of(EVP_EC_gen("P-521"), i));
      l.push_back(pem_of(EVP_RSA_gen(1024), i));
    }
  return v[pub];
}

struct Obj {
  Sv sv;
  SignedVideoCodec codec;
  int calls = 0;
  bool foreign_key = false;  // The session may have been given another key to validate with.
  bool vendor = false;
};

struct World {
  Ctx &c;
  Rng &r;
  SignCfg cfg;  // Of the streams to validate
  Stream signed_units, video;
  std::vector<Sei> seis;
  std::string trace;
  std::vector<signed_video_authenticity_t *> kept;
  size_t pos = 0, vpos = 0;
  bool hostile = false;
  World(Ctx &c_, Rng &r_) : c(c_), r(r_) {}
  ~World()
  {
    for (auto *a : kept) signed_video_authenticity_report_free(a);
  }

  void rc(const char *fn, int v)
  {
    trace += strf("%s=%d ", fn, v);
    c.ev(strf("%s:%s", fn, v == SV_OK ? "ok" : "refused"));
    c.ev("calls");
    CHECK(documented(v), "return-code", "%s returned %d", fn, v);
  }

  // A unit to validate or to sign.
  Nalu unit(bool sign)
  {
    if (r.chance(6)) return garbage_nalu(r, cfg.codec);
    if ((sign || hostile) && r.chance(4)) return random_sei(r, cfg.codec);
    if (hostile && r.chance(10) && !seis.empty()) {
      std::string d;
      return hostile_sei(r, cfg.codec, r.pick(seis), r.chance(50) ? &key_get(cfg.ec, cfg.key_idx) : nullptr, cfg.hash, d);
    }
    const Stream &s = sign ? video : signed_units;
    size_t &p = sign ? vpos : pos;
    if (r.chance(3)) p = r.below(s.size());
    return s[p++ % s.size()];
  }

  std::string str()
  {
    std::string s;
    int n = r.chance(10) ? r.range(250, 260) : r.chance(5) ? r.range(500, 3000) : r.range(0, 30);
    for (int i = 0; i < n; i++) s += (char)r.range(1, 255);
    return s;
  }

  std::string key(bool pub)
  {
    int k = r.range(0, 9);
    const Key &good = key_get(r.chance(50), 0);
    std::string p = pub ? good.pub : good.pem;
    if (k == 0) return pub ? good.pem : good.pub;
    if (k == 1) return p.substr(0, r.below(p.size()));
    if (k == 2) {
      p[r.below(p.size())] ^= (char)r.range(1, 255);
      return p;
    }
    if (k == 3) {
      Bytes b = r.bytes((size_t)r.range(1, 300));
      return std::string(b.begin(), b.end());
    }
    if (k == 4) return r.pick(odd_keys(pub));
    if (k == 5) return p + p;
    return p;
  }

  void sign_call(Obj &o)
  {
    signed_video_t *sv = r.chance(2) ? nullptr : o.sv.get();
    Nalu n = unit(true);
    Bytes d = n.data;
    int64_t ts = (int64_t)r.next();
    bool null = r.chance(2), empty = r.chance(2), last = r.chance(80);
    if (r.chance(30)) {
      size_t cut = d.empty() ? 0 : r.below(d.size());
      if (r.chance(50)) d.resize(cut);
      else d.erase(d.begin(), d.begin() + (long)cut);
    } else {
      last = r.chance(95);
    }
    const uint8_t *p = null ? nullptr : d.data();
    size_t size = empty ? 0 : d.size();
    int v;
    if (last && r.chance(70)) {
      if (r.chance(30)) v = signed_video_add_nalu_for_signing(sv, p, size);
      else v = signed_video_add_nalu_for_signing_with_timestamp(sv, p, size, r.chance(50) ? &ts : nullptr);
    } else {
      v = signed_video_add_nalu_part_for_signing_with_timestamp(sv, p, size, r.chance(50) ? &ts : nullptr, last);
    }
    rc("add", v);
    if (!sv || !p || size == 0) CHECK(v == SV_INVALID_PARAMETER, "invalid-accepted", "adding nothing to sign returned %d", v);
  }

  void get_call(Obj &o)
  {
    signed_video_t *sv = r.chance(2) ? nullptr : o.sv.get();
    if (r.chance(50)) {
      size_t size = 12345;
      unsigned pending = 0;
      int off = 0;
      Nalu n = unit(true);
      const uint8_t *peek = r.chance(50) ? n.data.data() : nullptr;
      size_t ps = r.chance(90) ? n.data.size() : 0;
      if (r.chance(2)) {
        int v = signed_video_get_sei(sv, nullptr, nullptr, nullptr, nullptr, 0, nullptr);
        CHECK(v == SV_INVALID_PARAMETER, "invalid-accepted", "get_sei without size returned %d", v);
        return;
      }
      int v = signed_video_get_sei(sv, nullptr, &size, r.chance(50) ? &off : nullptr, peek, ps, r.chance(50) ? &pending : nullptr);
      rc("get_sei", v);
      if (!sv) CHECK(v == SV_INVALID_PARAMETER, "invalid-accepted", "get_sei without session returned %d", v);
      if (v != SV_OK || !sv || size == 0) return;
      Bytes b(size);
      if (r.chance(15)) return;  // Only asked for the size.
      v = signed_video_get_sei(sv, b.data(), &size, r.chance(50) ? &off : nullptr, peek, ps, r.chance(50) ? &pending : nullptr);
      rc("get_sei", v);
      CHECK(v == SV_OK && size == b.size(), "sei-size", "the SEI changed size from %zu to %zu", b.size(), size);
      o.calls++;
    } else {
      signed_video_nalu_to_prepend_t p;
      if (r.chance(2)) {
        int v = signed_video_get_nalu_to_prepend(sv, nullptr);
        CHECK(v == SV_INVALID_PARAMETER, "invalid-accepted", "get_nalu_to_prepend without object returned %d", v);
        return;
      }
      int v = signed_video_get_nalu_to_prepend(sv, &p);
      rc("prepend", v);
      if (!sv) CHECK(v == SV_INVALID_PARAMETER, "invalid-accepted", "get_nalu_to_prepend without session returned %d", v);
      else signed_video_nalu_data_free(p.nalu_data);
    }
  }

  void set_call(Obj &o)
  {
    signed_video_t *sv = r.chance(3) ? nullptr : o.sv.get();
    int v = 0;
    const char *what = "";
    switch (r.range(0, 12)) {
      case 0: {
        std::string k = r.chance(60) ? key_get(cfg.ec, cfg.key_idx).pem : key(false);
        bool nokey = r.chance(3);
        if (r.chance(70)) v = signed_video_set_private_key_new(sv, nokey ? nullptr : k.data(), k.size());
        else v = signed_video_set_private_key(sv, (sign_algo_t)r.range(-1, 2), nokey ? nullptr : k.data(), k.size());
        what = "set_private_key";
        if (sv) o.foreign_key = true;
        if (nokey || k.empty()) CHECK(v != SV_OK, "invalid-accepted", "no key was accepted");
        break;
      }
      case 1:
        v = signed_video_set_authenticity_level(sv, (SignedVideoAuthenticityLevel)r.range(-1, 3));
        what = "set_level";
        break;
      case 2: v = signed_video_set_recurrence_interval_frames(sv, r.chance(20) ? (unsigned)r.next() : (unsigned)r.range(0, 10)), what = "set_recurrence"; break;
      case 3: v = signed_video_set_sei_epb(sv, r.chance(50)), what = "set_epb"; break;
      case 4: v = signed_video_set_using_golden_sei(sv, r.chance(50)), what = "set_golden"; break;
      case 5: v = signed_video_set_max_sei_payload_size(sv, r.chance(30) ? 0 : r.chance(50) ? (size_t)r.range(1, 2000) : (size_t)r.next()), what = "set_max_sei"; break;
      case 6: {
        static const char *names[] = {"sha256", "sha512", "sha1", "md5", "sha3-512", "sha384", "SHA256", "2.16.840.1.101.3.4.2.3", "1.2.3.4", "rsaEncryption", "nonsense", "",
            "1.2.840.113549.1.1.11", "shake256", "blake2b512", "sm3", "1", "a.b.c", "2.5.4.3"};
        v = signed_video_set_hash_algo(sv, r.chance(5) ? nullptr : names[r.below(sizeof names / sizeof *names)]);
        what = "set_hash";
        break;
      }
      case 7: v = signed_video_add_public_key_to_sei(sv, r.chance(50)), what = "set_pubkey_in_sei"; break;
      case 8: {
        std::string s[5];
        const char *p[5];
        for (int i = 0; i < 5; i++) s[i] = str(), p[i] = r.chance(10) ? nullptr : s[i].c_str();
        v = signed_video_set_product_info(sv, p[0], p[1], p[2], p[3], p[4]);
        what = "set_product";
        break;
      }
      case 9: v = signed_video_generate_golden_sei(sv), what = "golden"; break;
      case 10: v = signed_video_set_end_of_stream(sv), what = "eos"; break;
      case 11: {
        std::string k = r.chance(40) ? key_get(cfg.ec, cfg.key_idx).pub : key(true);
        bool nokey = r.chance(3);
        v = signed_video_set_public_key(sv, nokey ? nullptr : k.data(), nokey && r.chance(50) ? 0 : k.size());
        what = "set_public_key";
        if (sv && k != key_get(cfg.ec, cfg.key_idx).pub) o.foreign_key = true;
        break;
      }
      default: {
        Bytes a = r.bytes((size_t)r.range(0, 255));
        std::string chain;
        int kind = r.range(0, 4);
        if (kind == 1) chain = "nonsense";
        for (int i = 0; kind > 1 && i < kind + (r.chance(20) ? 5 : 0); i++) {
          chain += "-----BEGIN CERTIFICATE-----\n";
          Bytes b = r.bytes((size_t)r.range(0, 600));
          for (auto x : b) chain += strf("%02x", x);
          chain += "\n-----END CERTIFICATE-----\n";
        }
        v = sv_vendor_axis_communications_set_attestation_report(
            sv, r.chance(10) ? nullptr : a.data(), (uint8_t)a.size(), r.chance(10) ? nullptr : chain.c_str());
        what = "set_attestation";
        o.vendor = true;
      }
    }
    rc(what, v);
    if (!sv) CHECK(v != SV_OK, "invalid-accepted", "%s without session was accepted", what);
  }

  void auth_call(Obj &o)
  {
    signed_video_t *sv = r.chance(2) ? nullptr : o.sv.get();
    if (r.chance(8)) {
      signed_video_authenticity_t *a = signed_video_get_authenticity_report(sv);
      c.ev(a ? "report_fetched" : "no_report");
      if (!sv) CHECK(!a, "invalid-accepted", "report without session");
      if (!a) return;
      if (r.chance(30)) kept.push_back(a);
      else signed_video_authenticity_report_free(a);
      return;
    }
    Nalu n = unit(false);
    bool null = r.chance(2), empty = r.chance(2), with = r.chance(80);
    signed_video_authenticity_t *a = nullptr;
    size_t size = empty ? 0 : n.data.size();
    int v = signed_video_add_nalu_and_authenticate(sv, null ? nullptr : n.data.data(), size, with ? &a : nullptr);
    rc("authenticate", v);
    if (!sv || null || size == 0) CHECK(v == SV_INVALID_PARAMETER, "invalid-accepted", "validating nothing returned %d", v);
    if (a) {
      c.ev("reports");
      if (r.chance(20)) kept.push_back(a);
      else signed_video_authenticity_report_free(a);
    }
  }

  void misc_call(Obj &o)
  {
    signed_video_t *sv = r.chance(3) ? nullptr : o.sv.get();
    switch (r.range(0, 6)) {
      case 0: {
        int v = signed_video_reset(sv);
        rc("reset", v);
        CHECK((v == SV_OK) == (sv != nullptr), "reset", "reset returned %d", v);
        break;
      }
      case 1: {
        Nalu n = unit(r.chance(50));
        signed_video_is_golden_sei(sv, r.chance(5) ? nullptr : n.data.data(), r.chance(5) ? 0 : n.data.size());
        c.ev("calls");
        break;
      }
      case 2: {
        Nalu n = unit(false);
        signed_video_parse_sei(n.data.data(), n.data.size(), (SignedVideoCodec)r.range(-1, 2));
        c.ev("calls");
        break;
      }
      case 3: signed_video_authenticity_report_free(nullptr), signed_video_nalu_data_free(nullptr), signed_video_free(nullptr); break;
      case 4: CHECK(!signed_video_create((SignedVideoCodec)(r.chance(50) ? -1 : 2)), "invalid-accepted", "a session of an unknown codec was created"); break;
      case 5:
        if (!kept.empty()) {
          // A report belongs to the user, also when the session has gone on or is gone.
          Report rep = to_report(kept.back(), 0);
          c.ev("kept_reports_read");
          c.ev("kept_bytes", rep.vstr.size() + rep.nstr.size());
          signed_video_authenticity_report_free(kept.back());
          kept.pop_back();
        }
        break;
      default: CHECK(signed_video_get_version() && *signed_video_get_version(), "version", "no version");
    }
  }
};

// After whatever happened a session can be reset, configured and used to sign.
void usable_signer(Ctx &c, Rng &r, World &w, Obj &o)
{
  SignCfg cfg = random_cfg(r);
  cfg.codec = o.codec;
  cfg.recurrence = 1;
  cfg.set_hash = true;
  cfg.eos = r.chance(25);
#ifdef HARNESS_THREADED
  cfg.parts = false;
#endif
  signed_video_t *sv = o.sv.get();
  CHECK(signed_video_reset(sv) == SV_OK, "usable:reset", "the session cannot be reset");
  const Key &k = key_get(cfg.ec, cfg.key_idx);
  auto ok = [](int v, const char *what) { CHECK(v == SV_OK, std::string("usable:") + what, "%s returned %d after a reset", what, v); };
  ok(signed_video_set_private_key_new(sv, k.pem.data(), k.pem.size()), "private-key");
  // What was not fetched is thrown away.
  for (int i = 0; i < 200; i++) {
    size_t size = 0;
    Bytes b(200000);
    if (signed_video_get_sei(sv, b.data(), &size, nullptr, nullptr, 0, nullptr) == SV_OK && size == 0) break;
    CHECK(i < 199, "usable:pending", "the session never runs out of SEIs");
  }
  ok(signed_video_set_authenticity_level(sv, cfg.level), "level");
  ok(signed_video_set_hash_algo(sv, cfg.hash.c_str()), "hash");
  ok(signed_video_set_sei_epb(sv, cfg.sei_epb), "epb");
  ok(signed_video_set_using_golden_sei(sv, cfg.golden), "golden");
  ok(signed_video_add_public_key_to_sei(sv, true), "pubkey");
  ok(signed_video_set_max_sei_payload_size(sv, 0), "max-sei");
  ok(signed_video_set_recurrence_interval_frames(sv, 1), "recurrence");
  ok(signed_video_set_product_info(sv, cfg.pi[0].c_str(), cfg.pi[1].c_str(), cfg.pi[2].c_str(), cfg.pi[3].c_str(), cfg.pi[4].c_str()), "product");
  GopShape sh;
  sh.max_gops = 4;
  sh.max_size = 60;
  sh.big = 0;
  Stream video = random_video(r, o.codec, sh);
  SignedStream ss = sign_video_with(c, r, sv, cfg, video);
  c.log("usable: %s %s", cfg.str().c_str(), types_of(ss.s).c_str());
  ValRun run = validate(c, cfg, ss.s);
  check_intact(c, ss.gop_uids.size(), ss.s, run);
  c.ev("usable_signers");
}

void usable_validator(Ctx &c, Rng &r, World &w, Obj &o)
{
  SignCfg cfg = w.cfg;
  cfg.recurrence = 1;
  GopShape sh;
  sh.max_gops = 4;
  sh.max_size = 60;
  sh.big = 0;
  Stream video = random_video(r, o.codec, sh);
  SignedStream ss = sign_video(c, r, cfg, video);
  CHECK(signed_video_reset(o.sv.get()) == SV_OK, "usable:reset", "the session cannot be reset");
  ValRun run = validate_with(c, o.sv.get(), o.codec, ss.s);
  signed_video_authenticity_t *a = signed_video_get_authenticity_report(o.sv.get());
  CHECK(a, "usable:report", "no report");
  run.has_final = true;
  run.final_report = to_report(a, ss.s.size() - 1);
  signed_video_authenticity_report_free(a);
  map_statuses(ss.s, run);
  c.log("usable: %s %s", cfg.str().c_str(), types_of(ss.s).c_str());
  check_intact(c, ss.gop_uids.size(), ss.s, run);
  c.ev("usable_validators");
}
}  // namespace

PROPERTY(C10)
{
#ifdef HARNESS_THREADED
  thr::begin(r.next());
  thr::jitter = r.range(0, 20);
  thr::sign_us = r.chance(50) ? 0 : 300;
#endif
  World w(c, r);
  w.cfg = random_cfg(r);
  w.cfg.golden = false;
  w.hostile = r.chance(40);
  GopShape sh;
  sh.max_gops = 5;
  sh.max_size = 60;
  sh.big = 0;
  w.video = random_video(r, w.cfg.codec, sh);
  SignedStream ss = sign_video(c, r, w.cfg, w.video);
  w.signed_units = ss.s;
  for (auto &s : ss.seis) {
    Sei p = parse_sei(w.cfg.codec, s.data);
    if (p.ok) w.seis.push_back(p);
  }
  int n = r.range(1, 3);
  std::vector<Obj> objs;
  // 0: signing 1: validating 2: both at once
  std::vector<int> role;
  for (int i = 0; i < n; i++) {
    Obj o;
    o.codec = w.cfg.codec;
    o.sv.reset(signed_video_create(o.codec));
    CHECK(o.sv, "create", "no session");
    objs.push_back(std::move(o));
    role.push_back(r.chance(45) ? 0 : r.chance(80) ? 1 : 2);
  }
  int calls = r.chance(20) ? r.range(100, 400) : r.range(5, 100);
  int setters = r.range(2, 50);
  std::string desc;
  try {
    for (int k = 0; k < calls; k++) {
      size_t i = r.below(objs.size());
      Obj &o = objs[i];
      if (k < n && role[(size_t)k] != 1 && r.chance(90)) {
        const Key &key = key_get(w.cfg.ec, w.cfg.key_idx);
        w.rc("set_private_key", signed_video_set_private_key_new(objs[(size_t)k].sv.get(), key.pem.data(), key.pem.size()));
      }
      w.trace += strf("%zu:", i);
      if (r.chance(setters)) w.set_call(o);
      else if (r.chance(5)) w.misc_call(o);
      else if (role[i] == 1 || (role[i] == 2 && r.chance(50))) w.auth_call(o);
      else if (r.chance(60)) w.sign_call(o);
      else w.get_call(o);
      if (r.chance(1)) {
        // Abandon it.
        o.sv.reset(signed_video_create(o.codec));
        o.foreign_key = false;
        c.ev("sessions_abandoned");
      }
    }
#ifdef HARNESS_THREADED
    // SEIs come whenever they are signed; C12 judges them.
    objs.clear();
#endif
    for (size_t i = 0; i < objs.size(); i++) {
      if (r.chance(40)) continue;
      if (role[i] == 0) usable_signer(c, r, w, objs[i]);
      else if (role[i] == 1 && !objs[i].foreign_key && !w.hostile) usable_validator(c, r, w, objs[i]);
    }
  } catch (...) {
    c.log("%s %s", w.cfg.str().c_str(), w.trace.c_str());
    throw;
  }
  c.seen(w.trace);
  c.sample(w.trace.substr(0, 200));
}
