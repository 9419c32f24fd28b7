// C29: the results depend on the calls only, not on how the library was built or what the memory contained. Each case records what
// the user observes; the driver compares the records of the same case in all builds.
#include <openssl/evp.h>
#include <unistd.h>

#include <atomic>

#include "damage.hpp"
#include "legacy.hpp"
#include "script.hpp"

#ifdef HARNESS_NOVENDOR
// Not in this build of the library, and not called in the cases of this build.
extern "C" SignedVideoReturnCode sv_vendor_axis_communications_set_attestation_report(signed_video_t *, const void *, uint8_t, const char *)
{
  abort();
}
#endif

#ifdef HARNESS_THREADED
static std::atomic<unsigned> g_calls;
extern "C" {
int __real_EVP_PKEY_sign(EVP_PKEY_CTX *ctx, unsigned char *sig, size_t *siglen, const unsigned char *tbs, size_t tbslen);
int __wrap_EVP_PKEY_sign(EVP_PKEY_CTX *ctx, unsigned char *sig, size_t *siglen, const unsigned char *tbs, size_t tbslen)
{
  unsigned k = g_calls++;
  if (sig && k % 16 == 5) usleep(2000);
  return __real_EVP_PKEY_sign(ctx, sig, siglen, tbs, tbslen);
}
}
#endif

namespace {
std::string flat(std::string s)
{
  for (auto &ch : s)
    if (ch == '\n') ch = '|';
  return s + "\n";
}

std::string sei_text(SignedVideoCodec codec, const Nalu &n)
{
  Sei p = parse_sei(codec, n.data);
  if (!p.ok) return "malformed SEI " + hexs(n.data, 1 << 20) + "\n";
  std::string t = strf("sei %02x", p.reserved);
  for (auto &x : p.tlvs) t += strf(" %d:", x.tag) + (x.tag == T_SIGNATURE ? "" : hexs(x.val, 1 << 20));
  return t + "\n";
}

std::string run_text(const ValRun &run)
{
  std::string t = "rc";
  for (int v : run.rc) t += strf(" %d", v);
  t += "\n";
  for (auto &p : run.reports) {
    t += p.str() + strf(" first=%lld last=%lld this=%s", p.acc_has_ts ? (long long)p.first_ts : -1, p.acc_has_ts ? (long long)p.last_ts : -1, p.ver_this.c_str());
    for (int i = 0; i < 5; i++) t += p.pi_null[i] ? " (none)" : " '" + p.pi[i] + "'";
    t = t.substr(0, t.size()) + "\n";
  }
  if (run.has_final) t += "final " + run.final_report.str() + "\n";
  return t;
}

// Signs in the simplest way and puts the SEI of a GOP in front of the I-frame that follows, when ever it is ready.
Stream sign_plain(Ctx &c, const SignCfg &cfg, const Stream &video, int64_t ts, std::string &rec)
{
  Sv sv = make_signer(cfg);
  Stream out;
  int gop = 0;
  auto take = [&](size_t at) {
    for (int i = 0;; i++) {
      size_t size = 0;
      unsigned pending = 0;
      int v = signed_video_get_sei(sv.get(), nullptr, &size, nullptr, nullptr, 0, &pending);
      CHECK(v == SV_OK, "get-sei", "get_sei gives %d", v);
      if (size) {
        Nalu n;
        n.data.resize(size);
        v = signed_video_get_sei(sv.get(), n.data.data(), &size, nullptr, nullptr, 0, &pending);
        CHECK(v == SV_OK && size == n.data.size(), "get-sei", "get_sei gives %d and %zu bytes instead of %zu", v, size, n.data.size());
        n.type = classify(cfg.codec, n.data.data(), size);
        n.sc = 4;
        n.gop = n.type == 'G' ? -1 : gop++;
        n.uid = -2 - (int)gop;
        out.insert(out.begin() + (long)at, n);
        rec += sei_text(cfg.codec, n) + strf("pending %u\n", pending);
        c.ev("seis_recorded");
        break;
      }
#ifdef HARNESS_THREADED
      CHECK(i < 30000, "no-sei", "no SEI in 30 s");
      usleep(1000);
#else
      fail("no-sei", "no SEI");
#endif
    }
  };
  if (cfg.golden) {
    int v = signed_video_generate_golden_sei(sv.get());
    CHECK(v == SV_OK, "golden", "generate_golden_sei gives %d", v);
    take(out.size());
  }
  bool first = true, more = false;
  for (auto &n : video) {
    int v = cfg.timestamps ? signed_video_add_nalu_for_signing_with_timestamp(sv.get(), n.data.data(), n.data.size(), &ts) :
                             signed_video_add_nalu_for_signing(sv.get(), n.data.data(), n.data.size());
    ts += 40000;
    rec += strf("add=%d\n", v);
    out.push_back(n);
    if (n.type == 'I') {
      if (!first) take(out.size() - 1);
      first = false;
    }
    more |= n.picture();
  }
  if (cfg.eos && more && !first) {
    int v = signed_video_set_end_of_stream(sv.get());
    rec += strf("eos=%d\n", v);
    take(out.size());
  }
  return out;
}
}  // namespace

PROPERTY(C29)
{
  std::string rec, desc;
  if (c.case_idx % 2) {
#if defined(HARNESS_THREADED) || defined(HARNESS_NOVENDOR)
    // When SEIs are ready, and what vendor data means, depends on the build.
    return;
#else
    Script s = random_script(c, r, false, true);
    if (!s.attestation.empty()) return;
    Player p(s);
    while (p.step()) {}
    for (auto &t : p.trace) rec += flat(t);
    c.ev("scripts_recorded");
    c.ev("reports_recorded", p.reports);
    desc = s.str();
#endif
  } else {
    SignCfg cfg = random_cfg(r);
    cfg.pi[3] = "manufacturer";
    cfg.eos = r.chance(25);
    GopShape sh;
    Stream s;
    const char *pub = nullptr;
    if (r.chance(20)) {
      LegacyCfg l = random_legacy_cfg(r);
      l.pi[3] = "manufacturer";
      cfg.codec = l.codec;
      sh.extras = false;
      Stream video = random_video(r, l.codec, sh);
      s = legacy_sign(l, video).s;
      desc = "legacy " + l.str();
      c.ev("legacy_recorded");
    } else {
      Stream video = random_video(r, cfg.codec, sh);
      s = sign_plain(c, cfg, video, 1000000LL * r.range(1, 1000000), rec);
      if (!cfg.pubkey_in_sei) pub = key_get(cfg.ec, cfg.key_idx).pub.c_str();
      desc = cfg.str();
    }
    int last = 0;
    for (auto &n : s) last = std::max(last, n.gop);
    for (int k = r.range(0, 2); k > 0; k--) {
      if (r.chance(50)) {
        Loss l = lose(r, s, last);
        s = l.left;
        desc += strf(" lose %s", l.name);
      } else {
        Tamper t = tamper(r, cfg.codec, s);
        desc += strf(" %s", t.what.c_str());
      }
    }
    if (r.chance(30)) s = delay_seis(r, s, 8);
    ValRun run = validate(c, cfg, s, pub);
    rec += run_text(run);
    c.ev("reports_recorded", run.reports.size());
    desc += " " + types_of(s);
  }
  c.log("%s", desc.c_str());
  c.records[c.case_idx] = rec;
  c.seen(desc);
  c.sample(desc);
}
