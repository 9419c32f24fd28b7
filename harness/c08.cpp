// C08: the delivery form (start codes, trailing zeros, parts, SEI retrieval, emulation prevention) changes neither what is
// signed nor the verdict.
#include "common.hpp"

#define OKRC(expr, what) \
  do { \
    SignedVideoReturnCode rc_ = (expr); \
    CHECK(rc_ == SV_OK, std::string("sign-api:") + what, "%s returned %d", what, (int)rc_); \
  } while (0)

struct Form {
  bool sc, zeros, parts;
  std::string str() const { return strf("sc=%d zeros=%d parts=%d", sc, zeros, parts); }
};

static std::vector<Bytes> sign_form(Ctx &c, Rng &r, const SignCfg &cfg, const Stream &video, const std::vector<int64_t> &ts, const Form &f)
{
  Sv svp = make_signer(cfg);
  signed_video_t *sv = svp.get();
  std::vector<Bytes> seis;
  if (cfg.golden) OKRC(signed_video_generate_golden_sei(sv), "generate_golden_sei");
  auto pull = [&](const Nalu *peek) {
    for (;;) {
      size_t size = 0;
      const uint8_t *pk = peek ? peek->data.data() : nullptr;
      size_t ps = peek ? peek->data.size() : 0;
      OKRC(signed_video_get_sei(sv, nullptr, &size, nullptr, pk, ps, nullptr), "get_sei");
      if (!size) break;
      Bytes b(size);
      OKRC(signed_video_get_sei(sv, b.data(), &size, nullptr, pk, ps, nullptr), "get_sei");
      seis.push_back(b);
    }
  };
  auto prepend = [&]() {
    for (;;) {
      signed_video_nalu_to_prepend_t p;
      OKRC(signed_video_get_nalu_to_prepend(sv, &p), "get_nalu_to_prepend");
      if (p.prepend_instruction == SIGNED_VIDEO_PREPEND_NOTHING) break;
      seis.push_back(Bytes(p.nalu_data, p.nalu_data + p.nalu_data_size));
      signed_video_nalu_data_free(p.nalu_data);
    }
  };
  for (size_t i = 0; i < video.size(); i++) {
    Nalu n = video[i];
    reform(r, n, f.sc, f.zeros);
    if (cfg.api == 0) pull(&n);
    const int64_t *tsp = cfg.timestamps ? &ts[i] : nullptr;
    // The first part has to hold the NAL Unit header and the first byte thereafter.
    size_t first = (size_t)n.sc + 3;
    if (f.parts && n.type != 'U' && n.data.size() > first && r.chance(80)) {
      std::vector<size_t> cuts;
      int k = r.chance(15) ? r.range(5, 40) : r.range(1, 4);
      for (int j = 0; j < k; j++) {
        // Often cut around the end of the unit, where the trailing zeros are.
        size_t lo = r.chance(40) && n.data.size() > 12 ? n.data.size() - 12 : first;
        if (lo < first) lo = first;
        cuts.push_back(lo + r.below(n.data.size() - lo));
      }
      if (r.chance(20)) cuts.push_back(first);
      std::set<size_t> u(cuts.begin(), cuts.end());
      u.insert(n.data.size());
      size_t pos = 0;
      for (size_t e : u) {
        if (e <= pos) continue;
        Bytes part(n.data.begin() + (long)pos, n.data.begin() + (long)e);
        part.shrink_to_fit();
        OKRC(signed_video_add_nalu_part_for_signing_with_timestamp(sv, part.data(), part.size(), tsp, e == n.data.size()), "add_nalu_part_for_signing");
        pos = e;
        c.ev("parts_added");
      }
    } else {
      OKRC(signed_video_add_nalu_for_signing_with_timestamp(sv, n.data.data(), n.data.size(), tsp), "add_nalu_for_signing");
    }
    if (cfg.api == 1) pull(nullptr);
    if (cfg.api == 2) prepend();
  }
  if (cfg.eos) {
    if (cfg.api == 0) pull(nullptr);
    OKRC(signed_video_set_end_of_stream(sv), "set_end_of_stream");
    if (cfg.api == 2) prepend();
    else pull(nullptr);
  }
  if (cfg.api == 0) pull(nullptr);
  return seis;
}

PROPERTY(C08)
{
  SignCfg cfg = random_cfg(r);
  cfg.parts = false;
  cfg.eos = r.chance(20);
  GopShape sh;
  sh.longs = 2;
  if (r.chance(40)) sh.max_size = 60;
  Stream video = random_video(r, cfg.codec, sh);
  // Units with zeros inside, also right before the end.
  for (auto &n : video)
    if (n.picture() && r.chance(30)) {
      Bytes core = n.core();
      if (core.size() > 12) {
        size_t a = 4 + r.below(core.size() - 5), k = 1 + r.below(6);
        for (size_t i = a; i < a + k && i + 1 < core.size(); i++) core[i] = 0;
        set_core(n, core);
      }
    }
  std::vector<int64_t> ts;
  for (size_t i = 0; i < video.size(); i++) ts.push_back(1000 * (int64_t)r.range(1, 1 << 30));
  c.log("%s %s", cfg.str().c_str(), types_of(video).c_str());
  Form plain = {false, false, false};
  std::vector<Bytes> ref = sign_form(c, r, cfg, video, ts, plain);
  // Signing
  for (int k = 0; k < 2; k++) {
    Form f = {r.chance(50), r.chance(50), r.chance(70)};
    SignCfg cfg2 = cfg;
    if (r.chance(50)) cfg2.api = (int)r.below(3);
    if (r.chance(30)) cfg2.sei_epb = !cfg2.sei_epb;
    c.log("form %s api=%d epb=%d", f.str().c_str(), cfg2.api, cfg2.sei_epb);
    std::vector<Bytes> got = sign_form(c, r, cfg2, video, ts, f);
    CHECK(got.size() == ref.size(), "sei-count", "%zu SEIs, %zu in the plain form", got.size(), ref.size());
    for (size_t i = 0; i < ref.size(); i++) {
      Sei a = parse_sei(cfg.codec, ref[i]), b = parse_sei(cfg.codec, got[i]);
      CHECK(a.ok && b.ok, "malformed", "SEI %zu malformed: %s%s", i, a.err.c_str(), b.err.c_str());
      CHECK(a.tlvs.size() == b.tlvs.size(), "sei-tlvs", "SEI %zu has %zu TLVs, plain form %zu", i, b.tlvs.size(), a.tlvs.size());
      for (size_t t = 0; t < a.tlvs.size(); t++) {
        CHECK(a.tlvs[t].tag == b.tlvs[t].tag, "sei-tags", "SEI %zu TLV %zu has tag %d, plain form %d", i, t, b.tlvs[t].tag, a.tlvs[t].tag);
        if (a.tlvs[t].tag == T_SIGNATURE) continue;
        CHECK(a.tlvs[t].val == b.tlvs[t].val, "sei-content", "SEI %zu: TLV %d differs from the plain form (%s)", i, a.tlvs[t].tag, f.str().c_str());
      }
      CHECK(verify_sig(key_get(cfg.ec, cfg.key_idx).pub, digest(cfg.hash, b.doc), b.signature), "signature", "the signature of SEI %zu does not verify", i);
      c.ev("seis_compared");
    }
    c.ev("forms_signed");
  }
  // Validation
  cfg.eos = false;
  SignedStream ss = sign_video(c, r, cfg, video);
  Stream s = r.chance(50) ? delay_seis(r, ss.s, 8) : ss.s;
  std::string what = "intact";
  if (r.chance(60)) {
    int n = r.range(1, 3);
    what = "";
    for (int k = 0; k < n && s.size() > 4; k++) {
      size_t at = r.below(s.size());
      Bytes core = s[at].core();
      switch (r.below(4)) {
        case 0:
          what += strf("drop %zu ", at);
          s.erase(s.begin() + (long)at);
          break;
        case 1: {
          size_t b = (at + 1) % s.size();
          what += strf("swap %zu ", at);
          std::swap(s[at], s[b]);
          break;
        }
        case 2:
          what += strf("dup %zu ", at);
          s.insert(s.begin() + (long)at, s[at]);
          break;
        default:
          if (core.size() > 5 && s[at].type != 'U') {
            core[4 + r.below(core.size() - 4)] ^= (uint8_t)(1 << r.below(8));
            set_core(s[at], core);
            what += strf("alter %zu ", at);
          }
      }
    }
  }
  c.log("validated: %s", what.c_str());
  ValRun a = validate(c, cfg, s);
  for (int k = 0; k < 2; k++) {
    Form f = {r.chance(70), r.chance(70), false};
    Stream t = s;
    // The SEIs may get their emulation prevention bytes from the encoder.
    bool enc = !cfg.sei_epb && r.chance(60);
    if (enc)
      for (auto &n : t) {
        if (!n.sv_sei()) continue;
        Sei e = parse_sei(cfg.codec, n.data);
        if (!e.ok || e.epb || e.core != e.rbsp) continue;
        set_core(n, add_epb(e.core));
        c.ev("epb_by_encoder");
      }
    for (auto &n : t) reform(r, n, f.sc, f.zeros);
    c.log("validation form %s%s", f.str().c_str(), enc ? " epb by encoder" : "");
    ValRun b = validate(c, cfg, t);
    CHECK(a.rc == b.rc, "val-rc", "return codes depend on the delivery form (%s)", f.str().c_str());
    CHECK(a.reports.size() == b.reports.size(), "val-reports", "%zu reports, %zu in the plain form (%s)", b.reports.size(), a.reports.size(), f.str().c_str());
    for (size_t i = 0; i < a.reports.size(); i++) {
      CHECK(a.reports[i] == b.reports[i], "val-report", "report %zu depends on the delivery form (%s):\n%s\n%s", i, f.str().c_str(), b.reports[i].str().c_str(), a.reports[i].str().c_str());
      c.ev("reports_compared");
    }
    CHECK(a.has_final == b.has_final && (!a.has_final || a.final_report == b.final_report), "val-final", "the final report depends on the delivery form");
  }
  c.seen(cfg.str() + types_of(video) + what);
  c.sample(cfg.str() + " " + types_of(video) + " " + what);
}
