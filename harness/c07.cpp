// C07: every generated SEI is well formed and matches an independent recomputation of its content.
#include "common.hpp"
#ifdef HARNESS_STUB
#include "zeroplug.hpp"
#endif

// Checks the SEIs of a signed stream against the reference model. |video| is what was added for signing.
void check_seis(Ctx &c, const SignCfg &cfg, const SignedStream &ss, const Stream &video, unsigned first_counter, size_t seis_from)
{
  const Key &key = key_get(cfg.ec, cfg.key_idx);
  int v[3] = {0, 0, 0};
  CHECK(sscanf(signed_video_get_version(), "v%d.%d.%d", &v[0], &v[1], &v[2]) == 3, "version", "unexpected version %s", signed_video_get_version());
  // The model of the recurrence: the frames in order, SEIs at the I-frames.
  struct G {
    Bytes ihash;
    std::vector<Bytes> hashes;
    bool recurrent = false;  // When its SEI was made.
    int64_t ts = 0;  // Of the I-frame which triggered the SEI.
    bool closed = false;
    bool ended = false;  // By the end of the stream.
  };
  std::vector<G> gops;
  unsigned frames = 0, rec = cfg.recurrence ? cfg.recurrence : 1;
  bool flag = false;
  for (size_t i = 0; i < video.size(); i++) {
    const Nalu &n = video[i];
    if (n.type == 'I' && !gops.empty() && cfg.eos_before.count(n.gop)) {
      gops.back().closed = gops.back().ended = true;
      gops.back().recurrent = flag;
      flag = false;
    }
    if (n.type == 'I' || n.type == 'P') {
      if (frames % rec == 0) flag = true;
      frames++;
    }
    if (n.type == 'I') {
      if (!gops.empty() && !gops.back().closed) {
        gops.back().closed = true;
        gops.back().recurrent = flag;
        gops.back().ts = ss.ts[i];
        flag = false;
      }
      gops.push_back(G());
      gops.back().ihash = unit_hash(cfg.hash, n.core(), nullptr);
      gops.back().hashes.push_back(gops.back().ihash);
    } else if (n.picture() && !gops.empty()) {
      gops.back().hashes.push_back(unit_hash(cfg.hash, n.core(), &gops.back().ihash));
    }
  }
  bool eos_sei = cfg.eos && !gops.empty();
  if (eos_sei) gops.back().closed = gops.back().ended = true, gops.back().recurrent = flag;
  size_t g = 0;
  bool golden_seen = false;
  size_t hs = digest(cfg.hash, Bytes()).size();
  for (size_t k = seis_from; k < ss.seis.size(); k++) {
    const Nalu &n = ss.seis[k];
    Sei s = parse_sei(cfg.codec, n.data);
    CHECK(s.ok, "malformed", "SEI %zu is malformed: %s: %s", k, s.err.c_str(), hexs(n.data, 4000).c_str());
    CHECK(n.sc == 4, "start-code", "SEI without a start code");
    // Emulation prevention: in the SEI if set, none otherwise.
    CHECK(s.epb == cfg.sei_epb, "epb-flag", "flag does not tell about emulation prevention");
    Bytes want = cfg.sei_epb ? add_epb(s.rbsp) : s.rbsp;
    CHECK(s.core == want, "epb", "emulation prevention not applied as expected: %s", hexs(s.core, 4000).c_str());
    if (cfg.sei_epb) {
      for (size_t i = 0; i + 2 < s.core.size(); i++)
        CHECK(s.core[i] || s.core[i + 1] || s.core[i + 2] > 2, "start-code-emulation", "start code emulated at %zu", i);
    }
    // Signature
#ifdef HARNESS_STUB
    bool found = false;
    for (auto &q : g_signed) found |= q.first == digest(cfg.hash, s.doc) && q.second == s.signature;
    CHECK(found, "signature", "not the signature made for SEI %zu", k);
#else
    CHECK(verify_sig(key.pub, digest(cfg.hash, s.doc), s.signature), "signature", "the signature of SEI %zu does not verify", k);
#endif
    const Bytes &sv = s.tlvs.back().val;
    for (size_t i = 5 + s.signature.size(); i < sv.size(); i++) CHECK(sv[i] == 1, "sig-padding", "signature padding is %d", sv[i]);
    c.ev("signatures_verified");
    std::vector<int> tags;
    for (auto &t : s.tlvs) tags.push_back(t.tag);
    bool golden = s.golden;
    if (golden) {
      CHECK(cfg.golden && !golden_seen && k == seis_from, "golden", "unexpected golden SEI");
      golden_seen = true;
      CHECK(!s.has_general && !s.has_hash_list, "golden-content", "golden SEI has GOP information");
    }
    bool recurrent = golden || (!cfg.golden && g < gops.size() && gops[g].recurrent);
    if (recurrent) {
      CHECK(s.has_pubkey == cfg.pubkey_in_sei, "pubkey", "public key %s", s.has_pubkey ? "present" : "missing");
      if (s.has_pubkey) CHECK(s.pubkey == key.pub, "pubkey-content", "public key differs");
      CHECK(s.has_crypto, "crypto", "no hash algorithm in a SEI with recurrent data");
      CHECK(digest(s.hash_algo, Bytes()) == digest(cfg.hash, Bytes()), "crypto-content", "hash algorithm %s", s.hash_algo.c_str());
      CHECK(s.has_product, "product", "no product info");
      for (int i = 0; i < 5; i++) {
        std::string w = cfg.product ? cfg.pi[i].substr(0, 254) : "";
        w.push_back('\0');
        CHECK(s.pi[i] == w, "product-content", "product info %d: '%s'", i, s.pi[i].c_str());
      }
      c.ev("recurrent_seis");
    } else {
      CHECK(!s.has_pubkey && !s.has_crypto && !s.has_product, "not-recurrent", "recurrent data in SEI %zu although it is not its turn", k);
      c.ev("non_recurrent_seis");
    }
    if (golden) continue;
    CHECK(g < gops.size() && gops[g].closed, "extra-sei", "more SEIs than GOPs");
    const G &q = gops[g];
    CHECK(s.has_general && s.gen_version == 3, "general", "no general TLV of version 3");
    CHECK(s.gop_counter == first_counter + (uint32_t)g, "counter", "GOP counter %u of GOP %zu", s.gop_counter, g);
    CHECK(s.num_nalus == q.hashes.size(), "num-nalus", "SEI tells %u units, GOP %zu has %zu", s.num_nalus, g, q.hashes.size());
    for (int i = 0; i < 3; i++) CHECK(s.ver[i] == v[i], "version-bytes", "version byte %d is %d", i, s.ver[i]);
    // The SEI of the end of the stream has no timestamp.
    CHECK(s.has_ts == (cfg.timestamps && !q.ended), "has-ts", "timestamp %s", s.has_ts ? "present" : "missing");
    if (s.has_ts) CHECK(s.ts == q.ts, "ts", "timestamp %lld, want %lld", (long long)s.ts, (long long)q.ts);
    Bytes all;
    for (auto &h : q.hashes) all.insert(all.end(), h.begin(), h.end());
    CHECK(s.gop_hash == digest(cfg.hash, all), "gop-hash", "GOP hash of GOP %zu differs", g);
    Bytes linked(hs, 0);
    if (g > 0) linked = gops[g - 1].ihash;
    CHECK(s.linked_hash == linked, "linked-hash", "linked hash of GOP %zu differs: %s want %s", g, hexs(s.linked_hash).c_str(), hexs(linked).c_str());
    bool list = cfg.level == SV_AUTHENTICITY_LEVEL_FRAME && !cfg.max_sei;
    CHECK(s.has_hash_list == list, "hash-list-presence", "hash list %s", s.has_hash_list ? "present" : "missing");
    if (list) CHECK(s.hash_list == all, "hash-list", "hash list of GOP %zu differs (%zu bytes, want %zu)", g, s.hash_list.size(), all.size());
    CHECK(s.reserved == (uint8_t)((cfg.sei_epb ? 0x80 : 0) | 0x30), "reserved", "reserved byte %02x", s.reserved);
    c.ev("seis_recomputed");
    g++;
  }
  size_t closed = 0;
  for (auto &q : gops) closed += q.closed;
  CHECK(g == closed, "sei-count", "%zu SEIs for %zu GOPs", g, closed);
  CHECK(!cfg.golden || !cfg.golden_at_start || golden_seen, "golden-missing", "no golden SEI");
}

// A session with more GOPs than fit in a byte (or two) of the counter.
static void long_session(Ctx &c, Rng &r, unsigned gops)
{
  SignCfg cfg = random_cfg(r);
  cfg.ec = true;
  cfg.key_idx = 0;
  cfg.level = SV_AUTHENTICITY_LEVEL_GOP;
  cfg.golden = false;
  cfg.eos = false;
  cfg.recurrence = 1000;
  Sv sv = make_signer(cfg);
  Nalu i = make_nalu(r, cfg.codec, 'I', 30, 4);
  uint32_t want = 0;
  for (unsigned k = 0; k <= gops; k++) {
    int64_t ts = 1000000 + 40000 * (int64_t)k;
    CHECK(signed_video_add_nalu_for_signing_with_timestamp(sv.get(), i.data.data(), i.data.size(), &ts) == SV_OK, "add", "GOP %u not signed", k);
    size_t size = 0;
    while (signed_video_get_sei(sv.get(), nullptr, &size, nullptr, nullptr, 0, nullptr) == SV_OK && size > 0) {
      Bytes b(size);
      CHECK(signed_video_get_sei(sv.get(), b.data(), &size, nullptr, nullptr, 0, nullptr) == SV_OK, "get", "SEI not pulled");
      if (want < 3 || want % 97 == 0 || ((want + 3) & 255) < 6) {
        Sei s = parse_sei(cfg.codec, b);
        CHECK(s.ok && s.has_general, "malformed", "SEI %u is malformed: %s", want, s.err.c_str());
        CHECK(s.gop_counter == want + 1, "counter", "GOP counter %u of GOP %u", s.gop_counter, want + 1);
        CHECK(s.num_nalus == 1, "num-nalus", "SEI tells %u units, GOP %u has 1", s.num_nalus, want + 1);
        c.ev("long_session_seis");
      }
      want++;
    }
  }
  CHECK(want == gops, "sei-count", "%u SEIs for %u GOPs", want, gops);
  c.sample(strf("a session of %u GOPs", gops));
}

PROPERTY(C07)
{
#ifdef HARNESS_STUB
  g_rng = &r;
  g_signed.clear();
  g_refuse_setup = false;
#endif
  if (c.case_idx % 400 == 7) {
    long_session(c, r, c.case_idx == 7 ? 65600 : 600);
    return;
  }
  SignCfg cfg = random_cfg(r);
  if (r.chance(15)) cfg.pubkey_in_sei = false;
  if (cfg.product && r.chance(40))
    for (auto &p : cfg.pi) {
      p.clear();
      int len = r.chance(30) ? r.range(250, 300) : r.range(0, 40);
      for (int i = 0; i < len; i++) p.push_back((char)(r.chance(20) ? r.range(1, 3) : r.range(1, 255)));
    }
  cfg.eos = r.chance(30);
  GopShape sh;
  sh.longs = 2;
  if (r.chance(20)) sh.max_frames = 40;
  Stream video = random_video(r, cfg.codec, sh);
  if (r.chance(20)) random_eos(r, cfg, video);
  c.log("%s %s", cfg.str().c_str(), types_of(video).c_str());
  SignedStream ss = sign_video(c, r, cfg, video);
  check_seis(c, cfg, ss, video, 1, 0);
  c.seen(cfg.str() + types_of(video));
  c.sample(cfg.str() + " " + types_of(video) + strf(" -> %zu SEIs", ss.seis.size()));
}
