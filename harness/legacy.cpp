#include "legacy.hpp"

#include "hostile.hpp"

std::string LegacyCfg::str() const
{
  return strf("legacy h26%d %s %s%d epb=%d gv%d ts=%d rec=%d prod=%d arb=%d crypto=%d cnt=%u", codec == SV_CODEC_H264 ? 4 : 5, gop_level ? "GOP" : "FRAME", ec ? "EC" : "RSA", key_idx, epb,
      general_version, timestamps, recurrence, product, arbitrary, crypto, gop_counter);
}

LegacyCfg random_legacy_cfg(Rng &r)
{
  LegacyCfg c;
  c.codec = r.chance(50) ? SV_CODEC_H264 : SV_CODEC_H265;
  c.gop_level = r.chance(40);
  c.ec = r.chance(75);
  c.key_idx = (int)r.below((uint64_t)key_count(c.ec));
  c.epb = r.chance(75);
  c.general_version = r.chance(75) ? 2 : 1;
  c.timestamps = c.general_version == 2 && r.chance(70);
  c.recurrence = r.chance(60) ? 1 : r.range(2, 4);
  c.product = r.chance(80);
  c.arbitrary = r.chance(20);
  c.crypto = r.chance(20);
  c.gop_counter = r.chance(60) ? 0 : r.chance(20) ? 0xfffffffcu + (uint32_t)r.below(6) : (uint32_t)r.next();
  for (auto &s : c.pi) {
    s.clear();
    for (int k = r.range(0, 20); k > 0; k--) s += (char)r.range('a', 'z');
  }
  return c;
}

static void be(Bytes &b, uint64_t v, int n)
{
  while (n--) b.push_back((uint8_t)(v >> (8 * n)));
}

SignedStream legacy_sign(const LegacyCfg &cfg, const Stream &video)
{
  SignedStream out;
  const Key &key = key_get(cfg.ec, cfg.key_idx);
  Bytes ref;
  bool has_ref = false;
  std::vector<Bytes> hashes;
  uint32_t counter = cfg.gop_counter;
  int gop = -1, n_sei = 0;
  int64_t ts = 1000000;
  auto cat = [](const Bytes &a, const Bytes &b) {
    Bytes x = a;
    x.insert(x.end(), b.begin(), b.end());
    return x;
  };
  for (size_t i = 0; i < video.size(); i++) {
    Nalu n = video[i];
    ts += 40000;
    out.ts.push_back(ts);
    n.uid = (int)i;
    if (n.type == 'I') {
      Bytes h = digest("sha256", n.core());
      hashes.push_back(has_ref ? digest("sha256", cat(ref, h)) : h);
      counter++;
      std::vector<RawTlv> t;
      auto add = [&](int tag, const Bytes &v) {
        RawTlv x;
        x.tag = tag;
        x.val = v;
        t.push_back(x);
      };
      Bytes g = {(uint8_t)cfg.general_version};
      be(g, counter, 4);
      be(g, hashes.size(), 2);
      g.insert(g.end(), {1, 1, 20});
      if (cfg.general_version == 2) {
        g.push_back(cfg.timestamps);
        if (cfg.timestamps) be(g, (uint64_t)ts, 8);
      }
      add(T_GENERAL, g);
      if (n_sei % cfg.recurrence == 0) {
        Bytes k = {2};
        k.insert(k.end(), key.pub.begin(), key.pub.end());
        add(T_PUBKEY, k);
        if (cfg.product) {
          Bytes p = {1};
          for (auto &s : cfg.pi) {
            p.push_back((uint8_t)(s.size() + 1));
            p.insert(p.end(), s.begin(), s.end());
            p.push_back(0);
          }
          add(T_PRODUCT, p);
        }
        if (cfg.crypto) add(T_CRYPTO, {2, 11, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x01});
      }
      if (cfg.arbitrary) add(T_ARBITRARY, {1, 'x', 0, 0, 0, 1, 'y'});
      if (!cfg.gop_level) {
        Bytes l = {1};
        for (auto &x : hashes) l = cat(l, x);
        add(T_HASHLIST, l);
      }
      // Room for the signature.
      size_t room = sig_room(key);
      Bytes sg = {1, 0, (uint8_t)(cfg.gop_level ? 0 : 1), 0, 0};
      sg.resize(5 + room);
      add(T_SIGNATURE, sg);
      uint8_t reserved = cfg.epb ? 0x80 : 0;
      if (cfg.gop_level) {
        // The signed hash is that of the GOP, with the SEI at the end.
        Bytes raw = craft_sei(cfg.codec, reserved, t, nullptr, "sha256", false);
        Bytes doc(raw.begin() + 4, raw.end() - 1 - (long)(5 + room) - 3);
        if (cfg.epb) doc = add_epb(doc);
        Bytes gh = digest("sha256", Bytes{1});
        for (auto &x : hashes) gh = digest("sha256", cat(gh, x));
        gh = digest("sha256", cat(gh, digest("sha256", doc)));
        Bytes sig = sign_digest(key, gh);
        Bytes &v = t.back().val;
        v[3] = (uint8_t)(sig.size() >> 8);
        v[4] = (uint8_t)sig.size();
        memcpy(&v[5], sig.data(), sig.size());
      }
      Nalu s;
      s.data = craft_sei(cfg.codec, reserved, t, cfg.gop_level ? nullptr : &key, "sha256", true);
      s.sc = 4;
      s.type = 'S';
      s.gop = gop;
      s.uid = -2;
      out.s.push_back(s);
      out.seis.push_back(s);
      n_sei++;
      gop++;
      out.gop_uids.emplace_back();
      ref = h;
      has_ref = true;
      hashes.clear();
      hashes.push_back(h);
    } else if (n.picture() && has_ref) {
      hashes.push_back(digest("sha256", cat(ref, digest("sha256", n.core()))));
    }
    n.gop = gop;
    if (n.picture() && gop >= 0) out.gop_uids[(size_t)gop].push_back(n.uid);
    out.s.push_back(n);
  }
  return out;
}
