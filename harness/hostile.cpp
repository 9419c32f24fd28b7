#include "hostile.hpp"

#include <openssl/asn1.h>
#include <openssl/crypto.h>
#include <openssl/objects.h>

#include <algorithm>

Bytes craft_sei(SignedVideoCodec codec, uint8_t reserved, const std::vector<RawTlv> &tlvs, const Key *key, const std::string &algo, bool epb, long size_lie,
    bool stop)
{
  Bytes b;
  if (codec == SV_CODEC_H264) b = {6, 5};
  else b = {0x4e, 1, 5};
  Bytes pl(kUuid, kUuid + 16);
  pl.push_back(reserved);
  size_t sig_at = 0, sig_room = 0;
  for (auto &t : tlvs) {
    size_t at = pl.size();
    size_t len = t.lie >= 0 ? (size_t)t.lie : t.val.size();
    pl.push_back((uint8_t)t.tag);
    if (!(t.tag == T_GENERAL || t.tag == T_CRYPTO)) pl.push_back((uint8_t)(len >> 8));
    pl.push_back((uint8_t)len);
    pl.insert(pl.end(), t.val.begin(), t.val.end());
    if (t.tag == T_SIGNATURE) sig_at = at, sig_room = t.val.size();
  }
  long left = (long)pl.size() + size_lie;
  if (left < 0) left = 0;
  while (left >= 255) {
    b.push_back(255);
    left -= 255;
  }
  b.push_back((uint8_t)left);
  size_t off = b.size();
  b.insert(b.end(), pl.begin(), pl.end());
  if (key && sig_room > 5) {
    Bytes doc(b.begin(), b.begin() + (long)(off + sig_at));
    if (reserved & 0x80) doc = add_epb(doc);
    Bytes sig = sign_digest(*key, digest(algo, doc));
    if (sig.size() <= sig_room - 5) {
      size_t p = off + sig_at + 3;
      b[p + 3] = (uint8_t)(sig.size() >> 8);
      b[p + 4] = (uint8_t)sig.size();
      memcpy(&b[p + 5], sig.data(), sig.size());
    }
  }
  if (stop) b.push_back(0x80);
  if (epb) b = add_epb(b);
  Bytes out = {0, 0, 0, 1};
  out.insert(out.end(), b.begin(), b.end());
  return out;
}

static Nalu as_nalu(SignedVideoCodec codec, Bytes &&d)
{
  Nalu n;
  n.data = std::move(d);
  n.sc = 4;
  n.type = classify(codec, n.data.data(), n.data.size());
  return n;
}

Nalu hostile_sei(Rng &r, SignedVideoCodec codec, const Sei &base, const Key *key, const std::string &algo, std::string &desc)
{
  std::vector<RawTlv> t;
  for (auto &x : base.tlvs) {
    RawTlv y;
    y.tag = x.tag;
    y.val = x.val;
    t.push_back(y);
  }
  uint8_t reserved = base.reserved;
  bool epb = !r.chance(10);
  long size_lie = 0;
  bool stop = !r.chance(5);
  std::string hash = algo;
  desc += "sei{";
  int n = r.range(1, 3);
  static const uint8_t edge[] = {0, 1, 2, 3, 0x7f, 0x80, 0xfe, 0xff};
  for (int k = 0; k < n; k++) {
    size_t at = r.below(std::max<size_t>(1, t.size()));
    bool have = !t.empty();
    switch (r.below(16)) {
      case 0:
        if (have && !t[at].val.empty()) {
          size_t i = r.below(std::min<size_t>(t[at].val.size(), r.chance(70) ? 16 : 10000));
          t[at].val[i] = r.chance(50) ? edge[r.below(8)] : (uint8_t)r.next();
          desc += strf("%d[%zu] ", t[at].tag, i);
        }
        break;
      case 1:
        if (have) {
          size_t sz = r.chance(60) ? r.below(t[at].val.size() + 3) : r.below(600);
          t[at].val.resize(sz, (uint8_t)r.next());
          desc += strf("%d resized %zu ", t[at].tag, sz);
        }
        break;
      case 2:
        if (have) {
          desc += strf("%d dropped ", t[at].tag);
          t.erase(t.begin() + (long)at);
        }
        break;
      case 3:
        if (have) {
          RawTlv x = t[at];
          t.insert(t.begin() + (long)r.below(t.size() + 1), x);
          desc += strf("%d repeated ", x.tag);
        }
        break;
      case 4:
        if (t.size() > 1) {
          std::swap(t[at], t[r.below(t.size())]);
          desc += "swapped ";
        }
        break;
      case 5: {
        RawTlv x;
        static const int tags[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 127, 128, 129, 130, 131, 255};
        x.tag = tags[r.below(17)];
        x.val = r.bytes(r.below(r.chance(70) ? 40 : 700));
        if (!x.val.empty() && r.chance(70)) x.val[0] = (uint8_t)r.range(0, 3);
        t.insert(t.begin() + (long)r.below(t.size() + 1), x);
        desc += strf("%d new %zu ", x.tag, x.val.size());
        break;
      }
      case 6:
        if (have) {
          static const long lies[] = {0, 1, 2, 255, 256, 65535, 65534, 32768};
          t[at].lie = r.chance(50) ? lies[r.below(8)] : std::max(0L, (long)t[at].val.size() + r.range(-20, 20));
          desc += strf("%d says %ld ", t[at].tag, t[at].lie);
        }
        break;
      case 7:
        reserved = r.chance(60) ? (uint8_t)(r.below(16) << 4) : (uint8_t)r.next();
        desc += strf("reserved %02x ", reserved);
        break;
      case 8:
        size_lie = r.chance(50) ? r.range(-30, 30) : r.range(-1000, 70000);
        desc += strf("size%+ld ", size_lie);
        break;
      case 9:  // Another hash algorithm name
        for (auto &x : t)
          if (x.tag == T_CRYPTO) {
            static const char *names[] = {"sha1", "sha512", "sha384", "md5", "sha3-512", "shake256", "ripemd160", "sha512-256"};
            std::string nm = names[r.below(8)];
            ASN1_OBJECT *o = OBJ_txt2obj(nm.c_str(), 0);
            if (o) {
              unsigned char *der = nullptr;
              int len = i2d_ASN1_OBJECT(o, &der);
              x.val.assign(2, 1);
              x.val[1] = (uint8_t)len;
              x.val.insert(x.val.end(), der, der + len);
              OPENSSL_free(der);
              ASN1_OBJECT_free(o);
              desc += nm + " ";
              if (r.chance(70)) hash = nm;
            }
          }
        break;
      case 10:  // Sizes inside of values
        for (auto &x : t)
          if (x.tag == T_GENERAL && x.val.size() > 7) {
            static const unsigned nn[] = {0, 1, 2, 255, 256, 300, 301, 4096, 32767, 65535};
            unsigned v = nn[r.below(10)];
            x.val[5] = (uint8_t)(v >> 8);
            x.val[6] = (uint8_t)v;
            if (r.chance(40)) {
              Bytes q = r.bytes(4);
              if (r.chance(50)) q = Bytes(4, r.chance(50) ? 0xff : 0);
              std::copy(q.begin(), q.end(), x.val.begin() + 1);
            }
            desc += strf("num %u ", v);
          }
        break;
      case 11:
        for (auto &x : t)
          if (x.tag == T_SIGNATURE && x.val.size() > 5) {
            static const unsigned nn[] = {0, 1, 5, 71, 72, 73, 256, 257, 512, 65535};
            unsigned v = nn[r.below(10)];
            x.val[3] = (uint8_t)(v >> 8);
            x.val[4] = (uint8_t)v;
            if (r.chance(30)) x.val.resize(5 + std::min(v, 2000u), 0x30);
            desc += strf("signature %u ", v);
          }
        break;
      case 12: {  // From Axis
        RawTlv x;
        x.tag = T_PRODUCT;
        x.val = {(uint8_t)r.range(1, 2)};
        std::string pi[5] = {"hw", "fw", "ser", "Axis Communications AB", "addr"};
        for (int i = 0; i < 5; i++) {
          if (i != 3 && r.chance(30)) pi[i] = std::string(r.below(256), 'p');
          if (r.chance(10)) pi[i] = "";
          x.val.push_back((uint8_t)pi[i].size());
          x.val.insert(x.val.end(), pi[i].begin(), pi[i].end());
        }
        if (r.chance(10)) x.val.resize(r.below(x.val.size()));
        for (size_t i = 0; i < t.size(); i++)
          if (t[i].tag == T_PRODUCT) t.erase(t.begin() + (long)i--);
        t.insert(t.begin() + (long)r.below(t.size() + 1), x);
        RawTlv v;
        v.tag = T_VENDOR;
        v.val = r.bytes(r.below(r.chance(50) ? 20 : 600));
        if (!v.val.empty() && r.chance(80)) v.val[0] = (uint8_t)r.range(1, 3);
        if (v.val.size() > 2 && r.chance(60)) v.val[1] = (uint8_t)r.below(std::min<size_t>(256, v.val.size()));
        if (r.chance(70)) t.insert(t.begin() + (long)r.below(t.size() + 1), v);
        desc += strf("axis %zu ", v.val.size());
        break;
      }
      case 13:  // The end of the SEI inside of one of its values
        if (have) {
          RawTlv x = t[at];
          t.erase(t.begin() + (long)at);
          x.val.resize(r.below(x.val.size() + 1));
          x.lie = -1;
          desc += strf("%d last, %zu ", x.tag, x.val.size());
          t.push_back(x);
          stop = r.chance(30);
        }
        break;
      default: {  // A key in the SEI that is none, or another one
        RawTlv x;
        x.tag = T_PUBKEY;
        x.val = {1};
        std::string s;
        int w = (int)r.below(5);
        if (w == 0) s = key_get(true, r.range(0, key_count(true) - 1)).pub;
        else if (w == 1) s = key_get(false, r.range(0, key_count(false) - 1)).pub;
        else if (w == 2) s = "-----BEGIN PUBLIC KEY-----\nAAAA\n-----END PUBLIC KEY-----\n";
        else if (w == 3) s.assign(r.below(5), 'x');
        else s.assign(2000, 'k');
        x.val.insert(x.val.end(), s.begin(), s.end());
        bool done = false;
        for (auto &y : t)
          if (y.tag == T_PUBKEY) y.val = x.val, done = true;
        if (!done) t.insert(t.begin(), x);
        desc += strf("pubkey%d ", w);
      }
    }
  }
  desc += key ? "}signed " : "} ";
  return as_nalu(codec, craft_sei(codec, reserved, t, key, hash, epb, size_lie, stop));
}

Nalu random_sei(Rng &r, SignedVideoCodec codec)
{
  Bytes b = {0, 0, 0, 1};
  if (codec == SV_CODEC_H264) b.insert(b.end(), {6, 5});
  else b.insert(b.end(), {0x4e, 1, 5});
  size_t n = r.below(r.chance(60) ? 40 : 600);
  long decl = 17 + (long)n + (r.chance(60) ? 0 : r.range(-40, 300));
  if (decl < 0) decl = 0;
  if (r.chance(5)) decl += 255L * r.range(1, 100000);
  while (decl >= 255) {
    b.push_back(255);
    decl -= 255;
  }
  b.push_back((uint8_t)decl);
  b.insert(b.end(), kUuid, kUuid + 16);
  b.push_back(r.chance(70) ? (uint8_t)(r.below(16) << 4) : (uint8_t)r.next());
  Bytes body = r.bytes(n);
  int style = (int)r.below(3);
  if (style == 0 && n > 2) {  // plausible TLVs
    size_t p = 0;
    while (p + 3 < n) {
      body[p] = r.chance(85) ? (uint8_t)r.range(1, 7) : (uint8_t)129;
      bool one = body[p] == T_GENERAL || body[p] == T_CRYPTO;
      size_t len = r.below(60);
      p++;
      if (!one) body[p++] = 0;
      body[p++] = (uint8_t)len;
      if (p < n && r.chance(80)) body[p] = (uint8_t)r.range(1, 3);
      p += len;
    }
  } else if (style == 1) {
    for (auto &x : body)
      if (r.chance(50)) x = (uint8_t)r.below(4);
  }
  b.insert(b.end(), body.begin(), body.end());
  if (r.chance(90)) b.push_back(0x80);
  if (r.chance(15)) b.resize(4 + r.below(b.size() - 3));
  if (r.chance(10)) b.insert(b.end(), r.below(5), 0);
  if (r.chance(15)) b.erase(b.begin(), b.begin() + 4);
  if (b.empty()) b.push_back(6);
  return as_nalu(codec, std::move(b));
}

static const char *kLegacy[] = {"legacy_h264_0", "legacy_h265_1", "legacy_h264_2", "legacy_h265_3", "legacy_h265_4", "legacy_h264_5"};
int legacy_count() { return 6; }
Stream legacy_stream(int idx, SignedVideoCodec &codec)
{
  codec = strstr(kLegacy[idx], "h265") ? SV_CODEC_H265 : SV_CODEC_H264;
  FILE *f = fopen((g_data_dir + "/" + kLegacy[idx] + ".bin").c_str(), "rb");
  if (!f) {
    fprintf(stderr, "HARNESS: no data\n");
    _Exit(3);
  }
  Stream s;
  uint8_t len[4];
  int gop = -1, uid = 0;
  while (fread(len, 1, 4, f) == 4) {
    Nalu n;
    n.data.resize((size_t)len[0] | (size_t)len[1] << 8 | (size_t)len[2] << 16);
    if (fread(n.data.data(), 1, n.data.size(), f) != n.data.size()) _Exit(3);
    n.sc = 4;
    n.type = classify(codec, n.data.data(), n.data.size());
    if (n.type == 'I') gop++;
    n.gop = gop;
    n.uid = uid++;
    s.push_back(n);
  }
  fclose(f);
  return s;
}
