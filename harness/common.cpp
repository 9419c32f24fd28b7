#include "common.hpp"

#include <openssl/evp.h>
#include <openssl/objects.h>
#include <openssl/pem.h>
#include <openssl/rsa.h>

#include <cstdarg>
#include <fstream>
#include <sstream>

std::string g_data_dir = "/verif/data";

uint64_t fnv(const void *data, size_t size, uint64_t h)
{
  const uint8_t *p = (const uint8_t *)data;
  for (size_t i = 0; i < size; i++) {
    h ^= p[i];
    h *= 1099511628211ULL;
  }
  return h;
}
uint64_t fnv(const std::string &s, uint64_t h) { return fnv(s.data(), s.size(), h); }

static std::string vstrf(const char *fmt, va_list ap)
{
  va_list ap2;
  va_copy(ap2, ap);
  int n = vsnprintf(nullptr, 0, fmt, ap2);
  va_end(ap2);
  std::string s((size_t)n + 1, '\0');
  vsnprintf(&s[0], s.size(), fmt, ap);
  s.resize((size_t)n);
  return s;
}

std::string strf(const char *fmt, ...)
{
  va_list ap;
  va_start(ap, fmt);
  std::string s = vstrf(fmt, ap);
  va_end(ap);
  return s;
}

void Ctx::log(const char *fmt, ...)
{
  va_list ap;
  va_start(ap, fmt);
  std::string s = vstrf(fmt, ap);
  va_end(ap);
  if (verbose) fprintf(stderr, "%s\n", s.c_str());
  if (trace.size() < 60000) {
    trace += s;
    trace += "\n";
  }
}

void fail(const std::string &key, const char *fmt, ...)
{
  va_list ap;
  va_start(ap, fmt);
  std::string s = vstrf(fmt, ap);
  va_end(ap);
  throw Violation(key, s);
}

std::string hexs(const Bytes &b, size_t max)
{
  std::string s;
  for (size_t i = 0; i < b.size() && i < max; i++) s += strf("%02x", b[i]);
  if (b.size() > max) s += strf("..(%zu)", b.size());
  return s;
}

// ---------------------------------------------------------------- Keys
static std::string slurp(const std::string &path)
{
  std::ifstream f(path, std::ios::binary);
  if (!f) {
    fprintf(stderr, "HARNESS: cannot read %s\n", path.c_str());
    exit(3);
  }
  std::stringstream ss;
  ss << f.rdbuf();
  return ss.str();
}

int key_count(bool ec) { return ec ? 7 : 4; }

const Key &key_get(bool ec, int idx)
{
  static std::map<std::pair<bool, int>, Key> cache;
  auto k = std::make_pair(ec, idx);
  auto it = cache.find(k);
  if (it != cache.end()) return it->second;
  std::string base = g_data_dir + "/" + (ec ? "ec" : "rsa") + std::to_string(idx);
  Key key;
  key.pem = slurp(base + ".pem");
  key.pub = slurp(base + ".pub");
  key.ec = ec;
  return cache[k] = key;
}

bool verify_sig(const std::string &pub_pem, const Bytes &dig, const Bytes &sig)
{
  BIO *bp = BIO_new_mem_buf(pub_pem.data(), (int)pub_pem.size());
  EVP_PKEY *pk = PEM_read_bio_PUBKEY(bp, nullptr, nullptr, nullptr);
  BIO_free(bp);
  if (!pk) return false;
  EVP_PKEY_CTX *ctx = EVP_PKEY_CTX_new(pk, nullptr);
  bool ok = ctx && EVP_PKEY_verify_init(ctx) > 0;
  if (ok && EVP_PKEY_base_id(pk) == EVP_PKEY_RSA) {
    ok = EVP_PKEY_CTX_set_rsa_padding(ctx, RSA_PKCS1_PADDING) > 0 &&
        EVP_PKEY_CTX_set_signature_md(ctx, EVP_sha256()) > 0;
  }
  ok = ok && EVP_PKEY_verify(ctx, sig.data(), sig.size(), dig.data(), dig.size()) == 1;
  EVP_PKEY_CTX_free(ctx);
  EVP_PKEY_free(pk);
  return ok;
}

Bytes digest(const std::string &algo, const uint8_t *data, size_t size)
{
  const EVP_MD *md = EVP_get_digestbyname(algo.c_str());
  if (!md) {
    fprintf(stderr, "HARNESS: unknown digest %s\n", algo.c_str());
    exit(3);
  }
  Bytes out(EVP_MAX_MD_SIZE);
  unsigned n = 0;
  EVP_Digest(data, size, out.data(), &n, md, nullptr);
  out.resize(n);
  return out;
}

// ---------------------------------------------------------------- NAL Units
Bytes Nalu::core() const
{
  size_t end = data.size(), start = std::min<size_t>((size_t)sc, end);
  while (end > start && data[end - 1] == 0) end--;
  return Bytes(data.begin() + (long)start, data.begin() + (long)end);
}

std::string types_of(const Stream &s)
{
  std::string t;
  for (auto &n : s) t += n.type;
  return t;
}

const uint8_t kUuid[16] = {0x53, 0x69, 0x67, 0x6e, 0x65, 0x64, 0x20, 0x56, 0x69, 0x64, 0x65,
    0x6f, 0x2e, 0x2e, 0x2e, 0x30};

static size_t start_code_len(const uint8_t *d, size_t n)
{
  if (n >= 4 && !d[0] && !d[1] && !d[2] && d[3] == 1) return 4;
  if (n >= 3 && !d[0] && !d[1] && d[2] == 1) return 3;
  return 0;
}

char classify(SignedVideoCodec codec, const uint8_t *d, size_t n)
{
  size_t sc = start_code_len(d, n);
  d += sc;
  n -= sc;
  if (n == 0) return 'U';
  size_t hdr = codec == SV_CODEC_H264 ? 1 : 2;
  if (n < hdr) return 'U';
  bool primary = n > hdr && (d[hdr] & 0x80);
  char t = 'U';
  if (codec == SV_CODEC_H264) {
    int ty = d[0] & 0x1f;
    if (ty == 1) t = primary ? 'P' : 'p';
    else if (ty == 5) t = primary ? 'I' : 'i';
    else if (ty == 6) t = 'z';
    else if (ty == 7 || ty == 8 || ty == 13 || ty == 15) t = 'v';
    else if (ty == 9) t = '_';
    else if ((ty >= 2 && ty <= 4) || (ty >= 10 && ty <= 12)) t = 'o';
  } else {
    if ((d[1] & 7) == 0) return 'U';
    int ty = (d[0] & 0x7e) >> 1;
    if (ty <= 1) t = primary ? 'P' : 'p';
    else if (ty >= 16 && ty <= 21) t = primary ? 'I' : 'i';
    else if (ty == 39 || ty == 40) t = 'z';
    else if (ty >= 32 && ty <= 34) t = 'v';
    else if (ty == 35) t = '_';
    else if (ty <= 9 || (ty >= 36 && ty <= 38)) t = 'o';
  }
  if (t == 'z') {
    size_t p = hdr;
    if (p < n && d[p] == 5) {
      p++;
      while (p < n && d[p] == 0xff) p++;
      p++;
      if (p + 16 < n && memcmp(d + p, kUuid, 16) == 0) return (d[p + 16] & 0x40) ? 'G' : 'S';
    }
  }
  return t;
}

Bytes add_epb(const Bytes &in)
{
  Bytes out;
  int zeros = 0;
  for (uint8_t b : in) {
    if (zeros >= 2 && b <= 3) {
      out.push_back(3);
      zeros = 0;
    }
    out.push_back(b);
    zeros = b == 0 ? zeros + 1 : 0;
  }
  return out;
}

void set_start_code(Nalu &n, int sc)
{
  Bytes c(n.data.begin() + n.sc, n.data.end());
  Bytes d;
  if (sc == 4) d = {0, 0, 0, 1};
  if (sc == 3) d = {0, 0, 1};
  d.insert(d.end(), c.begin(), c.end());
  n.data = d;
  n.sc = sc;
}

void reform(Rng &r, Nalu &n, bool sc, bool zeros)
{
  if (n.type == 'U') return;
  if (sc) {
    static const int k[] = {0, 3, 4};
    set_start_code(n, k[r.below(3)]);
  }
  if (zeros && r.chance(60)) n.data.resize(n.data.size() + (size_t)(r.chance(20) ? r.range(5, 40) : r.range(1, 4)), 0);
}

void set_core(Nalu &n, const Bytes &core)
{
  Bytes d(n.data.begin(), n.data.begin() + n.sc);
  d.insert(d.end(), core.begin(), core.end());
  n.data = d;
}

Nalu make_nalu(Rng &r, SignedVideoCodec codec, char type, size_t size, int sc)
{
  Nalu n;
  n.type = type;
  Bytes c;
  bool h4 = codec == SV_CODEC_H264;
  auto hdr5 = [&](int ty, int tid1) {
    c.push_back((uint8_t)(ty << 1));
    c.push_back((uint8_t)tid1);
  };
  auto pickv = [&](std::vector<int> v) { return v[r.below(v.size())]; };
  int ref = r.range(1, 3) << 5;
  switch (type) {
    case 'I':
    case 'i':
      if (h4) c.push_back((uint8_t)(ref | 5));
      else hdr5(r.range(16, 21), 1);
      break;
    case 'P':
    case 'p':
      if (h4) c.push_back((uint8_t)((r.range(0, 3) << 5) | 1));
      else hdr5(r.range(0, 1), r.chance(70) ? 1 : r.range(1, 7));
      break;
    case 'z':
      if (h4) c.push_back(6);
      else hdr5(r.chance(80) ? 39 : 40, 1);
      break;
    case 'v':
      if (h4) c.push_back((uint8_t)(ref | pickv({7, 8, 13, 15})));
      else hdr5(pickv({32, 33, 34}), 1);
      break;
    case '_':
      if (h4) c.push_back(9);
      else hdr5(35, 1);
      break;
    case 'o':
      if (h4) c.push_back((uint8_t)pickv({2, 3, 4, 10, 11, 12}));
      else if (r.chance(50)) hdr5(pickv({36, 37, 38}), 1);
      else hdr5(pickv({2, 3, 4, 5, 6, 7, 8, 9}), r.range(2, 7));
      break;
    default:
      if (h4) c.push_back((uint8_t)((r.range(0, 3) << 5) | pickv({0, 14, 16, 19, 24, 28, 31})));
      else hdr5(pickv({10, 12, 15, 22, 23, 31, 41, 48, 63}), 1);
      break;
  }
  if (type == 'z') {
    Bytes pl;
    if (r.chance(50)) {
      // user_data_unregistered with another UUID (maybe almost the Signed Video one).
      pl = r.bytes(16 + r.below(size + 1));
      if (r.chance(50)) memcpy(pl.data(), kUuid, 16);
      pl[r.below(16)] ^= (uint8_t)(1 + r.below(255));
      if (memcmp(pl.data(), kUuid, 16) == 0) pl[0] ^= 1;
      c.push_back(5);
    } else {
      int t;
      do t = r.range(0, 200);
      while (t == 5);
      c.push_back((uint8_t)t);
      pl = r.bytes(1 + r.below(size + 1));
    }
    size_t left = pl.size();
    while (left >= 255) {
      c.push_back(255);
      left -= 255;
    }
    c.push_back((uint8_t)left);
    c.insert(c.end(), pl.begin(), pl.end());
  } else {
    uint8_t first = (uint8_t)r.next();
    if (type == 'I' || type == 'P') first |= 0x80;
    if (type == 'i' || type == 'p') first &= 0x7f;
    c.push_back(first);
    int mode = (int)r.below(4);
    for (size_t i = 0; i < size; i++) {
      uint8_t b = (uint8_t)r.next();
      if (mode == 1 && r.chance(60)) b = 0;
      if (mode == 2 && r.chance(50)) b = (uint8_t)r.below(4);
      c.push_back(b);
    }
  }
  c.push_back(0x80);
  // Units have at least two distinguishing bytes, so that no two units of a stream are identical.
  if (!r.chance(20)) c = add_epb(c);
  n.data = c;
  n.sc = 0;
  set_start_code(n, sc);
  return n;
}

// ---------------------------------------------------------------- Signing
std::string SignCfg::str() const
{
  return strf("%s %s %s%d hash=%s%s epb=%d golden=%d%s pubkey_in_sei=%d max_sei=%zu rec=%u product=%d "
              "ts=%d api=%d parts=%d eos=%d%s",
      codec == SV_CODEC_H264 ? "h264" : "h265",
      level == SV_AUTHENTICITY_LEVEL_FRAME ? "frame" : "gop", ec ? "ec" : "rsa", key_idx,
      hash.c_str(), set_hash ? "(set)" : "", sei_epb, golden, golden && golden_late ? "(late)" : "", pubkey_in_sei, max_sei, recurrence,
      product, timestamps, api, parts, eos, eos_before.empty() ? "" : strf("(%zu more)", eos_before.size()).c_str());
}

static const char *kHashes[] = {"sha256", "sha512", "sha384", "sha3-256", "sha3-512", "sha224", "sha1"};

SignCfg random_cfg(Rng &r)
{
  SignCfg c;
  c.codec = r.chance(50) ? SV_CODEC_H264 : SV_CODEC_H265;
  c.level = r.chance(50) ? SV_AUTHENTICITY_LEVEL_FRAME : SV_AUTHENTICITY_LEVEL_GOP;
  c.ec = r.chance(75);
  c.key_idx = r.range(0, key_count(c.ec) - 1);
  if (r.chance(35)) {
    c.set_hash = true;
    c.hash = c.ec ? kHashes[r.below(7)] : (r.chance(50) ? "sha256" : "sha3-256");
  }
  c.sei_epb = r.chance(65);
  c.golden = r.chance(15);
  c.golden_late = r.chance(40);
  c.recurrence = r.chance(25) ? (unsigned)r.range(1, 12) : 0;
  c.product = r.chance(80);
  c.timestamps = r.chance(70);
  c.api = (int)r.below(3);
  c.parts = r.chance(25);
  return c;
}

Stream random_video(Rng &r, SignedVideoCodec codec, const GopShape &sh)
{
  Stream v;
  int n_gops = r.range(sh.min_gops, sh.max_gops);
  int sc_mode = (int)r.below(4);  // 0: none 1: three 2: four 3: mixed
  auto sc = [&]() {
    static const int lens[] = {0, 3, 4};
    return sc_mode < 3 ? lens[sc_mode] : lens[r.below(3)];
  };
  int uid = 0;
  // Some videos have large units too.
  const int big = r.chance(sh.big) ? r.range(2, 25) : 0;
  auto add = [&](char t, int gop) {
    size_t size = r.chance(20) ? (size_t)r.range(4, 8) : (size_t)r.range(8, sh.max_size);
    if (big && r.chance(big)) {
      int k = r.range(0, 9);
      size = (size_t)(k < 3 ? r.range(1000, 40000) : k < 4 ? r.range(65530, 65540) : k < 7 ? r.range(66000, 300000) : r.range(1050000, 2200000));
    }
    Nalu n = make_nalu(r, codec, t, size, sc());
    n.uid = uid++;
    n.gop = gop;
    v.push_back(n);
  };
  bool longs = sh.longs && r.chance(sh.longs);
  if (longs) n_gops = std::min(n_gops, std::max(sh.min_gops, 3));
  int long_gop = longs ? (int)r.below((uint64_t)n_gops) : -1;
  int max_slices = longs || r.chance(60) ? 1 : sh.max_slices > 1 && r.chance(8) ? 20 : sh.max_slices;
  int extras = sh.extras ? (r.chance(50) ? 0 : r.range(5, 40)) : 0;
  auto extra = [&](int gop) {
    while (r.chance(extras)) {
      static const char k[] = "zv_oU";
      add(k[r.below(sh.allow_invalid ? 5 : 4)], gop);
    }
  };
  // The last round is the unfinished GOP at the end.
  for (int g = 0; g <= n_gops; g++) {
    extra(g - 1);
    add('I', g);
    for (int s = r.range(1, max_slices); s > 1; s--) add('i', g);
    int frames = r.chance(10) ? 0 : r.range(0, sh.max_frames);
    if (g == n_gops) frames = r.range(1, sh.max_frames);
    if (g == long_gop) frames = r.range(250, 290);
    for (int f = 0; f < frames; f++) {
      extra(g);
      add('P', g);
      for (int s = r.range(1, max_slices); s > 1; s--) add('p', g);
    }
  }
  return v;
}

#define OKRC(expr, what) \
  do { \
    SignedVideoReturnCode rc_ = (expr); \
    CHECK(rc_ == SV_OK, std::string("sign-api:") + what, "%s returned %d", what, (int)rc_); \
  } while (0)

Sv make_signer(const SignCfg &cfg)
{
  Sv sv(signed_video_create(cfg.codec));
  CHECK(sv != nullptr, "sign-api:create", "signed_video_create failed");
  const Key &k = key_get(cfg.ec, cfg.key_idx);
  OKRC(signed_video_set_private_key_new(sv.get(), k.pem.data(), k.pem.size()), "set_private_key");
  OKRC(signed_video_set_authenticity_level(sv.get(), cfg.level), "set_authenticity_level");
  if (cfg.set_hash) OKRC(signed_video_set_hash_algo(sv.get(), cfg.hash.c_str()), "set_hash_algo");
  OKRC(signed_video_set_sei_epb(sv.get(), cfg.sei_epb), "set_sei_epb");
  if (cfg.golden) OKRC(signed_video_set_using_golden_sei(sv.get(), true), "set_using_golden_sei");
  if (!cfg.pubkey_in_sei) OKRC(signed_video_add_public_key_to_sei(sv.get(), false), "add_public_key_to_sei");
  if (cfg.max_sei) OKRC(signed_video_set_max_sei_payload_size(sv.get(), cfg.max_sei), "set_max_sei_payload_size");
  if (cfg.recurrence) OKRC(signed_video_set_recurrence_interval_frames(sv.get(), cfg.recurrence), "set_recurrence");
  if (cfg.product)
    OKRC(signed_video_set_product_info(sv.get(), cfg.pi[0].c_str(), cfg.pi[1].c_str(),
             cfg.pi[2].c_str(), cfg.pi[3].c_str(), cfg.pi[4].c_str()),
        "set_product_info");
  return sv;
}

static Nalu sei_nalu(SignedVideoCodec codec, const uint8_t *d, size_t n)
{
  Nalu s;
  s.data.assign(d, d + n);
  s.sc = (int)start_code_len(d, n);
  s.type = classify(codec, d, n);
  return s;
}

SignedStream sign_video_with(Ctx &c, Rng &r, signed_video_t *sv, const SignCfg &cfg, const Stream &video)
{
  SignedStream out;
  int sei_gop = 0;
  size_t golden_at = 0;
  if (cfg.golden && cfg.golden_at_start && cfg.golden_late) {
    int i_frames = 0;
    size_t end = 0;
    for (; end < video.size(); end++)
      if (video[end].type == 'I' && ++i_frames > 1) break;
    golden_at = r.below(std::min(end, video.size() - 1) + 1);
  }
  int64_t ts = 1000000LL * (int64_t)r.range(1, 1000000);
  int64_t cur_ts = ts;
  int max_gop = -1;
  for (auto &n : video) max_gop = std::max(max_gop, n.gop);
  out.gop_uids.resize((size_t)(max_gop + 1));
  auto got_sei = [&](Nalu &&s) {
    CHECK(s.type == 'S' || s.type == 'G', "sign-api:not-a-sei", "Generated NAL Unit is no Signed Video SEI: %s", hexs(s.data).c_str());
    s.gop = s.type == 'G' ? -1 : sei_gop++;
    s.uid = -2 - (int)out.seis.size();
    out.seis.push_back(s);
    c.ev("seis_signed");
  };
  auto pull = [&](const Nalu *peek) {
    for (int guard = 0; guard < 1000; guard++) {
      size_t size = 0;
      unsigned pending = 0;
      int off = -1;
      Bytes pk = peek ? peek->data : Bytes();
      OKRC(signed_video_get_sei(sv, nullptr, &size, &off, peek ? pk.data() : nullptr, pk.size(), &pending), "get_sei");
      if (!size) break;
      Bytes buf(size);
      size_t size2 = 0;
      OKRC(signed_video_get_sei(sv, buf.data(), &size2, &off, peek ? pk.data() : nullptr, pk.size(), &pending), "get_sei");
      CHECK(size2 == size, "sign-api:sei-size", "SEI size changed between calls %zu %zu", size, size2);
      CHECK(off > 0 && (size_t)off + 16 <= size && memcmp(&buf[(size_t)off], kUuid, 16) == 0,
          "sign-api:payload-offset", "payload offset %d does not point at the payload", off);
      got_sei(sei_nalu(cfg.codec, buf.data(), buf.size()));
      out.s.push_back(out.seis.back());
    }
  };
  auto prepend = [&]() {
    for (int guard = 0; guard < 1000; guard++) {
      signed_video_nalu_to_prepend_t p;
      OKRC(signed_video_get_nalu_to_prepend(sv, &p), "get_nalu_to_prepend");
      if (p.prepend_instruction == SIGNED_VIDEO_PREPEND_NOTHING) break;
      Nalu s = sei_nalu(cfg.codec, p.nalu_data, p.nalu_data_size);
      signed_video_nalu_data_free(p.nalu_data);
      got_sei(std::move(s));
      out.s.push_back(out.seis.back());
    }
  };
  for (size_t i = 0; i < video.size(); i++) {
    const Nalu &n = video[i];
    if (n.type == 'I' || n.type == 'P') cur_ts += r.range(1, 100000);
    out.ts.push_back(cur_ts);
    if (n.picture() && n.gop >= 0) out.gop_uids[(size_t)n.gop].push_back(n.uid);
    if (cfg.golden && cfg.golden_at_start && i == golden_at) {
      OKRC(signed_video_generate_golden_sei(sv), "generate_golden_sei");
      // The latest SEI is the first one to prepend, hence get this one before there are more.
      if (cfg.api == 2) prepend();
    }
    if (n.type == 'I' && cfg.eos_before.count(n.gop)) {
      if (cfg.api == 0) pull(nullptr);
      OKRC(signed_video_set_end_of_stream(sv), "set_end_of_stream");
      if (cfg.api == 2) prepend();
      else pull(nullptr);
      c.ev("streams_ended_and_continued");
    }
    if (cfg.api == 0) pull(&n);
    const int64_t *tsp = cfg.timestamps ? &cur_ts : nullptr;
    if (cfg.parts && n.data.size() > 12 && !(n.type == 'z') && r.chance(70)) {
      size_t left = n.data.size(), pos = 0;
      int parts = r.range(2, 4);
      for (int p = 0; p < parts; p++) {
        bool last = p == parts - 1;
        // The first part holds at least the start code, the header and some more; no empty parts.
        size_t min_sz = p == 0 ? 8 : 1;
        size_t keep = (size_t)(parts - 1 - p);
        size_t sz = last || left <= min_sz + keep ? 0 : min_sz + r.below(left - min_sz - keep);
        if (last || sz == 0) {
          sz = left;
          last = true;
        }
        Bytes part(n.data.begin() + (long)pos, n.data.begin() + (long)(pos + sz));
        OKRC(signed_video_add_nalu_part_for_signing_with_timestamp(sv, part.data(), part.size(), tsp, last), "add_nalu_part_for_signing");
        pos += sz;
        left -= sz;
        c.ev("parts_added");
        if (last) break;
      }
    } else {
      Bytes d = n.data;
      OKRC(signed_video_add_nalu_for_signing_with_timestamp(sv, d.data(), d.size(), tsp), "add_nalu_for_signing");
    }
    c.ev("units_signed");
    if (cfg.api == 1) pull(nullptr);
    if (cfg.api == 2) prepend();
    out.s.push_back(n);
  }
  if (cfg.eos) {
    if (cfg.api == 0) pull(nullptr);
    OKRC(signed_video_set_end_of_stream(sv), "set_end_of_stream");
    if (cfg.api == 2) prepend();
    else pull(nullptr);
  }
  return out;
}

void random_eos(Rng &r, SignCfg &cfg, const Stream &video)
{
  int last = 0;
  for (auto &n : video) last = std::max(last, n.gop);
  if (last < 1) return;
  for (int k = r.range(1, 2); k > 0; k--) cfg.eos_before.insert(r.range(1, last));
}

SignedStream sign_video(Ctx &c, Rng &r, const SignCfg &cfg, const Stream &video)
{
  Sv sv = make_signer(cfg);
  return sign_video_with(c, r, sv.get(), cfg, video);
}

Stream delay_seis(Rng &r, const Stream &s, int max_delay)
{
  // Move every SEI up to |max_delay| units later, in front of a primary slice, keeping their order.
  Stream out;
  std::vector<std::pair<size_t, Nalu>> waiting;  // due index
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i].type == 'S') {
      size_t due = i + r.below((uint64_t)max_delay + 1);
      if (!waiting.empty() && due < waiting.back().first) due = waiting.back().first;
      waiting.push_back({due, s[i]});
      continue;
    }
    if (s[i].type == 'I' || s[i].type == 'P') {
      while (!waiting.empty() && waiting.front().first <= i) {
        out.push_back(waiting.front().second);
        waiting.erase(waiting.begin());
      }
    }
    out.push_back(s[i]);
  }
  for (auto &w : waiting) out.push_back(w.second);
  return out;
}

// ---------------------------------------------------------------- Validation
const char *auth_name(int a)
{
  static const char *names[] = {"NOT_SIGNED", "SIGNATURE_PRESENT", "NOT_OK", "OK_WITH_MISSING_INFO", "OK", "VERSION_MISMATCH"};
  return a >= 0 && a < 6 ? names[a] : "??";
}

std::string Report::str() const
{
  return strf("@%zu %s exp=%d rec=%d pend=%d key_changed=%d pubkey=%d ts=%s\n    %s\n    %s\n    acc %s rec=%u val=%u "
              "pend=%u key_changed=%d pubkey=%d ver=%s",
      after, auth_name(auth), expected, received, pending, key_changed, pubkey,
      has_ts ? std::to_string(ts).c_str() : "-", nstr.c_str(), vstr.c_str(), auth_name(acc_auth),
      acc_received, acc_validated, acc_pending, acc_key_changed, acc_pubkey, ver_sign.c_str());
}

bool Report::operator==(const Report &o) const
{
  for (int i = 0; i < 5; i++)
    if (pi[i] != o.pi[i] || pi_null[i] != o.pi_null[i]) return false;
  return after == o.after && auth == o.auth && key_changed == o.key_changed && expected == o.expected &&
      received == o.received && pending == o.pending && vstr == o.vstr && nstr == o.nstr &&
      pubkey == o.pubkey && has_ts == o.has_ts && (!has_ts || ts == o.ts) && acc_auth == o.acc_auth &&
      acc_key_changed == o.acc_key_changed && acc_received == o.acc_received &&
      acc_validated == o.acc_validated && acc_pending == o.acc_pending && acc_pubkey == o.acc_pubkey &&
      acc_has_ts == o.acc_has_ts && (!acc_has_ts || (first_ts == o.first_ts && last_ts == o.last_ts)) &&
      ver_sign == o.ver_sign && ver_this == o.ver_this;
}

Report to_report(const signed_video_authenticity_t *a, size_t after)
{
  Report p;
  const auto &l = a->latest_validation;
  const auto &t = a->accumulated_validation;
  p.after = after;
  p.auth = l.authenticity;
  p.key_changed = l.public_key_has_changed;
  p.expected = l.number_of_expected_picture_nalus;
  p.received = l.number_of_received_picture_nalus;
  p.pending = l.number_of_pending_picture_nalus;
  p.vstr = l.validation_str ? l.validation_str : "";
  p.nstr = l.nalu_str ? l.nalu_str : "";
  p.pubkey = l.public_key_validation;
  p.has_ts = l.has_timestamp;
  p.ts = l.timestamp;
  p.acc_auth = t.authenticity;
  p.acc_key_changed = t.public_key_has_changed;
  p.acc_received = t.number_of_received_nalus;
  p.acc_validated = t.number_of_validated_nalus;
  p.acc_pending = t.number_of_pending_nalus;
  p.acc_pubkey = t.public_key_validation;
  p.acc_has_ts = t.has_timestamp;
  p.first_ts = t.first_timestamp;
  p.last_ts = t.last_timestamp;
  p.ver_sign = a->version_on_signing_side ? a->version_on_signing_side : "";
  p.ver_this = a->this_version ? a->this_version : "";
  const char *pi[5] = {a->product_info.hardware_id, a->product_info.firmware_version,
      a->product_info.serial_number, a->product_info.manufacturer, a->product_info.address};
  for (int i = 0; i < 5; i++) {
    p.pi_null[i] = !pi[i];
    p.pi[i] = pi[i] ? pi[i] : "";
  }
  return p;
}

void map_statuses(const Stream &s, ValRun &run)
{
  run.status.assign(s.size(), '-');
  run.status_hist.assign(s.size(), "");
  run.resolved_in.assign(s.size(), -1);
  run.missing_marks = 0;
  for (size_t k = 0; k < run.reports.size(); k++) {
    const Report &p = run.reports[k];
    if (p.vstr.size() != p.nstr.size()) continue;
    long j = (long)p.after;
    for (long i = (long)p.vstr.size() - 1; i >= 0; i--) {
      if (p.nstr[(size_t)i] == ' ') {
        run.missing_marks++;
        continue;
      }
      if (j < 0) break;
      char st = p.vstr[(size_t)i];
      run.status[(size_t)j] = st;
      run.status_hist[(size_t)j] += st;
      if (st != 'P' && run.resolved_in[(size_t)j] < 0) run.resolved_in[(size_t)j] = (int)k;
      if (st == 'P') run.resolved_in[(size_t)j] = -1;
      j--;
    }
  }
}

ValRun validate_with(Ctx &c, signed_video_t *sv, SignedVideoCodec codec, const Stream &s, size_t base)
{
  (void)codec;
  ValRun run;
  for (size_t i = 0; i < s.size(); i++) {
    signed_video_authenticity_t *a = nullptr;
    Bytes d = s[i].data;
    d.shrink_to_fit();
    SignedVideoReturnCode rc = signed_video_add_nalu_and_authenticate(sv, d.data(), d.size(), &a);
    run.rc.push_back((int)rc);
    c.ev("units_validated");
    if (a) {
      run.reports.push_back(to_report(a, i + base));
      signed_video_authenticity_report_free(a);
      c.ev("reports");
      c.ev(std::string("report:") + auth_name(run.reports.back().auth));
      if (c.verbose) fprintf(stderr, "%s\n", run.reports.back().str().c_str());
    }
  }
  return run;
}

ValRun validate(Ctx &c, const SignCfg &cfg, const Stream &s, const char *pubkey)
{
  Sv sv(signed_video_create(cfg.codec));
  CHECK(sv != nullptr, "val-api:create", "signed_video_create failed");
  if (pubkey) {
    SignedVideoReturnCode rc = signed_video_set_public_key(sv.get(), pubkey, strlen(pubkey));
    CHECK(rc == SV_OK, "val-api:set_public_key", "set_public_key returned %d", rc);
  }
  ValRun run = validate_with(c, sv.get(), cfg.codec, s);
  signed_video_authenticity_t *a = signed_video_get_authenticity_report(sv.get());
  if (a) {
    run.has_final = true;
    run.final_report = to_report(a, s.empty() ? 0 : s.size() - 1);
    signed_video_authenticity_report_free(a);
  }
  map_statuses(s, run);
  return run;
}

// ---------------------------------------------------------------- SEI reference parser
Sei parse_sei(SignedVideoCodec codec, const Bytes &data)
{
  Sei s;
  auto bad = [&](const std::string &e) {
    s.ok = false;
    s.err = e;
    return s;
  };
  size_t sc = start_code_len(data.data(), data.size());
  size_t end = data.size();
  while (end > sc && data[end - 1] == 0) end--;
  s.core.assign(data.begin() + (long)sc, data.begin() + (long)end);
  const Bytes &c = s.core;
  size_t p = 0;
  if (codec == SV_CODEC_H264) {
    if (c.size() < 4 || c[0] != 0x06) return bad("not a SEI header");
    p = 1;
  } else {
    if (c.size() < 5 || c[0] != 0x4e || c[1] != 0x01) return bad("not a SEI header");
    p = 2;
  }
  if (c[p++] != 5) return bad("not user_data_unregistered");
  size_t ps = 0;
  while (p < c.size() && c[p] == 0xff) {
    ps += 255;
    p++;
  }
  if (p >= c.size()) return bad("size field out of bounds");
  ps += c[p++];
  s.payload_off = p;
  s.payload_size = ps;
  size_t total = p + ps + 1;
  std::vector<size_t> map;  // rbsp index -> core index
  if (c.size() == total) {
    s.rbsp = c;
    for (size_t i = 0; i < c.size(); i++) map.push_back(i);
  } else {
    int zeros = 0;
    for (size_t i = 0; i < c.size(); i++) {
      if (zeros >= 2 && c[i] == 3) {
        zeros = 0;
        continue;
      }
      s.rbsp.push_back(c[i]);
      map.push_back(i);
      zeros = c[i] == 0 ? zeros + 1 : 0;
    }
    if (s.rbsp.size() != total)
      return bad(strf("payload size %zu does not match the data (%zu of %zu)", ps, s.rbsp.size(), total));
  }
  const Bytes &b = s.rbsp;
  if (b.back() != 0x80) return bad("no stop bit byte at the end");
  if (ps < 17 || memcmp(&b[p], kUuid, 16) != 0) return bad("wrong UUID");
  s.reserved = b[p + 16];
  s.epb = s.reserved & 0x80;
  s.golden = s.reserved & 0x40;
  size_t q = p + 17;
  size_t lim = p + ps;
  size_t sig_tag = 0;
  while (q < lim) {
    Tlv t;
    size_t tag_at = q;
    t.off = q - (p + 17);
    t.tag = b[q++];
    size_t ll = (t.tag == T_GENERAL || t.tag == T_CRYPTO) ? 1 : 2;
    if (q + ll > lim) return bad("TLV length out of bounds");
    size_t len = b[q++];
    if (ll == 2) len = len << 8 | b[q++];
    if (q + len > lim) return bad(strf("TLV %d value out of bounds", t.tag));
    t.val.assign(b.begin() + (long)q, b.begin() + (long)(q + len));
    q += len;
    if (t.tag == T_SIGNATURE) sig_tag = tag_at;
    if (s.find(t.tag)) return bad(strf("TLV %d repeated", t.tag));
    s.tlvs.push_back(t);
  }
  if (q != lim) return bad("TLVs do not fill the payload");
  if (!sig_tag || s.tlvs.back().tag != T_SIGNATURE) return bad("no signature at the end");
  s.doc_len_in_core = map[sig_tag];
  if (s.epb) s.doc.assign(c.begin(), c.begin() + (long)map[sig_tag]);
  else s.doc.assign(b.begin(), b.begin() + (long)sig_tag);
  {
    const Bytes &v = s.tlvs.back().val;
    if (v.size() < 5) return bad("short signature TLV");
    size_t n = (size_t)v[3] << 8 | v[4];
    if (5 + n > v.size()) return bad("signature out of bounds");
    s.signature.assign(v.begin() + 5, v.begin() + 5 + (long)n);
    s.sig_off_in_core = map[sig_tag + 3 + 5];
  }
  if (const Tlv *t = s.find(T_GENERAL)) {
    const Bytes &v = t->val;
    if (v.size() < 11) return bad("short GENERAL");
    s.has_general = true;
    s.gen_version = v[0];
    s.gop_counter = (uint32_t)v[1] << 24 | (uint32_t)v[2] << 16 | (uint32_t)v[3] << 8 | v[4];
    s.num_nalus = (unsigned)v[5] << 8 | v[6];
    for (int i = 0; i < 3; i++) s.ver[i] = v[7 + (size_t)i];
    s.has_ts = v[10] & 1;
    size_t o = 11;
    if (s.has_ts) {
      if (v.size() < o + 8) return bad("short GENERAL");
      uint64_t x = 0;
      for (int i = 0; i < 8; i++) x = x << 8 | v[o++];
      s.ts = (int64_t)x;
    }
    size_t hs = (v.size() - o) / 2;
    if ((v.size() - o) % 2) return bad("odd hashes in GENERAL");
    s.linked_hash.assign(v.begin() + (long)o, v.begin() + (long)(o + hs));
    s.gop_hash.assign(v.begin() + (long)(o + hs), v.end());
  }
  if (const Tlv *t = s.find(T_HASHLIST)) {
    s.has_hash_list = true;
    if (t->val.empty()) return bad("empty hash list TLV");
    s.hash_list.assign(t->val.begin() + 1, t->val.end());
  }
  if (const Tlv *t = s.find(T_PUBKEY)) {
    s.has_pubkey = true;
    if (t->val.empty()) return bad("empty public key TLV");
    s.pubkey.assign(t->val.begin() + 1, t->val.end());
  }
  if (const Tlv *t = s.find(T_PRODUCT)) {
    s.has_product = true;
    const Bytes &v = t->val;
    size_t o = 1;
    for (int i = 0; i < 5; i++) {
      if (o >= v.size()) return bad("short product info");
      size_t n = v[o++];
      if (o + n > v.size()) return bad("product info out of bounds");
      s.pi[i].assign(v.begin() + (long)o, v.begin() + (long)(o + n));
      o += n;
    }
    if (o != v.size()) return bad("trailing product info");
  }
  if (const Tlv *t = s.find(T_CRYPTO)) {
    s.has_crypto = true;
    const Bytes &v = t->val;
    if (v.size() < 2 || (size_t)v[1] + 2 != v.size()) return bad("bad crypto info");
    const unsigned char *pp = v.data() + 2;
    ASN1_OBJECT *o = d2i_ASN1_OBJECT(nullptr, &pp, (long)v.size() - 2);
    if (!o) return bad("crypto info holds no OID");
    const EVP_MD *md = EVP_get_digestbyobj(o);
    ASN1_OBJECT_free(o);
    if (!md) return bad("crypto info OID is no digest");
    s.hash_algo = EVP_MD_get0_name(md);
  }
  s.ok = true;
  return s;
}

size_t sig_room(const Key &k)
{
  BIO *bp = BIO_new_mem_buf(k.pub.data(), (int)k.pub.size());
  EVP_PKEY *pk = PEM_read_bio_PUBKEY(bp, nullptr, nullptr, nullptr);
  BIO_free(bp);
  size_t n = pk ? (size_t)EVP_PKEY_get_size(pk) : 0;
  EVP_PKEY_free(pk);
  return n;
}

Bytes sign_digest(const Key &k, const Bytes &dig)
{
  BIO *bp = BIO_new_mem_buf(k.pem.data(), (int)k.pem.size());
  EVP_PKEY *pk = PEM_read_bio_PrivateKey(bp, nullptr, nullptr, nullptr);
  BIO_free(bp);
  EVP_PKEY_CTX *ctx = EVP_PKEY_CTX_new(pk, nullptr);
  EVP_PKEY_sign_init(ctx);
  if (!k.ec) {
    EVP_PKEY_CTX_set_rsa_padding(ctx, RSA_PKCS1_PADDING);
    EVP_PKEY_CTX_set_signature_md(ctx, EVP_sha256());
  }
  size_t n = 0;
  EVP_PKEY_sign(ctx, nullptr, &n, dig.data(), dig.size());
  Bytes sig(n);
  if (EVP_PKEY_sign(ctx, sig.data(), &n, dig.data(), dig.size()) <= 0) n = 0;
  sig.resize(n);
  EVP_PKEY_CTX_free(ctx);
  EVP_PKEY_free(pk);
  return sig;
}

Bytes unit_hash(const std::string &algo, const Bytes &core, const Bytes *ref)
{
  Bytes h = digest(algo, core);
  if (!ref) return h;
  Bytes both = *ref;
  both.insert(both.end(), h.begin(), h.end());
  return digest(algo, both);
}

Bytes build_sei(SignedVideoCodec codec, uint8_t reserved, std::vector<Tlv> tlvs, const Key *key, const std::string &algo, bool epb)
{
  size_t max_sig = 0;
  if (key) {
    if (tlvs.empty() || tlvs.back().tag != T_SIGNATURE) {
      Tlv t;
      t.tag = T_SIGNATURE;
      t.off = 0;
      tlvs.push_back(t);
    }
    // Keep the room of the old signature if there is one.
    Bytes &v = tlvs.back().val;
    max_sig = sig_room(*key);
    if (v.size() > 5) max_sig = v.size() - 5;
    v.assign(5 + max_sig, 1);
    v[0] = 1;
    v[1] = 0;
    v[2] = 1;
  }
  Bytes b;
  if (codec == SV_CODEC_H264) b = {6, 5};
  else b = {0x4e, 1, 5};
  Bytes pl(kUuid, kUuid + 16);
  pl.push_back(reserved);
  size_t sig_at = 0;
  for (auto &t : tlvs) {
    if (t.tag == T_SIGNATURE) sig_at = pl.size();
    pl.push_back((uint8_t)t.tag);
    if (!(t.tag == T_GENERAL || t.tag == T_CRYPTO)) pl.push_back((uint8_t)(t.val.size() >> 8));
    pl.push_back((uint8_t)t.val.size());
    pl.insert(pl.end(), t.val.begin(), t.val.end());
  }
  size_t left = pl.size();
  while (left >= 255) {
    b.push_back(255);
    left -= 255;
  }
  b.push_back((uint8_t)left);
  size_t off = b.size();
  b.insert(b.end(), pl.begin(), pl.end());
  if (key) {
    Bytes doc(b.begin(), b.begin() + (long)(off + sig_at));
    if (reserved & 0x80) {
      // The emulation prevention bytes up to the signature tag; none is put in front of the tag (5).
      doc = add_epb(doc);
    }
    Bytes sig = sign_digest(*key, digest(algo, doc));
    if (sig.size() > max_sig) sig.resize(max_sig);
    size_t p = off + sig_at + 3;
    b[p + 3] = (uint8_t)(sig.size() >> 8);
    b[p + 4] = (uint8_t)sig.size();
    memcpy(&b[p + 5], sig.data(), sig.size());
  }
  b.push_back(0x80);
  if (epb) b = add_epb(b);
  Bytes out = {0, 0, 0, 1};
  out.insert(out.end(), b.begin(), b.end());
  return out;
}

// ---------------------------------------------------------------- Registry
std::vector<Prop> &registry()
{
  static std::vector<Prop> v;
  return v;
}
Register::Register(const char *id, CaseFn fn) { registry().push_back({id, fn}); }

// ---------------------------------------------------------------- Oracle of an intact stream
void check_counters(Ctx &c, const Stream &s, const ValRun &run)
{
  std::vector<int> judged(run.reports.size(), 0);
  for (size_t i = 0; i < s.size(); i++)
    if (s[i].picture() && run.resolved_in[i] >= 0 && run.status[i] == '.') judged[(size_t)run.resolved_in[i]]++;
  for (size_t k = 0; k < run.reports.size(); k++) {
    const Report &p = run.reports[k];
    if (p.auth != SV_AUTH_RESULT_OK) continue;
    CHECK(p.received == judged[k], "counter-received", "the report @%zu has %d received picture units, but %d became authentic: %s", p.after, p.received, judged[k], p.vstr.c_str());
    CHECK(p.expected == judged[k] || p.expected == -1, "counter-expected", "the report @%zu has %d expected picture units, and %d became authentic: %s", p.after, p.expected, judged[k], p.vstr.c_str());
    c.ev("counters_checked");
  }
}

void check_intact(Ctx &c, size_t n_gops, const Stream &s, const ValRun &run)
{
  size_t last_sei = 0;
  bool any = false;
  for (size_t i = 0; i < s.size(); i++) {
    CHECK(run.rc[i] == SV_OK, "rc", "unit %zu (%c) was not accepted: %d", i, s[i].type, run.rc[i]);
    if (s[i].type == 'S') last_sei = i, any = true;
  }
  CHECK(any, "no-sei", "no SEI generated for %zu GOPs", n_gops);
  CHECK(!run.reports.empty(), "no-report", "no report");
  bool seen_ok = false;
  for (auto &p : run.reports) {
    for (char ch : p.vstr)
      CHECK(ch != 'N' && ch != 'M' && ch != 'E', "bad-status", "intact stream got status %c in %s", ch, p.vstr.c_str());
    CHECK(!p.key_changed && !p.acc_key_changed, "key-changed", "key change reported on an intact stream");
    if (p.auth == SV_AUTH_RESULT_OK) {
      seen_ok = true;
      CHECK(p.expected == p.received, "expected-received", "expected %d received %d", p.expected, p.received);
      CHECK(p.acc_auth == SV_AUTH_RESULT_OK, "acc", "accumulated %s after OK", auth_name(p.acc_auth));
    } else if (!seen_ok) {
      CHECK(p.auth == SV_AUTH_RESULT_NOT_SIGNED || p.auth == SV_AUTH_RESULT_SIGNATURE_PRESENT, "early", "%s on an intact stream", auth_name(p.auth));
    } else {
      CHECK(p.auth == SV_AUTH_RESULT_OK, "late", "%s on an intact stream", auth_name(p.auth));
    }
  }
  CHECK(seen_ok, "never-ok", "intact stream never validated OK");
  // Every picture unit of a GOP with a delivered SEI ends up authentic.
  std::set<int> signed_gops;
  for (size_t i = 0; i < s.size(); i++)
    if (s[i].type == 'S') signed_gops.insert(s[i].gop);
  size_t dots = 0;
  for (size_t i = 0; i < s.size(); i++) {
    const Nalu &n = s[i];
    // When all SEIs come first-in-first-out the last one closes the books.
    if (n.picture() && signed_gops.count(n.gop)) {
      CHECK(run.status[i] == '.', "picture-status", "unit %zu (%c, GOP %d) of an intact GOP got '%c' (%s)", i, n.type, n.gop, run.status[i], run.status_hist[i].c_str());
      dots++;
    } else if (n.sv_sei()) {
      CHECK(run.status[i] == '.', "sei-status", "SEI %zu got '%c'", i, run.status[i]);
    } else if (i < last_sei && !n.picture()) {
      CHECK(run.status[i] == (n.type == 'U' ? 'U' : '_'), "other-status", "unit %zu (%c) got '%c'", i, n.type, run.status[i]);
    }
  }
  CHECK(run.has_final && run.final_report.acc_auth == SV_AUTH_RESULT_OK, "final", "final accumulated result is not OK");
  CHECK(run.final_report.acc_received == s.size(), "final-received", "received %u of %zu", run.final_report.acc_received, s.size());
  c.ev("authentic_pictures", dots);
  c.ev("gops_signed", signed_gops.size());
}

void set_version(Stream &s, const SignCfg &cfg, const int *ver)
{
  for (auto &n : s) {
    if (!n.sv_sei()) continue;
    Sei p = parse_sei(cfg.codec, n.data);
    CHECK(p.ok, "malformed", "malformed SEI: %s", p.err.c_str());
    std::vector<Tlv> l = p.tlvs;
    for (auto &x : l)
      if (x.tag == T_GENERAL)
        for (int i = 0; i < 3; i++) x.val[(size_t)(7 + i)] = (uint8_t)ver[i];
    n.data = build_sei(cfg.codec, p.reserved, l, &key_get(cfg.ec, cfg.key_idx), cfg.hash, p.epb);
    n.sc = 4;
  }
}

void renumber(Stream &s, const SignCfg &cfg, uint32_t delta)
{
  for (auto &n : s) {
    if (!n.sv_sei()) continue;
    Sei p = parse_sei(cfg.codec, n.data);
    CHECK(p.ok, "malformed", "malformed SEI: %s", p.err.c_str());
    std::vector<Tlv> l = p.tlvs;
    bool found = false;
    for (auto &x : l)
      if (x.tag == T_GENERAL) {
        uint32_t v = p.gop_counter + delta;
        for (int i = 0; i < 4; i++) x.val[(size_t)(1 + i)] = (uint8_t)(v >> (24 - 8 * i));
        found = true;
      }
    if (!found) continue;
    n.data = build_sei(cfg.codec, p.reserved, l, &key_get(cfg.ec, cfg.key_idx), cfg.hash, p.epb);
    n.sc = 4;
  }
}

bool maybe_wraparound(Ctx &c, Rng &r, Stream &s, const SignCfg &cfg, size_t gops, int percent)
{
  if (!r.chance(percent)) return false;
  uint32_t d = (uint32_t)(0 - (uint32_t)r.range(0, (int)gops + 1));
  renumber(s, cfg, d);
  c.ev("gop_counter_wraparound");
  c.log("GOP counter starts at %u", d);
  return true;
}
