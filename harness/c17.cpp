// C17: unsigned video is reported as not signed.
#include "mangle.hpp"

// A SEI which is almost, but not, a Signed Video SEI.
static Nalu near_miss(Rng &r, SignedVideoCodec codec, std::string &what)
{
  Nalu n;
  n.type = 'z';
  Bytes core;
  if (codec == SV_CODEC_H264) core = {(uint8_t)(r.chance(80) ? 0x06 : 0x26)};
  else core = {0x4e, 0x01};
  Bytes uuid(kUuid, kUuid + 16);
  int kind = (int)r.below(5);
  uint8_t type = 5;
  size_t body = (size_t)r.range(20, 300);
  if (kind == 0) {  // One bit of the UUID differs.
    uuid[r.below(16)] ^= (uint8_t)(1 << r.below(8));
    what += "uuid-bit ";
  } else if (kind == 1) {  // Another payload type.
    do type = (uint8_t)r.below(255);
    while (type == 5);
    what += "payload-type ";
  } else if (kind == 2) {  // Cut within the UUID.
    body = 0;
    uuid.resize(r.below(16));
    what += "cut ";
  } else if (kind == 3) {  // The UUID at another position.
    Bytes pre = r.bytes(1 + r.below(4));
    for (auto &x : pre) x |= 1;
    uuid.insert(uuid.begin(), pre.begin(), pre.end());
    uuid[0] = 0x54;
    what += "uuid-moved ";
  } else {
    uuid = r.bytes(16);
    for (auto &x : uuid) x |= 1;
    what += "other-uuid ";
  }
  size_t size = uuid.size() + body;
  core.push_back(type);
  size_t left = kind == 2 ? 16 + r.below(100) : size;
  while (left >= 255) core.push_back(255), left -= 255;
  core.push_back((uint8_t)left);
  core.insert(core.end(), uuid.begin(), uuid.end());
  Bytes b = r.bytes(body);
  core.insert(core.end(), b.begin(), b.end());
  core.push_back(0x80);
  core = add_epb(core);
  static const int k[] = {0, 3, 4};
  n.data = core;
  n.sc = 0;
  set_start_code(n, k[r.below(3)]);
  n.uid = -1;
  return n;
}

PROPERTY(C17)
{
  SignedVideoCodec codec = r.chance(50) ? SV_CODEC_H264 : SV_CODEC_H265;
  GopShape sh;
  sh.min_gops = 1;
  sh.max_gops = r.chance(10) ? 40 : 7;
  sh.max_size = 120;
  Stream s = random_video(r, codec, sh);
  std::string what;
  int n_extra = r.chance(30) ? 0 : r.range(1, 8);
  for (int i = 0; i < n_extra; i++) {
    Nalu n = near_miss(r, codec, what);
    CHECK(classify(codec, n.data.data(), n.data.size()) != 'S' && classify(codec, n.data.data(), n.data.size()) != 'G', "harness:near-miss", "not a near miss");
    n.type = classify(codec, n.data.data(), n.data.size());
    s.insert(s.begin() + (long)r.below(s.size() + 1), n);
  }
  if (r.chance(20)) {
    int k = r.range(1, 4);
    for (int i = 0; i < k; i++) {
      Nalu g = garbage_nalu(r, codec);
      g.type = classify(codec, g.data.data(), g.data.size());
      if (g.type == 'S' || g.type == 'G') continue;
      s.insert(s.begin() + (long)r.below(s.size() + 1), g);
    }
    what += "garbage ";
  }
  c.log("%d %s %s", codec, what.c_str(), types_of(s).c_str());
  Sv sv(signed_video_create(codec));
  CHECK(sv != nullptr, "create", "create failed");
  if (r.chance(30)) {
    const Key &k = key_get(r.chance(50), 0);
    CHECK(signed_video_set_public_key(sv.get(), k.pub.data(), k.pub.size()) == SV_OK, "set_public_key", "failed");
    what += "key ";
  }
  size_t n_i = 0, n_reports = 0;
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i].type == 'I') n_i++;
    Bytes d = s[i].data;
    signed_video_authenticity_t *a = nullptr;
    SignedVideoReturnCode rc = signed_video_add_nalu_and_authenticate(sv.get(), d.data(), d.size(), &a);
    if (s[i].uid != -1 && s[i].type != 'U') CHECK(rc == SV_OK, "unit-refused", "unit %zu refused: %d", i, rc);
    bool asked = false;
    if (!a && r.chance(10)) {
      a = signed_video_get_authenticity_report(sv.get());
      asked = true;
    }
    if (!a) continue;
    Report p = to_report(a, i);
    signed_video_authenticity_report_free(a);
    c.log("%s", p.str().c_str());
    if (!asked) n_reports++;
    c.ev("reports");
    CHECK(p.auth == SV_AUTH_RESULT_NOT_SIGNED, "presented-as-signed", "unsigned video is reported as %s", auth_name(p.auth));
    CHECK(p.acc_auth == SV_AUTH_RESULT_NOT_SIGNED, "accumulated-as-signed", "unsigned video is accumulated as %s", auth_name(p.acc_auth));
    for (size_t k = 0; k < p.vstr.size(); k++) {
      CHECK(!strchr(".NM", p.vstr[k]), "unit-judged", "a unit of an unsigned video is marked '%c': %s %s", p.vstr[k], p.nstr.c_str(), p.vstr.c_str());
      c.ev("unit_marks");
    }
    CHECK(!p.acc_key_changed && !p.key_changed, "key-changed", "a key change in an unsigned video");
    CHECK(!p.has_ts && !p.acc_has_ts, "timestamp", "a timestamp in an unsigned video");
    CHECK(p.acc_validated == 0, "validated", "%u units validated in an unsigned video", p.acc_validated);
    CHECK(p.acc_received == i + 1, "received", "%u of %zu", p.acc_received, i + 1);
    CHECK(p.ver_sign.empty(), "signing-version", "signing version %s in an unsigned video", p.ver_sign.c_str());
    for (int k = 0; k < 5; k++) CHECK(p.pi[k].empty(), "product-info", "product information in an unsigned video");
  }
  if (n_i >= 3) CHECK(n_reports > 0, "never-reported", "no report for an unsigned video with %zu GOPs", n_i);
  c.ev("near_misses", (uint64_t)n_extra);
  c.seen(strf("%d ", codec) + what + types_of(s));
  c.sample(what + types_of(s));
}
