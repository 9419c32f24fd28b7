// C25: versions are ordered by major, minor and patch, and a stream from a newer version is flagged.
#include <algorithm>

#include "hostile.hpp"

namespace {
struct Ver {
  long long n[3];
  std::string s;
};

long long num(Rng &r)
{
  switch (r.below(8)) {
    case 0: return 0;
    case 1: return r.range(0, 3);
    case 2: return 255 + r.range(-2, 2);
    case 3: return r.chance(50) ? 2147483647LL : 2147483646LL;
    case 4: return (long long)r.below(2147483648ULL);
    case 5: return r.range(8, 12);
    default: return r.range(0, 40);
  }
}

Ver make_ver(Rng &r, const Ver *near)
{
  Ver v;
  for (int i = 0; i < 3; i++) v.n[i] = num(r);
  if (near && r.chance(70)) {
    for (int i = 0; i < 3; i++) v.n[i] = near->n[i];
    if (r.chance(80)) {
      int k = (int)r.below(3);
      v.n[k] = std::max(0LL, std::min(2147483647LL, v.n[k] + r.range(-1, 1)));
      if (r.chance(30)) v.n[(k + 1) % 3] = num(r);
    }
  }
  static const std::vector<std::string> suffix = {"", "", "", "-rc1", "-beta", ".4", " ", "+build", "\n", "-17-gabcdef"};
  v.s = strf("v%lld.%lld.%lld", v.n[0], v.n[1], v.n[2]) + r.pick(suffix);
  return v;
}

int order(const Ver &a, const Ver &b)
{
  for (int i = 0; i < 3; i++)
    if (a.n[i] != b.n[i]) return a.n[i] > b.n[i] ? 1 : 2;
  return 0;
}

std::string malformed(Rng &r)
{
  static const std::vector<std::string> k = {"", "v", "1.2.3", "v1", "v1.", "v1.2", "v1.2.", "v1..3", "v.2.3", "version", "V1.2.3", "xv1.2.3", "v1.2.x", "va.b.c",
      "v1,2,3", "v1-2-3", "v1.2-3", "vv1.2.3", "v1.x.3"};
  return r.pick(k);
}

int cmp(Ctx &c, const std::string &a, const std::string &b)
{
  // Blocks of the exact size, such that any read outside is seen.
  std::unique_ptr<char[]> x(new char[a.size() + 1]), y(new char[b.size() + 1]);
  memcpy(x.get(), a.c_str(), a.size() + 1);
  memcpy(y.get(), b.c_str(), b.size() + 1);
  int v = signed_video_compare_versions(x.get(), y.get());
  c.ev("pairs_compared");
  CHECK(v >= -1 && v <= 2, "undocumented", "comparing '%s' and '%s' gave %d", a.c_str(), b.c_str(), v);
  return v;
}

void strings(Ctx &c, Rng &r)
{
  for (int k = 0; k < 200; k++) {
    Ver a = make_ver(r, nullptr), b = make_ver(r, &a), d = make_ver(r, r.chance(50) ? &a : &b);
    int ab = cmp(c, a.s, b.s), ba = cmp(c, b.s, a.s), bd = cmp(c, b.s, d.s), ad = cmp(c, a.s, d.s);
    CHECK(ab == order(a, b), "order", "comparing '%s' and '%s' gave %d", a.s.c_str(), b.s.c_str(), ab);
    CHECK(ba == order(b, a), "order", "comparing '%s' and '%s' gave %d", b.s.c_str(), a.s.c_str(), ba);
    CHECK(bd == order(b, d), "order", "comparing '%s' and '%s' gave %d", b.s.c_str(), d.s.c_str(), bd);
    CHECK(ad == order(a, d), "order", "comparing '%s' and '%s' gave %d", a.s.c_str(), d.s.c_str(), ad);
    c.ev(ab == 0 ? "equal" : ab == 1 ? "newer" : "older");
    std::string m = malformed(r);
    CHECK(cmp(c, m, a.s) == -1 && cmp(c, a.s, m) == -1, "malformed-accepted", "'%s' was accepted", m.c_str());
    // Numbers which are no versions: any answer, as long as the two orders agree.
    std::string odd = "v";
    for (int i = 0; i < 3; i++) {
      if (i) odd += '.';
      static const std::vector<std::string> w = {"-1", "-2147483648", "2147483647", "4294967296", "99999999999999999999", "-99999999999999999999", " 3", "+7", "0x10"};
      odd += r.chance(60) ? r.pick(w) : std::to_string(num(r));
    }
    int x = cmp(c, odd, a.s), y = cmp(c, a.s, odd);
    CHECK((x == -1 && y == -1) || (x == 0 && y == 0) || (x == 1 && y == 2) || (x == 2 && y == 1), "antisymmetry", "comparing '%s' and '%s' gave %d, and %d the other way", odd.c_str(), a.s.c_str(), x, y);
    CHECK(cmp(c, a.s, a.s) == 0, "reflexive", "'%s' differs from itself", a.s.c_str());
    c.seen(a.s + b.s + odd);
  }
  CHECK(signed_video_compare_versions(nullptr, "v1.2.3") == -1 && signed_video_compare_versions("v1.2.3", nullptr) == -1, "null", "no version was accepted");
}

bool newer(const std::string &v, const std::string &than) { return signed_video_compare_versions(v.c_str(), than.c_str()) == 1; }

void streams(Ctx &c, Rng &r)
{
  SignCfg cfg = random_cfg(r);
  cfg.pubkey_in_sei = true;
  GopShape sh;
  Stream video = random_video(r, cfg.codec, sh);
  SignedStream ss = sign_video(c, r, cfg, video);
  int now[3];
  CHECK(sscanf(signed_video_get_version(), "v%d.%d.%d", &now[0], &now[1], &now[2]) == 3, "own-version", "the version is '%s'", signed_video_get_version());
  int v[3];
  for (int i = 0; i < 3; i++) v[i] = now[i];
  switch (r.below(6)) {
    case 0: break;
    case 1:
      for (auto &x : v) x = r.range(0, 255);
      break;
    case 2: v[r.below(3)] = r.chance(50) ? 0 : 255; break;
    case 3: v[0] = std::max(0, v[0] + r.range(-1, 1)), v[1] = r.range(0, 255), v[2] = r.range(0, 255); break;
    default: {
      size_t k = r.below(3);
      v[k] = std::max(0, std::min(255, v[k] + (r.chance(50) ? 1 : -1)));
    }
  }
  Stream a = ss.s, b = ss.s;
  set_version(a, cfg, now), set_version(b, cfg, v);
  std::string damage;
  if (r.chance(50)) {
    size_t at = r.below(a.size());
    if (r.chance(50) && a[at].picture()) {
      Bytes core = a[at].core();
      core[core.size() / 2 + 1 < core.size() ? core.size() / 2 + 1 : core.size() - 1] ^= 0x40;
      set_core(a[at], core), set_core(b[at], core);
      damage = strf("alter %zu", at);
    } else {
      a.erase(a.begin() + (long)at), b.erase(b.begin() + (long)at);
      damage = strf("drop %zu", at);
    }
  }
  std::string want = strf("v%d.%d.%d", v[0], v[1], v[2]);
  int o = 0;
  for (int i = 0; i < 3 && !o; i++) o = v[i] > now[i] ? 1 : v[i] < now[i] ? 2 : 0;
  c.log("%s version %s %s %s", cfg.str().c_str(), want.c_str(), damage.c_str(), types_of(a).c_str());
  ValRun x = validate(c, cfg, a), y = validate(c, cfg, b);
  if (o == 1 && !damage.size() && y.has_final)
    CHECK(y.final_report.acc_auth == SV_AUTH_RESULT_VERSION_MISMATCH || y.final_report.acc_auth <= SV_AUTH_RESULT_SIGNATURE_PRESENT, "accumulated", "signed by %s and accumulated %s",
        want.c_str(), auth_name(y.final_report.acc_auth));
  CHECK(x.rc == y.rc, "rc", "return codes depend on the version %s", want.c_str());
  CHECK(x.reports.size() == y.reports.size(), "reports", "%zu reports with version %s, %zu otherwise", y.reports.size(), want.c_str(), x.reports.size());
  for (size_t i = 0; i < x.reports.size(); i++) {
    Report p = x.reports[i], q = y.reports[i];
    c.log("%s\n%s", p.str().c_str(), q.str().c_str());
    bool known = !p.ver_sign.empty();  // A SEI has been decoded.
    if (known) {
      CHECK(q.ver_sign == want, "version", "the version on the signing side is reported as '%s' and is %s", q.ver_sign.c_str(), want.c_str());
      c.ev(o == 1 ? "newer_streams_reported" : o ? "older_streams_reported" : "same_version_reported");
    }
    if (known && o == 1) {
      CHECK(q.auth == SV_AUTH_RESULT_VERSION_MISMATCH, "not-flagged", "signed by %s and reported %s", want.c_str(), auth_name(q.auth));
      q.auth = p.auth;
      q.acc_auth = p.acc_auth;
    }
    q.ver_sign = p.ver_sign;
    // The accumulated result follows the flag.
    if (o == 1) {
      if (known) CHECK(y.reports[i].acc_auth == SV_AUTH_RESULT_VERSION_MISMATCH, "acc-not-flagged", "signed by %s and accumulated %s", want.c_str(), auth_name(y.reports[i].acc_auth));
      q.acc_auth = p.acc_auth;
    }
    CHECK(p == q, "differs", "report %zu depends on the version %s:\n%s\n%s", i, want.c_str(), y.reports[i].str().c_str(), p.str().c_str());
  }
  // After a reset nothing is left of the version.
  if (r.chance(50)) {
    Sv sv(signed_video_create(cfg.codec));
    validate_with(c, sv.get(), cfg.codec, b);
    signed_video_reset(sv.get());
    Stream u = r.chance(50) ? a : video;
    ValRun z = validate_with(c, sv.get(), cfg.codec, u), fresh = validate(c, cfg, u);
    CHECK(z.reports.size() == fresh.reports.size(), "reset-reports", "%zu reports after a reset, %zu otherwise", z.reports.size(), fresh.reports.size());
    for (size_t i = 0; i < z.reports.size(); i++) {
      Report p = z.reports[i], q = fresh.reports[i];
      CHECK(p.auth == q.auth && p.acc_auth == q.acc_auth && p.ver_sign == q.ver_sign, "reset", "after a stream of version %s and a reset:\n%s\notherwise:\n%s", want.c_str(), p.str().c_str(), q.str().c_str());
      c.ev("reset_compared");
    }
  }
  c.seen(want + cfg.str() + damage + types_of(a));
  c.sample(want + " " + cfg.str() + " " + damage);
}

void legacy(Ctx &c, Rng &r)
{
  SignCfg cfg;
  Stream s = legacy_stream((int)r.below((uint64_t)legacy_count()), cfg.codec);
  // The version follows the TLV of tag 1: version, GOP counter, number of units.
  int v[3] = {r.range(0, 3), r.range(0, 40), r.range(0, 60)};
  if (r.chance(40)) v[0] = 1, v[1] = 1, v[2] = r.range(26, 32);
  for (auto &n : s) {
    if (n.type != 'S') continue;
    for (size_t i = 20; i + 20 < n.data.size(); i++) {
      if (memcmp(&n.data[i], kUuid, 16)) continue;
      Sei p = parse_sei(cfg.codec, n.data);
      const Tlv *g = p.find(T_GENERAL);
      if (!g) break;
      // Find the bytes of the TLV in the unit.
      auto it = std::search(n.data.begin(), n.data.end(), g->val.begin(), g->val.begin() + 10);
      if (it != n.data.end())
        for (int k = 0; k < 3; k++) it[7 + k] = (uint8_t)v[k];
      break;
    }
  }
  std::string now = signed_video_get_version();
  ValRun x = validate(c, cfg, s);
  for (auto &p : x.reports) {
    if (p.ver_sign.empty()) continue;
    c.log("%s", p.str().c_str());
    bool nw = newer(p.ver_sign, now);
    CHECK(nw == (p.auth == SV_AUTH_RESULT_VERSION_MISMATCH), "legacy-flag", "legacy stream of version %s reported %s", p.ver_sign.c_str(), auth_name(p.auth));
    c.ev(nw ? "legacy_newer" : "legacy_not_newer");
  }
  c.seen(strf("legacy %d.%d.%d", v[0], v[1], v[2]));
}
}  // namespace

PROPERTY(C25)
{
  int k = (int)(c.case_idx % 4);
  if (k == 0) strings(c, r);
  else if (k < 3) streams(c, r);
  else legacy(c, r);
}
