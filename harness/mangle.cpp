#include "mangle.hpp"

Nalu garbage_nalu(Rng &r, SignedVideoCodec codec)
{
  Nalu n;
  n.sc = 0;
  n.data = r.bytes(1 + r.below(r.chance(50) ? 6 : 60));
  if (r.chance(60)) {
    static const uint8_t scs[] = {0, 0, 0, 1};
    int k = r.range(1, 2);
    n.data.insert(n.data.begin(), scs + 2 - k, scs + 4);
    n.sc = k + 2 > 4 ? 4 : k + 2;
  }
  if (r.chance(20)) n.data.assign(1 + r.below(5), 0);
  n.type = classify(codec, n.data.data(), n.data.size());
  return n;
}

std::string mangle(Rng &r, SignedVideoCodec codec, Stream &s, int n)
{
  std::string d;
  for (int k = 0; k < n && !s.empty(); k++) {
    size_t at = r.below(s.size());
    switch (r.below(9)) {
      case 0: {
        if (s[at].data.size() < 2) break;
        size_t i = r.below(s[at].data.size());
        s[at].data[i] ^= (uint8_t)(1 + r.below(255));
        d += strf("alter %zu[%zu] ", at, i);
        s[at].uid = -1;
        break;
      }
      case 1:
        d += strf("drop %zu(%c) ", at, s[at].type);
        s.erase(s.begin() + (long)at);
        break;
      case 2: {
        size_t to = std::min(s.size(), at + 1 + r.below(6));
        Nalu x = s[at];
        x.uid = -1;
        s.insert(s.begin() + (long)to, x);
        d += strf("dup %zu to %zu ", at, to);
        break;
      }
      case 3: {
        size_t b = r.below(s.size());
        std::swap(s[at], s[b]);
        d += strf("swap %zu %zu ", at, b);
        break;
      }
      case 4: {
        Nalu x = make_nalu(r, codec, "IPipzv_oU"[r.below(9)], (size_t)r.range(4, 60), 4);
        x.uid = -1;
        s.insert(s.begin() + (long)at, x);
        d += strf("insert %c at %zu ", x.type, at);
        break;
      }
      case 5: {
        Nalu x = garbage_nalu(r, codec);
        s.insert(s.begin() + (long)at, x);
        d += strf("garbage at %zu ", at);
        break;
      }
      case 6: {
        size_t e = std::min(s.size(), at + 1 + r.below(5));
        d += strf("drop %zu..%zu ", at, e);
        s.erase(s.begin() + (long)at, s.begin() + (long)e);
        break;
      }
      default: {  // SEI damage
        std::vector<size_t> seis;
        for (size_t i = 0; i < s.size(); i++)
          if (s[i].sv_sei()) seis.push_back(i);
        if (seis.empty()) break;
        at = r.pick(seis);
        if (r.chance(40)) {
          s.erase(s.begin() + (long)at);
          d += strf("drop SEI %zu ", at);
        } else if (r.chance(50)) {
          size_t i = r.below(s[at].data.size());
          s[at].data[i] ^= (uint8_t)(1 << r.below(8));
          d += strf("alter SEI %zu[%zu] ", at, i);
        } else {
          s[at].data.resize(1 + r.below(s[at].data.size()));
          d += strf("cut SEI %zu to %zu ", at, s[at].data.size());
        }
      }
    }
  }
  for (auto &u : s) u.type = classify(codec, u.data.data(), u.data.size());
  return d;
}
