#include "damage.hpp"

#include <algorithm>

// Alters the bytes of a unit so that it is still delivered as one unit. Returns a description.
std::string alter(Rng &r, SignedVideoCodec codec, Nalu &n, const Stream &s)
{
  Bytes old = n.core();
  Bytes b = old;
  size_t hdr = codec == SV_CODEC_H264 ? 1 : 2;
  std::string d;
  for (int guard = 0; guard < 100; guard++) {
    b = old;
    switch (r.below(9)) {
      case 0:
      case 1:
      case 2: {
        size_t i = hdr + 1 + r.below(b.size() - hdr - 1);
        if (b.size() > 1000 && r.chance(40)) i = b.size() - 1 - r.below(500);
        int bit = (int)r.below(8);
        b[i] ^= (uint8_t)(1 << bit);
        d = strf("flip bit %d of byte %zu/%zu", bit, i, b.size());
        break;
      }
      case 3:  // truncated
        b.resize(hdr + 1 + r.below(b.size() - hdr - 1));
        while (b.back() == 0 && b.size() > hdr + 1) b.pop_back();
        d = strf("truncate to %zu of %zu", b.size(), old.size());
        break;
      case 4: {  // extended
        Bytes x = r.bytes(1 + r.below(6));
        x.back() |= 1;
        b.insert(b.end(), x.begin(), x.end());
        d = strf("append %zu bytes", x.size());
        break;
      }
      case 5: {  // the last byte
        b.back() ^= (uint8_t)(1 + r.below(255));
        d = "last byte";
        break;
      }
      case 6: {  // two bytes swapped
        size_t i = hdr + 1 + r.below(b.size() - hdr - 1), j = hdr + 1 + r.below(b.size() - hdr - 1);
        std::swap(b[i], b[j]);
        d = strf("swap bytes %zu %zu", i, j);
        break;
      }
      case 7: {  // header bits that keep the type
        if (codec == SV_CODEC_H264) b[0] ^= (uint8_t)(1 << (5 + r.below(2)));
        else b[1] ^= (uint8_t)(1 << r.range(3, 7));
        d = "header bits";
        break;
      }
      default: {  // the content of another unit of the same type
        const Nalu &o = s[r.below(s.size())];
        if (!o.picture()) continue;
        b = o.core();
        d = strf("content of uid %d", o.uid);
        break;
      }
    }
    while (!b.empty() && b.back() == 0) b.pop_back();
    if (b == old || b.size() <= hdr) continue;
    // Still a picture unit of the same kind (other changes are removals, see C03).
    Nalu t = n;
    set_core(t, b);
    if (classify(codec, t.data.data(), t.data.size()) != n.type) continue;
    if (t.data[0] == 0 && n.sc == 0) continue;
    n = t;
    // Content which is signed for the same GOP is a displaced unit and not a foreign one.
    n.uid = -1;
    // An I-frame is signed by itself, hence may be found in any GOP until the validation is in sync.
    for (auto &o : s)
      if (o.picture() && (o.gop == n.gop || n.type == 'I') && o.core() == b) n.uid = -3;
    return d;
  }
  return "";
}

static const char *kTamper[] = {"alter", "insert", "duplicate", "swap", "move", "alter-many"};

Tamper tamper(Rng &r, SignedVideoCodec codec, Stream &s)
{
  Tamper t;
  const Stream orig = s;
  std::vector<size_t> pics;
  for (size_t i = 0; i < s.size(); i++)
    if (s[i].picture()) pics.push_back(i);
  size_t at = r.pick(pics);
  for (size_t k = 0; k < 2 * pics.size() && r.chance(98); k++) {
    size_t o = r.pick(pics);
    if (s[o].data.size() > 20 * s[at].data.size()) at = o;
  }
  t.kind = (int)r.below(6);
  std::string what;
  int g = s[at].gop;
  int g_hi = g;
  switch (t.kind) {
    case 0:
      what = alter(r, codec, s[at], s);
      if (what.empty()) return t;
      break;
    case 1: {  // insert a foreign unit
      Nalu n = make_nalu(r, codec, "IPipPP"[r.below(6)], (size_t)r.range(4, 100), s[at].sc);
      n.uid = -1;
      n.gop = g;
      s.insert(s.begin() + (long)at + (r.chance(50) ? 1 : 0), n);
      what = strf("insert %c", n.type);
      break;
    }
    case 2: {  // deliver a unit a second time, right away or later
      Nalu n = s[at];
      size_t to = r.chance(50) ? at + 1 : at + 1 + r.below(s.size() - at);
      n.uid = -1;
      // Which of the two identical copies is the extra one cannot be told.
      s[at].uid = -3;
      int gg = to < s.size() ? s[to].gop : s[to - 1].gop;
      if (to == at + 1 || (n.type == 'I' && gg <= g + 1)) n.uid = -3;
      for (size_t k = at; k < std::min(to, s.size()); k++)
        if (s[k].picture()) g_hi = std::max(g_hi, s[k].gop);
      n.gop = std::max(gg, g);
      s.insert(s.begin() + (long)to, n);
      what = strf("duplicate uid %d %zu later", s[at].uid, to - at);
      break;
    }
    case 3: {  // swap two units
      size_t b = r.chance(60) ? pics[(std::find(pics.begin(), pics.end(), at) - pics.begin() + 1) % (long)pics.size()] : r.pick(pics);
      if (b == at || s[b].core() == s[at].core()) return t;
      if (b < at) std::swap(at, b);
      g = s[at].gop;
      g_hi = s[b].gop;
      std::swap(s[at], s[b]);
      what = strf("swap %zu and %zu (GOP %d, %d)", at, b, g, g_hi);
      break;
    }
    case 4: {  // move a unit past other picture units
      size_t pi = (size_t)(std::find(pics.begin(), pics.end(), at) - pics.begin());
      if (pi + 1 >= pics.size()) return t;
      size_t to = pics[std::min(pics.size() - 1, pi + 1 + r.below(4))];
      bool other = false;
      for (size_t k = at + 1; k <= to; k++) other |= s[k].picture() && s[k].core() != s[at].core();
      if (!other) return t;
      g_hi = s[to].gop;
      Nalu n = s[at];
      s.erase(s.begin() + (long)at);
      s.insert(s.begin() + (long)to, n);
      what = strf("move %zu to %zu (GOP %d, %d)", at, to, g, g_hi);
      break;
    }
    default: {
      int n = 0;
      for (auto i : pics)
        if (s[i].gop == g && r.chance(60) && !alter(r, codec, s[i], orig).empty()) {
          n++;
          // All units of the GOP may have become units of another one.
          for (auto &o : orig)
            if (o.picture() && o.core() == s[i].core()) s[i].uid = -3;
        }
      if (!n) return t;
      what = strf("alter %d units of GOP %d", n, g);
    }
  }
  t.done = true;
  t.name = kTamper[t.kind];
  t.what = what;
  t.at = at;
  t.g = g;
  t.g_hi = g_hi;
  return t;
}

static const char *kLoss[] = {"one", "some", "run", "i-frame", "sei", "gop-with-sei", "gop-without-sei", "cut"};

Loss lose(Rng &r, const Stream &s, int last_gop)
{
  Loss l;
  l.kind = (int)r.below(8);
  std::vector<size_t> pics, seis;
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i].picture()) pics.push_back(i);
    if (s[i].type == 'S') seis.push_back(i);
  }
  std::vector<bool> drop(s.size(), false);
  int g = r.range(0, last_gop);
  // Most of the time in the long GOP, if there is one.
  const bool longs = pics.size() > 200 && r.chance(75);
  if (longs) g = std::min(last_gop, s[r.pick(pics)].gop);
  if (longs && r.chance(50)) l.kind = 2;
  int g2 = g;
  switch (l.kind) {
    case 0:
      drop[r.pick(pics)] = true;
      break;
    case 1: {
      int pc = r.range(10, 90);
      for (auto i : pics)
        if (s[i].gop == g && r.chance(pc)) drop[i] = true;
      break;
    }
    case 2: {
      size_t a = r.below(pics.size()), n = 1 + r.below(longs ? 250 : 8);
      const bool inside = longs && r.chance(70);
      if (inside && a > 120) a -= r.below(100);
      for (size_t k = a; k < std::min(pics.size(), a + n); k++)
        if (!inside || s[pics[k]].gop == s[pics[a]].gop) drop[pics[k]] = true;
      break;
    }
    case 3:
      for (auto i : pics)
        if (s[i].gop == g && (s[i].type == 'I' || s[i].type == 'i')) drop[i] = true;
      break;
    case 4:
      drop[r.pick(seis)] = true;
      break;
    case 5:
    case 6:
      g2 = std::min(last_gop, g + (r.chance(60) ? 0 : r.range(1, 2)));
      for (size_t i = 0; i < s.size(); i++)
        if (s[i].gop >= g && s[i].gop <= g2 && (s[i].picture() || (l.kind == 5 && s[i].type == 'S'))) drop[i] = true;
      break;
    default: {  // A contiguous piece of the stream
      size_t a = r.below(s.size()), n = 1 + r.below(25);
      for (size_t k = a; k < std::min(s.size(), a + n); k++)
        if (s[k].type != 'G') drop[k] = true;
      break;
    }
  }
  // The boundaries of what was lost.
  l.first = s.size();
  for (size_t i = 0; i < s.size(); i++)
    if (drop[i]) {
      if (s[i].picture()) l.n_pic++, l.g_hi = std::max(l.g_hi, s[i].gop), l.lost_gops.insert(s[i].gop);
      if (s[i].type == 'S') l.n_sei++, l.g_hi = std::max(l.g_hi, s[i].gop), l.lost_sei_gops.insert(s[i].gop);
      if (s[i].picture() || s[i].type == 'S') {
        l.first = std::min(l.first, i);
        l.last = i;
      }
    }
  l.drop = drop;
  l.name = kLoss[l.kind];
  for (size_t i = 0; i < s.size(); i++) {
    if (i == l.first) l.first_in_left = l.left.size();
    if (!drop[i]) l.left.push_back(s[i]);
    else l.dropped += s[i].type;
  }
  return l;
}
