// Tampering with, and loss from, signed streams.
#pragma once
#include "common.hpp"
// Alters the bytes of a unit so that it is still delivered as one unit of the same type. Returns a description.
std::string alter(Rng &r, SignedVideoCodec codec, Nalu &n, const Stream &s);
struct Tamper {
  bool done = false;
  int kind = 0;  // alter, insert, duplicate, swap, move, alter-many
  const char *name = "";
  std::string what;
  size_t at = 0;  // First unit concerned.
  int g = 0, g_hi = 0;  // The GOPs concerned.
};
// Alters, inserts, repeats or moves picture units. Units that never were signed get uid -1, those that may be seen as signed -3.
Tamper tamper(Rng &r, SignedVideoCodec codec, Stream &s);
struct Loss {
  int kind = 0;  // one, some, run, i-frame, sei, gop-with-sei, gop-without-sei, cut
  const char *name = "";
  std::vector<bool> drop;
  Stream left;
  std::string dropped;
  size_t first = 0, last = 0;  // In the complete stream.
  size_t first_in_left = 0;
  int g_hi = -1, n_pic = 0, n_sei = 0;
  std::set<int> lost_sei_gops, lost_gops;
};
Loss lose(Rng &r, const Stream &s, int last_gop);
