// Random damage to a stream: the mixed workload of the report monitors.
#pragma once
#include "common.hpp"
// Applies |n| random changes (alter, drop, duplicate, swap, insert, garbage, SEI damage).
std::string mangle(Rng &r, SignedVideoCodec codec, Stream &s, int n);
// A unit of arbitrary bytes.
Nalu garbage_nalu(Rng &r, SignedVideoCodec codec);
