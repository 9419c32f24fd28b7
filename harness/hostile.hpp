// Crafted SEIs: structure-aware mutations of signed SEIs, optionally signed again.
#pragma once
#include "common.hpp"
struct RawTlv {
  int tag = 0;
  Bytes val;
  long lie = -1;  // Declared length if >= 0.
};
// Builds a SEI of the TLVs as they are. If |key| is given the last signature TLV gets a correct signature.
// |size_lie| is added to the payload size field.
Bytes craft_sei(SignedVideoCodec codec, uint8_t reserved, const std::vector<RawTlv> &tlvs, const Key *key, const std::string &algo, bool epb, long size_lie = 0,
    bool stop = true);
// A SEI made from |base| (a genuine one) with random hostile changes.
Nalu hostile_sei(Rng &r, SignedVideoCodec codec, const Sei &base, const Key *key, const std::string &algo, std::string &desc);
// A SEI with our UUID and otherwise random content.
Nalu random_sei(Rng &r, SignedVideoCodec codec);
// Recorded legacy streams.
int legacy_count();
Stream legacy_stream(int idx, SignedVideoCodec &codec);
