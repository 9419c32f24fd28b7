// A signer of the legacy format, made from the description of the format (see legacy_tlv.c for the decoding side) and
// compared with the recorded legacy streams.
#pragma once
#include "common.hpp"
struct LegacyCfg {
  SignedVideoCodec codec = SV_CODEC_H264;
  bool gop_level = false;
  bool ec = true;
  int key_idx = 0;
  bool epb = true;
  int general_version = 2;
  bool timestamps = true;
  int recurrence = 1;  // Public key and product information in every |recurrence|th SEI.
  bool product = true;
  bool arbitrary = false;
  bool crypto = false;
  uint32_t gop_counter = 0;
  std::string pi[5] = {"hw", "fw", "serial", "manufacturer", "address"};
  std::string str() const;
};
LegacyCfg random_legacy_cfg(Rng &r);
// Signs |video|. The SEI which follows a GOP is put in front of the I-frame that starts the next one. SEI number k (from 0) signs GOP k - 1,
// SEI 0 has the hash of the first I-frame only.
SignedStream legacy_sign(const LegacyCfg &cfg, const Stream &video);
