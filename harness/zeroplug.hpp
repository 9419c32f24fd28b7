// A signing plugin whose signatures hold many bytes which need emulation prevention. Included by one file of a harness.
#pragma once
#include "common.hpp"
namespace {
struct Plug {
  size_t max_size = 0;  // Of a signature.
  std::vector<Bytes> answers;
};
Rng *g_rng;
std::vector<std::pair<Bytes, Bytes>> g_signed;  // Hash and the signature given for it.
bool g_refuse_setup;
int g_live;
}  // namespace
extern "C" {
SignedVideoReturnCode sv_signing_plugin_sign(void *handle, const uint8_t *hash, size_t hash_size)
{
  Plug *p = (Plug *)handle;
  Bytes sig(g_rng->chance(30) ? p->max_size : (size_t)g_rng->range(40, 70));
  const int zeros = g_rng->chance(30) ? 100 : 70;
  for (auto &b : sig) b = g_rng->chance(zeros) ? 0 : (uint8_t)g_rng->below(5);
  p->answers.push_back(sig);
  g_signed.push_back({Bytes(hash, hash + hash_size), sig});
  return SV_OK;
}
bool sv_signing_plugin_get_signature(void *handle, uint8_t *signature, size_t max_size, size_t *written, SignedVideoReturnCode *error)
{
  Plug *p = (Plug *)handle;
  if (error) *error = SV_OK;
  if (p->answers.empty()) return false;
  Bytes a = p->answers.front();
  p->answers.erase(p->answers.begin());
  if (a.size() > max_size) abort();
  memcpy(signature, a.data(), a.size());
  *written = a.size();
  return true;
}
void *sv_signing_plugin_session_setup(const void *key, size_t size)
{
  if (g_refuse_setup) return nullptr;
  sign_or_verify_data_t d = {};
  if (openssl_private_key_malloc(&d, (const char *)key, size) != SV_OK) return nullptr;
  g_live++;
  Plug *p = new Plug;
  p->max_size = d.max_signature_size;
  openssl_free_key(d.key);
  free(d.signature);
  return p;
}
void sv_signing_plugin_session_teardown(void *handle)
{
  if (handle) g_live--;
  delete (Plug *)handle;
}
int sv_signing_plugin_init(void *) { return 0; }
int sv_signing_plugin_init_new(void *) { return 0; }
void sv_signing_plugin_exit(void *) {}
}
