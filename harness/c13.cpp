// C13: whatever the signing plugin does (late, batched or failed signatures), every SEI handed out holds the signature of its
// own document, in GOP order, exactly once. The plugin is a stub following a schedule, which records all requests and answers.
#include "common.hpp"

#ifdef HARNESS_STUB
namespace {
struct Request {
  Bytes hash;
  int wait;  // Polls left before the answer.
  int outcome;  // 0: signature, 1: true and size zero, 2: false and an error, 3: true and an error
  bool answered = false, ok = false;
  Bytes sig;
};
struct Session {
  const Key *key;
  std::vector<Request> reqs;
  size_t next = 0;  // First unanswered request.
  Rng *r;
  int max_wait = 0, fail_pct = 0, refuse_pct = 0;
  bool hold = false;  // Answer nothing.
  bool batch = false;
  bool touch_error = true;  // Sets |error| also when there is nothing to return.
  uint64_t refused = 0, polls = 0;
};
Session *g_session;
}  // namespace

extern "C" {
SignedVideoReturnCode sv_signing_plugin_sign(void *handle, const uint8_t *hash, size_t hash_size)
{
  Session *s = (Session *)handle;
  if (!s || !hash || !hash_size) return SV_INVALID_PARAMETER;
  if (s->r->chance(s->refuse_pct)) {
    s->refused++;
    return SV_EXTERNAL_ERROR;
  }
  Request q;
  q.hash.assign(hash, hash + hash_size);
  q.wait = s->max_wait ? (int)s->r->below((uint64_t)s->max_wait + 1) : 0;
  q.outcome = s->r->chance(s->fail_pct) ? s->r->range(1, 3) : 0;
  s->reqs.push_back(q);
  return SV_OK;
}

bool sv_signing_plugin_get_signature(void *handle, uint8_t *signature, size_t max_size, size_t *written, SignedVideoReturnCode *error)
{
  Session *s = (Session *)handle;
  if (!s || !signature || !written) return false;
  s->polls++;
  if (s->touch_error && error) *error = SV_OK;
  if (s->hold || s->next >= s->reqs.size()) return false;
  Request &q = s->reqs[s->next];
  if (q.wait > 0) {
    // In batch mode the answers pile up until the oldest one is ready.
    for (size_t i = s->next; i < (s->batch ? s->reqs.size() : s->next + 1); i++)
      if (s->reqs[i].wait > 0) s->reqs[i].wait--;
    return false;
  }
  s->next++;
  q.answered = true;
  *written = 0;
  if (q.outcome == 0) {
    q.sig = sign_digest(*s->key, q.hash);
    if (q.sig.size() > max_size) return true;  // As documented: nothing written.
    memcpy(signature, q.sig.data(), q.sig.size());
    *written = q.sig.size();
    q.ok = true;
    if (error) *error = SV_OK;
    return true;
  }
  if (q.outcome == 1) {
    if (error) *error = SV_OK;
    return true;
  }
  if (error) *error = SV_EXTERNAL_ERROR;
  return q.outcome == 3;
}

void *sv_signing_plugin_session_setup(const void *key, size_t size)
{
  if (!key || !size) return nullptr;
  return g_session;
}
void sv_signing_plugin_session_teardown(void *) {}
int sv_signing_plugin_init(void *) { return 0; }
int sv_signing_plugin_init_new(void *) { return 0; }
void sv_signing_plugin_exit(void *) {}
}

PROPERTY(C13)
{
  SignCfg cfg = random_cfg(r);
  cfg.parts = false;
  cfg.golden = cfg.golden && r.chance(50);
  cfg.eos = false;
  GopShape sh;
  bool lng = r.chance(25);
  if (lng) {
    sh.min_gops = 20;
    sh.max_gops = 90;
    sh.max_frames = 1;
    sh.max_slices = 1;
    sh.max_size = 40;
    sh.big = 0;
    sh.extras = false;
  } else {
    sh.min_gops = 3;
    sh.max_gops = 14;
    sh.max_frames = 3;
  }
  Stream video = random_video(r, cfg.codec, sh);
  Session ses;
  ses.key = &key_get(cfg.ec, cfg.key_idx);
  ses.r = &r;
  ses.max_wait = r.chance(25) ? 0 : r.chance(50) ? r.range(1, 6) : r.range(5, 60);
  ses.fail_pct = r.chance(50) ? 0 : r.chance(50) ? r.range(3, 20) : r.range(20, 90);
  ses.refuse_pct = r.chance(85) ? 0 : r.range(3, 30);
  ses.batch = r.chance(50);
  ses.touch_error = r.chance(70);
  int pull_pct = r.chance(40) ? 100 : r.chance(50) ? r.range(20, 90) : r.range(1, 15);
  int hold_pct = r.chance(60) ? 0 : r.range(1, 8);
  g_session = &ses;
  c.log("%s %s wait=%d fail=%d refuse=%d batch=%d pull=%d", cfg.str().c_str(), types_of(video).c_str(), ses.max_wait, ses.fail_pct,
      ses.refuse_pct, ses.batch, pull_pct);
  Sv svp = make_signer(cfg);
  signed_video_t *sv = svp.get();
  Stream out;
  std::vector<int> handed;  // Request index of each SEI in the order of the stream.
  std::set<int> used;
  bool refused = false, overflow = false;
  size_t api_errors = 0;
  // Which request a SEI belongs to, and whether it carries that request's signature.
  auto got = [&](const uint8_t *d, size_t n) {
    Bytes b(d, d + n);
    Sei s = parse_sei(cfg.codec, b);
    CHECK(s.ok, "sei-unparsable", "SEI %s", s.err.c_str());
    Bytes h = digest(cfg.hash, s.doc);
    int idx = -1;
    for (size_t i = 0; i < ses.reqs.size(); i++)
      if (ses.reqs[i].hash == h) idx = (int)i;
    CHECK(idx >= 0, "sei-not-requested", "the document hash of a SEI was never handed to the plugin");
    Request &q = ses.reqs[(size_t)idx];
    CHECK(q.ok, "sei-unsigned", "SEI %d handed out although its signature %s", idx, q.answered ? "failed" : "is not available yet");
    CHECK(s.signature == q.sig, "wrong-signature", "SEI %d does not hold its own signature", idx);
    CHECK(used.insert(idx).second, "sei-twice", "SEI %d handed out twice", idx);
    c.ev("seis_checked");
    return idx;
  };
  auto nalu_of = [&](const Bytes &b) {
    Nalu n;
    n.data = b;
    n.sc = 4;
    n.type = 'S';
    return n;
  };
  auto pull = [&](const Nalu *peek) {
    int guard = 0;
    std::vector<std::pair<int, Nalu>> pulled;
    bool primary = !peek || ((peek->type == 'I' || peek->type == 'P'));
    for (; guard < 400; guard++) {
      if (cfg.api == 2) {
        signed_video_nalu_to_prepend_t p;
        SignedVideoReturnCode rc = signed_video_get_nalu_to_prepend(sv, &p);
        if (rc != SV_OK) {
          api_errors++;
          CHECK(ses.fail_pct || ses.refuse_pct, "get-failed", "get_nalu_to_prepend returned %d without any plugin failure", rc);
          continue;
        }
        if (p.prepend_instruction == SIGNED_VIDEO_PREPEND_NOTHING) break;
        Bytes b(p.nalu_data, p.nalu_data + p.nalu_data_size);
        signed_video_nalu_data_free(p.nalu_data);
        // Prepended to what already has been pulled here.
        pulled.insert(pulled.begin(), {got(b.data(), b.size()), nalu_of(b)});
      } else {
        size_t size = 0, size2 = 0;
        unsigned pend = 0;
        int off = 0;
        const uint8_t *pk = peek && cfg.api == 0 ? peek->data.data() : nullptr;
        size_t pks = peek && cfg.api == 0 ? peek->data.size() : 0;
        bool two = r.chance(60);
        Bytes b(20000);
        SignedVideoReturnCode rc;
        if (two) {
          rc = signed_video_get_sei(sv, nullptr, &size, &off, pk, pks, &pend);
          if (rc == SV_OK && size) {
            b.resize(size);
            rc = signed_video_get_sei(sv, b.data(), &size2, &off, pk, pks, &pend);
            if (rc == SV_OK) CHECK(size == size2, "sei-size", "size changed from %zu to %zu", size, size2);
          }
        } else {
          rc = signed_video_get_sei(sv, b.data(), &size, &off, pk, pks, &pend);
        }
        if (rc != SV_OK) {
          api_errors++;
          CHECK(ses.fail_pct || ses.refuse_pct, "get-failed", "get_sei returned %d without any plugin failure", rc);
          continue;
        }
        if (!size) {
          size_t alive = 0;
          for (size_t i = 0; i < ses.reqs.size(); i++)
            if ((!ses.reqs[i].answered || ses.reqs[i].ok) && !used.count((int)i)) alive++;
          CHECK(pend >= alive || overflow, "pending-count", "%u pending SEIs reported, at least %zu are", pend, alive);
          break;
        }
        CHECK(primary || cfg.api != 0, "sei-before-secondary", "a SEI was handed out in front of a %c unit", peek ? peek->type : '-');
        int idx = got(b.data(), size);
        CHECK(off > 0 && (size_t)off + 16 <= size && memcmp(&b[(size_t)off], kUuid, 16) == 0, "payload-offset", "offset %d", off);
        b.resize(size);
        pulled.push_back({idx, nalu_of(b)});
      }
    }
    CHECK(guard < 400, "get-never-ends", "SEIs or errors are returned without end");
    for (auto &p : pulled) {
      handed.push_back(p.first);
      out.push_back(p.second);
    }
  };
  if (cfg.golden) {
    SignedVideoReturnCode rc = signed_video_generate_golden_sei(sv);
    if (rc != SV_OK) {
      CHECK(ses.refused, "golden-failed", "generate_golden_sei returned %d", rc);
      refused = true;
    }
  }
  int hold = 0;
  for (size_t i = 0; i < video.size(); i++) {
    const Nalu &n = video[i];
    if (hold == 0 && r.chance(hold_pct)) hold = r.range(1, 60);
    if (hold > 0) hold--;
    ses.hold = hold > 0;
    bool pulling = r.chance(pull_pct);
    if (pulling && cfg.api == 0) pull(&n);
    size_t before = ses.reqs.size();
    uint64_t ref_before = ses.refused;
    Bytes d = n.data;
    SignedVideoReturnCode rc = signed_video_add_nalu_for_signing_with_timestamp(sv, d.data(), d.size(), nullptr);
    c.ev("units_signed");
    if (rc != SV_OK) {
      size_t alive = 0;
      for (size_t k = 0; k < ses.reqs.size(); k++)
        if ((!ses.reqs[k].answered || ses.reqs[k].ok) && !used.count((int)k)) alive++;
      if (ses.refused > ref_before) {
        refused = true;
        c.ev("sign_refused");
      } else {
        CHECK(rc == SV_NOT_SUPPORTED && alive >= 60, "add-failed", "adding a unit returned %d with %zu SEIs waiting", rc, alive);
        overflow = true;
        c.ev("buffer_full");
      }
      (void)before;
    }
    if (pulling && cfg.api != 0) pull(&n);
    out.push_back(n);
  }
  // At last all signatures are delivered, and all SEIs can be fetched.
  ses.hold = false;
  for (auto &q : ses.reqs) q.wait = 0;
  pull(nullptr);
  CHECK(ses.next == ses.reqs.size(), "signature-not-fetched", "%zu of %zu answers fetched", ses.next, ses.reqs.size());
  for (size_t i = 0; i < ses.reqs.size(); i++) {
    if (ses.reqs[i].ok) CHECK(used.count((int)i), "sei-lost", "SEI %zu was signed but never handed out", i);
    else c.ev("signatures_failed");
  }
  for (size_t i = 1; i < handed.size(); i++) CHECK(handed[i] > handed[i - 1], "sei-order", "SEI %d comes after SEI %d", handed[i], handed[i - 1]);
  c.ev("requests", ses.reqs.size());
  c.ev("get_errors", api_errors);
  c.ev("polls", ses.polls);
  // With every signature delivered the video is authentic, however late.
  if (ses.fail_pct == 0 && !refused && !overflow && handed.size() > 1 && cfg.pubkey_in_sei) {
    ValRun run = validate(c, cfg, out);
    for (auto &p : run.reports) {
      CHECK(p.auth != SV_AUTH_RESULT_NOT_OK && p.auth != SV_AUTH_RESULT_OK_WITH_MISSING_INFO, "intact-not-ok", "%s", p.str().c_str());
      if (p.auth == SV_AUTH_RESULT_OK) c.ev("ok_reports");
    }
  }
  c.seen(cfg.str() + types_of(out) + strf(" %d %d %d %d", ses.max_wait, ses.fail_pct, ses.batch, pull_pct));
  c.sample(strf("%s requests=%zu handed=%zu wait<=%d fail%%=%d batch=%d %s", cfg.str().c_str(), ses.reqs.size(), handed.size(), ses.max_wait,
      ses.fail_pct, ses.batch, types_of(out).substr(0, 80).c_str()));
}
#else
// The signing plugin of the library, with the SEIs pulled late and several at a time.
PROPERTY(C13)
{
  SignCfg cfg = random_cfg(r);
  cfg.golden = false;
  cfg.eos = false;
  cfg.api = (int)r.below(2);
  GopShape sh;
  bool lng = r.chance(30);
  sh.min_gops = lng ? 20 : 3;
  sh.max_gops = lng ? 80 : 14;
  sh.max_frames = lng ? 1 : 3;
  if (lng) sh.max_slices = 1, sh.max_size = 40, sh.big = 0, sh.extras = false;
  Stream video = random_video(r, cfg.codec, sh);
  int pull_pct = r.chance(40) ? r.range(10, 60) : r.range(0, 10);
  c.log("%s %s pull=%d", cfg.str().c_str(), types_of(video).c_str(), pull_pct);
  Sv svp = make_signer(cfg);
  signed_video_t *sv = svp.get();
  const Key &key = key_get(cfg.ec, cfg.key_idx);
  // The reference model.
  std::vector<Bytes> gop_hashes;
  {
    Bytes ihash, all;
    for (auto &n : video) {
      if (n.type == 'I') {
        if (!ihash.empty()) gop_hashes.push_back(digest(cfg.hash, all));
        all.clear();
        ihash = unit_hash(cfg.hash, n.core(), nullptr);
        all = ihash;
      } else if (n.picture() && !ihash.empty()) {
        Bytes h = unit_hash(cfg.hash, n.core(), &ihash);
        all.insert(all.end(), h.begin(), h.end());
      }
    }
  }
  Stream out;
  bool overflow = false;
  size_t made = 0, handed = 0, i_frames = 0, most = 0;
  uint32_t last_counter = 0;
  auto pull = [&](const Nalu *peek) {
    bool primary = !peek || peek->type == 'I' || peek->type == 'P';
    int guard = 0;
    for (; guard < 400; guard++) {
      size_t size = 0;
      unsigned pend = 0;
      int off = 0;
      const uint8_t *pk = peek && cfg.api == 0 ? peek->data.data() : nullptr;
      size_t pks = pk ? peek->data.size() : 0;
      Bytes b(40000);
      SignedVideoReturnCode rc = signed_video_get_sei(sv, b.data(), &size, &off, pk, pks, &pend);
      CHECK(rc == SV_OK, "get-failed", "get_sei returned %d", rc);
      if (!size) break;
      CHECK(primary || cfg.api != 0, "sei-before-secondary", "a SEI was handed out in front of a %c unit", peek ? peek->type : '-');
      b.resize(size);
      Sei s = parse_sei(cfg.codec, b);
      CHECK(s.ok, "sei-unparsable", "SEI %s", s.err.c_str());
      CHECK(verify_sig(key.pub, digest(cfg.hash, s.doc), s.signature), "wrong-signature", "SEI %zu does not hold its own signature", handed);
      CHECK(s.gop_counter > last_counter, "sei-order", "the SEI of GOP %u comes after that of GOP %u", s.gop_counter, last_counter);
      last_counter = s.gop_counter;
      if (!overflow) {
        CHECK(handed < gop_hashes.size() && s.gop_hash == gop_hashes[handed], "gop-hash", "SEI %zu is not of its GOP", handed);
      }
      handed++;
      Nalu n;
      n.data = b;
      n.sc = 4;
      n.type = 'S';
      out.push_back(n);
      c.ev("seis_checked_late");
    }
    CHECK(guard < 400, "get-never-ends", "SEIs are returned without end");
  };
  for (size_t i = 0; i < video.size(); i++) {
    const Nalu &n = video[i];
    bool pulling = r.chance(pull_pct);
    if (pulling && cfg.api == 0) pull(&n);
    Bytes d = n.data;
    SignedVideoReturnCode rc = signed_video_add_nalu_for_signing_with_timestamp(sv, d.data(), d.size(), nullptr);
    if (rc != SV_OK) {
      CHECK(rc == SV_NOT_SUPPORTED && n.type == 'I' && made - handed >= 60, "add-failed", "adding a %c unit returned %d with %zu SEIs waiting", n.type, rc, made - handed);
      overflow = true;
      c.ev("buffer_full_late");
    } else if (n.type == 'I' && i_frames++ > 0) {
      made++;
    }
    most = std::max(most, made - handed);
    if (pulling && cfg.api != 0) pull(&n);
    out.push_back(n);
  }
  pull(nullptr);
  CHECK(handed == made, "sei-lost", "%zu SEIs of %zu handed out", handed, made);
  if (most > 5) c.ev("piled_up");
  if (!overflow && handed > 1) {
    ValRun run = validate(c, cfg, out);
    for (auto &p : run.reports) {
      CHECK(p.auth != SV_AUTH_RESULT_NOT_OK && p.auth != SV_AUTH_RESULT_OK_WITH_MISSING_INFO, "intact-not-ok", "%s", p.str().c_str());
      if (p.auth == SV_AUTH_RESULT_OK) c.ev("ok_reports_late");
    }
  }
  c.seen(cfg.str() + types_of(out) + strf(" %d", pull_pct));
  c.sample(strf("%s SEIs pulled late, at most %zu waiting: %s", cfg.str().c_str(), most, types_of(out).substr(0, 80).c_str()));
}
#endif
