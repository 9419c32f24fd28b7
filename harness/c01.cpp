// C01: an intact signed video is reported authentic.
#include "common.hpp"

PROPERTY(C01)
{
  SignCfg cfg = random_cfg(r);
  cfg.eos = r.chance(25);
  GopShape sh;
  sh.longs = 2;
  if (c.thorough && r.chance(20)) sh.max_gops = 12, sh.max_frames = 30;
  Stream video = random_video(r, cfg.codec, sh);
  if (r.chance(15)) random_eos(r, cfg, video);
  SignedStream ss = sign_video(c, r, cfg, video);
  Stream s = ss.s;
  maybe_wraparound(c, r, s, cfg, ss.gop_uids.size());
  int delay = 0;
  if (r.chance(40) && !cfg.golden) {
    delay = r.range(1, 20);
    s = delay_seis(r, s, delay);
  }
  std::string desc = cfg.str() + strf(" delay=%d ", delay) + types_of(s);
  c.log("%s", desc.c_str());
  ValRun run = validate(c, cfg, s);
  for (auto &p : run.reports) c.log("%s", p.str().c_str());
  check_intact(c, ss.gop_uids.size(), s, run);
  check_counters(c, s, run);
  c.seen(desc);
  c.sample(desc + " -> " + run.reports.back().vstr);
}
