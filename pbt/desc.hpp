// Generation of things to pack, and what their records must look like
#pragma once
#include "ext.hpp"

struct DescOpt
{
  int version   = 0; // 0: either
  int maxn      = 3000;
  bool extras   = true;
  bool any_rate = true;
  int minn      = 1;
  bool bigreclen = true;
};

// start time such that start + dur stays in the range of years the formats share
inline int64_t
gen_start (Gen &g, double dur_s)
{
  double years = dur_s / 31556952.0;
  return gen_time (g, (int)(years + 4));
}

// The byte order of a version 2 record is found by trying its year and day; the
// documentation names days 1, 256 and 257 of 2056 as readable both ways (bytes of
// 1800 read as 2055 likewise).  Such records are outside of every property here.
inline bool
v2_ambiguous (const Bytes &rec)
{
  if (rec.size () < 24 || !memcmp (rec.data (), "MS\3", 3))
    return false;
  for (bool big : {true, false})
  {
    int y = (int)model::get (&rec[20], 2, big), d = (int)model::get (&rec[22], 2, big);
    if ((y == 2056 || y == 1800) && (d == 1 || d == 256 || d == 257))
      return true;
  }
  return false;
}

inline int
v2_header_len (const std::string &extra, bool b1001, bool b100)
{
  int len = 48 + 8 + (b1001 ? 8 : 0) + (b100 ? 12 : 0);
  Json o;
  if (!extra.empty () && model::json_parse (extra, o))
  {
    if (const Json *a = o.at ("/FDSN/Time/Exception"))
      len += 200 * (int)a->a.size ();
    if (const Json *a = o.at ("/FDSN/Event/Detection"))
      for (auto &e : a->a)
      {
        int l;
        ext::blk_len (e, false, l);
        len += l;
      }
    if (const Json *a = o.at ("/FDSN/Calibration/Sequence"))
      for (auto &e : a->a)
      {
        int l;
        ext::blk_len (e, true, l);
        len += l;
      }
  }
  return len;
}

inline Desc
gen_desc (Gen &g, const DescOpt &op = DescOpt ())
{
  Desc d;
  d.version    = op.version ? op.version : (g.coin () ? 2 : 3);
  bool v2      = d.version == 2;
  d.sid        = gen_sid (g, v2);
  d.enc        = gen_packenc (g);
  d.rate       = v2 ? gen_rate2 (g) : gen_rate (g);
  d.flags      = v2 ? (uint8_t)g.range (0, 7) : (g.coin () ? (uint8_t)g.range (0, 255) : 0);
  d.pubversion = v2 ? (uint8_t)g.range (1, 4) : (uint8_t)(g.coin () ? g.range (0, 4) : g.range (0, 255));
  size_t n     = (size_t)g.size (op.minn, op.maxn);
  d.s          = gen_for_encoding (g, d.enc, n);
  double dur   = (double)n / hz (d.rate);
  d.start      = gen_start (g, dur);
  bool steim   = d.enc == DE_STEIM1 || d.enc == DE_STEIM2;
  if (v2)
  {
    d.reclen = 128 << g.weighted ({6, 5, 5, 4, 2, 2, 1, op.bigreclen ? 1 : 0, op.bigreclen ? 1 : 0, op.bigreclen ? 1 : 0, op.bigreclen ? 1 : 0});
    if (op.extras && g.coin ())
    {
      int room = d.reclen - 76 - 64;
      Json o   = ext::gen_v2able (g, room > 0 ? room : 0);
      if (!ext::empty (o))
        d.extra = o.text ();
    }
    // room for at least one frame or sample
    while (true)
    {
      int h = v2_header_len (d.extra, true, true);
      int o = steim ? (h + 63) / 64 * 64 : h;
      if (o + 64 <= d.reclen)
        break;
      d.reclen *= 2;
    }
  }
  else
  {
    if (op.extras)
      d.extra = g.chance (1, 4) ? [&] { Json o = ext::gen_v2able (g, 500); return ext::empty (o) ? std::string () : o.text (); }() : gen_extra_v3 (g);
    int head = 40 + (int)d.sid.size () + (int)d.extra.size ();
    int need = steim ? 64 : 8;
    switch (g.weighted ({3, 3, 3, 1}))
    {
    case 0: d.reclen = head + need + (int)g.range (0, 100); break;
    case 1: d.reclen = head + need + (int)g.range (0, 1000); break;
    case 2: d.reclen = std::max<int> (head + need, 128 << g.range (0, 6)); break;
    default: d.reclen = op.bigreclen ? head + need + (int)g.range (0, 200000) : 4096;
    }
  }
  return d;
}

// does a version 2 header of this description carry microseconds?
inline bool
v2_has_b1001 (const Desc &d)
{
  model::Civil c = model::civil (d.start);
  if ((c.nsec / 1000) % 100)
    return true;
  Json o;
  return !d.extra.empty () && model::json_parse (d.extra, o) && o.at ("/FDSN/Time/Quality");
}
// nanoseconds from the first sample to sample k, exactly rounded as far as long double goes
inline int64_t
sample_span (double rate, uint64_t k)
{
  long double off = rate < 0 ? (long double)k * -(long double)rate : (long double)k / (long double)rate;
  return (int64_t)floorl (off * 1e9L + 0.5L);
}
// error allowed for double arithmetic on an offset of k samples
inline int64_t
time_tol (double rate, uint64_t k)
{
  double off = (double)k / hz (rate) * 1e9;
  return k ? 2 + (int64_t)(off * 4.5e-16) : 0;
}
inline int64_t
sample_time (int64_t start, double rate, uint64_t k)
{
  return model::leap_adjust (start, sample_span (rate, k), model::leaps ());
}
// is got the time of sample k, or up to 'down' earlier?
inline bool
time_ok (int64_t start, double rate, uint64_t k, int64_t got, int64_t down = 0)
{
  int64_t margin, tol = time_tol (rate, k);
  int64_t want = model::leap_adjust (start, sample_span (rate, k), model::leaps (), &margin);
  if (got <= want + tol && got >= want - tol - down)
    return true;
  // rounding may decide whether the leap second is inside
  if (margin <= tol + 1)
    for (int64_t w : {want - 1000000000, want + 1000000000})
      if (got <= w + tol && got >= w - tol - down)
        return true;
  return false;
}
// may a record with start 'got' represent sample k in this version?
inline bool
start_ok (const Desc &d, int version, int64_t got, uint64_t k)
{
  return time_ok (d.start, d.rate, k, got, version == 3 ? 0 : (v2_has_b1001 (d) ? 1000 : 100000) - 1);
}
inline bool
rate_ok (int version, double want, double got)
{
  double w = hz (want), h = hz (got);
  if (want == got)
    return true;
  if (version == 3)
    return fabs (w - h) <= w * 1e-15;
  // version 2: exact for whole numbers that its two 16 bit factors can express
  if (want > 0 && want <= 32767 && want == floor (want))
    return h == w;
  if (want < 0 && want >= -32767 && want == floor (want))
    return fabs (w - h) <= w * 1e-12;
  return fabs (w - h) <= 1e-4 + w * 1e-6;
}

// extra headers a record of this version is expected to present: blockette 1001,
// needed for microseconds, always carries a timing quality
inline std::string
expected_extra (const Desc &d, int version)
{
  if (version != 2 || !v2_has_b1001 (d))
    return d.extra;
  Json o = Json::object ();
  if (!d.extra.empty ())
    model::json_parse (d.extra, o);
  if (!o.at ("/FDSN/Time/Quality"))
    o.setp ("/FDSN/Time/Quality", Json::integer (0));
  return o.text ();
}
inline bool
extra_same (const std::string &want, const MS3Record *m)
{
  std::string got (m->extra ? m->extra : "", m->extralength);
  if (want.empty ())
    return got.empty ();
  Json a, b;
  return model::json_parse (want, a) && model::json_parse (got, b) && model::json_eq (a, b);
}
