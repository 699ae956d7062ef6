// A collection of records of several series, in many encodings and both versions,
// with the samples each one holds
#pragma once
#include "tl.hpp"
#include <unistd.h>

namespace store {

struct Rec
{
  Bytes bytes;
  size_t off = 0; // position in the whole
  std::string sid;
  int version     = 3;
  int enc         = DE_INT32;
  bool b1000      = true;
  int64_t start   = 0;
  double rate     = 1;
  Series s;
  int pub         = 1;
  uint32_t dataoff = 0;
  uint8_t flags    = 0;
  std::string
  show () const
  {
    return fmt ("@%zu %zu bytes v%d %s %s%s start %s rate %.10g pub %d dataoff %u ", off, bytes.size (), version, sid.c_str (), encname (enc), b1000 ? "" : " (no b1000)", tstr (start).c_str (), rate, pub, dataoff) + s.show ();
  }
};

struct Opt
{
  int maxids     = 3;
  int maxpieces  = 12;
  int maxn       = 60;
  bool shuffle   = true;
  bool gaps      = true;
  bool mixtypes  = false; // different sample types in one series
  bool nob1000   = true;
  bool legacy    = true;  // encodings only the reader knows
  bool pubs      = false; // several versions
  bool dataless  = false; // records without samples in between
  const char *types = "ifdt";
};

// a record of these samples as other software writes it; false if this encoding cannot
inline bool
foreign (Gen &g, Rec &r, const std::string &net, const std::string &sta, const std::string &loc, const std::string &chan, size_t n)
{
  bool steim = r.enc == DE_STEIM1 || r.enc == DE_STEIM2;
  if (r.version == 3)
  {
    model::Rec3 m;
    model::Civil c = model::civil (r.start);
    m.nsec = c.nsec;
    m.year = (uint16_t)c.year;
    m.doy  = (uint16_t)c.doy;
    m.hour = (uint8_t)c.hour;
    m.min  = (uint8_t)c.min;
    m.sec  = (uint8_t)c.sec;
    m.ratebits   = model::d2bits (r.rate);
    m.encoding   = (uint8_t)r.enc;
    m.pubversion = (uint8_t)r.pub;
    m.sid        = r.sid;
    if (g.chance (1, 3))
      m.flags = r.flags = (uint8_t)(g.coin () ? 1 << g.raw (8) : g.raw (256));
    if (g.chance (1, 3))
      m.extra = gen_extra_v3 (g);
    payload::Coded co = payload::encode (g, r.enc, n, steim, 1 << 20);
    m.data  = co.data;
    r.s     = co.s;
    if (r.s.size () && g.chance (1, 8))
      m.data.resize (m.data.size () + (steim ? 64 * g.range (1, 2) : g.range (1, 9)), 0);
    m.nsamp   = (uint32_t)r.s.size ();
    r.bytes   = m.build ();
    r.dataoff = 40 + m.sid.size () + m.extra.size ();
    r.b1000   = true;
    return r.s.size () > 0;
  }
  v2::Rec v;
  v.big   = g.chance (2, 3);
  v.net   = net;
  v.sta   = sta;
  v.loc   = loc;
  v.chan  = chan;
  v.start = r.start;
  v.quality = r.pub == 1 ? 'R' : r.pub == 2 ? 'D' : r.pub == 3 ? 'Q' : 'M';
  v.factor  = (int16_t)(r.rate > 0 ? r.rate : r.rate);
  v.mult    = 1;
  if (g.chance (1, 3))
  {
    v.act   = g.coin () ? 1 : 0;
    v.io    = g.coin () ? 0x20 : 0;
    v.dq    = g.coin () ? 0x80 : 0;
    r.flags = (uint8_t)((v.act ? 1 : 0) | (v.dq ? 2 : 0) | (v.io ? 4 : 0));
  }
  bool databig = v.big;
  if (r.b1000)
  {
    if (g.chance (1, 4))
      databig = !v.big;
    v2::Blk b;
    b.type = 1000;
    b.raw  = Bytes (8, 0);
    v2::header (b.raw, 1000, v.big);
    b.raw[4] = (uint8_t)r.enc;
    b.raw[5] = databig;
    v.blks.push_back (b);
  }
  size_t end = v.layout ({});
  size_t off = g.chance (3, 4) ? (end + 63) / 64 * 64 : end + 4 * g.range (0, 5);
  int exp    = 7 + (int)g.range (0, 4);
  while (((size_t)1 << exp) < off + 64)
    exp++;
  v.reclen = 1 << exp;
  payload::Coded co = payload::encode (g, r.enc, n, databig, v.reclen - off);
  r.s = co.s;
  if (!r.s.size ())
    return false;
  v.data    = co.data;
  v.dataoff = (uint16_t)off;
  v.nsamp   = (uint16_t)r.s.size ();
  if (r.b1000)
    v.blks[0].raw[6] = (uint8_t)exp;
  r.bytes   = v.bytes (0);
  r.dataoff = (uint32_t)off;
  return true;
}

inline std::vector<int>
encodings_of (char type, bool legacy)
{
  switch (type)
  {
  case 't': return {DE_TEXT};
  case 'd': return {DE_FLOAT64};
  case 'f': return legacy ? std::vector<int>{DE_FLOAT32, DE_GEOSCOPE24, DE_GEOSCOPE163, DE_GEOSCOPE164} : std::vector<int>{DE_FLOAT32};
  default: return legacy ? std::vector<int>{DE_STEIM1, DE_STEIM2, DE_INT32, DE_INT16, DE_CDSN, DE_SRO, DE_DWWSSN} : std::vector<int>{DE_STEIM1, DE_STEIM2, DE_INT32, DE_INT16};
  }
}

// records of one or more series, in the order they are stored
inline std::vector<Rec>
gen (Gen &g, const Opt &o = Opt ())
{
  std::vector<Rec> recs;
  size_t nids = 1 + g.raw (o.maxids);
  for (size_t q = 0; q < nids; q++)
  {
    const char *cs = UPNUM;
    std::string net = g.str (cs, 1, 2), sta = g.str (cs, 1, 5), loc = g.coin () ? g.str (cs, 2, 2) : "", chan = g.str ("ABCLHZNE12", 3, 3);
    std::string sid = "FDSN:" + net + "_" + sta + "_" + loc + "_" + chan[0] + "_" + chan[1] + "_" + chan[2];
    for (auto &x : recs)
      if (x.sid == sid)
        sid = "";
    if (sid.empty ())
      continue;
    char type   = o.types[g.index (strlen (o.types))];
    double rate = (double)g.pick<int> ({1, 20, 40, 100, -10, 200, 50, -1});
    // whole sample periods are multiples of 100 us: version 2 holds these times
    int64_t base = model::to_ns (g.range (1975, 2030), (int)g.range (2, 360), (int)g.range (0, 23), (int)g.range (0, 59), (int)g.range (0, 59), g.range (0, 9999) * 100000);
    for (int64_t lp : model::leaps ())
      if (llabs (lp - base) < 86400LL * 40 * 1000000000LL)
        base += 86400LL * 90 * 1000000000LL;
    int np      = (int)g.size (1, o.maxpieces);
    int64_t pos = 1000; // room for overlaps
    for (int k = 0; k < np; k++)
    {
      if (o.dataless && g.chance (1, 4))
      {
        Rec r;
        r.sid     = sid;
        r.rate    = rate;
        r.start   = base + sample_span (rate, pos + (g.coin () ? 0 : g.range (-12, 12)));
        r.version = g.coin () ? 3 : 2;
        r.enc     = DE_TEXT;
        Desc d;
        d.version = r.version;
        d.sid     = sid;
        d.rate    = rate;
        d.enc     = g.pick<int> ({DE_TEXT, DE_INT32, DE_STEIM2});
        d.start   = r.start;
        d.reclen  = r.version == 2 ? 128 << g.range (0, 4) : 128 + (int)g.range (0, 600);
        Collector col;
        int rv = pack (d, col, nullptr, MSF_FLUSHDATA | (r.version == 2 ? MSF_PACKVER2 : 0));
        REQUIRE (rv == 1 && col.recs.size () == 1, "pack", "packing no samples gives " << rv << "; " << lg::diag ());
        r.bytes = col.recs[0];
        recs.push_back (r);
      }
      Rec r;
      r.sid   = sid;
      r.rate  = rate;
      r.start = base + sample_span (rate, pos);
      r.pub   = o.pubs ? (int)g.range (1, 4) : 1;
      char t  = o.mixtypes && g.chance (1, 3) ? o.types[g.index (strlen (o.types))] : type;
      r.enc   = g.pick<int> (encodings_of (t, o.legacy));
      size_t n = (size_t)g.size (1, o.maxn);
      r.version = g.coin () ? 3 : 2;
      bool legal2 = model::civil (r.start).year > 1900;
      if (!legal2)
        r.version = 3;
      if (r.enc == DE_STEIM1 && r.version == 2 && o.nob1000)
        r.b1000 = !g.chance (1, 4);
      bool packable = r.enc == DE_TEXT || r.enc == DE_INT16 || r.enc == DE_INT32 || r.enc == DE_FLOAT32 || r.enc == DE_FLOAT64 || r.enc == DE_STEIM1 || r.enc == DE_STEIM2;
      if (packable && r.b1000 && g.coin ())
      {
        Desc d;
        d.version    = r.version;
        d.sid        = sid;
        d.enc        = r.enc;
        d.rate       = rate;
        d.pubversion = (uint8_t)r.pub;
        d.s          = gen_for_encoding (g, r.enc, n);
        d.start      = r.start;
        d.reclen     = r.version == 2 ? 128 << g.range (0, 4) : 128 + (int)g.range (0, 600);
        Collector col;
        int64_t packed = 0;
        int rv = pack (d, col, &packed, MSF_FLUSHDATA | (r.version == 2 ? MSF_PACKVER2 : 0));
        REQUIRE (rv == (int)col.recs.size () && rv > 0 && packed == (int64_t)n, "pack", "packing gives " << rv << " records, " << packed << " samples; " << lg::diag ());
        size_t at = 0;
        for (auto &b : col.recs)
        {
          Rec x = r;
          size_t cnt;
          if (r.version == 2)
          {
            cnt       = model::get (&b[30], 2, true);
            x.dataoff = (uint32_t)model::get (&b[44], 2, true);
          }
          else
          {
            cnt       = model::get (&b[24], 4, false);
            x.dataoff = 40 + b[33] + (uint32_t)model::get (&b[34], 2, false);
          }
          x.start = base + sample_span (rate, pos + at);
          x.s     = d.s.slice (at, cnt);
          x.bytes = b;
          at += cnt;
          recs.push_back (x);
        }
        pos += n;
      }
      else
      {
        if (!foreign (g, r, net, sta, loc, chan, n))
          DISCARD ();
        recs.push_back (r);
        pos += r.s.size ();
      }
      if (o.gaps && g.chance (1, 5))
        pos += g.range (-10, 40);
    }
  }
  if (o.shuffle && g.coin ())
  {
    bool all = g.coin ();
    for (size_t k = recs.size (); k > 1; k--)
      if (all || g.chance (1, 4))
        std::swap (recs[k - 1], recs[g.index (k)]);
  }
  // the length of a record without blockette 1000 is only known from a version 2
  // record behind it
  std::vector<Rec> loose, kept;
  for (auto &r : recs)
    (r.b1000 ? kept : loose).push_back (r);
  for (auto &r : loose)
  {
    std::vector<size_t> places;
    for (size_t k = 0; k < kept.size (); k++)
      if (kept[k].version == 2)
        places.push_back (k);
    if (places.empty ())
      DISCARD ();
    kept.insert (kept.begin () + places[g.index (places.size ())], r);
  }
  recs = kept;
  size_t off = 0;
  for (auto &r : recs)
  {
    if (r.version == 2 && v2_ambiguous (r.bytes))
      DISCARD ();
    r.off = off;
    off += r.bytes.size ();
  }
  return recs;
}

inline Bytes
join (const std::vector<Rec> &recs, size_t from = 0, size_t to = SIZE_MAX)
{
  Bytes b;
  for (size_t k = from; k < recs.size () && k < to; k++)
    b.insert (b.end (), recs[k].bytes.begin (), recs[k].bytes.end ());
  return b;
}

// before: that many bytes first, of which nothing is stored
inline void
write_file (const std::string &path, const Bytes &b, int64_t before = 0)
{
  FILE *f = fopen (path.c_str (), "wb");
  REQUIRE (f, "harness", "cannot write " << path);
  bool good = !before || !fseeko (f, before, SEEK_SET);
  if (!b.empty ())
    good = fwrite (b.data (), 1, b.size (), f) == b.size () && good;
  else if (before && good)
    good = !ftruncate (fileno (f), before);
  good = !fclose (f) && good;
  if (before && !good) // not on this file system
    DISCARD ();
  REQUIRE (good, "harness", "cannot write " << path);
}
// somewhere in a long file
inline int64_t
gen_far (Gen &g)
{
  return g.pick<int64_t> ({g.range (1, 300), (int64_t)1 << 31, (int64_t)1 << 32, 5000000000, 20000000000}) + (g.coin () ? g.range (-200, 200) : 0);
}

} // namespace store
