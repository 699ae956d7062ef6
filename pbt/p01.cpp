// P01: packing then parsing returns exactly the samples and metadata
#include "checkrec.hpp"
using namespace pbt;

static void
classify (Gen &g, const Desc &d, const Collector &c)
{
  g.label (std::string ("enc ") + encname (d.enc));
  if (c.recs.size () > 1)
    g.label ("several records");
  if (!d.extra.empty ())
    g.label ("extra headers");
  if (d.rate < 0)
    g.label ("period rate");
  if (c.recs.size () > 1 || !d.extra.empty ())
    g.nontrivial ();
}

static void
flush_version (Gen &g, int version)
{
  DescOpt op;
  op.version = version;
  Desc d     = gen_desc (g, op);
  g.note (d.show ());
  Collector c;
  int64_t packed = -77;
  uint32_t fl    = MSF_FLUSHDATA;
  Desc dd        = d;
  if (version == 2 && g.coin ())
  {
    dd.version = (int)g.pick<int> ({3, 0, 9}); // the flag decides
    fl |= MSF_PACKVER2;
  }
  if (d.reclen == 4096 && g.coin ())
    dd.reclen = -1; // default
  if (d.enc == DE_STEIM2 && g.coin ())
    dd.enc = -1;
  Series before = d.s;
  int rv        = pack (dd, c, &packed, fl);
  // a version 2 record counts its samples in 16 bits
  if (version == 2 && rv < 0 && d.reclen >= 32768)
  {
    g.label ("v2 record too long for its count");
    DISCARD ();
  }
  REQUIRE (rv > 0, "pack", "msr3_pack returns " << rv << "; " << lg::diag ());
  REQUIRE (before.same (dd.s.data (), before.size ()), "input-modified", "source samples changed by packing");
  size_t pos = check_records (g, d, version, c, packed, rv);
  REQUIRE (pos == d.s.size (), "samples-lost", "packed " << pos << " of " << d.s.size () << " samples with flush");
  classify (g, d, c);
}
static void
v3_flush (Gen &g)
{
  flush_version (g, 3);
}
static void
v2_flush (Gen &g)
{
  flush_version (g, 2);
}

// Is a record full: could one more sample of the series have been added?
static bool
could_hold_more (const Desc &d, int version, const Bytes &rec, size_t first, size_t count)
{
  // capacity of this record's payload
  size_t head = version == 3 ? 40 + d.sid.size () + d.extra.size () : model::get (&rec[44], 2, true);
  size_t cap  = d.reclen - head;
  switch (d.enc)
  {
  case DE_TEXT: return count < cap;
  case DE_INT16: return count < cap / 2;
  case DE_INT32:
  case DE_FLOAT32: return count < cap / 4;
  case DE_FLOAT64: return count < cap / 8;
  }
  // Steim: every frame must be used and the last word of the last frame filled
  size_t frames = cap / 64;
  size_t used   = version == 3 ? model::get (&rec[36], 4, false) / 64 : frames;
  if (used < frames)
    return true;
  const uint8_t *f = &rec[head + (frames - 1) * 64];
  uint32_t ctl     = model::get (f, 4, true);
  (void)first;
  if (frames == 1 && (ctl & 3) == 0)
    return true;
  return (ctl & 3) == 0;
}

static void
noflush (Gen &g)
{
  DescOpt op;
  op.bigreclen = false;
  Desc d       = gen_desc (g, op);
  g.note (d.show ());
  Collector c;
  int64_t packed = -77;
  int rv         = pack (d, c, &packed, 0);
  REQUIRE (rv >= 0, "pack", "msr3_pack returns " << rv << "; " << lg::diag ());
  size_t pos = check_records (g, d, d.version, c, packed, rv);
  size_t at  = 0;
  for (size_t k = 0; k < c.recs.size (); k++)
  {
    size_t n = d.version == 3 ? model::get (&c.recs[k][24], 4, false) : model::get (&c.recs[k][30], 2, true);
    REQUIRE (!could_hold_more (d, d.version, c.recs[k], at, n), "partial-record",
             "record " << k << " with " << n << " samples is not full though nothing asked for a flush");
    at += n;
  }
  // what was left out must not fill another record: with flush the rest fits few records
  if (pos == 0 && d.s.size ())
    g.label ("nothing packed");
  Collector rest;
  int64_t p2 = 0;
  Desc r     = d;
  r.s        = d.s.slice (pos, d.s.size () - pos);
  if (r.s.size ())
  {
    int rr = pack (r, rest, &p2, MSF_FLUSHDATA);
    REQUIRE (rr > 0 && p2 == (int64_t)r.s.size (), "pack", "packing the rest returns " << rr);
    // The library may keep back up to one record's worth of the best case
    uint64_t cap = d.reclen;
    if (d.enc == DE_STEIM1) cap = d.reclen / 64 * 60;
    if (d.enc == DE_STEIM2) cap = d.reclen / 64 * 105;
    REQUIRE (r.s.size () <= cap, "held-back", "kept back " << r.s.size () << " samples, more than a record can hold");
  }
  classify (g, d, c);
}

// A value an encoding cannot represent is an error, and what was emitted before it is right
static void
unrepresentable (Gen &g)
{
  DescOpt op;
  op.bigreclen = false;
  op.minn      = 2;
  op.maxn      = 800;
  Desc d       = gen_desc (g, op);
  d.enc        = g.coin () ? DE_INT16 : DE_STEIM2;
  size_t n     = d.s.size ();
  d.s          = gen_for_encoding (g, d.enc, n);
  if (d.version == 3)
    d.reclen = 40 + (int)d.sid.size () + (int)d.extra.size () + 64 * (int)g.range (1, 9);
  else
    d.reclen = std::max (d.reclen, 256);
  if (d.version == 2)
    while ((v2_header_len (d.extra, true, true) + 63) / 64 * 64 + 64 > d.reclen)
      d.reclen *= 2;
  size_t at = (size_t)g.range (d.enc == DE_STEIM2 ? 1 : 0, n - 1);
  if (d.enc == DE_INT16)
    d.s.i[at] = g.pick<int32_t> ({32768, -32769, 40000, 65535, 65536, 65537, -65536, INT32_MAX, INT32_MIN, 131072 + 5, 98304});
  else
  {
    // difference to the previous sample outside 30 bits
    int64_t diff = g.pick<int64_t> ({536870912LL, -536870913LL, 1000000000LL, -1000000000LL, 2147483647LL, -2147483647LL, 1073741824LL});
    if (g.coin ())
      diff += diff > 0 ? g.range (0, 1000000) : -g.range (0, 1000000);
    int64_t prev = d.s.i[at - 1];
    if (prev + diff > INT32_MAX || prev + diff < INT32_MIN)
    {
      prev = diff > 0 ? INT32_MIN + g.range (0, 100) : INT32_MAX - g.range (0, 100);
      if (prev + diff > INT32_MAX || prev + diff < INT32_MIN)
        diff = diff > 0 ? 2147483647LL : -2147483648LL;
      // rebuild the series around a constant level
      for (size_t k = 0; k < at; k++)
        d.s.i[k] = (int32_t)prev;
    }
    for (size_t k = at; k < n; k++)
      d.s.i[k] = (int32_t) (prev + diff);
  }
  g.note (d.show () + fmt (" bad at %zu", at));
  Collector c;
  int64_t packed = -77;
  int rv         = pack (d, c, &packed, MSF_FLUSHDATA);
  // the offending sample may start a record of its own, where no difference is stored
  if (rv >= 0)
  {
    REQUIRE (d.enc == DE_STEIM2, "silent-alteration", "INT16 packing of a value outside its range returns " << rv);
    size_t pos = check_records (g, d, d.version, c, packed, rv);
    REQUIRE (pos == n, "samples-lost", "packed " << pos << " of " << n);
    g.label ("difference falls between records");
    return;
  }
  g.nontrivial ();
  g.label (std::string ("refused ") + encname (d.enc));
  Desc pre = d;
  size_t pos = check_records (g, pre, d.version, c, packed < 0 ? 0 : packed, (int)c.recs.size ());
  REQUIRE (pos <= at, "silent-alteration", "records hold " << pos << " samples, the bad one is at " << at);
}

static void
headeronly (Gen &g)
{
  DescOpt op;
  op.bigreclen = false;
  Desc d       = gen_desc (g, op);
  d.s          = Series ();
  d.s.type     = 'i';
  g.note (d.show ());
  Collector c;
  int64_t packed = -77;
  int rv         = pack (d, c, &packed, g.coin () ? MSF_FLUSHDATA : 0);
  REQUIRE (rv == 1, "pack", "packing without samples returns " << rv << "; " << lg::diag ());
  Desc e = d;
  check_records (g, e, d.version, c, packed, rv);
  if (d.version == 3)
    REQUIRE (c.recs[0].size () == 40 + d.sid.size () + d.extra.size (), "record-length", "header-only record has " << c.recs[0].size () << " bytes");
  if (!d.extra.empty ())
    g.nontrivial ();
}

// Requests that cannot be honoured are errors, with no record emitted
static void
refused (Gen &g)
{
  DescOpt op;
  op.bigreclen = false;
  op.maxn      = 100;
  Desc d       = gen_desc (g, op);
  int kind     = (int)g.index (7);
  Collector c;
  int64_t packed = 0;
  switch (kind)
  {
  case 0: // sample type does not fit the encoding
  {
    char t = g.pick<char> ({'i', 'f', 'd', 't'});
    if (t == enctype (d.enc))
      DISCARD ();
    d.s = gen_series (g, t, g.range (1, 50));
    break;
  }
  case 1: d.reclen = d.version == 2 ? (int)g.pick<int> ({0, 64, 127, 100, 129, 500, 1000, 262144, 4095, 4097}) : (int)g.pick<int> ({0, 1, 39, 10485761, -2}); break;
  case 2: // header does not fit
    if (d.version == 2)
      DISCARD ();
    d.reclen = (int)g.range (40, 39 + std::max<int64_t> (1, (int64_t)d.sid.size () + d.extra.size ()));
    if (d.reclen >= 40 + (int)d.sid.size () + (int)d.extra.size ())
      DISCARD ();
    break;
  case 3: // identifier without version 2 counterpart
    d.version = 2;
    d.reclen  = 4096;
    d.sid     = g.pick<std::string> ({"FDSN:TOOLONG_STA_00_B_H_Z", "FDSN:XX_STATION_00_B_H_Z", "FDSN:XX_STA_000_B_H_Z", "FDSN:XX_STA_00_B_HH_Z", "noid", "FDSN:XX_STA_00_B_H_", "FDSN:XX_STA"});
    d.extra.clear ();
    break;
  case 4: // encodings that cannot be written
    d.enc = g.pick<int> ({12, 13, 14, 16, 30, 32, 33, 2, 99});
    break;
  case 6: // no room for a single sample or frame
  {
    bool steim = d.enc == DE_STEIM1 || d.enc == DE_STEIM2;
    int need   = steim ? 64 : d.enc == DE_TEXT ? 1 : d.enc == DE_INT16 ? 2 : d.enc == DE_FLOAT64 ? 8 : 4;
    if (d.version == 2 || !d.s.size ())
      DISCARD ();
    d.reclen = 40 + (int)d.sid.size () + (int)d.extra.size () + (g.coin () ? need - 1 : (int)g.range (0, need - 1));
    break;
  }
  default: // extra headers that are not JSON cannot become blockettes
    d.version = 2;
    d.sid     = "FDSN:XX_STA_00_B_H_Z";
    d.reclen  = 4096;
    d.extra   = g.pick<std::string> ({"{", "{\"a\":}", "nope", "{\"a\":1}}", "[1,2"});
  }
  g.note (d.show () + fmt (" kind %d", kind));
  int rv = pack (d, c, &packed, MSF_FLUSHDATA);
  REQUIRE (rv < 0, "refuse", "expected an error, msr3_pack returns " << rv << " with " << c.recs.size () << " records");
  REQUIRE (c.recs.empty (), "refuse", "a record was emitted for a request that cannot be honoured");
  REQUIRE (!lg::diag ().empty (), "message", "no message was logged with the error");
  g.label (fmt ("kind %d", kind));
  g.nontrivial ();
}

namespace pbt {
Property property = {
    "P01",
    "A case is a random identifier, start time, rate, flags, version, extra headers and sample series packed with a random encoding and "
    "record length; non-trivial: more than one record or extra headers, an unrepresentable value that was refused, or a refused request.",
    {{"v3_flush", 4, v3_flush}, {"v2_flush", 4, v2_flush}, {"noflush", 3, noflush}, {"unrepresentable", 2, unrepresentable}, {"headeronly", 1, headeronly}, {"refused", 1, refused}},
    std_reset,
    nullptr};
}
