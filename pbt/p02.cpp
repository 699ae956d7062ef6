// P02: emitted records conform to the format, for a reader independent of the library
#include "desc.hpp"
#include "payload.hpp"
#include "v2.hpp"
using namespace pbt;

static size_t
strict_v3 (const Desc &d, const Bytes &r, size_t k, size_t pos)
{
  model::Rec3 m;
  std::string w = m.read (r.data (), r.size ());
  REQUIRE (w.empty (), "v3-format", "record " << k << ": " << w << ": " << hexdump (r.data (), r.size ()));
  REQUIRE (m.sid == d.sid, "v3-sid", quote (m.sid) << " want " << quote (d.sid));
  REQUIRE (m.flags == d.flags && m.pubversion == d.pubversion, "v3-flags", (int)m.flags << "/" << (int)m.pubversion << " want " << (int)d.flags << "/" << (int)d.pubversion);
  Json a, b;
  if (d.extra.empty ())
    REQUIRE (m.extra.empty (), "v3-extra", "extra headers appeared: " << m.extra);
  else
    REQUIRE (model::json_parse (m.extra, a) && model::json_parse (d.extra, b) && model::json_eq (a, b), "v3-extra", m.extra << " want " << d.extra);
  // the rate field is Hz when positive, the sample period in seconds when negative
  double rate = model::bits2d (m.ratebits);
  REQUIRE (rate_ok (3, d.rate, rate), "v3-rate", fmt ("rate field %.17g for %.17g", rate, d.rate));
  REQUIRE (time_ok (d.start, d.rate, pos, (int64_t)m.start ()), "v3-start", "record " << k << " starts " << tstr ((int64_t)m.start ()) << " want " << tstr (sample_time (d.start, d.rate, pos)));
  if (d.s.size () == 0)
  {
    REQUIRE (m.nsamp == 0 && m.data.empty (), "v3-payload", "record without samples has " << m.nsamp << " samples in " << m.data.size () << " bytes");
    return 0;
  }
  REQUIRE (m.encoding == d.enc, "v3-encoding", (int)m.encoding << " want " << d.enc);
  Series s;
  bool big = d.enc == DE_STEIM1 || d.enc == DE_STEIM2;
  w        = payload::decode (d.enc, m.data.data (), m.data.size (), m.nsamp, big, s, true);
  REQUIRE (w.empty (), "v3-payload", "record " << k << ": " << w);
  REQUIRE (m.nsamp > 0 && pos + m.nsamp <= d.s.size (), "v3-payload", "record " << k << " sample count " << m.nsamp);
  Series want = d.s.slice (pos, m.nsamp);
  REQUIRE (want.same (s.data (), s.size ()), "v3-samples", "record " << k << " holds " << s.show () << " want " << want.show ());
  return m.nsamp;
}

static size_t
strict_v2 (const Desc &d, const Bytes &r, size_t k, size_t pos)
{
  v2::Rec m;
  std::string w = m.read (r.data (), r.size ());
  REQUIRE (w.empty (), "v2-format", "record " << k << ": " << w << ": " << hexdump (r.data (), r.size (), 200));
  REQUIRE ((int)r.size () == d.reclen, "v2-length", r.size () << " want " << d.reclen);
  std::string sid = "FDSN:" + m.net + "_" + m.sta + "_" + m.loc + "_" + m.chan.substr (0, 1) + "_" + (m.chan.size () > 1 ? m.chan.substr (1, 1) : "") + "_" + (m.chan.size () > 2 ? m.chan.substr (2, 1) : "");
  REQUIRE (sid == d.sid, "v2-sid", quote (sid) << " want " << quote (d.sid));
  REQUIRE (v2::pubversion_of (m.quality) == d.pubversion, "v2-quality", "quality " << m.quality << " for publication version " << (int)d.pubversion);
  REQUIRE (v2::flags_of (m) == d.flags, "v2-flags", (int)v2::flags_of (m) << " want " << (int)d.flags);
  std::string err, want = expected_extra (d, 2);
  Json got = v2::extra_of (m, &err), wj = Json::object ();
  REQUIRE (err.empty (), "v2-blockette", "record " << k << ": " << err);
  if (!want.empty ())
    model::json_parse (want, wj);
  REQUIRE (model::json_eq (v2::norm (got), v2::norm (wj)), "v2-extra", "record " << k << " carries " << got.text () << " want " << wj.text ());
  if (m.corr)
    REQUIRE (m.act & 2, "v2-correction", "a time correction is present but not marked as applied");
  else
    REQUIRE (!(m.act & 2), "v2-correction", "correction marked as applied without one");
  // rate
  double rate     = v2::nominal (m.factor, m.mult);
  const v2::Blk *b = m.find (100);
  if (b)
  {
    rate = v2::get_f (&b->raw[4], m.big);
    REQUIRE (!b->raw[8] && !b->raw[9] && !b->raw[10] && !b->raw[11], "v2-blockette", "flags or reserved bytes of blockette 100 not zero");
  }
  double h = hz (d.rate);
  REQUIRE (rate > 0 && (fabs (rate - h) <= 1.001e-4 || fabs (rate - h) <= h * 1.2e-7), "v2-rate", fmt ("record gives %.17g Hz (factor %d multiplier %d%s) for %.17g Hz", rate, m.factor, m.mult, b ? " blockette 100" : "", h));
  // start
  int64_t st = m.start;
  b          = m.find (1001);
  if (b)
  {
    st += (int8_t)b->raw[5] * 1000;
    REQUIRE (b->raw[6] == 0, "v2-blockette", "reserved byte of blockette 1001 not zero");
  }
  REQUIRE (start_ok (d, 2, st, pos), "v2-start", "record " << k << " starts " << tstr (st) << " want " << tstr (sample_time (d.start, d.rate, pos)));
  b = m.find (1000);
  if (d.s.size () == 0)
  {
    REQUIRE (m.nsamp == 0, "v2-payload", "record without samples counts " << m.nsamp);
    return 0;
  }
  REQUIRE (b->raw[4] == d.enc, "v2-encoding", (int)b->raw[4] << " want " << d.enc);
  Series s;
  size_t len = m.data.size ();
  if (d.enc == DE_STEIM1 || d.enc == DE_STEIM2)
  {
    REQUIRE (m.dataoff % 64 == 0 || d.reclen < 64, "v2-alignment", "Steim data at byte " << m.dataoff);
    len = len / 64 * 64;
  }
  w = payload::decode (d.enc, m.data.data (), len, m.nsamp, b->raw[5] == 1, s, false);
  REQUIRE (w.empty (), "v2-payload", "record " << k << ": " << w);
  REQUIRE (m.nsamp > 0 && pos + m.nsamp <= d.s.size (), "v2-payload", "record " << k << " sample count " << m.nsamp);
  Series ws = d.s.slice (pos, m.nsamp);
  REQUIRE (ws.same (s.data (), s.size ()), "v2-samples", "record " << k << " holds " << s.show () << " want " << ws.show ());
  // unused space after fixed-width samples
  if (d.enc != DE_STEIM1 && d.enc != DE_STEIM2)
  {
    int w1 = d.enc == DE_TEXT ? 1 : d.enc == DE_INT16 ? 2 : d.enc == DE_FLOAT64 ? 8 : 4;
    for (size_t q = (size_t)m.nsamp * w1; q < m.data.size (); q++)
      REQUIRE (m.data[q] == 0, "v2-padding", "byte " << q << " after the samples is not zero");
  }
  return m.nsamp;
}

static void
strict_all (Gen &g, const Desc &d, uint32_t fl, const Desc *how = nullptr)
{
  if (!how)
    how = &d;
  Collector c, e;
  int64_t packed = 0, packed2 = 0;
  mem::st ().fill = 0xA7;
  mem::paint_stack (0x5c);
  int rv = pack (*how, c, &packed, fl);
  if (d.version == 2 && rv < 0 && d.reclen >= 32768 && d.s.size () > 65535)
    DISCARD ();
  REQUIRE (rv >= 0 && rv == (int)c.recs.size (), "pack", "msr3_pack returns " << rv << "; " << lg::diag ());
  for (auto &r : c.recs)
    if (d.version == 2 && v2_ambiguous (r))
      DISCARD ();
  mem::st ().fill = 0x3b;
  mem::paint_stack (0xe1);
  int rv2 = pack (*how, e, &packed2, fl);
  REQUIRE (rv2 == rv && packed2 == packed, "determinism", "packing the same input again gives " << rv2 << " records, first " << rv);
  for (size_t k = 0; k < c.recs.size (); k++)
    if (c.recs[k] != e.recs[k])
    {
      size_t q = 0;
      while (q < c.recs[k].size () && q < e.recs[k].size () && c.recs[k][q] == e.recs[k][q])
        q++;
      REQUIRE (false, "determinism", "record " << k << " differs at byte " << q << " when packed again: " << hexdump (&c.recs[k][q], std::min<size_t> (8, c.recs[k].size () - q)) << " then " << hexdump (&e.recs[k][q], std::min<size_t> (8, e.recs[k].size () - q)));
    }
  size_t pos = 0;
  for (size_t k = 0; k < c.recs.size (); k++)
  {
    REQUIRE ((int)c.recs[k].size () <= d.reclen, "length", "record of " << c.recs[k].size () << " bytes, limit " << d.reclen);
    pos += d.version == 3 ? strict_v3 (d, c.recs[k], k, pos) : strict_v2 (d, c.recs[k], k, pos);
  }
  REQUIRE ((int64_t)pos == packed, "packed-count", "reported " << packed << ", records hold " << pos);
  if (fl & MSF_FLUSHDATA)
    REQUIRE (pos == d.s.size (), "samples-lost", pos << " of " << d.s.size ());
  g.label (std::string ("enc ") + encname (d.enc) + (d.version == 3 ? " v3" : " v2"));
  if (c.recs.size () > 1)
    g.label ("several records");
  if (!d.extra.empty ())
    g.label ("extra headers");
  if (c.recs.size () > 1 || !d.extra.empty ())
    g.nontrivial ();
}

static void
v3 (Gen &g)
{
  DescOpt op;
  op.version = 3;
  Desc d     = gen_desc (g, op);
  if (g.chance (1, 60)) // long extra headers
  {
    Json o = Json::object ();
    o.set ("Blob", Json::string (std::string ((size_t)g.range (1000, 65400), 'x')));
    size_t old = d.extra.size ();
    d.extra    = o.text ();
    d.reclen += (int) (d.extra.size () - old);
  }
  g.note (d.show ());
  strict_all (g, d, g.chance (3, 4) ? MSF_FLUSHDATA : 0);
}
// the same version 2 header content, requested in another way: letter case of names,
// the quality indicator as a header, a calibration end without a type, entries that
// are not objects, headers without a counterpart
static Desc
reworded (Gen &g, Desc &d)
{
  Desc how = d;
  Json o   = Json::object ();
  if (!d.extra.empty ())
    model::json_parse (d.extra, o);
  auto recase = [&] (Json &e, const char *key) {
    for (auto &kv : e.o)
      if (kv.first == key)
        for (char &c : kv.second.s)
          c = g.coin () ? (char)tolower (c) : c;
  };
  auto array = [&] (const char *path) -> Json * { return const_cast<Json *> (o.at (path)); };
  if (Json *a = array ("/FDSN/Calibration/Sequence"))
  {
    for (auto &e : a->a)
    {
      bool drop = false;
      for (auto &kv : e.o)
        drop |= kv.first == "EndTime" && g.coin ();
      if (drop)
        e.o.erase (std::remove_if (e.o.begin (), e.o.end (), [] (const std::pair<std::string, Json> &kv) { return kv.first == "Type"; }), e.o.end ());
      recase (e, "Type");
      recase (e, "Trigger");
    }
    if (g.coin ())
      a->a.insert (a->a.begin () + g.index (a->a.size () + 1), Json::integer (7));
  }
  for (const char *path : {"/FDSN/Event/Detection", "/FDSN/Time/Exception"})
    if (Json *a = array (path))
    {
      if (path[6] == 'E')
        for (auto &e : a->a)
        {
          recase (e, "Wave");
          recase (e, "Units");
        }
      if (g.coin ())
        a->a.insert (a->a.begin () + g.index (a->a.size () + 1), Json::string ("nothing"));
    }
  if (g.coin ())
  {
    const char *q = g.pick<const char *> ({"R", "D", "Q", "M"});
    o.setp ("/FDSN/DataQuality", Json::string (q));
    d.pubversion   = (uint8_t)v2::pubversion_of (*q);
    how.pubversion = (uint8_t)g.range (0, 255);
    g.label ("quality indicator");
  }
  if (g.coin ())
    o.setp ("/Operator/Note", Json::string ("none"));
  if (g.coin () && ext::add_neutral (g, o))
    g.label ("headers saying no");
  if (o.o.size ())
    how.extra = o.text ();
  return how;
}
static void
v2f (Gen &g)
{
  DescOpt op;
  op.version = 2;
  Desc d     = gen_desc (g, op), how = d;
  if (g.chance (1, 4))
    how = reworded (g, d);
  g.note (how.show ());
  strict_all (g, d, g.chance (3, 4) ? MSF_FLUSHDATA : 0, &how);
}
static void
nosamples (Gen &g)
{
  DescOpt op;
  op.bigreclen = false;
  Desc d       = gen_desc (g, op);
  d.s          = Series ();
  d.s.type     = 'i';
  g.note (d.show ());
  strict_all (g, d, MSF_FLUSHDATA);
}
// a header packed on its own is the header of the record, in any buffer that can hold it
static void
header (Gen &g)
{
  DescOpt op;
  op.maxn = 20;
  op.minn = 1;
  Desc d  = gen_desc (g, op);
  g.note (d.show ());
  Collector c;
  int64_t packed = 0;
  int rv         = pack (d, c, &packed, MSF_FLUSHDATA);
  if (d.version == 2 && rv < 0 && d.reclen >= 32768 && d.s.size () > 65535)
    DISCARD ();
  REQUIRE (rv >= 1 && !c.recs.empty (), "pack", "msr3_pack returns " << rv << "; " << lg::diag ());
  const Bytes &r = c.recs[0];
  size_t head    = 40 + d.sid.size () + d.extra.size ();
  size_t least   = head;
  if (d.version == 2)
  {
    v2::Rec m;
    std::string w = m.read (r.data (), r.size ());
    REQUIRE (w.empty (), "v2-format", w);
    head = 48;
    for (auto &b : m.blks)
      head = std::max (head, b.off + b.raw.size ());
    least = std::max<size_t> (head, 76);
  }
  size_t len  = least;
  bool enough = true;
  switch (g.index (4))
  {
  case 0: break;
  case 1: len += (size_t)g.range (1, 100); break;
  case 2:
    len    = head - 1;
    enough = false;
    break;
  default:
    len    = g.index (head);
    enough = false;
  }
  MS3Record m;
  d.fill (m);
  if (g.coin ())
  {
    m.numsamples  = 0;
    m.datasamples = nullptr;
  }
  mem::paint_stack (0x5c);
  char fillb     = (char)g.raw (256);
  char *buf      = (char *)malloc (len ? len : 1); // exact: a byte too far is seen
  memset (buf, fillb, len);
  int h = d.version == 3 ? msr3_pack_header3 (&m, buf, (uint32_t)len, 0) : msr3_pack_header2 (&m, buf, (uint32_t)len, 0);
  Bytes got ((uint8_t *)buf, (uint8_t *)buf + len);
  free (buf);
  if (!enough)
  {
    REQUIRE (h == -1, "header-room", "a header of " << head << " bytes is packed into " << len << " bytes, returns " << h);
    REQUIRE (!lg::diag ().empty (), "header-room", "no message");
    g.label ("too small");
    g.nontrivial ();
    return;
  }
  REQUIRE (h == (int)head, "header-length", "header of " << h << " bytes, the record has " << head);
  auto later = [&] (size_t k) { // set when the record is complete
    return d.version == 3 ? (k >= 24 && k < 32) || (k >= 36 && k < 40) : (k >= 30 && k < 32) || (k >= 44 && k < 46);
  };
  for (size_t k = 0; k < head; k++)
    if (!later (k))
      REQUIRE (got[k] == r[k], "header-bytes", "byte " << k << " of the header is " << (int)got[k] << ", in the record " << (int)r[k]);
  for (size_t k = head; k < len; k++)
    REQUIRE (got[k] == (uint8_t)fillb, "header-beyond", "byte " << k << " beyond the header of " << head << " was changed");
  if (!d.extra.empty ())
    g.nontrivial ();
  g.label (d.version == 3 ? "v3" : "v2");
}
// more blockettes than a record can count or address
static void
crowded (Gen &g)
{
  DescOpt op;
  op.version = 2;
  op.extras  = false;
  op.maxn    = 50;
  Desc d     = gen_desc (g, op);
  d.reclen   = 131072;
  int n      = (int)g.range (200, 300);
  Json a     = Json::array ();
  bool exc   = g.coin (); // 330 x 200 bytes exceed 65535
  if (exc)
    n = (int)g.pick<int64_t> ({250, 254, 255, 256, 320, 330});
  for (int k = 0; k < n; k++)
  {
    Json e = Json::object ();
    if (exc)
    {
      e.set ("Time", Json::string ("2010-02-03T04:05:06Z"));
      e.set ("VCOCorrection", Json::real (1));
      e.set ("ReceptionQuality", Json::integer (k % 100));
    }
    else
    {
      e.set ("Type", Json::string ("GENERIC"));
      e.set ("SignalAmplitude", Json::real (k + 1));
      e.set ("OnsetTime", Json::string ("2010-02-03T04:05:06Z"));
      e.set ("Units", Json::string ("COUNTS"));
      e.set ("Wave", Json::string ("DILATATION"));
    }
    a.a.push_back (e);
  }
  Json o = Json::object ();
  o.setp (exc ? "/FDSN/Time/Exception" : "/FDSN/Event/Detection", a);
  d.extra = o.text ();
  g.note (fmt ("%d %s ", n, exc ? "exceptions" : "detections") + d.show ().substr (0, 200));
  Collector c;
  int64_t packed = 0;
  int rv         = pack (d, c, &packed, MSF_FLUSHDATA);
  if (rv < 0)
  {
    REQUIRE (c.recs.empty () && n + 3 > 250, "refuse", "refused with " << n << " blockettes: " << lg::diag ());
    g.label ("refused");
  }
  else
  {
    for (auto &r : c.recs)
      if (v2_ambiguous (r))
        DISCARD ();
    size_t pos = 0;
    for (size_t k = 0; k < c.recs.size (); k++)
      pos += strict_v2 (d, c.recs[k], k, pos);
    g.label ("packed");
  }
  g.nontrivial ();
}

// as many samples as the 16-bit count of a version 2 record can say, and a few more
static void
count16 (Gen &g)
{
  DescOpt op;
  op.version = 2;
  op.maxn    = 10;
  op.extras  = g.coin ();
  Desc d     = gen_desc (g, op);
  d.enc      = (int)g.pick<int64_t> ({DE_TEXT, DE_INT16, DE_STEIM1, DE_STEIM2, DE_STEIM2});
  d.reclen   = d.enc == DE_TEXT || d.enc == DE_STEIM2 ? (int)g.pick<int64_t> ({65536, 131072}) : 131072;
  size_t n   = (size_t)g.pick<int64_t> ({65533, 65534, 65535, 65535, 65536, 65536, 65537, 65540, 66000, 131070, 131072});
  d.s        = Series ();
  d.s.type   = d.enc == DE_TEXT ? 't' : 'i';
  for (size_t k = 0; k < n; k++)
    if (d.s.type == 't')
      d.s.t.push_back ((char)('A' + k * 7 % 26));
    else
      d.s.i.push_back ((int32_t)(k * 5 % 7) - 3);
  d.start = gen_start (g, (double)n / hz (d.rate));
  g.note (fmt ("%zu samples ", n) + d.show ().substr (0, 200));
  Collector c;
  int64_t packed = 0;
  int rv         = pack (d, c, &packed, MSF_FLUSHDATA);
  if (rv < 0)
  {
    REQUIRE (n > 65535, "refuse", "refused to pack " << n << " samples: " << lg::diag ());
    lg::reset ();
    g.label ("refused");
  }
  else
  {
    for (auto &r : c.recs)
      if (v2_ambiguous (r))
        DISCARD ();
    size_t pos = 0;
    for (size_t k = 0; k < c.recs.size (); k++)
      pos += strict_v2 (d, c.recs[k], k, pos);
    REQUIRE (pos == n && (int64_t)n == packed, "samples-lost", pos << " of " << n << ", reported " << packed);
    g.label (c.recs.size () == 1 ? "one record" : "several records");
  }
  g.nontrivial ();
}

namespace pbt {
Property property = {
    "P02",
    "A case packs a random record description twice (different memory fill) and reads every record with an independent strict reader; "
    "non-trivial: more than one record, extra headers present, or a blockette count at the format's limits.",
    {{"v3", 60, v3}, {"v2", 60, v2f}, {"nosamples", 10, nosamples}, {"header", 10, header}, {"crowded", 2, crowded}, {"count16", 1, count16}},
    std_reset,
    nullptr};
}
