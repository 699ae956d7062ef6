// P03: records written by other software are decoded to the right values
#include "raw.hpp"
using namespace pbt;

// does the time of the last sample stay well inside of the representable range?
static bool
span_in_range (int64_t start, double rate, size_t n)
{
  double end = (double)start + (double)n / hz (rate) * 1e9;
  return end < 9.2e18 && end > -9.2e18;
}

static void
check_samples (MS3Record *m, int prv, const Series &s, const char *what)
{
  REQUIRE (prv == 0, "decode", what << " returns " << prv << "; " << lg::diag ());
  REQUIRE (m->numsamples == (int64_t)s.size () && m->samplecnt == (int64_t)s.size (), "samplecount", what << ": " << m->numsamples << " of " << m->samplecnt << ", want " << s.size ());
  if (s.size ())
    REQUIRE (m->sampletype == s.type, "sampletype", m->sampletype);
  if (!s.same (m->datasamples, m->numsamples))
  {
    size_t bad = 0;
    while (memcmp ((char *)m->datasamples + bad * s.ssize (), s.at (bad), s.ssize ()) == 0)
      bad++;
    fail ("samples", std::string (what) + fmt (": sample %zu is %s, want ", bad, hexdump ((char *)m->datasamples + bad * s.ssize (), s.ssize ()).c_str ()) + s.slice (bad, std::min<size_t> (4, s.size () - bad)).show ());
  }
}

static void
check_msr2 (const MS3Record *m, const Foreign2 &f)
{
  REQUIRE (m->formatversion == 2 && m->reclen == f.r.reclen, "length", "version " << (int)m->formatversion << " length " << m->reclen << " want " << f.r.reclen);
  REQUIRE (f.sid == m->sid, "sid", quote (m->sid) << " want " << f.sid);
  REQUIRE (m->starttime == f.start, "starttime", tstr (m->starttime) << " want " << tstr (f.start));
  REQUIRE (fabs (m->samprate - f.rate) <= 1e-12 * fabs (f.rate), "rate", fmt ("%.17g want %.17g", m->samprate, f.rate));
  REQUIRE (m->flags == v2::flags_of (f.r), "flags", (int)m->flags << " want " << (int)v2::flags_of (f.r));
  REQUIRE (m->pubversion == v2::pubversion_of (f.r.quality), "pubversion", (int)m->pubversion << " for quality " << f.r.quality);
  REQUIRE (m->samplecnt == f.r.nsamp, "samplecount", m->samplecnt << " want " << f.r.nsamp);
  REQUIRE (m->encoding == (f.hasb1000 ? f.enc : m->encoding), "encoding", m->encoding << " want " << f.enc);
  Json got = Json::object ();
  if (m->extralength)
    REQUIRE (model::json_parse (std::string (m->extra, m->extralength), got), "extra-json", std::string (m->extra, m->extralength));
  REQUIRE (model::json_eq (v2::norm (got), v2::norm (f.extra)), "extra", v2::norm (got).text () << " want " << v2::norm (f.extra).text ());
  if (f.r.dataoff)
    REQUIRE (m->datalength == (uint32_t)(f.r.reclen - f.r.dataoff), "datalength", m->datalength);
}

// a container that held another record before
static void
used (Gen &g, Msr &m)
{
  if (!g.chance (1, 4))
    return;
  libmseed_prealloc_block_size = g.pick<size_t> ({0, 16, 100, 4096});
  Series s;
  Bytes b = gen_foreign3 (g, s).build ();
  int rv  = msr3_parse ((const char *)b.data (), b.size (), &m.p, g.coin () ? MSF_UNPACKDATA : 0, 0);
  REQUIRE (rv == 0 && m.p, "parse", "an earlier record gives " << rv << "; " << lg::diag ());
  mem::require_room (m.p, "earlier record");
}

static void
v2foreign (Gen &g)
{
  Foreign2 f = gen_foreign2 (g, false);
  if (v2_ambiguous (f.rec))
    DISCARD ();
  g.note (show (f));
  Msr m;
  Bytes b = f.rec;
  uint32_t fl = 0;
  if (!f.hasb1000)
  {
    if (g.coin ())
      fl = MSF_ATENDOFFILE; // length known from the end of the file
    else
      b.insert (b.end (), f.rec.begin (), f.rec.end ()); // or from the next header
  }
  else if (g.coin ())
    b.insert (b.end (), (size_t)g.range (0, 200), 0xAB);
  Buf buf (b, (int)g.range (0, 7));
  Bytes before (buf.p, buf.p + buf.n);
  if (f.hasb1000)
  {
    uint8_t fv  = 0;
    int64_t det = ms3_detect ((char *)buf.p, buf.n, &fv);
    REQUIRE (det == f.r.reclen && fv == 2, "detect", det << " want " << f.r.reclen);
  }
  used (g, m);
  bool late = g.coin ();
  int rv    = msr3_parse ((char *)buf.p, buf.n, &m.p, fl | (late ? 0 : MSF_UNPACKDATA), 0);
  REQUIRE (rv == 0, "parse", "msr3_parse returns " << rv << "; " << lg::diag ());
  check_msr2 (m.p, f);
  if (late && f.s.size ())
  {
    int64_t n = msr3_unpack_data (m.p, 0);
    REQUIRE (n == (int64_t)f.s.size (), "unpack", "msr3_unpack_data returns " << n << "; " << lg::diag ());
  }
  check_samples (m.p, 0, f.s, "record");
  mem::require_room (m.p, "record");
  REQUIRE (!memcmp (before.data (), buf.p, buf.n), "modified", "parsing changed the record");
  // end time
  int64_t end  = msr3_endtime (m.p);
  int64_t want = f.s.size () && f.rate > 0 && span_in_range (f.start, f.rate, f.s.size ()) ? sample_time (f.start, f.rate, f.s.size () - 1) : f.start;
  if (f.s.size () && f.rate > 0 && span_in_range (f.start, f.rate, f.s.size ()))
    REQUIRE (time_ok (f.start, f.rate, f.s.size () - 1, end), "endtime", tstr (end) << " want " << tstr (want));
  g.label (std::string ("enc ") + (f.hasb1000 ? encname (f.enc) : "none"));
  g.label (f.r.big ? "big-endian" : "little-endian");
  for (auto &bb : f.r.blks)
    g.label (fmt ("blockette %d", bb.type));
  if (f.r.blks.size () > 1 || f.s.size () > 10)
    g.nontrivial ();
}

static void
v3foreign (Gen &g)
{
  Series s;
  model::Rec3 r = gen_foreign3 (g, s);
  Bytes b       = r.build ();
  g.note (fmt ("v3 sid=%s start=%s rate=%.17g enc=%s extra=%s payload %zu bytes ", quote (r.sid).c_str (), tstr ((int64_t)r.start ()).c_str (), model::bits2d (r.ratebits), encname (r.encoding), r.extra.c_str (), r.data.size ()) + s.show ());
  size_t len = b.size ();
  if (g.coin ())
    b.insert (b.end (), (size_t)g.range (0, 100), 0xCD);
  Buf buf (b, (int)g.range (0, 7));
  Msr m;
  bool late = g.coin ();
  uint8_t fv = 0;
  int64_t det = ms3_detect ((char *)buf.p, buf.n, &fv);
  REQUIRE (det == (int64_t)len && fv == 3, "detect", det << " want " << len);
  used (g, m);
  int rv = msr3_parse ((char *)buf.p, buf.n, &m.p, MSF_VALIDATECRC | (late ? 0 : MSF_UNPACKDATA), 0);
  REQUIRE (rv == 0, "parse", "msr3_parse returns " << rv << "; " << lg::diag ());
  REQUIRE (m->formatversion == 3 && m->reclen == (int)len && m->record == (char *)buf.p, "length", m->reclen << " want " << len);
  REQUIRE (r.sid == m->sid, "sid", quote (m->sid));
  REQUIRE (m->starttime == (int64_t)r.start (), "starttime", tstr (m->starttime) << " want " << tstr ((int64_t)r.start ()));
  double rate = model::bits2d (r.ratebits);
  REQUIRE (m->samprate == rate, "rate", fmt ("%.17g want %.17g", m->samprate, rate));
  double h = rate == 0 ? 0 : hz (rate);
  REQUIRE (fabs (msr3_sampratehz (m.p) - h) <= h * 1e-15, "ratehz", msr3_sampratehz (m.p));
  REQUIRE (m->flags == r.flags && m->pubversion == r.pubversion && m->encoding == r.encoding, "header", (int)m->flags << " " << (int)m->pubversion << " " << m->encoding);
  REQUIRE (m->samplecnt == r.nsamp && m->datalength == r.data.size () && m->extralength == r.extra.size (), "counts", m->samplecnt << " " << m->datalength << " " << m->extralength);
  REQUIRE (r.extra.empty () || !memcmp (m->extra, r.extra.data (), r.extra.size ()), "extra", std::string (m->extra, m->extralength));
  REQUIRE (r.extra.empty () || m->extra[m->extralength] == 0, "extra", "extra headers are not terminated");
  Bytes z (buf.p, buf.p + len);
  uint32_t crc = (uint32_t)model::get (&z[28], 4, false);
  REQUIRE (m->crc == crc, "crc", m->crc << " want " << crc);
  uint32_t off = 0, size = 0;
  REQUIRE (msr3_data_bounds (m.p, &off, &size) == 0 && off == 40 + r.sid.size () + r.extra.size () && size <= r.data.size (), "bounds", off << "+" << size);
  // the size is without padding
  size_t payload = r.data.size ();
  if (r.encoding == DE_STEIM1 || r.encoding == DE_STEIM2)
    while (payload >= 64 && std::all_of (r.data.begin () + payload - 64, r.data.begin () + payload, [] (uint8_t x) { return x == 0; }))
      payload -= 64;
  else if (r.encoding <= DE_FLOAT64)
    payload = s.size () * (r.encoding == DE_TEXT ? 1 : r.encoding == DE_INT16 ? 2 : r.encoding == DE_FLOAT64 ? 8 : 4);
  REQUIRE (size == payload, "bounds", "payload of " << size << " bytes, want " << payload);
  if (late && s.size ())
  {
    int64_t n = msr3_unpack_data (m.p, 0);
    REQUIRE (n == (int64_t)s.size (), "unpack", "msr3_unpack_data returns " << n << "; " << lg::diag ());
  }
  check_samples (m.p, 0, s, "record");
  mem::require_room (m.p, "record");
  int64_t end = msr3_endtime (m.p);
  if (s.size () && rate != 0 && span_in_range ((int64_t)r.start (), rate, s.size ()))
    REQUIRE (time_ok ((int64_t)r.start (), rate, s.size () - 1, end), "endtime", tstr (end));
  g.label (std::string ("enc ") + encname (r.encoding));
  if (s.size () > 10)
    g.nontrivial ();
}

// the decoder on its own: exact input and output buffers, counts beyond the content
static void
decoder (Gen &g)
{
  int enc          = payload::gen_enc (g);
  bool big         = g.coin ();
  size_t n         = (size_t)g.size (1, 600);
  payload::Coded c = payload::encode (g, enc, n, big, 1 << 20);
  n                = c.s.size ();
  if (!n)
    DISCARD ();
  uint64_t ask = n;
  int how      = (int)g.weighted ({5, 2, 3, 2});
  if (how == 1)
    ask = g.range (1, (int64_t)n); // fewer
  if (how == 2)
    ask = n + g.range (1, 400); // more than there are
  int ss        = c.s.ssize ();
  uint64_t room = ask * ss;
  if (how == 3)
    room -= (uint64_t)g.range (1, (int64_t)room); // too small
  else if (g.coin ())
    room += g.range (0, 64);
  size_t cut = 0;
  if (how == 2 && g.coin ())
    cut = (size_t)g.range (0, (int64_t)std::min<size_t> (c.data.size () - 1, 200)); // also lose the end of the payload
  g.note (fmt ("decode %s %s payload %zu-%zu bytes holding %zu samples, %llu asked, output %llu bytes ", encname (enc), big ? "BE" : "LE", c.data.size (), cut, n, (unsigned long long)ask, (unsigned long long)room) + c.s.show ());
  size_t len  = c.data.size () - cut;
  uint8_t *in = (uint8_t *)malloc (len ? len : 1);
  memcpy (in, c.data.data (), len);
  uint8_t *out = (uint8_t *)malloc (room ? room : 1);
  memset (out, 0xA5, room ? room : 1);
  char type  = '?';
  int64_t rv = ms_decode_data (in, len, (uint8_t)enc, ask, out, room, &type, big != (bool)ms_bigendianhost (), "TEST", 0);
  Bytes o (out, out + room), i2 (in, in + len);
  free (out);
  free (in);
  REQUIRE (!memcmp (i2.data (), c.data.data (), len), "input-modified", "the encoded input was changed");
  uint8_t sz = 0;
  char st    = 0;
  REQUIRE (ms_encoding_sizetype ((uint8_t)enc, &sz, &st) == 0 && sz == ss && st == c.s.type, "sizetype", (int)sz << " " << st);
  REQUIRE (ms_samplesize (c.s.type) == ss, "samplesize", ss);
  if (how == 3)
    REQUIRE (rv < 0, "outputsize", "decoded " << rv << " samples into " << room << " bytes");
  else if (how == 2)
  {
    REQUIRE (rv <= (int64_t)ask, "invented", rv);
    // Steim frames may carry unused differences in their last word; anything beyond is invented
    int64_t most = (int64_t)n;
    if (enc == DE_STEIM1 || enc == DE_STEIM2)
    {
      model::Steim sm = model::steim_diffs (c.data.data (), len / 64 * 64, enc == DE_STEIM1 ? 1 : 2, big);
      most            = len < 64 ? 0 : (int64_t)sm.diffs.size ();
    }
    REQUIRE (rv <= most, "invented", "returned " << rv << " samples, the payload holds " << most);
    if (rv > 0)
    {
      size_t k = std::min<size_t> (n, rv);
      REQUIRE (!memcmp (o.data (), c.s.data (), k * ss), "samples", "decoded samples differ");
    }
  }
  else
  {
    REQUIRE (rv == (int64_t)ask && type == c.s.type, "decode", "returns " << rv << " type " << type << "; " << lg::diag ());
    for (uint64_t k = 0; k < ask; k++)
      if (memcmp (&o[k * ss], c.s.at (k), ss))
        fail ("samples", fmt ("sample %llu of %llu is %s, want %s", (unsigned long long)k, (unsigned long long)ask, hexdump (&o[k * ss], ss).c_str (), c.s.slice (k, 1).show ().c_str ()));
  }
  for (size_t k = ask * ss; k < o.size (); k++)
    REQUIRE (o[k] == 0xA5, "overrun", "byte " << k << " after the samples was written");
  g.label (std::string ("enc ") + encname (enc));
  if (how)
    g.label (how == 1 ? "fewer" : how == 2 ? "more than held" : "small output");
  if (n > 8)
    g.nontrivial ();
}

// a record whose header counts more samples than its payload holds
static void
shortage (Gen &g)
{
  Series s;
  Bytes b;
  int enc;
  size_t most;
  if (g.coin ())
  {
    model::Rec3 r = gen_foreign3 (g, s);
    if (s.size () == 0)
      DISCARD ();
    enc  = r.encoding;
    most = s.size ();
    r.nsamp += (uint32_t)g.size (1, 100000);
    int w = enc == DE_STEIM1 || enc == DE_STEIM2 ? 0 : (int)(r.data.size () / s.size ());
    if (w == 0)
    {
      model::Steim sm = model::steim_diffs (r.data.data (), r.data.size (), enc == DE_STEIM1 ? 1 : 2, true);
      most            = sm.diffs.size ();
    }
    else
      r.data.resize (s.size () * (enc == DE_TEXT ? 1 : enc == DE_GEOSCOPE24 ? 3 : enc == DE_INT32 || enc == DE_FLOAT32 ? 4 : enc == DE_FLOAT64 ? 8 : 2));
    b = r.build ();
  }
  else
  {
    Foreign2 f = gen_foreign2 (g, true);
    if (f.s.size () == 0 || v2_ambiguous (f.rec) || (f.enc != DE_STEIM1 && f.enc != DE_STEIM2))
      DISCARD ();
    model::Steim sm = model::steim_diffs (f.r.data.data (), f.r.data.size (), f.enc == DE_STEIM1 ? 1 : 2, f.databig);
    most            = sm.diffs.size ();
    f.r.nsamp       = (uint16_t)std::min<size_t> (65535, f.r.nsamp + (size_t)g.size (1, 60000));
    b               = f.r.bytes (0);
    enc             = f.enc;
    s               = f.s;
  }
  g.note (fmt ("%s record claims more than its %zu samples: %s", encname (enc), s.size (), hexdump (b.data (), b.size (), 64).c_str ()));
  Buf buf (b, 0);
  Msr m;
  int rv = msr3_parse ((char *)buf.p, buf.n, &m.p, MSF_UNPACKDATA, 0);
  if (rv == 0)
  {
    REQUIRE (m->numsamples <= (int64_t)most, "invented", "parsed " << m->numsamples << " samples, the payload holds " << most);
    size_t k = std::min<size_t> (s.size (), m->numsamples);
    REQUIRE (!memcmp (m->datasamples, s.data (), k * s.ssize ()), "samples", "decoded samples differ");
    g.label ("partial");
  }
  else
  {
    REQUIRE (rv < 0 && !m.p, "error", "returns " << rv);
    g.label ("error");
  }
  g.nontrivial ();
}

// every sample count is reported as it is, whether or not such a record can be decoded
static void
headeronly (Gen &g)
{
  Series s;
  model::Rec3 r = gen_foreign3 (g, s);
  r.nsamp       = (uint32_t)g.pick<int64_t> ({0, 1, 65535, 65536, 16777216, 2147483647, 2147483648LL, 2147483649LL, 4000000000LL, 4294967294LL, 4294967295LL, (int64_t)g.raw (1ull << 32)});
  Bytes b       = r.build ();
  g.note (fmt ("v3 header of %u samples of %s at %.17g, payload %zu bytes: ", r.nsamp, encname (r.encoding), model::bits2d (r.ratebits), r.data.size ()) + hexdump (b.data (), b.size (), 100));
  Buf buf (b, (int)g.range (0, 7));
  Msr m;
  int rv = msr3_parse ((char *)buf.p, buf.n, &m.p, 0, 0);
  REQUIRE (rv == 0, "parse", "msr3_parse returns " << rv << "; " << lg::diag ());
  REQUIRE (m->samplecnt == r.nsamp && m->numsamples == 0 && !m->datasamples, "counts", m->samplecnt << " samples of " << r.nsamp << ", " << m->numsamples << " decoded");
  double rate = model::bits2d (r.ratebits);
  if (r.nsamp && rate != 0 && span_in_range ((int64_t)r.start (), rate, r.nsamp))
  {
    int64_t end = msr3_endtime (m.p);
    REQUIRE (time_ok ((int64_t)r.start (), rate, r.nsamp - 1, end), "endtime", tstr (end) << " for sample " << r.nsamp - 1);
  }
  if (r.nsamp > 65535)
    g.nontrivial ();
}

// the raw header printer shows the stored values and finds nothing wrong
static void
rawprint (Gen &g)
{
  if (g.coin ())
  {
    Foreign2 f = gen_foreign2 (g, false);
    if (v2_ambiguous (f.rec))
      DISCARD ();
    g.note ("print " + show (f));
    raw::check2 (g, f);
    if (f.r.blks.size () > 1)
      g.nontrivial ();
  }
  else
  {
    Series s;
    model::Rec3 r = gen_foreign3 (g, s);
    g.note (fmt ("print v3 sid=%s extra=%s", quote (r.sid).c_str (), r.extra.c_str ()));
    raw::check3 (r);
    if (s.size () || r.extra.size ())
      g.nontrivial ();
  }
}

// the raw header printer counts every invalid field
static void
rawfaults (Gen &g)
{
  if (g.weighted ({2, 1}) == 0)
  {
    Foreign2 f = gen_foreign2 (g, false);
    if (v2_ambiguous (f.rec))
      DISCARD ();
    g.note ("print " + show (f));
    raw::faults2 (g, f);
  }
  else
  {
    Series s;
    model::Rec3 r = gen_foreign3 (g, s);
    g.note (fmt ("print v3 sid=%s extra=%s", quote (r.sid).c_str (), r.extra.c_str ()));
    raw::faults3 (g, r);
  }
  g.nontrivial ();
}

namespace pbt {
Property property = {
    "P03",
    "A case builds a record with an independent writer (byte order, encoding, blockettes, layout, packing of differences chosen at random) and compares all "
    "parsed values; non-trivial: several blockettes or more than 8 samples, or a count beyond the payload.",
    {{"v2", 8, v2foreign}, {"v3", 5, v3foreign}, {"decoder", 5, decoder}, {"shortage", 2, shortage}, {"headeronly", 1, headeronly}, {"rawprint", 3, rawprint}, {"rawfaults", 2, rawfaults}},
    std_reset,
    nullptr};
}
