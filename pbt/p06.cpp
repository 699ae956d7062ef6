// P06: converting records between versions preserves data and metadata
#include "checkrec.hpp"
#include "foreign.hpp"
using namespace pbt;

// what a record is expected to say, apart from version and length
struct Want
{
  std::string sid;
  int64_t start;
  double rate;
  uint8_t flags, pubversion;
  int enc;
  Json extra;
  Series s;
};

static void
check_same (const MS3Record *m, const Want &w, const char *what, bool ratecast = true)
{
  REQUIRE (w.sid == m->sid, "sid", what << ": " << quote (m->sid) << " want " << quote (w.sid));
  REQUIRE (m->starttime == w.start, "starttime", what << ": " << tstr (m->starttime) << " want " << tstr (w.start));
  double a = m->samprate == 0 ? 0 : hz (m->samprate), b = w.rate == 0 ? 0 : hz (w.rate);
  REQUIRE (a == b || fabs (a - b) <= b * 1e-14, "rate", what << fmt (": %.17g want %.17g", m->samprate, w.rate));
  REQUIRE (m->flags == w.flags, "flags", what << ": " << (int)m->flags << " want " << (int)w.flags);
  REQUIRE (m->pubversion == w.pubversion, "pubversion", what << ": " << (int)m->pubversion << " want " << (int)w.pubversion);
  if (w.s.size ())
    REQUIRE (m->encoding == w.enc, "encoding", what << ": " << (int)m->encoding << " want " << w.enc);
  Json got = Json::object ();
  if (m->extralength)
    REQUIRE (model::json_parse (std::string (m->extra, m->extralength), got), "extra-json", what << ": " << std::string (m->extra, m->extralength));
  REQUIRE (model::json_eq (v2::norm (got), v2::norm (w.extra)), "extra", what << ": " << v2::norm (got).text () << " want " << v2::norm (w.extra).text ());
  REQUIRE (m->samplecnt == (int64_t)w.s.size (), "samplecount", what << ": " << m->samplecnt << " want " << w.s.size ());
  REQUIRE (m->numsamples == (int64_t)w.s.size (), "samplecount", what << ": decoded " << m->numsamples << " want " << w.s.size ());
  if (w.s.size ())
    REQUIRE (m->sampletype == w.s.type && w.s.same (m->datasamples, m->numsamples), "samples", what << ": samples differ from " << w.s.show ());
}

// a record of either version from another writer, and what it says
static Bytes
gen_source (Gen &g, Want &w, int version, bool fillextra = true)
{
  if (version == 2)
  {
    Foreign2 f = gen_foreign2 (g, true);
    if (g.chance (1, 6) && f.enc == DE_STEIM1 && f.databig == f.r.big)
    {
      // encoding known by convention only
      for (int tries = 0; tries < 20 && f.hasb1000; tries++)
      {
        Foreign2 h = gen_foreign2 (g, false);
        if (!h.hasb1000)
          f = h;
      }
    }
    if (v2_ambiguous (f.rec))
      DISCARD ();
    g.note (show (f));
    w = {f.sid, f.start, f.rate, v2::flags_of (f.r), (uint8_t)v2::pubversion_of (f.r.quality), f.enc, f.extra, f.s};
    g.label (std::string ("v2 ") + (f.hasb1000 ? encname (f.enc) : "none") + (f.databig ? " BE" : " LE"));
    if (!f.hasb1000)
      g.label ("no blockette 1000");
    return f.rec;
  }
  Series s;
  model::Rec3 r = gen_foreign3 (g, s, fillextra);
  g.note (fmt ("v3 sid=%s start=%s rate=%.17g flags=%02x pub=%d enc=%s extra=%s payload %zu bytes ", quote (r.sid).c_str (), tstr ((int64_t)r.start ()).c_str (), model::bits2d (r.ratebits), r.flags, r.pubversion, encname (r.encoding), r.extra.c_str (), r.data.size ()) + s.show ());
  w       = Want{r.sid, (int64_t)r.start (), model::bits2d (r.ratebits), r.flags, r.pubversion, r.encoding, Json::object (), s};
  if (!r.extra.empty ())
    REQUIRE (model::json_parse (r.extra, w.extra), "harness", "extra");
  g.label (std::string ("v3 ") + encname (r.encoding));
  return r.build ();
}

static int
parse_source (const Buf &buf, MS3Record **m, uint32_t flags)
{
  return msr3_parse ((const char *)buf.p, buf.n, m, flags | MSF_ATENDOFFILE, 0);
}

// change the header the way users do before repacking
static void
modify (Gen &g, MS3Record *m, Want &w)
{
  if (g.chance (1, 2))
  {
    w.sid = gen_sid (g, false);
    memset (m->sid, 0, sizeof m->sid);
    memcpy (m->sid, w.sid.data (), w.sid.size ());
    g.note (" new sid " + w.sid);
  }
  if (g.chance (1, 3))
    m->pubversion = w.pubversion = (uint8_t)g.raw (256);
  if (g.chance (1, 3))
    m->flags = w.flags = (uint8_t)g.raw (256);
  if (g.chance (1, 3))
    m->starttime = w.start = gen_time (g);
  if (g.chance (1, 3))
    m->samprate = w.rate = gen_rate (g);
  if (g.chance (1, 2))
  {
    int64_t v = g.range (-5, 100000);
    std::string key = g.str ("ABC", 1, 3);
    REQUIRE (mseh_set_int64 (m, ("/Added/" + key).c_str (), &v) == 0, "set", "mseh_set returns an error; " << lg::diag ());
    w.extra.setp ("/Added/" + key, Json::integer (v));
    g.note (fmt (" /Added/%s=%lld", key.c_str (), (long long)v));
  }
  else if (g.chance (1, 3))
  {
    REQUIRE (mseh_replace (m, nullptr) >= 0, "replace", "mseh_replace with nothing fails");
    w.extra = Json::object ();
    g.note (" no extra");
  }
  g.label ("modified header");
}

static void
repack (Gen &g)
{
  Want w;
  int version = g.chance (2, 3) ? 2 : 3;
  Bytes src   = gen_source (g, w, version);
  Buf buf (src, (int)g.range (0, 7));
  Msr m;
  int rv = parse_source (buf, &m.p, g.coin () ? 0 : MSF_UNPACKDATA);
  REQUIRE (rv == 0, "parse", "msr3_parse returns " << rv << "; " << lg::diag ());
  bool modified = g.chance (1, 3);
  if (modified)
    modify (g, m.p, w);
  lg::reset ();
  // how large it gets
  std::vector<char> big (src.size () + 70000 + w.sid.size ());
  int len = msr3_repack_mseed3 (m.p, big.data (), (uint32_t)big.size (), 0);
  REQUIRE (len > 0, "repack", "msr3_repack_mseed3 returns " << len << "; " << lg::diag ());
  REQUIRE (memcmp (buf.p, src.data (), src.size ()) == 0, "modified", "repacking changed the source record");
  // a buffer of exactly that size does, one byte less does not
  std::vector<char> exact (len);
  int len2 = msr3_repack_mseed3 (m.p, exact.data (), (uint32_t)len, 0);
  REQUIRE (len2 == len && !memcmp (exact.data (), big.data (), len), "exact", "with a buffer of " << len << " bytes returns " << len2);
  if (len > 40)
  {
    size_t n = (size_t)(g.coin () ? len - 1 : (int)g.range (1, len - 1));
    std::vector<char> small (n);
    int len3 = msr3_repack_mseed3 (m.p, small.data (), (uint32_t)n, 0);
    REQUIRE (len3 == -1, "small", "with a buffer of " << n << " bytes for " << len << " returns " << len3);
    lg::reset ();
  }
  if (g.chance (1, 10)) // a count that no version 3 header can hold
  {
    int64_t had  = m->samplecnt;
    m->samplecnt = g.pick<int64_t> ({(int64_t)UINT32_MAX + 1, (int64_t)UINT32_MAX + 1 + had, INT64_MAX, (int64_t)1 << 40});
    int rv5      = msr3_repack_mseed3 (m.p, big.data (), (uint32_t)big.size (), 0);
    REQUIRE (rv5 == -1, "too-many", "with a sample count of " << m->samplecnt << " returns " << rv5);
    m->samplecnt = had;
    lg::reset ();
    g.label ("count beyond 32 bits");
  }
  model::Rec3 r;
  std::string err = r.read ((const uint8_t *)exact.data (), len);
  REQUIRE (err.empty (), "format", err);
  REQUIRE (r.sid == w.sid && r.nsamp == w.s.size (), "header", "sid " << r.sid << " samples " << r.nsamp);
  if (version == 3 && !modified && w.s.size ())
    REQUIRE (r.data.size () <= src.size (), "length", "payload grew");
  Msr q;
  Bytes out (exact.begin (), exact.end ());
  Buf ob (out, (int)g.range (0, 7));
  rv = msr3_parse ((const char *)ob.p, ob.n, &q.p, MSF_UNPACKDATA | MSF_VALIDATECRC, 0);
  REQUIRE (rv == 0, "parse-repacked", "msr3_parse returns " << rv << "; " << lg::diag ());
  check_same (q.p, w, "repacked record");
  REQUIRE (lg::diag ().empty (), "diagnostics", lg::diag ());
  // and once more (padding may go, content stays)
  std::vector<char> again (len);
  int len4 = msr3_repack_mseed3 (q.p, again.data (), (uint32_t)len, 0);
  REQUIRE (len4 > 0 && len4 <= len, "again", "repacking the result returns " << len4);
  Msr z;
  rv = msr3_parse (again.data (), len4, &z.p, MSF_UNPACKDATA | MSF_VALIDATECRC, 0);
  REQUIRE (rv == 0, "parse-again", "msr3_parse returns " << rv << "; " << lg::diag ());
  check_same (z.p, w, "record repacked twice");
  if (w.s.size () || !w.extra.o.empty ())
    g.nontrivial ();
}

// decode and pack again, in either version
static void
decoded (Gen &g)
{
  Want w;
  int from = g.coin () ? 2 : 3, to = g.coin () ? 2 : 3;
  Bytes src;
  if (from == 3 && to == 2)
  {
    // a version 3 record of which version 2 can hold everything
    model::Rec3 r;
    Series s;
    while (true)
    {
      r = gen_foreign3 (g, s, false);
      break;
    }
    r.sid        = gen_sid (g, true);
    r.flags      = (uint8_t)g.range (0, 7);
    r.pubversion = (uint8_t)g.range (1, 4);
    double rate  = gen_rate2 (g);
    r.ratebits   = model::d2bits (rate);
    Json o       = ext::gen_v2able (g, 3000);
    r.extra      = ext::empty (o) ? "" : o.text ();
    w            = Want{r.sid, (int64_t)r.start (), rate, r.flags, r.pubversion, r.encoding, o, s};
    g.note (fmt ("v3 sid=%s start=%s rate=%.17g enc=%s extra=%s ", quote (r.sid).c_str (), tstr ((int64_t)r.start ()).c_str (), rate, encname (r.encoding), r.extra.c_str ()) + s.show ());
    src = r.build ();
  }
  else
    src = gen_source (g, w, from);
  double h = w.rate == 0 ? 0 : hz (w.rate);
  if (to == 2 && !(h >= 1.0 / 32767 && h <= 32767))
    DISCARD ();
  if (w.rate == 0 || w.rate != w.rate)
    DISCARD (); // a series without a rate has no times after the first
  // the library's times are defined for spans within the representable range
  if (fabs ((double)w.start) + (double)w.s.size () / h * 1e9 > 9.1e18)
    DISCARD ();
  Buf buf (src, (int)g.range (0, 7));
  Msr m;
  int rv = parse_source (buf, &m.p, MSF_UNPACKDATA);
  REQUIRE (rv == 0, "parse", "msr3_parse returns " << rv << "; " << lg::diag ());
  check_same (m.p, w, "source record");
  Desc d;
  d.version    = to;
  d.sid        = w.sid;
  d.start      = w.start;
  d.rate       = m->samprate;
  d.flags      = w.flags;
  d.pubversion = w.pubversion;
  d.extra      = w.extra.o.empty () ? "" : w.extra.text ();
  d.s          = w.s;
  switch (w.enc)
  {
  case 12: case 13: case 14: d.enc = DE_FLOAT32; break;
  case 16: case 30: case 32: d.enc = g.coin () ? DE_INT32 : DE_STEIM1; break;
  default: d.enc = w.enc;
  }
  if (m->encoding != d.enc)
    m->encoding = (int8_t)d.enc;
  bool steim = d.enc == DE_STEIM1 || d.enc == DE_STEIM2;
  if (to == 2)
  {
    d.reclen = 256 << g.range (w.s.size () > 5000 ? 4 : 0, 5);
    while (true)
    {
      int hd = v2_header_len (d.extra, true, true);
      if ((steim ? (hd + 63) / 64 * 64 : hd) + 64 <= d.reclen)
        break;
      d.reclen *= 2;
    }
  }
  else
    d.reclen = 40 + (int)d.sid.size () + (int)m->extralength + (steim ? 64 : 8) + (int)g.size (0, 5000) + (int)(w.s.size () > 5000 ? w.s.size () * 8 / 500 : 0);
  m->reclen        = d.reclen;
  m->formatversion = (uint8_t)to;
  uint32_t fl      = MSF_FLUSHDATA;
  if (to == 2 && g.coin ())
  {
    m->formatversion = 3;
    fl |= MSF_PACKVER2;
  }
  Collector c;
  int64_t packed = 0;
  lg::reset ();
  rv = msr3_pack (m.p, collect, &c, &packed, fl, 0);
  REQUIRE (rv > 0, "pack", "msr3_pack returns " << rv << "; " << lg::diag ());
  // the number of bytes of version 3 extra headers is that of the text that was read
  size_t pos = check_records (g, d, to, c, packed, rv, true);
  REQUIRE (pos == d.s.size (), "samples-lost", pos << " of " << d.s.size ());
  g.label (fmt ("%d to %d", from, to));
  if (d.s.size () || !d.extra.empty ())
    g.nontrivial ();
}

// extra headers with a version 2 counterpart: 3 to 2 to 3
static void
passage (Gen &g)
{
  DescOpt op;
  op.version   = 2; // what both versions can hold
  op.maxn      = 60;
  op.bigreclen = false;
  op.extras    = false;
  Desc d       = gen_desc (g, op);
  Json o       = ext::gen_v2able (g, 2000);
  d.extra      = ext::empty (o) ? "" : o.text ();
  d.version    = 3;
  d.reclen     = 200000;
  g.note (d.show ());
  Desc how = d;
  if (g.coin () && ext::add_neutral (g, o))
  {
    how.extra = o.text ();
    g.label ("headers saying no");
  }
  Collector c3;
  int64_t pk = 0;
  int rv     = pack (how, c3, &pk, MSF_FLUSHDATA);
  REQUIRE (rv == 1, "pack3", "msr3_pack returns " << rv << "; " << lg::diag ());
  Msr m;
  rv = msr3_parse ((const char *)c3.recs[0].data (), c3.recs[0].size (), &m.p, MSF_UNPACKDATA, 0);
  REQUIRE (rv == 0, "parse3", rv << "; " << lg::diag ());
  m->reclen = 8192;
  Collector c2;
  rv = msr3_pack (m.p, collect, &c2, &pk, MSF_FLUSHDATA | MSF_PACKVER2, 0);
  REQUIRE (rv == 1 && pk == (int64_t)d.s.size (), "pack2", "msr3_pack returns " << rv << "; " << lg::diag ());
  if (v2_ambiguous (c2.recs[0]))
    DISCARD ();
  Msr q;
  rv = msr3_parse ((const char *)c2.recs[0].data (), c2.recs[0].size (), &q.p, MSF_UNPACKDATA, 0);
  REQUIRE (rv == 0, "parse2", rv << "; " << lg::diag ());
  std::vector<char> out (70000);
  int len = msr3_repack_mseed3 (q.p, out.data (), (uint32_t)out.size (), 0);
  REQUIRE (len > 0, "repack", len << "; " << lg::diag ());
  Collector r3;
  r3.recs.emplace_back ((uint8_t *)out.data (), (uint8_t *)out.data () + len);
  Desc e = d;
  e.start   = q->starttime;
  e.extra   = expected_extra (d, 2);
  REQUIRE (start_ok (d, 2, q->starttime, 0), "starttime", tstr (q->starttime) << " want " << tstr (d.start));
  REQUIRE (rate_ok (2, d.rate, q->samprate), "rate", fmt ("%.17g want %.17g", q->samprate, d.rate));
  e.rate = q->samprate;
  check_records (g, e, 3, r3, (int64_t)d.s.size (), 1);
  if (!d.extra.empty ())
    g.nontrivial ();
  for (auto &kv : o.o)
    for (auto &k2 : kv.second.o)
      g.label (kv.first + "/" + k2.first);
}

static bool
same_struct (const MS3Record *a, const MS3Record *b)
{
  return !strcmp (a->sid, b->sid) && a->formatversion == b->formatversion && a->flags == b->flags && a->starttime == b->starttime && !memcmp (&a->samprate, &b->samprate, 8) && a->encoding == b->encoding && a->pubversion == b->pubversion && a->samplecnt == b->samplecnt && a->crc == b->crc && a->extralength == b->extralength && (a->extralength == 0 || !memcmp (a->extra, b->extra, a->extralength)) && a->datalength == b->datalength && a->reclen == b->reclen && a->swapflag == b->swapflag;
}

static void
duplicate (Gen &g)
{
  Want w;
  Bytes src = gen_source (g, w, g.coin () ? 2 : 3);
  Buf buf (src, 0);
  Msr m;
  bool unpacked = g.chance (3, 4), dup = g.chance (2, 3);
  int rv = parse_source (buf, &m.p, unpacked ? MSF_UNPACKDATA : 0);
  REQUIRE (rv == 0, "parse", "msr3_parse returns " << rv << "; " << lg::diag ());
  MS3Record *c = msr3_duplicate (m.p, dup);
  REQUIRE (c, "duplicate", "returns NULL; " << lg::diag ());
  REQUIRE (same_struct (m.p, c), "equal", "header of the copy differs");
  bool has = dup && unpacked && w.s.size ();
  if (has)
    REQUIRE (c->sampletype == m->sampletype && c->numsamples == m->numsamples && w.s.same (c->datasamples, c->numsamples) && c->datasize >= (uint64_t)w.s.size () * w.s.ssize (), "samples", "samples of the copy differ");
  else
    REQUIRE (c->datasamples == nullptr && c->numsamples == 0 && c->datasize == 0, "samples", "a copy without samples has " << c->numsamples);
  if (has)
    mem::require_room (c, "copy");
  // independence: change one, then release it, the other stays
  REQUIRE ((!m->extra || c->extra != m->extra) && (!m->datasamples || c->datasamples != m->datasamples), "shared", "memory is shared");
  bool freecopy  = g.coin ();
  MS3Record *vic = freecopy ? c : m.p, *keep = freecopy ? m.p : c;
  int64_t v      = g.range (0, 1000);
  std::string before (keep->extra ? keep->extra : "", keep->extralength);
  REQUIRE (mseh_set_int64 (vic, "/Zzz/Changed", &v) == 0, "set", lg::diag ());
  if (vic->datasamples)
    memset (vic->datasamples, 0xA5, vic->numsamples * ms_samplesize (vic->sampletype));
  REQUIRE (std::string (keep->extra ? keep->extra : "", keep->extralength) == before, "dependent", "changing one record changed the other");
  if (freecopy)
    msr3_free (&c);
  else
    msr3_free (&m.p);
  if (keep->numsamples)
    REQUIRE (w.s.same (keep->datasamples, keep->numsamples), "dependent", "samples changed with the other record");
  if (freecopy ? unpacked : has)
  {
    Collector out;
    int64_t pk   = 0;
    if (w.rate != 0 && w.enc != 12 && w.enc != 13 && w.enc != 14 && w.enc != 16 && w.enc != 30 && w.enc != 32 && keep->encoding >= 0)
    {
      keep->reclen = 4 << 20;
      keep->formatversion = 3;
      rv           = msr3_pack (keep, collect, &out, &pk, MSF_FLUSHDATA, 0);
      REQUIRE (rv == 1, "pack", rv << "; " << lg::diag ());
      Msr q;
      rv = msr3_parse ((const char *)out.recs[0].data (), out.recs[0].size (), &q.p, MSF_UNPACKDATA, 0);
      REQUIRE (rv == 0, "parse", rv);
      check_same (q.p, w, "packed copy");
    }
  }
  if (!freecopy)
    msr3_free (&c);
  else
    msr3_free (&m.p);
  mem::require_balanced ("duplicate");
  if (w.s.size () || !w.extra.o.empty ())
    g.nontrivial ();
}

namespace pbt {
Property property = {
    "P06",
    "A case is a record of version 2 or 3 as other software writes it (any byte order, encoding and blockettes), rewritten as version 3 without decoding, "
    "possibly after header changes, or decoded and packed again in either version, or copied; non-trivial: it has samples or extra headers.",
    {{"repack", 4, repack}, {"decoded", 4, decoded}, {"passage", 3, passage}, {"duplicate", 1, duplicate}},
    std_reset,
    nullptr};
}
