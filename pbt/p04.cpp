// P04: no input bytes can corrupt memory or hang a reader
#include "cli.hpp"
#include "foreign.hpp"

using pbt::fail;

static const uint64_t interesting[] = {0, 1, 2, 3, 4, 6, 7, 8, 11, 15, 16, 31, 32, 39, 40, 46, 47, 48, 52, 56, 63, 64, 65, 100, 127, 128, 200, 201, 255, 256, 300, 310, 320, 390, 395, 400, 405, 500, 511, 512, 1000, 1001, 2000, 2047, 4095, 4096, 10000, 32767, 32768, 65528, 65530, 65532, 65533, 65534, 65535, 65536, 10485760, 10485761, 0x7fffffff, 0x80000000, 0xfffffff0, 0xfffffffe, 0xffffffff};

static uint64_t
gen_value (Gen &g, int width, size_t len, uint64_t old)
{
  uint64_t v;
  switch (g.weighted ({3, 2, 2, 2}))
  {
  case 0: v = interesting[g.index (sizeof interesting / sizeof *interesting)]; break;
  case 1: v = len + g.range (-70, 70); break;
  case 2: v = old + g.range (-9, 9); break;
  default: v = g.raw (0);
  }
  return width == 8 ? v : v & ((1ull << (8 * width)) - 1);
}

struct Field
{
  size_t off;
  int width;
};

// fields whose values steer the readers
static std::vector<Field>
fields_of (const Bytes &b, bool &big)
{
  std::vector<Field> f;
  big = false;
  if (b.size () >= 40 && b[0] == 'M' && b[1] == 'S')
  {
    f = {{2, 1}, {4, 4}, {8, 2}, {10, 2}, {12, 1}, {13, 1}, {14, 1}, {15, 1}, {16, 8}, {24, 4}, {28, 4}, {33, 1}, {34, 2}, {36, 4}, {33, 1}, {34, 2}, {36, 4}, {24, 4}, {15, 1}};
    return f;
  }
  if (b.size () < 48)
    return {{0, 1}};
  int y = (int)model::get (&b[20], 2, true);
  big   = y >= 1900 && y <= 2100;
  f     = {{20, 2}, {22, 2}, {24, 1}, {25, 1}, {26, 1}, {28, 2}, {30, 2}, {30, 2}, {32, 2}, {34, 2}, {36, 1}, {39, 1}, {40, 4}, {44, 2}, {44, 2}, {46, 2}, {46, 2}};
  size_t o = model::get (&b[46], 2, big);
  for (int k = 0; k < 20 && o >= 48 && o + 8 <= b.size (); k++)
  {
    int type = (int)model::get (&b[o], 2, big);
    f.push_back ({o, 2});
    f.push_back ({o + 2, 2});
    f.push_back ({o + 2, 2});
    f.push_back ({o + 4, type == 2000 ? 2 : 1});
    f.push_back ({o + 5, 1});
    f.push_back ({o + 6, type == 2000 ? 2 : 1});
    f.push_back ({o + 6, type == 2000 ? 2 : 1});
    size_t nx = model::get (&b[o + 2], 2, big);
    if (nx <= o)
      break;
    o = nx;
  }
  return f;
}

static void
fix_crc (Bytes &b)
{
  if (b.size () >= 40 && b[0] == 'M')
  {
    uint64_t len = 40 + b[33] + model::get (&b[34], 2, false) + model::get (&b[36], 4, false);
    if (len > b.size ())
      return;
    model::put (b, 28, 0, 4, false);
    model::put (b, 28, model::crc32c (b.data (), len), 4, false);
  }
}

static void
mutate (Gen &g, Bytes &b)
{
  int n = (int)g.weighted ({1, 4, 3, 2, 1, 1});
  for (int k = 0; k < n; k++)
  {
    switch (b.empty () ? 4 : g.weighted ({10, 3, 2, 3, 1, 2, 2}))
    {
    case 0:
    {
      bool big;
      std::vector<Field> f = fields_of (b, big);
      Field x              = f[g.index (f.size ())];
      if (x.off + x.width <= b.size ())
        model::put (b, x.off, gen_value (g, x.width, b.size (), model::get (&b[x.off], x.width, big)), x.width, big);
      break;
    }
    case 1: // any byte
      b[g.index (b.size ())] = (uint8_t)g.raw (256);
      break;
    case 2: // a bit
      b[g.index (b.size ())] ^= 1 << g.raw (8);
      break;
    case 3: // truncate
      b.resize (g.coin () ? g.index (b.size () + 1) : g.index (std::min<size_t> (b.size (), 140) + 1));
      break;
    case 4: // extend
    {
      size_t m = (size_t)g.range (1, 200);
      int c    = (int)g.raw (3);
      for (size_t j = 0; j < m; j++)
        b.push_back (c == 0 ? 0 : c == 1 ? 0xff : (uint8_t)g.raw (256));
      break;
    }
    case 5: // overwrite a range
    {
      size_t o = g.index (b.size ()), m = (size_t)g.range (1, 64);
      int c = (int)g.raw (3);
      for (size_t j = 0; j < m && o + j < b.size (); j++)
        b[o + j] = c == 0 ? 0 : c == 1 ? 0xff : (uint8_t)g.raw (256);
      break;
    }
    default: // move a range
    {
      size_t o = g.index (b.size ()), p = g.index (b.size ()), m = (size_t)g.range (1, 80);
      m = std::min (m, b.size () - std::max (o, p));
      memmove (&b[p], &b[o], m);
    }
    }
  }
  if (g.coin ())
    fix_crc (b);
}

static Bytes
gen_base (Gen &g)
{
  switch (g.weighted ({4, 6, 2, 1}))
  {
  case 0:
  {
    Series s;
    model::Rec3 r = gen_foreign3 (g, s);
    if (g.chance (1, 6)) // identifiers around the length of their field
      r.sid = std::string ((size_t)(g.coin () ? g.range (60, 68) : g.range (0, 255)), 'S') + (g.coin () ? "" : std::string (1, 0));
    if (r.sid.size () > 255)
      r.sid.resize (255);
    if (g.chance (1, 8)) // extra headers that are not JSON
      r.extra = g.coin () ? std::string ((size_t)g.range (0, 300), (char)g.range (0, 255)) : r.extra + g.str ("{}[]\",:0", 1, 5);
    return r.build ();
  }
  case 1: return gen_foreign2 (g, false).rec;
  case 2: // arbitrary bytes behind a plausible start
  {
    Bytes b;
    if (g.coin ())
      b = {'M', 'S', 3, 0, 0, 0, 0, 0, 0xd0, 7, 1, 0, 0, 0, 0, (uint8_t)payload::gen_enc (g)};
    else
    {
      std::string h = "000001D XXXXX  BHZYY";
      b.assign (h.begin (), h.end ());
      for (int v : {7, 0xd0, 0, 1, 0, 0, 0, 0, 0, 0})
        b.push_back ((uint8_t)v);
    }
    size_t m = (size_t)g.size (0, 600);
    for (size_t k = 0; k < m; k++)
      b.push_back (g.coin () ? 0 : (uint8_t)g.raw (256));
    return b;
  }
  default:
  {
    Bytes b;
    size_t m = (size_t)g.size (0, 200);
    for (size_t k = 0; k < m; k++)
      b.push_back ((uint8_t)g.raw (256));
    return b;
  }
  }
}

static void
reset ()
{
  std_reset ();
  mem::st ().maxsize = 48u << 20; // a larger request is refused, as a limited system does
}

static bool
documented_error (int rv)
{
  return rv <= MS_GENERROR && rv >= MS_INVALIDCRC;
}

static void
check_fields (const MS3Record *m, uint64_t buflen, const char *what)
{
  REQUIRE (m->formatversion == 2 || m->formatversion == 3, "version", what << ": " << (int)m->formatversion);
  REQUIRE (m->reclen >= MINRECLEN && m->reclen <= MAXRECLEN && (uint64_t)m->reclen <= buflen, "reclen", what << ": record length " << m->reclen << " in " << buflen << " bytes");
  REQUIRE (memchr (m->sid, 0, sizeof m->sid), "sid", what << ": identifier is not terminated");
  REQUIRE (m->starttime != NSTERROR, "starttime", what << ": start time is the error value");
  REQUIRE (m->samplecnt >= 0 && m->samplecnt <= 0xffffffffLL, "samplecnt", what << ": " << m->samplecnt);
  REQUIRE ((m->extralength == 0) == (m->extra == nullptr), "extra", what << ": " << m->extralength << " bytes of extra headers at " << (const void *)m->extra);
  REQUIRE (m->numsamples >= 0 && m->numsamples <= m->samplecnt, "numsamples", what << ": " << m->numsamples << " of " << m->samplecnt);
  if (m->numsamples)
  {
    int ss = ms_samplesize (m->sampletype);
    REQUIRE (ss > 0, "sampletype", what << ": type " << (int)m->sampletype);
    REQUIRE (m->datasamples && m->datasize >= (uint64_t)m->numsamples * ss, "datasize", what << ": " << m->datasize << " bytes for " << m->numsamples << " samples");
    volatile unsigned char x = 0;
    for (uint64_t k = 0; k < (uint64_t)m->numsamples * ss; k++)
      x = x ^ ((unsigned char *)m->datasamples)[k];
  }
  volatile char x = 0;
  for (int k = 0; k < m->extralength; k++)
    x = x ^ m->extra[k];
}

static void
use_record (Gen &g, MS3Record *m, const char *rec, uint64_t len)
{
  int ops = (int)g.range (0, 4);
  for (int k = 0; k < ops; k++)
  {
    switch (g.raw (11))
    {
    case 0: msr3_print (m, (int8_t)g.range (0, 2)); break;
    case 1:
    {
      int64_t n = msr3_unpack_data (m, (int8_t)g.range (0, 3));
      REQUIRE (n == m->numsamples || n < 0, "unpack", n << " numsamples " << m->numsamples);
      check_fields (m, len, "after msr3_unpack_data");
      break;
    }
    case 2:
    {
      uint32_t off, size;
      if (msr3_data_bounds (m, &off, &size) == 0)
        REQUIRE ((uint64_t)off + size <= (uint64_t)m->reclen, "bounds", off << "+" << size << " in a record of " << m->reclen);
      break;
    }
    case 3:
    {
      size_t room = g.coin () ? (size_t)m->reclen + 4000 : (size_t)g.range (0, m->reclen + 100);
      char *o     = (char *)malloc (room ? room : 1);
      int rv      = msr3_repack_mseed3 (m, o, (uint32_t)room, 0);
      REQUIRE (rv <= (int)room, "repack", rv << " bytes in a buffer of " << room);
      if (rv > 0)
      {
        Msr again;
        int pv = msr3_parse (o, rv, &again.p, MSF_VALIDATECRC, 0);
        bool ok = pv == 0;
        free (o);
        REQUIRE (ok, "repack-parse", "the repacked record of " << rv << " bytes does not parse: " << pv << "; " << lg::diag ());
        break;
      }
      free (o);
      break;
    }
    case 4:
    {
      MS3Record *d = msr3_duplicate (m, 1);
      if (d)
        check_fields (d, len, "duplicate");
      msr3_free (&d);
      break;
    }
    case 5:
    {
      Collector c;
      int64_t packed;
      MS3Record t = *m;
      t.reclen    = g.pick<int> ({-1, 128, 256, 512, 4096, 600});
      if (g.coin ())
        t.encoding = -1;
      if (t.numsamples < 200000)
        msr3_pack (&t, collect, &c, &packed, MSF_FLUSHDATA | (g.coin () ? MSF_PACKVER2 : 0), 0);
      break;
    }
    case 6: msr3_endtime (m); msr3_sampratehz (m); msr3_nsperiod (m); break;
    case 7: msr3_resize_buffer (m); break;
    case 8: mseh_print (m, (int)g.range (0, 10)); break;
    case 9:
    {
      char v[20];
      mseh_get_string (m, "/FDSN/Event/Detection/0/Type", v, sizeof v);
      double d = 0;
      mseh_get_number (m, "/FDSN/Time/Quality", &d);
      mseh_set_number (m, "/FDSN/Time/Quality", &d);
      break;
    }
    default:
    {
      char n[64], s[64], l[64], c[64];
      ms_sid2nslc (m->sid, n, s, l, c);
    }
    }
  }
}

static void
record (Gen &g)
{
  Bytes b = gen_base (g);
  mutate (g, b);
  g.note (fmt ("record of %zu bytes: ", b.size ()) + pbt::hexdump (b.data (), b.size (), 400));
  Buf buf (b, (int)g.range (0, 3));
  const char *p = (const char *)buf.p;
  uint8_t fv    = 99;
  int64_t det   = ms3_detect (p, buf.n, &fv);
  REQUIRE (det >= -1, "detect", det);
  uint32_t flags = 0;
  for (uint32_t f : {MSF_UNPACKDATA, MSF_VALIDATECRC, MSF_ATENDOFFILE, MSF_SKIPNOTDATA})
    if (g.coin ())
      flags |= f;
  Msr m;
  int rv = msr3_parse (p, buf.n, &m.p, flags, (int8_t)g.range (0, 3));
  g.note (fmt (" -> detect %lld, flags %x, parse %d", (long long)det, flags, rv));
  if (rv == 0)
  {
    REQUIRE (m.p, "parse", "success without a record");
    check_fields (m.p, buf.n, "msr3_parse");
    use_record (g, m.p, p, buf.n);
    g.label ("parsed");
    g.nontrivial ();
  }
  else if (rv > 0)
  {
    REQUIRE (rv <= MAXRECLEN, "hint", "asks for " << rv << " more bytes");
    g.label ("more bytes");
    if (det > 0)
      g.nontrivial ();
  }
  else
  {
    REQUIRE (documented_error (rv), "code", "returns " << rv);
    REQUIRE (rv != MS_NOTSEED || det < 0, "notseed", "detected " << det);
    REQUIRE (!m.p, "parse", "a record structure is left after error " << rv);
    g.label (fmt ("error %d", rv));
    if (rv != MS_NOTSEED)
      g.nontrivial ();
  }
  int max = (int)std::min<size_t> (buf.n, INT_MAX);
  if (g.coin () && max >= 48)
    ms_parse_raw2 (p, max, (int8_t)g.range (0, 2), (int8_t)g.range (-1, 1));
  if (g.coin () && max >= 40)
    ms_parse_raw3 (p, max, (int8_t)g.range (0, 2));
  REQUIRE (!memcmp (buf.p, b.data (), b.size ()), "input-modified", "the input bytes were changed");
}

static Bytes
gen_stream (Gen &g, int maxrecs)
{
  Bytes all;
  int n = (int)g.range (1, maxrecs);
  for (int k = 0; k < n; k++)
  {
    Bytes b = gen_base (g);
    if (g.chance (2, 3))
      mutate (g, b);
    all.insert (all.end (), b.begin (), b.end ());
    if (g.chance (1, 6))
      all.insert (all.end (), (size_t)g.range (1, 130), (uint8_t)g.raw (256));
    if (g.chance (1, 3)) // a near copy: same identifier
    {
      mutate (g, b);
      all.insert (all.end (), b.begin (), b.end ());
    }
  }
  return all;
}

static void
walk_traces (Gen &g, MS3TraceList *l)
{
  uint32_t ids = 0;
  for (MS3TraceID *id = l->traces.next[0]; id; id = id->next[0])
  {
    REQUIRE (++ids <= l->numtraceids, "ids", "more identifiers than counted");
    uint32_t segs = 0;
    for (MS3TraceSeg *s = id->first; s; s = s->next)
    {
      REQUIRE (++segs <= id->numsegments, "segments", "more segments than counted");
      if (s->recordlist && g.coin ())
      {
        int64_t n = mstl3_unpack_recordlist (id, s, nullptr, 0, 0);
        REQUIRE (n < 0 || n == s->numsamples, "recordlist", n << " " << s->numsamples);
      }
      if (s->numsamples > 0 && g.chance (1, 4))
        mstl3_convertsamples (s, g.pick<char> ({'i', 'f', 'd'}), 1);
    }
    REQUIRE (segs == id->numsegments, "segments", segs << " of " << id->numsegments);
  }
  REQUIRE (ids == l->numtraceids, "ids", ids << " of " << l->numtraceids);
  if (g.coin ())
    mstl3_printtracelist (l, ISOMONTHDAY, 1, 1, 1);
  if (g.coin ())
    mstl3_printgaplist (l, SEEDORDINAL, nullptr, nullptr);
  if (g.coin ())
    mstl3_printsynclist (l, "DCC", NANO_MICRO_NONE);
  if (g.chance (1, 3))
  {
    Collector c;
    int64_t packed;
    mstl3_pack (l, collect, &c, 512, -1, &packed, MSF_FLUSHDATA | (g.coin () ? MSF_PACKVER2 : 0), 0, nullptr);
  }
}

static void
buffer (Gen &g)
{
  Bytes b = gen_stream (g, 4);
  g.note (fmt ("buffer of %zu bytes: ", b.size ()) + pbt::hexdump (b.data (), b.size (), 600));
  Buf buf (b, (int)g.range (0, 3));
  uint32_t flags = 0;
  for (uint32_t f : {MSF_UNPACKDATA, MSF_VALIDATECRC, MSF_SKIPNOTDATA, MSF_RECORDLIST})
    if (g.coin ())
      flags |= f;
  MS3TraceList *l = nullptr;
  int64_t rv      = mstl3_readbuffer (&l, (char *)buf.p, buf.n, (int8_t)g.coin (), flags, nullptr, (int8_t)g.range (0, 2));
  g.note (fmt (" flags %x -> %lld", flags, (long long)rv));
  REQUIRE (rv >= 0 || documented_error ((int)rv), "code", rv);
  if (l)
  {
    if (l->numtraceids)
      g.nontrivial ();
    walk_traces (g, l);
  }
  mstl3_free (&l, 0);
  REQUIRE (!memcmp (buf.p, b.data (), b.size ()), "input-modified", "the input bytes were changed");
}

static void
file (Gen &g)
{
  Bytes b          = gen_stream (g, 4);
  std::string path = pbt::scratch_dir () + "/f.mseed";
  cli::write_file (path, b);
  uint32_t flags = 0;
  for (uint32_t f : {MSF_UNPACKDATA, MSF_VALIDATECRC, MSF_SKIPNOTDATA, MSF_RECORDLIST, MSF_PNAMERANGE})
    if (g.coin ())
      flags |= f;
  std::string name = path;
  if (g.chance (1, 3))
    name += "@" + g.str ("0123456789-", 0, g.coin () ? 6 : 24);
  if (g.chance (1, 20))
    name = pbt::scratch_dir () + "/" + g.str ("abc/", 400, 700) + "@" + g.str ("0123456789-", 1, 9);
  g.note (fmt ("file %s of %zu bytes flags %x: ", pbt::quote (name).c_str (), b.size (), flags) + pbt::hexdump (b.data (), b.size (), 600));
  switch (g.raw (3))
  {
  case 0:
  {
    MS3FileParam *fp = nullptr;
    MS3Record *m     = nullptr;
    int rv;
    uint64_t n = 0;
    while ((rv = ms3_readmsr_r (&fp, &m, name.c_str (), flags, 0)) == MS_NOERROR)
    {
      REQUIRE (m, "read", "success without a record");
      check_fields (m, b.size (), "ms3_readmsr_r");
      REQUIRE (++n <= b.size () / MINRECLEN + 1, "endless", "more records than the file can hold");
    }
    REQUIRE (rv == MS_ENDOFFILE || documented_error (rv), "code", rv);
    REQUIRE (!m, "read", "a record is left after " << rv);
    if (n)
      g.nontrivial ();
    ms3_readmsr_r (&fp, &m, nullptr, 0, 0);
    break;
  }
  case 1:
  {
    MS3TraceList *l = nullptr;
    int rv          = ms3_readtracelist (&l, name.c_str (), nullptr, (int8_t)g.coin (), flags, 0);
    REQUIRE (rv == MS_NOERROR || documented_error (rv), "code", rv);
    if (l)
    {
      if (l->numtraceids)
        g.nontrivial ();
      walk_traces (g, l);
    }
    mstl3_free (&l, 0);
    break;
  }
  default:
  {
    MS3TraceList *l = nullptr;
    int64_t t0 = g.coin () ? NSTUNSET : gen_time (g), t1 = g.coin () ? NSTUNSET : gen_time (g);
    int rv = ms3_readtracelist_timewin (&l, name.c_str (), nullptr, t0, t1, 0, flags, 0);
    REQUIRE (rv == MS_NOERROR || documented_error (rv), "code", rv);
    if (l && l->numtraceids)
      g.nontrivial ();
    mstl3_free (&l, 0);
  }
  }
}

// ------------------------------------------------------------ text
static std::string
garble (Gen &g, std::string s, const std::string &alpha)
{
  int n = (int)g.weighted ({1, 3, 2, 2});
  for (int k = 0; k < n; k++)
  {
    switch (s.empty () ? 1 : g.raw (5))
    {
    case 0: s[g.index (s.size ())] = alpha[g.index (alpha.size ())]; break;
    case 1: s.insert (g.index (s.size () + 1), g.str (alpha, 1, g.chance (1, 5) ? 60 : 4)); break;
    case 2: s.erase (g.index (s.size ()), (size_t)g.range (1, 8)); break;
    case 3: s[g.index (s.size ())] = (char)g.range (1, 255); break;
    default:
    {
      size_t o = g.index (s.size ());
      s.insert (g.index (s.size () + 1), s.substr (o, (size_t)g.range (1, 40)));
    }
    }
  }
  return s.substr (0, s.find ('\0'));
}
struct CStr // exactly sized C string
{
  char *p;
  CStr (const std::string &s)
  {
    p = (char *)malloc (s.size () + 1);
    memcpy (p, s.c_str (), s.size () + 1);
  }
  ~CStr () { free (p); }
};

static std::string
gen_timetext (Gen &g)
{
  int64_t t = gen_time (g);
  char b[60];
  if (!ms_nstime2timestr (t, b, (ms_timeformat_t)g.range (0, 9), (ms_subseconds_t)g.range (0, 11)))
    b[0] = 0;
  return b;
}

static void
text (Gen &g)
{
  switch (g.raw (5))
  {
  case 0:
  case 1:
  {
    std::string s = garble (g, g.chance (1, 8) ? g.str ("0123456789-.+e", 0, 40) : gen_timetext (g), "0123456789-:/,. TZ+e");
    g.note ("time text " + pbt::quote (s));
    CStr c (s);
    ms_timestr2nstime (c.p);
    ms_mdtimestr2nstime (c.p);
    ms_seedtimestr2nstime (c.p);
    g.nontrivial ();
    break;
  }
  case 2:
  {
    std::string s = garble (g, gen_sid (g, g.coin ()), "ABC_:-01FDSNXs");
    g.note ("identifier " + pbt::quote (s));
    CStr c (s);
    char n[256], st[256], l[256], ch[256];
    if (s.size () < 250)
      ms_sid2nslc (c.p, n, st, l, ch);
    char x[32], y[32];
    CStr c2 (s.substr (0, g.index (8)));
    ms_seedchan2xchan (x, c2.p);
    ms_xchan2seedchan (y, c2.p);
    g.nontrivial ();
    break;
  }
  case 3:
  {
    std::string f;
    int lines = (int)g.range (0, 6);
    for (int k = 0; k < lines; k++)
    {
      std::string ln;
      switch (g.raw (4))
      {
      case 0: ln = g.str ("ABCDE*?[]-", 1, 20) + " " + gen_timetext (g) + " " + gen_timetext (g) + (g.coin () ? " 1" : ""); break;
      case 1: ln = gen_sid (g, false) + " "; break;
      case 2: ln = "IU ANMO 00 BHZ " + g.str ("*DRQM012", 0, 2) + " " + gen_timetext (g) + " " + gen_timetext (g); break;
      default: ln = "#" + g.str ("abc \t", 0, 40);
      }
      f += garble (g, ln, "AB*?[]\\^-0129 \t#") + (g.chance (1, 10) ? "" : g.chance (1, 8) ? "\r\n" : "\n");
    }
    if (g.chance (1, 10))
      f += g.str ("ABC *\n", 200, 400);
    g.note ("selection file " + pbt::quote (f, 600));
    std::string path = pbt::scratch_dir () + "/sel";
    cli::write_file (path, f);
    MS3Selections *sel = nullptr;
    int rv             = ms3_readselectionsfile (&sel, path.c_str ());
    (void)rv;
    ms3_printselections (sel);
    std::string sid = gen_sid (g, false);
    ms3_matchselect (sel, sid.c_str (), gen_time (g), gen_time (g), (int)g.range (0, 255), nullptr);
    if (sel)
      g.nontrivial ();
    ms3_freeselections (sel);
    break;
  }
  default:
  {
    std::string f;
    int lines = (int)g.range (0, 8);
    for (int k = 0; k < lines; k++)
      f += garble (g, g.chance (1, 4) ? "#@ 3896899200" : fmt ("%lld\t%d\t# 1 Jan 1972", (long long)g.range (2000000000LL, 4900000000LL), (int)g.range (0, 60)), "0123456789 \t#@-x") + "\n";
    if (g.chance (1, 6))
      f += g.str ("0123 #", 150, 300);
    g.note ("leap second file " + pbt::quote (f, 600));
    std::string path = pbt::scratch_dir () + "/leap";
    cli::write_file (path, f);
    LeapSecond *old = leapsecondlist;
    if (g.coin ())
      leapsecondlist = nullptr;
    ms_readleapsecondfile (path.c_str ());
    ms_sampletime (gen_time (g), (int64_t)g.range (0, 100000), gen_rate (g));
    leapsecondlist = old; // the loaded list stays with the allocator and is released by the next reset
    g.nontrivial ();
  }
  }
}

static void
extra (Gen &g)
{
  Json o = g.coin () ? ext::gen_v2able (g, 2000) : [&] { Json j = Json::object (); int n = (int)g.range (0, 6); for (int k = 0; k < n; k++) j.set (g.str ("ABc", 1, 3), gen_json (g, 3)); return j; }();
  fix_utf8 (o);
  std::string s = ext::empty (o) ? "{}" : o.text ();
  if (g.chance (1, 12))
    s = std::string ((size_t)g.range (1, 20000), g.coin () ? '[' : '{');
  if (g.chance (3, 4))
    s = garble (g, s, "{}[]\",:0123456789.eE+-\\untrfals \n");
  if (s.size () > 65535)
    s.resize (65535);
  g.note ("extra headers " + pbt::quote (s, 900));
  MS3Record *m   = msr3_init (nullptr);
  m->extra       = (char *)libmseed_memory.malloc (s.size () + (s.empty () ? 1 : 0)); // exactly the stated length, not terminated
  memcpy (m->extra, s.data (), s.size ());
  m->extralength = (uint16_t)s.size ();
  snprintf (m->sid, sizeof m->sid, "FDSN:XX_STA__L_H_Z");
  m->starttime = gen_time (g);
  m->samprate  = 1;
  LM_PARSED_JSON *ps = nullptr;
  static const char *const paths[] = {"/FDSN/Time/Quality", "/FDSN/Event/Detection", "/A", "/B/c", "/FDSN", "", "/", "//", "/~", "/~1/~0", "/A/0", "/A/-", "/FDSN/Calibration/Sequence/0/Type", "A", "/A/99999999999999999999"};
  int ops = (int)g.range (1, 6);
  for (int k = 0; k < ops; k++)
  {
    std::string path = paths[g.index (sizeof paths / sizeof *paths)];
    if (g.chance (1, 5))
      path = garble (g, path, "/~01AB-9");
    CStr c (path);
    LM_PARSED_JSON **pp = g.coin () ? &ps : nullptr;
    switch (g.raw (9))
    {
    case 0:
    {
      size_t room = (size_t)g.range (1, 40);
      char *v     = (char *)malloc (room);
      mseh_get_ptr_r (m, c.p, v, 's', (uint32_t)room, pp);
      free (v);
      break;
    }
    case 1:
    {
      double d;
      int64_t i;
      int b;
      mseh_get_ptr_r (m, c.p, &d, 'n', 0, pp);
      mseh_get_ptr_r (m, c.p, &i, 'i', 0, pp);
      mseh_get_ptr_r (m, c.p, &b, 'b', 0, pp);
      break;
    }
    case 2:
    {
      double d = gen_double (g);
      mseh_set_ptr_r (m, c.p, &d, 'n', pp);
      break;
    }
    case 3:
    {
      std::string v = g.str ("abc\"\\\xc3\xff", 0, 20);
      CStr cv (v);
      mseh_set_ptr_r (m, c.p, cv.p, 's', pp);
      break;
    }
    case 4: mseh_print (m, (int)g.range (0, 10)); break;
    case 5: msr3_print (m, 2); break;
    case 6: mseh_serialize (m, &ps); break;
    case 7:
    {
      char rec[4096];
      msr3_pack_header2 (m, rec, sizeof rec, 0);
      break;
    }
    default:
    {
      MSEHRecenter r = {};
      r.begintime = r.endtime = NSTUNSET;
      snprintf (r.type, sizeof r.type, "MASS");
      mseh_add_recenter_r (m, g.coin () ? c.p : nullptr, &r, pp);
    }
    }
  }
  mseh_free_parsestate (&ps);
  msr3_free (&m);
  g.nontrivial ();
}

static void
inspect (Gen &g)
{
  std::string dir = pbt::scratch_dir ();
  Bytes b         = gen_stream (g, 4);
  cli::write_file (dir + "/in.mseed", b);
  std::vector<std::string> args;
  auto opt = [&] (const char *o) { if (g.chance (1, 3)) args.push_back (o); };
  for (const char *o : {"-snd", "-p", "-pp", "-O", "-L", "-s", "-d", "-D", "-z", "-t", "-T", "-tg", "-g", "-G", "-S", "-P", "-v", "-vvv"})
    if (g.chance (1, 5))
      args.push_back (o);
  (void)opt;
  auto val = [&] (const char *o, const std::string &v) {
    if (g.chance (1, 6))
    {
      args.push_back (o);
      args.push_back (v);
    }
  };
  val ("-ts", garble (g, gen_timetext (g), "0123456789-:"));
  val ("-te", gen_timetext (g));
  val ("-m", g.str ("*?[]A-B\\^_", 0, 12));
  val ("-r", g.str ("*?[]A-B\\^_", 0, 12));
  val ("-n", fmt ("%d", (int)g.range (-1, 5)));
  val ("-tt", fmt ("%g", (double)g.range (-2, 10) / 4));
  val ("-rt", fmt ("%g", (double)g.range (-2, 10) / 4));
  val ("-gmin", fmt ("%g", (double)g.range (-2, 10)));
  val ("-gmax", fmt ("%g", (double)g.range (-2, 10)));
  val ("-tf", fmt ("%d", (int)g.range (0, 2)));
  val ("-o", g.chance (1, 4) ? "-" : "out.raw");
  val ("-b", g.chance (1, 4) ? "-" : "out.bin");
  std::string name = "in.mseed";
  if (g.chance (1, 5))
    name += "@" + g.str ("0123456789-", 0, 8);
  if (g.chance (1, 8))
  {
    std::string list = garble (g, "in.mseed\n#x\n\nin.mseed\n", "in.msed\n#@0");
    cli::write_file (dir + "/list", list);
    name = "@list";
  }
  args.push_back (name);
  std::string cmd;
  for (auto &a : args)
    cmd += " " + pbt::quote (a);
  g.note ("msi" + cmd + fmt (" on %zu bytes: ", b.size ()) + pbt::hexdump (b.data (), b.size (), 600));
  cli::Result r = cli::run (args, dir);
  cli::require_sane (r, args);
  REQUIRE (r.status == 0 || r.status == 1, "cli-status", "exit status " << r.status << ": " << r.err.substr (0, 500));
  REQUIRE (r.status == 0 || !r.err.empty (), "cli-message", "exit status " << r.status << " without a message");
  g.label (r.status ? "exit 1" : "exit 0");
  g.nontrivial ();
}

namespace pbt {
Property property = {
    "P04",
    "A case damages records of an independent writer (length, offset, count, type and code fields, bytes, truncation, moved ranges), streams of them, time and "
    "identifier text, selection and leap second files and extra header text, and gives them to the readers in buffers of exactly their size under "
    "AddressSanitizer and a CPU limit; non-trivial: the input got past detection.",
    {{"record", 700, record}, {"buffer", 120, buffer}, {"file", 100, file}, {"text", 200, text}, {"extra", 200, extra}, {"inspect", 4, inspect}},
    reset,
    nullptr};
}
