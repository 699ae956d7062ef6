// Generators of the library's domain and small wrappers around its API
#pragma once
#include "mem.hpp"
#include "model.hpp"
#include "pbt.hpp"
#include <cinttypes>
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cmath>

using pbt::Gen;
using model::Bytes;
using model::Json;
typedef __int128 i128;

// ------------------------------------------------------------ log capture
namespace lg {
inline std::string &
out ()
{
  static std::string *s = new std::string;
  return *s;
}
inline std::string &
diag ()
{
  static std::string *s = new std::string;
  return *s;
}
inline void
on_out (const char *m)
{
  if (out ().size () < (1u << 22))
    out () += m;
}
inline void
on_diag (const char *m)
{
  if (diag ().size () < (1u << 16))
    diag () += m;
}
inline void
reset ()
{
  out ().clear ();
  diag ().clear ();
  ms_rloginit (on_out, "", on_diag, "", 0);
}
} // namespace lg

inline void
std_reset ()
{
  mem::reset ();
  lg::reset ();
  libmseed_prealloc_block_size = 0;
  static LeapSecond *const builtin = leapsecondlist; // nothing has been loaded at the first case
  leapsecondlist                   = builtin;
}

// ------------------------------------------------------------ text helpers
inline std::string
fmt (const char *f, ...)
{
  char b[1024];
  va_list ap;
  va_start (ap, f);
  vsnprintf (b, sizeof b, f, ap);
  va_end (ap);
  return b;
}
inline std::string
tstr (int64_t ns)
{
  model::Civil c = model::civil (ns);
  return fmt ("%04lld-%02d-%02dT%02d:%02d:%02d.%09u", (long long)c.year, c.month, c.mday, c.hour, c.min, c.sec, c.nsec);
}

// ------------------------------------------------------------ identifiers
static const char *const UPNUM = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";

struct Nslc
{
  std::string net, sta, loc, band, src, sub;
  std::string
  sid () const
  {
    return "FDSN:" + net + "_" + sta + "_" + loc + "_" + band + "_" + src + "_" + sub;
  }
  bool
  v2ok () const
  {
    return net.size () <= 2 && sta.size () <= 5 && loc.size () <= 2 && band.size () == 1 && src.size () == 1 && sub.size () == 1;
  }
};
inline Nslc
gen_nslc (Gen &g, bool v2)
{
  Nslc n;
  if (v2 || g.coin ())
  {
    n.net  = g.str (UPNUM, 1, 2);
    n.sta  = g.str (UPNUM, 1, 5);
    n.loc  = g.str (UPNUM, 0, 2);
    n.band = g.str (UPNUM, 1, 1);
    n.src  = g.str (UPNUM, 1, 1);
    n.sub  = g.str (UPNUM, 1, 1);
  }
  else
  {
    n.net  = g.str (UPNUM, 1, 8);
    n.sta  = g.str ("ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-", 1, 8);
    n.loc  = g.str (UPNUM, 0, 8);
    n.band = g.str (UPNUM, 0, 1);
    n.src  = g.str (UPNUM, 1, 8);
    n.sub  = g.str (UPNUM, 0, 8);
  }
  return n;
}
inline std::string
gen_sid (Gen &g, bool v2)
{
  if (!v2 && g.chance (1, 12))
    return g.str ("ABCabc0189:_./-+ xyz", 0, 63); // any text is a legal v3 identifier
  return gen_nslc (g, v2).sid ();
}

// ------------------------------------------------------------ times and rates
// start times away from the ends of the range by 'margin' years
inline int64_t
gen_time (Gen &g, int margin = 3)
{
  int64_t ns;
  switch (g.weighted ({4, 3, 2, 2, 1}))
  {
  case 0: // 1990 - 2030, any resolution
    ns = g.range (631152000LL, 1893456000LL) * 1000000000LL;
    break;
  case 1: // full range of years, any second
  {
    int64_t y = g.range (1678 + margin, 2261 - margin);
    ns        = (int64_t)model::to_ns (y, (int)g.range (1, model::ydays (y)), g.range (0, 23), g.range (0, 59), g.range (0, 59), 0);
    break;
  }
  case 2: // around year ends
  {
    int64_t y = g.range (1678 + margin, 2261 - margin);
    ns        = (int64_t)model::to_ns (y, 1, 0, 0, 0, 0) + g.range (-5, 5) * 1000000000LL;
    break;
  }
  case 3: // around the end of February
  {
    int64_t y = g.range (1678 + margin, 2261 - margin);
    ns        = (int64_t)model::to_ns (y, 60, 0, 0, 0, 0) + g.range (-90000, 90000) * 1000000000LL;
    break;
  }
  default: // around the epoch
    ns = g.range (-3, 3) * 1000000000LL;
  }
  switch (g.weighted ({3, 2, 2, 3}))
  {
  case 0: break;
  case 1: ns += g.range (0, 9999) * 100000; break;
  case 2: ns += g.range (0, 999999) * 1000; break;
  default: ns += g.range (0, 999999999);
  }
  // 1902-01-01T00:00:00 is the documented error value of the time type
  if (ns >= NSTERROR - 86400000000000LL * 2 && ns <= NSTERROR + 10000000000LL)
    ns += 86400000000000LL * 3;
  return ns;
}

// a sample rate the way callers give it: Hz, or negative seconds per sample
inline double
gen_rate (Gen &g)
{
  switch (g.weighted ({5, 3, 3, 2, 3, 1, 1}))
  {
  case 0: return g.pick<double> ({1, 100, 40, 20, 10, 50, 200, 500, 1000, 0.1, 0.01, 2});
  case 1: return (double)g.range (1, 32767);
  case 2: return (double)g.range (1, 400000) / (double)g.range (1, 1000);
  case 3: return -(double)g.range (1, 40000);
  case 4: return -(double)g.range (1, 400000) / (double)g.range (1, 1000);
  case 5: return (double)g.range (32768, 2000000);
  default: return -1.0 / ((double)g.range (20, 1000000) / 31.0); // short period
  }
}
inline double gen_rate2 (Gen &g); // rates that version 2 can express
inline double
hz (double r)
{
  return r < 0 ? -1.0 / r : r;
}

inline double
gen_rate2 (Gen &g)
{
  double r = gen_rate (g), h = hz (r);
  if (h < 1.0 / 32767 || (h > 32767 && h != floor (h)))
    return r < 0 ? -7.5 : 12.5;
  return r;
}

// ------------------------------------------------------------ samples
struct Series
{
  char type = 'i';
  std::vector<int32_t> i;
  std::vector<float> f;
  std::vector<double> d;
  std::string t;

  size_t
  size () const
  {
    return type == 'i' ? i.size () : type == 'f' ? f.size () : type == 'd' ? d.size () : t.size ();
  }
  int
  ssize () const
  {
    return type == 'i' || type == 'f' ? 4 : type == 'd' ? 8 : 1;
  }
  const void *
  data () const
  {
    return type == 'i' ? (const void *)i.data () : type == 'f' ? (const void *)f.data () : type == 'd' ? (const void *)d.data () : (const void *)t.data ();
  }
  const uint8_t *
  at (size_t k) const
  {
    return (const uint8_t *)data () + k * ssize ();
  }
  Series
  slice (size_t a, size_t n) const
  {
    Series s;
    s.type = type;
    if (type == 'i') s.i.assign (i.begin () + a, i.begin () + a + n);
    if (type == 'f') s.f.assign (f.begin () + a, f.begin () + a + n);
    if (type == 'd') s.d.assign (d.begin () + a, d.begin () + a + n);
    if (type == 't') s.t = t.substr (a, n);
    return s;
  }
  void
  append (const Series &o)
  {
    i.insert (i.end (), o.i.begin (), o.i.end ());
    f.insert (f.end (), o.f.begin (), o.f.end ());
    d.insert (d.end (), o.d.begin (), o.d.end ());
    t += o.t;
  }
  bool
  same (const void *p, size_t n) const
  {
    return n == size () && (n == 0 || memcmp (p, data (), n * ssize ()) == 0);
  }
  std::string
  show (size_t max = 12) const
  {
    std::string s = fmt ("%zu x '%c':", size (), type);
    for (size_t k = 0; k < size () && k < max; k++)
    {
      if (type == 'i') s += fmt (" %d", i[k]);
      else if (type == 'f') s += fmt (" %.9g", f[k]);
      else if (type == 'd') s += fmt (" %.17g", d[k]);
      else s += fmt (" %02x", (unsigned char)t[k]);
    }
    return s + (size () > max ? " ..." : "");
  }
};

// integer series by differences, dwelling on widths that matter to Steim.
// maxdiffbits limits the differences; valbits the values
inline std::vector<int32_t>
gen_ints (Gen &g, size_t n, int maxdiffbits, int valbits)
{
  static const int64_t edges[] = {0, 1, 7, 8, 15, 16, 31, 32, 127, 128, 511, 512, 16383, 16384, 32767, 32768, 536870911, 536870912, 1073741823, 2147483647};
  std::vector<int32_t> v;
  int64_t lo = -(1LL << (valbits - 1)), hi = (1LL << (valbits - 1)) - 1;
  int64_t dlo = maxdiffbits >= 33 ? -(1LL << 33) : -(1LL << (maxdiffbits - 1)), dhi = -dlo - 1;
  int64_t x = g.chance (1, 4) ? g.range (lo, hi) : g.range (-1000 < lo ? lo : -1000, 1000 > hi ? hi : 1000);
  size_t k  = 0;
  while (k < n)
  {
    // a run of one style
    size_t run = (size_t)g.range (1, 14);
    int style  = (int)g.weighted ({3, 3, 2, 1, 1});
    int w      = (int)g.pick<int> ({3, 4, 5, 6, 8, 10, 15, 16, 30, 32});
    for (size_t r = 0; r < run && k < n; r++, k++)
    {
      int64_t d = 0;
      if (style == 0)
        d = g.range (-(1LL << (w - 1)), (1LL << (w - 1)) - 1);
      else if (style == 1)
      {
        d = edges[g.index (sizeof edges / sizeof edges[0])] + g.range (-1, 1);
        if (g.coin ())
          d = -d;
      }
      else if (style == 2)
        d = 0;
      else if (style == 3)
        d = g.range (-3, 3);
      else
        d = (int64_t)g.range (lo, hi) - x; // jump anywhere
      if (d < dlo) d = dlo;
      if (d > dhi) d = dhi;
      int64_t nx = x + d;
      if (nx < lo || nx > hi)
      {
        nx = x - d;
        if (nx < lo || nx > hi)
          nx = x;
        if (nx - x < dlo || nx - x > dhi)
          nx = x;
      }
      x = nx;
      v.push_back ((int32_t)x);
    }
  }
  return v;
}
inline float
gen_float (Gen &g)
{
  switch (g.weighted ({3, 3, 1, 1}))
  {
  case 0: return (float)g.range (-1000, 1000);
  case 1: return (float)g.range (-100000, 100000) / 8.0f;
  case 2: return model::bits2f ((uint32_t)g.raw (1ull << 32));
  default: return g.pick<float> ({0.0f, -0.0f, INFINITY, -INFINITY, NAN, 3.4e38f, 1e-45f, 1e10f});
  }
}
inline double
gen_double (Gen &g)
{
  switch (g.weighted ({3, 3, 1, 1}))
  {
  case 0: return (double)g.range (-1000, 1000);
  case 1: return (double)g.range (-1000000000LL, 1000000000LL) / 1024.0;
  case 2: return model::bits2d (g.raw (0));
  default: return g.pick<double> ({0.0, -0.0, (double)INFINITY, -(double)INFINITY, (double)NAN, 1.7e308, 5e-324, 1e100});
  }
}
inline Series
gen_series (Gen &g, char type, size_t n, int maxdiffbits = 33, int valbits = 32)
{
  Series s;
  s.type = type;
  if (type == 'i')
    s.i = gen_ints (g, n, maxdiffbits, valbits);
  else
    for (size_t k = 0; k < n; k++)
    {
      if (type == 'f') s.f.push_back (gen_float (g));
      else if (type == 'd') s.d.push_back (gen_double (g));
      else s.t += (char)g.range (1, 255);
    }
  return s;
}
inline const char *
encname (int e)
{
  switch (e)
  {
  case 0: return "TEXT";
  case 1: return "INT16";
  case 3: return "INT32";
  case 4: return "FLOAT32";
  case 5: return "FLOAT64";
  case 10: return "STEIM1";
  case 11: return "STEIM2";
  case 12: return "GEOSCOPE24";
  case 13: return "GEOSCOPE163";
  case 14: return "GEOSCOPE164";
  case 16: return "CDSN";
  case 30: return "SRO";
  case 32: return "DWWSSN";
  }
  return "?";
}
inline char
enctype (int e)
{
  switch (e)
  {
  case DE_TEXT: return 't';
  case DE_FLOAT32: return 'f';
  case DE_FLOAT64: return 'd';
  case 12: case 13: case 14: return 'f';
  }
  return 'i';
}
inline int
gen_packenc (Gen &g)
{
  return g.pick<int> ({DE_STEIM2, DE_STEIM1, DE_INT32, DE_INT16, DE_FLOAT32, DE_FLOAT64, DE_TEXT, DE_STEIM2, DE_STEIM1});
}
// series every value of which the encoding can represent
inline Series
gen_for_encoding (Gen &g, int enc, size_t n)
{
  char t = enctype (enc);
  if (enc == DE_INT16)
    return gen_series (g, t, n, 17, 16);
  if (enc == DE_STEIM2)
    return gen_series (g, t, n, 30, 32);
  return gen_series (g, t, n, 33, 32);
}

// ------------------------------------------------------------ record handling
struct Collector
{
  std::vector<Bytes> recs;
};
inline void
collect (char *rec, int len, void *data)
{
  ((Collector *)data)->recs.emplace_back ((uint8_t *)rec, (uint8_t *)rec + len);
}

struct Msr // owner of an MS3Record
{
  MS3Record *p = nullptr;
  Msr () {}
  ~Msr () { if (p) msr3_free (&p); }
  Msr (const Msr &) = delete;
  MS3Record *operator-> () { return p; }
};

// description of something to pack
struct Desc
{
  std::string sid;
  uint8_t flags = 0, pubversion = 1;
  int64_t start = 0;
  double rate   = 1;
  int enc       = DE_STEIM2;
  int reclen    = 512;
  int version   = 3;
  std::string extra;
  Series s;

  std::string
  show () const
  {
    return fmt ("v%d sid=%s start=%s rate=%.17g flags=%02x pub=%d enc=%s reclen=%d extra=%s ", version, pbt::quote (sid).c_str (), tstr (start).c_str (), rate, flags, pubversion, encname (enc), reclen, extra.c_str ()) + s.show ();
  }
  // fill an MS3Record that borrows this object's memory
  void
  fill (MS3Record &m) const
  {
    memset (&m, 0, sizeof m);
    snprintf (m.sid, sizeof m.sid, "%s", sid.c_str ());
    m.formatversion = version;
    m.flags         = flags;
    m.starttime     = start;
    m.samprate      = rate;
    m.encoding      = enc;
    m.pubversion    = pubversion;
    m.reclen        = reclen;
    m.extra         = extra.empty () ? nullptr : const_cast<char *> (extra.c_str ());
    m.extralength   = extra.size ();
    m.datasamples   = const_cast<void *> (s.data ());
    m.numsamples    = s.size ();
    m.samplecnt     = s.size ();
    m.datasize      = s.size () * s.ssize ();
    m.sampletype    = s.type;
  }
};

inline int
steim_maxsamples (int enc)
{
  return enc == DE_STEIM1 ? 64 : 105;
}

// pack through the library
inline int
pack (const Desc &d, Collector &c, int64_t *packed, uint32_t flags)
{
  MS3Record m;
  d.fill (m);
  return msr3_pack (&m, collect, &c, packed, flags, 0);
}

// a free-form JSON value
inline Json
gen_json (Gen &g, int depth)
{
  switch (g.weighted ({3, 3, 2, 2, 1, depth > 0 ? 2 : 0, depth > 0 ? 3 : 0}))
  {
  case 0: return Json::integer (g.chance (1, 6) ? (int64_t)g.raw (0) : g.range (-1000, 1000));
  case 1: return Json::string (g.str ("abcXYZ 019_-/~.\"\\\n\xc3\xa9", 0, 12)); // see fixup below
  case 2: return Json::boolean (g.coin ());
  case 3: return Json::real (g.range (-1000000, 1000000) / 64.0 + (g.coin () ? 0.1 : 0));
  case 4: return Json ();
  case 5:
  {
    Json a = Json::array ();
    int n  = (int)g.range (0, 4);
    for (int k = 0; k < n; k++)
      a.a.push_back (gen_json (g, depth - 1));
    return a;
  }
  default:
  {
    Json o = Json::object ();
    int n  = (int)g.range (0, 4);
    for (int k = 0; k < n; k++)
      o.set (g.str ("ABCdef", 1, 4), gen_json (g, depth - 1));
    return o;
  }
  }
}
// make strings valid UTF-8 (gen_json draws single bytes of a two byte sequence)
inline void
fix_utf8 (Json &j)
{
  std::string o;
  for (size_t k = 0; k < j.s.size (); k++)
  {
    unsigned char c = j.s[k];
    if (c == 0xc3 || c == 0xa9)
      o += "\xc3\xa9";
    else
      o += (char)c;
  }
  j.s = o;
  for (auto &x : j.a)
    fix_utf8 (x);
  for (auto &x : j.o)
    fix_utf8 (x.second);
}
inline std::string
gen_extra_v3 (Gen &g)
{
  if (g.chance (2, 3))
    return "";
  Json o = Json::object ();
  int n  = (int)g.range (1, 5);
  for (int k = 0; k < n; k++)
  {
    if (g.coin ())
      o.setp ("/FDSN/Time/Quality", Json::integer (g.range (0, 100)));
    else
      o.set (g.str ("ABCdef", 1, 5), gen_json (g, 2));
  }
  fix_utf8 (o);
  return o.text ();
}
