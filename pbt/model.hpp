// Independent reference models: calendar, CRC-32C, record formats, Steim
// frames, JSON, globbing.  Nothing here uses the code under test.
#pragma once
#include <cerrno>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <string>
#include <utility>
#include <vector>

namespace model {

typedef __int128 i128;
typedef std::vector<uint8_t> Bytes;

// ---------------------------------------------------------------- calendar
inline bool
leap (int64_t y)
{
  return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
}
inline int
ydays (int64_t y)
{
  return leap (y) ? 366 : 365;
}
inline int
mdays (int64_t y, int m)
{
  static const int d[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  return m == 2 && leap (y) ? 29 : d[m - 1];
}
inline int64_t
floordiv (int64_t a, int64_t b)
{
  int64_t q = a / b;
  return (a % b != 0 && ((a < 0) != (b < 0))) ? q - 1 : q;
}
// days from 1970-01-01 to Jan 1 of year y
inline int64_t
year_start (int64_t y)
{
  int64_t p = y - 1;
  return 365 * (y - 1970) + (floordiv (p, 4) - 1969 / 4) - (floordiv (p, 100) - 1969 / 100) + (floordiv (p, 400) - 1969 / 400);
}
struct Civil
{
  int64_t year = 1970;
  int doy = 1, month = 1, mday = 1, hour = 0, min = 0, sec = 0;
  uint32_t nsec = 0;
};
inline Civil
civil (int64_t ns)
{
  Civil c;
  int64_t s = floordiv (ns, 1000000000);
  c.nsec    = (uint32_t) (ns - (i128)s * 1000000000);
  int64_t d = floordiv (s, 86400);
  int64_t t = s - d * 86400;
  c.hour    = t / 3600;
  c.min     = t / 60 % 60;
  c.sec     = t % 60;
  int64_t y = 1970 + floordiv (d, 366);
  while (year_start (y + 1) <= d)
    y++;
  while (year_start (y) > d)
    y--;
  c.year = y;
  c.doy  = d - year_start (y) + 1;
  int r  = c.doy;
  c.month = 1;
  while (r > mdays (y, c.month))
    r -= mdays (y, c.month++);
  c.mday = r;
  return c;
}
inline i128
to_ns (int64_t y, int doy, int h, int mi, int s, i128 nsec)
{
  return (i128) (year_start (y) + doy - 1) * 86400 * 1000000000 + (i128) (h * 3600 + mi * 60 + s) * 1000000000 + nsec;
}
inline int
md2doy (int64_t y, int m, int d)
{
  int r = d;
  for (int i = 1; i < m; i++)
    r += mdays (y, i);
  return r;
}

// Leap seconds of UTC: the first instant after each (the first entry is the
// start of the modern scale, which published lists include)
inline const std::vector<int64_t> &
leaps ()
{
  static std::vector<int64_t> v;
  if (v.empty ())
  {
    static const int d[][2] = {{1972, 1}, {1972, 7}, {1973, 1}, {1974, 1}, {1975, 1}, {1976, 1}, {1977, 1}, {1978, 1}, {1979, 1}, {1980, 1}, {1981, 7}, {1982, 7}, {1983, 7}, {1985, 7}, {1988, 1}, {1990, 1}, {1991, 1}, {1992, 7}, {1993, 7}, {1994, 7}, {1996, 1}, {1997, 7}, {1999, 1}, {2006, 1}, {2009, 1}, {2012, 7}, {2015, 7}, {2017, 1}};
    for (auto &e : d)
      v.push_back ((int64_t)to_ns (e[0], md2doy (e[0], e[1], 1), 0, 0, 0, 0));
  }
  return v;
}
// time of the sample 'span' ns after start: one second less when a leap second
// lies completely inside.  'margin' receives the distance of the decision to its boundary
inline int64_t
leap_adjust (int64_t start, int64_t span, const std::vector<int64_t> &list, int64_t *margin = nullptr)
{
  int64_t m = INT64_MAX, r = start + span;
  bool hit = false;
  for (int64_t l : list)
  {
    if (l <= start)
      continue;
    i128 d = (i128)start + span - 1000000000 - l;
    int64_t a = (int64_t) (d < 0 ? -d : d);
    if (a < m && !hit)
      m = a;
    if (d >= 0)
      hit = true;
  }
  if (margin)
    *margin = m;
  return hit ? r - 1000000000 : r;
}

// ---------------------------------------------------------------- CRC-32C
inline uint32_t
crc32c (const uint8_t *p, size_t n, uint32_t prev = 0)
{
  static uint32_t tab[256];
  static bool init = false;
  if (!init)
  {
    for (uint32_t i = 0; i < 256; i++)
    {
      uint32_t c = i;
      for (int k = 0; k < 8; k++)
        c = (c & 1) ? (c >> 1) ^ 0x82F63B78u : c >> 1;
      tab[i] = c;
    }
    init = true;
  }
  uint32_t c = ~prev;
  for (size_t i = 0; i < n; i++)
    c = (c >> 8) ^ tab[(c ^ p[i]) & 0xff];
  return ~c;
}

// ---------------------------------------------------------------- byte access
inline void
put (Bytes &b, size_t off, uint64_t v, int n, bool big)
{
  for (int i = 0; i < n; i++)
    b[off + (big ? n - 1 - i : i)] = (uint8_t) (v >> (8 * i));
}
inline void
app (Bytes &b, uint64_t v, int n, bool big)
{
  size_t o = b.size ();
  b.resize (o + n);
  put (b, o, v, n, big);
}
inline uint64_t
get (const uint8_t *p, int n, bool big)
{
  uint64_t v = 0;
  for (int i = 0; i < n; i++)
    v |= (uint64_t)p[big ? n - 1 - i : i] << (8 * i);
  return v;
}
inline double
bits2d (uint64_t v)
{
  double d;
  memcpy (&d, &v, 8);
  return d;
}
inline uint64_t
d2bits (double d)
{
  uint64_t v;
  memcpy (&v, &d, 8);
  return v;
}
inline float
bits2f (uint32_t v)
{
  float d;
  memcpy (&d, &v, 4);
  return d;
}
inline uint32_t
f2bits (float d)
{
  uint32_t v;
  memcpy (&v, &d, 4);
  return v;
}
inline int64_t
sext (uint64_t v, int bits)
{
  uint64_t m = 1ull << (bits - 1);
  v &= (bits == 64 ? ~0ull : (1ull << bits) - 1);
  return (int64_t) ((v ^ m) - m);
}

// ---------------------------------------------------------------- Steim
// Decode all differences in nframes 64 byte frames; fills x0, xn and the differences
struct Steim
{
  bool ok = true;
  std::string why;
  int32_t x0 = 0, xn = 0;
  std::vector<int32_t> diffs;
  std::vector<int> widths;
};
inline Steim
steim_diffs (const uint8_t *p, size_t len, int version, bool big)
{
  Steim s;
  if (len < 64)
  {
    s.ok  = false;
    s.why = "less than one frame";
    return s;
  }
  for (size_t f = 0; f < len / 64; f++)
  {
    const uint8_t *q = p + f * 64;
    uint32_t ctl     = get (q, 4, big);
    if (ctl >> 30)
    {
      s.ok  = false;
      s.why = "control nibble of word 0 not zero in frame " + std::to_string (f);
    }
    for (int w = 1; w < 16; w++)
    {
      int nib     = (ctl >> (30 - 2 * w)) & 3;
      uint32_t v  = get (q + 4 * w, 4, big);
      if (f == 0 && w == 1)
      {
        s.x0 = (int32_t)v;
        if (nib)
          s.ok = false, s.why = "X0 word not marked as special";
        continue;
      }
      if (f == 0 && w == 2)
      {
        s.xn = (int32_t)v;
        if (nib)
          s.ok = false, s.why = "XN word not marked as special";
        continue;
      }
      auto add = [&] (int n, int bits) {
        for (int i = 0; i < n; i++)
        {
          s.diffs.push_back ((int32_t)sext (v >> (bits * (n - 1 - i)), bits));
          s.widths.push_back (bits);
        }
      };
      if (nib == 0)
        continue;
      if (nib == 1)
      {
        for (int i = 0; i < 4; i++)
        {
          s.diffs.push_back ((int8_t)q[4 * w + i]);
          s.widths.push_back (8);
        }
      }
      else if (version == 1)
      {
        if (nib == 2)
        {
          // two 16 bit values, each in data byte order
          for (int i = 0; i < 2; i++)
          {
            s.diffs.push_back ((int16_t)get (q + 4 * w + 2 * i, 2, big));
            s.widths.push_back (16);
          }
        }
        else
          add (1, 32);
      }
      else
      {
        int dn = v >> 30;
        if (nib == 2)
        {
          if (dn == 1)
            add (1, 30);
          else if (dn == 2)
            add (2, 15);
          else if (dn == 3)
            add (3, 10);
          else
            s.ok = false, s.why = "dnib 00 with ck 10";
        }
        else
        {
          if (dn == 0)
            add (5, 6);
          else if (dn == 1)
            add (6, 5);
          else if (dn == 2)
            add (7, 4);
          else
            s.ok = false, s.why = "dnib 11 with ck 11";
        }
      }
    }
  }
  return s;
}
// Integrate n samples (two's complement)
inline bool
steim_samples (const Steim &s, size_t n, std::vector<int32_t> &out)
{
  out.clear ();
  if (n == 0)
    return true;
  if (s.diffs.size () < n)
    return false;
  uint32_t x = (uint32_t)s.x0;
  out.push_back (s.x0);
  for (size_t i = 1; i < n; i++)
  {
    x += (uint32_t)s.diffs[i];
    out.push_back ((int32_t)x);
  }
  return true;
}

// ---------------------------------------------------------------- miniSEED 3
struct Rec3
{
  uint8_t flags = 0;
  uint32_t nsec = 0;
  uint16_t year = 1970, doy = 1;
  uint8_t hour = 0, min = 0, sec = 0, encoding = 0;
  uint64_t ratebits = 0;
  uint32_t nsamp = 0, crc = 0;
  uint8_t pubversion = 0;
  std::string sid, extra;
  Bytes data;

  Bytes
  build (bool setcrc = true) const
  {
    Bytes b;
    b.push_back ('M');
    b.push_back ('S');
    b.push_back (3);
    b.push_back (flags);
    app (b, nsec, 4, false);
    app (b, year, 2, false);
    app (b, doy, 2, false);
    b.push_back (hour);
    b.push_back (min);
    b.push_back (sec);
    b.push_back (encoding);
    app (b, ratebits, 8, false);
    app (b, nsamp, 4, false);
    app (b, 0, 4, false);
    b.push_back (pubversion);
    b.push_back ((uint8_t)sid.size ());
    app (b, extra.size (), 2, false);
    app (b, data.size (), 4, false);
    b.insert (b.end (), sid.begin (), sid.end ());
    b.insert (b.end (), extra.begin (), extra.end ());
    b.insert (b.end (), data.begin (), data.end ());
    put (b, 28, setcrc ? crc32c (b.data (), b.size ()) : crc, 4, false);
    return b;
  }
  // strict reader of the format; returns an empty string or what is wrong
  std::string
  read (const uint8_t *p, size_t n)
  {
    if (n < 40)
      return "shorter than the fixed header";
    if (p[0] != 'M' || p[1] != 'S' || p[2] != 3)
      return "bad indicator";
    flags      = p[3];
    nsec       = get (p + 4, 4, false);
    year       = get (p + 8, 2, false);
    doy        = get (p + 10, 2, false);
    hour       = p[12];
    min        = p[13];
    sec        = p[14];
    encoding   = p[15];
    ratebits   = get (p + 16, 8, false);
    nsamp      = get (p + 24, 4, false);
    crc        = get (p + 28, 4, false);
    pubversion = p[32];
    size_t sl = p[33], el = get (p + 34, 2, false), dl = get (p + 36, 4, false);
    if (n != 40 + sl + el + dl)
      return "record length " + std::to_string (n) + " is not 40+" + std::to_string (sl) + "+" + std::to_string (el) + "+" + std::to_string (dl);
    sid.assign ((const char *)p + 40, sl);
    extra.assign ((const char *)p + 40 + sl, el);
    data.assign (p + 40 + sl + el, p + n);
    Bytes c (p, p + n);
    put (c, 28, 0, 4, false);
    uint32_t want = crc32c (c.data (), c.size ());
    if (want != crc)
      return "CRC wrong";
    if (nsec > 999999999)
      return "nanoseconds out of range";
    if (doy < 1 || doy > ydays (year))
      return "day of year out of range";
    if (hour > 23 || min > 59 || sec > 60)
      return "time field out of range";
    return "";
  }
  i128
  start () const
  {
    return to_ns (year, doy, hour, min, sec, nsec);
  }
};

// ---------------------------------------------------------------- JSON
struct Json
{
  enum T { NUL, BOOL, INT, UINT, REAL, STR, ARR, OBJ } t = NUL;
  bool b = false;
  int64_t i = 0;   // INT: negative values
  uint64_t u = 0;  // UINT
  double d = 0;
  std::string s;
  std::vector<Json> a;
  std::vector<std::pair<std::string, Json>> o;

  static Json boolean (bool v) { Json j; j.t = BOOL; j.b = v; return j; }
  static Json integer (int64_t v) { Json j; if (v < 0) { j.t = INT; j.i = v; } else { j.t = UINT; j.u = v; } return j; }
  static Json uinteger (uint64_t v) { Json j; j.t = UINT; j.u = v; return j; }
  static Json real (double v) { Json j; j.t = REAL; j.d = v; return j; }
  static Json string (const std::string &v) { Json j; j.t = STR; j.s = v; return j; }
  static Json array () { Json j; j.t = ARR; return j; }
  static Json object () { Json j; j.t = OBJ; return j; }

  bool isnum () const { return t == INT || t == UINT || t == REAL; }
  double num () const { return t == INT ? (double)i : t == UINT ? (double)u : d; }
  Json *
  find (const std::string &k)
  {
    if (t != OBJ)
      return nullptr;
    for (auto &e : o)
      if (e.first == k)
        return &e.second;
    return nullptr;
  }
  const Json *
  find (const std::string &k) const
  {
    return const_cast<Json *> (this)->find (k);
  }
  Json &
  set (const std::string &k, const Json &v)
  {
    t = OBJ;
    if (Json *p = find (k))
    {
      *p = v;
      return *p;
    }
    o.emplace_back (k, v);
    return o.back ().second;
  }
  // set by path of keys, creating objects
  void
  setp (const std::vector<std::string> &path, const Json &v)
  {
    Json *j = this;
    for (size_t n = 0; n + 1 < path.size (); n++)
    {
      j->t    = OBJ;
      Json *c = j->find (path[n]);
      if (!c)
      {
        j->o.emplace_back (path[n], object ());
        c = &j->o.back ().second;
      }
      else if (c->t != OBJ)
        *c = object ();
      j = c;
    }
    j->set (path.back (), v);
  }
  void
  setp (const std::string &ptr, const Json &v) // "/A/B"
  {
    std::vector<std::string> parts;
    size_t p = 1;
    while (true)
    {
      size_t q = ptr.find ('/', p);
      parts.push_back (ptr.substr (p, q == std::string::npos ? q : q - p));
      if (q == std::string::npos)
        break;
      p = q + 1;
    }
    setp (parts, v);
  }
  const Json *
  at (const std::string &ptr) const // simple pointer without escapes
  {
    const Json *j = this;
    size_t p      = 1;
    if (ptr.empty ())
      return j;
    while (j)
    {
      size_t q      = ptr.find ('/', p);
      std::string k = ptr.substr (p, q == std::string::npos ? q : q - p);
      if (j->t == ARR)
      {
        size_t ix = atoi (k.c_str ());
        j         = ix < j->a.size () ? &j->a[ix] : nullptr;
      }
      else
        j = j->find (k);
      if (q == std::string::npos)
        return j;
      p = q + 1;
    }
    return j;
  }
  static void
  quote (const std::string &s, std::string &out)
  {
    out += '"';
    char buf[8];
    for (unsigned char c : s)
    {
      if (c == '"' || c == '\\')
      {
        out += '\\';
        out += c;
      }
      else if (c < 0x20)
      {
        snprintf (buf, sizeof buf, "\\u%04x", c);
        out += buf;
      }
      else
        out += c;
    }
    out += '"';
  }
  std::string
  text () const
  {
    std::string r;
    write (r);
    return r;
  }
  void
  write (std::string &r) const
  {
    char buf[64];
    switch (t)
    {
    case NUL: r += "null"; break;
    case BOOL: r += b ? "true" : "false"; break;
    case INT: r += std::to_string (i); break;
    case UINT: r += std::to_string (u); break;
    case REAL:
      snprintf (buf, sizeof buf, "%.17g", d);
      r += buf;
      if (!strpbrk (buf, ".eEn"))
        r += ".0";
      break;
    case STR: quote (s, r); break;
    case ARR:
      r += '[';
      for (size_t k = 0; k < a.size (); k++)
      {
        if (k)
          r += ',';
        a[k].write (r);
      }
      r += ']';
      break;
    case OBJ:
      r += '{';
      for (size_t k = 0; k < o.size (); k++)
      {
        if (k)
          r += ',';
        quote (o[k].first, r);
        r += ':';
        o[k].second.write (r);
      }
      r += '}';
      break;
    }
  }
};

// strict RFC 8259 parser
struct JsonParser
{
  const char *p, *e;
  bool ok = true;
  JsonParser (const std::string &s) : p (s.data ()), e (s.data () + s.size ()) {}
  void
  ws ()
  {
    while (p < e && (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r'))
      p++;
  }
  static void
  utf8 (uint32_t c, std::string &o)
  {
    if (c < 0x80)
      o += (char)c;
    else if (c < 0x800)
      o += (char)(0xc0 | c >> 6), o += (char)(0x80 | (c & 63));
    else if (c < 0x10000)
      o += (char)(0xe0 | c >> 12), o += (char)(0x80 | (c >> 6 & 63)), o += (char)(0x80 | (c & 63));
    else
      o += (char)(0xf0 | c >> 18), o += (char)(0x80 | (c >> 12 & 63)), o += (char)(0x80 | (c >> 6 & 63)), o += (char)(0x80 | (c & 63));
  }
  bool
  hex4 (uint32_t &v)
  {
    if (e - p < 4)
      return ok = false;
    v = 0;
    for (int k = 0; k < 4; k++, p++)
    {
      v <<= 4;
      if (*p >= '0' && *p <= '9') v |= *p - '0';
      else if (*p >= 'a' && *p <= 'f') v |= *p - 'a' + 10;
      else if (*p >= 'A' && *p <= 'F') v |= *p - 'A' + 10;
      else return ok = false;
    }
    return true;
  }
  std::string
  str ()
  {
    std::string o;
    if (p >= e || *p != '"')
    {
      ok = false;
      return o;
    }
    p++;
    while (ok)
    {
      if (p >= e || (unsigned char)*p < 0x20)
      {
        ok = false;
        return o;
      }
      if (*p == '"')
      {
        p++;
        return o;
      }
      if (*p != '\\')
      {
        o += *p++;
        continue;
      }
      p++;
      if (p >= e)
      {
        ok = false;
        return o;
      }
      switch (*p++)
      {
      case '"': o += '"'; break;
      case '\\': o += '\\'; break;
      case '/': o += '/'; break;
      case 'b': o += '\b'; break;
      case 'f': o += '\f'; break;
      case 'n': o += '\n'; break;
      case 'r': o += '\r'; break;
      case 't': o += '\t'; break;
      case 'u':
      {
        uint32_t v, w;
        if (!hex4 (v))
          return o;
        if (v >= 0xd800 && v < 0xdc00)
        {
          if (e - p < 6 || p[0] != '\\' || p[1] != 'u')
          {
            ok = false;
            return o;
          }
          p += 2;
          if (!hex4 (w) || w < 0xdc00 || w > 0xdfff)
          {
            ok = false;
            return o;
          }
          v = 0x10000 + ((v - 0xd800) << 10) + (w - 0xdc00);
        }
        utf8 (v, o);
        break;
      }
      default: ok = false; return o;
      }
    }
    return o;
  }
  Json
  value (int depth = 0)
  {
    Json j;
    ws ();
    if (p >= e || depth > 2000)
    {
      ok = false;
      return j;
    }
    if (*p == '{')
    {
      j.t = Json::OBJ;
      p++;
      ws ();
      if (p < e && *p == '}')
      {
        p++;
        return j;
      }
      while (ok)
      {
        ws ();
        std::string k = str ();
        ws ();
        if (!ok || p >= e || *p != ':')
        {
          ok = false;
          return j;
        }
        p++;
        Json v = value (depth + 1);
        j.o.emplace_back (k, v);
        ws ();
        if (!ok || p >= e)
        {
          ok = false;
          return j;
        }
        if (*p == ',')
        {
          p++;
          continue;
        }
        if (*p == '}')
        {
          p++;
          return j;
        }
        ok = false;
      }
      return j;
    }
    if (*p == '[')
    {
      j.t = Json::ARR;
      p++;
      ws ();
      if (p < e && *p == ']')
      {
        p++;
        return j;
      }
      while (ok)
      {
        j.a.push_back (value (depth + 1));
        ws ();
        if (!ok || p >= e)
        {
          ok = false;
          return j;
        }
        if (*p == ',')
        {
          p++;
          continue;
        }
        if (*p == ']')
        {
          p++;
          return j;
        }
        ok = false;
      }
      return j;
    }
    if (*p == '"')
    {
      j.t = Json::STR;
      j.s = str ();
      return j;
    }
    auto lit = [&] (const char *w) {
      size_t n = strlen (w);
      if ((size_t) (e - p) >= n && memcmp (p, w, n) == 0)
      {
        p += n;
        return true;
      }
      return false;
    };
    if (lit ("true"))
      return Json::boolean (true);
    if (lit ("false"))
      return Json::boolean (false);
    if (lit ("null"))
      return j;
    // number
    const char *st = p;
    bool neg = false, real = false;
    if (*p == '-')
      neg = true, p++;
    if (p >= e || *p < '0' || *p > '9')
    {
      ok = false;
      return j;
    }
    if (*p == '0')
      p++;
    else
      while (p < e && *p >= '0' && *p <= '9')
        p++;
    if (p < e && *p == '.')
    {
      real = true;
      p++;
      if (p >= e || *p < '0' || *p > '9')
      {
        ok = false;
        return j;
      }
      while (p < e && *p >= '0' && *p <= '9')
        p++;
    }
    if (p < e && (*p == 'e' || *p == 'E'))
    {
      real = true;
      p++;
      if (p < e && (*p == '+' || *p == '-'))
        p++;
      if (p >= e || *p < '0' || *p > '9')
      {
        ok = false;
        return j;
      }
      while (p < e && *p >= '0' && *p <= '9')
        p++;
    }
    std::string tx (st, p);
    if (!real)
    {
      errno = 0;
      if (neg)
      {
        long long v = strtoll (tx.c_str (), 0, 10);
        if (!errno)
        {
          if (v == 0)
            return Json::integer (0);
          return Json::integer (v);
        }
      }
      else
      {
        unsigned long long v = strtoull (tx.c_str (), 0, 10);
        if (!errno)
          return Json::uinteger (v);
      }
    }
    return Json::real (strtod (tx.c_str (), 0));
  }
};
inline bool
json_parse (const std::string &s, Json &j)
{
  JsonParser ps (s);
  j = ps.value ();
  ps.ws ();
  return ps.ok && ps.p == ps.e;
}
// semantic equality: object members unordered; numbers by value
inline bool
json_eq (const Json &a, const Json &b)
{
  if (a.isnum () && b.isnum ())
  {
    if (a.t == b.t)
      return a.t == Json::INT ? a.i == b.i : a.t == Json::UINT ? a.u == b.u : (a.d == b.d);
    return a.num () == b.num ();
  }
  if (a.t != b.t)
    return false;
  switch (a.t)
  {
  case Json::BOOL: return a.b == b.b;
  case Json::STR: return a.s == b.s;
  case Json::ARR:
    if (a.a.size () != b.a.size ())
      return false;
    for (size_t k = 0; k < a.a.size (); k++)
      if (!json_eq (a.a[k], b.a[k]))
        return false;
    return true;
  case Json::OBJ:
    if (a.o.size () != b.o.size ())
      return false;
    for (auto &e : a.o)
    {
      const Json *q = b.find (e.first);
      if (!q || !json_eq (e.second, *q))
        return false;
    }
    return true;
  default: return true;
  }
}

} // namespace model
