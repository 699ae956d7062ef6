// P10: times convert exactly between numbers, calendar fields and text
#include "timetext.hpp"
using namespace pbt;
using namespace timetext;

namespace {
const int64_t FIRST = (int64_t)model::to_ns (1678, 1, 0, 0, 0, 0);
const char *fmtnames[] = {"ISOMONTHDAY", "ISOMONTHDAY_Z", "ISOMONTHDAY_DOY", "ISOMONTHDAY_DOY_Z", "ISOMONTHDAY_SPACE", "ISOMONTHDAY_SPACE_Z", "SEEDORDINAL", "UNIXEPOCH", "NANOSECONDEPOCH"};
const char *subnames[] = {"NONE", "MICRO", "NANO", "MICRO_NONE", "NANO_NONE", "NANO_MICRO", "NANO_MICRO_NONE"};

bool
is_special (int64_t t) // the values that mean error and unset
{
  return t >= NSTERROR - 1 && t <= NSTUNSET + 1;
}

int64_t
any_time (Gen &g)
{
  int64_t t;
  switch (g.weighted ({4, 2, 2, 2}))
  {
  case 0: t = gen_time (g, 0); break;
  case 1: t = (int64_t)g.raw (0); break;
  case 2: t = g.bits (62); break;
  default:
    t = g.pick<int64_t> ({INT64_MAX, INT64_MIN, 0, FIRST, -1000000000, 1000000000, NSTERROR, (int64_t)model::to_ns (2100, 60, 0, 0, 0, 0), (int64_t)model::to_ns (2000, 60, 0, 0, 0, 0), (int64_t)model::to_ns (1900, 60, 0, 0, 0, 0)});
    int64_t d = g.bits (31);
    if (d > 0 ? t <= INT64_MAX - d : t >= INT64_MIN - d)
      t += d;
  }
  if (g.chance (1, 4)) // digits that matter
  {
    int64_t s = model::floordiv (t, 1000000000);
    i128 v    = (i128)s * 1000000000 + g.pick<int64_t> ({0, 1, 999, 1000, 1001, 999000, 999999, 1000000, 500000000, 999999000, 999999001, 999999999, 123456789, 123456000, 100000});
    if (v >= INT64_MIN && v <= INT64_MAX)
      t = (int64_t)v;
  }
  return t;
}

struct Text // printed into exactly the documented room
{
  char *p;
  Text () : p ((char *)malloc (37)) { memset (p, 0x7e, 37); }
  ~Text () { free (p); }
  Text (const Text &) = delete;
};
} // namespace

static void
print (Gen &g)
{
  int64_t t = any_time (g);
  g.note (fmt ("%lld ", (long long)t) + tstr (t) + "\n");
  for (int format = 0; format <= 8; format++)
    for (int sub = 0; sub <= 6; sub++)
    {
      i128 named;
      std::string want = expected (t, format, sub, named);
      Text b;
      bool z = g.chance (1, 8);
      if (z)
      {
        want = expected (t, format == ISOMONTHDAY ? ISOMONTHDAY_Z : format == ISOMONTHDAY_DOY ? ISOMONTHDAY_DOY_Z : format == ISOMONTHDAY_SPACE ? ISOMONTHDAY_SPACE_Z : format, sub, named);
      }
      char *r = (z ? ms_nstime2timestrz : ms_nstime2timestr) (t, b.p, (ms_timeformat_t)format, (ms_subseconds_t)sub);
      REQUIRE (r == b.p, "print", fmtnames[format] << " " << subnames[sub] << ": returns " << (void *)r << "; " << lg::diag ());
      // the sign of a zero that lost its digits does not matter
      REQUIRE (want == b.p || (named == 0 && want == std::string ("-") + b.p), "print-text", fmtnames[format] << " " << subnames[sub] << ": '" << b.p << "' want '" << want << "'");
      if (t < FIRST || is_special ((int64_t)named) || named < FIRST)
        continue;
      if (format == NANOSECONDEPOCH || format == ISOMONTHDAY_DOY || format == ISOMONTHDAY_DOY_Z)
        continue;
      if (format == UNIXEPOCH && strlen (b.p) == 4 && strspn (b.p, "0123456789") == 4)
        continue; // four digits are a year
      int64_t back = ms_timestr2nstime (b.p);
      REQUIRE (back == (int64_t)named, "round-trip", fmtnames[format] << " " << subnames[sub] << ": '" << b.p << "' is read as " << back << " " << tstr (back) << " want " << (int64_t)named << "; " << lg::diag ());
      if (format < SEEDORDINAL)
      {
        back = ms_mdtimestr2nstime (b.p);
        REQUIRE (back == (int64_t)named, "round-trip-md", "'" << b.p << "' is read as " << back << " want " << (int64_t)named);
      }
      if (format == SEEDORDINAL)
      {
        back = ms_seedtimestr2nstime (b.p);
        REQUIRE (back == (int64_t)named, "round-trip-seed", "'" << b.p << "' is read as " << back << " want " << (int64_t)named);
      }
    }
  REQUIRE (lg::diag ().empty (), "messages", "message for a valid time: " << lg::diag ());
  Text b;
  int badf = (int)g.pick<int> ({9, -1, 1000}), bads = (int)g.pick<int> ({7, -1, 1000});
  REQUIRE (!ms_nstime2timestr (t, b.p, (ms_timeformat_t)badf, NANO), "print-format", "format " << badf << " accepted");
  REQUIRE (!ms_nstime2timestr (t, b.p, ISOMONTHDAY, (ms_subseconds_t)bads), "print-format", "subseconds " << bads << " accepted");
  REQUIRE (!ms_nstime2timestr (t, nullptr, ISOMONTHDAY, NANO), "print-format", "no buffer accepted");
  if (t % 1000000000)
    g.nontrivial ();
}

// date and time fields
static void
fields (Gen &g)
{
  int64_t t      = any_time (g);
  model::Civil c = model::civil (t);
  g.note (fmt ("%lld ", (long long)t) + tstr (t) + "\n");
  uint16_t year = 7, yday = 7;
  uint8_t hour = 77, min = 77, sec = 77;
  uint32_t nsec = 7;
  unsigned use  = g.coin () ? 63 : (unsigned)g.raw (64);
  int rv        = ms_nstime2time (t, use & 1 ? &year : nullptr, use & 2 ? &yday : nullptr, use & 4 ? &hour : nullptr, use & 8 ? &min : nullptr, use & 16 ? &sec : nullptr, use & 32 ? &nsec : nullptr);
  REQUIRE (rv == 0, "fields", "ms_nstime2time returns " << rv);
  REQUIRE (year == (use & 1 ? c.year : 7) && yday == (use & 2 ? c.doy : 7) && hour == (use & 4 ? c.hour : 77) && min == (use & 8 ? c.min : 77) && sec == (use & 16 ? c.sec : 77) && nsec == (use & 32 ? c.nsec : 7), "fields",
           fmt ("got %d,%d,%d:%d:%d.%u want %lld,%d,%d:%d:%d.%u", year, yday, hour, min, sec, nsec, (long long)c.year, c.doy, c.hour, c.min, c.sec, c.nsec));
  if (t < FIRST || is_special (t))
    return;
  int64_t back = ms_time2nstime ((int)c.year, c.doy, c.hour, c.min, c.sec, c.nsec);
  REQUIRE (back == t, "fields-back", "ms_time2nstime gives " << back << " for " << t);
  // a leap second is the second after :59
  back   = ms_time2nstime ((int)c.year, c.doy, c.hour, c.min, 60, c.nsec);
  i128 w = model::to_ns (c.year, c.doy, c.hour, c.min, 60, c.nsec);
  REQUIRE (back == (w > INT64_MAX ? NSTERROR : (int64_t)w), "fields-leap", "second 60 gives " << back);
  // a field out of its range
  int f[6] = {(int)c.year, c.doy, c.hour, c.min, c.sec, (int)c.nsec};
  int which = (int)g.raw (6);
  switch (which)
  {
  case 0: f[0] = g.pick<int> ({1677, 2263, 0, -1, 1970 - 65536, 1970 + 65536, INT_MAX, INT_MIN, 9999}); break;
  case 1: f[1] = g.pick<int> ({0, -1, model::ydays (c.year) + 1, 367, 1000, INT_MAX, INT_MIN, c.doy + 65536, c.doy - 256 * 4}); break;
  case 2: f[2] = g.pick<int> ({24, -1, 25, 256, 280, INT_MAX, INT_MIN}); break;
  case 3: f[3] = g.pick<int> ({60, -1, 61, 256, 300, INT_MAX, INT_MIN}); break;
  case 4: f[4] = g.pick<int> ({61, -1, 62, 256, 300, INT_MAX, INT_MIN}); break;
  default: f[5] = g.pick<int> ({1000000000, INT_MAX, -1, INT_MIN});
  }
  lg::diag ().clear ();
  back = ms_time2nstime (f[0], f[1], f[2], f[3], f[4], (uint32_t)f[5]);
  REQUIRE (back == NSTERROR, "fields-range", fmt ("%d,%d,%d:%d:%d.%u gives %lld", f[0], f[1], f[2], f[3], f[4], (uint32_t)f[5], (long long)back));
  REQUIRE (!lg::diag ().empty (), "messages", "no message for a field out of range");
  if (t < 0)
    g.nontrivial ();
}

// times at the end of the range
static void
limits (Gen &g)
{
  i128 t = (i128)INT64_MAX + (g.coin () ? g.range (-3, 3) : g.bits (54));
  int64_t s = (int64_t)(t / 1000000000);
  uint32_t ns = (uint32_t)(t % 1000000000);
  // calendar of the last year by hand: civil () is for 64 bits
  int64_t day = s / 86400, r = s % 86400;
  if (day < model::year_start (2262) || day >= model::year_start (2263))
    DISCARD ();
  int doy = (int)(day - model::year_start (2262)) + 1;
  int64_t want = t > INT64_MAX ? NSTERROR : (int64_t)t;
  int64_t got  = ms_time2nstime (2262, doy, (int)(r / 3600), (int)(r / 60 % 60), (int)(r % 60), ns);
  std::string iso = fmt ("2262,%03d,%02d:%02d:%02d.%09u", doy, (int)(r / 3600), (int)(r / 60 % 60), (int)(r % 60), ns);
  g.note (iso + "\n");
  REQUIRE (got == want, "limit", "fields " << iso << " give " << got << " want " << want);
  got = ms_timestr2nstime (iso.c_str ());
  REQUIRE (got == want, "limit", iso << " gives " << got << " want " << want);
  std::string ep = fmt ("%s%lld.%09u", g.coin () ? "+" : "", (long long)s, ns);
  got            = ms_timestr2nstime (ep.c_str ());
  REQUIRE (got == want, "limit", ep << " gives " << got << " want " << want);
  ep             = fmt ("-%lld.%09u", (long long)s, ns);
  want           = t > INT64_MAX ? NSTERROR : -(int64_t)t;
  got            = ms_timestr2nstime (ep.c_str ());
  REQUIRE (got == want || (-t == INT64_MIN), "limit", ep << " gives " << got << " want " << want);
  // far out
  std::string far = g.pick<const char *> ({"", "+", "-"}) + g.str ("123456789", 11, 11) + g.str ("0123456789", 0, 15);
  if (g.coin ())
    far += "." + g.str ("0123456789", 1, 9);
  got = ms_timestr2nstime (far.c_str ());
  REQUIRE (got == NSTERROR, "limit", far << " gives " << got);
  g.nontrivial ();
}

// every day of a year
static void
calendar (Gen &g)
{
  int y = (int)g.range (1678, 2262);
  g.note (fmt ("year %d\n", y));
  int doy = 0;
  for (int m = 1; m <= 12; m++)
    for (int d = 1; d <= model::mdays (y, m); d++)
    {
      doy++;
      int gm = -1, gd = -1, gy = -1;
      REQUIRE (ms_doy2md (y, doy, &gm, &gd) == 0 && gm == m && gd == d, "calendar", fmt ("%d day %d is %d-%d want %d-%d", y, doy, gm, gd, m, d));
      REQUIRE (ms_md2doy (y, m, d, &gy) == 0 && gy == doy, "calendar", fmt ("%d-%d-%d is day %d want %d", y, m, d, gy, doy));
    }
  int a = 0, b = 0;
  int m = (int)g.range (1, 12);
  lg::diag ().clear ();
  for (int bad : {0, -1, doy + 1, doy + 65536, INT_MAX, INT_MIN})
    REQUIRE (ms_doy2md (y, bad, &a, &b) == -1, "calendar-range", fmt ("%d day %d is accepted as %d-%d", y, bad, a, b));
  for (int bad : {0, -1, model::mdays (y, m) + 1, 32, 257, INT_MAX, INT_MIN})
    REQUIRE (ms_md2doy (y, m, bad, &a) == -1, "calendar-range", fmt ("%d-%d-%d is accepted as day %d", y, m, bad, a));
  for (int bad : {0, -1, 13, 257, INT_MAX, INT_MIN})
    REQUIRE (ms_md2doy (y, bad, 1, &a) == -1, "calendar-range", fmt ("%d-%d-1 is accepted as day %d", y, bad, a));
  for (int bad : {2263, 0, -1, 65536 + y, INT_MAX, INT_MIN})
  {
    REQUIRE (ms_md2doy (bad, 1, 1, &a) == -1, "calendar-range", fmt ("year %d is accepted", bad));
    REQUIRE (ms_doy2md (bad, 1, &a, &b) == -1, "calendar-range", fmt ("year %d is accepted", bad));
  }
  REQUIRE (ms_doy2md (y, 1, nullptr, &b) == -1 && ms_doy2md (y, 1, &a, nullptr) == -1 && ms_md2doy (y, 1, 1, nullptr) == -1, "calendar-range", "missing results accepted");
  REQUIRE (!lg::diag ().empty (), "messages", "no message for values out of range");
  g.nontrivial ();
}

// texts built from fields in the documented forms, whole or short, right or with one
// field out of range
static void
texts (Gen &g)
{
  int64_t t      = any_time (g);
  if (t < FIRST)
    t = FIRST;
  model::Civil c = model::civil (t);
  enum { ISO, SLASH, ORDINAL, SEED, YEAR, EPOCH, MDLOOSE, SEEDLOOSE } form = (decltype (ISO))g.raw (8);
  // fields as they will be written
  int64_t v[6] = {c.year, form == ISO || form == SLASH || form == MDLOOSE ? c.month : c.doy, c.mday, c.hour, c.min, c.sec};
  bool md      = form == ISO || form == SLASH || form == MDLOOSE;
  int nf       = (int)g.range (1, md ? 6 : 5); // fields present
  int fd       = (int)g.range (0, 9);          // fraction digits
  if (form == YEAR)
    nf = 1;
  if (form == ISO || form == SLASH)
    nf = std::max (nf, 3);
  if (form == ORDINAL || form == SEED)
    nf = std::max (nf, 2);
  bool leap = g.chance (1, 12);
  if (leap)
    v[5] = 60;
  int wrong = g.chance (2, 5) ? (int)g.raw (nf) : -1;
  std::string bad;
  std::vector<std::string> txt;
  for (int k = 0; k < nf; k++)
  {
    int idx = md ? k : (k < 2 ? k : k + 1);
    int64_t x = v[idx];
    int w     = idx == 0 ? 4 : (idx == 1 && !md) ? 3 : 2;
    std::string s = fmt ("%0*lld", w, (long long)x);
    if (form == MDLOOSE && g.chance (1, 6) && idx)
      s = std::to_string (x);
    if (k == wrong)
    {
      std::vector<int64_t> c2;
      switch (idx)
      {
      case 0: c2 = {1677, 2263, 1, 9999, 1000}; break;
      case 1:
        c2 = md ? std::vector<int64_t>{0, 13, 99, 20} : std::vector<int64_t>{0, model::ydays (c.year) + 1, 367, 999, 400};
        break;
      case 2: c2 = {0, model::mdays (c.year, c.month) + 1, 32, 99}; break;
      case 3: c2 = {24, 25, 99}; break;
      case 4: c2 = {60, 61, 99}; break;
      default: c2 = {61, 62, 99};
      }
      x = g.pick<int64_t> (c2);
      if (form != YEAR && g.chance (1, 4))
        x = v[idx] + (g.coin () ? 4294967296LL : 65536 * 1000LL); // wraps to a valid one in few bits
      s = fmt ("%0*lld", w, (long long)x);
    }
    txt.push_back (s);
  }
  std::string s;
  std::string delims = form == MDLOOSE ? "-,/:." : "-,:.";
  for (int k = 0; k < nf; k++)
  {
    if (k)
    {
      int date = md ? 3 : 2; // fields of the date
      char d;
      if (form == MDLOOSE || form == SEEDLOOSE)
      {
        d = k == date && g.coin () ? g.pick<char> ({'T', 't', ' '}) : delims[g.index (delims.size ())];
        // the delimiter before the fraction must stay recognisable: none is written there
      }
      else if (form == SEED)
        d = k == 1 ? ',' : k == 2 ? (g.coin () ? ',' : g.pick<char> ({'T', ' '})) : g.coin () ? ':' : ',';
      else if (k < date)
        d = form == SLASH ? '/' : '-';
      else
        d = k == date ? g.pick<char> ({'T', ' '}) : ':';
      s += d;
    }
    s += txt[k];
  }
  uint32_t ns = 0;
  bool full   = nf == (md ? 6 : 5);
  if (full && fd)
  {
    std::string digs = fmt ("%09u", c.nsec).substr (0, fd);
    s += ((form == SEED || form == SEEDLOOSE) && g.chance (1, 3) ? "," : ".") + digs;
    ns = (uint32_t)strtoul ((digs + std::string (9 - fd, '0')).c_str (), nullptr, 10);
  }
  i128 want = 0;
  auto present = [&] (int idx) { int k = md ? idx : idx > 2 ? idx - 1 : idx; return k < nf && !(idx == 2 && !md); };
  int doy = md ? model::md2doy (c.year, present (1) ? c.month : 1, present (2) ? c.mday : 1) : present (1) ? c.doy : 1;
  want    = model::to_ns (c.year, doy, present (3) ? c.hour : 0, present (4) ? c.min : 0, present (5) ? (int)v[5] : 0, ns);
  if (form == EPOCH)
  {
    bool neg = g.coin ();
    int64_t es = g.coin () ? g.bits (33) : g.range (0, 20000);
    es         = llabs (es);
    s          = neg ? "-" : g.coin () ? "+" : "";
    std::string d = std::to_string (es);
    if (g.chance (1, 4))
      d = std::string (g.range (1, 6), '0') + d;
    s += d;
    ns = 0;
    if (fd)
    {
      std::string digs = fmt ("%09u", c.nsec).substr (0, fd);
      s += "." + digs;
      ns = (uint32_t)strtoul ((digs + std::string (9 - fd, '0')).c_str (), nullptr, 10);
    }
    want  = ((i128)es * 1000000000 + ns) * (neg ? -1 : 1);
    wrong = -1;
    if (s.size () == 4 && strspn (s.c_str (), "0123456789") == 4)
      DISCARD (); // a year
  }
  else if (form != MDLOOSE && form != SEEDLOOSE && nf > (md ? 3 : 2) && g.chance (1, 4))
    s += g.coin () ? "Z" : "z";
  g.note ("'" + s + "'" + (wrong >= 0 ? fmt (" field %d out of range", wrong) : "") + "\n");
  if (s.size () > 32 && wrong < 0)
    DISCARD ();
  if (wrong < 0 && want > INT64_MAX)
    want = NSTERROR;
  else if (wrong < 0 && is_special ((int64_t)want))
    DISCARD ();
  if (wrong >= 0)
    want = NSTERROR;
  int64_t got;
  std::string exact = s;
  char *copy = strdup (s.c_str ());
  if (form == MDLOOSE)
    got = ms_mdtimestr2nstime (copy);
  else if (form == SEEDLOOSE)
    got = ms_seedtimestr2nstime (copy);
  else
    got = ms_timestr2nstime (copy);
  bool same = exact == copy;
  free (copy);
  REQUIRE (same, "text-modified", "the text was modified");
  REQUIRE (got == (int64_t)want, wrong >= 0 ? "text-range" : "text-value", "'" << s << "' is " << got << (got == NSTERROR ? "" : " " + tstr (got)) << " want " << (int64_t)want << (want == NSTERROR ? " (error)" : " " + tstr ((int64_t)want)) << "; " << lg::diag ());
  REQUIRE (lg::diag ().empty () == (want != NSTERROR), "messages", "messages: '" << lg::diag () << "'");
  g.label (fmt ("form %d%s", (int)form, wrong >= 0 ? " out of range" : ""));
  g.nontrivial ();
}

// texts that are no time
static void
junk (Gen &g)
{
  std::string s;
  bool certain = true;
  switch (g.raw (5))
  {
  case 0: // a valid one with a character no form has
  {
    i128 named;
    s = expected (gen_time (g), g.pick<int> ({ISOMONTHDAY, ISOMONTHDAY_Z, SEEDORDINAL, UNIXEPOCH}), (int)g.raw (7), named);
    static const std::string odd = "abcdefghijklmnopqrsuvwxyABCDEFGHIJKLMNOPQRSUVWXY!@#$%^&*()_=[]{}|;'\"<>?\\\t\n\x7f\x80\xff";
    s.insert (g.index (s.size () + 1), 1, odd[g.index (odd.size ())]);
    break;
  }
  case 1: // second separator, misplaced sign or Z
  {
    i128 named;
    s = expected (gen_time (g), ISOMONTHDAY, (int)g.raw (7), named);
    s.insert (g.range (1, s.size () - 1), 1, g.pick<char> ({'T', ' ', 'Z', 'z', '+'}));
    // a separator is only in one place at a time
    size_t seps = 0;
    bool misplaced = false;
    for (size_t k = 0; k < s.size (); k++)
    {
      seps += s[k] == 'T' || s[k] == ' ';
      misplaced = misplaced || ((s[k] == 'Z' || s[k] == 'z') && k + 1 < s.size ()) || (s[k] == '+' && k);
    }
    certain = seps > 1 || misplaced;
    break;
  }
  case 2: // empty, too short, too long, only signs
    s = g.pick<const char *> ({"", "-", "+", ".", "--", "-.", "+.", "T", "Z", ",", ":", "    ", "-T", "2024-01-01T00:00:00.0000000000000000000", "2024,001,00:00:00.0000000000000000000", "...", "Z2024", "+-5", "-+5"});
    break;
  case 3: // any characters of the forms
    s       = g.str ("0123456789-/,:.TZ +", 0, 34);
    certain = false;
    break;
  default: // any bytes
    certain = false;
    for (int k = (int)g.range (0, 40); k > 0; k--)
      s += (char)g.range (1, 255);
    for (unsigned char ch : s)
      if (!strchr ("0123456789-/,:.TZz +", ch))
        certain = true;
  }
  char *copy = strdup (s.c_str ());
  g.note (quote (s) + "\n");
  lg::diag ().clear ();
  int64_t got = ms_timestr2nstime (copy);
  bool told   = !lg::diag ().empty ();
  ms_mdtimestr2nstime (copy);
  ms_seedtimestr2nstime (copy);
  free (copy);
  REQUIRE (!certain || got == NSTERROR, "junk", quote (s) << " is read as " << got << " " << tstr (got));
  REQUIRE (told == (got == NSTERROR) || s.compare (0, 4, "1902") == 0 || s.compare (0, 8, "-2145916") == 0, "messages", quote (s) << " gives " << got << " with" << (told ? "" : "out") << " a message");
  REQUIRE (ms_timestr2nstime (nullptr) == NSTERROR && ms_mdtimestr2nstime (nullptr) == NSTERROR && ms_seedtimestr2nstime (nullptr) == NSTERROR, "junk", "no text accepted");
  if (certain)
    g.nontrivial ();
}

namespace pbt {
Property property = {
    "P10",
    "A case is a nanosecond time (any 64-bit value, the ends of the range, year ends, leap days, digit patterns) printed in all 63 format and subsecond choices, compared with text built from an independent calendar and read back; "
    "or split in fields and back; or every day of a year; or text in a documented form with any number of fields, right or with one field out of range; or text that is no time. "
    "Non-trivial: fractional second (print), before 1970 (fields), any year, any text in a documented form, a text that certainly is no time.",
    {{"print", 4, print}, {"fields", 4, fields}, {"limits", 1, limits}, {"calendar", 1, calendar}, {"texts", 5, texts}, {"junk", 3, junk}},
    std_reset,
    nullptr};
}
