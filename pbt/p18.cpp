// P18: trace, gap, synchronisation and sample listings report the data exactly
#include "inspect.hpp"
using namespace pbt;
using namespace inspect;

namespace {
typedef long double ld;

// one line without regard to the amount of blanks
std::string
next_line (const std::string &s, size_t &at, bool &any)
{
  any      = at < s.size ();
  size_t e = s.find ('\n', at);
  if (e == std::string::npos)
    e = s.size ();
  std::string l = s.substr (at, e - at);
  at            = std::min (e + 1, s.size ());
  return l;
}
std::string
collapse (const std::string &s)
{
  std::string r;
  for (char c : s)
    if (c != ' ')
      r += c;
    else if (r.size () && r.back () != ' ')
      r += ' ';
  if (r.size () && r.back () == ' ')
    r.pop_back ();
  return r;
}
std::vector<std::string>
split (const std::string &s, char sep)
{
  std::vector<std::string> v (1);
  for (char c : s)
    if (c == sep)
      v.emplace_back ();
    else
      v.back () += c;
  return v;
}
std::string
time_text (int64_t t, int format, int sub = NANO_MICRO)
{
  i128 named;
  return timetext::expected (t, format, sub, named);
}
double
number (const std::string &s, bool &ok)
{
  char *e;
  double v = strtod (s.c_str (), &e);
  ok       = s.size () && !*e;
  return v;
}

// seconds between two segments; an overlap is no more than the later one covers
ld
gap_of (const tl::Seg &a, const tl::Seg &b)
{
  ld gap = (ld) ((i128)b.start - (i128)a.end) / 1e9L;
  if (gap < 0)
  {
    ld cover = (ld) ((i128)b.end - (i128)b.start) / 1e9L + (b.rate ? 1 / (ld)b.rate : 0);
    if (-gap > cover)
      gap = -cover;
  }
  return gap;
}
bool
gap_text_ok (const std::string &s, ld gap)
{
  if (s.empty ())
    return false;
  if (s == "-0" || s == "0")
    return fabsl (gap) < 1e-12L;
  char unit = s.back ();
  bool ok;
  ld a = fabsl (gap), v;
  if (unit == 'd' || unit == 'h')
  {
    ld u = unit == 'd' ? 86400 : 3600;
    if (a < u * (1 - 1e-12L) || (unit == 'h' && a > 86400 * (1 + 1e-12L)))
      return false;
    v = number (s.substr (0, s.size () - 1), ok);
    return ok && fabsl (v - gap / u) <= 0.05L + 1e-9L * a / u;
  }
  v = number (s, ok);
  return ok && a <= 3600 * (1 + 1e-12L) && fabsl (v - gap) <= 5.01e-4L * a;
}
bool
rate_ok (const std::string &s, double rate, double rel)
{
  bool ok;
  double v = number (s, ok);
  return ok && fabs (v - rate) <= rel * fabs (rate);
}

// ------------------------------------------------------------ what a listing holds
struct ListOpt
{
  int format = SEEDORDINAL;
  int other  = -1; // another format that would do
  bool details = true, gaps = false, versions = false;
  bool hasmin = false, hasmax = false;
  double min = 0, max = 0;
};

// the heading names the columns listed
void
header (const std::string &got, size_t &at, const std::string &what, bool gap, bool counts)
{
  while (at < got.size () && (got[at] == '\n' || got[at] == ' '))
    at++;
  bool any;
  std::string l = collapse (next_line (got, at, any));
  REQUIRE (any && l.compare (0, 8, "SourceID") == 0, what + "-header", what << " list begins with " << quote (l));
  auto has = [&] (const char *w) { return (l + " ").find (std::string (" ") + w + " ") != std::string::npos; };
  REQUIRE (has ("Gap") == gap && has ("Samples") == counts, what + "-columns", what << " list has the heading " << quote (l) << " with" << (gap ? "" : "out") << " gaps, with" << (counts ? "" : "out") << " sample counts");
}
void
total (const std::string &got, size_t &at, const std::string &want, const std::string &what)
{
  bool any;
  std::string l = collapse (next_line (got, at, any));
  REQUIRE (any && l == want, what + "-total", "after the listed entries " << quote (l) << ", want " << quote (want));
}
std::string
entry (const std::string &got, size_t &at, const std::string &a, const std::string &b, const std::string &what)
{
  bool any;
  std::string l = collapse (next_line (got, at, any)), x = collapse (a), y = collapse (b);
  REQUIRE (any, what + "-entry", "the " << what << " list ends before " << quote (a));
  if (l.compare (0, x.size (), x) == 0 && (l.size () == x.size () || l[x.size ()] == ' '))
    return l.size () == x.size () ? "" : l.substr (x.size () + 1);
  if (y.size () && l.compare (0, y.size (), y) == 0 && (l.size () == y.size () || l[y.size ()] == ' '))
    return l.size () == y.size () ? "" : l.substr (y.size () + 1);
  REQUIRE (false, what + "-entry", "the " << what << " list has " << quote (l, 300) << ", want " << quote (x, 300));
  return "";
}

size_t
check_tracelist (const std::string &got, size_t at, const std::vector<tl::Trace> &ts, const ListOpt &o)
{
  header (got, at, "trace", o.gaps, o.details);
  size_t nseg = 0;
  for (auto &t : ts)
    for (size_t k = 0; k < t.segs.size (); k++)
    {
      const tl::Seg &s = t.segs[k];
      nseg++;
      std::string name = t.sid + (o.versions ? "#" + std::to_string (t.pubversion) : "");
      auto line        = [&] (int f) { return name + " " + time_text (s.start, f) + " " + time_text (s.end, f); };
      std::string rest = entry (got, at, line (o.format), o.other >= 0 ? line (o.other) : "", "trace");
      std::vector<std::string> w = split (rest, ' ');
      if (rest.empty ())
        w.clear ();
      size_t want = (o.gaps ? 1 : 0) + (o.details ? 2 : 0);
      REQUIRE (w.size () == want, "trace-fields", quote (line (o.format)) << " is followed by " << quote (rest) << ", want " << want << " fields");
      if (o.gaps)
      {
        bool none = w[0] == "==";
        if (!k)
          REQUIRE (none, "trace-gap", "the first segment " << name << " is listed with gap " << w[0]);
        else
        {
          ld gap = gap_of (t.segs[k - 1], s);
          bool optional = t.segs[k - 1].rate != s.rate;
          REQUIRE ((optional && none) || gap_text_ok (w[0], gap), "trace-gap", quote (line (o.format)) << " is listed with gap " << w[0] << ", want " << (double)gap << " s");
        }
        w.erase (w.begin ());
      }
      if (o.details)
      {
        REQUIRE (rate_ok (w[0], s.rate, 5.01e-3), "trace-rate", name << " is listed with rate " << w[0] << ", want " << s.rate);
        REQUIRE (w[1] == std::to_string (s.count), "trace-samples", name << " is listed with " << w[1] << " samples, want " << s.count);
      }
    }
  if (o.details)
    total (got, at, fmt ("Total: %zu trace(s) with %zu segment(s)", ts.size (), nseg), "trace");
  return at;
}

// -1 no, 1 yes, 0 either: may this gap be listed
int
in_limits (ld gap, const ListOpt &o)
{
  int r = 1;
  auto cmp = [&] (ld d) { // d >= 0 wanted
    if (fabsl (d) > 1e-9L * (1 + fabsl (gap)))
      return d > 0 ? 1 : -1;
    // only exact numbers decide here
    ld x = gap * 512;
    return d == 0 && x == floorl (x) && fabsl (gap) < 4e6L ? 1 : 0;
  };
  if (o.hasmin)
    r = std::min (r, cmp (gap - (ld)o.min));
  if (o.hasmax)
    r = std::min (r, cmp ((ld)o.max - gap));
  return r;
}

size_t
check_gaplist (const std::string &got, size_t at, const std::vector<tl::Trace> &ts, const ListOpt &o, size_t *n = nullptr)
{
  header (got, at, "gap", true, true);
  size_t ngap = 0;
  for (auto &t : ts)
    for (size_t k = 0; k + 1 < t.segs.size (); k++)
    {
      const tl::Seg &a = t.segs[k], &b = t.segs[k + 1];
      if (a.rate == 0)
        continue;
      ld gap = gap_of (a, b);
      int in = in_limits (gap, o);
      if (in < 0)
        continue;
      if (in == 0)
        DISCARD ();
      ngap++;
      auto line        = [&] (int f) { return t.sid + " " + time_text (a.end, f) + " " + time_text (b.start, f); };
      std::string rest = entry (got, at, line (o.format), o.other >= 0 ? line (o.other) : "", "gap");
      std::vector<std::string> w = split (rest, ' ');
      REQUIRE (w.size () == 2, "gap-fields", quote (line (o.format)) << " is followed by " << quote (rest) << ", want two fields");
      REQUIRE (gap_text_ok (w[0], gap), "gap-duration", quote (line (o.format)) << " is listed with " << w[0] << ", want " << (double)gap << " s");
      ld samples = fabsl (gap) * (ld)a.rate + (gap > 0 ? -1 : 1);
      bool ok;
      double v = number (w[1], ok);
      REQUIRE (ok && fabsl (v - samples) <= 1e-7L * fabsl (samples) + 1e-12L * (1 + fabsl (gap) * (ld)a.rate), "gap-samples", quote (line (o.format)) << " is listed with " << w[1] << " samples, want " << (double)samples);
    }
  total (got, at, fmt ("Total: %zu gap(s)", ngap), "gap");
  if (n)
    *n = ngap;
  return at;
}

std::string
day_now ()
{
  time_t now = time (nullptr);
  struct tm t;
  localtime_r (&now, &t);
  return fmt ("%04d,%03d", t.tm_year + 1900, t.tm_yday + 1);
}

// the codes of a source identifier
void
codes_of (const std::string &sid, std::string code[4])
{
  std::vector<std::string> p = split (sid.size () > 5 ? sid.substr (5) : "", '_');
  bool plain                 = sid.compare (0, 5, "FDSN:") == 0 && p.size () == 6;
  for (auto &x : p)
    for (char c : x)
      plain = plain && (isalnum (c) || c == '-');
  if (plain)
  {
    code[0] = p[0];
    code[1] = p[1];
    code[2] = p[2];
    bool one = p[3].size () == 1 && p[4].size () == 1 && p[5].size () == 1;
    if (one)
      code[3] = p[3] + p[4] + p[5];
    else
      code[3] = p[3] + "_" + p[4] + "_" + p[5];
    return;
  }
  char net[LM_SIDLEN] = "", sta[LM_SIDLEN] = "", loc[LM_SIDLEN] = "", chan[LM_SIDLEN] = "";
  std::string keep = lg::diag ();
  if (ms_sid2nslc (sid.c_str (), net, sta, loc, chan))
    net[0] = sta[0] = loc[0] = chan[0] = 0;
  code[0] = net;
  code[1] = sta;
  code[2] = loc;
  code[3] = chan;
}

size_t
check_synclist (const std::string &got, size_t at, const std::vector<tl::Trace> &ts, const std::string &dcc, int sub, const std::string &d0, const std::string &d1)
{
  bool any;
  while (at < got.size () && (got[at] == '\n' || got[at] == ' '))
    at++;
  std::string l = next_line (got, at, any);
  std::string day;
  if (l == dcc + "|" + d0)
    day = d0;
  if (l == dcc + "|" + d1)
    day = d1;
  REQUIRE (any && day.size (), "sync-header", "the synchronisation list begins with " << quote (l) << ", want " << quote (dcc + "|" + d1));
  for (auto &t : ts)
  {
    std::string code[4];
    codes_of (t.sid, code);
    for (auto &s : t.segs)
    {
      l = next_line (got, at, any);
      std::vector<std::string> w = split (l, '|');
      REQUIRE (any && w.size () == 16, "sync-entry", "the synchronisation list has " << quote (l, 300) << " for a segment of " << t.sid);
      std::string want[8] = {code[0], code[1], code[2], code[3], time_text (s.start, SEEDORDINAL, sub), time_text (s.end, SEEDORDINAL, sub), "", ""};
      for (int k = 0; k < 6; k++)
        REQUIRE (w[k] == want[k], "sync-entry", "field " << k << " of " << quote (l, 300) << " is not " << quote (want[k]) << " (" << t.sid << ")");
      REQUIRE (rate_ok (w[7], s.rate, 5.01e-10), "sync-rate", "the rate in " << quote (l, 300) << " is not " << fmt ("%.12g", s.rate));
      REQUIRE (w[8] == std::to_string (s.count), "sync-samples", "the sample count in " << quote (l, 300) << " is not " << s.count);
      REQUIRE (w[15] == day, "sync-entry", "the date in " << quote (l, 300) << " is not " << day);
      for (int k : {6, 9, 10, 11, 12, 13, 14})
        REQUIRE (w[k].empty (), "sync-entry", "field " << k << " of " << quote (l, 300) << " is not empty");
    }
  }
  return at;
}

// ------------------------------------------------------------ facet: the library
int
gen_format (Gen &g)
{
  return g.pick<int> ({ISOMONTHDAY, ISOMONTHDAY_Z, ISOMONTHDAY_DOY, ISOMONTHDAY_DOY_Z, ISOMONTHDAY_SPACE, ISOMONTHDAY_SPACE_Z, SEEDORDINAL, UNIXEPOCH, NANOSECONDEPOCH});
}

// limits near the gaps there are
double
gen_limit (Gen &g, const std::vector<ld> &gaps)
{
  if (gaps.size () && g.chance (3, 4))
  {
    ld x = g.pick (gaps);
    return (double)(g.chance (1, 2) ? x : g.coin () ? x + 1.0L / 512 : floorl (x));
  }
  return g.pick<double> ({0, 1, -1, 0.5, 3600, 86400, -10, 1e9});
}

void
facet_lists (Gen &g)
{
  tl::List l;
  l.p = mstl3_init (nullptr);
  REQUIRE (l.p, "init", "mstl3_init fails");
  bool split = g.chance (1, 3), heal = g.coin (), data = g.coin ();
  size_t nid = g.chance (1, 12) ? 0 : 1 + g.raw (4);
  std::string sid;
  for (size_t q = 0; q < nid; q++)
  {
    if (!(q && g.chance (1, 6)))
      sid = gen_sid (g, g.chance (1, 3));
    bool wide    = g.chance (1, 10);
    double rate0 = g.chance (1, 3) ? gen_rate (g) : g.pick<double> ({1, 2, 64, 128, 100, 0.5, -8, 20, 0});
    int64_t t    = wide ? gen_time (g) : g.chance (1, 2) ? g.range (1000, 1800000) * 1000000000ll : gen_time (g, 60);
    size_t n     = g.size (1, 8);
    for (size_t k = 0; k < n; k++)
    {
      MS3Record m;
      memset (&m, 0, sizeof m);
      snprintf (m.sid, sizeof m.sid, "%s", sid.c_str ());
      m.formatversion = 3;
      m.encoding      = -1;
      m.pubversion    = split && g.chance (1, 4) ? (uint8_t)g.range (0, 255) : 1;
      m.samprate      = g.chance (1, 10) ? g.pick<double> ({1, 0, 50, -4}) : rate0;
      m.samplecnt     = m.samprate == 0 ? g.range (1, 5) : g.chance (1, 10) ? g.range (1, 100000) : g.range (1, 50);
      // not longer than a few years
      double per = msr3_nsperiod (&m);
      if (per * (double)m.samplecnt > 3e17)
        m.samplecnt = 1;
      m.starttime = t;
      std::vector<int32_t> v;
      if (data)
      {
        if (m.samplecnt > 1000)
          m.samplecnt = 1000;
        v.assign ((size_t)m.samplecnt, (int32_t)k);
        m.datasamples = v.data ();
        m.datasize    = v.size () * 4;
        m.numsamples  = m.samplecnt;
        m.sampletype  = 'i';
      }
      int64_t end = msr3_endtime (&m);
      REQUIRE (mstl3_addmsr (l.p, &m, split, heal, 0, nullptr), "add", "mstl3_addmsr fails; " << lg::diag ());
      if (wide && g.coin ())
        t = gen_time (g);
      else
        switch (g.raw (6))
        {
        case 0: t = end + (int64_t)per; break;
        case 1: t = end; break;
        case 2: t = end + g.range (0, 2000) * 1953125; break;
        case 3: t = end - g.range (0, 4000) * 1953125; break;
        case 4: t = end + g.pick<int64_t> ({3600, 86400, 3599, 86399, 9000, 200000, 1}) * 1000000000 + g.range (-2, 2) * 500000000; break;
        default: t = end + g.range (-300000000000ll, 300000000000ll); break;
        }
    }
  }
  std::vector<tl::Trace> ts = tl::read (l.p);
  std::vector<ld> gaps;
  size_t nseg = 0;
  for (auto &t : ts)
    for (size_t k = 0; k < t.segs.size (); k++)
    {
      g.note (t.sid + fmt ("#%d ", t.pubversion) + t.segs[k].show () + "\n");
      nseg++;
      if (k)
      {
        gaps.push_back (gap_of (t.segs[k - 1], t.segs[k]));
        g.label (gaps.back () < 0 ? "overlap" : gaps.back () > 0 ? "gap" : "end at the start");
      }
    }
  ListOpt o;
  o.format   = gen_format (g);
  o.details  = g.coin ();
  o.gaps     = g.chance (2, 3);
  o.versions = g.chance (1, 3);
  if ((o.hasmin = g.chance (1, 3)))
    o.min = gen_limit (g, gaps);
  if ((o.hasmax = g.chance (1, 3)))
    o.max = gen_limit (g, gaps);
  g.note (fmt ("format %d details %d gaps %d versions %d", o.format, o.details, o.gaps, o.versions) + (o.hasmin ? fmt (" min %.17g", o.min) : "") + (o.hasmax ? fmt (" max %.17g", o.max) : "") + "\n");
  int8_t yes = g.pick<int> ({1, 2, 127});
  lg::reset ();
  mstl3_printtracelist (l.p, (ms_timeformat_t)o.format, o.details ? yes : 0, o.gaps ? yes : 0, o.versions ? yes : 0);
  std::string out = lg::out ();
  size_t at       = check_tracelist (out, 0, ts, o);
  REQUIRE (at == out.size (), "trace-more", "more than the trace list: " << quote (out.substr (at)));
  REQUIRE (lg::diag ().empty (), "message", "trace list: " << lg::diag ());

  lg::reset ();
  double mn = o.min, mx = o.max;
  mstl3_printgaplist (l.p, (ms_timeformat_t)o.format, o.hasmin ? &mn : nullptr, o.hasmax ? &mx : nullptr);
  out         = lg::out ();
  size_t ngap = 0;
  at          = check_gaplist (out, 0, ts, o, &ngap);
  REQUIRE (at == out.size (), "gap-more", "more than the gap list: " << quote (out.substr (at)));
  REQUIRE (lg::diag ().empty (), "message", "gap list: " << lg::diag ());
  if (ngap && (o.hasmin || o.hasmax))
    g.label ("gaps within limits");

  lg::reset ();
  int sub         = g.pick<int> ({NONE, MICRO, NANO, MICRO_NONE, NANO_NONE, NANO_MICRO, NANO_MICRO_NONE});
  std::string dcc = g.chance (1, 2) ? "" : g.str (UPNUM, 1, 10), d0 = day_now ();
  mstl3_printsynclist (l.p, dcc.empty () ? nullptr : dcc.c_str (), (ms_subseconds_t)sub);
  std::string d1 = day_now ();
  out            = lg::out ();
  at             = check_synclist (out, 0, ts, dcc.empty () ? "DCC" : dcc, sub, d0, d1);
  REQUIRE (at == out.size (), "sync-more", "more than the synchronisation list: " << quote (out.substr (at)));

  std::string why;
  REQUIRE (tl::same (ts, tl::read (l.p), why), "list-changed", "listing changed the traces: " << why);
  if (nseg > ts.size () && ngap)
    g.nontrivial ();
}

// ------------------------------------------------------------ facet: the program
double g_ttol, g_rtol;
double time_cb (const MS3Record *) { return g_ttol; }
double rate_cb (const MS3Record *) { return g_rtol; }

// the samples of a record as they are printed, from a position on
size_t
check_samples (const std::string &got, size_t at, const store::Rec &r, bool all)
{
  if (r.s.type == 't')
  {
    std::string want = "Text Data:\n" + r.s.t + "\n";
    REQUIRE (got.compare (at, want.size (), want) == 0, "text-samples", "the text of " << r.sid << " is printed as " << quote (got.substr (at, want.size () + 10), 400) << ", want " << quote (want, 400));
    return at + want.size ();
  }
  size_t n = all ? r.s.size () : std::min<size_t> (6, r.s.size ());
  for (size_t k = 0; k < n; k++)
  {
    while (at < got.size () && (got[at] == ' ' || got[at] == '\n'))
      at++;
    size_t e = at;
    while (e < got.size () && got[e] != ' ' && got[e] != '\n')
      e++;
    std::string w = got.substr (at, e - at), want;
    bool ok, same;
    double v = number (w, ok);
    if (r.s.type == 'i')
    {
      want = std::to_string (r.s.i[k]);
      same = w == want;
    }
    else
    {
      double x   = r.s.type == 'f' ? (double)r.s.f[k] : r.s.d[k];
      double tol = r.s.type == 'f' ? 5.01e-8 : 5.01e-10;
      want       = fmt ("%.17g", x);
      same       = std::isnan (x) ? std::isnan (v) : v == x || fabs (v - x) <= tol * fabs (x) + 5e-324 || (std::isinf (v) && fabs (x) > 1.79769e308 && (v > 0) == (x > 0));
    }
    REQUIRE (ok && same, "samples", "sample " << k << " of " << r.s.size () << " of " << r.sid << " " << encname (r.enc) << " is printed as " << quote (w) << ", want " << want);
    at = e;
  }
  // to the end of the line; an empty line may follow
  while (at < got.size () && got[at] == ' ')
    at++;
  REQUIRE (at < got.size () && got[at] == '\n', "samples", "after " << n << " samples of " << r.sid << " follows " << quote (got.substr (at, 60)));
  at++;
  if (all && at < got.size () && got[at] == '\n')
    at++;
  return at;
}

void
facet_program (Gen &g)
{
  Run r;
  RunOpt o;
  o.dirty = g.coin ();
  o.maxn  = g.chance (1, 5) ? 700 : 60;
  gen_inputs (g, r, o);
  gen_filters (g, r, o);
  int data       = (int)g.weighted ({3, 1, 2}); // -d, -D
  int after      = (int)g.weighted ({3, 2, 2}); // nothing, -t, -g
  int only       = (int)g.weighted ({4, 2, 2, 2}); // nothing, -T, -G, -S
  bool tracegaps = g.chance (1, 4) && only != 2 && only != 3 && after != 2;
  bool summary   = g.chance (1, 3), bin = g.chance (1, 3), raw = g.chance (1, 8), split = g.chance (1, 3);
  bool optional_records = false;
  std::string binfile = scratch_dir () + "/bin", rawfile = scratch_dir () + "/raw";
  unlink (binfile.c_str ());
  unlink (rawfile.c_str ());
  auto opt = [&] (std::vector<std::string> v) { r.opts.push_back (v); };
  ListOpt lo;
  lo.format = ISOMONTHDAY_Z; // or what is documented as the default
  lo.other  = SEEDORDINAL;
  if (data)
    opt ({data == 1 ? "-d" : "-D"});
  if (after)
    opt ({after == 1 ? "-t" : "-g"});
  if (only)
    opt ({only == 1 ? "-T" : only == 2 ? "-G" : "-S"});
  if (tracegaps)
  {
    opt ({"-tg"});
    optional_records = after == 1;
    if (!after && !only)
      only = 1;
  }
  if (summary)
    opt ({"-s"});
  if (bin)
    opt ({"-b", binfile});
  if (raw)
    opt ({"-o", rawfile});
  if (split)
    opt ({g.pick<std::string> ({"-P", "-Q"})});
  lo.gaps     = tracegaps;
  lo.versions = split;
  if (g.chance (1, 2))
  {
    int tf = (int)g.raw (3);
    opt ({"-tf", std::to_string (tf)});
    lo.format = tf == 0 ? SEEDORDINAL : tf == 1 ? ISOMONTHDAY : UNIXEPOCH;
    lo.other  = -1;
  }
  MS3Tolerance tol = {nullptr, nullptr};
  if (g.chance (1, 4))
  {
    std::string v = g.pick<std::string> ({"0", "0.001", "0.5", "3", "100", "1e3"});
    g_ttol        = strtod (v.c_str (), nullptr);
    tol.time      = time_cb;
    opt ({"-tt", v});
  }
  if (g.chance (1, 4))
  {
    std::string v = g.pick<std::string> ({"0", "0.5", "30", "100"});
    g_rtol        = strtod (v.c_str (), nullptr);
    tol.samprate  = rate_cb;
    opt ({"-rt", v});
  }
  int lim = (int)g.weighted ({3, 1, 1});
  for (int k = 0; k < 2; k++)
    if (lim && g.coin ())
    {
      // whole numbers may be negative
      std::string v = g.pick<std::string> ({"0", "1", "-1", "10", "-3", "0.5", "0.05", "2.25", "100"});
      double x      = strtod (v.c_str (), nullptr);
      if (k)
        lo.hasmax = true, lo.max = x;
      else
        lo.hasmin = true, lo.min = x;
      opt ({k ? "-gmax" : "-gmin", v});
    }
  build_args (g, r);
  model_run (r);
  g.note (r.cmd ());

  // the traces of the records that are processed
  tl::List l;
  l.p = mstl3_init (nullptr);
  std::string bytes, rawbytes;
  for (auto &t : r.taken)
  {
    const File &f = *t.in->f;
    Msr m;
    int rv = msr3_parse ((const char *)f.bytes.data () + t.it->off, f.bytes.size () - t.it->off, &m.p, 0, 0);
    REQUIRE (rv == 0 && m.p, "harness", "parsing gives " << rv);
    REQUIRE (mstl3_addmsr (l.p, m.p, split, 1, 0, &tol), "harness", "mstl3_addmsr fails " << lg::diag ());
    const Series &s = t.it->rec.s;
    bytes.append ((const char *)s.data (), s.size () * s.ssize ());
    rawbytes.append ((const char *)t.it->bytes.data (), t.it->bytes.size ());
  }
  std::vector<tl::Trace> ts = tl::read (l.p);
  size_t nseg               = 0;
  for (auto &t : ts)
    nseg += t.segs.size ();

  std::string d0 = day_now ();
  cli::Result p  = cli::run (r.args, scratch_dir (), r.stdinfile);
  std::string d1 = day_now ();
  cli::require_sane (p, r.args);
  REQUIRE (p.status == (r.error ? 1 : 0), "status", "exit status " << p.status << ", want " << r.error << " " << quote (p.err, 400));
  if (bin)
  {
    std::string got = cli::read_file (binfile);
    size_t k        = 0;
    while (k < bytes.size () && k < got.size () && bytes[k] == got[k])
      k++;
    REQUIRE (bytes == got, "binary", "the binary output holds " << got.size () << " bytes, want " << bytes.size () << " of " << r.taken.size () << " records, equal up to " << k);
  }
  if (raw)
    REQUIRE (rawbytes == cli::read_file (rawfile), "raw-output", "the raw output differs from the records");
  Output want;
  if (!only)
    for (auto &t : r.taken)
    {
      want.add (record_text (*t.it, *t.in->f, 0));
      if (data)
        want.checked ([&t, data] (const std::string &got, size_t at) { return check_samples (got, at, t.it->rec, data == 2); });
    }
  if (optional_records)
  {
    want.ps.clear ();
    want.checked ([] (const std::string &got, size_t) {
      size_t at = got.rfind ("       SourceID ");
      REQUIRE (at != std::string::npos, "trace-header", "there is no trace list");
      return at;
    });
    summary = false;
    if (r.error)
      want.ps.clear ();
  }
  if (!r.error)
  {
    if (summary)
    {
      want.add ("Files: ");
      want.checked ([&] (const std::string &got, size_t at) {
        char *e;
        long n = strtol (got.c_str () + at, &e, 10);
        REQUIRE (n == (long)r.inputs.size () || n == (long)r.filesread, "summary", "files: " << n << ", want " << r.filesread);
        return (size_t)(e - got.c_str ());
      });
      want.add (fmt (", Records: %zu, Samples: %lld\n", r.taken.size (), (long long)r.samples));
    }
    if (after == 1 || only == 1)
      want.checked ([&] (const std::string &got, size_t at) { return check_tracelist (got, at, ts, lo); });
    if (after == 2 || only == 2)
      want.checked ([&] (const std::string &got, size_t at) { return check_gaplist (got, at, ts, lo); });
    if (only == 3)
      want.checked ([&] (const std::string &got, size_t at) { return check_synclist (got, at, ts, "DCC", MICRO, d0, d1); });
  }
  if (!(optional_records && r.error))
    compare (want, p.out, 0, 0);
  g.label (r.error ? "ends with an error" : "ends well");
  for (auto &a : r.opts)
    if (a[0] != "-ts" && a[0] != "-te" && a[0] != "-m" && a[0] != "-r" && a[0] != "-n" && a[0] != "-snd")
      g.label (a[0]);
  if (nseg > ts.size () || (data && !only && r.taken.size () > 1) || (bin && r.taken.size () > 1))
    g.nontrivial ();
}

} // namespace

namespace pbt {
Property property = {
    "P18",
    "A case is a trace list of several series with gaps, overlaps, changing rates and versions, listed by the library in every form with any times, limits and details; or a run of the program on one to four files with sample printing, binary output, trace, gap and synchronisation lists, tolerances, limits and filters. "
    "It is non-trivial if a trace has more than one segment and at least one gap is listed, or for the program if some trace has more than one segment or samples of more than one record are output.",
    {{"lists", 97, facet_lists}, {"program", 3, facet_program}},
    std_reset,
    nullptr};
}
