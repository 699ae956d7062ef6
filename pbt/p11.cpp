// P11: sample times and record end times follow the sampling rate and leap seconds
#include "desc.hpp"
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace pbt;

namespace {
const int64_t S = 1000000000;
const int64_t NTP = 2208988800LL;

struct Line
{
  std::string text;
  bool entry = false, bad = false, expired = false;
  int64_t time = 0;
  int delta    = 0;
};

Line
gen_line (Gen &g)
{
  Line l;
  switch (g.weighted ({8, 3, 2, 1, 2, 2}))
  {
  case 0:
  case 1:
  {
    int64_t ntp = g.coin () ? 2272060800LL + g.range (0, 60) * 15897600LL : g.range (0, 9223372036LL + NTP);
    l.time      = (ntp - NTP) * S;
    l.delta     = (int)g.range (-50, 90);
    l.entry     = true;
    std::string sp = g.pick<const char *> ({" ", "\t", "      ", " \t "});
    l.text = (g.chance (1, 6) ? sp : "") + std::to_string (ntp) + sp + std::to_string (l.delta) + g.pick<const char *> ({"", " ", "\t# 1 Jan 1972", "      # 1 Jul 1972", "\r"});
    break;
  }
  case 2: l.text = g.pick<const char *> ({"#", "# comment", "#$ 3676924800", "#h 620ba8af 37900668", "# 2272060800 10", "#\t", ""}); break;
  case 3:
  {
    bool past = g.coin ();
    l.text    = "#@" + std::string (g.pick<const char *> ({" ", "\t", "  "})) + std::to_string (past ? g.range (2000000000LL, 3900000000LL) : g.range (5000000000LL, 9000000000LL));
    l.expired = past;
    break;
  }
  case 4:
    l.bad  = true;
    l.text = g.pick<const char *> ({"2272060800", "leap second", "x2272060800 10", "2272060800 x", "12345678901234567890123 10", "-5 10", "99999999999 20", "9223372036854775807 1", "-9223372036854775808 1", ",", " ", "2272060800,10", "\r"});
    break;
  default: // longer than any buffer
  {
    size_t n = (size_t)g.range (150, 900);
    std::string pad;
    while (pad.size () < n)
      pad += g.coin () ? " 2272060800 10 " : "2272060800 10";
    for (int k = (int)g.range (0, 3); k > 0; k--)
      pad.insert (g.index (pad.size ()), g.pick<const char *> ({"#", " # 2272060800 10", "# ", "#@ 2300000000"}));
    if (g.coin ())
      l.text = "# " + pad;
    else
    {
      int64_t ntp = 2272060800LL + g.range (0, 60) * 15897600LL;
      l.entry     = true;
      l.time      = (ntp - NTP) * S;
      l.delta     = (int)g.range (10, 40);
      l.text      = std::to_string (ntp) + " " + std::to_string (l.delta) + " # " + pad;
    }
  }
  }
  return l;
}

size_t
count_of (const std::string &s, const char *what)
{
  size_t n = 0;
  for (size_t p = s.find (what); p != std::string::npos; p = s.find (what, p + 1))
    n++;
  return n;
}
std::string
open_files ()
{
  std::string s;
  for (int f = 0; f < 64; f++)
    if (fcntl (f, F_GETFD) != -1)
      s += std::to_string (f) + " ";
  return s;
}
std::vector<std::pair<int64_t, int>>
list_now ()
{
  std::vector<std::pair<int64_t, int>> v;
  for (LeapSecond *l = leapsecondlist; l; l = l->next)
  {
    v.push_back ({l->leapsecond, l->TAIdelta});
    REQUIRE (v.size () < 100000, "leap-list", "endless list");
  }
  return v;
}
struct File
{
  std::string path;
  File (const std::vector<Line> &lines, bool lastnl)
  {
    path    = scratch_dir () + "/leap";
    FILE *f = fopen (path.c_str (), "wb");
    REQUIRE (f, "harness", "cannot write " << path);
    for (size_t k = 0; k < lines.size (); k++)
      fprintf (f, "%s%s", lines[k].text.c_str (), k + 1 < lines.size () || lastnl ? "\n" : "");
    fclose (f);
  }
  ~File () { unlink (path.c_str ()); }
};
// load a list of these leap seconds
std::vector<int64_t>
load (Gen &g)
{
  std::vector<Line> lines;
  std::vector<int64_t> v;
  int n = (int)g.range (0, 5);
  for (int k = 0; k < n; k++)
  {
    Line l;
    l.time  = model::floordiv (gen_time (g), S) * S;
    if (l.time / S < -NTP || l.time / S > 9223372036LL) // before the list's own epoch, after the range
      l.time = g.range (-NTP, 9223372036LL) * S;
    l.entry = true;
    l.text  = std::to_string (l.time / S + NTP) + " " + std::to_string (10 + k);
    v.push_back (l.time);
    lines.push_back (l);
  }
  File f (lines, true);
  int rv = ms_readleapsecondfile (f.path.c_str ());
  REQUIRE (rv == n, "leap-load", "loading " << n << " leap seconds returns " << rv << "; " << lg::diag ());
  return v;
}

// exact time of sample k; false if it leaves the range
bool
exact (int64_t t, double rate, int64_t k, const std::vector<int64_t> &leaps, i128 &want, i128 &tol, bool &close, i128 &span)
{
  span = 0;
  if (k > 0 && rate != 0)
  {
    long double off = rate < 0 ? (long double)k * -(long double)rate : (long double)k / (long double)rate;
    if (off > 9e9L)
      return false;
    span = (i128)floorl (off * 1e9L + 0.5L);
  }
  tol = span ? 1 + (i128)((double)span * 4.5e-16) : 0;
  // whole seconds at a whole rate or period: nothing to round
  bool whole = span < (i128)1000000 * S && span % S == 0 && rate == floor (rate) && (rate < 0 || fmod ((double)k, rate) == 0);
  if (whole)
    tol = 0;
  if (t + span + tol > INT64_MAX)
    return false;
  int64_t margin;
  want  = model::leap_adjust (t, (int64_t)span, leaps, &margin);
  close = !whole && margin <= tol + 1;
  return true;
}
} // namespace

static void
sample (Gen &g)
{
  std::vector<int64_t> leaps;
  int list = (int)g.weighted ({4, 3, 1});
  if (list == 0)
    leaps = model::leaps ();
  else if (list == 1)
    leaps = load (g);
  else
    leapsecondlist = nullptr;
  double rate = g.chance (1, 12) ? 0 : gen_rate (g);
  int64_t k   = g.chance (1, 10) ? -g.bits (40) : g.size (0, 100000);
  if (g.chance (1, 6))
    k = llabs (g.bits (40));
  int64_t t = gen_time (g);
  double h  = rate == 0 ? 1 : hz (rate);
  if (leaps.size () && g.chance (2, 3)) // near one
  {
    int64_t l   = leaps[g.index (leaps.size ())];
    double span = k > 0 ? (double)k / h * 1e9 : 0;
    if (span < 4e18)
    {
      int64_t back = g.coin () ? g.range (0, (int64_t)span + 3 * S) : g.coin () ? (int64_t)span : (int64_t)span - S;
      back += g.pick<int64_t> ({0, 0, 1, -1, 2, -2, S, -S, 500000000});
      i128 nt = (i128)l - back;
      if (g.chance (1, 4) && k > 0 && k < 1000000) // whole seconds, to the second
      {
        rate = g.coin () ? 1 : -(double)g.range (1, 5);
        if (k > 10 && g.coin ())
        {
          rate = (double)g.range (1, 10);
          k -= k % (int64_t)rate;
        }
        nt = (i128)l + g.range (-1, 2) * S - (i128)(rate < 0 ? k * -rate : k / rate) * S;
      }
      if (nt > INT64_MIN + 10 * (i128)S && nt < INT64_MAX - 10 * (i128)S)
        t = (int64_t)nt;
    }
  }
  // k in a full range of the type cannot be printed as a double exactly
  i128 want, tol, span;
  bool close;
  if (!exact (t, rate, k, leaps, want, tol, close, span) || !exact (t, rate, k + 1, leaps, want, tol, close, span))
    DISCARD ();
  g.note (tstr (t) + fmt (" (%lld) sample %lld rate %.17g list %d", (long long)t, (long long)k, rate, list));
  for (int64_t l : leaps)
    if (list == 1)
      g.note (" " + tstr (l));
  int64_t prev = 0;
  bool jumped = false;
  for (int64_t n : {k, k + 1})
  {
    exact (t, rate, n, leaps, want, tol, close, span);
    int64_t got = ms_sampletime (t, n, rate);
    bool ok     = got >= want - tol && got <= want + tol;
    if (!ok && close)
      for (i128 w : {want - S, want + S})
        ok = ok || (got >= w - tol && got <= w + tol && w <= t + span);
    REQUIRE (ok, "sample-time", "sample " << n << " at " << tstr (got) << " (" << got << ") want " << tstr ((int64_t)want) << " (" << (int64_t)want << ") within " << (int64_t)tol);
    bool out = got < t + span - S / 2;
    jumped   = jumped || out;
    if (n == k + 1 && !jumped)
      REQUIRE (got >= prev, "monotonic", "sample " << n << " at " << got << " is before sample " << k << " at " << prev);
    if (n == k + 1 && jumped)
      REQUIRE (got >= prev - S, "monotonic", "sample " << n << " at " << got << " is more than a second before sample " << k << " at " << prev);
    prev = got;
  }
  if (jumped)
    g.label ("leap second taken out");
  if (k > 0 && rate != 0)
    g.nontrivial ();
}

static void
record (Gen &g)
{
  std::vector<int64_t> leaps = model::leaps ();
  MS3Record m;
  memset (&m, 0, sizeof m);
  m.samprate  = g.chance (1, 12) ? 0 : gen_rate (g);
  m.samplecnt = g.chance (1, 12) ? g.range (-1, 0) : g.size (0, 200000);
  m.starttime = gen_time (g);
  if (g.chance (1, 3))
  {
    int64_t l   = leaps[g.index (leaps.size ())];
    double span = m.samplecnt > 0 && m.samprate != 0 ? (double)m.samplecnt / hz (m.samprate) * 1e9 : 0;
    if (span < 1e18)
      m.starttime = l - g.range (0, (int64_t)span + S);
  }
  m.numsamples = g.coin () ? m.samplecnt : g.range (0, 1000);
  g.note (tstr (m.starttime) + fmt (" %lld samples at %.17g", (long long)m.samplecnt, m.samprate));
  i128 want, tol, span;
  bool close;
  if (!exact (m.starttime, m.samprate, m.samplecnt > 0 ? m.samplecnt - 1 : 0, leaps, want, tol, close, span))
    DISCARD ();
  int64_t e = msr3_endtime (&m);
  REQUIRE (e == ms_sampletime (m.starttime, m.samplecnt > 0 ? m.samplecnt - 1 : 0, m.samprate), "end-time", "end time " << tstr (e) << " is not that of the last sample");
  REQUIRE (close || (e >= want - tol && e <= want + tol), "end-time", "end time " << tstr (e) << " want " << tstr ((int64_t)want));
  double h = msr3_sampratehz (&m);
  REQUIRE (m.samprate >= 0 ? h == m.samprate : fabs (h * -m.samprate - 1) < 1e-15, "rate", fmt ("rate %.17g of %.17g", h, m.samprate));
  int64_t p = msr3_nsperiod (&m);
  long double wp = m.samprate == 0 ? 0 : m.samprate > 0 ? 1e9L / m.samprate : 1e9L * -m.samprate;
  REQUIRE (fabsl (p - wp) <= 0.5000001L + wp * 4.5e-16L, "period", fmt ("period %lld ns of %.17g, want %.6Lf", (long long)p, m.samprate, wp));
  if (wp < 4e18L && m.samprate != 0)
  {
    int64_t one = ms_sampletime (1000 * S, 1, m.samprate) - 1000 * S;
    leapsecondlist = nullptr;
    one = ms_sampletime (1000 * S, 1, m.samprate) - 1000 * S;
    REQUIRE (llabs (one - p) <= 1 + (int64_t)(wp * 4.5e-16L), "period", "sample period is " << p << " ns but the second sample is " << one << " ns after the first");
  }
  time_t before = time (nullptr);
  double lat    = msr3_host_latency (&m);
  time_t after  = time (nullptr);
  double off    = m.samprate == 0 || m.samplecnt <= 0 ? 0 : (m.samplecnt - 1) / hz (m.samprate);
  double lo = before - m.starttime / 1e9 - off, hi = after - m.starttime / 1e9 - off;
  REQUIRE (lat >= lo - 1e-4 && lat <= hi + 1e-4, "latency", fmt ("latency %.6f want %.6f to %.6f", lat, lo, hi));
  REQUIRE (msr3_endtime (nullptr) == NSTERROR && msr3_sampratehz (nullptr) == 0 && msr3_nsperiod (nullptr) == 0 && msr3_host_latency (nullptr) == 0, "no-record", "results without a record");
  if (m.samplecnt > 1 && m.samprate != 0)
    g.nontrivial ();
}

static void
leapfile (Gen &g)
{
  int rounds  = (int)g.range (1, 3);
  bool loaded = false; // else the built-in list
  std::vector<std::pair<int64_t, int>> now;
  for (int64_t l : model::leaps ())
    now.push_back ({l, 10 + (int)now.size ()});
  {
    auto v = list_now ();
    REQUIRE (v == now, "built-in", "built-in list of " << v.size () << " entries differs from the published " << now.size ());
  }
  for (int q = 0; q < rounds; q++)
  {
    std::vector<Line> lines;
    int n = (int)g.size (0, 40);
    for (int k = 0; k < n; k++)
      lines.push_back (gen_line (g));
    bool lastnl = g.chance (3, 4);
    File f (lines, lastnl);
    for (auto &l : lines)
      g.note (l.text.substr (0, 60) + (l.text.size () > 60 ? fmt ("... (%zu)", l.text.size ()) : "") + "\n");
    lg::diag ().clear ();
    std::string fds = open_files ();
    int rv;
    bool env = g.coin ();
    switch (g.weighted ({8, 1, 1, 1}))
    {
    case 1: // cannot be opened
      rv = ms_readleapsecondfile ((scratch_dir () + "/none").c_str ());
      REQUIRE (rv == -1, "leap-error", "missing file returns " << rv);
      REQUIRE (!lg::diag ().empty (), "leap-error", "no message for a missing file");
      REQUIRE (list_now () == now, "leap-error", "list changed by a missing file");
      break;
    case 2: // cannot be read
      rv = ms_readleapsecondfile (scratch_dir ().c_str ());
      REQUIRE (rv == -1, "leap-error", "directory returns " << rv);
      REQUIRE (!lg::diag ().empty (), "leap-error", "no message for a file that cannot be read");
      now    = list_now ();
      loaded = true;
      break;
    case 3: // no name
      rv = ms_readleapsecondfile (nullptr);
      REQUIRE (rv == -1, "leap-error", "no name returns " << rv);
      unsetenv ("VERIF_NO_LEAPS");
      rv = ms_readleapseconds ("VERIF_NO_LEAPS");
      REQUIRE (rv == -2, "leap-error", "unset variable returns " << rv);
      REQUIRE (list_now () == now, "leap-error", "list changed without a file");
      break;
    default:
    {
      if (env)
      {
        setenv ("VERIF_LEAPS", f.path.c_str (), 1);
        rv = ms_readleapseconds ("VERIF_LEAPS");
        unsetenv ("VERIF_LEAPS");
      }
      else
        rv = ms_readleapsecondfile (f.path.c_str ());
      now.clear ();
      loaded     = true;
      size_t bad = 0, expired = 0;
      for (auto &l : lines)
      {
        if (l.entry)
          now.push_back ({l.time, l.delta});
        bad += l.bad;
        expired += l.expired;
      }
      std::string got;
      for (auto &e : list_now ())
        got += tstr (e.first) + fmt ("/%d ", e.second);
      REQUIRE (rv == (int)now.size (), "leap-load", "returns " << rv << " for " << now.size () << " entries: " << got);
      REQUIRE (list_now () == now, "leap-load", "list holds other entries than the file: " << got);
      REQUIRE (count_of (lg::diag (), "Unrecognized") == bad, "leap-report", bad << " lines are no entry: " << lg::diag ());
      REQUIRE (count_of (lg::diag (), "expired") == expired, "leap-report", expired << " expiry dates have passed: " << lg::diag ());
      if (now.size () && bad)
        g.nontrivial ();
    }
    }
    REQUIRE (open_files () == fds, "leap-open", "open files before " << fds << " after " << open_files ());
    REQUIRE (mem::live () == (loaded ? now.size () : 0), "leap-memory", mem::live () << " allocations for " << now.size () << " entries");
  }
}

namespace pbt {
Property property = {
    "P11",
    "A case is a start time, rate or period (or zero) and sample number, near leap seconds of the built-in list, of a loaded list or of none, compared with exact arithmetic for this sample and the next; "
    "or a record's end time, rate, period and latency; or one to three loads of a leap second file of entries, comments, expiry dates, lines that are no entry, long lines, missing and unreadable files. "
    "Non-trivial: a sample after the first at a rate, a record of two samples or more, a file with entries and lines that are none.",
    {{"sample", 6, sample}, {"record", 3, record}, {"leapfile", 1, leapfile}},
    std_reset,
    nullptr};
}
