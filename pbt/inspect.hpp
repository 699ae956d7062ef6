// Describing a run of the inspection program and what it has to process
#pragma once
#include "cli.hpp"
#include "files.hpp"
#include "glob.hpp"
#include "timetext.hpp"
#include <functional>
#include <memory>

namespace inspect {
using namespace pbt;
using files::File;
using files::Item;

struct Input
{
  const File *f = nullptr;
  int64_t start = 0, end = 0;
  bool std = false; // standard input
  std::string name;
};

struct Filter
{
  int64_t from = NSTERROR, to = NSTERROR;
  bool hasmatch = false, hasreject = false;
  globs::Pattern match, reject; // to be contained
  bool
  takes (const store::Rec &r) const
  {
    int64_t end = r.start + sample_span (r.rate, (int64_t)r.s.size () - 1);
    if (from != NSTERROR && end < from)
      return false;
    if (to != NSTERROR && r.start > to)
      return false;
    return (!hasmatch || within (match, r.sid)) && (!hasreject || !within (reject, r.sid));
  }
  static bool
  within (const globs::Pattern &p, const std::string &s)
  {
    globs::Pattern q;
    globs::add_star (q);
    q.e.insert (q.e.end (), p.e.begin (), p.e.end ());
    globs::add_star (q);
    return globs::match (q, s);
  }
};

struct Taken
{
  const Item *it;
  const Input *in;
};

struct Run
{
  std::vector<std::unique_ptr<File>> files;
  std::vector<Input> inputs;
  std::vector<std::vector<std::string>> opts; // options with their values
  Filter filter;
  bool skip     = false;
  long count    = -1;
  std::string stdinfile = "/dev/null";
  std::vector<std::string> args;
  // expected
  std::vector<Taken> taken;
  size_t filesread = 0;
  int64_t samples  = 0;
  bool error       = false;
  bool counted     = false; // reading was ended by the count

  std::string
  cmd () const
  {
    std::string s = "msi";
    for (auto &a : args)
      s += " " + pbt::quote (a);
    return s + "\n";
  }
};

// a time as text an option takes, exact
inline std::string
opt_time (Gen &g, int64_t t)
{
  model::Civil c = model::civil (t);
  int64_t us     = (c.nsec + 500) / 1000;
  bool whole     = c.nsec == 0;
  switch (g.raw (5))
  {
  case 0: return whole ? fmt ("%04lld-%02d-%02dT%02d:%02d:%02d", (long long)c.year, c.month, c.mday, c.hour, c.min, c.sec) : fmt ("%04lld-%02d-%02dT%02d:%02d:%02d.%09u", (long long)c.year, c.month, c.mday, c.hour, c.min, c.sec, c.nsec);
  case 1: return fmt ("%04lld,%03d,%02d,%02d,%02d,%06lld", (long long)c.year, c.doy, c.hour, c.min, c.sec, (long long)us);
  case 2: return fmt ("%04lld-%02d-%02d %02d:%02d:%02d.%06lldZ", (long long)c.year, c.month, c.mday, c.hour, c.min, c.sec, (long long)us);
  case 3:
    if (t > 10000000000ll * 1000000)
      return fmt ("%lld.%06lld", (long long)(t / 1000000000), (long long)(t % 1000000000 / 1000));
    // fall through
  default: return fmt ("%04lld,%d,%d:%d:%d.%06lld", (long long)c.year, c.doy, c.hour, c.min, c.sec, (long long)us);
  }
}

inline globs::Pattern
gen_part (Gen &g, const std::string &sid)
{
  size_t a = g.index (sid.size ()), n = (size_t)g.range (1, (int64_t)std::min<size_t> (12, sid.size () - a));
  globs::Pattern p = globs::near (g, sid.substr (a, n), false, 1);
  // a set may not hold a hyphen before its end, an option value not begin with one
  if (p.text.empty () || p.text[0] == '-')
    DISCARD ();
  return p;
}

struct RunOpt
{
  bool dirty     = true;
  bool ranges    = true;
  bool filters   = true;
  bool counts    = true;
  int maxfiles   = 3;
  int maxn       = 80;
};

inline void
gen_inputs (Gen &g, Run &r, const RunOpt &o)
{
  size_t nf = 1 + (g.coin () ? g.raw (o.maxfiles) : 0);
  files::FileOpt fo;
  fo.dirty = o.dirty;
  fo.maxn  = o.maxn;
  for (size_t k = 0; k < nf; k++)
  {
    r.files.emplace_back (new File (files::gen_file (g, pbt::scratch_dir () + fmt ("/in%zu", k), fo)));
    g.note (r.files.back ()->show ());
    files::label_file (g, *r.files.back ());
  }
  size_t ni = nf + (g.chance (1, 6) ? 1 : 0);
  bool stdused = false;
  for (size_t k = 0; k < ni; k++)
  {
    Input in;
    in.f    = r.files[k % nf].get ();
    in.name = g.coin () ? in.f->path : in.f->path.substr (in.f->path.rfind ('/') + 1);
    if (o.ranges && g.chance (1, 4))
    {
      files::gen_range (g, *in.f, in.start, in.end);
      in.name += "@" + (in.start || !in.end ? std::to_string (in.start) : "") + (in.end ? "-" + std::to_string (in.end) : "");
      g.label ("byte range");
    }
    else if (!stdused && g.chance (1, 10))
    {
      stdused     = true;
      in.std      = true;
      in.name     = "-";
      r.stdinfile = in.f->path;
      g.label ("standard input");
    }
    r.inputs.push_back (in);
  }
}

// options that choose what is processed
inline void
gen_filters (Gen &g, Run &r, const RunOpt &o)
{
  std::vector<const store::Rec *> rs;
  for (auto &f : r.files)
    for (auto &it : f->items)
      if (it.kind == Item::RECORD)
        rs.push_back (&it.rec);
  r.skip = g.chance (3, 4);
  if (r.skip)
    r.opts.push_back ({"-snd"});
  auto near = [&] () {
    const store::Rec *x = g.pick (rs);
    int64_t t           = x->start + sample_span (x->rate, g.range (0, (int64_t)x->s.size () + 20)) + g.pick<int64_t> ({0, 0, 1000000, -1000000});
    return g.coin () ? x->start : t;
  };
  if (o.filters && rs.size ())
  {
    if (g.chance (1, 3))
    {
      r.filter.from = near ();
      r.opts.push_back ({"-ts", opt_time (g, r.filter.from)});
      g.label ("-ts");
    }
    if (g.chance (1, 3))
    {
      r.filter.to = near ();
      r.opts.push_back ({"-te", opt_time (g, r.filter.to)});
      g.label ("-te");
    }
    if (g.chance (1, 4))
    {
      r.filter.hasmatch = true;
      r.filter.match    = gen_part (g, g.pick (rs)->sid);
      r.opts.push_back ({"-m", r.filter.match.text});
      g.label ("-m");
    }
    if (g.chance (1, 4))
    {
      r.filter.hasreject = true;
      r.filter.reject    = gen_part (g, g.pick (rs)->sid);
      r.opts.push_back ({"-r", r.filter.reject.text});
      g.label ("-r");
    }
  }
  if (o.counts && g.chance (1, 5))
  {
    r.count = (long)g.range (0, 10);
    r.opts.push_back ({"-n", std::to_string (r.count)});
    g.label ("-n");
  }
}

// what the documentation says is processed
inline void
model_run (Run &r)
{
  long left = r.count;
  for (auto &in : r.inputs)
  {
    if (left == 0)
    {
      r.counted = true;
      continue;
    }
    r.filesread++;
    files::Want w = files::expect (*in.f, MSF_VALIDATECRC | (r.skip ? MSF_SKIPNOTDATA : 0), in.start, in.end, files::Sel ());
    bool stop     = false;
    for (size_t k = 0; k < w.recs.size () && !stop; k++)
    {
      if (w.optional[k])
        DISCARD (); // reaches over the end of the byte range
      if (!r.filter.takes (w.recs[k]->rec))
        continue;
      r.taken.push_back ({w.recs[k], &in});
      r.samples += w.recs[k]->rec.s.size ();
      if (left > 0 && --left == 0)
        stop = true;
    }
    if (stop)
    {
      r.counted = true;
      continue;
    }
    if (w.codes.size () > 1)
      DISCARD ();
    if (!w.codes.count (MS_ENDOFFILE))
    {
      r.error = true;
      return;
    }
  }
}

// options and inputs in any order, inputs in theirs; some through a list file
inline void
build_args (Gen &g, Run &r)
{
  std::vector<std::vector<std::string>> groups;
  for (size_t k = 0; k < r.inputs.size ();)
  {
    if (g.chance (1, 6))
    {
      size_t n      = (size_t)g.range (1, (int64_t)(r.inputs.size () - k));
      std::string l = g.coin () ? "# a list\n\n" : "", path = pbt::scratch_dir () + fmt ("/list%zu", k);
      for (size_t j = k; j < k + n; j++)
      {
        l += r.inputs[j].name;
        if (j + 1 < k + n || g.coin ())
          l += "\n";
        if (j + 1 < k + n && g.chance (1, 4))
          l += "\n#x\n";
      }
      cli::write_file (path, l);
      groups.push_back ({"@" + path});
      k += n;
      g.label ("list file");
    }
    else
      groups.push_back ({r.inputs[k++].name});
  }
  for (auto &o : r.opts)
    groups.insert (groups.begin () + g.index (groups.size () + 1), o);
  for (auto &x : groups)
    r.args.insert (r.args.end (), x.begin (), x.end ());
}

// ------------------------------------------------------------ what is printed
// output that is known, with places where only the range of a number is
struct Piece
{
  std::string text;
  bool latency = false;
  int64_t end  = 0;
  std::function<size_t (const std::string &, size_t)> check; // the position behind it
};
struct Output
{
  std::vector<Piece> ps;
  void
  add (const std::string &s)
  {
    if (ps.empty () || ps.back ().latency || ps.back ().check)
      ps.push_back ({s, false, 0, nullptr});
    else
      ps.back ().text += s;
  }
  void
  latency (int64_t end)
  {
    ps.push_back ({"", true, end, nullptr});
  }
  void
  checked (std::function<size_t (const std::string &, size_t)> f)
  {
    ps.push_back ({"", false, 0, f});
  }
};

inline int64_t
now_ns ()
{
  struct timeval tv;
  gettimeofday (&tv, nullptr);
  return (int64_t)tv.tv_sec * 1000000000 + (int64_t)tv.tv_usec * 1000;
}

inline void
compare (const Output &want, const std::string &got, int64_t t0, int64_t t1)
{
  size_t at = 0;
  for (auto &p : want.ps)
  {
    if (p.check)
      at = p.check (got, at);
    else if (p.latency)
    {
      char *e;
      double v   = strtod (got.c_str () + at, &e);
      size_t len = e - (got.c_str () + at);
      std::string rest = got.substr (at + len, 20);
      size_t pad = len < 10 ? 10 - len : 0;
      REQUIRE (len && rest.substr (0, pad + 6) == std::string (pad, ' ') + " secs ", "latency", "no latency at byte " << at << ": " << quote (got.substr (at, 60)));
      double lo = (double)(t0 - p.end) / 1e9, hi = (double)(t1 - p.end) / 1e9;
      double tol = 1.5e-5 * std::max (fabs (lo), fabs (hi)) + 1e-5;
      REQUIRE (v >= lo - tol && v <= hi + tol, "latency", "latency " << v << " is not between " << lo << " and " << hi);
      at += len + pad + 6;
    }
    else
    {
      if (got.compare (at, p.text.size (), p.text))
      {
        size_t k = 0;
        while (k < p.text.size () && at + k < got.size () && got[at + k] == p.text[k])
          k++;
        size_t from = k > 150 ? k - 150 : 0;
        REQUIRE (false, "output", "at byte " << at + k << " the output is " << quote (got.substr (at + from, 300), 400) << ", want " << quote (p.text.substr (from, 300), 400));
      }
      at += p.text.size ();
    }
  }
  REQUIRE (at == got.size (), "output", "more output than expected: " << quote (got.substr (at, 300), 400));
}

inline std::string
record_text (const Item &it, const File &f, int details)
{
  const store::Rec &r = it.rec;
  i128 named;
  std::string time = timetext::expected (r.start, ISOMONTHDAY_DOY_Z, NANO_MICRO, named);
  if (!details)
    return fmt ("%s, %d, %zu, %zu samples, %-.10g Hz, ", r.sid.c_str (), r.pub, it.bytes.size (), r.s.size (), hz (r.rate)) + time + "\n";
  MS3Record *m = nullptr;
  int rv       = msr3_parse ((const char *)f.bytes.data () + it.off, f.bytes.size () - it.off, &m, 0, 0);
  REQUIRE (rv == 0 && m, "harness", "parsing gives " << rv);
  std::string s = fmt ("%s, version %d, %zu bytes (format: %d)\n", r.sid.c_str (), r.pub, it.bytes.size (), r.version);
  s += "             start time: " + time + "\n";
  s += fmt ("      number of samples: %zu\n       sample rate (Hz): %.10g\n", r.s.size (), hz (r.rate));
  if (details > 1)
  {
    s += "                  flags: [";
    for (int b = 7; b >= 0; b--)
      s += r.flags >> b & 1 ? '1' : '0';
    s += "] 8 bits\n";
    const char *names[] = {"Calibration signals present", "Time tag is questionable", "Clock locked"};
    for (int b = 0; b < 8; b++)
      if (r.flags >> b & 1)
        s += fmt ("                         [Bit %d] %s\n", b, b < 3 ? names[b] : "Undefined bit set");
  }
  uint32_t crc = r.version == 3 ? (uint32_t)model::get (&it.bytes[28], 4, false) : 0;
  s += fmt ("                    CRC: 0x%0X\n", crc);
  s += fmt ("    extra header length: %d bytes\n", r.version == 3 ? (int)model::get (&it.bytes[34], 2, false) : (int)m->extralength);
  s += fmt ("    data payload length: %d bytes\n", r.version == 3 ? (int)model::get (&it.bytes[36], 4, false) : (int)m->datalength);
  s += fmt ("       payload encoding: %s (val: %d)\n", r.b1000 ? ms_encodingstr ((uint8_t)r.enc) : "Unknown", r.b1000 ? r.enc : -1);
  if (details > 1 && m->extralength)
  {
    s += "          extra headers:\n";
    lg::out ().clear ();
    mseh_print (m, 16);
    s += lg::out ();
    lg::out ().clear ();
  }
  msr3_free (&m);
  return s;
}

} // namespace inspect
