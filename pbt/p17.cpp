// P17: the inspection program selects, counts and passes through exact records
#include "inspect.hpp"
using namespace pbt;
using namespace inspect;

namespace {
// ------------------------------------------------------------ facets
void
facet_process (Gen &g)
{
  Run r;
  RunOpt o;
  gen_inputs (g, r, o);
  gen_filters (g, r, o);
  int details  = g.chance (1, 4) ? (int)g.range (1, 3) : 0;
  bool offset  = g.chance (1, 4), latency = g.chance (1, 8), summary = g.chance (3, 4), raw = g.chance (1, 12), only = g.chance (1, 6);
  int verbose  = g.chance (1, 10) ? (int)g.range (1, 3) : 0;
  int out      = (int)g.weighted ({3, 6, 1}); // none, file, standard output
  std::string outfile = scratch_dir () + "/raw";
  unlink (outfile.c_str ());
  if (details)
  {
    if (g.coin ())
      r.opts.push_back ({"-" + std::string (details, 'p')});
    else
      for (int k = 0; k < details; k++)
        r.opts.push_back ({"-p"});
  }
  if (offset)
    r.opts.push_back ({"-O"});
  if (latency)
    r.opts.push_back ({"-L"});
  if (summary)
    r.opts.push_back ({"-s"});
  if (raw)
    r.opts.push_back ({"-z"});
  if (only)
    r.opts.push_back ({g.pick<std::string> ({"-T", "-G", "-S"})});
  if (verbose)
    r.opts.push_back ({"-" + std::string (verbose, 'v')});
  if (out)
    r.opts.push_back ({"-o", out == 1 ? outfile : "-"});
  build_args (g, r);
  model_run (r);
  g.note (r.cmd ());
  int64_t t0    = now_ns ();
  cli::Result p = cli::run (r.args, scratch_dir (), r.stdinfile);
  int64_t t1    = now_ns ();
  cli::require_sane (p, r.args);
  REQUIRE (p.status == (r.error ? 1 : 0), "status", "exit status " << p.status << ", want " << r.error << " " << quote (p.err, 400));
  if (r.error)
    REQUIRE (p.err.find ("ERROR: ") != std::string::npos, "error-message", "no error message: " << quote (p.err, 400));
  else if (std::all_of (r.files.begin (), r.files.end (), [] (const std::unique_ptr<File> &f) { return std::all_of (f->items.begin (), f->items.end (), [] (const Item &it) { return it.kind != Item::BADCRC && it.kind != Item::TOOLONG; }); }))
    REQUIRE (p.err.find ("ERROR: ") == std::string::npos, "error-message", "an error message: " << quote (p.err, 400));
  if (out == 1)
  {
    std::string bytes, got = cli::read_file (outfile);
    for (auto &t : r.taken)
      bytes.append ((const char *)t.it->bytes.data (), t.it->bytes.size ());
    size_t k = 0;
    while (k < bytes.size () && k < got.size () && bytes[k] == got[k])
      k++;
    REQUIRE (bytes == got, "raw-output", "the output file holds " << got.size () << " bytes, want " << bytes.size () << " of " << r.taken.size () << " records, equal up to " << k);
  }
  // the summary may count the files after the last record wanted or not
  std::string last = fmt ("Records: %zu, Samples: %lld\n", r.taken.size (), (long long)r.samples);
  if (summary && !r.error)
  {
    size_t at = p.out.rfind ("Files: ");
    REQUIRE (at != std::string::npos, "summary", "no summary: " << quote (p.out.size () > 300 ? p.out.substr (p.out.size () - 300) : p.out, 400));
    long nf = strtol (p.out.c_str () + at + 7, nullptr, 10);
    REQUIRE (nf == (long)r.inputs.size () || nf == (long)r.filesread, "summary", "files: " << nf << ", want " << r.filesread);
    last     = fmt ("Files: %ld, ", nf) + last;
    size_t e = p.out.find ('\n', at);
    REQUIRE (p.out.substr (at, e == std::string::npos ? e : e + 1 - at) == last, "summary", "summary " << quote (p.out.substr (at, 200)) << ", want " << quote (last));
  }
  if (!raw && !verbose && !only)
  {
    Output want;
    for (auto &t : r.taken)
    {
      const store::Rec &x = t.it->rec;
      if (offset)
        want.add (fmt ("%-10zu", t.it->off));
      if (latency)
        want.latency (x.start + sample_span (x.rate, (int64_t)x.s.size () - 1));
      want.add (record_text (*t.it, *t.in->f, details));
      if (out == 2)
        want.add (std::string ((const char *)t.it->bytes.data (), t.it->bytes.size ()));
    }
    if (summary && !r.error)
      want.add (last);
    compare (want, p.out, t0, t1);
  }
  else if (verbose && !raw && !only && !offset && !latency && !details && out != 2)
  {
    // with other lines in between
    size_t at = 0, k = 0;
    for (auto &t : r.taken)
    {
      std::string line = record_text (*t.it, *t.in->f, 0);
      size_t p2        = p.out.find (line, at);
      REQUIRE (p2 != std::string::npos, "output", "the line of record " << k << " is not in the output: " << line);
      at = p2 + line.size ();
      k++;
    }
  }
  else if (raw)
    g.label ("-z");
  g.label (r.error ? "ends with an error" : "ends well");
  if (out == 2)
    g.label ("raw records to standard output");
  if (r.taken.size () > 1)
    g.nontrivial ();
}

// what the program cannot do
void
facet_errors (Gen &g)
{
  Run r;
  RunOpt o;
  o.dirty  = false;
  o.ranges = false;
  o.counts = false;
  o.maxfiles = 2;
  gen_inputs (g, r, o);
  r.opts.push_back ({"-snd"});
  r.skip   = true;
  int what = (int)g.raw (13);
  int want = 1;
  size_t upto = r.inputs.size (); // records of these are processed before
  bool some   = false;
  switch (what)
  {
  case 0: // an input that is not there
  {
    Input in;
    in.f    = r.inputs[0].f;
    in.name = "not-there";
    upto    = g.index (r.inputs.size () + 1);
    r.inputs.insert (r.inputs.begin () + upto, in);
    some = true;
    break;
  }
  case 1: r.opts.push_back ({g.pick<std::string> ({"-x", "--help", "-T1", "-Z", "-O1", "-gx", "-ttt", "--"})}); break;
  case 2: // no value at the end
    break;
  case 3: r.opts.push_back ({g.pick<std::string> ({"-ts", "-te"}), g.pick<std::string> ({"x", "yesterday", "2010-13-01", "2010,400", "2010-01-01T25:00:00", "1x"})}); break;
  case 4: r.opts.push_back ({"-tf", g.pick<std::string> ({"3", "9", "100"})}); break;
  case 5: r.inputs.clear (); break;
  case 6: r.opts.push_back ({g.pick<std::string> ({"-o", "-b"}), scratch_dir () + "/no/such/place"}); break;
  case 7: break; // a list that is not there
  case 8: r.opts.push_back ({g.pick<std::string> ({"-V", "-h"})}); want = 0; break;
  case 9: // a directory
  {
    Input in;
    in.f    = r.inputs[0].f;
    in.name = scratch_dir ();
    upto    = g.index (r.inputs.size () + 1);
    r.inputs.insert (r.inputs.begin () + upto, in);
    some = true;
    break;
  }
  case 10: // nowhere to store
    r.opts.push_back ({"-o", "/dev/full"});
    break;
  case 11:
    r.opts.push_back ({"-b", "/dev/full"});
    break;
  case 12: // nowhere to print
    if (g.coin ())
      r.opts.push_back ({g.pick<std::string> ({"-s", "-T", "-G", "-S", "-pp", "-D"})});
    break;
  }
  if (what == 9 || what == 10 || what == 11 || what == 0)
    r.opts.push_back ({"-s"});
  std::vector<Input> all = r.inputs;
  build_args (g, r);
  if (what == 2)
    r.args.push_back (g.pick<std::string> ({"-ts", "-te", "-m", "-r", "-n", "-tt", "-rt", "-gmin", "-gmax", "-tf", "-b", "-o"}));
  if (what == 7)
    r.args.insert (r.args.begin () + g.index (r.args.size () + 1), "@not-there");
  g.note (r.cmd ());
  // how much was to be written
  r.inputs.resize (some ? upto : r.inputs.size ());
  model_run (r);
  if (r.error && what != 8)
    some = false;
  cli::Result p = cli::run (r.args, scratch_dir (), r.stdinfile, what == 12 ? "/dev/full" : nullptr);
  cli::require_sane (p, r.args);
  if ((what == 10 || what == 11) && !r.error && !r.taken.size ())
    want = 0;
  if (what == 12 && !r.error && !r.taken.size () && p.status == 0)
    want = 0; // nothing may have been printed
  REQUIRE (p.status == want, "status", "exit status " << p.status << ", want " << want << " " << quote (p.err, 400));
  if (want)
    REQUIRE (p.err.find ("ERROR: ") != std::string::npos, "error-message", "no error message: " << quote (p.err, 400));
  if (what == 8)
    REQUIRE (p.err.find ("msi") != std::string::npos, "help", "no text: " << quote (p.err, 400));
  if (some)
  {
    std::string s;
    for (auto &t : r.taken)
      s += record_text (*t.it, *t.in->f, 0);
    REQUIRE (p.out == s, "output", "before the error the output is " << quote (p.out, 400) << ", want " << quote (s, 400));
  }
  else if (what == 1 || what == 2 || what == 4 || what == 5 || what == 7 || what == 8)
    REQUIRE (p.out.empty (), "output", "output " << quote (p.out, 400));
  g.nontrivial ();
}

// samples that cannot be decoded: an error when they are wanted, and only then; everything
// else is processed
void
facet_undecodable (Gen &g)
{
  Bytes all;
  std::string good; // samples
  size_t n = 1 + (size_t)g.raw (6), bad = 0;
  int64_t total = 0;
  for (size_t k = 0; k < n; k++)
  {
    model::Rec3 m;
    m.year     = (uint16_t)g.range (1990, 2020);
    m.doy      = (uint16_t)g.range (1, 365);
    m.ratebits = model::d2bits (1.0);
    m.pubversion = 1;
    m.sid      = "FDSN:XX_S" + std::to_string (k) + "__B_H_Z";
    size_t ns  = (size_t)g.range (1, 20);
    m.nsamp    = (uint32_t)ns;
    total += ns;
    int how = g.chance (1, 3) ? (int)g.range (1, 3) : 0;
    m.encoding = DE_INT32;
    for (size_t j = 0; j < ns; j++)
      {
        uint32_t v = (uint32_t)g.bits (32);
        m.data.insert (m.data.end (), (uint8_t *)&v, (uint8_t *)&v + 4);
      }
    if (how == 0)
      good.append ((char *)m.data.data (), m.data.size ());
    else
      bad++;
    if (how == 1)
      m.encoding = g.pick<uint8_t> ({2, 6, 7, 9, 15, 18, 20, 31, 99, 200});
    if (how == 2)
      m.data.resize (g.index (m.data.size ()));
    if (how == 3)
    {
      m.encoding = g.coin () ? DE_STEIM1 : DE_STEIM2;
      m.data     = Bytes (64, 0); // no differences at all
    }
    Bytes b = m.build ();
    all.insert (all.end (), b.begin (), b.end ());
  }
  std::string in = scratch_dir () + "/in", out = scratch_dir () + "/bin";
  cli::write_file (in, all);
  std::vector<std::vector<std::string>> opts;
  int want  = (int)g.raw (4);
  bool data = want != 0, binary = want == 3;
  if (want == 1)
    opts.push_back ({"-d"});
  if (want == 2)
    opts.push_back ({"-D"});
  if (binary)
    opts.push_back ({"-b", out});
  opts.push_back ({"-s"});
  if (g.chance (1, 3))
    opts.push_back ({"-T"});
  if (g.coin ())
    opts.push_back ({in});
  else
    opts.insert (opts.begin (), {in});
  std::vector<std::string> args;
  for (auto &o : opts)
    args.insert (args.end (), o.begin (), o.end ());
  g.note (fmt ("%zu records, %zu cannot be decoded, msi", n, bad));
  for (auto &a : args)
    g.note (" " + quote (a));
  g.note ("\n" + pbt::hexdump (all.data (), all.size (), 300) + "\n");
  cli::Result p = cli::run (args, scratch_dir ());
  cli::require_sane (p, args);
  REQUIRE (p.status == (data && bad ? 1 : 0), "status", "exit status " << p.status << " with " << bad << " records that cannot be decoded: " << quote (p.err, 400));
  if (data && bad)
    REQUIRE (p.err.find ("ERROR: ") != std::string::npos, "error-message", "no error message: " << quote (p.err, 400));
  std::string sum = fmt ("Files: 1, Records: %zu, Samples: %lld\n", n, (long long)total);
  REQUIRE (p.out.find (sum) != std::string::npos, "summary", "no line " << sum << " in " << quote (p.out, 600));
  for (size_t k = 0; k < n; k++)
    REQUIRE (p.out.find ("FDSN:XX_S" + std::to_string (k) + "__B_H_Z") != std::string::npos, "output", "record " << k << " is not listed: " << quote (p.out, 600));
  if (binary)
    REQUIRE (cli::read_file (out) == good, "binary", "the binary file holds other samples than those of the records that can be decoded");
  if (bad)
    g.nontrivial ();
}

} // namespace

namespace pbt {
Property property = {
    "P17",
    "A case is a run of the program on one to four inputs (files of records of both versions, junk, damaged and truncated records; byte ranges, list files, standard input) with any mix of time, match, reject, count and skip options, printing options and a raw output, in any order; or a run that has to fail. "
    "It is non-trivial if at least two records are processed, or the run has to fail.",
    {{"process", 85, facet_process}, {"errors", 15, facet_errors}, {"undecodable", 6, facet_undecodable}},
    std_reset,
    nullptr};
}
