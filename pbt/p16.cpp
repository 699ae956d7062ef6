// P16: writing files stores every record in order and failures are reported
#include "checkrec.hpp"
#include "cli.hpp"
#include "tl.hpp"
#include <memory>
using namespace pbt;

namespace {
// something to write: a record or a trace list, with the flags to do it
struct Source
{
  bool list = false;
  std::vector<Desc> ds;
  MS3Record rec;
  tl::List l;
  int reclen     = 512;
  int8_t enc     = -1;
  uint32_t flags = 0;
  Collector want; // what packing the same emits
  int64_t wantrv = 0;
  bool badenc    = false; // encoding picked without regard to the samples

  std::string
  show () const
  {
    std::string s = list ? fmt ("trace list, length %d encoding %d flags %x of\n", reclen, enc, flags) : fmt ("record, flags %x of\n", flags);
    for (auto &d : ds)
      s += "  " + d.show () + "\n";
    return s;
  }
  Bytes
  bytes () const
  {
    Bytes b;
    for (auto &r : want.recs)
      b.insert (b.end (), r.begin (), r.end ());
    return b;
  }
  // the state of the source, to see that it is left alone
  std::string
  state ()
  {
    std::string s;
    if (!list)
    {
      s.assign ((const char *)&rec, sizeof rec);
      s.append ((const char *)rec.datasamples, rec.numsamples * ms_samplesize (rec.sampletype));
      s.append (rec.extra ? rec.extra : "", rec.extralength);
    }
    else
      for (auto &t : tl::read (l.p))
      {
        s += t.sid + fmt (" %d %lld %lld", t.pubversion, (long long)t.earliest, (long long)t.latest);
        for (auto &g : t.segs)
          s += fmt ("[%lld %lld %.17g %lld %lld %d]", (long long)g.start, (long long)g.end, g.rate, (long long)g.count, (long long)g.num, g.type) + g.data;
      }
    return s;
  }
  int64_t
  write (const char *path, int8_t overwrite)
  {
    return list ? mstl3_writemseed (l.p, path, overwrite, reclen, enc, flags, 0) : msr3_writemseed (&rec, path, overwrite, flags, 0);
  }
};

// The records emitted for a source hold its samples, and data that can be stored is stored
void
check_emitted (Source &s)
{
  std::map<std::string, std::string> have, held;
  std::map<std::string, char> types;
  bool easy = true;
  auto add  = [&] (const std::string &sid, char type, const std::string &data) {
    held[sid] += data;
    if (type == 'i')
      for (size_t k = 0; k + 4 <= data.size (); k += 4)
      {
        int32_t v;
        memcpy (&v, &data[k], 4);
        easy &= v > -(1 << 27) && v < (1 << 27);
      }
  };
  if (!s.list)
    add (s.ds[0].sid, s.rec.sampletype, std::string ((const char *)s.rec.datasamples, s.rec.numsamples * ms_samplesize (s.rec.sampletype)));
  else
    for (auto &t : tl::read (s.l.p))
    {
      for (auto &g : t.segs)
        add (t.sid, g.type, g.data);
    }
  // a trace list is written with an encoding for its kind of samples; the encoding of a record is chosen for its samples
  if (s.enc == -1 && !s.badenc && easy)
    REQUIRE (s.wantrv >= 0, "cannot-pack", "packing fails: " << lg::diag ());
  if (s.wantrv < 0)
    return;
  for (auto &r : s.want.recs)
    if (v2_ambiguous (r))
      DISCARD ();
  for (auto &r : s.want.recs)
  {
    MS3Record *m = nullptr;
    int rv       = msr3_parse ((char *)r.data (), r.size (), &m, MSF_UNPACKDATA | MSF_VALIDATECRC, 0);
    REQUIRE (rv == MS_NOERROR, "record-emitted", "a packed record cannot be parsed, " << rv << " " << lg::diag ());
    have[m->sid].append ((const char *)m->datasamples, m->numsamples * ms_samplesize (m->sampletype));
    REQUIRE (m->formatversion == (s.flags & MSF_PACKVER2 ? 2 : 3), "record-version", "a record of version " << (int)m->formatversion << " is written");
    msr3_free (&m);
  }
  for (auto &h : held)
  {
    std::string &w = have[h.first];
    bool all       = s.list || (s.flags & MSF_FLUSHDATA);
    REQUIRE (all ? w == h.second : h.second.compare (0, w.size (), w) == 0, "samples-written",
             h.first << ": the records hold " << w.size () << " bytes of samples, the source " << h.second.size () << ", or they differ");
  }
  for (auto &h : have)
    REQUIRE (held.count (h.first), "samples-written", "records of " << h.first << " are written, which the source does not have");
}

std::unique_ptr<Source>
gen_source (Gen &g)
{
  std::unique_ptr<Source> s (new Source);
  s->list = g.coin ();
  DescOpt op;
  op.minn = g.chance (1, 10) ? 0 : 1;
  op.maxn = g.chance (1, 8) ? 5000 : 400;
  if (!s->list)
  {
    s->ds.push_back (gen_desc (g, op));
    Desc &d  = s->ds[0];
    s->flags = (g.chance (4, 5) ? MSF_FLUSHDATA : 0) | (d.version == 2 ? MSF_PACKVER2 : 0);
    if (g.chance (1, 12)) // something that cannot be packed
      d.enc = g.pick<int> ({DE_TEXT, DE_FLOAT64, DE_INT32, 77}), s->badenc = true;
    d.fill (s->rec);
    int64_t packed = 0;
    s->wantrv      = msr3_pack (&s->rec, collect, &s->want, &packed, s->flags, 0);
    d.fill (s->rec);
  }
  else
  {
    size_t n = (size_t)g.range (1, 4);
    s->l.p   = mstl3_init (nullptr);
    for (size_t k = 0; k < n; k++)
    {
      op.extras = false;
      Desc d    = gen_desc (g, op);
      if (k && g.coin ())
      { // continues one before
        Desc b = s->ds[g.index (s->ds.size ())];
        d.sid = b.sid, d.rate = b.rate, d.pubversion = b.pubversion, d.version = b.version;
        if (d.enc != b.enc)
          d.enc = b.enc, d.s = gen_for_encoding (g, b.enc, std::max<size_t> (1, d.s.size ()));
        d.start = ms_sampletime (b.start, (int64_t)b.s.size () + (g.chance (1, 3) ? g.range (2, 10) : 0), b.rate);
      }
      if (d.start == NSTERROR || d.start == NSTUNSET || !d.s.size ())
        DISCARD ();
      MS3Record m;
      d.fill (m);
      if (!mstl3_addmsr (s->l.p, &m, 0, 1, 0, nullptr))
        DISCARD ();
      s->ds.push_back (d);
    }
    bool v2   = std::all_of (s->ds.begin (), s->ds.end (), [] (const Desc &d) { return d.version == 2; }) && g.chance (3, 4);
    s->flags  = (v2 ? MSF_PACKVER2 : 0) | (g.chance (1, 4) ? MSF_FLUSHDATA : 0) | (g.chance (1, 6) ? MSF_MAINTAINMSTL : 0);
    s->reclen = v2 ? 256 << g.range (0, 4) : (int)g.range (200, 5000);
    if (g.chance (1, 4))
      s->enc = (int8_t)s->ds[0].enc;
    else if (g.chance (1, 20))
      s->enc = (int8_t)g.pick<int> ({DE_TEXT, DE_FLOAT32, 88});
    int64_t packed = 0;
    s->wantrv      = mstl3_pack (s->l.p, collect, &s->want, s->reclen, s->enc, &packed, s->flags | MSF_MAINTAINMSTL | MSF_FLUSHDATA, 0, nullptr);
  }
  if (s->wantrv >= 0)
    REQUIRE (s->wantrv == (int64_t)s->want.recs.size (), "pack-count", "packing returns " << s->wantrv << " for " << s->want.recs.size () << " records");
  else
    g.label ("cannot be packed");
  g.note ("source: " + s->show ());
  check_emitted (*s);
  g.label (s->list ? "trace list" : "record");
  lg::reset ();
  return s;
}

std::string
diffpos (const std::string &a, const Bytes &b)
{
  size_t k = 0;
  while (k < a.size () && k < b.size () && (uint8_t)a[k] == b[k])
    k++;
  return fmt ("%zu bytes, want %zu, equal up to %zu", a.size (), b.size (), k);
}
bool
same (const std::string &a, const Bytes &b)
{
  return a.size () == b.size () && !memcmp (a.data (), b.data (), a.size ());
}

// what records a file holds
void
check_readback (const std::string &path, const std::vector<Bytes> &recs)
{
  MS3FileParam *fp = nullptr;
  MS3Record *m     = nullptr;
  int rv;
  size_t k = 0;
  while ((rv = ms3_readmsr_r (&fp, &m, path.c_str (), MSF_UNPACKDATA | MSF_VALIDATECRC, 0)) == MS_NOERROR)
  {
    REQUIRE (k < recs.size (), "read-back", "more than " << recs.size () << " records");
    REQUIRE (m->reclen == (int)recs[k].size () && !memcmp (m->record, recs[k].data (), recs[k].size ()), "read-back", "record " << k << " differs: " << m->reclen << " bytes, want " << recs[k].size ());
    REQUIRE (m->numsamples == m->samplecnt, "read-back", "record " << k << " has " << m->numsamples << " of " << m->samplecnt << " samples");
    k++;
  }
  ms3_readmsr_r (&fp, &m, nullptr, 0, 0);
  REQUIRE (k == recs.size () && rv == (k ? MS_ENDOFFILE : MS_NOTSEED), "read-back", k << " records are read back of " << recs.size () << ", then code " << rv << " " << lg::diag ());
}

// ------------------------------------------------------------ facets
void
facet_history (Gen &g)
{
  struct Out
  {
    std::string path;
    Bytes bytes;              // what it holds
    std::vector<Bytes> recs;  // the records in it
    bool clean = true;        // nothing else
    bool exists = false;
  };
  std::vector<Out> outs (1 + g.raw (2));
  for (size_t k = 0; k < outs.size (); k++)
  {
    outs[k].path = scratch_dir () + fmt ("/out%zu", k);
    unlink (outs[k].path.c_str ());
    if (g.chance (1, 3))
    {
      outs[k].exists = true;
      outs[k].bytes  = Bytes ((size_t)g.range (0, 3000), (uint8_t)g.raw (256));
      outs[k].clean  = outs[k].bytes.empty ();
      cli::write_file (outs[k].path, outs[k].bytes);
    }
  }
  size_t nsrc = (size_t)g.range (1, 3), nops = (size_t)g.range (1, 7), writes = 0;
  std::vector<std::unique_ptr<Source>> ss;
  for (size_t k = 0; k < nsrc; k++)
  {
    ss.push_back (gen_source (g));
  }
  for (size_t op = 0; op < nops; op++)
  {
    size_t si        = g.index (nsrc);
    Source &s        = *ss[si];
    Out &o           = outs[g.index (outs.size ())];
    int8_t overwrite = g.pick<int> ({0, 0, 0, 1, 1, -1, 100});
    g.note (fmt ("write source %zu to %s overwrite %d\n", si, o.path.c_str (), overwrite));
    std::string before = s.state ();
    int64_t rv         = s.write (o.path.c_str (), overwrite);
    if (overwrite)
    {
      o.bytes.clear ();
      o.recs.clear ();
      o.clean = true;
    }
    for (auto &r : s.want.recs)
    {
      o.bytes.insert (o.bytes.end (), r.begin (), r.end ());
      o.recs.push_back (r);
    }
    REQUIRE (s.wantrv >= 0 ? rv == s.wantrv : rv < 0, "write-count", "writing returns " << rv << ", packing the same " << s.wantrv << " " << lg::diag ());
    if (rv < 0)
      REQUIRE (!lg::diag ().empty (), "error-message", "no message although writing fails");
    else
      REQUIRE (lg::diag ().empty (), "error-message", "writing succeeds but logs " << lg::diag ());
    lg::reset ();
    std::string now = cli::read_file (o.path);
    REQUIRE (same (now, o.bytes), "file-content", "after operation " << op << " the file holds " << diffpos (now, o.bytes));
    REQUIRE (s.state () == before, "source-changed", "writing changed its source");
    writes += s.want.recs.size ();
  }
  for (auto &o : outs)
    if (o.clean && o.bytes.size ())
    {
      for (auto &r : o.recs)
        if (v2_ambiguous (r))
          DISCARD ();
      check_readback (o.path, o.recs);
    }
  if (writes > 1)
    g.nontrivial ();
  ss.clear ();
  mem::require_balanced ("writing");
}

void
facet_faults (Gen &g)
{
  std::unique_ptr<Source> s = gen_source (g);
  Bytes all = s->bytes (), prior;
  std::string path = scratch_dir () + "/out", before = s->state ();
  int8_t overwrite = g.coin ();
  int what         = (int)g.weighted ({6, 2, 1, 1, 1});
  int64_t rv;
  if (what == 0)
  {
    // the disk is full after so many bytes
    unlink (path.c_str ());
    if (g.coin ())
    {
      prior = Bytes ((size_t)g.range (0, 6000), 0x77);
      cli::write_file (path, prior);
    }
    size_t from = overwrite ? 0 : prior.size (), total = from + all.size ();
    size_t limit;
    switch (g.raw (4))
    {
    case 0: limit = total; break;
    case 1: limit = total ? total - 1 : 0; break;
    case 2: limit = from + (size_t)g.range (0, (int64_t)all.size ()); break;
    default: limit = (size_t)g.range (0, (int64_t)total + 5000); break;
    }
    g.note (fmt ("%zu bytes before, overwrite %d, room for %zu of %zu\n", prior.size (), overwrite, limit, total));
    struct rlimit old, lim;
    getrlimit (RLIMIT_FSIZE, &old);
    lim          = old;
    lim.rlim_cur = limit;
    auto sig     = signal (SIGXFSZ, SIG_IGN);
    setrlimit (RLIMIT_FSIZE, &lim);
    rv = s->write (path.c_str (), overwrite);
    setrlimit (RLIMIT_FSIZE, &old);
    signal (SIGXFSZ, sig);
    bool fits = all.empty () || limit >= total;
    std::string now = cli::read_file (path);
    Bytes full      = overwrite ? Bytes () : prior;
    full.insert (full.end (), all.begin (), all.end ());
    if (fits)
    {
      REQUIRE (s->wantrv >= 0 ? rv == s->wantrv : rv < 0, "write-count", "writing returns " << rv << " want " << s->wantrv);
      REQUIRE (same (now, full), "file-content", "the file holds " << diffpos (now, full));
    }
    else
    {
      REQUIRE (rv < 0, "failure-reported", "writing " << all.size () << " bytes returns " << rv << " although only " << now.size () << " of " << full.size () << " could be stored");
      REQUIRE (!lg::diag ().empty (), "error-message", "no message about the failure");
      REQUIRE (now.size () <= full.size () && now.size () >= std::min (from, limit) && same (now, Bytes (full.begin (), full.begin () + now.size ())), "file-content", "after the failure the file holds something else: " << diffpos (now, full));
      g.label ("no room");
      if (now.size () / 4096 != full.size () / 4096)
        g.label ("no room before the last block");
    }
  }
  else
  {
    switch (what)
    {
    case 1: path = "/dev/full"; break;
    case 2: path = scratch_dir () + "/no/such/place"; break;
    case 3: path = scratch_dir (); break;
    case 4: path = ""; break;
    }
    g.note ("write to " + path + "\n");
    rv = s->write (path.c_str (), overwrite);
    if (what == 1 && all.empty ())
      REQUIRE (rv == s->wantrv || (rv < 0 && s->wantrv < 0), "write-count", "writing nothing returns " << rv);
    else
    {
      REQUIRE (rv < 0, "failure-reported", "writing " << all.size () << " bytes to " << quote (path) << " returns " << rv);
      REQUIRE (!lg::diag ().empty (), "error-message", "no message about the failure");
    }
    g.label (what == 1 ? "full device" : "cannot be opened");
  }
  REQUIRE (s->state () == before, "source-changed", "writing changed its source");
  // and writing elsewhere is not affected
  std::string other = scratch_dir () + "/other";
  lg::reset ();
  rv = s->write (other.c_str (), 1);
  REQUIRE (s->wantrv >= 0 ? rv == s->wantrv : rv < 0, "write-count", "writing after the failure returns " << rv << ", want " << s->wantrv);
  REQUIRE (same (cli::read_file (other), all), "file-content", "the file written after the failure differs");
  s.reset ();
  mem::require_balanced ("writing");
  if (all.size ())
    g.nontrivial ();
}

// standard output, in a child whose output is a file
void
facet_stdout (Gen &g)
{
  std::vector<std::unique_ptr<Source>> ss;
  size_t n = (size_t)g.range (1, 3);
  Bytes want;
  for (size_t k = 0; k < n; k++)
  {
    ss.push_back (gen_source (g));
  }
  bool text = g.coin (), full = g.chance (1, 4);
  std::string path = full ? "/dev/full" : scratch_dir () + "/stdout";
  for (auto &s : ss)
  {
    Bytes b = s->bytes ();
    want.insert (want.end (), b.begin (), b.end ());
    if (text)
      want.push_back ('x');
  }
  g.note (fmt ("to %s%s\n", path.c_str (), text ? " with text in between" : ""));
  fflush (stdout);
  fflush (stderr);
  pid_t pid = fork ();
  if (pid < 0)
    fail ("harness", "fork");
  if (pid == 0)
  {
    int fd = open (path.c_str (), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dup2 (fd, 1);
    int bad = 0;
    for (auto &s : ss)
    {
      int64_t rv = s->write ("-", 0);
      if (full && !s->want.recs.empty () ? rv >= 0 : s->wantrv >= 0 ? rv != s->wantrv : rv >= 0)
        bad = 1;
      if (text && printf ("x") != 1)
        bad = 2;
      if (full)
        break;
    }
    if (fflush (stdout) && !full)
      bad = 3;
    _exit (bad);
  }
  int st;
  while (waitpid (pid, &st, 0) < 0 && errno == EINTR)
    ;
  REQUIRE (WIFEXITED (st), "stdout-crash", "writing to standard output ends the program with status " << st);
  REQUIRE (WEXITSTATUS (st) == 0, "stdout", (WEXITSTATUS (st) == 1 ? "a write returns something else than the number of records" : "standard output cannot be used after writing to it"));
  if (!full)
  {
    std::string now = cli::read_file (path);
    REQUIRE (same (now, want), "stdout", "standard output received " << diffpos (now, want));
  }
  g.label ("standard output");
  if (want.size ())
    g.nontrivial ();
}

} // namespace

namespace pbt {
Property property = {
    "P16",
    "A case is one to three sources (a record, or a trace list of several continuing or separate pieces, now and then one that cannot be packed) and up to seven writes of them to one or two files, appending or overwriting, over any content; or a write that runs out of room at a chosen byte or has no place to go; or writes to standard output. "
    "It is non-trivial if at least one record is written (two in histories).",
    {{"history", 60, facet_history}, {"faults", 35, facet_faults}, {"stdout", 5, facet_stdout}},
    std_reset,
    nullptr};
}
