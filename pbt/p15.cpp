// P15: reading a file returns exactly its records, whatever the layout
#include "streams.hpp"
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace pbt;
using namespace files;

namespace {
void
open_stream (Gen &g, Stream &s, const File &f, bool ranges, bool canglobal)
{
  s.f     = &f;
  s.name  = f.path;
  s.flags = (g.coin () ? MSF_UNPACKDATA : 0) | (g.coin () ? MSF_VALIDATECRC : 0) | (g.chance (2, 3) ? MSF_SKIPNOTDATA : 0);
  s.how   = (Stream::How)g.weighted ({4, canglobal ? 2 : 0, f.base ? 0 : 2, 2});
  if (s.how == Stream::FD)
  {
    int fd = open (f.path.c_str (), O_RDONLY);
    REQUIRE (fd >= 0, "harness", "open");
    s.msfp = ms3_mstl_init_fd (fd);
    REQUIRE (s.msfp, "init-fd", "ms3_mstl_init_fd fails: " << lg::diag ());
    s.name = g.coin () ? "fd" : f.path;
  }
  else if (f.base || (ranges && g.coin ()))
  {
    if (ranges)
      gen_range (g, f, s.start, s.end);
    s.flags |= MSF_PNAMERANGE;
    s.name += "@";
    if (f.base && s.end > INT64_MAX - f.base)
      s.end = 0;
    if (f.base)
      s.name += std::to_string (f.base + s.start);
    else if (s.start || g.coin ())
      s.name += std::string (g.raw (3), '0') + std::to_string (s.start);
    else if (!s.end)
      s.name += "0";
    if (s.end && f.base)
      s.name += "-" + std::to_string (f.base + s.end);
    else if (s.end)
      s.name += "-" + (s.end == INT64_MAX && g.coin () ? g.pick<std::string> ({"9223372036854775808", "18446744073709551615", "18446744073709551617", "99999999999999999999"}) : std::string (g.raw (2), '0') + std::to_string (s.end));
    else if (g.chance (1, 3))
      s.name += "-";
  }
  else if (g.chance (1, 3))
    s.flags |= MSF_PNAMERANGE;
  if (s.how != Stream::FD && g.chance (1, 12))
    s.name = g.pick<const char *> ({"file://", "file://", "FILE://", "File://"}) + s.name;
  gen_selection (g, s, f);
  s.want = expect (f, s.flags, s.start, s.end, s.sel);
  g.note (s.show ());
  g.label (s.how == Stream::FD ? "descriptor" : s.how == Stream::GLOBAL ? "global" : s.how == Stream::SELECTION ? "selection" : "re-entrant");
  if (s.start || s.end)
    g.label ("byte range");
}

// ------------------------------------------------------------ facets
void
facet_records (Gen &g)
{
  std::vector<std::unique_ptr<File>> files;
  std::vector<std::unique_ptr<Stream>> ss;
  size_t nf = 1 + (g.chance (1, 5) ? g.range (1, 2) : 0);
  for (size_t k = 0; k < nf; k++)
  {
    FileOpt o;
    o.far      = g.chance (1, 10);
    o.dataless = g.chance (1, 4);
    files.emplace_back (new File (gen_file (g, scratch_dir () + fmt ("/file%zu", k), o)));
    g.note (files.back ()->show ());
    label_file (g, *files.back ());
  }
  if (g.chance (1, 6))
    libmseed_prealloc_block_size = g.pick<size_t> ({16, 100, 4096});
  size_t ns   = nf > 1 ? nf + g.raw (2) : 1;
  bool global = false;
  for (size_t k = 0; k < ns; k++)
  {
    ss.emplace_back (new Stream);
    open_stream (g, *ss.back (), *files[k % nf], true, !global);
    global |= ss.back ()->how == Stream::GLOBAL;
  }
  if (ns > 1)
    g.label ("several streams");
  run_streams (g, ss);
  mem::require_balanced ("reading");
  // nothing is left of it for the next
  if (g.chance (1, 4))
  {
    ss.clear ();
    ss.emplace_back (new Stream);
    open_stream (g, *ss[0], *files[0], true, true);
    if (global && ss[0]->how == Stream::REENTRANT)
      ss[0]->how = Stream::GLOBAL;
    run_streams (g, ss);
    mem::require_balanced ("reading again");
    g.label ("read again");
  }
}

void
facet_buffer (Gen &g)
{
  FileOpt o;
  int64_t edge = (int64_t)MAXRECLEN * (g.chance (1, 6) ? 2 : 1);
  if (g.chance (1, 4)) // the longest record
    o.giant = (size_t)(MAXRECLEN - g.pick<int64_t> ({0, 0, 1, -1, g.range (0, 200)}));
  else
    o.big = (size_t)(edge - g.pick<int64_t> ({g.range (0, 3000), g.range (0, 140), 0, 39, 40, 41, 1}));
  File f       = gen_file (g, scratch_dir () + "/file", o);
  g.note (f.show ());
  label_file (g, f);
  g.label ("longer than the read buffer");
  std::vector<std::unique_ptr<Stream>> ss;
  ss.emplace_back (new Stream);
  open_stream (g, *ss[0], f, g.chance (1, 4), true);
  run_streams (g, ss);
  g.nontrivial ();
  mem::require_balanced ("reading");
}

void
facet_tracelist (Gen &g)
{
  FileOpt o;
  o.far      = g.chance (1, 8);
  o.dataless = g.chance (1, 4);
  File f     = gen_file (g, scratch_dir () + "/file", o);
  g.note (f.show ());
  label_file (g, f);
  Stream s;
  s.how = Stream::SELECTION;
  s.f   = &f;
  s.name  = f.path;
  s.flags = (g.coin () ? MSF_UNPACKDATA : 0) | (g.coin () ? MSF_VALIDATECRC : 0) | (g.chance (3, 4) ? MSF_SKIPNOTDATA : 0);
  bool reclist = g.coin (), split = g.coin ();
  if (f.base || g.chance (1, 3))
  {
    if (!f.base || g.coin ())
      gen_range (g, f, s.start, s.end);
    if (s.end > INT64_MAX - f.base)
      s.end = 0;
    s.flags |= MSF_PNAMERANGE;
    s.name += "@" + std::to_string (f.base + s.start) + (s.end ? "-" + std::to_string (f.base + s.end) : "");
  }
  int api = (int)g.raw (3); // readtracelist, timewin, selection
  std::vector<const store::Rec *> rs;
  for (auto &it : f.items)
    if (it.kind == Item::RECORD)
      rs.push_back (&it.rec);
  if (api > 0)
  {
    s.sel.on = true;
    if (rs.size ())
    {
      const store::Rec *r = g.pick (rs);
      if (api == 2 && g.coin ())
        s.sel.sid = r->sid;
      int64_t a = r->start + sample_span (r->rate, g.range (-20, 20)), b = g.pick (rs)->start + sample_span (r->rate, g.range (-20, 20));
      s.sel.from = g.coin () ? NSTUNSET : std::min (a, b);
      s.sel.to   = g.coin () ? NSTUNSET : std::max (a, b);
    }
    ms3_addselect (&s.selections, s.sel.sid.empty () ? "*" : s.sel.sid.c_str (), s.sel.from, s.sel.to, 0);
  }
  s.want = expect (f, s.flags, s.start, s.end, s.sel);
  for (size_t k = 0; k < s.want.recs.size (); k++)
    if (s.want.optional[k] || s.want.recs[k]->rec.enc < 0)
      DISCARD ();
  g.note (s.show ());
  tl::List a, b;
  uint32_t lflags = s.flags | (reclist ? MSF_RECORDLIST : 0);
  int rv = api == 0 ? ms3_readtracelist (&a.p, s.name.c_str (), nullptr, split, lflags, 0) : api == 1 ? ms3_readtracelist_timewin (&a.p, s.name.c_str (), nullptr, s.sel.from, s.sel.to, split, lflags, 0) : ms3_readtracelist_selection (&a.p, s.name.c_str (), nullptr, s.selections, split, lflags, 0);
  bool good = false;
  for (int c : s.want.codes)
    good |= rv == (c == MS_ENDOFFILE ? MS_NOERROR : c);
  REQUIRE (good, "list-code", "reading into a list returns " << rv << ", reading by record ends with " << *s.want.codes.begin () << " " << lg::diag ());
  b.p = mstl3_init (nullptr);
  for (auto *it : s.want.recs)
  {
    MS3Record *m = nullptr;
    Buf buf (it->bytes, 0);
    // the end of a record without blockette 1000 is not in its own bytes
    Bytes more = it->bytes;
    more.insert (more.end (), f.bytes.begin () + it->off + it->bytes.size (), f.bytes.begin () + std::min (f.bytes.size (), it->off + it->bytes.size () + 64));
    Buf mb (more, 0);
    int prv = it->rec.b1000 ? msr3_parse ((const char *)buf.p, buf.n, &m, s.flags & MSF_UNPACKDATA, 0) : msr3_parse ((const char *)mb.p, mb.n, &m, s.flags & MSF_UNPACKDATA, 0);
    REQUIRE (prv == 0 && m, "harness", "parsing the record at " << it->off << " gives " << prv);
    MS3TraceSeg *seg = mstl3_addmsr (b.p, m, split, 1, 0, nullptr);
    msr3_free (&m);
    if (!seg)
      DISCARD ();
  }
  std::vector<tl::Trace> ta = tl::read (a.p), tb = tl::read (b.p);
  std::string why;
  REQUIRE (tl::same (ta, tb, why), "list-content", "the list read from the file and the list of its records differ: " << why);
  size_t entries = 0;
  for (auto &t : ta)
    for (auto &seg : t.segs)
      for (auto *p : seg.recs)
      {
        entries++;
        const Item *it = nullptr;
        for (auto *w : s.want.recs)
          if (f.base + (int64_t)w->off == p->fileoffset)
            it = w;
        REQUIRE (it, "list-entry", "an entry for offset " << p->fileoffset << " where no record is");
        REQUIRE (p->filename && s.name == p->filename && !p->bufferptr && !p->fileptr, "list-entry", "the entry names " << (p->filename ? p->filename : "no file"));
        REQUIRE ((it->rec.s.size () == 0 || p->dataoffset == it->rec.dataoff) && p->msr && p->msr->reclen == (int)it->bytes.size (), "list-entry", "data offset " << p->dataoffset << ", want " << it->rec.dataoff);
      }
  REQUIRE (entries == (reclist ? s.want.recs.size () : 0), "list-entry", entries << " entries for " << s.want.recs.size () << " records");
  s.finish ();
  if (s.want.recs.size () > 1)
    g.nontrivial ();
  g.label (api == 0 ? "readtracelist" : api == 1 ? "readtracelist_timewin" : "readtracelist_selection");
}

// what cannot be read
void
facet_errors (Gen &g)
{
  Stream s;
  s.how   = (Stream::How)g.weighted ({3, 2, 0, 2});
  s.flags = (g.coin () ? MSF_UNPACKDATA : 0) | (g.coin () ? MSF_SKIPNOTDATA : 0);
  int what = (int)g.raw (6);
  File f   = gen_file (g, scratch_dir () + "/file", FileOpt ());
  int rv   = 0;
  std::string name;
  bool generic = false;
  switch (what)
  {
  case 0: // no such file
    name    = scratch_dir () + "/" + g.str ("abc@-:1", 1, 20) + "x";
    generic = true;
    if (g.coin ())
      s.flags |= MSF_PNAMERANGE;
    break;
  case 1:
    name    = scratch_dir ();
    generic = true;
    break;
  case 2: // too long a path
    name    = scratch_dir () + "/";
    while (name.size () < (size_t)511 + g.raw (400) || name.size () < 512)
      name += "./";
    name += "file";
    generic = true;
    break;
  case 3: // a URL without support for it
    name    = g.pick<std::string> ({"http://localhost/x", "https://a.b/c@1-2", "ftp://x/y"});
    generic = true;
    break;
  case 4: // a start beyond the end
    name = f.path + "@" + g.pick<std::string> ({std::to_string (f.bytes.size () + g.range (0, 100000)), "9223372036854775807", "9223372036854775808", "18446744073709551615", "99999999999999999999", "18446744073709551616"}) + (g.coin () ? "-" : "");
    s.flags |= MSF_PNAMERANGE;
    break;
  case 5: // not a range: the name of a file
    name = f.path + g.pick<std::string> ({"@x", "@1-2-3", "@1x", "@--", "@1 ", "@123456789012345678901", "@1-123456789012345678901", "@1/"});
    s.flags |= MSF_PNAMERANGE;
    generic = true;
    break;
  }
  g.note ("read " + quote (name) + "\n");
  bool list = g.chance (1, 3);
  tl::List l;
  if (list)
    rv = ms3_readtracelist (&l.p, name.c_str (), nullptr, 0, s.flags, 0);
  else
  {
    s.name = name;
    for (int k = 0; k < 2; k++)
    {
      rv = s.call (name.c_str ());
      REQUIRE (!s.msr, "record-of-nothing", "a record is returned for " << quote (name));
      REQUIRE (rv < 0, "error-code", "call " << k << " reading " << quote (name) << " returns " << rv);
      if (k == 0)
        REQUIRE (generic ? rv == MS_GENERROR : rv == MS_GENERROR || rv == MS_NOTSEED, "error-code", "reading " << quote (name) << " returns " << rv);
    }
    s.finish ();
  }
  REQUIRE (generic ? rv == MS_GENERROR : rv == MS_GENERROR || rv == MS_NOTSEED, "error-code", "reading " << quote (name) << " returns " << rv);
  REQUIRE (!lg::diag ().empty (), "error-message", "no message about " << quote (name));
  g.nontrivial ();
}

// a file name with an @ that is not a range
void
facet_names (Gen &g)
{
  File f = gen_file (g, scratch_dir () + "/" + g.pick<std::string> ({"a@b", "@", "a@1-2-3", "a@12x", "a@1b", "x@1@y", "a-b@c-d", " f", "f ", "-", "a:b", "a@1:2", "%s%n", "a@123456789012345678901"}), FileOpt ());
  g.note (quote (f.path) + " " + f.show ());
  Stream s;
  s.f     = &f;
  s.name  = f.path;
  bool at = f.path.size () > 0 && f.path.back () == '@';
  s.flags = (g.coin () ? MSF_SKIPNOTDATA : 0) | (at ? 0 : MSF_PNAMERANGE);
  if (g.coin ())
  {
    gen_range (g, f, s.start, s.end);
    s.flags |= MSF_PNAMERANGE;
    s.name += "@" + std::to_string (s.start) + (s.end ? "-" + std::to_string (s.end) : "");
  }
  s.want = expect (f, s.flags, s.start, s.end, s.sel);
  g.note (s.show ());
  while (!s.done)
    step (g, s);
  s.finish ();
  unlink (f.path.c_str ());
  g.nontrivial ();
  mem::require_balanced ("reading");
}

} // namespace

namespace pbt {
Property property = {
    "P15",
    "A case is a file of generated records of both versions and many encodings, with bytes that are no record between them, records with a wrong CRC, headers of too long records and a record cut off at the end, read by record through every entry point, from any byte range, with one to three streams interleaved, or into a trace list, or past the end of the 10 MiB read buffer; "
    "or something that cannot be read. It is non-trivial if at least two records are returned, or an unreadable thing or unusual name was asked for.",
    {{"records", 60, facet_records}, {"tracelist", 25, facet_tracelist}, {"errors", 8, facet_errors}, {"names", 6, facet_names}, {"buffer", 1, facet_buffer}},
    std_reset,
    nullptr};
}
