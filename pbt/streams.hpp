// Reading a file of known records through every entry point, one call at a time
#pragma once
#include "files.hpp"
#include <memory>

namespace files {
struct Stream
{
  const File *f = nullptr;
  std::string name;
  uint32_t flags = 0;
  enum How { REENTRANT, GLOBAL, FD, SELECTION } how = REENTRANT;
  int64_t start = 0, end = 0;
  Sel sel;
  MS3Selections *selections = nullptr;
  MS3FileParam *msfp        = nullptr;
  MS3Record *msr            = nullptr;
  Want want;
  size_t at = 0;
  bool done = false;
  bool fails = false; // what is read breaks off
  bool bounded = false; // the end of the range is known
  std::string
  show () const
  {
    const char *hows[] = {"ms3_readmsr_r", "ms3_readmsr", "ms3_mstl_init_fd", "ms3_readmsr_selection"};
    return fmt ("%s flags %x from %lld to %lld as %s", hows[how], flags, (long long)start, (long long)end, pbt::quote (name).c_str ()) + (sel.on ? " selecting '" + sel.sid + "' " + (sel.from == NSTUNSET ? "" : tstr (sel.from)) + ".." + (sel.to == NSTUNSET ? "" : tstr (sel.to)) : "") + "\n";
  }
  int
  call (const char *path)
  {
    switch (how)
    {
    case GLOBAL: return ms3_readmsr (&msr, path, flags, 0);
    case SELECTION: return ms3_readmsr_selection (&msfp, &msr, path, flags, selections, 0);
    default: return ms3_readmsr_r (&msfp, &msr, path, flags, 0);
    }
  }
  void
  finish ()
  {
    if (how == GLOBAL || msfp)
    {
      int rv = call (nullptr);
      REQUIRE (rv == MS_NOERROR && !msr && !msfp, "cleanup", "the closing call returns " << rv << (msr ? ", the record is still there" : "") << (msfp ? ", the parameters are still there" : ""));
    }
    if (selections)
      ms3_freeselections (selections);
    selections = nullptr;
  }
};

inline void
check_record (const Stream &s, const MS3Record *m, const Item &it)
{
  const store::Rec &r = it.rec;
  REQUIRE (m, "record", "no record although the call succeeded");
  REQUIRE (m->reclen == (int)it.bytes.size (), "record", "length " << m->reclen << ", want " << it.bytes.size () << " for the record at " << it.off);
  REQUIRE (m->record && !memcmp (m->record, it.bytes.data (), it.bytes.size ()), "record-bytes", "the bytes of the record at " << it.off << " differ");
  REQUIRE (r.sid == m->sid && m->starttime == r.start && m->samplecnt == (int64_t)r.s.size () && m->formatversion == r.version && fabs (hz (m->samprate) - hz (r.rate)) < 1e-9, "record",
           "the record at " << it.off << " is read as " << m->sid << " " << tstr (m->starttime) << " " << m->samplecnt << " samples at " << m->samprate << ", want " << r.show ());
  if (s.flags & MSF_UNPACKDATA)
    REQUIRE (m->numsamples == m->samplecnt && (r.s.size () == 0 || m->sampletype == r.s.type) && r.s.same (m->datasamples, (size_t)m->numsamples), "record-samples", "samples of the record at " << it.off << " differ: " << m->numsamples << " of type " << m->sampletype << ", want " << r.s.show ());
  else
    REQUIRE (m->numsamples == 0, "record-samples", "samples without asking for them");
}

// one call
inline void
step (Gen &g, Stream &s)
{
  int rv   = s.call (s.name.c_str ());
  size_t k = s.at;
  if (rv == MS_NOERROR)
  {
    // records that are not wholly in the range may be left out
    while (k < s.want.recs.size () && s.want.optional[k] && (!s.msr || s.msr->reclen != (int)s.want.recs[k]->bytes.size ()))
      k++;
    REQUIRE (k < s.want.recs.size (), "extra-record", s.show () << "a record of " << s.msr->reclen << " bytes for " << s.msr->sid << " is returned after the last");
    check_record (s, s.msr, *s.want.recs[k]);
    const Item &it = *s.want.recs[k];
    if (s.msfp)
      REQUIRE (s.msfp->streampos == s.f->base + (int64_t)(it.off + it.bytes.size ()), "position", "the position after the record at " << it.off << " of " << it.bytes.size () << " bytes is " << s.msfp->streampos);
    s.at = k + 1;
    return;
  }
  while (k < s.want.recs.size () && s.want.optional[k])
    k++;
  if (s.fails)
  {
    REQUIRE (rv < 0 || (rv == MS_ENDOFFILE && k == s.want.recs.size () && s.bounded), "unreported-failure", s.show () << "a transfer that breaks off ends with " << rv << " after " << s.at << " of " << s.want.recs.size () << " records " << lg::diag ());
    REQUIRE (!s.msr, "record-at-end", "a record is left although the call returns " << rv);
    s.done = true;
    return;
  }
  std::string codes;
  for (int c : s.want.codes)
    codes += fmt (" %d", c);
  REQUIRE (k == s.want.recs.size (), "lost-record", s.show () << "reading ends with " << rv << " before the record at " << s.want.recs[k]->off << " " << lg::diag ());
  REQUIRE (s.want.codes.count (rv), "end-code", s.show () << "reading ends with " << rv << ", want" << codes << " " << lg::diag ());
  REQUIRE (!s.msr, "record-at-end", "a record is left although the call returns " << rv);
  if (s.msfp && rv != MS_ENDOFFILE && rv != MS_NOTSEED && s.want.endoff != SIZE_MAX)
    REQUIRE (s.msfp->streampos == s.f->base + (int64_t)s.want.endoff, "position", "the position at the error is " << s.msfp->streampos << ", want " << s.f->base + (int64_t)s.want.endoff);
  s.done = true;
  (void)g;
}

inline void
gen_selection (Gen &g, Stream &s, const File &f)
{
  if (s.how == Stream::SELECTION && g.chance (3, 4))
  {
    s.sel.on = true;
    std::vector<const store::Rec *> rs;
    for (auto &it : f.items)
      if (it.kind == Item::RECORD)
        rs.push_back (&it.rec);
    if (rs.size ())
    {
      const store::Rec *r = g.pick (rs);
      if (g.coin ())
        s.sel.sid = r->sid;
      int64_t a = r->start + sample_span (r->rate, g.range (-20, 20)), b = g.pick (rs)->start + sample_span (r->rate, g.range (-20, 20));
      if (a > b)
        std::swap (a, b);
      if (g.coin ())
        s.sel.from = a;
      if (g.coin ())
        s.sel.to = b;
    }
    int rv = ms3_addselect (&s.selections, s.sel.sid.empty () ? "*" : s.sel.sid.c_str (), s.sel.from, s.sel.to, 0);
    REQUIRE (rv == 0, "harness", "ms3_addselect");
  }
}

inline void
run_streams (Gen &g, std::vector<std::unique_ptr<Stream>> &ss)
{
  size_t open = ss.size (), got = 0;
  while (open)
  {
    Stream &s = *ss[g.index (ss.size ())];
    if (s.done)
    {
      for (auto &x : ss)
        if (!x->done)
        {
          step (g, *x);
          open -= x->done;
          break;
        }
      continue;
    }
    step (g, s);
    got++;
    open -= s.done;
    if (s.done && s.fails && g.coin ())
      REQUIRE (s.call (s.name.c_str ()) != MS_NOERROR, "after-failure", "a record is returned after a failure");
    if (s.done && !s.fails && s.want.codes.count (MS_ENDOFFILE) && g.coin ())
    {
      int rv = s.call (s.name.c_str ());
      REQUIRE (rv < 0 || rv == MS_ENDOFFILE, "after-end", "another call after the end returns " << rv);
      REQUIRE (s.want.codes.count (rv), "after-end", "another call after the end returns " << rv);
    }
  }
  for (auto &s : ss)
    s->finish ();
  if (got > ss.size () + 1)
    g.nontrivial ();
}

} // namespace files
