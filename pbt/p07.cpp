// P07: trace lists hold every added record once, joined exactly when contiguous
#include "tl.hpp"
using namespace pbt;

namespace {
double g_ttol = -1, g_rtol = -1;
double time_cb (const MS3Record *) { return g_ttol; }
double rate_cb (const MS3Record *) { return g_rtol; }

struct Rec
{
  std::string sid;
  int pub = 1;
  int64_t start = 0, end = 0, n = 0;
  double rate = 1;
  char type = 'i';
  std::string data;
};

struct MSeg
{
  int64_t start, end;
  double rate;
  int64_t count;
  std::string data;
  char type;
  std::vector<int> recs; // in time order of joining
};

bool
seg_before (const MSeg &a, const MSeg &b)
{
  if (a.start != b.start) return a.start < b.start;
  if (a.end != b.end) return a.end > b.end;
  if (a.data != b.data) return a.data < b.data;
  if (a.count != b.count) return a.count < b.count;
  return a.rate < b.rate;
}

struct MTrace
{
  std::string sid;
  int pub;
  int64_t earliest, latest;
  std::vector<MSeg> segs;
};

// samples that no other record of the case has
std::string
unique_data (char type, int64_t n, uint32_t &counter)
{
  std::string d;
  for (int64_t k = 0; k < n; k++)
  {
    counter++;
    int32_t i = (int32_t)counter;
    float f   = counter * 0.5f;
    double x  = counter * 0.25;
    if (type == 'i') d.append ((char *)&i, 4);
    if (type == 'f') d.append ((char *)&f, 4);
    if (type == 'd') d.append ((char *)&x, 8);
    if (type == 't') d += (char)(1 + counter % 255);
  }
  return d;
}

struct Config
{
  bool heal, split, nodata, reclist, mixed, tol, ttol, rtol;
};

int64_t
period_of (double rate)
{
  if (rate == 0)
    return 0;
  return rate > 0 ? (int64_t)(1e9 / rate + 0.5) : (int64_t)(1e9 * -rate + 0.5);
}
double
hz0 (double r)
{
  return r == 0 ? 0 : hz (r);
}
bool
similar (const Config &c, double a, double b)
{
  return c.rtol ? fabs (a - b) <= g_rtol : fabs (1.0 - a / b) < 0.0001;
}

struct World
{
  Config c;
  std::vector<MTrace> traces;
  std::vector<Rec> recs;
  uint32_t counter = 0;
};

Config
gen_config (Gen &g)
{
  Config c;
  c.heal    = g.coin ();
  c.split   = g.chance (1, 3);
  c.nodata  = g.chance (1, 6);
  c.reclist = g.chance (1, 3);
  c.mixed   = c.reclist && g.chance (1, 4); // only some records go to the record lists
  c.ttol    = g.chance (1, 3);
  c.rtol    = g.chance (1, 3);
  c.tol     = c.ttol || c.rtol || g.chance (1, 8);
  g_ttol    = c.ttol ? g.pick<int> ({0, 1, 5, 100, 512, 1024, 7000}) / 512.0 : -1;
  g_rtol    = c.rtol ? g.pick<double> ({0.001, 0.3, 2.5, 50.3}) : -1;
  libmseed_prealloc_block_size = g.chance (1, 4) ? g.pick<size_t> ({16, 100, 4096}) : 0;
  g.note (fmt ("heal=%d split=%d nodata=%d reclist=%d%s ttol=%.10g rtol=%g prealloc=%zu\n", c.heal, c.split, c.nodata, c.reclist, c.mixed ? "(some)" : "", g_ttol, g_rtol, libmseed_prealloc_block_size));
  return c;
}

int64_t
tol_of (const Config &c, int64_t period)
{
  return c.ttol ? (int64_t)(1e9 * g_ttol) : period / 2;
}

// the record as the library gets it
void
fill (const Rec &r, const Config &c, MS3Record &m)
{
  memset (&m, 0, sizeof m);
  snprintf (m.sid, sizeof m.sid, "%s", r.sid.c_str ());
  m.formatversion = 3;
  m.pubversion    = r.pub;
  m.starttime     = r.start;
  m.samprate      = r.rate;
  m.samplecnt     = r.n;
  m.encoding      = -1;
  m.sampletype    = r.type;
  if (r.n == 0)
    m.sampletype = 0; // as the parser leaves it
  else if (!c.nodata)
  {
    m.numsamples  = r.n;
    m.datasamples = const_cast<char *> (r.data.data ());
    m.datasize    = r.data.size ();
  }
  else
    m.sampletype = 0;
}

int64_t
join (int64_t a, int64_t b)
{
  return a - b;
}

// check one trace of the library against one candidate of the model
bool
matches (const std::vector<MSeg> &want, const std::vector<tl::Seg> &got, const Config &c, const std::vector<Rec> &recs, std::string *why)
{
  if (want.size () != got.size ())
  {
    if (why) *why = fmt ("%zu segments, want %zu", got.size (), want.size ());
    return false;
  }
  // both sorted completely
  std::vector<MSeg> w = want;
  std::vector<const tl::Seg *> h;
  for (auto &s : got)
    h.push_back (&s);
  std::sort (w.begin (), w.end (), seg_before);
  std::sort (h.begin (), h.end (), [] (const tl::Seg *a, const tl::Seg *b) {
    MSeg x{a->start, a->end, a->rate, a->count, a->data, a->type, {}}, y{b->start, b->end, b->rate, b->count, b->data, b->type, {}};
    return seg_before (x, y);
  });
  for (size_t k = 0; k < w.size (); k++)
  {
    const MSeg &a    = w[k];
    const tl::Seg &b = *h[k];
    bool ok          = a.start == b.start && a.end == b.end && a.rate == b.rate && a.count == b.count && a.data == b.data && b.num == (c.nodata ? 0 : a.count) && (c.nodata || a.type == b.type);
    if (!ok)
    {
      if (why)
      {
        tl::Seg x;
        x.start = a.start; x.end = a.end; x.rate = a.rate; x.count = a.count; x.data = a.data; x.type = a.type; x.num = c.nodata ? 0 : a.count;
        *why = "segment " + b.show () + " want " + x.show ();
      }
      return false;
    }
    if (c.reclist)
    {
      bool same = b.recs.size () == a.recs.size ();
      for (size_t r = 0; same && r < a.recs.size (); r++)
      {
        const Rec &x          = recs[a.recs[r]];
        const MS3RecordPtr *p = b.recs[r];
        same                  = p->msr && x.sid == p->msr->sid && x.start == p->msr->starttime && x.rate == p->msr->samprate && x.n == p->msr->samplecnt && x.pub == p->msr->pubversion && x.end == p->endtime && !p->msr->datasamples;
      }
      if (!same)
      {
        if (c.nodata || a.count == 0)
          continue; // equal records cannot be told apart
        if (why) *why = fmt ("record list of %zu entries, want %zu, or out of order", b.recs.size (), a.recs.size ());
        return false;
      }
    }
  }
  return true;
}

bool g_listed; // does the record being added go to the record list?

MSeg
as_seg (const Rec &r, int idx, const Config &c)
{
  MSeg s = {r.start, r.end, hz0 (r.rate), r.n, c.nodata ? std::string () : r.data, r.type, {}};
  if (g_listed)
    s.recs.push_back (idx);
  return s;
}

void
append (MSeg &s, const Rec &r, int idx, const Config &c)
{
  s.end = r.end;
  s.count += r.n;
  if (!c.nodata) s.data += r.data;
  if (g_listed)
    s.recs.push_back (idx);
}
void
prepend (MSeg &s, const Rec &r, int idx, const Config &c)
{
  s.start = r.start;
  s.count += r.n;
  if (!c.nodata) s.data = r.data + s.data;
  if (g_listed)
    s.recs.insert (s.recs.begin (), idx);
}

int n_joined, n_healed;

// add the last record of w to the model and the library, and compare
void
add (World &w, MS3TraceList *l, Gen &g)
{
  const Config &c = w.c;
  int idx         = (int)w.recs.size () - 1;
  Rec &r          = w.recs[idx];
  MS3Record m;
  fill (r, c, m);
  std::string keep ((char *)&m, sizeof m);
  r.end = msr3_endtime (&m);
  if (r.n == 0)
    REQUIRE (r.end == r.start, "endtime", "end of a record without samples " << tstr (r.end));
  else if (r.rate != 0)
    REQUIRE (time_ok (r.start, r.rate, r.n - 1, r.end), "endtime", "record end " << tstr (r.end));
  MS3Tolerance tol;
  tol.time     = c.ttol ? time_cb : nullptr;
  tol.samprate = c.rtol ? rate_cb : nullptr;
  MS3RecordPtr *rp = nullptr;
  g_listed         = c.reclist && !(c.mixed && g.coin ());
  MS3TraceSeg *seg = mstl3_addmsr_recordptr (l, &m, g_listed ? &rp : nullptr, c.split, c.heal, 0, c.tol ? &tol : nullptr);
  REQUIRE (seg, "add", "mstl3_addmsr returns NULL; " << lg::diag ());
  if (g_listed)
    REQUIRE (rp && rp->msr && r.sid == rp->msr->sid && rp->msr->starttime == r.start && rp->endtime == r.end, "record-pointer", "the record pointer returned is not that of the record");
  REQUIRE (std::string ((char *)&m, sizeof m) == keep, "record-changed", "the added record was modified");

  MTrace *t = nullptr;
  for (auto &x : w.traces)
    if (x.sid == r.sid && (!c.split || x.pub == r.pub))
      t = &x;
  std::vector<std::vector<MSeg>> cand;
  if (!t)
  {
    w.traces.push_back ({r.sid, r.pub, r.start, r.end, {}});
    t = &w.traces.back ();
    cand.push_back ({as_seg (r, idx, c)});
  }
  else
  {
    t->pub       = std::max (t->pub, r.pub);
    t->earliest  = std::min (t->earliest, r.start);
    t->latest    = std::max (t->latest, r.end);
    int64_t per  = period_of (r.rate), tol = tol_of (c, per);
    std::vector<size_t> B, A;
    bool exact = false;
    for (size_t k = 0; k < t->segs.size (); k++)
    {
      const MSeg &s = t->segs[k];
      if ((s.count > 0) != (r.n > 0))
        continue; // a record without samples neither continues data nor is continued by them
      if (s.start == r.start && s.end == r.end)
        exact = true;
      if (!similar (c, hz0 (r.rate), s.rate))
        continue;
      if (llabs (r.start - s.end - per) <= tol)
        B.push_back (k);
      if (llabs (s.start - r.end - per) <= tol)
        A.push_back (k);
    }
    bool both = c.heal && B.size () && A.size ();
    bool twice = false;
    for (size_t b : B)
      if (std::find (A.begin (), A.end (), b) != A.end ())
        twice = true; // a segment that ends before it starts, after joins across large tolerances
    bool must = both && !twice && 2 * tol < r.end - r.start + 2 * per; // no way that the two orders get mixed
    if (both)
    {
      for (size_t b : B)
        for (size_t a : A)
          if (a != b)
          {
            std::vector<MSeg> n = t->segs;
            append (n[b], r, idx, c);
            n[b].end = n[a].end;
            n[b].count += n[a].count;
            n[b].data += n[a].data;
            n[b].recs.insert (n[b].recs.end (), n[a].recs.begin (), n[a].recs.end ());
            n.erase (n.begin () + a);
            cand.push_back (n);
          }
    }
    if (!must || exact)
    {
      for (size_t b : B)
      {
        std::vector<MSeg> n = t->segs;
        append (n[b], r, idx, c);
        cand.push_back (n);
      }
      for (size_t a : A)
      {
        std::vector<MSeg> n = t->segs;
        prepend (n[a], r, idx, c);
        cand.push_back (n);
      }
    }
    if (cand.empty () || (c.heal && exact))
    {
      std::vector<MSeg> n = t->segs;
      n.push_back (as_seg (r, idx, c));
      cand.push_back (n);
    }
    if (B.size () || A.size ())
      n_joined++, g.label ("joined");
    if (must)
      n_healed++, g.label ("bridged");
  }
  std::vector<tl::Trace> ts = tl::read (l);
  const tl::Trace *lt       = tl::find (ts, r.sid, c.split ? r.pub : -1);
  REQUIRE (lt, "trace-missing", "no trace for " << r.sid << " after adding a record");
  std::string why;
  bool found = false;
  for (auto &n : cand)
    if (matches (n, lt->segs, c, w.recs, &why))
    {
      t->segs = n;
      found   = true;
      break;
    }
  if (!found)
  {
    std::string list;
    for (auto &s : lt->segs)
      list += "\n  " + s.show ();
    pbt::fail ("segments", fmt ("after adding record %d, none of %zu allowed results: ", idx, cand.size ()) + why + "; segments now:" + list);
  }
  REQUIRE (lt->pubversion == t->pub, "pubversion", "trace version " << lt->pubversion << " want " << t->pub);
  REQUIRE (lt->earliest == t->earliest && lt->latest == t->latest, "coverage", "trace covers " << tstr (lt->earliest) << " - " << tstr (lt->latest) << " want " << tstr (t->earliest) << " - " << tstr (t->latest));
  // nothing else changed
  REQUIRE (ts.size () == w.traces.size (), "trace-count", ts.size () << " traces, want " << w.traces.size ());
  bool got = false;
  for (auto &s : lt->segs)
    if (s.start == seg->starttime && s.end == seg->endtime && s.count == seg->samplecnt)
      got = true;
  REQUIRE (got, "returned-segment", "the returned segment is not in the trace");
}

void
check_all (World &w, MS3TraceList *l, Gen &g)
{
  std::vector<tl::Trace> ts = tl::read (l);
  REQUIRE (ts.size () == w.traces.size (), "trace-count", ts.size () << " traces, want " << w.traces.size ());
  for (auto &t : w.traces)
  {
    const tl::Trace *lt = tl::find (ts, t.sid, w.c.split ? t.pub : -1);
    REQUIRE (lt, "trace-missing", "no trace for " << t.sid);
    std::string why;
    REQUIRE (matches (t.segs, lt->segs, w.c, w.recs, &why), "segments", t.sid << " at the end: " << why);
    MS3TraceID *prev[MSTRACEID_SKIPLIST_HEIGHT];
    MS3TraceID *f = mstl3_findID (l, t.sid.c_str (), w.c.split ? (uint8_t)t.pub : 0, g.coin () ? prev : nullptr);
    REQUIRE (f && t.sid == f->sid && (!w.c.split || !t.pub || f->pubversion == t.pub), "find", "mstl3_findID does not find " << t.sid << " version " << t.pub);
    if (!w.c.split)
    {
      f = mstl3_findID (l, t.sid.c_str (), (uint8_t)t.pub, nullptr);
      REQUIRE (!t.pub || (f && t.sid == f->sid), "find", "mstl3_findID does not find " << t.sid << " version " << t.pub);
    }
    // identifiers and versions that are not there
    std::string other = t.sid;
    switch (g.raw (4))
    {
    case 0: other += "A"; break;
    case 1: other = other.substr (0, other.size () ? other.size () - 1 : 0); break;
    case 2:
      if (other.size ())
        other[g.index (other.size ())] ^= 1;
      break;
    default: other = gen_sid (g, false);
    }
    if (!tl::find (ts, other))
      REQUIRE (!mstl3_findID (l, other.c_str (), 0, nullptr), "find", "mstl3_findID finds " << other << ", which was never added");
    int ov = 1 + (int)g.raw (255);
    if (!tl::find (ts, t.sid, ov))
      REQUIRE (!mstl3_findID (l, t.sid.c_str (), (uint8_t)ov, nullptr), "find", "mstl3_findID finds " << t.sid << " in version " << ov);
  }
}

// a time at which nothing overflows, away from the end of what leap second lists do
int64_t
gen_base (Gen &g)
{
  return gen_time (g, 60);
}

double
gen_simple_rate (Gen &g)
{
  return g.pick<double> ({1, 100, 20, 40, 0.1, -10, -1, 3.7, 1000, 250000, -3600, 62.5, -0.3, 31.25});
}

void
show (Gen &g, const Rec &r, size_t k)
{
  g.note (fmt ("%zu: %s v%d %s n=%lld rate=%.14g\n", k, r.sid.c_str (), r.pub, tstr (r.start).c_str (), (long long)r.n, r.rate));
}
} // namespace

static std::vector<std::string>
gen_sids (Gen &g, size_t n)
{
  std::vector<std::string> sids;
  while (sids.size () < n)
  {
    std::string s = gen_sid (g, false);
    if (sids.size () && g.coin ())
    {
      // close to an existing one
      s = sids[g.index (sids.size ())];
      switch (g.raw (3))
      {
      case 0: if (s.size () > 12) s.resize (s.size () - 1); break;
      case 1: if (s.size () < 62) s += g.pick<char> ({'A', '0', '_', 'z'}); break;
      default:
        if (s.size ())
          s[g.index (s.size ())] ^= (char)(1 + g.raw (3));
        break;
      }
      if (s.find ('\0') != std::string::npos)
        continue;
    }
    if (std::find (sids.begin (), sids.end (), s) != sids.end ())
      s = fmt ("FDSN:Q%zu", sids.size ());
    if (s.size () < 64)
      sids.push_back (s);
  }
  return sids;
}

static void
history (Gen &g)
{
  World w;
  w.c       = gen_config (g);
  n_joined = n_healed = 0;
  size_t nids = g.weighted ({0, 5, 3, 1, 1});
  std::vector<std::string> sids = gen_sids (g, nids);
  std::vector<double> rates;
  std::vector<int64_t> bases;
  std::vector<char> types;
  int64_t base = gen_base (g);
  for (size_t k = 0; k < nids; k++)
  {
    rates.push_back (g.chance (1, 20) ? 0 : gen_simple_rate (g));
    bases.push_back (base + (int64_t)g.raw (1000) * 1000003);
    types.push_back (g.pick<char> ({'i', 'f', 'd', 't'}));
    if (rates.back () == 0)
      types.back () = 't';
    if (w.c.reclist && types.back () == 't')
      types.back () = 'i'; // too few different values to tell records apart
  }
  tl::List l;
  l.p     = mstl3_init (nullptr);
  int nr  = (int)g.size (1, 30);
  // tolerance of several periods: overlapping data get joined in odd ways
  bool crowded = w.c.ttol && g.chance (1, 4);
  if (crowded)
    for (auto &r : rates)
      r = g.pick<double> ({1, 0.5, 2});
  bool dataless = g.chance (1, 4);
  if (crowded)
    g_ttol = g.range (1, 24) / 4.0;
  for (int k = 0; k < nr; k++)
  {
    size_t id = g.index (nids);
    Rec r;
    r.sid  = sids[id];
    r.pub  = w.c.split ? (int)g.range (0, 3) : (int)g.range (0, 4);
    r.rate = rates[id];
    r.type = types[id];
    if (r.rate != 0)
      r.rate *= g.pick<double> ({1, 1, 1, 1, 1, 1 + 1e-5, 1 - 9e-5, 1 + 2e-4, 1 + 1e-3, 2});
    r.n          = dataless && g.chance (1, 4) ? 0 : g.range (1, g.pick<int> ({3, 3, 10, 10, 10, 100}));
    int64_t per  = period_of (r.rate), tol = tol_of (w.c, per);
    int64_t jit  = g.pick<int64_t> ({0, 0, 0, 0, tol, -tol, tol + 1, -tol - 1, tol / 2, -(tol / 2), tol - 1, per, -per, 2 * tol, -2 * tol});
    int64_t span = (int64_t)llround ((double)std::max<int64_t> (r.n - 1, 0) * (r.rate == 0 ? 0 : 1e9 / hz (r.rate)));
    // relative to the segments that exist in this trace
    const MTrace *t = nullptr;
    for (auto &x : w.traces)
      if (x.sid == r.sid)
        t = &x;
    int how = crowded ? 5 : (int)g.weighted ({4, t ? 4 : 0, t ? 3 : 0, t ? 3 : 0, t ? 1 : 0});
    if (how == 5)
      r.start = bases[id] + g.range (-40, 40) * (per / 2);
    else if (how == 0)
      r.start = bases[id] + g.range (0, 40) * per + (g.chance (1, 3) ? jit : 0);
    else
    {
      const MSeg &s = t->segs[g.index (t->segs.size ())];
      if (how == 1)
        r.start = s.end + per + jit;
      else if (how == 2)
        r.start = s.start - per - span + jit;
      else if (how == 3)
      {
        // fill the gap to the following segment
        const MSeg *nx = nullptr;
        for (auto &x : t->segs)
          if (x.start > s.end && (!nx || x.start < nx->start))
            nx = &x;
        r.start = s.end + per + jit;
        if (nx && per > 0)
        {
          int64_t room = (nx->start - s.end - per / 2) / per;
          if (room >= 1 && room <= 60 && r.n > 0)
            r.n = room;
        }
      }
      else
      {
        // the same time again, or another length from there
        r.start = s.start;
        if (g.coin ())
          r.n = std::min<int64_t> (s.count, 200);
        else if (dataless)
          r.n = g.coin ();
      }
    }
    if (r.n == 0)
      r.type = 0, g.label ("record without samples");
    r.data = unique_data (r.type, r.n, w.counter);
    w.recs.push_back (r);
    show (g, r, k);
    add (w, l.p, g);
  }
  check_all (w, l.p, g);
  mstl3_free (&l.p, 1);
  mem::require_balanced ("trace list");
  if (n_joined)
    g.nontrivial ();
}

// one series cut into pieces, some left out, in any order: with healing the result is the runs
static void
puzzle (Gen &g)
{
  World w;
  w.c      = gen_config (g);
  w.c.heal = true;
  w.c.ttol = false;
  w.c.tol  = w.c.rtol;
  n_joined = n_healed = 0;
  g.note ("heal=1, default time tolerance\n");
  std::string sid = gen_sid (g, false);
  double rate     = gen_simple_rate (g);
  int64_t base    = gen_base (g);
  // no leap second inside: times of pieces are exact multiples
  for (int64_t lp : model::leaps ())
    if (llabs (lp - base) < 86400LL * 40 * 1000000000LL)
      base += 86400LL * 90 * 1000000000LL;
  char type       = g.pick<char> ({'i', 'f', 'd', 't'});
  int np          = (int)g.size (2, 40);
  int64_t pos     = 0;
  std::vector<Rec> pieces;
  std::vector<bool> present;
  for (int k = 0; k < np; k++)
  {
    Rec r;
    r.sid   = sid;
    r.pub   = 1;
    r.rate  = rate;
    r.type  = type;
    r.n     = g.range (1, 5);
    r.start = base + sample_span (rate, pos);
    r.data  = unique_data (type, r.n, w.counter);
    pos += r.n;
    present.push_back (!g.chance (1, 6));
    pieces.push_back (r);
  }
  // the runs
  std::vector<std::string> runs;
  std::vector<int64_t> starts, counts;
  std::vector<int> order;
  for (int k = 0; k < np; k++)
  {
    if (!present[k])
      continue;
    order.push_back (k);
    if (k == 0 || !present[k - 1])
    {
      runs.push_back ("");
      counts.push_back (0);
      starts.push_back (pieces[k].start);
    }
    runs.back () += pieces[k].data;
    counts.back () += pieces[k].n;
  }
  for (size_t k = order.size (); k > 1; k--)
    std::swap (order[k - 1], order[g.index (k)]);
  tl::List l;
  l.p = mstl3_init (nullptr);
  for (int k : order)
  {
    w.recs.push_back (pieces[k]);
    show (g, pieces[k], w.recs.size () - 1);
    add (w, l.p, g);
  }
  if (order.size ())
    check_all (w, l.p, g);
  std::vector<tl::Trace> ts = tl::read (l.p);
  if (order.size ())
  {
    REQUIRE (ts.size () == 1 && ts[0].segs.size () == runs.size (), "runs", ts.size () << " traces, " << (ts.size () ? ts[0].segs.size () : 0) << " segments, want " << runs.size ());
    for (size_t k = 0; k < runs.size (); k++)
    {
      const tl::Seg &s = ts[0].segs[k];
      REQUIRE (s.start == starts[k] && s.count == counts[k] && (w.c.nodata || s.data == runs[k]), "runs", "segment " << k << " " << s.show () << " want start " << tstr (starts[k]) << " with " << counts[k] << " samples");
    }
  }
  mstl3_free (&l.p, 1);
  mem::require_balanced ("trace list");
  if (n_healed)
    g.nontrivial ();
}

// many identifiers: order, links and look up
static void
many (Gen &g)
{
  World w;
  w.c       = gen_config (g);
  n_joined = n_healed = 0;
  size_t nids = (size_t)g.size (2, 120);
  std::vector<std::string> sids = gen_sids (g, nids);
  int64_t base = gen_base (g);
  tl::List l;
  l.p = mstl3_init (nullptr);
  size_t nr = nids + g.raw (nids);
  for (size_t k = 0; k < nr; k++)
  {
    Rec r;
    r.sid   = sids[k < nids && g.coin () ? k : g.index (nids)];
    r.pub   = (int)g.range (0, 3);
    r.rate  = 1;
    r.n     = 2;
    r.start = base + g.range (0, 5) * 2000000000LL;
    r.data  = unique_data ('i', r.n, w.counter);
    w.recs.push_back (r);
    g.note (r.sid + fmt (" v%d\n", r.pub));
    add (w, l.p, g);
  }
  check_all (w, l.p, g);
  mstl3_free (&l.p, 1);
  mem::require_balanced ("trace list");
  if (w.traces.size () >= 5)
    g.nontrivial ();
}

// a buffer of records gives the list that adding the parsed records gives
static void
buffer (Gen &g)
{
  Config c = gen_config (g);
  c.heal   = true;
  size_t nids = 1 + g.raw (3);
  std::vector<std::string> sids = gen_sids (g, nids);
  int64_t base = gen_base (g);
  int version  = g.coin () ? 3 : 2;
  if (version == 2)
    for (auto &s : sids)
      s = gen_sid (g, true);
  double rate = g.pick<double> ({1, 20, 100, -10, 0.1, 40});
  Bytes buf;
  std::vector<size_t> at;
  int np = (int)g.size (1, 20);
  int64_t pos = 1000;
  for (int k = 0; k < np; k++)
  {
    Desc d;
    d.version    = version;
    d.sid        = sids[g.index (sids.size ())];
    d.enc        = g.pick<int> ({DE_STEIM2, DE_INT32});
    d.rate       = rate;
    d.pubversion = (uint8_t)g.range (1, 3);
    size_t n     = (size_t)g.range (1, 40);
    d.s          = gen_for_encoding (g, d.enc, n);
    d.start      = base / 1000000 * 1000000 + sample_span (rate, pos);
    d.reclen     = 512;
    pos += g.chance (1, 4) ? g.range (-20, 60) : (int64_t)n;
    Collector col;
    int64_t packed = 0;
    int rv         = pack (d, col, &packed, MSF_FLUSHDATA | (version == 2 ? MSF_PACKVER2 : 0));
    REQUIRE (rv == (int)col.recs.size () && rv > 0, "pack", "packing gives " << rv << "; " << lg::diag ());
    for (auto &r : col.recs)
    {
      if (version == 2 && v2_ambiguous (r))
        DISCARD ();
      at.push_back (buf.size ());
      buf.insert (buf.end (), r.begin (), r.end ());
    }
    g.note (d.show () + "\n");
  }
  at.push_back (buf.size ());
  MS3Tolerance tol;
  tol.time     = c.ttol ? time_cb : nullptr;
  tol.samprate = c.rtol ? rate_cb : nullptr;
  uint32_t flags = c.nodata ? 0 : MSF_UNPACKDATA;
  tl::List a, b;
  Buf exact (buf, (int)g.range (0, 7));
  int64_t n = mstl3_readbuffer (&a.p, (const char *)exact.p, exact.n, c.split, flags | (c.reclist ? MSF_RECORDLIST : 0), c.tol ? &tol : nullptr, 0);
  REQUIRE (n == (int64_t)at.size () - 1, "read-count", "mstl3_readbuffer returns " << n << " for " << at.size () - 1 << " records; " << lg::diag ());
  b.p = mstl3_init (nullptr);
  for (size_t k = 0; k + 1 < at.size (); k++)
  {
    Msr m;
    int rv = msr3_parse ((const char *)buf.data () + at[k], at[k + 1] - at[k], &m.p, flags, 0);
    REQUIRE (rv == 0, "parse", "msr3_parse returns " << rv);
    REQUIRE (mstl3_addmsr (b.p, m.p, c.split, 1, 0, c.tol ? &tol : nullptr), "add", "mstl3_addmsr fails; " << lg::diag ());
  }
  std::string why;
  REQUIRE (tl::same (tl::read (a.p), tl::read (b.p), why), "buffer", "reading the buffer and adding its records differ: " << why);
  mstl3_free (&a.p, 1);
  mstl3_free (&b.p, 1);
  mem::require_balanced ("trace list");
  if (at.size () > 3)
    g.nontrivial ();
}

namespace pbt {
Property property = {
    "P07",
    "A case is a history of records added to a trace list (positions around the tolerances, overlaps, repeats, bridges, any order, several identifiers and versions, default or own tolerances, "
    "healing and splitting on or off), compared after every step with the set of results the rules allow; or a series cut in pieces; or many identifiers; or a buffer of records. "
    "Non-trivial: a record was joined (histories), two segments were bridged (puzzle), five identifiers or more, three records or more in the buffer.",
    {{"history", 6, history}, {"puzzle", 2, puzzle}, {"many", 1, many}, {"buffer", 1, buffer}},
    std_reset,
    nullptr};
}
