// P08: packing a growing trace list never loses, repeats or mistimes samples
#include "checkrec.hpp"
#include "tl.hpp"
using namespace pbt;

namespace {
// a channel: the sample of slot k is at base + k periods and has a value given by k
struct Chan
{
  std::string sid;
  int pub;
  double rate;
  char type;
  int64_t base;
  uint64_t seed;
  std::set<int64_t> outliers;      // slots with values that some encodings cannot hold
  std::map<int64_t, int> added;    // how often a slot was added
  std::map<int64_t, int> emitted;
  int64_t hi = 1000;               // slot after everything added
};

struct Conf
{
  int version, reclen, enc;
  std::string extra;
  int64_t per_tol; // how far times may be off (re-basing)
};

int64_t
slot_time (const Chan &c, int64_t k)
{
  return c.base + sample_span (c.rate, (uint64_t)k);
}
// the slot at this time, or -1
int64_t
time_slot (const Chan &c, int64_t t, int64_t up, int64_t down)
{
  long double per = 1e9L / hz (c.rate);
  int64_t k       = (int64_t)floorl ((long double)(t - c.base) / per + 0.5L);
  if (k < 0)
    return -1;
  int64_t d = t - slot_time (c, k);
  return d <= up && d >= -down ? k : -1;
}
std::string
value (const Chan &c, int64_t k)
{
  uint64_t h = mix64 (c.seed * 1000003 + (uint64_t)k);
  int32_t i  = (int32_t)(h % 2000) - 1000;
  if (c.outliers.count (k))
    i = (h & 1) ? 2000000000 : -2000000000;
  float f  = i * 0.5f;
  double d = i + (double)(h >> 20) * 1e-13;
  switch (c.type)
  {
  case 'i': return std::string ((char *)&i, 4);
  case 'f': return std::string ((char *)&f, 4);
  case 'd': return std::string ((char *)&d, 8);
  }
  return std::string (1, (char)(1 + h % 127));
}

struct World
{
  Conf c;
  std::vector<Chan> ch;
  tl::List l;
  int npacks = 0;
  bool split = false;

  Chan *
  find (const std::string &sid, int pub)
  {
    for (auto &x : ch)
      if (x.sid == sid && x.pub == pub)
        return &x;
    return nullptr;
  }
};

// slots held by the segments of a list, with everything about them checked
struct Held
{
  Chan *c;
  std::vector<int64_t> slots;
};
std::vector<Held>
held (World &w)
{
  std::vector<Held> out;
  for (auto &t : tl::read (w.l.p))
  {
    Chan *c = w.find (t.sid, t.pubversion);
    REQUIRE (c, "trace", "unknown trace " << t.sid);
    for (auto &s : t.segs)
    {
      Held h;
      h.c = c;
      REQUIRE (s.count == s.num, "buffer-count", t.sid << ": samplecnt " << s.count << ", numsamples " << s.num);
      REQUIRE (s.rate == hz (c->rate), "buffer-rate", "segment rate " << s.rate);
      int64_t tol = w.npacks + 2;
      if (s.num)
      {
        int64_t k = time_slot (*c, s.start, tol, tol);
        REQUIRE (k >= 0, "buffer-time", t.sid << ": buffered data start at " << tstr (s.start) << ", no sample is there " << fmt ("(%.9Lf periods)", (long double)(s.start - c->base) / (1e9L / hz (c->rate))));
        size_t size = s.data.size () / s.num;
        for (int64_t n = 0; n < s.num; n++)
        {
          REQUIRE (s.data.substr (n * size, size) == value (*c, k + n), "buffer-samples", t.sid << fmt (": sample %lld of the segment starting at ", (long long)n) << tstr (s.start) << fmt (" is not that of its time (slot %lld)", (long long)(k + n)));
          h.slots.push_back (k + n);
        }
        int64_t e = slot_time (*c, k + s.num - 1);
        REQUIRE (llabs (s.end - e) <= tol, "buffer-time", t.sid << ": buffered data end at " << tstr (s.end) << " want " << tstr (e));
      }
      out.push_back (h);
    }
  }
  return out;
}

void
check_conserved (World &w, const char *when)
{
  std::map<std::string, std::map<int64_t, int>> have;
  for (auto &c : w.ch)
    have[c.sid + std::to_string (c.pub)] = c.emitted;
  for (auto &h : held (w))
    for (int64_t k : h.slots)
      have[h.c->sid + std::to_string (h.c->pub)][k]++;
  for (auto &c : w.ch)
  {
    auto &m = have[c.sid + std::to_string (c.pub)];
    for (auto &e : c.added)
      REQUIRE (m[e.first] == e.second, "conserved", when << ": sample at slot " << e.first << " of " << c.sid << " was added " << e.second << " times, is emitted or buffered " << m[e.first] << " times");
    for (auto &e : m)
      REQUIRE (c.added.count (e.first), "conserved", when << ": slot " << e.first << " of " << c.sid << " was never added");
  }
}

void
add (World &w, Gen &g)
{
  Chan &c = w.ch[g.index (w.ch.size ())];
  int64_t n = g.size (1, g.coin () ? 40 : 400), k;
  switch (g.weighted ({8, 1, 1, 1, 1}))
  {
  case 0: k = c.hi; break;
  case 1: k = c.hi + g.range (1, 50); break;                // a gap
  case 2: k = c.added.size () ? c.added.begin ()->first - n : c.hi; break; // before
  case 3:                                                   // into a gap if there is one
  {
    k = c.hi;
    int64_t prev = -1;
    for (auto &e : c.added)
    {
      if (prev >= 0 && e.first > prev + 1)
      {
        k = prev + 1;
        n = g.coin () ? e.first - k : std::min (n, e.first - k);
        break;
      }
      prev = e.first;
    }
    break;
  }
  default: k = c.hi - g.range (1, 30); // overlap
  }
  if (k < 0)
    k = c.hi;
  std::string data;
  for (int64_t i = 0; i < n; i++)
  {
    if (!c.added.count (k + i) && c.type == 'i' && g.chance (1, 3000))
      c.outliers.insert (k + i);
    data += value (c, k + i);
    c.added[k + i]++;
  }
  c.hi = std::max (c.hi, k + n);
  MS3Record m;
  memset (&m, 0, sizeof m);
  snprintf (m.sid, sizeof m.sid, "%s", c.sid.c_str ());
  m.formatversion = 3;
  m.pubversion    = c.pub;
  m.starttime     = slot_time (c, k);
  m.samprate      = c.rate;
  m.samplecnt = m.numsamples = n;
  m.sampletype    = c.type;
  m.datasamples   = const_cast<char *> (data.data ());
  m.datasize      = data.size ();
  g.note (fmt ("add %s slots %lld..%lld\n", c.sid.c_str (), (long long)k, (long long)(k + n - 1)));
  REQUIRE (mstl3_addmsr (w.l.p, &m, w.split, 1, 0, nullptr), "add", "mstl3_addmsr fails: " << lg::diag ());
}

// can every one of these slots be encoded?
bool
encodable (const Chan &c, const std::vector<int64_t> &slots, int enc)
{
  if (c.type != 'i')
    return true;
  for (size_t i = 0; i < slots.size (); i++)
    if (c.outliers.count (slots[i]))
      return enc == DE_INT32 || (enc == DE_STEIM1 && slots.size () == 1);
  return true;
}

void
pack_list (World &w, Gen &g)
{
  std::vector<Held> before      = held (w);
  std::vector<tl::Trace> snap   = tl::read (w.l.p);
  bool flush                    = g.chance (1, 3);
  bool maintain                 = g.chance (1, 5);
  bool nomem                    = g.chance (1, 20);
  int enc                       = w.c.enc;
  Collector col;
  int64_t packed                = -77;
  uint32_t flags                = (flush ? MSF_FLUSHDATA : 0) | (maintain ? MSF_MAINTAINMSTL : 0) | (w.c.version == 2 ? MSF_PACKVER2 : 0);
  g.note (fmt ("pack%s%s%s\n", flush ? " flush" : "", maintain ? " maintain" : "", nomem ? " with a failing allocation" : ""));
  char *extra = nullptr;
  if (!w.c.extra.empty ())
  {
    extra = (char *)libmseed_memory.malloc (w.c.extra.size () + 1);
    memcpy (extra, w.c.extra.c_str (), w.c.extra.size () + 1);
  }
  lg::reset ();
  mem::State &ms  = mem::st ();
  uint64_t failed = ms.failed;
  if (nomem)
    ms.failat = g.range (0, 12);
  int64_t rv = mstl3_pack (w.l.p, collect, &col, w.c.reclen, enc, g.chance (1, 10) ? nullptr : &packed, flags, 0, extra);
  ms.failat  = -1;
  nomem      = ms.failed != failed;
  w.npacks++;
  if (extra)
  {
    REQUIRE (ms.table.count (extra) && w.c.extra == extra, "extra-buffer", "the caller's extra headers were released or changed");
    libmseed_memory.free (extra);
  }
  std::string diag = lg::diag ();

  // what was emitted, in order
  std::vector<std::pair<Chan *, int64_t>> out;
  size_t nsamp = 0;
  for (auto &r : col.recs)
  {
    if (w.c.version == 2 && v2_ambiguous (r))
      DISCARD ();
    Msr m;
    int prv = msr3_parse ((const char *)r.data (), r.size (), &m.p, MSF_UNPACKDATA | MSF_VALIDATECRC, 0);
    REQUIRE (prv == 0, "parse", "emitted record does not parse: " << prv << " " << lg::diag ());
    Chan *c = w.find (m->sid, m->pubversion);
    REQUIRE (c, "record-id", "record of " << m->sid << " version " << (int)m->pubversion);
    REQUIRE (m->numsamples > 0, "empty-record", "a record without samples was emitted for " << c->sid);
    REQUIRE (m->numsamples == m->samplecnt && m->sampletype == c->type, "record", "record has " << m->numsamples << " of " << m->samplecnt << " samples of type " << (int)m->sampletype);
    REQUIRE (rate_ok (w.c.version, hz (c->rate), m->samprate), "record-rate", fmt ("rate %.17g want %.17g", m->samprate, c->rate));
    REQUIRE ((int)r.size () <= w.c.reclen && m->formatversion == w.c.version, "record", "length " << r.size () << " version " << (int)m->formatversion);
    if (!w.c.extra.empty ())
    {
      Json a, b;
      bool ok = model::json_parse (w.c.extra, a) && m->extralength && model::json_parse (std::string (m->extra, m->extralength), b);
      REQUIRE (ok, "record-extra", "record has extra headers " << std::string (m->extra ? m->extra : "", m->extralength));
      for (auto &e : a.o)
      {
        const Json *x = b.at ("/" + e.first);
        REQUIRE (x && model::json_eq (*x, e.second), "record-extra", "record has extra headers " << std::string (m->extra, m->extralength) << " want " << w.c.extra);
      }
    }
    int64_t up = w.npacks + 2;
    int64_t k  = time_slot (*c, m->starttime, up, up + (w.c.version == 2 ? 99999 : 0));
    REQUIRE (k >= 0, "record-time", c->sid << ": record starts at " << tstr (m->starttime) << ", no sample is there");
    size_t size = m->numsamples ? ms_samplesize (m->sampletype) : 0;
    for (int64_t n = 0; n < m->numsamples; n++)
    {
      REQUIRE (std::string ((char *)m->datasamples + n * size, size) == value (*c, k + n), "record-samples",
               c->sid << fmt (": sample %lld of the record starting at ", (long long)n) << tstr (m->starttime) << fmt (" is not that of its time (slot %lld)", (long long)(k + n)));
      out.push_back ({c, k + n});
    }
    nsamp += m->numsamples;
  }
  if (packed != -77)
    REQUIRE (rv < 0 || packed == (int64_t)nsamp, "packed-samples", "reported " << packed << " samples packed, records hold " << nsamp);
  // each segment's records are a beginning of it, and all of it after a flush
  bool mustfail = false, mayfail = nomem;
  std::set<size_t> at = {0}; // how much of the output the segments so far may account for
  for (size_t s = 0; s < before.size (); s++)
  {
    Held &h = before[s];
    std::set<size_t> next;
    for (size_t pos : at)
    {
      size_t n = 0;
      if (!flush || rv < 0)
        next.insert (pos);
      while (n < h.slots.size () && pos + n < out.size () && out[pos + n].first == h.c && out[pos + n].second == h.slots[n])
      {
        n++;
        if (!flush || rv < 0)
          next.insert (pos + n);
      }
      if (n == h.slots.size ())
        next.insert (pos + n);
    }
    if (!encodable (*h.c, h.slots, enc))
    {
      mayfail = true;
      if (flush)
        mustfail |= enc == DE_INT16;
    }
    REQUIRE (!next.empty (), "flush-incomplete", "after a flush the " << h.slots.size () << " samples of segment " << s << " (" << h.c->sid << ") were not all emitted in their place");
    at = next;
  }
  REQUIRE (at.count (out.size ()), "order", "the " << out.size () << " emitted samples are not beginnings of the segments in order; accounted for: " << *at.rbegin ());
  if (rv < 0)
  {
    REQUIRE (rv == -1, "return", "returns " << rv);
    REQUIRE (mayfail, "failed", "packing fails: " << diag);
    REQUIRE (!diag.empty (), "no-message", "packing fails without a message");
    g.label ("failed");
  }
  else
  {
    REQUIRE (rv == (int64_t)col.recs.size (), "record-count", "returns " << rv << ", handler got " << col.recs.size ());
    REQUIRE (!mustfail, "absorbed", "values that cannot be encoded: returns " << rv << " and no error");
  }
  if (maintain)
  {
    std::string why;
    REQUIRE (tl::same (snap, tl::read (w.l.p), why), "maintained", "packing with the list maintained changed it: " << why);
    g.label ("maintained");
  }
  else
    for (auto &o : out)
      o.first->emitted[o.second]++;
  check_conserved (w, "after packing");
  if (rv >= 0 && !maintain)
  {
    // nothing more can be packed now
    std::vector<Held> after = held (w);
    if (flush)
      for (auto &h : after)
        REQUIRE (h.slots.empty (), "flush-incomplete", h.c->sid << " still has " << h.slots.size () << " samples after a flush");
    Collector again;
    char *extra = w.c.extra.empty () ? nullptr : const_cast<char *> (w.c.extra.c_str ());
    int64_t p2  = 0;
    lg::reset ();
    int64_t rv2 = mstl3_pack (w.l.p, collect, &again, w.c.reclen, enc, &p2, flags | MSF_MAINTAINMSTL, 0, extra);
    bool micro  = false; // microseconds take room in version 2 headers of some start times only
    for (auto &c : w.ch)
      micro |= w.c.version == 2 && c.rate == 3.7;
    REQUIRE ((micro && !flush) || (rv2 == 0 && again.recs.empty () && p2 == 0), "again", "packing once more gives " << rv2 << " records with " << p2 << " samples; " << lg::diag ());
  }
  if (out.size ())
    g.label (flush ? "flushed" : "packed");
}
} // namespace

static void
history (Gen &g)
{
  World w;
  libmseed_prealloc_block_size = g.chance (1, 4) ? g.pick<size_t> ({16, 1000, 65536}) : 0;
  w.c.version = g.coin () ? 3 : 2;
  w.c.enc     = g.pick<int> ({DE_STEIM2, DE_STEIM1, DE_INT32, DE_INT16, -1});
  if (w.c.version == 2)
    w.c.reclen = 128 << g.range (1, 4);
  else
    w.c.reclen = (int)g.pick<int64_t> ({256, 300, 512, g.range (250, 1200), 4096});
  if (g.chance (1, 3))
    w.c.extra = g.pick<std::string> ({"{\"FDSN\":{\"Time\":{\"Quality\":87}}}", "{\"FDSN\":{\"Time\":{\"Quality\":100}}}"});
  if (w.c.version == 3 && g.chance (1, 5))
    w.c.extra = "{\"A\":{\"B\":[1,2,3]}}";
  w.split = g.chance (1, 4);
  int nch = (int)g.weighted ({0, 4, 3, 1});
  int64_t base = gen_time (g, 60) / 1000000000LL * 1000000000LL;
  // no leap second near by, times of slots are exact multiples
  for (int64_t lp : model::leaps ())
    if (llabs (lp - base) < 86400LL * 100 * 1000000000LL)
      base += 86400LL * 220 * 1000000000LL;
  std::set<std::string> used;
  for (int k = 0; k < nch; k++)
  {
    Chan c;
    do
      c.sid = gen_sid (g, true) ;
    while (used.count (c.sid) && g.mode == Gen::RANDOM && used.size () < 3);
    if (used.count (c.sid))
      c.sid = fmt ("FDSN:XX_S%d__B_H_Z", k);
    used.insert (c.sid);
    c.pub  = (int)g.range (1, 4);
    c.rate = g.pick<double> ({1, 20, 100, 40, 0.1, -10, 3.7, 200, 1000});
    c.type = g.pick<char> ({'i', 'i', 'i', 'f', 'd', 't'});
    c.base = base;
    c.seed = g.raw (1 << 20);
    w.ch.push_back (c);
    if (w.split && g.chance (1, 3))
    {
      // the same identifier in another version
      c.pub  = c.pub % 4 + 1;
      c.seed = g.raw (1 << 20);
      w.ch.push_back (c);
    }
  }
  g.note (fmt ("v%d reclen %d encoding %d extra %s split %d prealloc %zu\n", w.c.version, w.c.reclen, w.c.enc, w.c.extra.c_str (), w.split, libmseed_prealloc_block_size));
  for (auto &c : w.ch)
    g.note (fmt ("%s v%d rate %g type %c base ", c.sid.c_str (), c.pub, c.rate, c.type) + tstr (c.base) + "\n");
  w.l.p     = mstl3_init (nullptr);
  int steps = (int)g.size (2, 30);
  for (int k = 0; k < steps; k++)
  {
    if (g.chance (2, 3))
    {
      add (w, g);
      check_conserved (w, "after adding");
    }
    else
      pack_list (w, g);
  }
  size_t emitted = 0;
  for (auto &c : w.ch)
    emitted += c.emitted.size ();
  mstl3_free (&w.l.p, 1);
  mem::require_balanced ("packing");
  if (emitted && w.npacks > 1)
    g.nontrivial ();
}

// requests that cannot be met are errors and change nothing
static void
impossible (Gen &g)
{
  World w;
  w.c.version = g.coin () ? 3 : 2;
  w.c.enc     = DE_INT32;
  Chan c;
  c.sid  = "FDSN:XX_STA_00_B_H_Z";
  c.pub  = 1;
  c.rate = 10;
  c.type = g.pick<char> ({'i', 'd', 't'});
  c.base = 1000000000000000000LL;
  c.seed = 5;
  w.ch.push_back (c);
  w.l.p = mstl3_init (nullptr);
  for (int k = 0; k < 5; k++)
    add (w, g);
  std::vector<tl::Trace> snap = tl::read (w.l.p);
  std::string extra;
  int reclen = 512, enc = c.type == 'i' ? DE_INT32 : -1;
  switch (g.raw (4))
  {
  case 0: reclen = (int)g.pick<int64_t> ({0, 10, 39, 40, 50, 59, MAXRECLEN + 1, -2, INT32_MIN}); break;
  case 1: extra = "{\"A\":\"" + std::string (70000, 'x') + "\"}"; break;
  case 2: extra = "{\"A\":\"" + std::string (600, 'x') + "\"}"; break;
  default:
    enc = (int)g.pick<int64_t> ({12, 16, 30, 100, 7});
    if (c.type != 'i')
      reclen = 1;
  }
  if (w.c.version == 2 && !extra.empty () && extra.size () < 65536)
    extra.clear (), reclen = 64; // unknown headers are left out of version 2
  g.note (fmt ("v%d type %c reclen %d encoding %d extra %zu\n", w.c.version, c.type, reclen, enc, extra.size ()));
  char *buf = extra.empty () ? nullptr : strdup (extra.c_str ());
  Collector col;
  int64_t packed = 0;
  lg::reset ();
  int64_t rv = mstl3_pack (w.l.p, collect, &col, reclen, enc, &packed, MSF_FLUSHDATA | (w.c.version == 2 ? MSF_PACKVER2 : 0), 0, buf);
  free (buf);
  REQUIRE (rv == -1 && !lg::diag ().empty (), "impossible", "returns " << rv << "; " << lg::diag ());
  REQUIRE (col.recs.empty () && packed == 0, "impossible", col.recs.size () << " records");
  std::string why;
  REQUIRE (tl::same (snap, tl::read (w.l.p), why), "impossible-changed", why);
  mstl3_free (&w.l.p, 1);
  mem::require_balanced ("packing");
  g.nontrivial ();
}

namespace pbt {
Property property = {
    "P08",
    "A case is a history of data added to a trace list (continuing, after gaps, before, into gaps, overlapping; several channels, types, rates) and packing with or without flush, with the list "
    "preserved, with values that cannot be encoded or allocations that fail. Every sample's value is a function of its time, so each emitted or buffered sample is checked by itself. "
    "Non-trivial: samples were emitted and the list was packed more than once; or an impossible request.",
    {{"history", 8, history}, {"impossible", 1, impossible}},
    std_reset,
    nullptr};
}
