// P21: converting sample types never changes a value without saying so
#include "tl.hpp"
using namespace pbt;

namespace {
// numbers as whole, nearly whole or otherwise difficult for an integer
double
gen_number (Gen &g, int kind)
{
  double whole = (double)(g.chance (1, 4) ? g.bits (31) : g.range (-50, 50));
  switch (kind)
  {
  case 0: return whole;
  case 1: return whole + g.pick<double> ({1e-8, -1e-8, 5e-7, -5e-7, 9e-7, -9e-7});
  case 2: return whole + g.pick<double> ({2e-6, -2e-6, 1e-4, -1e-4, 0.25, -0.25, 0.5, -0.5, 0.75, -0.75, 0.999, -0.999});
  case 3: return g.pick<double> ({2147483647.0, -2147483648.0, 2147483646.0, -2147483647.0, 0.0, -0.0, 1.0, -1.0, -2.0, -3.0});
  case 4: return g.pick<double> ({2147483648.0, -2147483649.0, 4294967296.0, -1e10, 1e18, -1e300, 1e300, (double)INFINITY, -(double)INFINITY, (double)NAN, 3e9});
  default: return gen_double (g);
  }
}

Series
gen_values (Gen &g, char type, size_t n)
{
  Series s;
  s.type = type;
  // most series are harmless but for one value
  int base = (int)g.weighted ({8, 1, 1, 2, 0, 1}), odd = (int)g.weighted ({4, 2, 3, 2, 2, 1});
  size_t at = g.coin () ? g.index (n) : n;
  for (size_t k = 0; k < n; k++)
  {
    if (type == 'i')
      s.i.push_back ((int32_t)(g.chance (1, 4) ? g.bits (31) : g.pick<int32_t> ({0, 1, -1, -3, 40, 16777217, -16777219, INT32_MAX, INT32_MIN, 123456789})));
    else if (type == 't')
      s.t += (char)g.range (1, 127);
    else
    {
      double v = gen_number (g, k == at ? odd : base);
      if (type == 'f')
        s.f.push_back ((float)v);
      else
        s.d.push_back (v);
    }
  }
  return s;
}

double
value (const Series &s, size_t k)
{
  return s.type == 'i' ? s.i[k] : s.type == 'f' ? s.f[k] : s.d[k];
}

enum Verdict { MUST, EITHER, MUSTNOT };

// may this number become an integer?
Verdict
as_int (double v, bool truncate)
{
  if (!(v > -2147483648.5 && v < 2147483647.5))
    return MUSTNOT;
  double frac = fabs (v - trunc (v)), dist = fabs (v - nearbyint (v));
  if (truncate)
    return v < -2147483648.0 || v > 2147483647.0 ? EITHER : MUST; // rounds into the range
  if (frac <= 0.000001)
    return MUST;
  return dist > 0.000001 ? MUSTNOT : EITHER; // just below an integer
}

void
check_converted (const MS3TraceSeg *seg, const Series &from, char type, Series &to)
{
  REQUIRE (seg->sampletype == type, "type", "sample type is " << (int)seg->sampletype << " after converting to " << type);
  REQUIRE (seg->numsamples == (int64_t)from.size (), "count", seg->numsamples << " samples, want " << from.size ());
  tl::Seg r = tl::read_seg (seg);
  to        = Series ();
  to.type   = type;
  for (size_t k = 0; k < from.size (); k++)
  {
    double v = value (from, k);
    if (type == 'i')
    {
      int32_t got;
      memcpy (&got, r.data.data () + 4 * k, 4);
      REQUIRE (fabs ((double)got - v) <= 0.5 + 1e-9, "value", fmt ("sample %zu: %.17g becomes %d", k, v, got));
      to.i.push_back (got);
    }
    else if (type == 'f')
    {
      float got, want = from.type == 'i' ? (float)from.i[k] : (float)v;
      memcpy (&got, r.data.data () + 4 * k, 4);
      REQUIRE (memcmp (&got, &want, 4) == 0 || (got != got && want != want), "value", fmt ("sample %zu: %.17g becomes float %.9g want %.9g", k, v, got, want));
      to.f.push_back (got);
    }
    else
    {
      double got;
      memcpy (&got, r.data.data () + 8 * k, 8);
      REQUIRE (memcmp (&got, &v, 8) == 0 || (got != got && v != v), "value", fmt ("sample %zu: %.17g becomes double %.17g", k, v, got));
      to.d.push_back (got);
    }
  }
}

void
check_same (const MS3TraceSeg *seg, const Series &s, const char *when)
{
  REQUIRE (seg->sampletype == s.type, "failed-changed", when << ": sample type is now " << (int)seg->sampletype << ", was " << s.type);
  REQUIRE (seg->numsamples == (int64_t)s.size (), "failed-changed", when << ": " << seg->numsamples << " samples, were " << s.size ());
  tl::read_seg (seg);
  REQUIRE (!s.size () || s.same (seg->datasamples, s.size ()), "failed-changed", when << ": sample values changed from " << s.show ());
}

MS3TraceSeg *
add (MS3TraceList *l, const Series &s, int64_t start)
{
  Desc d;
  d.sid   = "FDSN:XX_S_L_B_H_Z";
  d.start = start;
  d.s     = s;
  MS3Record m;
  d.fill (m);
  MS3TraceSeg *seg = mstl3_addmsr (l, &m, 0, 1, 0, nullptr);
  REQUIRE (seg, "harness", "cannot add a record: " << lg::diag ());
  return seg;
}

void
convert (Gen &g, MS3TraceSeg *seg, Series &s, char type, bool truncate, bool allocfail)
{
  Verdict v = MUST;
  if (type == s.type)
    v = MUST;
  else if (!strchr ("ifd", type) || s.type == 't')
    v = MUSTNOT;
  else if (type == 'i')
    for (size_t k = 0; k < s.size (); k++)
      v = std::max (v, as_int (value (s, k), truncate));
  g.note (fmt ("convert to %c truncate=%d%s\n", type, truncate, allocfail ? " without memory" : ""));
  lg::reset ();
  mem::State &ms = mem::st ();
  uint64_t failed = ms.failed;
  int64_t start = seg->starttime, end = seg->endtime, cnt = seg->samplecnt;
  if (allocfail)
    ms.failat = 0, ms.failforever = true;
  int rv        = mstl3_convertsamples (seg, type, truncate);
  ms.failat     = -1;
  bool nomem    = ms.failed != failed;
  REQUIRE (rv == 0 || rv == -1, "return", "returns " << rv);
  REQUIRE (seg->starttime == start && seg->endtime == end && seg->samplecnt == cnt, "coverage", "conversion changed the coverage of the segment");
  if (rv == 0)
  {
    REQUIRE (v != MUSTNOT, "accepted", "conversion of " << s.show () << " to " << type << (truncate ? " with" : " without") << " truncation succeeds");
    if (type != s.type)
    {
      Series to;
      check_converted (seg, s, type, to);
      s = to;
      g.label ("converted");
      if (s.size ())
        g.nontrivial ();
    }
    else
      check_same (seg, s, "same type");
  }
  else
  {
    REQUIRE (v != MUST || nomem, "refused", "conversion of " << s.show () << " to " << type << (truncate ? " with" : " without") << " truncation fails: " << lg::diag ());
    REQUIRE (!lg::diag ().empty (), "no-message", "conversion fails without a message");
    check_same (seg, s, "after a failed conversion");
    g.label (nomem ? "no memory" : "refused");
    if (s.size ())
      g.nontrivial ();
  }
}
} // namespace

static void
sequence (Gen &g)
{
  libmseed_prealloc_block_size = g.chance (1, 4) ? g.pick<size_t> ({16, 100, 4096}) : 0;
  size_t n = g.chance (1, 15) ? 0 : (size_t)g.size (1, 200);
  Series s = gen_values (g, g.pick<char> ({'d', 'f', 'i', 't', 'd', 'f'}), n);
  g.note (fmt ("prealloc %zu ", libmseed_prealloc_block_size) + s.show () + "\n");
  tl::List l;
  l.p              = mstl3_init (nullptr);
  int64_t t0       = 1000000000000LL;
  MS3TraceSeg *seg = add (l.p, s, t0);
  int steps        = (int)g.range (1, 5);
  for (int k = 0; k < steps; k++)
  {
    if (g.chance (1, 5) && s.size ())
    {
      // the converted segment goes on
      Series more = gen_values (g, s.type, (size_t)g.range (1, 50));
      g.note ("add " + more.show () + "\n");
      bool front = g.coin ();
      int64_t at = front ? seg->starttime - (int64_t)more.size () * 1000000000 : seg->endtime + 1000000000;
      MS3TraceSeg *x = add (l.p, more, at);
      REQUIRE (x == seg, "harness", "record did not join the segment");
      Series &a = front ? more : s, &b = front ? s : more;
      Series sum = a;
      sum.i.insert (sum.i.end (), b.i.begin (), b.i.end ());
      sum.f.insert (sum.f.end (), b.f.begin (), b.f.end ());
      sum.d.insert (sum.d.end (), b.d.begin (), b.d.end ());
      sum.t += b.t;
      s = sum;
      check_same (seg, s, "adding data");
    }
    else if (g.chance (1, 6))
    {
      REQUIRE (mstl3_resize_buffers (l.p) == 0, "resize", "mstl3_resize_buffers fails; " << lg::diag ());
      check_same (seg, s, "resizing buffers");
      mem::require_room (seg, "segment", true);
    }
    else
      convert (g, seg, s, g.pick<char> ({'i', 'f', 'd', 'i', 't', 'x'}), g.coin (), g.chance (1, 8));
  }
  mstl3_free (&l.p, 1);
  mem::require_balanced ("conversion");
}

// there and back
static void
roundtrip (Gen &g)
{
  size_t n = (size_t)g.size (1, 300);
  Series s;
  char mid;
  switch (g.raw (4))
  {
  case 0: // any integer fits a double
    s   = gen_series (g, 'i', n);
    mid = 'd';
    break;
  case 1: // 24 bits fit a float
    s   = gen_series (g, 'i', n, 25, 25);
    mid = 'f';
    for (auto &v : s.i)
      v %= 16777216;
    break;
  case 2: // any float fits a double
    s   = gen_series (g, 'f', n);
    mid = 'd';
    break;
  default: // whole numbers in a float
    s.type = 'f';
    mid    = 'i';
    for (size_t k = 0; k < n; k++)
      s.f.push_back ((float)g.bits (31));
    for (auto &f : s.f)
      if (!(fabsf (f) < 2147483648.0f))
        f = 0;
  }
  Series orig = s;
  g.note (s.show () + fmt (" by way of %c\n", mid));
  tl::List l;
  l.p              = mstl3_init (nullptr);
  MS3TraceSeg *seg = add (l.p, s, 0);
  bool truncate    = g.coin ();
  convert (g, seg, s, mid, truncate, false);
  REQUIRE (s.type == mid, "refused", "conversion refused: " << lg::diag ());
  convert (g, seg, s, orig.type, truncate, false);
  REQUIRE (s.type == orig.type && s.size () == orig.size (), "roundtrip", "type or count differ");
  for (size_t k = 0; k < n; k++)
  {
    double a = value (s, k), b = value (orig, k);
    REQUIRE (a == b || (a != a && b != b), "roundtrip", fmt ("sample %zu: %.17g comes back as %.17g", k, b, a));
  }
  mstl3_free (&l.p, 1);
  mem::require_balanced ("conversion");
}

namespace pbt {
Property property = {
    "P21",
    "A case is a segment of up to 200 samples of any type (whole numbers, nearly whole, fractions, limits, too large, infinities, NaN; usually one odd value in a harmless series) and a sequence of "
    "conversions, with and without truncation, memory and preallocation, mixed with further data; or a conversion there and back. Non-trivial: some samples were converted or a conversion was refused.",
    {{"sequence", 3, sequence}, {"roundtrip", 1, roundtrip}},
    std_reset,
    nullptr};
}
