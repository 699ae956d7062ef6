// P19: allocation failures are reported, nothing leaks, pre-allocation changes nothing
#include "files.hpp"
#include <dirent.h>
#include <functional>
#include <memory>
#include <unistd.h>
using namespace pbt;

namespace {
// ------------------------------------------------------------ scripts
// A script is a fixed sequence of library calls on objects of its own.  The same
// script is run undisturbed and with allocations failing at chosen places.
struct Ctx;
struct Step
{
  std::string name;
  std::function<bool (Ctx &)> run; // false: the documented error
  enum After { UNCHANGED, CHECKED } after = UNCHANGED;
  std::function<void (Ctx &)> check = nullptr; // CHECKED: what must be true after a failure
  bool message = true;                         // the error is documented to be logged
  bool retry   = true;                         // worth calling again
  bool skips   = false;                        // records that cannot be read are passed over, with a message
};
struct Ctx
{
  virtual ~Ctx () {}
  virtual std::string state () = 0; // what the caller can observe
  virtual void fini () = 0;         // release what the caller owns
  bool in_baseline = false;
};
struct Script
{
  std::string what;
  std::function<std::unique_ptr<Ctx> ()> make;
  std::vector<Step> steps;
};

struct Suspend // failures wait
{
  int64_t at;
  bool ever;
  uint64_t n;
  Suspend ()
  {
    at = mem::st ().failat, ever = mem::st ().failforever, n = mem::st ().nalloc;
    mem::st ().failat      = -1;
    mem::st ().failforever = false;
  }
  ~Suspend () { mem::st ().failat = at, mem::st ().failforever = ever, mem::st ().nalloc = n; }
};

int
open_files ()
{
  DIR *d = opendir ("/proc/self/fd");
  if (!d)
    return -1;
  int n = 0;
  while (readdir (d))
    n++;
  closedir (d);
  return n;
}

// what differs
std::string
diff (const std::string &a, const std::string &b)
{
  size_t k = 0;
  while (k < a.size () && k < b.size () && a[k] == b[k])
    k++;
  size_t from = k > 200 ? k - 200 : 0;
  return "at " + std::to_string (k) + ":\n" + a.substr (from, 700) + "\n--- and ---\n" + b.substr (from, 700) + "\n";
}

struct Base
{
  std::vector<bool> ok;
  std::vector<std::string> state; // [0] at the beginning
  uint64_t nalloc = 0;
};

Base
baseline (const Script &sc, const std::string &what)
{
  Base b;
  mem::st ().failat = -1;
  mem::st ().failforever = false;
  int fds = open_files ();
  std::unique_ptr<Ctx> c = sc.make ();
  c->in_baseline = true;
  mem::st ().nalloc = 0;
  {
    Suspend s;
    b.state.push_back (c->state ());
  }
  for (auto &st : sc.steps)
  {
    lg::diag ().clear ();
    bool ok = st.run (*c);
    if (!ok && st.message)
      REQUIRE (!lg::diag ().empty (), "no-message", what << ": " << st.name << " fails without a message");
    b.ok.push_back (ok);
    Suspend s;
    b.state.push_back (c->state ());
  }
  b.nalloc = mem::st ().nalloc;
  c->fini ();
  mem::require_balanced (what.c_str ());
  REQUIRE (open_files () == fds, "file-left-open", what << ": " << fds << " open files before, " << open_files () << " after");
  return b;
}

void
faulted (const Script &sc, const Base &b, uint64_t k, bool ever)
{
  std::string what = sc.what + fmt (", %s allocation %llu of %llu fails", ever ? "every from" : "only", (unsigned long long)k, (unsigned long long)b.nalloc);
  int fds          = open_files ();
  std::unique_ptr<Ctx> c = sc.make ();
  mem::st ().failat      = (int64_t)k;
  mem::st ().failforever = ever;
  for (size_t i = 0; i < sc.steps.size (); i++)
  {
    const Step &st  = sc.steps[i];
    uint64_t failed = mem::st ().failed;
    lg::diag ().clear ();
    bool ok       = st.run (*c);
    bool injected = mem::st ().failed > failed;
    Suspend s;
    if (ok)
    {
      REQUIRE (b.ok[i], "fails-otherwise", what << ": " << st.name << " succeeds, but fails when memory suffices");
      std::string now = c->state ();
      if (st.skips && injected && now != b.state[i + 1])
      {
        REQUIRE (!lg::diag ().empty (), "no-message", what << ": " << st.name << " leaves out something without a message");
        break;
      }
      REQUIRE (now == b.state[i + 1], injected ? "wrong-result" : "different-result", what << ": " << st.name << " succeeds" << (injected ? " although an allocation failed" : "") << ", result differs " << diff (b.state[i + 1], now));
      continue;
    }
    if (!b.ok[i] && !injected)
    {
      std::string now = c->state ();
      REQUIRE (now == b.state[i + 1], "different-result", what << ": " << st.name << " leaves something else " << diff (b.state[i + 1], now));
      continue;
    }
    REQUIRE (injected || !b.ok[i], "fails", what << ": " << st.name << " fails: " << lg::diag ());
    if (st.message)
      REQUIRE (!lg::diag ().empty (), "no-message", what << ": " << st.name << " fails without a message");
    if (!b.ok[i])
      break; // fails either way: what it leaves is not compared
    if (st.check)
      st.check (*c);
    if (st.after == Step::UNCHANGED)
    {
      std::string now = c->state ();
      REQUIRE (now == b.state[i], "changed", what << ": " << st.name << " fails but changes " << diff (b.state[i], now));
    }
    if (!st.retry)
      break;
    s.at   = -1; // memory is back
    s.ever = false;
    lg::diag ().clear ();
    ok = st.run (*c);
    REQUIRE (ok, "retry", what << ": " << st.name << " fails again although memory is available: " << lg::diag ());
    std::string now = c->state ();
    REQUIRE (now == b.state[i + 1], "retry", what << ": " << st.name << " repeated gives something else " << diff (b.state[i + 1], now));
  }
  mem::st ().failforever = ever && mem::st ().failat == 0;
  c->fini ();
  mem::st ().failat      = -1;
  mem::st ().failforever = false;
  mem::require_balanced (what.c_str ());
  REQUIRE (open_files () == fds, "file-left-open", what << ": " << fds << " open files before, " << open_files () << " after");
}

size_t
gen_block (Gen &g)
{
  switch (g.raw (4))
  {
  case 0: return 0;
  case 1: return (size_t)g.range (1, 64);
  case 2: return (size_t)1 << g.range (0, 20);
  default: return (size_t)g.range (1, 5000);
  }
}

// the whole test of one script; runs the first state with one block size, then others
void
explore (Gen &g, const Script &sc)
{
  g.note (sc.what + ":");
  for (auto &st : sc.steps)
    g.note (" " + st.name + ";");
  libmseed_prealloc_block_size = gen_block (g);
  g.note (fmt (" pre-allocation %zu\n", libmseed_prealloc_block_size));
  Base b = baseline (sc, sc.what);
  g.note (fmt ("%llu allocations; steps succeed:", (unsigned long long)b.nalloc));
  bool anyok = false;
  for (bool ok : b.ok)
    g.note (ok ? " yes" : " no"), anyok |= ok;
  g.note ("\n");
  // other block sizes
  size_t first = libmseed_prealloc_block_size;
  if (g.chance (1, 3))
  {
    libmseed_prealloc_block_size = gen_block (g);
    if (libmseed_prealloc_block_size != first)
    {
      g.label ("other block size");
      std::string what = sc.what + fmt (" with pre-allocation %zu", libmseed_prealloc_block_size);
      Base o           = baseline (sc, what);
      for (size_t i = 0; i < b.ok.size (); i++)
      {
        REQUIRE (o.ok[i] == b.ok[i], "prealloc", what << ": " << sc.steps[i].name << (o.ok[i] ? " succeeds" : " fails") << " unlike with " << first);
        REQUIRE (o.state[i + 1] == b.state[i + 1], "prealloc", what << ": after " << sc.steps[i].name << " the result is not that with " << first << " " << diff (b.state[i + 1], o.state[i + 1]));
      }
    }
    libmseed_prealloc_block_size = first;
  }
  if (!b.nalloc)
    return;
  g.nontrivial ();
  if (!anyok)
    g.label ("nothing succeeds");
  std::vector<uint64_t> ks;
  if (b.nalloc <= 10)
    for (uint64_t k = 0; k < b.nalloc; k++)
      ks.push_back (k);
  else
    for (int k = 0; k < 10; k++)
      ks.push_back (g.raw (b.nalloc));
  for (uint64_t k : ks)
    faulted (sc, b, k, g.chance (1, 3));
}

// ------------------------------------------------------------ records in words
std::string
json_norm (const char *p, size_t n)
{
  if (!p || !n)
    return fmt ("none/%zu", n);
  std::string t (p, n);
  Json j;
  if (!model::json_parse (t, j)) // those of a damaged record
    return "not JSON " + pbt::hexdump (t.data (), t.size (), 100000);
  return j.text ();
}
std::string
show_msr (const MS3Record *m, bool data = true)
{
  if (!m)
    return "no record";
  std::string s = fmt ("%s v%d %d bytes flags %02x start %lld rate %.17g enc %d pub %d cnt %lld crc %08x len %d/%u ", m->sid, m->formatversion, m->reclen, m->flags, (long long)m->starttime, m->samprate, m->encoding, m->pubversion, (long long)m->samplecnt, m->crc, m->extralength ? 1 : 0, m->datalength);
  s += json_norm (m->extra, m->extralength);
  if (data)
  {
    s += fmt (" data %lld", (long long)m->numsamples);
    if (m->numsamples > 0)
    {
      int size = ms_samplesize (m->sampletype);
      REQUIRE (m->datasamples && size && m->datasize >= (uint64_t)m->numsamples * size, "record-data", m->numsamples << " samples of type " << (int)m->sampletype << ", datasize " << m->datasize);
      auto it = mem::st ().table.find (m->datasamples);
      if (it != mem::st ().table.end ())
        REQUIRE (it->second >= m->datasize, "record-data", "datasize " << m->datasize << " of a buffer of " << it->second);
      s += fmt (" type %c ", m->sampletype) + pbt::hexdump (m->datasamples, (size_t)m->numsamples * size, 100000);
    }
  }
  return s;
}
std::string
show_list (const MS3TraceList *l)
{
  if (!l)
    return "no list";
  std::string s;
  for (auto &t : tl::read (l))
  {
    s += t.sid + fmt (" pub %d %lld-%lld\n", t.pubversion, (long long)t.earliest, (long long)t.latest);
    for (auto &x : t.segs)
    {
      s += fmt ("  %lld-%lld %.17g cnt %lld num %lld type %d ", (long long)x.start, (long long)x.end, x.rate, (long long)x.count, (long long)x.num, x.num > 0 ? x.type : 0) + pbt::hexdump (x.data.data (), x.data.size (), 100000) + "\n";
      for (auto *r : x.recs)
        s += fmt ("   %lld %u ", (long long)r->endtime, r->dataoffset) + show_msr (r->msr) + "\n";
    }
  }
  return s;
}
// copy of memory the library may release
char *
own (const std::string &t)
{
  Suspend s;
  char *p = (char *)mem::m_malloc (t.size ());
  memcpy (p, t.data (), t.size ());
  return p;
}
std::string
show_recs (const std::vector<Bytes> &v)
{
  std::string s = fmt ("%zu records", v.size ());
  for (auto &b : v)
    s += fmt (" %zu:", b.size ()) + pbt::hexdump (b.data (), b.size (), 100000);
  return s;
}

// ------------------------------------------------------------ facet: records
struct RecCtx : Ctx
{
  MS3Record *m = nullptr, *dup = nullptr;
  std::string packed = "nothing packed";
  bool trim          = false;
  std::string
  state () override
  {
    return show_msr (m) + "\n" + show_msr (dup) + "\n" + packed;
  }
  void
  fini () override
  {
    msr3_free (&m);
    msr3_free (&dup);
  }
};
template <class T>
T &
as (Ctx &c)
{
  return static_cast<T &> (c);
}

struct Source
{
  std::shared_ptr<Buf> buf;
  bool damaged = false;
};
Source
gen_source (Gen &g)
{
  Source s;
  Bytes b;
  switch (g.raw (3))
  {
  case 0:
  {
    Desc d = gen_desc (g, DescOpt{0, 60, true, true, 1, false});
    g.note (d.show () + "\n");
    Collector col;
    pack (d, col, nullptr, MSF_FLUSHDATA | (d.version == 2 ? MSF_PACKVER2 : 0));
    if (col.recs.empty ())
      DISCARD ();
    b = col.recs[0];
    break;
  }
  case 1: b = gen_foreign2 (g, true).rec; break;
  default:
  {
    Series ser;
    b = gen_foreign3 (g, ser).build ();
    break;
  }
  }
  if (b.size () > 20000 || v2_ambiguous (b))
    DISCARD ();
  if (g.chance (1, 6))
  {
    s.damaged = true;
    int n     = (int)g.range (1, 3);
    for (int k = 0; k < n; k++)
      b[g.index (b.size ())] ^= (uint8_t)(1 << g.raw (8));
    g.label ("damaged");
  }
  s.buf = std::make_shared<Buf> (b, (int)g.range (0, 7));
  g.note (fmt ("source %zu bytes ", b.size ()) + pbt::hexdump (b.data (), b.size (), 64) + "\n");
  return s;
}

static void
records (Gen &g)
{
  std::vector<Source> src;
  int nsrc = (int)g.range (1, 3);
  for (int k = 0; k < nsrc; k++)
    src.push_back (gen_source (g));
  Script sc;
  sc.what = "record";
  sc.make = [] { return std::unique_ptr<Ctx> (new RecCtx); };
  // a record that fails to parse or unpack leaves nothing that is promised
  auto drop = [] (Ctx &c) { msr3_free (&as<RecCtx> (c).m); };
  int n     = (int)g.range (2, 7);
  for (int k = 0; k < n; k++)
  {
    Step st;
    switch (k == 0 ? 0 : g.raw (9))
    {
    case 0:
    case 1:
    {
      Source s       = g.pick<Source> (src);
      uint32_t flags = (g.coin () ? MSF_UNPACKDATA : 0) | (g.chance (1, 3) ? MSF_VALIDATECRC : 0);
      st.name        = fmt ("parse %zu bytes with flags %x", s.buf->n, flags);
      st.run         = [s, flags] (Ctx &c) {
        RecCtx &r = as<RecCtx> (c);
        int rv    = msr3_parse ((const char *)s.buf->p, s.buf->n, &r.m, flags, 0);
        if (rv > 0) // wants more: nothing parsed
          msr3_free (&r.m);
        else if (rv < 0 && r.in_baseline)
          msr3_free (&r.m);
        return rv == MS_NOERROR;
      };
      st.after   = Step::CHECKED;
      st.check   = drop;
      st.message = false; // more data wanted, or a record that is none
      if (s.damaged)
      {
        auto run = st.run;
        st.run   = [run] (Ctx &c) {
          bool ok = run (c);
          if (!ok)
            msr3_free (&as<RecCtx> (c).m);
          return ok;
        };
      }
      break;
    }
    case 2:
      st.name = "unpack";
      st.run  = [] (Ctx &c) {
        RecCtx &r = as<RecCtx> (c);
        if (!r.m || !r.m->record || r.m->reclen <= 0)
          return true;
        int64_t want = r.m->samplecnt, got = msr3_unpack_data (r.m, 0);
        if (got != want && r.in_baseline)
          r.m->numsamples = 0;
        return got == want;
      };
      st.after = Step::CHECKED;
      st.check = [] (Ctx &c) {
        RecCtx &r = as<RecCtx> (c);
        show_msr (r.m);
      };
      st.message = false; // fewer samples than expected are a return value
      break;
    case 3:
    {
      bool data = g.coin ();
      st.name   = fmt ("duplicate %s", data ? "with data" : "header");
      st.run    = [data] (Ctx &c) {
        RecCtx &r = as<RecCtx> (c);
        if (!r.m)
          return true;
        MS3Record *d = msr3_duplicate (r.m, data);
        if (!d)
          return false;
        msr3_free (&r.dup);
        r.dup         = d;
        r.dup->record = nullptr;
        return true;
      };
      break;
    }
    case 4:
      st.name = "resize the buffer";
      st.run  = [] (Ctx &c) {
        RecCtx &r = as<RecCtx> (c);
        if (r.m && msr3_resize_buffer (r.m))
          return false;
        if (r.m && mem::st ().table.count (r.m->datasamples))
          mem::require_room (r.m, "resized record", true);
        return true;
      };
      break;
    case 5:
    {
      int64_t v = g.range (-9, 9);
      st.name   = fmt ("set /A to %lld", (long long)v);
      st.run    = [v] (Ctx &c) {
        RecCtx &r = as<RecCtx> (c);
        int64_t x = v;
        return !r.m || mseh_set_int64 (r.m, "/A", &x) == 0;
      };
      break;
    }
    case 6:
    case 7:
    {
      bool v2        = g.coin ();
      uint32_t flags = MSF_FLUSHDATA | (v2 ? MSF_PACKVER2 : 0);
      int reclen     = v2 ? 1024 << g.range (0, 2) : (int)g.range (900, 5000);
      int enc        = g.pick<int> ({-2, -2, DE_INT32, DE_STEIM1, DE_STEIM2, DE_FLOAT32, DE_FLOAT64, DE_TEXT});
      st.name        = fmt ("pack version %d, %d bytes, encoding %d", v2 ? 2 : 3, reclen, enc);
      st.run         = [=] (Ctx &c) {
        RecCtx &r = as<RecCtx> (c);
        if (!r.m)
          return true;
        MS3Record x = *r.m; // sharing extra headers and data
        x.reclen    = reclen;
        if (enc != -2)
          x.encoding = enc;
        Collector col;
        int64_t packed = -1;
        int rv         = msr3_pack (&x, collect, &col, &packed, flags, 0);
        if (rv <= 0)
        {
          // what has been handed out stays valid
          std::string done = show_recs (col.recs);
          REQUIRE (rv < 0 || col.recs.empty (), "pack-count", "no records according to the return value, but " << done);
          return false;
        }
        REQUIRE ((size_t)rv == col.recs.size (), "pack-count", rv << " records according to the return value, but " << col.recs.size ());
        r.packed = show_recs (col.recs) + fmt (" of %lld samples", (long long)packed);
        return true;
      };
      st.message = false; // nothing to pack is no error
      break;
    }
    default:
      st.name = "repack";
      st.run  = [] (Ctx &c) {
        RecCtx &r = as<RecCtx> (c);
        if (!r.m || !r.m->record)
          return true;
        std::vector<char> buf (r.m->reclen + 66000);
        MS3Record x = *r.m;
        int rv      = msr3_repack_mseed3 (&x, buf.data (), (uint32_t)buf.size (), 0);
        if (rv < 0)
          return false;
        r.packed = "repacked " + pbt::hexdump (buf.data (), rv, 100000);
        return true;
      };
    }
    sc.steps.push_back (st);
  }
  explore (g, sc);
}

// ------------------------------------------------------------ facet: extra headers
struct ExtCtx : Ctx
{
  MS3Record *m            = nullptr;
  LM_PARSED_JSON *parsed  = nullptr;
  std::string got;
  std::string
  state () override
  {
    return json_norm (m->extra, m->extralength) + "\n" + got;
  }
  void
  fini () override
  {
    mseh_free_parsestate (&parsed);
    msr3_free (&m);
  }
};
template <size_t N>
void
put (Gen &g, char (&dst)[N])
{
  std::string s = g.coin () ? "" : g.str ("ABCxyz 019", 1, 12);
  memset (dst, 0, N);
  memcpy (dst, s.data (), std::min (s.size (), N - 1));
}
static void
extras (Gen &g)
{
  std::string start;
  if (g.coin ())
  {
    Json o = g.coin () ? ext::gen_v2able (g, 2000) : Json::object ();
    int n  = (int)g.range (0, 4);
    for (int k = 0; k < n; k++)
      o.set (g.str ("ABCD", 1, 1), gen_json (g, 2));
    fix_utf8 (o);
    if (!ext::empty (o))
      start = o.text ();
  }
  g.note ("begins with " + start + "\n");
  bool keep = g.coin (); // a parsed state is kept between the calls
  Script sc;
  sc.what = keep ? "extra headers (parsed state)" : "extra headers";
  sc.make = [start] {
    ExtCtx *c = new ExtCtx;
    c->m      = msr3_init (nullptr);
    if (!start.empty ())
    {
      c->m->extra       = own (start);
      c->m->extralength = start.size ();
    }
    return std::unique_ptr<Ctx> (c);
  };
  int n = (int)g.range (1, 7);
  for (int k = 0; k < n; k++)
  {
    Step st;
    auto ps = [keep] (Ctx &c) { return keep ? &as<ExtCtx> (c).parsed : nullptr; };
    std::string ptr = g.pick<const char *> ({"/A", "/B", "/C/X", "/C/Y/Z", "/FDSN/Time/Quality", "/FDSN/Event/Detection", "/D"});
    switch (g.raw (11))
    {
    case 0:
    case 1:
    case 2:
    {
      char type     = g.pick<char> ({'n', 'i', 's', 'b'});
      double d      = g.range (-1000, 1000) / 8.0;
      int64_t i     = g.range (-1000, 1000);
      int bo        = (int)g.raw (2);
      std::string s = g.str ("abc xyz\"\\", 0, 300);
      st.name       = fmt ("set %s type %c", ptr.c_str (), type);
      st.run        = [=] (Ctx &c) {
        const void *p = type == 'n' ? (const void *)&d : type == 'i' ? (const void *)&i : type == 's' ? (const void *)s.c_str () : (const void *)&bo;
        return mseh_set_ptr_r (as<ExtCtx> (c).m, ptr.c_str (), (void *)p, type, ps (c)) == 0;
      };
      break;
    }
    case 3:
    {
      Json o = Json::object ();
      int q  = (int)g.range (1, 3);
      for (int x = 0; x < q; x++)
        o.set (g.str ("ABCDXYZ", 1, 1), g.chance (1, 3) ? Json () : gen_json (g, 1));
      fix_utf8 (o);
      std::string t = o.text ();
      std::string p = g.coin () ? "" : ptr;
      st.name       = "merge " + t + " at '" + p + "'";
      st.run        = [=] (Ctx &c) {
        std::string x = t;
        return mseh_set_ptr_r (as<ExtCtx> (c).m, p.c_str (), &x[0], 'M', ps (c)) == 0;
      };
      break;
    }
    case 4:
    {
      MSEHEventDetection d;
      memset (&d, 0, sizeof d);
      put (g, d.type), put (g, d.detector), put (g, d.wave), put (g, d.units);
      d.signalamplitude = g.range (0, 3);
      d.onsettime       = g.coin () ? NSTUNSET : gen_time (g);
      d.medsnr[2]       = (uint8_t)g.range (0, 3);
      d.medlookback     = (int)g.range (-1, 3);
      d.medpickalgorithm = (int)g.range (-1, 3);
      st.name = "add an event detection";
      st.run  = [=] (Ctx &c) { MSEHEventDetection x = d; return mseh_add_event_detection_r (as<ExtCtx> (c).m, nullptr, &x, ps (c)) == 0; };
      break;
    }
    case 5:
    {
      MSEHCalibration d;
      memset (&d, 0, sizeof d);
      put (g, d.type), put (g, d.trigger), put (g, d.inputunits), put (g, d.coupling), put (g, d.noise);
      d.begintime = gen_time (g);
      d.endtime   = NSTUNSET;
      d.steps = d.firstpulsepositive = d.alternatesign = d.continued = -1;
      st.name = "add a calibration";
      st.run  = [=] (Ctx &c) { MSEHCalibration x = d; return mseh_add_calibration_r (as<ExtCtx> (c).m, nullptr, &x, ps (c)) == 0; };
      break;
    }
    case 6:
    {
      if (g.coin ())
      {
        MSEHTimingException d;
        memset (&d, 0, sizeof d);
        put (g, d.type);
        d.time     = gen_time (g);
        d.usec     = (int)g.range (-1, 1);
        d.receptionquality = -1;
        d.count    = g.range (0, 2);
        st.name    = "add a timing exception";
        st.run     = [=] (Ctx &c) { MSEHTimingException x = d; return mseh_add_timing_exception_r (as<ExtCtx> (c).m, nullptr, &x, ps (c)) == 0; };
      }
      else
      {
        MSEHRecenter d;
        memset (&d, 0, sizeof d);
        put (g, d.type), put (g, d.trigger);
        d.begintime = gen_time (g);
        d.endtime   = NSTUNSET;
        st.name     = "add a recenter";
        st.run      = [=] (Ctx &c) { MSEHRecenter x = d; return mseh_add_recenter_r (as<ExtCtx> (c).m, nullptr, &x, ps (c)) == 0; };
      }
      break;
    }
    case 7:
    {
      std::string t;
      if (!g.chance (1, 5))
      {
        Json j = gen_json (g, 2);
        fix_utf8 (j);
        t = j.text ();
      }
      if (g.chance (1, 8))
        t = "{\"a\":";
      st.name = "replace by " + (t.empty () ? "nothing" : t);
      st.run  = [t] (Ctx &c) {
        std::string x = t;
        return mseh_replace (as<ExtCtx> (c).m, t.empty () ? nullptr : &x[0]) >= 0;
      };
      break;
    }
    case 8:
      if (keep)
      {
        st.name = "serialize";
        st.run  = [] (Ctx &c) { return mseh_serialize (as<ExtCtx> (c).m, &as<ExtCtx> (c).parsed) >= 0; };
        st.message = false; // nothing parsed, nothing to serialize
        break;
      }
      // fall through
    default:
    {
      char type = g.pick<char> ({'n', 'i', 's', 'b', 0});
      st.name   = fmt ("get %s type %d", ptr.c_str (), type);
      st.run    = [=] (Ctx &c) {
        ExtCtx &e = as<ExtCtx> (c);
        double n  = 0;
        int64_t i = 0;
        int b     = 0;
        char s[64] = "";
        void *p   = type == 'n' ? (void *)&n : type == 'i' ? (void *)&i : type == 's' ? (void *)s : type == 'b' ? (void *)&b : nullptr;
        int rv    = mseh_get_ptr_r (e.m, ptr.c_str (), p, type, sizeof s, keep ? &e.parsed : nullptr);
        if (rv < 0)
          return false;
        e.got = fmt ("%d %g %lld %s %d", rv, n, (long long)i, s, b);
        return true;
      };
    }
    }
    sc.steps.push_back (st);
  }
  if (keep)
  {
    Step st;
    st.name    = "serialize";
    st.run     = [] (Ctx &c) { return mseh_serialize (as<ExtCtx> (c).m, &as<ExtCtx> (c).parsed) >= 0; };
    st.message = false;
    sc.steps.push_back (st);
  }
  explore (g, sc);
}

// ------------------------------------------------------------ facet: trace lists from records
struct Piece
{
  int id, pos, n, pub;
  char type;
  int64_t first; // samples are first, first+1 ...
};
void
drop_list (MS3TraceList *&l)
{
  if (l)
    mstl3_free (&l, 1);
}
struct ListCtx : Ctx
{
  MS3TraceList *l = nullptr;
  bool recs       = false;
  std::vector<int> in; // how often each piece has been added
  size_t failures = 0;
  std::string
  state () override
  {
    return show_list (l);
  }
  void
  fini () override
  {
    drop_list (l);
  }
};
// everything that was added is there, and nothing else; records may be missing
// or too many after failures
std::string
verify (const MS3TraceList *l, const std::vector<Piece> &ps, const std::vector<int> &in, size_t failures, bool recs)
{
  std::multiset<std::pair<std::string, int64_t>> have;
  size_t nrecs = 0, npieces = 0;
  for (auto &t : tl::read (l))
  {
    int64_t lo = INT64_MAX, hi = INT64_MIN;
    for (auto &s : t.segs)
    {
      if (s.count != s.num)
        return fmt ("segment of %lld samples holds %lld", (long long)s.count, (long long)s.num);
      int size = ms_samplesize (s.type);
      for (int64_t k = 0; k < s.num; k++)
      {
        const char *p = s.data.data () + k * size;
        int64_t v     = 0;
        if (s.type == 'i')
        {
          int32_t x;
          memcpy (&x, p, 4);
          v = x;
        }
        else if (s.type == 'f')
        {
          float x;
          memcpy (&x, p, 4);
          v = (int64_t)x;
        }
        else
        {
          double x;
          memcpy (&x, p, 8);
          v = (int64_t)x;
        }
        have.insert ({t.sid, v});
      }
      size_t cnt = 0;
      for (auto *r : s.recs)
        cnt += r->msr->samplecnt;
      nrecs += s.recs.size ();
      if (recs && !failures && (int64_t)cnt != s.num)
        return fmt ("records of a segment of %lld samples hold %zu", (long long)s.num, cnt);
      lo = std::min (lo, s.start);
      hi = std::max (hi, s.end);
    }
    if (t.earliest != lo || t.latest != hi)
      return t.sid + " earliest and latest " + tstr (t.earliest) + " - " + tstr (t.latest) + " of segments " + tstr (lo) + " - " + tstr (hi);
  }
  std::multiset<std::pair<std::string, int64_t>> want;
  for (size_t k = 0; k < ps.size (); k++)
    for (int c = 0; c < in[k]; c++)
    {
      npieces++;
      for (int q = 0; q < ps[k].n; q++)
        want.insert ({fmt ("FDSN:XX_S%d__B_H_Z", ps[k].id), ps[k].first + q});
    }
  if (have == want)
  {
    if (recs && (nrecs + failures < npieces || nrecs > npieces + failures))
      return fmt ("%zu records listed of %zu", nrecs, npieces);
    return "";
  }
  return fmt ("%zu samples in the list, %zu have been added", have.size (), want.size ());
}

static void
lists (Gen &g)
{
  auto ps  = std::make_shared<std::vector<Piece>> ();
  int n    = (int)g.range (1, 9);
  bool recs = g.coin (), heal = g.coin (), split = g.chance (1, 3), mixed = g.chance (1, 6);
  int64_t ctr = 1;
  for (int k = 0; k < n; k++)
  {
    Piece p;
    p.id   = (int)g.raw (2);
    p.n    = (int)g.range (1, 6);
    p.pos  = (int)g.range (0, 5) * 3;
    if (k && g.coin ()) // next to one that is there
    {
      const Piece &o = (*ps)[g.index (ps->size ())];
      p.id           = o.id;
      p.pos          = g.coin () ? o.pos + o.n : o.pos - p.n;
    }
    p.pub   = g.chance (1, 4) ? 2 : 1;
    p.type  = mixed ? g.pick<char> ({'i', 'f', 'd'}) : 'i';
    p.first = ctr;
    ctr += 10;
    ps->push_back (p);
    g.note (fmt ("%d: id %d at %d, %d samples of type %c from %lld, version %d\n", k, p.id, p.pos, p.n, p.type, (long long)p.first, p.pub));
  }
  Script sc;
  sc.what = fmt ("list, %s records, %s, %s", recs ? "with" : "without", heal ? "healing" : "not healing", split ? "versions split" : "versions together");
  sc.make = [=] {
    ListCtx *c = new ListCtx;
    c->recs    = recs;
    c->l       = mstl3_init (nullptr);
    c->in.resize (ps->size ());
    return std::unique_ptr<Ctx> (c);
  };
  for (int k = 0; k < n; k++)
  {
    Step st;
    st.name = fmt ("add %d", k);
    st.run  = [=] (Ctx &c) {
      ListCtx &l     = as<ListCtx> (c);
      const Piece &p = (*ps)[k];
      MS3Record m;
      memset (&m, 0, sizeof m);
      snprintf (m.sid, sizeof m.sid, "FDSN:XX_S%d__B_H_Z", p.id);
      m.formatversion = 3;
      m.starttime     = 1000000000000000000LL + p.pos * 1000000000LL;
      m.samprate      = 1;
      m.encoding      = DE_INT32;
      m.pubversion    = (uint8_t)p.pub;
      m.reclen        = 512;
      char extra[]    = "{\"A\":1}";
      m.extra         = extra;
      m.extralength   = 7;
      std::vector<int32_t> vi;
      std::vector<float> vf;
      std::vector<double> vd;
      for (int q = 0; q < p.n; q++)
        vi.push_back ((int32_t)(p.first + q)), vf.push_back ((float)(p.first + q)), vd.push_back ((double)(p.first + q));
      m.sampletype  = p.type;
      m.datasamples = p.type == 'i' ? (void *)vi.data () : p.type == 'f' ? (void *)vf.data () : (void *)vd.data ();
      m.numsamples = m.samplecnt = p.n;
      m.datasize                 = (uint64_t)p.n * ms_samplesize (p.type);
      MS3RecordPtr *rp           = nullptr;
      MS3TraceSeg *seg           = mstl3_addmsr_recordptr (l.l, &m, recs ? &rp : nullptr, split, heal, 0, nullptr);
      if (!seg)
      {
        Suspend s;
        l.failures++;
        std::string why = verify (l.l, *ps, l.in, l.failures, recs);
        if (!why.empty ())
        {
          // wholly in the list, then
          l.in[k]++;
          if (verify (l.l, *ps, l.in, l.failures, recs).empty ())
            why = "";
        }
        REQUIRE (why.empty (), "list-after-failure", "after adding " << k << " fails: " << why);
        return false;
      }
      REQUIRE (!recs || rp, "record-pointer", "no record pointer is returned");
      if (rp)
        rp->dataoffset = (uint32_t)k;
      l.in[k]++;
      {
        Suspend s;
        std::string why = verify (l.l, *ps, l.in, l.failures, recs);
        REQUIRE (why.empty (), "list-content", "after adding " << k << ": " << why);
      }
      return true;
    };
    st.after = Step::CHECKED;
    st.retry = false;
    sc.steps.push_back (st);
  }
  explore (g, sc);
}

// ------------------------------------------------------------ facet: buffers to lists to records
struct BufCtx : Ctx
{
  MS3TraceList *l = nullptr;
  std::string packed;
  std::string
  state () override
  {
    return show_list (l) + packed;
  }
  void
  fini () override
  {
    drop_list (l);
  }
};
static void
add_list_steps (Gen &g, Script &sc, uint32_t readflags)
{
  int n      = (int)g.range (0, 4);
  bool freed = false;
  for (int k = 0; k < n && !freed; k++)
  {
    Step st;
    switch (g.raw (5))
    {
    case 0:
      if (!(readflags & MSF_RECORDLIST))
        continue;
      st.name = "unpack the record lists";
      st.run  = [] (Ctx &c) {
        for (MS3TraceID *id = as<BufCtx> (c).l->traces.next[0]; id; id = id->next[0])
          for (MS3TraceSeg *s = id->first; s; s = s->next)
            if (s->recordlist && !s->datasamples && mstl3_unpack_recordlist (id, s, nullptr, 0, 0) < 0)
              return false;
        return true;
      };
      st.after = Step::CHECKED; // earlier segments have been unpacked
      st.check = [] (Ctx &c) { show_list (as<BufCtx> (c).l); };
      break;
    case 1:
    {
      char type  = g.pick<char> ({'i', 'f', 'd'});
      bool trunc = g.coin ();
      st.name    = fmt ("convert to %c%s", type, trunc ? " with truncation" : "");
      st.run     = [=] (Ctx &c) {
        bool ok = true;
        for (MS3TraceID *id = as<BufCtx> (c).l->traces.next[0]; id; id = id->next[0])
          for (MS3TraceSeg *s = id->first; s; s = s->next)
            if (s->datasamples && s->sampletype != 't' && s->sampletype != type)
            {
              std::string before;
              {
                Suspend q;
                before = tl::read_seg (s).show ();
              }
              if (mstl3_convertsamples (s, type, trunc))
              {
                Suspend q;
                std::string now = tl::read_seg (s).show ();
                REQUIRE (now == before, "convert-changed", "failing conversion to " << type << " changes " << before << " to " << now);
                ok = false;
                break;
              }
            }
        return ok;
      };
      st.after = Step::CHECKED;
      st.check = [] (Ctx &c) { show_list (as<BufCtx> (c).l); };
      break;
    }
    case 2:
      st.name = "resize the buffers";
      st.run  = [] (Ctx &c) {
        if (mstl3_resize_buffers (as<BufCtx> (c).l))
          return false;
        for (MS3TraceID *id = as<BufCtx> (c).l->traces.next[0]; id; id = id->next[0])
          for (MS3TraceSeg *s = id->first; s; s = s->next)
            if (mem::st ().table.count (s->datasamples))
              mem::require_room (s, "resized segment", true);
        return true;
      };
      break;
    default:
    {
      bool keep      = g.coin ();
      bool flush     = g.coin ();
      bool v2        = g.coin ();
      int reclen     = 256 << g.range (0, 3);
      uint32_t flags = (keep ? MSF_MAINTAINMSTL : 0) | (flush ? MSF_FLUSHDATA : 0) | (v2 ? MSF_PACKVER2 : 0);
      bool extra     = g.chance (1, 4);
      st.name        = fmt ("pack the list, flags %x, %d bytes%s", flags, reclen, extra ? ", extra headers" : "");
      st.run         = [=] (Ctx &c) {
        BufCtx &b = as<BufCtx> (c);
        Collector col;
        int64_t packed = 0;
        char ex[]      = "{\"FDSN\":{\"Time\":{\"Quality\":50}}}";
        int64_t rv     = mstl3_pack (b.l, collect, &col, reclen, -1, &packed, flags, 0, extra ? ex : nullptr);
        if (rv < 0)
          return false;
        REQUIRE ((size_t)rv == col.recs.size (), "pack-count", rv << " records according to the return value, but " << col.recs.size ());
        b.packed += show_recs (col.recs);
        return true;
      };
      if (!keep)
      {
        st.after = Step::CHECKED;
        st.check = [] (Ctx &c) { show_list (as<BufCtx> (c).l); };
        st.retry = false; // some may have been packed
      }
      st.message = false;
    }
    }
    sc.steps.push_back (st);
  }
}
struct Sels
{
  MS3Selections *p = nullptr;
  Sels () {}
  ~Sels () { ms3_freeselections (p); }
};
static void
buffers (Gen &g)
{
  store::Opt so;
  so.maxn      = 60;
  so.maxpieces = 5;
  so.pubs      = g.chance (1, 4);
  so.mixtypes  = g.chance (1, 8);
  so.nob1000   = false;
  auto bytes   = std::make_shared<Bytes> (store::join (store::gen (g, so)));
  if (bytes->size () > 60000)
    DISCARD ();
  if (g.chance (1, 8))
  {
    g.label ("damaged");
    int n = (int)g.range (1, 3);
    for (int k = 0; k < n; k++)
      (*bytes)[g.index (bytes->size ())] ^= (uint8_t)(1 << g.raw (8));
  }
  g.note (fmt ("%zu bytes of records\n", bytes->size ()));
  uint32_t flags = (g.chance (2, 3) ? MSF_UNPACKDATA : 0) | (g.coin () ? MSF_RECORDLIST : 0) | (g.chance (1, 4) ? MSF_SKIPNOTDATA : 0) | (g.chance (1, 3) ? MSF_VALIDATECRC : 0);
  bool split     = g.coin ();
  Sels sel;
  if (g.chance (1, 3))
    ms3_addselect (&sel.p, "*", g.coin () ? NSTUNSET : gen_time (g), NSTUNSET, 0);
  Script sc;
  sc.what = fmt ("buffer, flags %x%s", flags, sel.p ? ", selection" : "");
  // the selection is made for each run so that all memory is accounted for
  bool use       = sel.p != nullptr;
  int64_t selat  = use ? sel.p->timewindows->starttime : 0;
  sc.make        = [] { return std::unique_ptr<Ctx> (new BufCtx); };
  ms3_freeselections (sel.p);
  sel.p = nullptr;
  Step st;
  st.name = "read";
  st.run  = [=] (Ctx &c) {
    BufCtx &b = as<BufCtx> (c);
    Sels s;
    if (use)
    {
      Suspend q;
      ms3_addselect (&s.p, "*", selat, NSTUNSET, 0);
    }
    int64_t rv = use ? mstl3_readbuffer_selection (&b.l, (const char *)bytes->data (), bytes->size (), split, flags, nullptr, s.p, 0)
                     : mstl3_readbuffer (&b.l, (const char *)bytes->data (), bytes->size (), split, flags, nullptr, 0);
    if (rv >= 0)
      b.packed = fmt ("%lld records read\n", (long long)rv);
    return rv >= 0;
  };
  st.after = Step::CHECKED;
  st.check = [] (Ctx &c) {
    BufCtx &b = as<BufCtx> (c);
    show_list (b.l);
    drop_list (b.l);
  };
  st.message = false; // CRC
  sc.steps.push_back (st);
  Step init;
  init.name = "have a list";
  init.run  = [] (Ctx &c) {
    BufCtx &b = as<BufCtx> (c);
    if (!b.l)
    {
      Suspend q;
      b.l = mstl3_init (nullptr);
    }
    return true;
  };
  sc.steps.push_back (init);
  add_list_steps (g, sc, flags);
  explore (g, sc);
}

// ------------------------------------------------------------ facet: files
struct FileCtx : BufCtx
{
  MS3FileParam *fp = nullptr;
  MS3Record *m     = nullptr;
  std::string read;
  std::string
  state () override
  {
    return BufCtx::state () + read;
  }
  void
  fini () override
  {
    if (fp)
      ms3_readmsr_r (&fp, &m, nullptr, 0, 0);
    msr3_free (&m);
    BufCtx::fini ();
  }
};
static void
filesf (Gen &g)
{
  std::string path = scratch_dir () + "/in.mseed", out = scratch_dir () + "/out.mseed";
  files::FileOpt fo;
  fo.maxn  = 40;
  fo.dirty = g.chance (1, 3);
  auto f   = std::make_shared<files::File> (files::gen_file (g, path, fo));
  if (f->bytes.size () > 60000)
    DISCARD ();
  store::write_file (path, f->bytes);
  g.note (f->show ());
  uint32_t flags = (g.chance (2, 3) ? MSF_UNPACKDATA : 0) | (g.coin () ? MSF_SKIPNOTDATA : 0) | (g.chance (1, 3) ? MSF_VALIDATECRC : 0);
  Script sc;
  sc.make = [] { return std::unique_ptr<Ctx> (new FileCtx); };
  bool sel = g.chance (1, 4);
  if (g.coin ())
  {
    sc.what = fmt ("reading records of a file, flags %x%s", flags, sel ? ", selection" : "");
    Step st;
    st.name = "read all";
    st.run  = [=] (Ctx &c) {
      FileCtx &x = as<FileCtx> (c);
      std::vector<std::string> got;
      Sels s;
      if (sel)
      {
        Suspend q;
        ms3_addselect (&s.p, "*", NSTUNSET, NSTUNSET, 0);
      }
      int rv;
      while ((rv = sel ? ms3_readmsr_selection (&x.fp, &x.m, path.c_str (), flags, s.p, 0) : ms3_readmsr_r (&x.fp, &x.m, path.c_str (), flags, 0)) == MS_NOERROR)
      {
        Suspend q;
        got.push_back (show_msr (x.m));
        REQUIRE (got.size () < 10000, "endless", "endless reading");
      }
      if (rv != MS_ENDOFFILE && !x.m)
        got.push_back ("no record");
      if (rv != MS_ENDOFFILE)
      {
        REQUIRE (!x.m, "record-after-error", "a record is left after error " << rv);
        ms3_readmsr_r (&x.fp, &x.m, nullptr, 0, 0);
        return false;
      }
      // closing
      REQUIRE (ms3_readmsr_r (&x.fp, &x.m, nullptr, 0, 0) == MS_NOERROR && !x.fp && !x.m, "closing", "closing fails");
      x.read.clear ();
      for (auto &t : got)
        x.read += t + "\n";
      return true;
    };
    st.message = false;
    st.skips   = flags & MSF_SKIPNOTDATA;
    sc.steps.push_back (st);
  }
  else
  {
    flags |= g.coin () ? MSF_RECORDLIST : 0;
    bool split = g.coin ();
    sc.what    = fmt ("reading a file into a list, flags %x%s", flags, sel ? ", selection" : "");
    Step st;
    st.name = "read";
    st.run  = [=] (Ctx &c) {
      FileCtx &x = as<FileCtx> (c);
      Sels s;
      if (sel)
      {
        Suspend q;
        ms3_addselect (&s.p, "*", NSTUNSET, NSTUNSET, 0);
      }
      int rv = sel ? ms3_readtracelist_selection (&x.l, path.c_str (), nullptr, s.p, split, flags, 0)
                   : ms3_readtracelist (&x.l, path.c_str (), nullptr, split, flags, 0);
      return rv == MS_NOERROR;
    };
    st.after = Step::CHECKED;
    st.check = [] (Ctx &c) {
      BufCtx &b = as<FileCtx> (c);
      show_list (b.l);
      drop_list (b.l);
    };
    st.message = false;
    st.skips   = flags & MSF_SKIPNOTDATA;
    sc.steps.push_back (st);
    Step init;
    init.name = "have a list";
    init.run  = [] (Ctx &c) {
      BufCtx &b = as<FileCtx> (c);
      if (!b.l)
      {
        Suspend q;
        b.l = mstl3_init (nullptr);
      }
      return true;
    };
    sc.steps.push_back (init);
    add_list_steps (g, sc, flags);
    if (g.coin ())
    {
      bool flush     = g.coin ();
      uint32_t wf    = (flush ? MSF_FLUSHDATA : 0) | (g.coin () ? MSF_PACKVER2 : 0);
      bool over      = g.coin ();
      Step w;
      w.name = fmt ("write the list, flags %x", wf);
      w.run  = [=] (Ctx &c) {
        FileCtx &x = as<FileCtx> (c);
        unlink (out.c_str ());
        int64_t rv = mstl3_writemseed (x.l, out.c_str (), over, 512, -1, wf, 0);
        if (rv < 0)
          return false;
        FILE *fh = fopen (out.c_str (), "rb");
        REQUIRE (fh || rv == 0, "no-file", "no file written");
        std::string all;
        if (fh)
        {
          char b[4096];
          size_t k;
          while ((k = fread (b, 1, sizeof b, fh)) > 0)
            all.append (b, k);
          fclose (fh);
        }
        x.read = fmt ("%lld written ", (long long)rv) + pbt::hexdump (all.data (), all.size (), 200000);
        return true;
      };
      w.message = false;
      sc.steps.push_back (w);
    }
  }
  explore (g, sc);
}

// ------------------------------------------------------------ facet: selections, leap seconds, messages
struct MiscCtx : Ctx
{
  MS3Selections *s = nullptr;
  LeapSecond *leap = nullptr;
  MSLogParam *log  = nullptr;
  bool ownlog      = false;
  std::string got;
  std::vector<std::pair<std::string, int64_t>> probes;
  std::string
  state () override
  {
    std::string r = got;
    for (auto &p : probes)
    {
      const MS3SelectTime *t = nullptr;
      const MS3Selections *m = ms3_matchselect (s, p.first.c_str (), p.second, p.second + 1000, 1, &t);
      r += m ? fmt (" %s %lld", m->sidpattern, t ? (long long)t->starttime : 1) : " -";
    }
    for (LeapSecond *x = leapsecondlist; x; x = x->next)
      r += fmt (" %lld:%d", (long long)x->leapsecond, x->TAIdelta);
    return r;
  }
  LeapSecond *before = leapsecondlist;
  void
  fini () override
  {
    ms3_freeselections (s);
    s = nullptr;
    if (leapsecondlist != before)
      for (LeapSecond *x = leapsecondlist, *n; x; x = n)
      {
        n = x->next;
        libmseed_memory.free (x);
      }
    leapsecondlist = before;
    if (log)
    {
      ms_rlog_free (log);
      if (ownlog)
        libmseed_memory.free (log);
    }
    log = nullptr;
  }
};
thread_local std::string *t_emitted;
void
emitted (const char *m)
{
  if (t_emitted)
    *t_emitted += m;
}

static void
misc (Gen &g)
{
  Script sc;
  int which = (int)g.raw (3);
  if (which == 0)
  {
    sc.what = "selections";
    std::vector<std::pair<std::string, int64_t>> probes;
    for (int k = 0; k < 6; k++)
      probes.push_back ({fmt ("FDSN:XX_%c%c__B_H_Z", "AB"[g.raw (2)], "AB"[g.raw (2)]), g.range (0, 5) * 1000000000LL});
    sc.make = [probes] {
      MiscCtx *c = new MiscCtx;
      c->probes  = probes;
      return std::unique_ptr<Ctx> (c);
    };
    int n = (int)g.range (1, 8);
    for (int k = 0; k < n; k++)
    {
      Step st;
      int64_t from = g.coin () ? NSTUNSET : g.range (0, 5) * 1000000000LL, to = g.coin () ? NSTUNSET : g.range (0, 5) * 1000000000LL;
      uint8_t pub = (uint8_t)g.range (0, 2);
      if (g.chance (1, 4))
      {
        std::string path = scratch_dir () + fmt ("/sel%d", k), text;
        int q            = (int)g.range (0, 5);
        for (int x = 0; x < q; x++)
          text += g.pick<const char *> ({"FDSN:XX_A*  1970-01-01T00:00:02 1970-01-01T00:00:04\n", "XX AB * BHZ\n", "# comment\n", "*\n", "XX B? -- B?Z 2 1970-01-01T00:00:01\n", "XX B? * * * 1970-99-99T00:00:00\n", "* 1970-01-01 1970-01-02 999\n", "a b c d e f g\n"});
        store::write_file (path, Bytes (text.begin (), text.end ()));
        st.name = "read " + quote (text);
        st.run  = [=] (Ctx &c) { return ms3_readselectionsfile (&as<MiscCtx> (c).s, path.c_str ()) >= 0; };
        st.after = Step::CHECKED; // the lines before have been added
        st.retry = false;
        st.check = [] (Ctx &c) { c.state (); };
      }
      else if (g.coin ())
      {
        std::string pat = g.pick<const char *> ({"*", "FDSN:XX_A*", "FDSN:XX_?A__B_H_Z", "FDSN:XX_BB__B_H_Z", "*Z"});
        st.name         = "add " + pat;
        st.run          = [=] (Ctx &c) { return ms3_addselect (&as<MiscCtx> (c).s, pat.c_str (), from, to, pub) == 0; };
      }
      else
      {
        std::string sta = g.pick<const char *> ({"*", "A?", "AB", "?B"}), cha = g.pick<const char *> ({"BHZ", "B?Z", "*"});
        st.name         = "add station " + sta + " channel " + cha;
        st.run          = [=] (Ctx &c) { return ms3_addselect_comp (&as<MiscCtx> (c).s, (char *)"XX", (char *)sta.c_str (), (char *)"--", (char *)cha.c_str (), from, to, pub) == 0; };
      }
      sc.steps.push_back (st);
    }
  }
  else if (which == 1)
  {
    sc.what          = "leap seconds";
    sc.make          = [] { return std::unique_ptr<Ctx> (new MiscCtx); };
    int n            = (int)g.range (1, 3);
    for (int k = 0; k < n; k++)
    {
      std::string path = scratch_dir () + fmt ("/leap%d", k), t;
      int q            = (int)g.range (0, 8);
      for (int x = 0; x < q; x++)
        t += fmt ("%lld %d # x\n", 2272060800LL + 10000000LL * (x + g.range (0, 0)), 10 + x);
      FILE *f = fopen (path.c_str (), "w");
      fputs (t.c_str (), f);
      fclose (f);
      Step st;
      st.name  = fmt ("read %d leap seconds", q);
      st.run   = [=] (Ctx &) { return ms_readleapsecondfile (path.c_str ()) == q; };
      st.after = Step::CHECKED;
      st.check = [=] (Ctx &) {
        int at = 0;
        for (LeapSecond *x = leapsecondlist; x; x = x->next, at++)
          REQUIRE (at < q && x->TAIdelta == 10 + at, "leap-list", "entry " << at << " of the list after a failure has delta " << x->TAIdelta);
      };
      sc.steps.push_back (st);
    }
  }
  else
  {
    sc.what  = "messages";
    int max  = (int)g.range (1, 5);
    bool own = g.coin ();
    auto lp  = std::make_shared<MSLogParam> (MSLogParam (MSLogParam_INITIALIZER));
    sc.make  = [] { return std::unique_ptr<Ctx> (new MiscCtx); };
    Step st;
    st.name = own ? "log parameters from the library" : "log parameters";
    st.run  = [=] (Ctx &c) {
      MiscCtx &m = as<MiscCtx> (c);
      if (!own)
        *lp = MSLogParam (MSLogParam_INITIALIZER);
      MSLogParam *p = ms_rloginit_l (own ? nullptr : lp.get (), emitted, "", emitted, "", max);
      if (!p)
        return false;
      m.log    = p;
      m.ownlog = own;
      return true;
    };
    sc.steps.push_back (st);
    int n = (int)g.range (1, 8);
    for (int k = 0; k < n; k++)
    {
      Step s;
      if (g.chance (2, 3))
      {
        s.name = fmt ("message %d", k);
        s.run  = [=] (Ctx &c) { return ms_rlog_l (as<MiscCtx> (c).log, "f", 2, "message %d\n", k) > 0; };
        // the message is lost; that is said on the standard error output
        s.after = Step::CHECKED;
        s.retry = false;
      }
      else
      {
        int cnt = (int)g.range (0, 3);
        s.name  = fmt ("emit %d", cnt);
        s.run   = [=] (Ctx &c) {
          MiscCtx &m = as<MiscCtx> (c);
          std::string t;
          t_emitted = &t;
          int rv    = ms_rlog_emit (m.log, cnt, 0);
          t_emitted = nullptr;
          m.got += t;
          return rv >= 0;
        };
      }
      s.message = false;
      sc.steps.push_back (s);
    }
  }
  explore (g, sc);
}
} // namespace

namespace pbt {
Property property = {"P19",
                     "one script of library calls in which at least one allocation was made to fail",
                     {{"records", 4, records}, {"extras", 4, extras}, {"lists", 5, lists}, {"buffers", 4, buffers}, {"files", 3, filesf}, {"misc", 2, misc}},
                     std_reset,
                     nullptr};
}
