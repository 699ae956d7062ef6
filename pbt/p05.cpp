// P05: record checksums are exact and every corruption is rejected
#include "foreign.hpp"
#include <sys/mman.h>
#include <unistd.h>
using namespace pbt;

// bytes in read-only memory that ends right after them
struct ReadOnly
{
  static const size_t SIZE = 1 << 22;
  const uint8_t *p;
  static uint8_t *
  area ()
  {
    static uint8_t *a = nullptr;
    if (!a)
    {
      a = (uint8_t *)mmap (nullptr, SIZE + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
      if (a == MAP_FAILED)
        pbt::fail ("harness", "mmap");
      mprotect (a + SIZE, 4096, PROT_NONE);
    }
    return a;
  }
  size_t first, len;
  ReadOnly (const Bytes &b)
  {
    uint8_t *a = area ();
    if (b.size () > SIZE)
      pbt::fail ("harness", "record too long");
    uint8_t *q = a + SIZE - b.size ();
    first      = (SIZE - b.size ()) / 4096 * 4096;
    len        = SIZE - first;
    mprotect (a + first, len, PROT_READ | PROT_WRITE);
    memcpy (q, b.data (), b.size ());
    mprotect (a + first, len, PROT_READ);
    p = q;
  }
};

static Bytes
gen_bytes (Gen &g, size_t n)
{
  Bytes b (n);
  int style = (int)g.range (0, 3);
  for (size_t k = 0; k < n; k++)
    b[k] = style == 0 ? (uint8_t)g.raw (256) : style == 1 ? 0 : style == 2 ? 0xff : (uint8_t)k;
  if (style && n)
    for (int k = (int)g.range (0, 3); k > 0; k--)
      b[g.index (n)] = (uint8_t)g.raw (256);
  return b;
}

static void
value (Gen &g)
{
  size_t n   = (size_t)(g.chance (1, 100) ? g.range (60000, 300000) : g.size (1, g.chance (1, 20) ? 20000 : 600));
  Bytes b    = gen_bytes (g, n);
  int align  = (int)g.range (0, 15);
  uint32_t prev = g.coin () ? 0 : (uint32_t)g.raw (1ull << 32);
  g.note (fmt ("crc of %zu bytes at alignment %d after %08x: ", n, align, prev) + hexdump (b.data (), n, 64));
  Buf buf (b, align);
  uint32_t want = model::crc32c (b.data (), n, prev);
  uint32_t got  = ms_crc32c (buf.p, (int)n, prev);
  REQUIRE (got == want, "value", fmt ("%08x want %08x", got, want));
  // any split into pieces
  uint32_t c = prev;
  size_t at  = 0;
  std::string cuts;
  while (at < n)
  {
    size_t k = (size_t)g.size (1, (int64_t)(n - at));
    c        = ms_crc32c (buf.p + at, (int)k, c);
    at += k;
    cuts += fmt (" %zu", k);
  }
  REQUIRE (c == want, "split", fmt ("%08x want %08x with pieces", c, want) << cuts);
  if (n > 8)
    g.nontrivial ();
}

// --------------------------------------------------------------------- acceptance
static bool
header_ok (const Bytes &b)
{
  return b.size () >= 40 && b[0] == 'M' && b[1] == 'S' && b[2] == 3 && b[12] <= 23 && b[13] <= 59 && b[14] <= 60;
}
static bool
crc_ok (const Bytes &b, size_t len)
{
  Bytes c (b.begin (), b.begin () + len);
  model::put (c, 28, 0, 4, false);
  return model::crc32c (c.data (), len) == model::get (&b[28], 4, false);
}
static uint64_t
declared (const Bytes &b)
{
  return 40 + (uint64_t)b[33] + model::get (&b[34], 2, false) + model::get (&b[36], 4, false);
}

// compare the result of a validating parse with what the bytes say
static int
judge (Gen &g, const Bytes &b, uint32_t extraflags, const char *what)
{
  ReadOnly ro (b);
  MS3Record *m = nullptr;
  if (g.chance (1, 4))
    m = msr3_init (nullptr);
  int rv       = msr3_parse ((const char *)ro.p, b.size (), &m, MSF_VALIDATECRC | extraflags, 0);
  Bytes after (ro.p, ro.p + b.size ());
  REQUIRE (after == b, "modified", what << ": parsing changed the record");
  bool hdr     = header_ok (b);
  uint64_t len = hdr ? declared (b) : 0;
  if (!hdr)
  {
    // may be taken for a version 2 header only if it starts like one, which "MS" cannot
    if (b[0] == 'M' || b[0] == 'S')
      REQUIRE (rv == MS_NOTSEED, "notseed", what << ": returns " << rv);
    else
      REQUIRE (rv != MS_NOERROR || !m || m->formatversion != 3, "accepted", what << ": accepted without a header");
  }
  else if (len > MAXRECLEN)
    REQUIRE (rv == MS_OUTOFRANGE, "range", what << ": length " << len << " returns " << rv);
  else if (len > b.size ())
    REQUIRE (rv > 0, "hint", what << ": length " << len << " of " << b.size () << " returns " << rv);
  else if (b[33] > 63)
    REQUIRE (rv < 0, "sid", what << ": identifier of " << (int)b[33] << " bytes returns " << rv);
  else if (!crc_ok (b, len))
    REQUIRE (rv == MS_INVALIDCRC, "corrupt-accepted", what << ": record with a wrong checksum returns " << rv);
  else
    REQUIRE (rv != MS_INVALIDCRC, "valid-rejected", what << ": record with a matching checksum is rejected for it");
  if (rv == MS_NOERROR && m && m->formatversion == 3)
    REQUIRE (m->crc == model::get (&b[28], 4, false), "crc-field", what << ": field " << m->crc);
  if (m)
    msr3_free (&m);
  if (hdr && len <= b.size () && b[33] <= 63)
  {
    // without validation the checksum is never a reason to refuse
    int rv2 = msr3_parse ((const char *)ro.p, b.size (), &m, extraflags, 0);
    REQUIRE (rv2 != MS_INVALIDCRC, "unasked", what << ": checksum validated without the flag");
    if (rv == MS_NOERROR)
      REQUIRE (rv2 == MS_NOERROR, "unasked", what << ": accepted with validation, refused (" << rv2 << ") without");
    if (m)
      msr3_free (&m);
  }
  return rv;
}

static Bytes
gen_v3 (Gen &g)
{
  if (g.chance (2, 3))
  {
    Series s;
    model::Rec3 r = gen_foreign3 (g, s);
    if (g.chance (1, 200)) // a long payload
    {
      size_t n = r.data.size () + (size_t)g.range (1000, 1500000);
      r.data.resize (n, (uint8_t)g.raw (256));
    }
    return r.build ();
  }
  DescOpt o;
  o.version   = 3;
  o.maxn      = 600;
  o.bigreclen = false;
  Desc d      = gen_desc (g, o);
  Collector c;
  int64_t pk = 0;
  int rv     = pack (d, c, &pk, MSF_FLUSHDATA);
  REQUIRE (rv > 0 && rv == (int)c.recs.size (), "pack", "msr3_pack returns " << rv << "; " << lg::diag ());
  return c.recs[g.index (c.recs.size ())];
}

static void
burst (Gen &g)
{
  Bytes b = gen_v3 (g);
  Bytes o = b;
  int rv  = judge (g, b, g.coin () ? MSF_UNPACKDATA : 0, "intact record");
  REQUIRE (rv == MS_NOERROR, "intact", "an intact record returns " << rv << "; " << lg::diag ());
  // a change confined to 32 consecutive bits, on one side of or inside the checksum field
  size_t lo, hi; // bit range
  switch (g.weighted ({4, 1, 1}))
  {
  case 0: lo = 32 * 8; hi = b.size () * 8; break;
  case 1: lo = 0; hi = 28 * 8; break;
  default: lo = 28 * 8; hi = 32 * 8;
  }
  size_t width = (size_t)g.size (1, 32);
  if (width > hi - lo)
    width = hi - lo;
  size_t at = lo + (g.chance (1, 5) ? hi - lo - width : g.index (hi - lo - width + 1));
  bool any  = false;
  for (size_t k = 0; k < width; k++)
    if (k == 0 || k == width - 1 || g.coin ())
    {
      b[(at + k) / 8] ^= 1 << ((at + k) % 8);
      any = true;
    }
  g.note (fmt ("record of %zu bytes, %zu bits changed at bit %zu: ", b.size (), width, at) + hexdump (o.data (), o.size (), 120));
  REQUIRE (any && b != o, "harness", "no change");
  rv = judge (g, b, g.coin () ? MSF_UNPACKDATA : 0, "corrupted record");
  REQUIRE (rv != MS_NOERROR, "burst-accepted", "a corrupted record is accepted");
  // with the lengths intact the error is the checksum
  if (header_ok (b) && declared (b) == declared (o) && b[33] == o[33])
    REQUIRE (rv == MS_INVALIDCRC, "burst-error", "returns " << rv);
  // a matching checksum makes it acceptable again, as far as the checksum goes
  if (header_ok (b) && declared (b) == b.size ())
  {
    model::put (b, 28, 0, 4, false);
    model::put (b, 28, model::crc32c (b.data (), b.size ()), 4, false);
    rv = judge (g, b, 0, "record with renewed checksum");
    REQUIRE (rv != MS_INVALIDCRC, "renewed", "returns " << rv);
  }
  if (b.size () > 60)
    g.nontrivial ();
  g.label (at >= 320 ? "change in body" : at >= 224 && at < 256 ? "change in checksum" : "change in header");
}

// any change at all: accepted if and only if the bytes carry their checksum
static void
anychange (Gen &g)
{
  Bytes b = gen_v3 (g);
  int n   = (int)g.range (1, 6);
  for (int k = 0; k < n; k++)
  {
    switch (g.weighted ({4, 2, 1, 1}))
    {
    case 0: b[g.index (b.size ())] ^= (uint8_t)g.range (1, 255); break;
    case 1: b[3 + g.index (37)] = (uint8_t)g.raw (256); break;
    case 2: // exchange two stretches
    {
      size_t w = (size_t)g.range (1, 8);
      if (b.size () > 2 * w)
      {
        size_t i = g.index (b.size () - w + 1), j = g.index (b.size () - w + 1);
        for (size_t q = 0; q < w; q++)
          std::swap (b[i + q], b[j + q]);
      }
      break;
    }
    default:
      if (g.coin ())
        b.push_back ((uint8_t)g.raw (256));
      else if (b.size () > 41)
        b.pop_back ();
    }
  }
  if (g.chance (1, 3) && declared (b) <= b.size ())
  {
    size_t len = declared (b);
    model::put (b, 28, 0, 4, false);
    model::put (b, 28, model::crc32c (b.data (), len), 4, false);
    g.label ("renewed");
  }
  g.note (fmt ("changed record of %zu bytes: ", b.size ()) + hexdump (b.data (), b.size (), 160));
  judge (g, b, g.coin () ? MSF_UNPACKDATA : 0, "changed record");
  if (b.size () > 60)
    g.nontrivial ();
}

// reading a buffer or a file with validation stops at the corrupted record
static void
reading (Gen &g)
{
  int n = (int)g.range (1, 6), bad = g.chance (1, 4) ? -1 : (int)g.range (0, n - 1);
  Bytes all;
  std::vector<size_t> off;
  for (int k = 0; k < n; k++)
  {
    Bytes b = gen_v3 (g);
    if (k == bad)
    {
      size_t at = b.size () > 40 && g.chance (2, 3) ? 40 + g.index (b.size () - 40) : 16 + g.index (17); // not the lengths
      b[at] ^= 1 << g.range (0, 7);
      g.note (fmt ("record %d byte %zu changed; ", k, at));
    }
    off.push_back (all.size ());
    all.insert (all.end (), b.begin (), b.end ());
  }
  g.note (fmt ("%d records, %zu bytes: ", n, all.size ()) + hexdump (all.data (), all.size (), 100));
  if (g.coin ())
  {
    std::string path = scratch_dir () + "/crc.mseed";
    FILE *f          = fopen (path.c_str (), "wb");
    REQUIRE (f && fwrite (all.data (), 1, all.size (), f) == all.size () && fclose (f) == 0, "harness", "write");
    MS3FileParam *fp = nullptr;
    MS3Record *m     = nullptr;
    int k = 0, rv;
    while ((rv = ms3_readmsr_r (&fp, &m, path.c_str (), MSF_VALIDATECRC | (g.coin () ? MSF_UNPACKDATA : 0), 0)) == MS_NOERROR)
    {
      REQUIRE (k < n && m->record && fp->streampos == (int64_t)(k + 1 < n ? off[k + 1] : all.size ()), "file-order", "record " << k);
      k++;
    }
    ms3_readmsr_r (&fp, &m, nullptr, 0, 0);
    unlink (path.c_str ());
    REQUIRE (k == (bad < 0 ? n : bad), "file-count", k << " records accepted, want " << (bad < 0 ? n : bad));
    REQUIRE (rv == (bad < 0 ? MS_ENDOFFILE : MS_INVALIDCRC), "file-error", "ends with " << rv << "; " << lg::diag ());
  }
  else
  {
    MS3TraceList *l = nullptr;
    int64_t rv      = mstl3_readbuffer (&l, (const char *)all.data (), all.size (), 0, MSF_VALIDATECRC, nullptr, 0);
    if (bad < 0)
      REQUIRE (rv == n, "buffer-count", "returns " << rv << " want " << n << "; " << lg::diag ());
    else
      REQUIRE (rv == MS_INVALIDCRC || (rv < 0), "buffer-error", "returns " << rv << " with record " << bad << " corrupted");
    mstl3_free (&l, 0);
  }
  if (n > 1)
    g.nontrivial ();
  g.label (bad < 0 ? "all intact" : "one corrupted");
}

namespace pbt {
Property property = {
    "P05",
    "A case computes a checksum over generated bytes, alignments and splits against a bitwise model, or parses a generated version 3 record, intact or "
    "with generated changes, from read-only memory and compares the result with the model's; non-trivial: more than 8 bytes (checksums), 60 bytes (records).",
    {{"value", 4, value}, {"burst", 6, burst}, {"anychange", 4, anychange}, {"reading", 1, reading}},
    std_reset,
    nullptr};
}
