// P09: deferred unpacking from a record list equals direct reading
#include "store.hpp"
#include <unistd.h>
#include <sys/stat.h>
#include <functional>
using namespace pbt;

namespace {
enum Where { BUFFER, FILE1, FILE2, FILEPTR };

struct Src // where the records are, for the life of the list
{
  Where where = BUFFER;
  Buf *buf    = nullptr;
  std::string path[2];
  std::string name[2]; // as it is given to the reader
  int64_t base[2] = {0, 0}; // where the records begin
  size_t cut = 0; // first record of the second file
  FILE *fp   = nullptr;
  size_t junk = 0; // bytes before the records in the open file
  ~Src ()
  {
    delete buf;
    if (fp)
      fclose (fp);
    for (auto &p : path)
      if (!p.empty ())
        unlink (p.c_str ());
  }
};

void
load (Gen &g, Src &src, const std::vector<store::Rec> &recs, tl::List &l, uint32_t flags, bool split)
{
  Bytes all = store::join (recs);
  src.where = (Where)g.weighted ({4, 3, 2, 1});
  flags |= MSF_RECORDLIST;
  size_t count = recs.size ();
  if (src.where == BUFFER || src.where == FILEPTR)
  {
    src.buf   = new Buf (all, (int)g.range (0, 7));
    int64_t n = mstl3_readbuffer (&l.p, (const char *)src.buf->p, src.buf->n, split, flags, nullptr, 0);
    REQUIRE (n == (int64_t)count, "read-count", "mstl3_readbuffer returns " << n << " for " << count << " records; " << lg::diag ());
    if (src.where == FILEPTR)
    {
      src.path[0] = scratch_dir () + "/fp";
      size_t junk = src.junk = (size_t)(g.chance (1, 4) ? store::gen_far (g) : g.range (0, 100));
      store::write_file (src.path[0], all, (int64_t)junk);
      src.fp = fopen (src.path[0].c_str (), "rb");
      REQUIRE (src.fp, "harness", "open");
      for (MS3TraceID *id = l.p->traces.next[0]; id; id = id->next[0])
        for (MS3TraceSeg *s = id->first; s; s = s->next)
          for (MS3RecordPtr *p = s->recordlist ? s->recordlist->first : nullptr; p; p = p->next)
          {
            p->fileoffset = junk + (p->bufferptr - (const char *)src.buf->p);
            p->fileptr    = src.fp;
            p->bufferptr  = nullptr;
          }
    }
  }
  else
  {
    src.cut = src.where == FILE2 ? g.index (count) : count;
    while (src.cut > 0 && src.cut < count && !recs[src.cut - 1].b1000)
      src.cut++; // the end of such a record is where the next begins
    src.path[0] = scratch_dir () + "/one";
    if (src.where == FILE2)
      src.path[1] = scratch_dir () + "/two";
    for (int k = 0; k < (src.where == FILE2 ? 2 : 1); k++)
    {
      Bytes b     = k ? store::join (recs, src.cut) : store::join (recs, 0, src.cut);
      src.name[k] = src.path[k];
      if (g.chance (1, 4)) // a range of bytes of a longer file
      {
        src.base[k] = store::gen_far (g);
        src.name[k] += fmt ("@%lld-", (long long)src.base[k]);
        if (g.coin ())
          src.name[k] += std::to_string (src.base[k] + (int64_t)b.size () + g.range (0, 100));
        flags |= MSF_PNAMERANGE;
        g.label ("byte range");
      }
      if (g.chance (1, 10))
        src.name[k] = "file://" + src.name[k];
      store::write_file (src.path[k], b, src.base[k]);
      g.note (quote (src.name[k]) + "\n");
    }
    for (int k = 0; k < (src.where == FILE2 ? 2 : 1); k++)
    {
      if (k == 0 ? src.cut == 0 : src.cut == count)
        continue;
      int rv = ms3_readtracelist (&l.p, src.name[k].c_str (), nullptr, split, flags, 0);
      REQUIRE (rv == MS_NOERROR, "read-file", "ms3_readtracelist returns " << rv << "; " << lg::diag ());
    }
  }
}

const char *wheres[] = {"buffer", "file", "two files", "open file"};

int
file_of (const Src &src, const MS3RecordPtr *p)
{
  for (int k = 0; k < 2; k++)
    if (p->filename && (p->filename == src.name[k] || p->filename == src.path[k]))
      return k;
  pbt::fail ("record-position", fmt ("file %s", p->filename ? p->filename : "not named"));
}

const store::Rec *
rec_of (const Src &src, const std::vector<store::Rec> &recs, const MS3RecordPtr *p)
{
  int64_t off = -1;
  if (src.where == BUFFER)
  {
    REQUIRE (p->bufferptr && !p->fileptr && !p->filename, "record-position", "entry does not name a buffer position alone");
    REQUIRE (p->bufferptr >= (const char *)src.buf->p && p->bufferptr < (const char *)src.buf->p + src.buf->n, "record-position", "outside of the buffer");
    off = p->bufferptr - (const char *)src.buf->p;
  }
  else if (src.where == FILE1 || src.where == FILE2)
  {
    REQUIRE (!p->bufferptr && !p->fileptr && p->filename, "record-position", "entry does not name a file alone");
    int k = file_of (src, p);
    off   = p->fileoffset - src.base[k];
    if (k == 1)
    {
      REQUIRE (src.cut < recs.size (), "record-position", "unused file " << p->filename);
      off += recs[src.cut].off;
    }
  }
  else
    off = p->fileoffset - src.junk;
  for (auto &r : recs)
    if ((int64_t)r.off == off)
      return &r;
  pbt::fail ("record-position", fmt ("no record starts at %lld", (long long)off));
}

const store::Rec *
check_entry (const Src &src, const std::vector<store::Rec> &recs, const MS3RecordPtr *p, size_t &nth)
{
  const store::Rec *r = rec_of (src, recs, p);
  nth = r - recs.data ();
  REQUIRE (p->msr, "record-entry", "no header");
  REQUIRE (r->sid == p->msr->sid && p->msr->starttime == r->start && p->msr->samplecnt == (int64_t)r->s.size () && p->msr->reclen == (int)r->bytes.size () && p->msr->pubversion == r->pub && p->msr->formatversion == r->version && fabs (hz (p->msr->samprate) - hz (r->rate)) < 1e-9,
           "record-entry", "header of entry does not describe the record: " << p->msr->sid << " " << tstr (p->msr->starttime) << " " << p->msr->samplecnt << " samples, length " << p->msr->reclen << " want " << r->show ());
  REQUIRE (r->s.size () == 0 || (uint32_t)p->dataoffset == r->dataoff, "record-entry", "data offset " << p->dataoffset << " want " << r->dataoff);
  int64_t end = r->s.size () ? r->start + sample_span (r->rate, r->s.size () - 1) : r->start;
  REQUIRE (llabs (p->endtime - end) <= 1, "record-entry", "end time " << tstr (p->endtime) << " want " << tstr (end));
  REQUIRE (!p->msr->datasamples && p->msr->numsamples == 0, "record-entry", "entry holds samples itself");
  return r;
}

struct Setup
{
  std::vector<store::Rec> recs;
  bool split = false;
};

void
note (Gen &g, const std::vector<store::Rec> &recs, const char *what)
{
  g.note (fmt ("%s\n", what));
  for (auto &r : recs)
    g.note (r.show () + "\n");
}
} // namespace

static void
equal (Gen &g)
{
  store::Opt o;
  o.pubs = g.chance (1, 4);
  o.dataless = g.chance (1, 4);
  bool split = g.coin ();
  std::vector<store::Rec> recs = store::gen (g, o);
  libmseed_prealloc_block_size = g.chance (1, 4) ? g.pick<size_t> ({16, 100, 4096}) : 0;
  note (g, recs, split ? "split versions" : "versions together");
  Bytes all = store::join (recs);
  tl::List a, b;
  const store::Rec &tail = recs[g.index (recs.size ())];
  if (recs.back ().b1000 && tail.b1000 && g.chance (1, 4)) // the next record has not arrived completely
  {
    size_t part = g.coin () ? g.raw (std::min<size_t> (tail.bytes.size (), 100)) : g.raw (tail.bytes.size ());
    all.insert (all.end (), tail.bytes.begin (), tail.bytes.begin () + part);
    g.note (fmt ("and the first %zu bytes of a record of %zu\n", part, tail.bytes.size ()));
    g.label ("incomplete record at the end");
  }
  Buf exact (all, 0);
  int64_t n = mstl3_readbuffer (&a.p, (const char *)exact.p, exact.n, split, MSF_UNPACKDATA, nullptr, 0);
  REQUIRE (n == (int64_t)recs.size (), "read-count", "mstl3_readbuffer returns " << n << " for " << recs.size () << " records; " << lg::diag ());
  Src src;
  bool both = g.chance (1, 6); // unpacked and listed
  load (g, src, recs, b, both ? MSF_UNPACKDATA : 0, split);
  g.note (fmt ("records in %s, cut at %zu%s\n", wheres[src.where], src.cut, both ? ", unpacked when read" : ""));
  std::vector<tl::Trace> ta = tl::read (a.p), tb = tl::read (b.p);
  // the same traces and coverage
  REQUIRE (ta.size () == tb.size (), "coverage", ta.size () << " and " << tb.size () << " traces");
  std::vector<int> used (recs.size (), 0);
  size_t multi = 0;
  for (size_t k = 0; k < ta.size (); k++)
  {
    REQUIRE (ta[k].sid == tb[k].sid && ta[k].pubversion == tb[k].pubversion && ta[k].segs.size () == tb[k].segs.size (), "coverage", "trace " << k << " differs");
    for (size_t q = 0; q < ta[k].segs.size (); q++)
    {
      tl::Seg &x = ta[k].segs[q], &y = tb[k].segs[q];
      REQUIRE (x.start == y.start && x.end == y.end && x.rate == y.rate && x.count == y.count, "coverage", "segment " << x.show () << " and " << y.show ());
      REQUIRE (both ? y.data == x.data : y.num == 0, "coverage", "samples in the list before unpacking: " << y.show ());
      // the record list
      REQUIRE (y.recs.size (), "record-list", "no records listed for " << y.show ());
      std::string truth;
      int64_t cnt = 0;
      for (size_t j = 0; j < y.recs.size (); j++)
      {
        size_t nth;
        const store::Rec *r = check_entry (src, recs, y.recs[j], nth);
        REQUIRE (!used[nth], "record-list", "record listed twice: " << r->show ());
        used[nth] = 1;
        REQUIRE (r->sid == ta[k].sid, "record-list", "record of another identifier: " << r->show ());
        REQUIRE (j == 0 ? r->start == y.start : llabs (r->start - y.recs[j - 1]->endtime - sample_span (r->rate, 1)) <= sample_span (r->rate, 1) / 2 + 1, "record-order", "record " << j << " does not follow the one before: " << r->show ());
        truth.append ((const char *)r->s.data (), r->s.size () * r->s.ssize ());
        cnt += r->s.size ();
      }
      REQUIRE (cnt == y.count, "record-list", "listed records hold " << cnt << " samples of " << y.count);
      REQUIRE (truth == x.data, "direct-samples", "direct reading gives " << x.show () << " but the records hold " << pbt::hexdump (truth.data (), truth.size (), 40));
      if (y.recs.size () > 1)
        multi++;
    }
  }
  for (size_t k = 0; k < recs.size (); k++)
    REQUIRE (used[k], "record-list", "record not listed: " << recs[k].show ());
  // unpack each segment
  for (MS3TraceID *ia = a.p->traces.next[0], *ib = b.p->traces.next[0]; ia; ia = ia->next[0], ib = ib->next[0])
    for (MS3TraceSeg *sa = ia->first, *sb = ib->first; sa; sa = sa->next, sb = sb->next)
    {
      int ssize   = ms_samplesize (sa->sampletype);
      size_t need = (size_t)sa->numsamples * ssize;
      if (need == 0)
      {
        // records without samples
        int64_t r = mstl3_unpack_recordlist (ib, sb, nullptr, 0, 0);
        REQUIRE (r == 0 && sb->numsamples == 0 && sb->samplecnt == 0 && sa->samplecnt == 0, "unpack-count", "unpacking no samples returns " << r);
        g.label ("segment without samples");
        continue;
      }
      int rounds  = (int)g.range (1, 2);
      for (int q = 0; q < rounds; q++)
      {
        int how = (int)g.weighted ({3, 3, 2, 2});
        size_t live = mem::live ();
        std::string before (sb->datasamples ? (const char *)sb->datasamples : "", sb->datasamples ? sb->numsamples * ssize : 0);
        if (how == 0)
        {
          bool had  = sb->datasamples;
          int64_t r = mstl3_unpack_recordlist (ib, sb, nullptr, 0, 0);
          if (had)
          {
            REQUIRE (r == -1, "already-unpacked", "unpacking over existing samples returns " << r);
            REQUIRE (std::string ((char *)sb->datasamples, sb->numsamples * ssize) == before, "already-unpacked", "existing samples changed");
          }
          else
          {
            REQUIRE (r == sa->numsamples, "unpack-count", "unpacked " << r << " of " << sa->numsamples << "; " << lg::diag ());
            REQUIRE (sb->numsamples == sa->numsamples && sb->datasamples && sb->sampletype == sa->sampletype && sb->datasize >= need, "unpack-fields", "segment has " << sb->numsamples << " samples of type " << (int)sb->sampletype << ", datasize " << sb->datasize);
            REQUIRE (mem::live () == live + 1, "memory-leak", "unpacking into allocated memory holds " << mem::live () - live << " allocations");
            live = mem::live ();
            REQUIRE (!memcmp (sa->datasamples, sb->datasamples, need), "unpack-samples", "got " << pbt::hexdump (sb->datasamples, need, 60) << " want " << pbt::hexdump (sa->datasamples, need, 60));
          }
        }
        else
        {
          size_t size = how == 1 ? need : how == 2 ? need + (size_t)g.range (1, 100) : need - 1 - g.index (need);
          char *out   = (char *)malloc (size ? size : 1);
          memset (out, 0x5a, size);
          int64_t r = mstl3_unpack_recordlist (ib, sb, out, size, 0);
          bool ok   = r == (how == 3 ? -1 : sa->numsamples);
          bool same = how == 3 || !memcmp (sa->datasamples, out, need);
          bool rest = true;
          for (size_t z = need; z < size; z++)
            rest = rest && out[z] == 0x5a;
          std::string got = pbt::hexdump (out, size, 60);
          free (out);
          REQUIRE (ok, "unpack-count", "unpacking into " << size << " bytes of " << need << " needed returns " << r << "; " << lg::diag ());
          REQUIRE (same, "unpack-samples", "got " << got << " want " << pbt::hexdump (sa->datasamples, need, 60));
          REQUIRE (rest, "unpack-beyond", "memory behind the samples changed");
          REQUIRE (how == 3 || sb->sampletype == sa->sampletype, "unpack-fields", "sample type " << (int)sb->sampletype);
          REQUIRE (before.empty () ? !sb->datasamples && !sb->numsamples : std::string ((char *)sb->datasamples, sb->numsamples * ssize) == before, "unpack-fields", "segment's own samples changed");
        }
        REQUIRE (mem::live () == live, "memory-leak", "unpacking leaves " << (long)(mem::live () - live) << " allocations");
      }
    }
  mstl3_free (&a.p, 1);
  mstl3_free (&b.p, 1);
  mem::require_balanced ("trace lists");
  for (auto &r : recs)
    g.label (std::string (r.b1000 ? "" : "no-b1000-") + encname (r.enc));
  g.label (wheres[src.where]);
  if (multi)
    g.nontrivial ();
}

// something stops a record from being decoded: an error, nothing leaked, and unpacking
// works once it is repaired
static void
errors (Gen &g)
{
  store::Opt o;
  o.maxids  = 1;
  o.gaps    = false;
  o.shuffle = g.coin ();
  int what  = (int)g.weighted ({2, 3, 3, 2, 2, 4, 2});
  o.mixtypes = what == 0;
  std::vector<store::Rec> recs = store::gen (g, o);
  note (g, recs, fmt ("kind %d", what).c_str ());
  Bytes all = store::join (recs);
  tl::List b;
  Src src;
  load (g, src, recs, b, 0, false);
  g.note (fmt ("records in %s, cut at %zu\n", wheres[src.where], src.cut));
  MS3TraceID *id = b.p->traces.next[0];
  for (MS3TraceSeg *seg = id->first; seg; seg = seg->next)
  {
    std::string truth;
    std::vector<MS3RecordPtr *> ptrs;
    std::vector<const store::Rec *> rr;
    bool mixed = false;
    for (MS3RecordPtr *p = seg->recordlist->first; p; p = p->next)
    {
      size_t nth;
      const store::Rec *r = check_entry (src, recs, p, nth);
      ptrs.push_back (p);
      rr.push_back (r);
      mixed = mixed || enctype (r->enc) != enctype (rr[0]->enc);
      truth.append ((const char *)r->s.data (), r->s.size () * r->s.ssize ());
    }
    int64_t total = seg->samplecnt;
    size_t live   = mem::live ();
    size_t target = g.index (ptrs.size ());
    MS3RecordPtr *p = ptrs[target];
    MS3RecordPtr saved = *p;
    std::function<void ()> repair;
    bool expect_error = true;
    switch (what)
    {
    case 0:
      expect_error = mixed;
      repair       = [&] {};
      break;
    case 1: // the file is gone, or ends early
      if (src.where != FILE1 && src.where != FILE2)
        DISCARD ();
      {
        int which        = file_of (src, p);
        std::string path = src.path[which];
        if (g.coin ())
        {
          rename (path.c_str (), (path + "x").c_str ());
          repair = [path] { rename ((path + "x").c_str (), path.c_str ()); };
        }
        else
        {
          struct stat sb;
          stat (path.c_str (), &sb);
          int64_t keep = p->fileoffset + g.range (0, p->msr->reclen - 1);
          if (truncate (path.c_str (), keep))
            DISCARD ();
          Bytes whole  = which == 0 ? store::join (recs, 0, src.cut) : store::join (recs, src.cut);
          int64_t base = src.base[which];
          repair       = [path, whole, base] { store::write_file (path, whole, base); };
        }
      }
      break;
    case 2: // the payload holds fewer samples than the header says, or an unknown encoding
    {
      bool steim = rr[target]->enc == DE_STEIM1 || rr[target]->enc == DE_STEIM2;
      if (g.coin () || !steim || rr[target]->s.size () < 2)
      {
        int8_t old = p->msr->encoding;
        p->msr->encoding = (int8_t)g.pick<int> ({2, 6, 99, 17, 31});
        repair           = [p, old] { p->msr->encoding = old; };
      }
      else
      {
        if (src.where != BUFFER)
          DISCARD ();
        // no frame names any difference
        const store::Rec *r = rr[target];
        for (size_t o2 = r->dataoff; o2 + 64 <= r->bytes.size (); o2 += 64)
          memset (src.buf->p + r->off + o2, 0, 4);
        repair = [&src, r] { memcpy (src.buf->p + r->off, r->bytes.data (), r->bytes.size ()); };
      }
      break;
    }
    case 3: // no location
      p->bufferptr = nullptr;
      p->fileptr   = nullptr;
      p->filename  = nullptr;
      repair       = [p, &saved] { p->bufferptr = saved.bufferptr; p->fileptr = saved.fileptr; p->filename = saved.filename; };
      break;
    case 4: // wrong arguments
    {
      MS3RecordList *rl = seg->recordlist;
      int64_t r         = 0;
      r = mstl3_unpack_recordlist (nullptr, seg, nullptr, 0, 0);
      REQUIRE (r == -1, "arguments", "no trace: returns " << r);
      r = mstl3_unpack_recordlist (id, nullptr, nullptr, 0, 0);
      REQUIRE (r == -1, "arguments", "no segment: returns " << r);
      seg->recordlist = nullptr;
      r               = mstl3_unpack_recordlist (id, seg, nullptr, 0, 0);
      seg->recordlist = rl;
      REQUIRE (r == -1, "arguments", "no record list: returns " << r);
      expect_error = false;
      repair       = [] {};
      break;
    }
    case 5:
      mem::st ().failat = g.range (0, 4);
      repair            = [] { mem::st ().failat = -1; };
      break;
    default: // the seek fails
      if (src.where == BUFFER)
        DISCARD ();
      p->fileoffset = g.coin () ? -1 - g.range (0, 1000) : src.base[0] + src.base[1] + (int64_t)src.junk + (int64_t)all.size () + 1000 + g.range (0, 1000000);
      repair        = [p, &saved] { p->fileoffset = saved.fileoffset; };
      break;
    }
    bool own    = g.coin ();
    size_t need = truth.size ();
    if (mixed) // as the first record's type sees it
      need = total * ms_samplesize (enctype (rr[0]->enc));
    std::vector<char> mine (need);
    uint64_t failed = mem::st ().failed;
    int64_t r = mstl3_unpack_recordlist (id, seg, own ? mine.data () : nullptr, own ? mine.size () : 0, 0);
    if (what == 5)
      expect_error = mem::st ().failed > failed;
    repair ();
    if (expect_error)
    {
      REQUIRE (r == -1, "undecodable", "kind " << what << ": unpacking returns " << r << " for " << total << " samples");
      REQUIRE (!seg->datasamples && !seg->numsamples && !seg->datasize, "undecodable", "segment left with " << seg->numsamples << " samples, data at " << seg->datasamples << " size " << seg->datasize);
      REQUIRE (mem::live () == live, "memory-leak", "kind " << what << ": failing to unpack leaves " << (long)(mem::live () - live) << " allocations");
      if (what != 0)
      {
        r = mstl3_unpack_recordlist (id, seg, nullptr, 0, 0);
        REQUIRE (r == total, "retry", "unpacking after the repair returns " << r << " of " << total << "; " << lg::diag ());
        own = false;
      }
      else
        continue;
    }
    REQUIRE (r == total, "unpack-count", "unpacked " << r << " of " << total << "; " << lg::diag ());
    REQUIRE (std::string (own ? mine.data () : (char *)seg->datasamples, need) == truth, "unpack-samples", "samples differ");
    if (what != 4)
      g.nontrivial ();
  }
  mstl3_free (&b.p, 1);
  mem::require_balanced ("trace lists");
}

// the list grows after it was unpacked: unpacking covers what the list holds then
static void
grow (Gen &g)
{
  store::Opt o;
  o.maxids  = 2;
  std::vector<store::Rec> recs = store::gen (g, o);
  note (g, recs, "grow");
  Bytes all = store::join (recs);
  Buf buf (all, (int)g.range (0, 7));
  tl::List a, b;
  // any number of pieces, cut between records
  size_t at = 0;
  while (at < recs.size ())
  {
    size_t to = at + 1 + g.index (recs.size () - at);
    while (!recs[to - 1].b1000)
      to++;
    size_t from = recs[at].off, end = recs[to - 1].off + recs[to - 1].bytes.size ();
    int64_t n = mstl3_readbuffer (&a.p, (const char *)buf.p + from, end - from, 0, MSF_UNPACKDATA, nullptr, 0);
    REQUIRE (n == (int64_t)(to - at), "read-count", "returns " << n << " want " << to - at);
    n = mstl3_readbuffer (&b.p, (const char *)buf.p + from, end - from, 0, MSF_RECORDLIST, nullptr, 0);
    REQUIRE (n == (int64_t)(to - at), "read-count", "returns " << n << " want " << to - at);
    g.note (fmt ("records %zu to %zu\n", at, to));
    for (MS3TraceID *ia = a.p->traces.next[0], *ib = b.p->traces.next[0]; ia; ia = ia->next[0], ib = ib->next[0])
    {
      REQUIRE (ib && !strcmp (ia->sid, ib->sid), "coverage", "traces differ");
      for (MS3TraceSeg *sa = ia->first, *sb = ib->first; sa; sa = sa->next, sb = sb->next)
      {
        REQUIRE (sb && sa->starttime == sb->starttime && sa->endtime == sb->endtime && sa->samplecnt == sb->samplecnt, "coverage", "segments differ");
        size_t need = sa->numsamples * ms_samplesize (sa->sampletype);
        std::vector<char> out (need);
        int64_t r = mstl3_unpack_recordlist (ib, sb, out.data (), need, 0);
        REQUIRE (r == sa->numsamples, "unpack-count", "unpacked " << r << " of " << sa->numsamples << "; " << lg::diag ());
        REQUIRE (!memcmp (out.data (), sa->datasamples, need), "unpack-samples", "samples differ");
      }
    }
    at = to;
    if (at < recs.size ())
      g.nontrivial ();
  }
  mstl3_free (&a.p, 1);
  mstl3_free (&b.p, 1);
  mem::require_balanced ("trace lists");
}

namespace pbt {
Property property = {
    "P09",
    "A case is a set of records of one to three series (both format versions, all encodings of one sample type mixed, either byte order, with gaps, overlaps and in any order), read with a record list "
    "from a buffer, one or two files or an open file, and unpacked later into allocated, exact, larger or too small memory; or an obstacle (mixed types, missing or short file, undecodable payload, no location, "
    "bad offset, failing allocation); or a list that grows between unpackings. Non-trivial: a segment made of several records, an obstacle that was met, or a list grown after unpacking.",
    {{"equal", 6, equal}, {"errors", 3, errors}, {"grow", 2, grow}},
    std_reset,
    nullptr};
}
