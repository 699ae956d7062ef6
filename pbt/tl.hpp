// Trace lists: reading them out and checking that they are consistent
#pragma once
#include "desc.hpp"
#include "foreign.hpp"

namespace tl {

struct Seg
{
  int64_t start = 0, end = 0;
  double rate   = 0;
  int64_t count = 0;      // samplecnt
  char type     = 0;
  int64_t num   = 0;      // numsamples
  std::string data;       // bytes of the samples
  std::vector<const MS3RecordPtr *> recs;

  bool
  operator== (const Seg &o) const
  {
    return start == o.start && end == o.end && rate == o.rate && count == o.count && type == o.type && num == o.num && data == o.data;
  }
  std::string
  show () const
  {
    return fmt ("[%s .. %s %.12g Hz %lld samples, %lld of type %02x: ", tstr (start).c_str (), tstr (end).c_str (), rate, (long long)count, (long long)num, (unsigned char)type) + pbt::hexdump (data.data (), data.size (), 40) + "]";
  }
};
struct Trace
{
  std::string sid;
  int pubversion = 0;
  int64_t earliest = 0, latest = 0;
  std::vector<Seg> segs;
};

inline bool
same (const std::vector<Trace> &a, const std::vector<Trace> &b, std::string &why)
{
  if (a.size () != b.size ())
  {
    why = fmt ("%zu and %zu traces", a.size (), b.size ());
    return false;
  }
  for (size_t k = 0; k < a.size (); k++)
  {
    if (a[k].sid != b[k].sid || a[k].pubversion != b[k].pubversion || a[k].earliest != b[k].earliest || a[k].latest != b[k].latest)
    {
      why = fmt ("trace %zu: ", k) + a[k].sid + fmt (" version %d %s - %s and ", a[k].pubversion, tstr (a[k].earliest).c_str (), tstr (a[k].latest).c_str ()) + b[k].sid + fmt (" version %d %s - %s", b[k].pubversion, tstr (b[k].earliest).c_str (), tstr (b[k].latest).c_str ());
      return false;
    }
    if (a[k].segs.size () != b[k].segs.size ())
    {
      why = a[k].sid + fmt (": %zu and %zu segments", a[k].segs.size (), b[k].segs.size ());
      return false;
    }
    for (size_t s = 0; s < a[k].segs.size (); s++)
      if (!(a[k].segs[s] == b[k].segs[s]))
      {
        why = a[k].sid + fmt (" segment %zu: ", s) + a[k].segs[s].show () + " and " + b[k].segs[s].show ();
        return false;
      }
  }
  return true;
}

inline Seg
read_seg (const MS3TraceSeg *s)
{
  Seg r;
  r.start = s->starttime;
  r.end   = s->endtime;
  r.rate  = s->samprate;
  r.count = s->samplecnt;
  r.num   = s->numsamples;
  r.type  = s->sampletype;
  int size = s->numsamples > 0 ? ms_samplesize (s->sampletype) : 0;
  if (s->numsamples > 0)
  {
    REQUIRE (s->datasamples && size, "segment-data", "segment has " << s->numsamples << " samples of type " << (int)s->sampletype << " and data at " << s->datasamples);
    REQUIRE (s->datasize >= (uint64_t)s->numsamples * size, "segment-data", "datasize " << s->datasize << " for " << s->numsamples << " samples of " << size);
    auto &t = mem::st ().table;
    auto it = t.find (s->datasamples);
    if (it != t.end ())
      REQUIRE (it->second >= s->datasize, "segment-data", "datasize " << s->datasize << " of a buffer of " << it->second);
    r.data.assign ((const char *)s->datasamples, s->numsamples * size);
  }
  if (s->recordlist)
  {
    const MS3RecordPtr *last = nullptr;
    for (const MS3RecordPtr *p = s->recordlist->first; p; p = p->next)
    {
      r.recs.push_back (p);
      last = p;
      REQUIRE (r.recs.size () <= 1000000, "record-list", "endless record list");
    }
    REQUIRE (last == s->recordlist->last && r.recs.size () == s->recordlist->recordcnt, "record-list", "record list holds " << r.recs.size () << " entries, count " << s->recordlist->recordcnt << (last == s->recordlist->last ? "" : ", wrong last entry"));
  }
  return r;
}

// read out a list; checks everything that is true of every list
inline std::vector<Trace>
read (const MS3TraceList *l)
{
  std::vector<Trace> out;
  REQUIRE (l, "list", "no list");
  std::vector<const MS3TraceID *> ids;
  for (const MS3TraceID *id = l->traces.next[0]; id; id = id->next[0])
  {
    ids.push_back (id);
    REQUIRE (ids.size () <= l->numtraceids, "trace-count", "more than numtraceids=" << l->numtraceids << " traces are linked");
  }
  REQUIRE (ids.size () == l->numtraceids, "trace-count", ids.size () << " traces linked, numtraceids=" << l->numtraceids);
  for (int level = 0; level < MSTRACEID_SKIPLIST_HEIGHT; level++)
  {
    size_t pos = 0;
    for (const MS3TraceID *id = l->traces.next[level]; id; id = id->next[level])
    {
      while (pos < ids.size () && ids[pos] != id)
      {
        REQUIRE (ids[pos]->height <= level, "skip-list", "trace " << pos << " of height " << (int)ids[pos]->height << " is not linked at level " << level);
        pos++;
      }
      REQUIRE (pos < ids.size (), "skip-list", "level " << level << " is out of order");
      REQUIRE (id->height > level, "skip-list", "trace of height " << (int)id->height << " linked at level " << level);
      pos++;
    }
    for (; pos < ids.size (); pos++)
      REQUIRE (ids[pos]->height <= level, "skip-list", "trace " << pos << " of height " << (int)ids[pos]->height << " is not linked at level " << level);
  }
  for (const MS3TraceID *id : ids)
  {
    Trace t;
    t.sid        = id->sid;
    t.pubversion = id->pubversion;
    t.earliest   = id->earliest;
    t.latest     = id->latest;
    REQUIRE (id->height >= 1 && id->height <= MSTRACEID_SKIPLIST_HEIGHT, "skip-list", "height " << (int)id->height);
    if (out.size ())
    {
      int c = out.back ().sid.compare (t.sid);
      REQUIRE (c < 0 || (c == 0 && out.back ().pubversion < t.pubversion), "trace-order", out.back ().sid << " version " << out.back ().pubversion << " comes before " << t.sid << " version " << t.pubversion);
    }
    const MS3TraceSeg *prev = nullptr;
    REQUIRE (id->first && id->last, "segment-links", t.sid << " has no first or last segment");
    int64_t lo = INT64_MAX, hi = INT64_MIN;
    for (const MS3TraceSeg *s = id->first; s; s = s->next)
    {
      REQUIRE (s->prev == prev, "segment-links", t.sid << " segment " << t.segs.size () << " links back wrongly");
      t.segs.push_back (read_seg (s));
      REQUIRE (t.segs.size () <= id->numsegments, "segment-count", t.sid << " has more than numsegments=" << id->numsegments << " segments");
      if (prev)
        REQUIRE (prev->starttime < s->starttime || (prev->starttime == s->starttime && prev->endtime >= s->endtime), "segment-order",
                 t.sid << " segment " << t.segs.size () - 2 << " [" << tstr (prev->starttime) << " .. " << tstr (prev->endtime) << "] before [" << tstr (s->starttime) << " .. " << tstr (s->endtime) << "]");
      lo   = std::min<int64_t> (lo, s->starttime);
      hi   = std::max<int64_t> (hi, s->endtime);
      prev = s;
    }
    REQUIRE (prev == id->last, "segment-links", t.sid << " last segment is wrong");
    REQUIRE (t.segs.size () == id->numsegments, "segment-count", t.sid << " has " << t.segs.size () << " segments, numsegments=" << id->numsegments);
    out.push_back (t);
  }
  return out;
}

inline const Trace *
find (const std::vector<Trace> &ts, const std::string &sid, int pubversion = -1)
{
  for (auto &t : ts)
    if (t.sid == sid && (pubversion < 0 || pubversion == t.pubversion))
      return &t;
  return nullptr;
}

struct List // owner
{
  MS3TraceList *p = nullptr;
  List () {}
  ~List () { if (p) mstl3_free (&p, 1); }
  List (const List &) = delete;
};

} // namespace tl
