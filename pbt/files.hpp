// Files of records, junk, damaged and truncated records; what reading them gives
#pragma once
#include "store.hpp"

namespace files {
// ------------------------------------------------------------ what a file holds
struct Item
{
  enum Kind { RECORD, JUNK, BADCRC, TOOLONG, CUT } kind = JUNK;
  Bytes bytes;
  size_t off = 0;
  store::Rec rec; // RECORD, BADCRC
};
static const char *const kinds[] = {"record", "junk", "record with a wrong CRC", "header of a record above the maximum length", "beginning of a record"};

struct File
{
  std::string path;
  std::vector<Item> items;
  Bytes bytes;
  int64_t base = 0; // bytes before, which are never read
  std::string
  show () const
  {
    std::string s = fmt ("file of %zu bytes", bytes.size ()) + (base ? fmt (" behind %lld others", (long long)base) : "") + ":\n";
    size_t n      = 0;
    for (auto &it : items)
    {
      if (++n > 40)
      {
        s += "...\n";
        break;
      }
      s += fmt (" %zu +%zu %s ", it.off, it.bytes.size (), kinds[it.kind]);
      s += it.kind == Item::RECORD || it.kind == Item::BADCRC ? it.rec.show () : pbt::hexdump (it.bytes.data (), it.bytes.size (), 32);
      s += "\n";
    }
    return s;
  }
};

// could anything here be taken for the beginning of a record
inline bool
header_like (const Bytes &b, size_t p)
{
  auto at = [&] (size_t k) { return p + k < b.size () ? b[p + k] : 0x20; };
  if (at (0) == 'M' && at (1) == 'S' && at (2) == 3)
    return true;
  for (int k = 0; k < 6; k++)
    if (!(isdigit (at (k)) || at (k) == ' ' || at (k) == 0))
      return false;
  return strchr ("DRQM", at (6)) && at (6) && (at (7) == ' ' || at (7) == 0);
}

inline Bytes
gen_junk (Gen &g)
{
  size_t n = 0;
  switch (g.raw (6))
  {
  case 0: n = (size_t)g.range (1, 8); break;
  case 1: n = (size_t)g.range (30, 50); break;
  case 2: n = (size_t)64 * g.range (1, 4); break;
  case 3: n = (size_t)g.range (1, 300); break;
  case 4: n = (size_t)g.range (500, 6000); break;
  default: n = (size_t)1 << g.range (5, 10); break;
  }
  Bytes b (n, 0);
  int how = (int)g.raw (6);
  if (how == 0)
    ;
  else if (how == 1)
    std::fill (b.begin (), b.end (), 0xff);
  else if (how == 2)
    std::fill (b.begin (), b.end (), ' ');
  else if (how == 3)
  {
    uint64_t s = g.raw (0);
    for (auto &x : b)
      x = (uint8_t)((s = pbt::mix64 (s)) >> 11);
  }
  else
  {
    std::string near = g.pick<std::string> ({std::string ("MS\2\4abcd", 8), "000001D", "000001 ", "MMSS", std::string ("MS\0\3", 4), "000001X ABC", "00000AD ", "MS"});
    for (size_t k = 0; k < n; k++)
      b[k] = (uint8_t)near[k % near.size ()];
    size_t cut = g.index (near.size ());
    b.erase (b.begin (), b.begin () + std::min (cut, n - 1));
  }
  return b;
}

struct FileOpt
{
  bool dirty = true; // anything but records
  size_t big = 0;    // bytes of the first records
  size_t giant = 0;  // a record of this length somewhere
  bool far = false;  // behind many other bytes
  bool dataless = false; // records without samples
  int maxn   = 80;   // samples of a series
};

// a version 3 record of this length
inline Item
text_record (size_t n, char c)
{
  Item it;
  it.kind = Item::RECORD;
  model::Rec3 m;
  m.encoding = DE_TEXT;
  m.sid      = "FDSN:XX_BIG__H_H_Z";
  m.year     = 2010;
  m.doy      = 1;
  m.ratebits = model::d2bits (1.0);
  size_t len = n - 40 - m.sid.size ();
  m.data.assign (len, (uint8_t)c);
  m.nsamp        = (uint32_t)len;
  it.bytes       = m.build ();
  it.rec.bytes   = it.bytes;
  it.rec.sid     = m.sid;
  it.rec.version = 3;
  it.rec.enc     = DE_TEXT;
  it.rec.start   = model::to_ns (2010, 1, 0, 0, 0, 0);
  it.rec.rate    = 1;
  it.rec.dataoff = 40 + (uint32_t)m.sid.size ();
  it.rec.s.type  = 't';
  it.rec.s.t.assign (len, c);
  return it;
}

inline File
gen_file (Gen &g, const std::string &path, const FileOpt &o)
{
  File f;
  f.path = path;
  store::Opt so;
  so.maxids    = 3;
  so.maxpieces = 6;
  so.maxn      = o.maxn;
  so.dataless  = o.dataless;
  std::vector<store::Rec> recs = g.chance (1, 12) ? std::vector<store::Rec> () : store::gen (g, so);
  bool dirty                   = o.dirty && g.chance (3, 4);
  bool wasloose                = false; // a version 2 record must follow directly
  for (size_t k = 0; k <= recs.size (); k++)
  {
    if (dirty && !wasloose && g.chance (1, 3))
    {
      Item it;
      it.kind  = Item::JUNK;
      it.bytes = gen_junk (g);
      f.items.push_back (it);
    }
    if (k == recs.size ())
      break;
    Item it;
    it.kind  = Item::RECORD;
    it.rec   = recs[k];
    it.bytes = recs[k].bytes;
    if (dirty && !wasloose && recs[k].version == 3 && g.chance (1, 10))
    {
      it.kind = Item::BADCRC;
      it.bytes[28 + g.raw (4)] ^= (uint8_t)(1 << g.raw (8));
      it.rec.bytes = it.bytes;
    }
    if (dirty && !wasloose && recs[k].version == 3 && g.chance (1, 25))
    {
      it.kind = Item::TOOLONG;
      model::put (it.bytes, 36, (uint32_t)g.range (MAXRECLEN, INT32_MAX), 4, false);
    }
    wasloose = !recs[k].b1000;
    f.items.push_back (it);
  }
  if (dirty && !f.items.empty () && f.items.back ().kind == Item::RECORD && g.chance (1, 4))
  {
    Item &it = f.items.back ();
    bool afterloose = f.items.size () > 1 && f.items[f.items.size () - 2].kind == Item::RECORD && !f.items[f.items.size () - 2].rec.b1000;
    size_t n        = it.bytes.size ();
    size_t least    = it.rec.version == 2 ? std::max<size_t> (it.rec.dataoff, 64) : 40;
    size_t keep     = g.chance (1, 4) ? n - 1 : (size_t)g.range (1, n - 1);
    if (it.rec.b1000 && (keep >= least || (!afterloose && keep < 40)))
    {
      it.kind = Item::CUT;
      it.bytes.resize (keep);
    }
  }
  if (o.big)
  {
    // long version 3 records, so that the read buffer ends among the others
    std::vector<Item> first;
    size_t left = o.big;
    while (left > 0)
    {
      size_t n = left > 12000000 ? (size_t)g.range (100000, 8000000) : left > (size_t)MAXRECLEN ? left / 2 : left;
      if (left - n < 100 && left != n)
        n -= 100;
      first.push_back (text_record (n, (char)('a' + first.size () % 26)));
      left -= n;
    }
    f.items.insert (f.items.begin (), first.begin (), first.end ());
  }
  if (o.giant)
  {
    size_t k = g.index (f.items.size () + 1);
    while (k > 0 && (f.items[k - 1].kind == Item::CUT || (f.items[k - 1].kind == Item::RECORD && !f.items[k - 1].rec.b1000)))
      k--;
    Item it = text_record (o.giant, 'g');
    if (o.giant > (size_t)MAXRECLEN)
      it.kind = Item::TOOLONG;
    f.items.insert (f.items.begin () + (long)k, it);
  }
  for (auto &it : f.items)
  {
    it.off = f.bytes.size ();
    f.bytes.insert (f.bytes.end (), it.bytes.begin (), it.bytes.end ());
  }
  // what is not a record must not look like one
  for (auto &it : f.items)
    if (it.kind != Item::RECORD)
      for (size_t p = it.off + (it.kind == Item::JUNK ? 0 : 1); p < it.off + it.bytes.size (); p++)
        if (header_like (f.bytes, p))
          DISCARD ();
  if (o.far)
    f.base = store::gen_far (g);
  store::write_file (path, f.bytes, f.base);
  return f;
}

// ------------------------------------------------------------ what reading gives
struct Sel // a simple selection
{
  bool on = false;
  std::string sid; // empty: any
  int64_t from = NSTUNSET, to = NSTUNSET;
  bool
  takes (const store::Rec &r) const
  {
    if (!on)
      return true;
    int64_t end = r.start + sample_span (r.rate, std::max<int64_t> (0, (int64_t)r.s.size () - 1));
    return (sid.empty () || sid == r.sid) && (from == NSTUNSET || end >= from) && (to == NSTUNSET || r.start <= to);
  }
};

struct Want
{
  std::vector<const Item *> recs;
  std::vector<bool> optional;
  std::set<int> codes; // the code that ends reading
  size_t endoff = 0;   // position at an error
  size_t counted = 0;  // records passed, also those not selected
};

inline Want
expect (const File &f, uint32_t flags, int64_t start, int64_t end, const Sel &sel, bool cut = false) // cut: nothing follows the end
{
  Want w;
  int64_t pos   = std::max<int64_t> (start, 0);
  int64_t size  = (int64_t)f.bytes.size ();
  int64_t count = 0;
  for (;;)
  {
    w.endoff  = (size_t)pos;
    w.counted = (size_t)count;
    if (end && end - pos < MINRECLEN - 1)
    {
      w.codes = {MS_ENDOFFILE};
      if (!count)
        w.codes.insert (MS_NOTSEED);
      return w;
    }
    if (size - pos < MINRECLEN)
    {
      w.codes = {count ? MS_ENDOFFILE : MS_NOTSEED};
      return w;
    }
    const Item *here = nullptr, *next = nullptr;
    for (auto &it : f.items)
      if ((int64_t)it.off == pos && it.kind != Item::JUNK)
        here = &it;
      else if ((int64_t)it.off > pos && it.kind != Item::JUNK)
      {
        next = &it;
        break;
      }
    if (here && (here->kind == Item::RECORD || (here->kind == Item::BADCRC && !(flags & MSF_VALIDATECRC))))
    {
      if (sel.takes (here->rec))
      {
        w.recs.push_back (here);
        w.optional.push_back (end && pos + (int64_t)here->bytes.size () - 1 > end);
      }
      count++;
      pos += here->bytes.size ();
      continue;
    }
    if (here && (here->kind == Item::CUT || (cut && end && here->kind == Item::BADCRC && pos + (int64_t)here->bytes.size () - 1 > end)))
    {
      w.codes = {MS_ENDOFFILE};
      return w;
    }
    if (!(flags & MSF_SKIPNOTDATA))
    {
      w.codes = {!here ? MS_NOTSEED : here->kind == Item::BADCRC ? MS_INVALIDCRC : MS_OUTOFRANGE};
      return w;
    }
    pos = next ? (int64_t)next->off : size;
    if (next && next->kind == Item::CUT && size - pos < MINRECLEN)
      pos = size;
  }
}

// any byte range (0: not given)
inline void
gen_range (Gen &g, const File &f, int64_t &start, int64_t &end)
{
  size_t n = f.bytes.size ();
  std::vector<int64_t> marks{0, (int64_t)n};
  for (auto &it : f.items)
    marks.push_back ((int64_t)it.off);
  auto place = [&] () -> int64_t {
    switch (g.raw (4))
    {
    case 0: return g.pick (marks);
    case 1: return g.pick (marks) + g.range (-45, 45);
    case 2: return g.range (0, (int64_t)n);
    default: return g.pick (marks) + g.range (-2, 2);
    }
  };
  bool from = g.coin (), to = g.coin () || !from;
  if (from)
    start = std::max<int64_t> (0, place ());
  if (to && g.chance (1, 15))
    end = INT64_MAX - g.range (0, 1);
  else if (to)
    end = std::max<int64_t> (1, g.chance (1, 8) ? (int64_t)n + g.range (0, 1000) : place ());
  // a place inside of a record is not the beginning of anything that looks like a record
  if (start > 0)
    for (auto &it : f.items)
      if (it.kind != Item::JUNK && (int64_t)it.off < start && start < (int64_t)(it.off + it.bytes.size ()))
        for (size_t p = (size_t)start; p < it.off + it.bytes.size (); p++)
          if (header_like (f.bytes, p))
            DISCARD ();
}

inline void
label_file (Gen &g, const File &f)
{
  for (auto &it : f.items)
    g.label (kinds[it.kind]);
  if (f.items.empty ())
    g.label ("empty file");
}

} // namespace files
