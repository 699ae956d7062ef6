// What the raw header printer must show for a record's bytes: tables of fields
// written from the format specification
#pragma once
#include "foreign.hpp"

namespace raw {
struct Field
{
  const char *label;
  int off;
  const char *kind; // u1 u2 u4 i1 f (float) f% b (BTIME) s<N>
};
inline const std::vector<Field> &
fields (int type)
{
  static const std::map<int, std::vector<Field>> t = {
      {100, {{"actual sample rate", 4, "F"}}},
      {200, {{"signal amplitude", 4, "f"}, {"signal period", 8, "f"}, {"background estimate", 12, "f"}, {"signal onset time", 18, "b"}, {"detector name", 28, "s24"}}},
      {201, {{"signal amplitude", 4, "f"}, {"signal period", 8, "f"}, {"background estimate", 12, "f"}, {"signal onset time", 18, "b"}, {"loopback value", 34, "u1"}, {"pick algorithm", 35, "u1"}, {"detector name", 36, "s24"}}},
      {300, {{"calibration start time", 4, "b"}, {"number of calibrations", 14, "u1"}, {"step duration", 16, "u4"}, {"interval duration", 20, "u4"}, {"signal amplitude", 24, "f"}, {"input signal channel", 28, "s3"}, {"reference amplitude", 32, "u4"}, {"coupling", 36, "s12"}, {"rolloff", 48, "s12"}}},
      {310, {{"calibration start time", 4, "b"}, {"calibration duration", 16, "u4"}, {"signal period", 20, "f"}, {"signal amplitude", 24, "f"}, {"input signal channel", 28, "s3"}, {"reference amplitude", 32, "u4"}, {"coupling", 36, "s12"}, {"rolloff", 48, "s12"}}},
      {320, {{"calibration start time", 4, "b"}, {"calibration duration", 16, "u4"}, {"peak-to-peak amplitude", 20, "f"}, {"input signal channel", 24, "s3"}, {"reference amplitude", 28, "u4"}, {"coupling", 32, "s12"}, {"rolloff", 44, "s12"}, {"noise type", 56, "s8"}}},
      {390, {{"calibration start time", 4, "b"}, {"calibration duration", 16, "u4"}, {"signal amplitude", 20, "f"}, {"input signal channel", 24, "s3"}}},
      {395, {{"calibration end time", 4, "b"}}},
      {400, {{"beam azimuth (degrees)", 4, "f"}, {"beam slowness (sec/degree)", 8, "f"}, {"configuration", 12, "u2"}}},
      {500, {{"VCO correction", 4, "f%"}, {"time of exception", 8, "b"}, {"usec", 18, "i1"}, {"reception quality", 19, "u1%"}, {"exception count", 20, "u4"}, {"exception type", 24, "s16"}, {"clock model", 40, "s32"}, {"clock status", 72, "s128"}}},
      {1001, {{"timing quality", 4, "u1%"}, {"micro second", 5, "i1"}, {"frame count", 7, "u1"}}},
      {2000, {{"blockette length", 4, "u2"}, {"data offset", 6, "u2"}, {"record number", 8, "u4"}, {"number of headers", 14, "u1"}}},
  };
  static const std::vector<Field> none;
  auto it = t.find (type);
  return it == t.end () ? none : it->second;
}
inline std::string
value (const uint8_t *p, const Field &f, bool big)
{
  std::string k = f.kind;
  p += f.off;
  std::string tail;
  if (k.back () == '%')
    tail = "%", k.pop_back ();
  if (k == "u1") return fmt ("%u", p[0]) + tail;
  if (k == "i1") return fmt ("%d", (int8_t)p[0]) + tail;
  if (k == "u2") return fmt ("%u", (unsigned)model::get (p, 2, big)) + tail;
  if (k == "u4") return fmt ("%u", (unsigned)model::get (p, 4, big)) + tail;
  if (k == "f") return fmt ("%g", model::bits2f ((uint32_t)model::get (p, 4, big))) + tail;
  if (k == "F") return fmt ("%.10g", model::bits2f ((uint32_t)model::get (p, 4, big))) + tail;
  if (k == "b")
    return fmt ("%d,%d,%d:%d:%d.%04d (unused: %d)", (int)model::get (p, 2, big), (int)model::get (p + 2, 2, big), p[4], p[5], p[6], (int)model::get (p + 8, 2, big), p[7]);
  size_t n = atoi (k.c_str () + 1);
  return std::string ((const char *)p, strnlen ((const char *)p, n));
}
inline std::vector<std::string>
lines (const std::string &s)
{
  std::vector<std::string> v;
  size_t p = 0;
  while (p < s.size ())
  {
    size_t e = s.find ('\n', p);
    if (e == std::string::npos)
      e = s.size ();
    v.push_back (s.substr (p, e - p));
    p = e + 1;
  }
  return v;
}
// value shown for a label between two lines; false if it is not there
inline bool
shown (const std::vector<std::string> &l, size_t from, size_t to, const std::string &label, std::string &val)
{
  for (size_t k = from; k < to; k++)
  {
    size_t b = l[k].find_first_not_of (' ');
    if (b == std::string::npos || l[k].compare (b, label.size () + 1, label + ":") != 0)
      continue;
    val = l[k].size () > b + label.size () + 2 ? l[k].substr (b + label.size () + 2) : "";
    return true;
  }
  return false;
}
inline void
want (const std::vector<std::string> &l, size_t from, size_t to, const std::string &label, const std::string &val)
{
  std::string got;
  REQUIRE (shown (l, from, to, label, got), "raw-missing", "no line for '" << label << "'");
  REQUIRE (got == val, "raw-value", label << " is shown as " << pbt::quote (got) << ", want " << pbt::quote (val));
}
inline std::string
bits (uint8_t b)
{
  std::string s = "[";
  for (int k = 7; k >= 0; k--)
    s += (b >> k & 1) ? '1' : '0';
  return s + "] 8 bits";
}

// the lines that explain a flag byte, directly below it: one for each set bit
inline void
wantbits (const std::vector<std::string> &l, size_t from, size_t to, const std::string &label, uint8_t set, bool always0 = false)
{
  std::string wants, got;
  for (int k = 0; k < 8; k++)
    if ((set >> k & 1) || (k == 0 && always0))
      wants += fmt ("[Bit %d] ", k);
  for (size_t k = from; k < to; k++)
  {
    size_t b = l[k].find_first_not_of (' ');
    if (b == std::string::npos || l[k].compare (b, label.size () + 1, label + ":") != 0)
      continue;
    for (k++; k < to; k++)
    {
      b = l[k].find_first_not_of (' ');
      if (b == std::string::npos || l[k].compare (b, 5, "[Bit ") != 0)
        break;
      got += l[k].substr (b, 8);
    }
    break;
  }
  REQUIRE (got == wants, "raw-flags", "below " << label << " there is " << pbt::quote (got) << ", want " << pbt::quote (wants));
}

// a valid version 2 record built by gen_foreign2
inline void
check2 (Gen &g, Foreign2 f)
{
  for (auto &b : f.r.blks) // bytes without a meaning
    if (g.coin ())
    {
      if (b.type == 100)
        for (int k = 8; k < 12; k++)
          f.rec[b.off + k] = (uint8_t)g.raw (256);
      if (b.type == 395 || b.type == 400)
        for (int k = 14; k < 16; k++)
          f.rec[b.off + k] = (uint8_t)g.raw (256);
    }
  const uint8_t *r = f.rec.data ();
  bool big         = f.r.big;
  int year         = (int)model::get (r + 20, 2, big);
  bool likely      = year >= 1900 && year <= 2100 && f.r.nsamp <= 20000;
  int swap         = big != (bool)ms_bigendianhost ();
  int how          = year >= 1900 && year <= 2050 && g.coin () ? -1 : swap;
  Buf buf (f.rec, 0);
  lg::reset ();
  int rv = ms_parse_raw2 ((char *)buf.p, f.r.reclen, 2, (int8_t)how);
  bool digits = true;
  for (int k = 0; k < 6; k++)
    digits = digits && isdigit (r[k]);
  if (likely && digits)
    REQUIRE (rv == 0, "raw-errors", "ms_parse_raw2 finds " << rv << " errors in a valid record: " << lg::diag ());
  std::vector<std::string> l = lines (lg::out ());
  std::vector<size_t> at;
  for (size_t k = 0; k < l.size (); k++)
    if (l[k].find (" BLOCKETTE ") != std::string::npos)
      at.push_back (k);
  size_t h = at.empty () ? l.size () : at[0];
  auto txt = [&] (int off, int n) { return "'" + std::string ((const char *)r + off, n) + "'"; };
  want (l, 0, h, "sequence number", txt (0, 6));
  want (l, 0, h, "data quality indicator", txt (6, 1));
  want (l, 0, h, "station code", txt (8, 5));
  want (l, 0, h, "location ID", txt (13, 2));
  want (l, 0, h, "channel codes", txt (15, 3));
  want (l, 0, h, "network code", txt (18, 2));
  Field t = {"", 20, "b"};
  want (l, 0, h, "start time", value (r, t, big));
  want (l, 0, h, "number of samples", fmt ("%d", f.r.nsamp));
  want (l, 0, h, "sample rate factor", fmt ("%d  (%.10g samples per second)", f.r.factor, v2::nominal (f.r.factor, f.r.mult)));
  want (l, 0, h, "sample rate multiplier", fmt ("%d", f.r.mult));
  want (l, 0, h, "activity flags", bits (f.r.act));
  want (l, 0, h, "I/O and clock flags", bits (f.r.io));
  want (l, 0, h, "data quality flags", bits (f.r.dq));
  wantbits (l, 0, h, "activity flags", f.r.act);
  wantbits (l, 0, h, "I/O and clock flags", f.r.io);
  wantbits (l, 0, h, "data quality flags", f.r.dq);
  want (l, 0, h, "number of blockettes", fmt ("%zu", f.r.blks.size ()));
  want (l, 0, h, "time correction", fmt ("%d", f.r.corr));
  want (l, 0, h, "data offset", fmt ("%d", f.r.dataoff));
  REQUIRE (at.size () == f.r.blks.size (), "raw-blockettes", at.size () << " blockettes shown, want " << f.r.blks.size ());
  for (size_t k = 0; k < at.size (); k++)
  {
    const v2::Blk &b = f.r.blks[k];
    size_t to        = k + 1 < at.size () ? at[k + 1] : l.size ();
    REQUIRE (l[at[k]].find (fmt ("BLOCKETTE %d:", b.type)) != std::string::npos, "raw-blockettes", l[at[k]] << " want " << b.type);
    want (l, at[k], to, "next blockette", fmt ("%zu", k + 1 < at.size () ? f.r.blks[k + 1].off : 0));
    for (auto &fl : fields (b.type))
    {
      std::string v = value (r + b.off, fl, big);
      if (v.find ('\n') == std::string::npos)
        want (l, at[k], to, fl.label, v);
    }
    const uint8_t *p = r + b.off;
    switch (b.type)
    {
    case 100:
      want (l, at[k], to, "undefined flags", bits (p[8]));
      want (l, at[k], to, "reserved bytes (3)", fmt ("%u,%u,%u", p[9], p[10], p[11]));
      break;
    case 200:
      want (l, at[k], to, "event detection flags", bits (p[16]));
      break;
    case 201:
    {
      std::string snr;
      want (l, at[k], to, "event detection flags", bits (p[16]));
      for (int q = 0; q < 6; q++)
        snr += fmt ("%u  ", p[28 + q]);
      want (l, at[k], to, "SNR values", snr);
      break;
    }
    case 300:
      want (l, at[k], to, "calibration flags", bits (p[15]));
      wantbits (l, at[k], to, "calibration flags", p[15] & 0x0f);
      break;
    case 310:
      want (l, at[k], to, "calibration flags", bits (p[15]));
      wantbits (l, at[k], to, "calibration flags", p[15] & 0x7c);
      break;
    case 320:
      want (l, at[k], to, "calibration flags", bits (p[15]));
      wantbits (l, at[k], to, "calibration flags", p[15] & 0x1c);
      break;
    case 390:
      want (l, at[k], to, "calibration flags", bits (p[15]));
      wantbits (l, at[k], to, "calibration flags", p[15] & 0x0c);
      break;
    case 395:
      want (l, at[k], to, "reserved bytes (2)", fmt ("%u,%u", p[14], p[15]));
      break;
    case 400:
      want (l, at[k], to, "reserved bytes (2)", fmt ("%u,%u", p[14], p[15]));
      break;
    }
    if (b.type == 2000)
    {
      want (l, at[k], to, "byte order", fmt ("%s (val:%d)", r[b.off + 12] ? "Big endian" : "Little endian", r[b.off + 12]));
      want (l, at[k], to, "data flags", bits (r[b.off + 13]));
      size_t n = model::get (r + b.off + 6, 2, big) - 15;
      if (n)
        want (l, at[k], to, "headers", std::string ((const char *)r + b.off + 15, n));
    }
    if (b.type == 1000)
    {
      want (l, at[k], to, "byte order", fmt ("%s (val:%d)", r[b.off + 5] ? "Big endian" : "Little endian", r[b.off + 5]));
      want (l, at[k], to, "record length", fmt ("%d (val:%d)", 1 << r[b.off + 6], r[b.off + 6]));
      std::string e;
      REQUIRE (shown (l, at[k], to, "encoding", e) && e.find (fmt ("(val:%d)", r[b.off + 4])) != std::string::npos, "raw-value", "encoding " << e);
    }
  }
}
inline void
check3 (const model::Rec3 &r3)
{
  Bytes rec = r3.build ();
  Buf buf (rec, 0);
  lg::reset ();
  int rv = ms_parse_raw3 ((char *)buf.p, (int)rec.size (), 2);
  if (r3.year >= 1900 && r3.year <= 2100 && r3.sid.size () >= 4)
    REQUIRE (rv == 0, "raw-errors", "ms_parse_raw3 finds " << rv << " errors in a valid record: " << lg::diag ());
  if (r3.sid.size () < 4 || r3.sid.find ('\n') != std::string::npos)
    return;
  std::vector<std::string> l = lines (lg::out ());
  size_t h                   = l.size ();
  for (size_t k = 0; k < l.size (); k++)
    if (l[k].find ("          extra headers:") == 0)
      h = k;
  want (l, 0, h, "activity flags", bits (r3.flags));
  wantbits (l, 0, h, "activity flags", r3.flags);
  want (l, 0, h, "start time", fmt ("%u,%u,%u:%u:%u.%09u", r3.year, r3.doy, r3.hour, r3.min, r3.sec, r3.nsec));
  want (l, 0, h, "sample rate+/period-", fmt ("%g", model::bits2d (r3.ratebits)));
  want (l, 0, h, "data encoding", fmt ("%u", r3.encoding));
  want (l, 0, h, "publication version", fmt ("%u", r3.pubversion));
  want (l, 0, h, "number of samples", fmt ("%u", r3.nsamp));
  want (l, 0, h, "CRC", fmt ("0x%X", (unsigned)model::get (&rec[28], 4, false)));
  want (l, 0, h, "length of identifier", fmt ("%zu", r3.sid.size ()));
  want (l, 0, h, "length of extra headers", fmt ("%zu", r3.extra.size ()));
  want (l, 0, h, "length of data payload", fmt ("%zu", r3.data.size ()));
}
// ------------------------------------------------------- records with faults
static const std::vector<int> punct = {'!', '-', '_', '.', '\\', '*', 1, 0x7f, 0xc3, '\n', '@', '[', '`', '{', '/', ':'};
// break some header fields of a valid record, each at most once; number of broken fields
inline int
spoil2 (Gen &g, const Foreign2 &f, Bytes &rec, std::string &what)
{
  bool big = f.r.big;
  int n    = 0;
  int many = (int)g.size (1, 8);
  std::set<int> used;
  for (int t = 0; t < many; t++)
  {
    int k = (int)g.raw (16);
    if (!used.insert (k).second)
      continue;
    switch (k)
    {
    case 0: rec[g.raw (6)] = g.pick<int> ({'A', ' ', '-', '/', ':', 0, 0xb2}); break;
    case 1: rec[6] = g.pick<int> ({'X', 'd', ' ', 'C', 'E', 'L', 'N', 'P', 'S', 0}); break;
    case 2: rec[7] = g.pick<int> ({'!', '0', 1, 0x1f, 0x80, 'D'}); break;
    case 3: rec[8 + g.raw (5)] = g.pick (punct); break;
    case 4: rec[13 + g.raw (2)] = g.pick (punct); break;
    case 5: rec[15 + g.raw (3)] = g.pick (punct); break;
    case 6: rec[18 + g.raw (2)] = g.pick (punct); break;
    case 7: model::put (rec, 20, g.pick<int> ({1899, 2101, 0, 65535, 1000, 2200}), 2, big); break;
    case 8: model::put (rec, 22, g.pick<int> ({0, 367, 1000, 65535}), 2, big); break;
    case 9: rec[24] = (uint8_t)g.range (24, 255); break;
    case 10: rec[25] = (uint8_t)g.range (60, 255); break;
    case 11: rec[26] = (uint8_t)g.range (61, 255); break;
    case 12: model::put (rec, 28, g.pick<int> ({10000, 10001, 32768, 65535}), 2, big); break;
    case 13: // number of blockettes
      rec[39] = (uint8_t)(rec[39] + (g.coin () ? 1 : 255));
      break;
    case 14:
    case 15:
    {
      size_t q = 0;
      while (q < f.r.blks.size () && f.r.blks[q].type != 1000)
        q++;
      if (q == f.r.blks.size ())
        continue;
      size_t o = f.r.blks[q].off;
      if (k == 14 && g.chance (1, 4))
      {
        rec[o + 4] = g.pick<int> ({0, 1, 5, 10, 11, 15, 17, 19, 30, 33}); // a known encoding
        n--;
      }
      else if (k == 14)
        rec[o + 4] = g.pick<int> ({6, 9, 20, 29, 34, 100, 255});
      else
        rec[o + 5] = g.pick<int> ({2, 3, 128, 255});
      break;
    }
    }
    what += fmt (" %d", k);
    n++;
  }
  return n;
}
inline void
faults2 (Gen &g, const Foreign2 &f)
{
  const uint8_t *r = f.rec.data ();
  bool big         = f.r.big;
  int year         = (int)model::get (r + 20, 2, big);
  for (int k = 0; k < 6; k++)
    if (!isdigit (r[k]))
      DISCARD ();
  if (year < 1900 || year > 2100 || f.r.nsamp > 20000 || f.r.blks.empty ())
    DISCARD ();
  Bytes rec = f.rec;
  std::string what;
  int n = spoil2 (g, f, rec, what);
  g.note (" broken fields" + what);
  Buf buf (rec, 0);
  int8_t swap = big != (bool)ms_bigendianhost ();
  int8_t det  = (int8_t)g.raw (3);
  lg::reset ();
  int rv = ms_parse_raw2 ((char *)buf.p, f.r.reclen, det, swap);
  REQUIRE (rv == n, "raw-faults", "ms_parse_raw2 counts " << rv << " errors, " << n << " fields are invalid (" << what << " ): " << lg::diag ());
  if (det == 0)
    REQUIRE (lg::out ().empty (), "raw-quiet", "details 0 still prints " << pbt::quote (lg::out ()));
}
inline void
faults3 (Gen &g, const model::Rec3 &r3)
{
  if (r3.year < 1900 || r3.year > 2100 || r3.sid.size () < 4)
    DISCARD ();
  Bytes rec = r3.build ();
  std::string what;
  int n    = 0;
  int many = (int)g.size (1, 5);
  std::set<int> used;
  for (int t = 0; t < many; t++)
  {
    int k = (int)g.raw (8);
    if (!used.insert (k).second)
      continue;
    switch (k)
    {
    case 0: rec[g.raw (2)] = g.pick<int> ({'m', 's', 0, 'N', 'R'}); break;
    case 1: rec[2] = g.pick<int> ({0, 2, 4, '3', 255}); break;
    case 2: model::put (rec, 8, g.pick<int> ({1899, 2101, 0, 65535}), 2, false); break;
    case 3: model::put (rec, 10, g.pick<int> ({0, 367, 65535}), 2, false); break;
    case 4: rec[12] = (uint8_t)g.range (24, 255); break;
    case 5: rec[13] = (uint8_t)g.range (60, 255); break;
    case 6: rec[14] = (uint8_t)g.range (61, 255); break;
    case 7: model::put (rec, 4, g.pick<uint64_t> ({1000000000, 0xffffffff, 0x80000000u}), 4, false); break;
    }
    what += fmt (" %d", k);
    n++;
  }
  g.note (" broken fields" + what);
  Buf buf (rec, 0);
  int8_t det = (int8_t)g.raw (3);
  lg::reset ();
  int rv = ms_parse_raw3 ((char *)buf.p, (int)rec.size (), det);
  REQUIRE (rv == n, "raw-faults", "ms_parse_raw3 counts " << rv << " errors, " << n << " fields are invalid (" << what << " ): " << lg::diag ());
  if (det == 0)
    REQUIRE (lg::out ().empty (), "raw-quiet", "details 0 still prints " << pbt::quote (lg::out ()));
}
} // namespace raw
