// Records as other software writes them
#pragma once
#include "desc.hpp"
#include "payload.hpp"
#include "v2.hpp"

// a record surrounded by exactly its own bytes, at a chosen alignment
struct Buf
{
  std::vector<uint8_t> v;
  uint8_t *p;
  size_t n;
  Buf (const Bytes &b, int off)
  {
    n = b.size ();
    v.reserve (n + off);
    v.assign (off, 0xEE);
    v.insert (v.end (), b.begin (), b.end ());
    v.shrink_to_fit ();
    p = v.data () + off;
  }
};

struct Foreign2
{
  v2::Rec r;
  Bytes rec;
  Series s;
  Json extra;
  int enc;
  bool hasb1000, databig;
  double rate;
  int64_t start;
  std::string sid;
};

inline Foreign2
gen_foreign2 (Gen &g, bool need_b1000)
{
  Foreign2 f;
  v2::Rec &r = f.r;
  r.big      = g.chance (2, 3);
  r.seq      = g.pick<const char *> ({"000001", "999999", "      ", "000012", "     7"});
  std::string codes = g.chance (1, 6) ? "abcxyzABC0189" : UPNUM;
  r.net      = g.str (codes, 1, 2);
  r.sta      = g.str (codes, 1, 5);
  r.loc      = g.str (codes, 0, 2);
  r.chan     = g.str (codes, 3, 3);
  f.sid      = "FDSN:" + r.net + "_" + r.sta + "_" + r.loc + "_" + r.chan[0] + "_" + r.chan[1] + "_" + r.chan[2];
  r.quality  = g.pick<char> ({'D', 'R', 'Q', 'M'});
  r.reserved = g.chance (1, 8) ? 0 : ' ';
  r.start    = r.big ? gen_time (g) : (int64_t)model::to_ns (g.range (1901, 2099), (int)g.range (1, 365), (int)g.range (0, 23), (int)g.range (0, 59), (int)g.range (0, 59), g.range (0, 9999) * 100000);
  r.start    = model::floordiv (r.start, 100000) * 100000;
  if (r.start >= NSTERROR - 3000000000000000LL && r.start <= NSTERROR + 3000000000000000LL)
    r.start += 10000000000000000LL; // corrections must not reach the error value
  r.act      = (uint8_t)g.range (0, 127);
  r.io       = (uint8_t)g.range (0, 63);
  r.dq       = (uint8_t)g.range (0, 255);
  if ((r.act & 0x30) == 0x30)
    r.act &= ~0x20;
  if (g.coin ())
    r.act = r.io = r.dq = 0;
  if (g.coin ())
    r.corr = (int32_t)g.bits (31);
  // rate
  switch (g.weighted ({4, 2, 2, 1}))
  {
  case 0:
    r.factor = (int16_t)g.range (1, 1000);
    r.mult   = (int16_t)g.pick<int> ({1, -1, -10, 10, -100, 4, -7});
    break;
  case 1:
    r.factor = (int16_t)g.range (-32767, 32767);
    r.mult   = (int16_t)g.range (-32767, 32767);
    break;
  case 2:
    r.factor = (int16_t)-g.range (1, 3600);
    r.mult   = (int16_t)g.pick<int> ({1, -1, 10});
    break;
  default:
    r.factor = r.mult = 0;
  }
  f.rate = v2::nominal (r.factor, r.mult);
  // blockettes
  r.padding   = g.coin () ? ' ' : 0;
  f.hasb1000  = need_b1000 || g.chance (9, 10);
  std::string clk = ext::field (g, 32);
  std::vector<v2::Blk> bl;
  auto add = [&] (int type, const Bytes &raw) {
    v2::Blk b;
    b.type = type;
    b.raw  = raw;
    bl.push_back (b);
  };
  int nb = g.chance (1, 24) ? (int)g.range (5, 60) : (int)g.range (0, 4);
  for (int k = 0; k < nb; k++)
  {
    Json e;
    int type;
    switch (g.weighted ({3, 3, 3, 1, 1}))
    {
    case 0: e = ext::detection (g); type = v2::type_of (e, 'd'); break;
    case 1: e = ext::calibration (g); type = v2::type_of (e, 'c'); break;
    case 2: e = ext::exception (g); type = 500; break;
    case 3:
    {
      Bytes raw (16, 0);
      v2::header (raw, 400, r.big);
      add (400, raw);
      continue;
    }
    default:
    {
      // opaque data: total length in the blockette
      // with header texts, each ended by a tilde, before the data
      size_t nh = g.chance (1, 3) ? (size_t)g.range (1, 3) : 0;
      std::string heads;
      for (size_t q = 0; q < nh; q++)
        heads += ext::field (g, 12) + "~";
      size_t len = 15 + heads.size () + (size_t)g.range (0, 45);
      Bytes raw (len, 0x55);
      model::put (raw, 0, 2000, 2, r.big);
      model::put (raw, 2, 0, 2, r.big);
      model::put (raw, 4, len, 2, r.big);
      model::put (raw, 6, 15 + heads.size (), 2, r.big);
      model::put (raw, 8, g.coin () ? 1 : g.range (0, 4294967295LL), 4, r.big);
      raw[12] = (uint8_t)g.range (0, 1);
      raw[13] = (uint8_t)g.range (0, 63);
      raw[14] = (uint8_t)nh;
      memcpy (&raw[15], heads.data (), heads.size ());
      add (2000, raw);
      continue;
    }
    }
    Bytes raw = v2::build (type, e, clk, r.big, r.padding);
    if (type == 500 && (int8_t)raw[18] > 50 && g.coin ())
    {
      // the same time, one step later and less than 50 microseconds back
      int64_t ns;
      REQUIRE (v2::get_btime (&raw[8], r.big, ns), "harness", "exception time");
      v2::put_btime (raw, 8, ns + 100000, r.big);
      raw[18] = (uint8_t) (raw[18] - 100);
    }
    add (type, raw);
  }
  auto insert = [&] (int type, const Bytes &raw, bool anywhere) {
    v2::Blk b;
    b.type = type;
    b.raw  = raw;
    bl.insert (bl.begin () + (anywhere ? g.index (bl.size () + 1) : 0), b);
  };
  bool any = g.chance (1, 3);
  f.start  = r.start;
  if (r.corr && !(r.act & 2))
    f.start += (int64_t)r.corr * 100000;
  if (g.coin ())
  {
    Bytes raw (8, 0);
    v2::header (raw, 1001, r.big);
    int us = (int)g.range (-50, 99);
    raw[4] = (uint8_t)g.range (0, 100);
    raw[5] = (uint8_t)us;
    raw[7] = (uint8_t)g.range (0, 63);
    insert (1001, raw, any);
    f.start += us * 1000;
  }
  if (g.chance (1, 3))
  {
    Bytes raw (12, 0);
    v2::header (raw, 100, r.big);
    float fr = (float)((double)g.range (1, 2000000) / (double)g.range (1, 10000));
    v2::put_f (raw, 4, fr, r.big);
    insert (100, raw, any);
    f.rate = fr;
  }
  f.enc     = payload::gen_enc (g);
  f.databig = r.big;
  Bytes b1000 (8, 0);
  v2::header (b1000, 1000, r.big);
  if (f.hasb1000)
  {
    if (g.chance (1, 8))
      f.databig = !f.databig;
    b1000[4] = (uint8_t)f.enc;
    b1000[5] = f.databig;
    insert (1000, b1000, any);
  }
  else
    f.enc = DE_STEIM1;
  // layout
  r.blks = bl;
  std::vector<int> gaps;
  bool gap = g.chance (1, 4);
  for (size_t k = 0; k < bl.size (); k++)
    gaps.push_back (gap ? (int)g.range (0, 3) * 4 : 0);
  size_t end = r.layout (gaps);
  size_t n   = (size_t)g.size (0, 800);
  size_t off = end;
  if (g.chance (3, 4))
    off = (end + 63) / 64 * 64;
  else
    off += g.range (0, 9);
  payload::Coded c;
  c.s.type = enctype (f.enc);
  int exp  = 7;
  size_t room = (size_t)g.pick<int> ({0, 64, 200, 448, 1000, 3000});
  bool flush = !n && g.chance (1, 3); // the last blockette ends with the record
  if (flush)
    room = off = 0;
  while (((size_t)1 << exp) < off + room || ((size_t)1 << exp) < off + 64 || ((size_t)1 << exp) < end)
    exp++;
  if (f.hasb1000 && !flush && g.chance (1, 250)) // longer than usual
  {
    exp = std::max (exp, (int)g.range (13, g.chance (1, 4) ? 20 : 17));
    if (n)
      n = (size_t)g.range (1, 65535);
  }
  r.reclen = 1 << exp;
  if (flush && bl.size () > 1)
  {
    gaps.back () += r.reclen - (int)end;
    r.layout (gaps);
  }
  if (n)
    c = payload::encode (g, f.enc, n, f.databig, r.reclen - off);
  f.s = c.s;
  if (f.s.size ())
  {
    r.data    = c.data;
    r.dataoff = (uint16_t)off;
    r.nsamp   = (uint16_t)f.s.size ();
  }
  else if (!flush && g.coin ())
    r.dataoff = (uint16_t)off;
  if (f.hasb1000)
    for (auto &b : r.blks)
      if (b.type == 1000)
        b.raw[6] = (uint8_t)exp;
  f.rec = r.bytes (0);
  if (f.rec[26] == 59 && g.chance (1, 4)) // a leap second
  {
    f.rec[26] = 60;
    f.start += 1000000000;
  }
  std::string err;
  f.extra = v2::extra_of (r, &err);
  REQUIRE (err.empty (), "harness", err);
  return f;
}

inline std::string
show (const Foreign2 &f)
{
  std::string s = fmt ("v2 %s-endian sid=%s start=%s act=%02x io=%02x dq=%02x corr=%d factor=%d mult=%d dataoff=%u reclen=%d data %s %s blockettes", f.r.big ? "big" : "little", f.sid.c_str (), tstr (f.r.start).c_str (), f.r.act, f.r.io, f.r.dq, f.r.corr, f.r.factor, f.r.mult, f.r.dataoff, f.r.reclen, f.hasb1000 ? encname (f.enc) : "(no blockette 1000)", f.databig ? "BE" : "LE");
  for (auto &b : f.r.blks)
    s += fmt (" %d@%zu", b.type, b.off);
  return s + " " + f.s.show () + " extra " + f.extra.text ();
}

inline model::Rec3
gen_foreign3 (Gen &g, Series &s, bool fillextra = true)
{
  model::Rec3 r;
  int64_t st = gen_time (g);
  model::Civil c = model::civil (st);
  r.flags  = (uint8_t)g.range (0, 255);
  r.nsec   = c.nsec;
  r.year   = (uint16_t)c.year;
  r.doy    = (uint16_t)c.doy;
  r.hour   = (uint8_t)c.hour;
  r.min    = (uint8_t)c.min;
  r.sec    = (uint8_t)c.sec;
  if (r.sec == 59 && g.chance (1, 4))
    r.sec = 60;
  double rate = g.chance (1, 8) ? 0 : gen_rate (g);
  r.ratebits  = model::d2bits (rate);
  r.encoding  = (uint8_t)payload::gen_enc (g);
  r.pubversion = (uint8_t)g.range (0, 255);
  r.sid        = gen_sid (g, false);
  if (fillextra)
  {
    if (g.chance (1, 3))
    {
      Json o = ext::gen_v2able (g, 600);
      r.extra = ext::empty (o) ? "" : o.text ();
    }
    else
      r.extra = gen_extra_v3 (g);
    if (!r.extra.empty () && g.chance (1, 4))
      r.extra = " " + r.extra + "\n"; // white space is allowed
  }
  bool big = r.encoding == DE_STEIM1 || r.encoding == DE_STEIM2;
  size_t n = (size_t)g.size (0, 1500);
  s        = Series ();
  s.type   = enctype (r.encoding);
  if (n && g.chance (1, 100))
    n = (size_t)g.range (10000, 140000);
  if (n)
  {
    payload::Coded c = payload::encode (g, r.encoding, n, big, 1 << 21);
    s      = c.s;
    r.data = c.data;
    if (g.chance (1, 6) && s.size ()) // padding after the samples
      r.data.resize (r.data.size () + (big ? 64 * g.range (1, 3) : g.range (1, 40)), 0);
  }
  r.nsamp = (uint32_t)s.size ();
  return r;
}
