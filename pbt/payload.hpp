// Independent decoding of record payloads
#pragma once
#include "gen.hpp"

namespace payload {
// empty string or what is wrong; exact: nothing but the n samples may be encoded
inline std::string
decode (int enc, const uint8_t *p, size_t len, size_t n, bool big, Series &s, bool strict)
{
  s      = Series ();
  s.type = enctype (enc);
  auto need = [&] (size_t bytes) { return len < n * bytes || (strict && len != n * bytes); };
  std::string bad = "payload of " + std::to_string (len) + " bytes for " + std::to_string (n) + " samples of " + encname (enc);
  switch (enc)
  {
  case DE_TEXT:
    if (need (1)) return bad;
    s.t.assign ((const char *)p, n);
    return "";
  case DE_INT16:
    if (need (2)) return bad;
    for (size_t k = 0; k < n; k++)
      s.i.push_back ((int32_t)model::sext (model::get (p + 2 * k, 2, big), 16));
    return "";
  case DE_INT32:
    if (need (4)) return bad;
    for (size_t k = 0; k < n; k++)
      s.i.push_back ((int32_t)model::get (p + 4 * k, 4, big));
    return "";
  case DE_FLOAT32:
    if (need (4)) return bad;
    for (size_t k = 0; k < n; k++)
      s.f.push_back (model::bits2f ((uint32_t)model::get (p + 4 * k, 4, big)));
    return "";
  case DE_FLOAT64:
    if (need (8)) return bad;
    for (size_t k = 0; k < n; k++)
      s.d.push_back (model::bits2d (model::get (p + 8 * k, 8, big)));
    return "";
  case DE_STEIM1:
  case DE_STEIM2:
  {
    model::Steim st = model::steim_diffs (p, len, enc == DE_STEIM1 ? 1 : 2, big);
    if (!st.ok)
      return "Steim frames: " + st.why;
    if (strict && len % 64)
      return "Steim payload is not whole frames";
    if (st.diffs.size () != n)
      return "Steim frames hold " + std::to_string (st.diffs.size ()) + " differences for " + std::to_string (n) + " samples";
    if (!model::steim_samples (st, n, s.i))
      return "too few differences";
    if (n && s.i.back () != st.xn)
      return "reverse integration constant " + std::to_string (st.xn) + " but the last sample is " + std::to_string (s.i.back ());
    if (strict && n)
    {
      // no frame without data, nothing after the last used word
      const uint8_t *f = p + len - 64;
      if (model::get (f, 4, big) == 0 && len > 64)
        return "last frame is empty";
    }
    // words marked as unused must be zero
    for (size_t fr = 0; fr < len / 64; fr++)
      for (int w = fr == 0 ? 3 : 1; w < 16; w++)
        if (((model::get (p + fr * 64, 4, big) >> (30 - 2 * w)) & 3) == 0 && model::get (p + fr * 64 + 4 * w, 4, big))
          return "unused word is not zero";
    return "";
  }
  }
  return "unknown encoding";
}
// ------------------------------------------------------------ a foreign writer
struct Coded
{
  Bytes data;
  Series s;
};
// Steim frames with packing choices of the writer's own
inline Coded
steim (Gen &g, int version, const std::vector<int32_t> &v, bool big, size_t maxframes)
{
  Coded c;
  c.s.type = 'i';
  if (v.empty ())
    return c;
  int lazy     = (int)g.range (0, 8); // how often a packing is not the densest
  bool specials = g.chance (1, 6);
  int lead      = g.chance (1, 24) ? (int)g.range (1, 45) : 0; // words without data before the first difference
  std::vector<int64_t> d (v.size ());
  for (size_t k = 1; k < v.size (); k++)
  {
    d[k] = (int64_t)v[k] - v[k - 1];
    if (version == 1)
      d[k] = (int32_t)(uint32_t)d[k]; // two's complement, may wrap
  }
  // the first difference refers to the previous record
  d[0] = g.pick<int64_t> ({0, v[0], 1, -1, 100, 536870911, -536870912, 20000});
  if (version == 2 && (d[0] > 536870911 || d[0] < -536870912))
    d[0] = 5;
  struct P { int n, bits, nib, dn; };
  static const P p1[] = {{4, 8, 1, -1}, {2, 16, 2, -1}, {1, 32, 3, -1}};
  static const P p2[] = {{7, 4, 3, 2}, {6, 5, 3, 1}, {5, 6, 3, 0}, {4, 8, 1, -1}, {3, 10, 2, 3}, {2, 15, 2, 2}, {1, 30, 2, 1}};
  size_t pos = 0;
  size_t fr  = 0;
  for (; fr < maxframes && pos < v.size (); fr++)
  {
    c.data.resize ((fr + 1) * 64, 0);
    uint32_t ctl = 0;
    for (int w = fr == 0 ? 3 : 1; w < 16 && pos < v.size (); w++)
    {
      size_t o = fr * 64 + 4 * w;
      if (lead > 0)
      {
        lead--;
        continue;
      }
      if (specials && g.chance (1, 12))
        continue; // a word without data
      const P *cand[7];
      int nc = 0;
      auto tryp = [&] (const P &p, bool pad) {
        for (int k = 0; k < p.n; k++)
        {
          if (pos + k >= v.size ())
          {
            if (!pad)
              return;
            break;
          }
          int64_t lim = 1LL << (p.bits - 1);
          if (d[pos + k] < -lim || d[pos + k] >= lim)
            return;
        }
        cand[nc++] = &p;
      };
      bool pad = g.chance (1, 8);
      for (int q = 0; q < (version == 1 ? 3 : 7); q++)
        tryp (version == 1 ? p1[q] : p2[q], pad);
      if (!nc)
        return c; // a difference this encoding cannot hold; the series ends here
      const P &p = *cand[(int)g.range (0, 8) < lazy ? g.index (nc) : 0];
      ctl |= (uint32_t)p.nib << (30 - 2 * w);
      auto val = [&] (int k) -> int64_t { return pos + k < v.size () ? d[pos + k] : 0; };
      if (p.bits == 8)
        for (int k = 0; k < 4; k++)
          c.data[o + k] = (uint8_t)val (k);
      else if (version == 1 && p.bits == 16)
        for (int k = 0; k < 2; k++)
          model::put (c.data, o + 2 * k, (uint16_t)val (k), 2, big);
      else
      {
        uint32_t x = 0;
        if (p.bits == 32)
          x = (uint32_t)val (0);
        else
        {
          for (int k = 0; k < p.n; k++)
            x |= ((uint32_t)val (k) & ((1u << p.bits) - 1)) << (p.bits * (p.n - 1 - k));
          x |= (uint32_t)p.dn << 30;
        }
        model::put (c.data, o, x, 4, big);
      }
      pos += std::min<size_t> (p.n, v.size () - pos);
    }
    model::put (c.data, fr * 64, ctl, 4, big);
  }
  if (!pos) // nothing but words without data
  {
    c.data.clear ();
    return c;
  }
  model::put (c.data, 4, (uint32_t)v[0], 4, big);
  model::put (c.data, 8, (uint32_t)v[pos - 1], 4, big);
  c.s.i.assign (v.begin (), v.begin () + pos);
  return c;
}
// any value of a field, the limits of its signed and unsigned ranges often
inline uint64_t
field (Gen &g, int bits)
{
  uint64_t half = 1ull << (bits - 1);
  if (!g.chance (1, 6))
    return g.raw (2 * half);
  return g.pick<uint64_t> ({0, 1, half - 1, half, half + 1, 2 * half - 1, 2 * half - 2});
}
inline Coded
encode (Gen &g, int enc, size_t n, bool big, size_t maxbytes)
{
  Coded c;
  c.s.type = enctype (enc);
  int w    = 0;
  switch (enc)
  {
  case DE_TEXT: w = 1; break;
  case DE_INT32: case DE_FLOAT32: w = 4; break;
  case DE_FLOAT64: w = 8; break;
  case DE_GEOSCOPE24: w = 3; break;
  case DE_STEIM1: case DE_STEIM2: w = 0; break;
  default: w = 2;
  }
  if (w == 0)
    return steim (g, enc == DE_STEIM1 ? 1 : 2, gen_ints (g, n, enc == DE_STEIM1 ? 33 : 30, 32), big, maxbytes / 64);
  n = std::min (n, maxbytes / w);
  if (enc == DE_TEXT || enc == DE_INT32 || enc == DE_FLOAT32 || enc == DE_FLOAT64 || enc == DE_INT16)
    c.s = gen_for_encoding (g, enc, n);
  for (size_t k = 0; k < n; k++)
  {
    uint64_t v = 0;
    switch (enc)
    {
    case DE_TEXT: v = (uint8_t)c.s.t[k]; break;
    case DE_INT16: case DE_INT32: v = (uint32_t)c.s.i[k]; break;
    case DE_FLOAT32: v = model::f2bits (c.s.f[k]); break;
    case DE_FLOAT64: v = model::d2bits (c.s.d[k]); break;
    case DE_GEOSCOPE24:
      v = field (g, 24);
      c.s.f.push_back ((float)model::sext (v, 24));
      break;
    case DE_GEOSCOPE163:
    case DE_GEOSCOPE164:
    {
      int gain = (int)g.raw (enc == DE_GEOSCOPE163 ? 8 : 16);
      int man  = (int)field (g, 12);
      v        = man | gain << 12;
      if (enc == DE_GEOSCOPE163 && g.chance (1, 8))
        v |= 0x8000; // unused bit
      c.s.f.push_back ((float)((man - 2048) / (double)(1 << gain)));
      break;
    }
    case DE_CDSN:
    {
      static const int mult[] = {1, 4, 16, 128};
      v = field (g, 14) | g.raw (4) << 14;
      c.s.i.push_back (((int)(v & 0x3fff) - 0x1fff) * mult[v >> 14]);
      break;
    }
    case DE_SRO:
    {
      int gain = (int)g.range (0, 10);
      v        = (uint64_t)gain << 12 | field (g, 12);
      c.s.i.push_back ((int)model::sext (v & 0xfff, 12) * (1 << (10 - gain)));
      break;
    }
    case DE_DWWSSN:
      v = field (g, 16);
      c.s.i.push_back ((int)model::sext (v, 16));
      break;
    }
    model::app (c.data, v, w, big);
  }
  return c;
}
static const int all_encodings[] = {DE_TEXT, DE_INT16, DE_INT32, DE_FLOAT32, DE_FLOAT64, DE_STEIM1, DE_STEIM2, DE_GEOSCOPE24, DE_GEOSCOPE163, DE_GEOSCOPE164, DE_CDSN, DE_SRO, DE_DWWSSN};
inline int
gen_enc (Gen &g)
{
  return g.chance (2, 5) ? (g.coin () ? DE_STEIM1 : DE_STEIM2) : all_encodings[g.index (13)];
}
} // namespace payload
