// Independent writer and strict reader of miniSEED 2 records (SEED 2.4 manual)
#pragma once
#include "ext.hpp"

namespace v2 {

// drop members that say nothing: zero, empty, false
inline Json
norm (const Json &j)
{
  Json r = j;
  if (j.t == Json::OBJ)
  {
    r.o.clear ();
    for (auto &e : j.o)
    {
      Json v = norm (e.second);
      if ((v.isnum () && v.num () == 0) || (v.t == Json::STR && v.s.empty ()) || (v.t == Json::BOOL && !v.b) || (v.t == Json::OBJ && v.o.empty ()) || (v.t == Json::ARR && v.a.empty ()))
        continue;
      r.o.emplace_back (e.first, v);
    }
  }
  else if (j.t == Json::ARR)
    for (auto &e : r.a)
      e = norm (e);
  return r;
}

// "YYYY-MM-DDThh:mm:ss[.ffffff[fff]]Z"
inline bool
iso_ns (const std::string &s, int64_t &ns)
{
  int y, mo, d, h, mi, se, n = 0;
  if (sscanf (s.c_str (), "%d-%d-%dT%d:%d:%d%n", &y, &mo, &d, &h, &mi, &se, &n) != 6)
    return false;
  uint32_t frac = 0;
  if (n < (int)s.size () && s[n] == '.')
  {
    int k = 0;
    n++;
    uint32_t scale = 100000000;
    while (n < (int)s.size () && isdigit ((unsigned char)s[n]) && k < 9)
    {
      frac += (s[n] - '0') * scale;
      scale /= 10;
      n++;
      k++;
    }
  }
  ns = (int64_t)model::to_ns (y, model::md2doy (y, mo, d), h, mi, se, frac);
  return s.substr (n) == "Z" || s.substr (n).empty ();
}
inline std::string
iso_text (int64_t ns)
{
  model::Civil c = model::civil (ns);
  std::string s  = fmt ("%04d-%02d-%02dT%02d:%02d:%02d", (int)c.year, c.month, c.mday, c.hour, c.min, c.sec);
  if (c.nsec)
    s += (c.nsec % 1000) ? fmt (".%09u", c.nsec) : fmt (".%06u", c.nsec / 1000);
  return s + "Z";
}
inline void
put_btime (Bytes &b, size_t o, int64_t ns, bool big)
{
  model::Civil c = model::civil (ns);
  model::put (b, o, c.year, 2, big);
  model::put (b, o + 2, c.doy, 2, big);
  b[o + 4] = c.hour;
  b[o + 5] = c.min;
  b[o + 6] = c.sec;
  b[o + 7] = 0;
  model::put (b, o + 8, c.nsec / 100000, 2, big);
}
// strict; returns false if a field is out of its range
inline bool
get_btime (const uint8_t *p, bool big, int64_t &ns)
{
  int y = (int)model::get (p, 2, big), d = (int)model::get (p + 2, 2, big), f = (int)model::get (p + 8, 2, big);
  if (y < 1 || d < 1 || d > model::ydays (y) || p[4] > 23 || p[5] > 59 || p[6] > 60 || f > 9999)
    return false;
  ns = (int64_t)model::to_ns (y, d, p[4], p[5], p[6], (i128)f * 100000);
  return true;
}
inline void
put_text (Bytes &b, size_t o, size_t n, const std::string &s, uint8_t pad)
{
  for (size_t k = 0; k < n; k++)
    b[o + k] = k < s.size () ? (uint8_t)s[k] : (pad == 0 && k == s.size () ? 0 : pad);
}
inline std::string
get_text (const uint8_t *p, size_t n)
{
  std::string s ((const char *)p, strnlen ((const char *)p, n));
  while (!s.empty () && s.back () == ' ')
    s.pop_back ();
  return s;
}
inline void
put_f (Bytes &b, size_t o, double v, bool big)
{
  model::put (b, o, model::f2bits ((float)v), 4, big);
}
inline double
get_f (const uint8_t *p, bool big)
{
  return model::bits2f ((uint32_t)model::get (p, 4, big));
}
inline double
numof (const Json &e, const char *k)
{
  const Json *v = e.find (k);
  return v ? v->num () : 0;
}
inline std::string
strof (const Json &e, const char *k)
{
  const Json *v = e.find (k);
  return v ? v->s : "";
}
inline bool
boolof (const Json &e, const char *k)
{
  const Json *v = e.find (k);
  return v && v->b;
}

inline int
len_of (int type)
{
  switch (type)
  {
  case 100: return 12;
  case 200: return 52;
  case 201: return 60;
  case 300: case 310: return 60;
  case 320: return 64;
  case 390: return 28;
  case 395: case 400: return 16;
  case 500: return 200;
  case 1000: case 1001: return 8;
  }
  return 0;
}
inline int
type_of (const Json &e, char group) // 'd'etection, 'c'alibration
{
  std::string t = strof (e, "Type");
  if (group == 'd')
    return t == "MURDOCK" ? 201 : 200;
  return t == "STEP" ? 300 : t == "SINE" ? 310 : t == "PSEUDORANDOM" ? 320 : t == "GENERIC" ? 390 : 395;
}
inline void
header (Bytes &b, int type, bool big)
{
  model::put (b, 0, type, 2, big);
}
inline int64_t
timeof (const Json &e, const char *k)
{
  int64_t ns = 0;
  iso_ns (strof (e, k), ns);
  return ns;
}

// blockette for an entry in the form ext.hpp generates; 'next' stays 0
inline Bytes
build (int type, const Json &e, const std::string &clockmodel, bool big, uint8_t pad)
{
  Bytes b (len_of (type), 0);
  header (b, type, big);
  switch (type)
  {
  case 200:
  case 201:
  {
    put_f (b, 4, numof (e, "SignalAmplitude"), big);
    put_f (b, 8, numof (e, "SignalPeriod"), big);
    put_f (b, 12, numof (e, "BackgroundEstimate"), big);
    uint8_t f = 0;
    if (strof (e, "Wave") == "DILATATION")
      f |= 1;
    if (type == 200)
    {
      if (!e.find ("Wave"))
        f |= 4;
      if (strof (e, "Units") == "DECONVOLVED")
        f |= 2;
    }
    b[16] = f;
    put_btime (b, 18, timeof (e, "OnsetTime"), big);
    if (type == 201)
    {
      if (const Json *a = e.find ("MEDSNR"))
        for (int k = 0; k < 6 && k < (int)a->a.size (); k++)
          b[28 + k] = (uint8_t)a->a[k].num ();
      b[34] = (uint8_t)numof (e, "MEDLookback");
      b[35] = (uint8_t)numof (e, "MEDPickAlgorithm");
    }
    put_text (b, type == 200 ? 28 : 36, 24, strof (e, "Detector"), pad);
    break;
  }
  case 300:
  case 310:
  case 320:
  case 390:
  {
    put_btime (b, 4, timeof (e, "BeginTime"), big);
    uint8_t f = 0;
    if (strof (e, "Trigger") == "AUTOMATIC")
      f |= 4;
    if (boolof (e, "Continued"))
      f |= 8;
    std::string r = strof (e, "AmplitudeRange");
    uint32_t dur  = (uint32_t)llround (numof (e, "Duration") * 10000);
    model::put (b, 16, dur, 4, big);
    uint32_t ref = (uint32_t)numof (e, "ReferenceAmplitude");
    if (type == 300)
    {
      b[14] = (uint8_t)numof (e, "Steps");
      if (boolof (e, "StepFirstPulsePositive"))
        f |= 1;
      if (boolof (e, "StepAlternateSign"))
        f |= 2;
      model::put (b, 20, (uint32_t)llround (numof (e, "StepBetween") * 10000), 4, big);
    }
    if (type == 310)
    {
      f |= r == "PEAKTOPEAK" ? 0x10 : r == "ZEROTOPEAK" ? 0x20 : r == "RMS" ? 0x40 : 0;
      put_f (b, 20, numof (e, "SinePeriod"), big);
    }
    if (type == 300 || type == 310)
    {
      put_f (b, 24, numof (e, "Amplitude"), big);
      put_text (b, 28, 3, strof (e, "InputChannel"), pad);
      model::put (b, 32, ref, 4, big);
      put_text (b, 36, 12, strof (e, "Coupling"), pad);
      put_text (b, 48, 12, strof (e, "Rolloff"), pad);
    }
    else
    {
      put_f (b, 20, numof (e, "Amplitude"), big);
      put_text (b, 24, 3, strof (e, "InputChannel"), pad);
      if (type == 320)
      {
        if (r == "RANDOM")
          f |= 0x10;
        model::put (b, 28, ref, 4, big);
        put_text (b, 32, 12, strof (e, "Coupling"), pad);
        put_text (b, 44, 12, strof (e, "Rolloff"), pad);
        put_text (b, 56, 8, strof (e, "Noise"), pad);
      }
    }
    b[15] = f;
    break;
  }
  case 395:
    put_btime (b, 4, timeof (e, "EndTime"), big);
    break;
  case 500:
  {
    put_f (b, 4, numof (e, "VCOCorrection"), big);
    int64_t ns = timeof (e, "Time");
    put_btime (b, 8, ns, big);
    b[18] = (uint8_t) ((ns / 1000) % 100 + ((ns / 1000) % 100 < 0 ? 100 : 0));
    b[19] = (uint8_t)numof (e, "ReceptionQuality");
    model::put (b, 20, (uint32_t)numof (e, "Count"), 4, big);
    put_text (b, 24, 16, strof (e, "Type"), pad);
    put_text (b, 40, 32, clockmodel, pad);
    put_text (b, 72, 128, strof (e, "ClockStatus"), pad);
    break;
  }
  }
  return b;
}
// entry for a blockette; empty string or what is wrong
inline std::string
parse (int type, const uint8_t *p, bool big, Json &e, std::string *clockmodel)
{
  int64_t ns;
  e = Json::object ();
  switch (type)
  {
  case 200:
  case 201:
  {
    e.set ("Type", Json::string (type == 201 ? "MURDOCK" : "GENERIC"));
    e.set ("SignalAmplitude", Json::real (get_f (p + 4, big)));
    e.set ("SignalPeriod", Json::real (get_f (p + 8, big)));
    e.set ("BackgroundEstimate", Json::real (get_f (p + 12, big)));
    if (type == 201 || !(p[16] & 4))
      e.set ("Wave", Json::string (p[16] & 1 ? "DILATATION" : "COMPRESSION"));
    if (type == 200)
      e.set ("Units", Json::string (p[16] & 2 ? "DECONVOLVED" : "COUNTS"));
    if (p[16] & ~(type == 200 ? 7 : 1))
      return "undefined flag bits in event blockette";
    if (p[17])
      return "reserved byte not zero in event blockette";
    if (!get_btime (p + 18, big, ns))
      return "bad onset time";
    e.set ("OnsetTime", Json::string (iso_text (ns)));
    if (type == 201)
    {
      Json a = Json::array ();
      for (int k = 0; k < 6; k++)
        a.a.push_back (Json::integer (p[28 + k]));
      e.set ("MEDSNR", a);
      e.set ("MEDLookback", Json::integer (p[34]));
      e.set ("MEDPickAlgorithm", Json::integer (p[35]));
    }
    e.set ("Detector", Json::string (get_text (p + (type == 200 ? 28 : 36), 24)));
    return "";
  }
  case 300:
  case 310:
  case 320:
  case 390:
  {
    static const char *const names[] = {"STEP", "SINE", "PSEUDORANDOM", "GENERIC"};
    e.set ("Type", Json::string (names[type == 300 ? 0 : type == 310 ? 1 : type == 320 ? 2 : 3]));
    if (!get_btime (p + 4, big, ns))
      return "bad begin time";
    e.set ("BeginTime", Json::string (iso_text (ns)));
    uint8_t f = p[15];
    e.set ("Trigger", Json::string (f & 4 ? "AUTOMATIC" : "MANUAL"));
    e.set ("Continued", Json::boolean (f & 8));
    e.set ("Duration", Json::real (model::get (p + 16, 4, big) / 10000.0));
    if (type == 300)
    {
      e.set ("Steps", Json::integer (p[14]));
      e.set ("StepFirstPulsePositive", Json::boolean (f & 1));
      e.set ("StepAlternateSign", Json::boolean (f & 2));
      e.set ("StepBetween", Json::real (model::get (p + 20, 4, big) / 10000.0));
    }
    else if (p[14])
      return "reserved byte not zero in calibration blockette";
    if (type == 310)
    {
      e.set ("AmplitudeRange", Json::string (f & 0x10 ? "PEAKTOPEAK" : f & 0x20 ? "ZEROTOPEAK" : f & 0x40 ? "RMS" : ""));
      e.set ("SinePeriod", Json::real (get_f (p + 20, big)));
    }
    if (type == 300 || type == 310)
    {
      e.set ("Amplitude", Json::real (get_f (p + 24, big)));
      e.set ("InputChannel", Json::string (get_text (p + 28, 3)));
      if (p[31])
        return "reserved byte not zero in calibration blockette";
      e.set ("ReferenceAmplitude", Json::real ((double)model::get (p + 32, 4, big)));
      e.set ("Coupling", Json::string (get_text (p + 36, 12)));
      e.set ("Rolloff", Json::string (get_text (p + 48, 12)));
    }
    else
    {
      e.set ("Amplitude", Json::real (get_f (p + 20, big)));
      e.set ("InputChannel", Json::string (get_text (p + 24, 3)));
      if (p[27])
        return "reserved byte not zero in calibration blockette";
      if (type == 320)
      {
        e.set ("AmplitudeRange", Json::string (f & 0x10 ? "RANDOM" : ""));
        e.set ("ReferenceAmplitude", Json::real ((double)model::get (p + 28, 4, big)));
        e.set ("Coupling", Json::string (get_text (p + 32, 12)));
        e.set ("Rolloff", Json::string (get_text (p + 44, 12)));
        e.set ("Noise", Json::string (get_text (p + 56, 8)));
      }
    }
    return "";
  }
  case 395:
    if (!get_btime (p + 4, big, ns))
      return "bad end time";
    if (p[14] || p[15])
      return "reserved bytes not zero in blockette 395";
    e.set ("Type", Json::string ("ABORT"));
    e.set ("EndTime", Json::string (iso_text (ns)));
    return "";
  case 500:
    e.set ("VCOCorrection", Json::real (get_f (p + 4, big)));
    if (!get_btime (p + 8, big, ns))
      return "bad exception time";
    if ((int8_t)p[18] < -50 || (int8_t)p[18] > 99)
      return "microsecond offset out of range";
    e.set ("Time", Json::string (iso_text (ns + (int8_t)p[18] * 1000)));
    e.set ("ReceptionQuality", Json::integer (p[19]));
    e.set ("Count", Json::integer ((int64_t)model::get (p + 20, 4, big)));
    e.set ("Type", Json::string (get_text (p + 24, 16)));
    *clockmodel = get_text (p + 40, 32);
    e.set ("ClockStatus", Json::string (get_text (p + 72, 128)));
    return "";
  }
  return "unexpected blockette type";
}

// sample rate of the fixed header's factor and multiplier
inline double
nominal (int f, int m)
{
  if (f == 0 || m == 0)
    return f == 0 ? 0 : (f > 0 ? f : -1.0 / f);
  if (f > 0 && m > 0)
    return (double)f * m;
  if (f > 0 && m < 0)
    return -(double)f / m;
  if (f < 0 && m > 0)
    return -(double)m / f;
  return 1.0 / ((double)f * m);
}

struct Blk
{
  int type = 0;
  size_t off = 0; // set when laid out or read
  Bytes raw;
};

struct Rec
{
  bool big = true;
  std::string seq = "000001", sta, loc, chan, net;
  char quality = 'D', reserved = ' ';
  int64_t start = 0; // BTIME, 100 us resolution
  uint16_t nsamp = 0;
  int16_t factor = 0, mult = 0;
  uint8_t act = 0, io = 0, dq = 0;
  int32_t corr = 0;
  uint16_t dataoff = 0;
  std::vector<Blk> blks;
  int reclen = 512;
  Bytes data; // payload placed at dataoff
  uint8_t padding = ' ';

  // lay the blockettes out from byte 48 with 'gap' unused bytes before each
  size_t
  layout (const std::vector<int> &gaps)
  {
    size_t o = 48, k = 0;
    for (auto &b : blks)
    {
      o += k < gaps.size () ? gaps[k] : 0;
      k++;
      b.off = o;
      o += b.raw.size ();
    }
    return o;
  }
  Bytes
  bytes (uint8_t fill = 0) const
  {
    Bytes r (reclen, fill);
    std::fill (r.begin (), r.begin () + 48, 0);
    auto text = [&] (size_t o, size_t n, const std::string &s) {
      for (size_t k = 0; k < n; k++)
        r[o + k] = k < s.size () ? s[k] : ' ';
    };
    text (0, 6, seq);
    r[6] = quality;
    r[7] = reserved;
    text (8, 5, sta);
    text (13, 2, loc);
    text (15, 3, chan);
    text (18, 2, net);
    put_btime (r, 20, start, big);
    model::put (r, 30, nsamp, 2, big);
    model::put (r, 32, (uint16_t)factor, 2, big);
    model::put (r, 34, (uint16_t)mult, 2, big);
    r[36] = act;
    r[37] = io;
    r[38] = dq;
    r[39] = (uint8_t)blks.size ();
    model::put (r, 40, (uint32_t)corr, 4, big);
    model::put (r, 44, dataoff, 2, big);
    model::put (r, 46, blks.empty () ? 0 : blks[0].off, 2, big);
    for (size_t k = 0; k < blks.size (); k++)
    {
      memcpy (&r[blks[k].off], blks[k].raw.data (), blks[k].raw.size ());
      model::put (r, blks[k].off + 2, k + 1 < blks.size () ? blks[k + 1].off : 0, 2, big);
    }
    if (!data.empty ())
      memcpy (&r[dataoff], data.data (), data.size ());
    return r;
  }

  // strict reader; empty string or what is wrong
  std::string
  read (const uint8_t *p, size_t n)
  {
    if (n < 128)
      return "record shorter than 128 bytes";
    for (int k = 0; k < 6; k++)
      if (!isdigit (p[k]))
        return "sequence number is not six digits";
    quality = p[6];
    if (!strchr ("DRQM", quality) || !quality)
      return "data quality indicator is not one of DRQM";
    if (p[7] != ' ')
      return "reserved byte is not a space";
    // one byte order for everything: the one in which the date is valid
    auto valid = [&] (bool b) {
      int y = (int)model::get (p + 20, 2, b), d = (int)model::get (p + 22, 2, b);
      return y >= 1600 && y <= 2300 && d >= 1 && d <= 366;
    };
    big = valid (true);
    if (!big && !valid (false))
      return "start year and day valid in no byte order";
    auto code = [&] (size_t o, size_t w, std::string &out) {
      out.assign ((const char *)p + o, w);
      size_t e = out.find (' ');
      if (e != std::string::npos)
      {
        if (out.find_first_not_of (' ', e) != std::string::npos)
          return false;
        out.resize (e);
      }
      for (unsigned char c : out)
        if (c < 33 || c > 126)
          return false;
      return true;
    };
    if (!code (8, 5, sta) || !code (13, 2, loc) || !code (15, 3, chan) || !code (18, 2, net))
      return "identifier code not left justified and space padded printable text";
    if (!get_btime (p + 20, big, start))
      return "start time field out of range";
    if (p[27])
      return "unused byte of the start time not zero";
    nsamp  = (uint16_t)model::get (p + 30, 2, big);
    factor = (int16_t)model::get (p + 32, 2, big);
    mult   = (int16_t)model::get (p + 34, 2, big);
    act    = p[36];
    io     = p[37];
    dq     = p[38];
    corr   = (int32_t)model::get (p + 40, 4, big);
    dataoff = (uint16_t)model::get (p + 44, 2, big);
    size_t o = model::get (p + 46, 2, big);
    if (act & 0x80 || io & 0xc0)
      return "undefined activity or I/O flag bits set";
    blks.clear ();
    if (o != 48)
      return "first blockette is not at byte 48";
    size_t end = 48;
    while (o)
    {
      if (o < end)
        return "blockettes overlap or are out of order";
      if (o + 4 > n)
        return "blockette outside of the record";
      Blk b;
      b.type = (int)model::get (p + o, 2, big);
      b.off  = o;
      int l  = len_of (b.type);
      if (!l)
        return "unknown blockette type " + std::to_string (b.type);
      if (o + l > n)
        return "blockette outside of the record";
      b.raw.assign (p + o, p + o + l);
      blks.push_back (b);
      end = o + l;
      o   = model::get (p + o + 2, 2, big);
    }
    if (blks.size () != p[39])
      return "blockette count " + std::to_string (p[39]) + " but the chain has " + std::to_string (blks.size ());
    const Blk *k = find (1000);
    if (!k)
      return "no blockette 1000";
    if (k->raw[6] < 7 || k->raw[6] > 30 || (size_t)1 << k->raw[6] != n)
      return "blockette 1000 length exponent does not give the record length";
    if (k->raw[5] > 1 || k->raw[7])
      return "blockette 1000 byte order or reserved byte";
    reclen = (int)n;
    if (nsamp)
    {
      if (dataoff < end || dataoff >= n)
        return "data offset " + std::to_string (dataoff) + " is not after the blockettes and inside the record";
      data.assign (p + dataoff, p + n);
    }
    // nothing between the parts
    for (size_t q = end; q < (nsamp ? dataoff : n); q++)
      if (p[q])
        return "byte " + std::to_string (q) + " between blockettes and data is not zero";
    return "";
  }
  const Blk *
  find (int type) const
  {
    for (auto &b : blks)
      if (b.type == type)
        return &b;
    return nullptr;
  }
};
} // namespace v2

namespace v2 {
// extra headers documented for the content of a version 2 record
inline Json
extra_of (const Rec &r, std::string *err = nullptr)
{
  Json o = Json::object ();
  auto flag = [&] (uint8_t byte, int bit, const char *ptr) {
    if (byte & (1 << bit))
      o.setp (ptr, Json::boolean (true));
  };
  flag (r.act, 2, "/FDSN/Event/Begin");
  flag (r.act, 3, "/FDSN/Event/End");
  if (r.act & 0x10)
    o.setp ("/FDSN/Time/LeapSecond", Json::integer (1));
  if (r.act & 0x20)
    o.setp ("/FDSN/Time/LeapSecond", Json::integer (-1));
  flag (r.act, 6, "/FDSN/Event/InProgress");
  static const char *const io[] = {"StationVolumeParityError", "LongRecordRead", "ShortRecordRead", "StartOfTimeSeries", "EndOfTimeSeries"};
  for (int k = 0; k < 5; k++)
    flag (r.io, k, (std::string ("/FDSN/Flags/") + io[k]).c_str ());
  static const char *const dq[] = {"AmplifierSaturation", "DigitizerClipping", "Spikes", "Glitches", "MissingData", "TelemetrySyncError", "FilterCharging"};
  for (int k = 0; k < 7; k++)
    flag (r.dq, k, (std::string ("/FDSN/Flags/") + dq[k]).c_str ());
  if (r.corr)
    o.setp ("/FDSN/Time/Correction", Json::real (r.corr / 10000.0));
  Json det = Json::array (), cal = Json::array (), exc = Json::array ();
  for (auto &b : r.blks)
  {
    Json e;
    std::string clk, w;
    switch (b.type)
    {
    case 100: case 400: case 1000: case 2000: continue;
    case 1001: o.setp ("/FDSN/Time/Quality", Json::integer (b.raw[4])); continue;
    default: break;
    }
    w = parse (b.type, b.raw.data (), r.big, e, &clk);
    if (!w.empty () && err)
      *err = w;
    if (b.type == 200 || b.type == 201)
      det.a.push_back (e);
    else if (b.type == 500)
    {
      exc.a.push_back (e);
      o.setp ("/FDSN/Clock/Model", Json::string (clk));
    }
    else
      cal.a.push_back (e);
  }
  if (!det.a.empty ())
    o.setp ("/FDSN/Event/Detection", det);
  if (!cal.a.empty ())
    o.setp ("/FDSN/Calibration/Sequence", cal);
  if (!exc.a.empty ())
    o.setp ("/FDSN/Time/Exception", exc);
  return o;
}
inline uint8_t
flags_of (const Rec &r)
{
  return (r.act & 1) | (r.dq & 0x80 ? 2 : 0) | (r.io & 0x20 ? 4 : 0);
}
inline int
pubversion_of (char q)
{
  return q == 'M' ? 4 : q == 'Q' ? 3 : q == 'D' ? 2 : q == 'R' ? 1 : 0;
}
} // namespace v2
