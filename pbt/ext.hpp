// Extra headers that have a version 2 counterpart, with the values a version 2
// record can hold exactly, and the blockettes that carry them
#pragma once
#include "gen.hpp"

namespace ext {

inline double
f32 (Gen &g, bool positive)
{
  double v;
  switch (g.weighted ({3, 2, 1}))
  {
  case 0: v = (double)(float)((double)g.range (1, 100000) / 16.0); break;
  case 1: v = (double)(float)((double)g.range (1, 1000000) * 0.001); break;
  default: v = (double)g.pick<float> ({1e-6f, 3.5e7f, 1.0f / 3.0f, 1e20f});
  }
  return (!positive && g.chance (1, 3)) ? -v : v;
}
// field text without leading or trailing blanks
inline std::string
field (Gen &g, size_t max)
{
  static const std::string ends = "ABCXYZabcxyz0189_-+/.", mid = ends + "  ()";
  size_t n = (size_t)g.range (1, (int64_t)max);
  if (g.chance (1, 4))
    n = max;
  std::string s;
  for (size_t k = 0; k < n; k++)
    s += (k == 0 || k + 1 == n) ? ends[g.index (ends.size ())] : mid[g.index (mid.size ())];
  return s;
}
// time text exactly as the library prints it
inline std::string
timetext (Gen &g, int unit_ns, int64_t *ns = nullptr)
{
  int64_t y = g.range (1950, 2099);
  int64_t t = (int64_t)model::to_ns (y, (int)g.range (1, model::ydays (y)), (int)g.range (0, 23), (int)g.range (0, 59), (int)g.range (0, 59), 0);
  if (g.coin ())
    t += g.range (0, 999999999 / unit_ns) * unit_ns;
  if (ns)
    *ns = t;
  model::Civil c = model::civil (t);
  std::string s  = fmt ("%04d-%02d-%02dT%02d:%02d:%02d", (int)c.year, c.month, c.mday, c.hour, c.min, c.sec);
  if (c.nsec)
    s += (c.nsec % 1000) ? fmt (".%09u", c.nsec) : fmt (".%06u", c.nsec / 1000);
  return s + "Z";
}

inline Json
detection (Gen &g)
{
  Json e   = Json::object ();
  bool mur = g.coin ();
  e.set ("Type", Json::string (mur ? "MURDOCK" : "GENERIC"));
  e.set ("SignalAmplitude", Json::real (f32 (g, false)));
  e.set ("SignalPeriod", Json::real (f32 (g, true)));
  e.set ("BackgroundEstimate", Json::real (f32 (g, false)));
  if (mur || g.chance (2, 3))
    e.set ("Wave", Json::string (g.coin () ? "DILATATION" : "COMPRESSION"));
  if (!mur)
    e.set ("Units", Json::string (g.coin () ? "COUNTS" : "DECONVOLVED"));
  e.set ("OnsetTime", Json::string (timetext (g, 100000)));
  if (mur)
  {
    Json a = Json::array ();
    for (int k = 0; k < 6; k++)
      a.a.push_back (Json::integer (g.range (k == 0 ? 1 : 0, 255)));
    e.set ("MEDSNR", a);
    e.set ("MEDLookback", Json::integer (g.range (0, 255)));
    e.set ("MEDPickAlgorithm", Json::integer (g.range (0, 255)));
  }
  if (g.chance (3, 4))
    e.set ("Detector", Json::string (field (g, 24)));
  return e;
}
inline Json
calibration (Gen &g)
{
  Json e   = Json::object ();
  int kind = (int)g.index (5);
  static const char *const names[] = {"STEP", "SINE", "PSEUDORANDOM", "GENERIC", "ABORT"};
  e.set ("Type", Json::string (names[kind]));
  if (kind == 4)
  {
    e.set ("EndTime", Json::string (timetext (g, 100000)));
    return e;
  }
  e.set ("BeginTime", Json::string (timetext (g, 100000)));
  if (kind == 0)
  {
    e.set ("Steps", Json::integer (g.range (0, 255)));
    if (g.coin ())
      e.set ("StepFirstPulsePositive", Json::boolean (true));
    if (g.coin ())
      e.set ("StepAlternateSign", Json::boolean (true));
  }
  e.set ("Trigger", Json::string (g.coin () ? "AUTOMATIC" : "MANUAL"));
  if (g.coin ())
    e.set ("Continued", Json::boolean (true));
  if (g.chance (3, 4))
    e.set ("Amplitude", Json::real (f32 (g, false)));
  if (kind == 1 && g.chance (3, 4))
    e.set ("AmplitudeRange", Json::string (g.pick<const char *> ({"PEAKTOPEAK", "ZEROTOPEAK", "RMS"})));
  if (kind == 2 && g.coin ())
    e.set ("AmplitudeRange", Json::string ("RANDOM"));
  if (g.chance (3, 4))
    e.set ("Duration", Json::real (g.range (1, g.coin () ? 4294967295LL : 100000) / 10000.0));
  if (kind == 1 && g.chance (3, 4))
    e.set ("SinePeriod", Json::real (f32 (g, true)));
  if (kind == 0 && g.chance (3, 4))
    e.set ("StepBetween", Json::real (g.range (1, g.coin () ? 4294967295LL : 100000) / 10000.0));
  if (g.chance (3, 4))
    e.set ("InputChannel", Json::string (field (g, 3)));
  if (kind <= 2 && g.chance (3, 4))
    e.set ("ReferenceAmplitude", Json::real ((double)g.range (1, g.coin () ? 4294967295LL : 1000)));
  if (kind <= 2 && g.chance (3, 4))
    e.set ("Coupling", Json::string (field (g, 12)));
  if (kind <= 2 && g.chance (3, 4))
    e.set ("Rolloff", Json::string (field (g, 12)));
  if (kind == 2 && g.chance (3, 4))
    e.set ("Noise", Json::string (field (g, 8)));
  return e;
}
inline Json
exception (Gen &g)
{
  Json e = Json::object ();
  e.set ("Time", Json::string (timetext (g, 1000)));
  e.set ("VCOCorrection", Json::real (g.chance (1, 4) ? 0.0 : f32 (g, true)));
  e.set ("ReceptionQuality", Json::integer (g.range (0, 255)));
  if (g.chance (3, 4))
    e.set ("Count", Json::integer (g.range (1, g.coin () ? 4294967295LL : 100)));
  if (g.chance (3, 4))
    e.set ("Type", Json::string (field (g, 16)));
  if (g.chance (3, 4))
    e.set ("ClockStatus", Json::string (field (g, 128)));
  return e;
}
static const char *const boolptr[] = {
    "/FDSN/Event/Begin", "/FDSN/Event/End", "/FDSN/Event/InProgress",
    "/FDSN/Flags/StationVolumeParityError", "/FDSN/Flags/LongRecordRead", "/FDSN/Flags/ShortRecordRead",
    "/FDSN/Flags/StartOfTimeSeries", "/FDSN/Flags/EndOfTimeSeries", "/FDSN/Flags/AmplifierSaturation",
    "/FDSN/Flags/DigitizerClipping", "/FDSN/Flags/Spikes", "/FDSN/Flags/Glitches", "/FDSN/Flags/MissingData",
    "/FDSN/Flags/TelemetrySyncError", "/FDSN/Flags/FilterCharging"};

inline bool
blk_len (const Json &e, bool cal, int &len)
{
  const Json *t = e.find ("Type");
  std::string s = t ? t->s : "";
  if (!cal)
    len = s == "MURDOCK" ? 60 : 52;
  else
    len = s == "STEP" || s == "SINE" ? 60 : s == "PSEUDORANDOM" ? 64 : s == "GENERIC" ? 28 : 16;
  return true;
}

// Everything a version 2 record can carry.  'room': bytes available for blockettes
inline Json
gen_v2able (Gen &g, int room)
{
  Json o = Json::object ();
  int n  = (int)g.range (0, 4);
  for (int k = 0; k < n; k++)
    o.setp (boolptr[g.index (sizeof boolptr / sizeof boolptr[0])], Json::boolean (true));
  if (g.chance (1, 3))
    o.setp ("/FDSN/Time/LeapSecond", Json::integer (g.coin () ? 1 : -1));
  if (g.chance (1, 3))
  {
    int64_t v = g.range (1, g.coin () ? 20000 : 1000000000);
    o.setp ("/FDSN/Time/Correction", Json::real ((g.coin () ? v : -v) / 10000.0));
  }
  if (g.chance (1, 2))
    o.setp ("/FDSN/Time/Quality", Json::integer (g.range (0, 100)));
  int nb = (int)g.range (0, 3);
  Json det = Json::array (), cal = Json::array (), exc = Json::array ();
  for (int k = 0; k < nb; k++)
  {
    Json e;
    int len = 200;
    int kind = (int)g.index (3);
    if (kind == 0)
    {
      e = detection (g);
      blk_len (e, false, len);
    }
    else if (kind == 1)
    {
      e = calibration (g);
      blk_len (e, true, len);
    }
    else
      e = exception (g);
    if (len > room)
      continue;
    room -= len;
    (kind == 0 ? det : kind == 1 ? cal : exc).a.push_back (e);
  }
  if (!exc.a.empty ())
  {
    o.setp ("/FDSN/Time/Exception", exc);
    o.setp ("/FDSN/Clock/Model", Json::string (field (g, 32)));
  }
  if (!det.a.empty ())
    o.setp ("/FDSN/Event/Detection", det);
  if (!cal.a.empty ())
    o.setp ("/FDSN/Calibration/Sequence", cal);
  return o;
}
// headers with a version 2 counterpart that say no: nothing to write
inline bool
add_neutral (Gen &g, Json &o)
{
  bool any = false;
  for (const char *p : boolptr)
    if (!o.at (p) && g.chance (1, 5))
    {
      o.setp (p, Json::boolean (false));
      any = true;
    }
  if (!o.at ("/FDSN/Time/LeapSecond") && g.chance (1, 3))
  {
    o.setp ("/FDSN/Time/LeapSecond", Json::integer (0));
    any = true;
  }
  return any;
}
inline bool
empty (const Json &o)
{
  return o.o.empty ();
}
} // namespace ext
