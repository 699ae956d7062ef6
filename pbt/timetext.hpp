// What the documentation says a time is printed as
#pragma once
#include "gen.hpp"

namespace timetext {
enum Digits { D0, D6, D9 };
inline Digits
digits_of (int sub, uint32_t frac) // frac: nanoseconds that are printed
{
  bool micro = frac / 1000, submicro = frac % 1000;
  switch (sub)
  {
  case NONE: return D0;
  case MICRO: return D6;
  case NANO: return D9;
  case MICRO_NONE: return micro ? D6 : D0;
  case NANO_NONE: return frac ? D9 : D0;
  case NANO_MICRO: return submicro ? D9 : D6;
  default: return submicro ? D9 : micro ? D6 : D0;
  }
}
inline std::string
frac_text (Digits d, uint32_t frac)
{
  return d == D0 ? "" : d == D6 ? fmt (".%06u", frac / 1000) : fmt (".%09u", frac);
}
// what the documentation says the text is, and the time that text names
inline std::string
expected (int64_t t, int format, int sub, i128 &named)
{
  if (format == NANOSECONDEPOCH)
  {
    named = t;
    return std::to_string (t);
  }
  if (format == UNIXEPOCH)
  {
    bool neg   = t < 0;
    uint64_t a = neg ? 0 - (uint64_t)t : (uint64_t)t;
    uint32_t f = a % 1000000000;
    Digits d   = digits_of (sub, f);
    uint64_t kept = a - f + (d == D0 ? 0 : d == D6 ? f / 1000 * 1000 : f);
    named      = neg ? -(i128)kept : (i128)kept;
    return (neg ? "-" : "") + std::to_string (a / 1000000000) + frac_text (d, f);
  }
  model::Civil c = model::civil (t);
  Digits d       = digits_of (sub, c.nsec);
  named          = (i128)t - (d == D0 ? c.nsec : d == D6 ? c.nsec % 1000 : 0);
  std::string date = fmt ("%04lld-%02d-%02d", (long long)c.year, c.month, c.mday), clock = fmt ("%02d:%02d:%02d", c.hour, c.min, c.sec) + frac_text (d, c.nsec), doy = fmt ("%03d", c.doy);
  switch (format)
  {
  case ISOMONTHDAY: return date + "T" + clock;
  case ISOMONTHDAY_Z: return date + "T" + clock + "Z";
  case ISOMONTHDAY_DOY: return date + "T" + clock + " (" + doy + ")";
  case ISOMONTHDAY_DOY_Z: return date + "T" + clock + "Z (" + doy + ")";
  case ISOMONTHDAY_SPACE: return date + " " + clock;
  case ISOMONTHDAY_SPACE_Z: return date + " " + clock + "Z";
  default: return fmt ("%04lld,", (long long)c.year) + doy + "," + clock;
  }
}
} // namespace timetext
