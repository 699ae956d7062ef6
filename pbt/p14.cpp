// P14: extra headers behave as one JSON document through any edits
#include "ext.hpp"
using namespace pbt;

namespace {
// the same value: reals and integers are different, numbers are exact
bool
strict (const Json &a, const Json &b)
{
  if (a.t != b.t)
    return false;
  switch (a.t)
  {
  case Json::BOOL: return a.b == b.b;
  case Json::INT: return a.i == b.i;
  case Json::UINT: return a.u == b.u;
  case Json::REAL: return model::d2bits (a.d) == model::d2bits (b.d);
  case Json::STR: return a.s == b.s;
  case Json::ARR:
    if (a.a.size () != b.a.size ())
      return false;
    for (size_t k = 0; k < a.a.size (); k++)
      if (!strict (a.a[k], b.a[k]))
        return false;
    return true;
  case Json::OBJ:
    if (a.o.size () != b.o.size ())
      return false;
    for (auto &e : a.o)
    {
      const Json *q = b.find (e.first);
      if (!q || !strict (e.second, *q))
        return false;
    }
    return true;
  default: return true;
  }
}
bool
valid_utf8 (const std::string &s)
{
  for (size_t k = 0; k < s.size ();)
  {
    unsigned char c = (unsigned char)s[k];
    size_t n        = c < 0x80 ? 1 : c >= 0xc2 && c < 0xe0 ? 2 : (c & 0xf0) == 0xe0 ? 3 : c >= 0xf0 && c < 0xf5 ? 4 : 0;
    if (!n || k + n > s.size ())
      return false;
    uint32_t v = n == 1 ? c : n == 2 ? c & 0x1f : n == 3 ? c & 15 : c & 7;
    for (size_t q = 1; q < n; q++)
    {
      unsigned char d = (unsigned char)s[k + q];
      if ((d & 0xc0) != 0x80)
        return false;
      v = v << 6 | (d & 63);
    }
    if ((n == 3 && (v < 0x800 || (v >= 0xd800 && v < 0xe000))) || (n == 4 && (v < 0x10000 || v > 0x10ffff)))
      return false;
    k += n;
  }
  return true;
}
// no white space outside of strings
bool
compact (const std::string &s)
{
  bool in = false;
  for (size_t k = 0; k < s.size (); k++)
  {
    if (in && s[k] == '\\')
      k++;
    else if (s[k] == '"')
      in = !in;
    else if (!in && isspace ((unsigned char)s[k]))
      return false;
  }
  return true;
}
// can be written at all
bool
writable (const Json &j)
{
  if (j.t == Json::REAL && !std::isfinite (j.d))
    return false;
  if (j.t == Json::STR && !valid_utf8 (j.s))
    return false;
  for (auto &x : j.a)
    if (!writable (x))
      return false;
  for (auto &x : j.o)
    if (!valid_utf8 (x.first) || !writable (x.second))
      return false;
  return true;
}
// length of the compact text, with the shortest text of every real number
size_t
length (const Json &j)
{
  switch (j.t)
  {
  case Json::REAL: return 1; // a lower bound
  case Json::STR:
  {
    size_t n = 2;
    for (unsigned char c : j.s)
      n += c == '"' || c == '\\' || c == '\b' || c == '\f' || c == '\n' || c == '\r' || c == '\t' ? 2 : c < 0x20 ? 6 : 1;
    return n;
  }
  case Json::ARR:
  {
    size_t n = 2 + (j.a.size () ? j.a.size () - 1 : 0);
    for (auto &x : j.a)
      n += length (x);
    return n;
  }
  case Json::OBJ:
  {
    size_t n = 2 + (j.o.size () ? j.o.size () - 1 : 0);
    for (auto &x : j.o)
      n += length (Json::string (x.first)) + 1 + length (x.second);
    return n;
  }
  default: return j.text ().size ();
  }
}
size_t
reals (const Json &j)
{
  size_t n = j.t == Json::REAL;
  for (auto &x : j.a)
    n += reals (x);
  for (auto &x : j.o)
    n += reals (x.second);
  return n;
}

// ---------------------------------------------------- the reference document
struct Doc
{
  bool none = true; // nothing at all
  Json root;
};
bool
tokens (const std::string &ptr, std::vector<std::string> &t)
{
  t.clear ();
  if (ptr.empty ())
    return true;
  for (size_t k = 0; k < ptr.size ();)
  {
    std::string s;
    for (k++; k < ptr.size () && ptr[k] != '/'; k++)
      if (ptr[k] == '~')
      {
        k++;
        if (k >= ptr.size () || (ptr[k] != '0' && ptr[k] != '1'))
          return false;
        s += ptr[k] == '0' ? '~' : '/';
      }
      else
        s += ptr[k];
    t.push_back (s);
  }
  return true;
}
bool
index_of (const std::string &t, size_t n, size_t &ix)
{
  if (t.empty () || t.size () > 9 || (t[0] == '0' && t.size () > 1))
    return false;
  for (char c : t)
    if (c < '0' || c > '9')
      return false;
  ix = (size_t)atol (t.c_str ());
  return ix < n;
}
Json *
step (Json *j, const std::string &t)
{
  size_t ix;
  if (j->t == Json::OBJ)
    return j->find (t);
  if (j->t == Json::ARR && index_of (t, j->a.size (), ix))
    return &j->a[ix];
  return nullptr;
}
Json *
find (Doc &d, const std::string &ptr)
{
  std::vector<std::string> t;
  if (d.none || !tokens (ptr, t))
    return nullptr;
  Json *j = &d.root;
  for (auto &x : t)
    if (!(j = step (j, x)))
      return nullptr;
  return j;
}
// set, creating the objects on the way
bool
put (Doc &d, const std::string &ptr, const Json &v)
{
  std::vector<std::string> t;
  if (!tokens (ptr, t))
    return false;
  Doc n = d;
  if (n.none)
    n.root = Json::object (), n.none = false;
  Json *j = &n.root;
  for (size_t k = 0; k + 1 < t.size (); k++)
  {
    Json *c = step (j, t[k]);
    if (!c)
    {
      if (j->t != Json::OBJ)
        return false;
      c = &j->set (t[k], Json::object ());
    }
    j = c;
  }
  if (j->t == Json::OBJ)
    j->set (t.back (), v);
  else if (Json *c = step (j, t.back ()))
    *c = v;
  else
    return false;
  d = n;
  return true;
}
Json
merge (const Json *target, const Json &patch)
{
  if (patch.t != Json::OBJ)
    return patch;
  Json r = target && target->t == Json::OBJ ? *target : Json::object ();
  for (auto &e : patch.o)
    if (e.second.t == Json::NUL)
    {
      for (size_t k = 0; k < r.o.size (); k++)
        if (r.o[k].first == e.first)
        {
          r.o.erase (r.o.begin () + (long)k);
          break;
        }
    }
    else
    {
      const Json *old = r.find (e.first);
      Json m          = merge (old, e.second);
      r.set (e.first, m);
    }
  return r;
}

// ----------------------------------------------------------------- generators
std::string
gen_text (Gen &g)
{
  std::string s;
  int n = (int)g.size (0, 20);
  for (int k = 0; k < n; k++)
    s += g.pick<std::string> ({"a", "B", "0", " ", "/", "~", "\"", "\\", "\n", "\t", "\x01", "\x1f", "\x7f", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", ":", ",", "{", "}", "[", "]", "\\u0041", "'"});
  return s;
}
double
gen_real (Gen &g)
{
  switch (g.weighted ({3, 2, 2, 1}))
  {
  case 0: return (double)g.range (-1000, 1000);
  case 1: return (double)g.bits (40) / 1024.0;
  case 2:
  {
    double d = model::bits2d (g.raw (0));
    return std::isfinite (d) ? d : 1.5;
  }
  default: return g.pick<double> ({0.0, -0.0, 1e300, 5e-324, 0.1, 1e22, 1e21, 123456789012345680.0, 9007199254740993.0, 1.7976931348623157e308});
  }
}
Json
gen_value (Gen &g, int depth)
{
  switch (g.weighted ({3, 3, 2, 3, 1, depth > 0 ? 3 : 0, depth > 0 ? 4 : 0}))
  {
  case 0: return g.chance (1, 5) ? Json::uinteger (g.pick<uint64_t> ({UINT64_MAX, 1ull << 63, (1ull << 63) - 1, 1ull << 32, 0})) : Json::integer (g.bits (62));
  case 1: return Json::string (gen_text (g));
  case 2: return Json::boolean (g.coin ());
  case 3: return Json::real (gen_real (g));
  case 4: return Json ();
  case 5:
  {
    Json a = Json::array ();
    for (int k = (int)g.range (0, 3); k > 0; k--)
      a.a.push_back (gen_value (g, depth - 1));
    return a;
  }
  default:
  {
    Json o = Json::object ();
    for (int k = (int)g.range (0, 4); k > 0; k--)
      o.set (g.pick<std::string> ({"FDSN", "Time", "A", "b", "Quality", "a/b", "m~n", "", "0", "\"", "\xc3\xa9"}), gen_value (g, depth - 1));
    return o;
  }
  }
}
void
pointers (const Json &j, const std::string &at, std::vector<std::string> &out)
{
  out.push_back (at);
  for (size_t k = 0; k < j.a.size (); k++)
    pointers (j.a[k], at + "/" + std::to_string (k), out);
  for (auto &e : j.o)
  {
    std::string t;
    for (char c : e.first)
      t += c == '~' ? "~0" : c == '/' ? "~1" : std::string (1, c);
    pointers (e.second, at + "/" + t, out);
  }
}
std::string
gen_pointer (Gen &g, const Doc &d)
{
  std::vector<std::string> all{""};
  if (!d.none)
  {
    all.clear ();
    pointers (d.root, "", all);
  }
  switch (g.weighted ({6, 3, 2, 1}))
  {
  case 0:
  case 1:
  {
    std::string p = g.pick (all);
    if (p.empty () || g.chance (1, 3))
      for (int k = (int)g.range (1, 2); k > 0; k--)
        p += "/" + g.pick<std::string> ({"FDSN", "Time", "A", "b", "Quality", "a~1b", "m~0n", "", "0", "1", "-", "00", "x"});
    return p;
  }
  case 2: return g.pick<std::string> ({"/FDSN/Time/Quality", "/FDSN/Event/Detection", "/FDSN/Event/Detection/0", "/FDSN/Event/Detection/0/Type", "/A", "/A/b", "/", "//", "/FDSN/Time/Exception/0", "/FDSN/Calibration/Sequence/1"});
  default: return g.pick<std::string> ({"A", "FDSN/Time", "/A~", "/A~2", "/A/~x/b", "A/b", "~1"});
  }
}
// other text of the same document
std::string
spaced (Gen &g, const Json &j)
{
  std::string t = j.text (), o;
  bool in       = false;
  for (size_t k = 0; k < t.size (); k++)
  {
    char c = t[k];
    if (!in && (c == ',' || c == ':' || c == '{' || c == '}' || c == '[' || c == ']') && g.chance (1, 4))
    {
      if (c == '}' || c == ']' || c == ',' || c == ':')
        o += g.pick<const char *> ({" ", "\n", "\t", "\r\n  "});
      o += c;
      continue;
    }
    if (in && c == '\\')
    {
      o += c;
      o += t[++k];
      continue;
    }
    if (c == '"')
      in = !in;
    o += c;
  }
  return o;
}

struct Rec
{
  MS3Record *m;
  LM_PARSED_JSON *state = nullptr;
  Rec ()
  {
    m = msr3_init (nullptr);
    REQUIRE (m, "harness", "no record");
  }
  ~Rec ()
  {
    mseh_free_parsestate (&state);
    msr3_free (&m);
  }
  Rec (const Rec &) = delete;
  void
  store (const std::string &s)
  {
    if (m->extra)
      libmseed_memory.free (m->extra);
    m->extra       = nullptr;
    m->extralength = (uint16_t)s.size ();
    if (s.size ())
    {
      m->extra = (char *)libmseed_memory.malloc (s.size ());
      memcpy (m->extra, s.data (), s.size ());
    }
  }
  std::string
  text () const
  {
    return m->extra ? std::string (m->extra, m->extralength) : "";
  }
};
void
stored (const Rec &r, const Doc &d, const char *when, bool raw)
{
  std::string t = r.text ();
  REQUIRE ((r.m->extra == nullptr) == (r.m->extralength == 0), "stored", when << ": length " << r.m->extralength << " with" << (r.m->extra ? "" : "out") << " text");
  if (d.none)
  {
    REQUIRE (t.empty (), "stored", when << ": headers " << quote (t) << " want none");
    return;
  }
  Json j;
  REQUIRE (model::json_parse (t, j), "stored", when << ": not JSON: " << quote (t, 600));
  REQUIRE (strict (j, d.root), "stored", when << ": headers " << quote (t, 900) << " want " << quote (d.root.text (), 900));
  if (!raw)
    REQUIRE (compact (t), "compact", when << ": " << quote (t, 600));
}

// pretty text of the headers
std::string
printed (const std::string &t, int indent)
{
  std::string o (indent, ' ');
  bool in = false;
  for (size_t k = 1; k + 1 < t.size (); k++)
  {
    char c = t[k];
    if (in)
    {
      o += c;
      if (c == '\\')
        o += t[++k];
      else if (c == '"')
        in = false;
      continue;
    }
    switch (c)
    {
    case '"':
      in = true;
      o += c;
      break;
    case ':': o += ": "; break;
    case ',': o += ",\n" + std::string (indent, ' '); break;
    case '{':
    case '[':
      indent += 2;
      o += std::string (1, c) + "\n" + std::string (indent, ' ');
      break;
    case '}':
    case ']':
      indent -= 2;
      o += "\n" + std::string (indent, ' ') + c;
      break;
    default: o += c;
    }
  }
  return o + "\n";
}

void
check_get (Gen &g, const MS3Record *m, Doc &d, const std::string &ptr, LM_PARSED_JSON **state)
{
  if (ptr.empty () || ptr[0] != '/')
  {
    int64_t v;
    int rv = mseh_get_ptr_r (m, ptr.c_str (), &v, 'i', 0, state);
    REQUIRE (rv < 0 || (rv == 1 && d.none), "get-pointer", "pointer " << quote (ptr) << " returns " << rv);
    return;
  }
  const Json *j = find (d, ptr);
  std::string w = "reading " + quote (ptr) + (state ? " through the state" : "") + (j ? " with value " + quote (j->text (), 300) : std::string (" that is not there"));
  for (char type : {'n', 'i', 's', 'b'})
  {
    bool fits = j && (type == 'n' ? j->isnum () : type == 'i' ? j->t == Json::INT || (j->t == Json::UINT && j->u <= INT64_MAX) : type == 's' ? j->t == Json::STR : j->t == Json::BOOL);
    uint32_t room = 0;
    char *buf     = nullptr;
    double n      = 12345.5;
    int64_t i     = -77;
    int b         = -77;
    std::string cs = j && j->t == Json::STR ? std::string (j->s.c_str ()) : "";
    if (type == 's')
    {
      room = (uint32_t)(g.chance (1, 3) ? g.range (0, 4) : g.coin () ? (int64_t)cs.size () + g.range (0, 2) : 40);
      buf  = (char *)malloc (room + 1);
      memset (buf, 0x55, room + 1);
    }
    char *exact = buf ? (char *)malloc (room ? room : 1) : nullptr;
    if (exact)
      memset (exact, 0x55, room ? room : 1);
    int rv = mseh_get_ptr_r (m, ptr.c_str (), type == 'n' ? (void *)&n : type == 'i' ? (void *)&i : type == 's' ? (void *)exact : (void *)&b, type, room, state);
    std::string got = exact && room ? std::string (exact, strnlen (exact, room)) : "";
    bool term       = exact && room && memchr (exact, 0, room);
    bool touched    = exact && (room ? exact[0] != 0x55 || got.size () != room : exact[0] != 0x55);
    free (buf);
    free (exact);
    REQUIRE (rv == (!j ? 1 : fits ? 0 : 2), "get", w << " as '" << type << "' returns " << rv);
    if (fits && type == 'n')
    {
      double want = j->num ();
      REQUIRE (model::d2bits (n) == model::d2bits (want), "get-number", w << fmt (" gives %.17g", n));
    }
    else if (type == 'n')
      REQUIRE (n == 12345.5, "get-other", w << " changes the value");
    if (fits && type == 'i')
      REQUIRE (i == (j->t == Json::INT ? j->i : (int64_t)j->u), "get-integer", w << " gives " << i);
    else if (type == 'i')
      REQUIRE (i == -77, "get-other", w << " changes the value");
    if (fits && type == 'b')
      REQUIRE (b == (int)j->b, "get-boolean", w << " gives " << b);
    else if (type == 'b')
      REQUIRE (b == -77, "get-other", w << " changes the value");
    if (type == 's')
    {
      if (fits && room)
        REQUIRE (term && got == cs.substr (0, room - 1), "get-string", w << " into " << room << " bytes gives " << quote (got));
      else
        REQUIRE (!touched, "get-other", w << " changes the value");
    }
  }
  int rv = mseh_get_ptr_r (m, ptr.c_str (), nullptr, 0, 0, state);
  REQUIRE (rv == (j ? 0 : 1), "exists", w << ": existence test returns " << rv);
}
std::string
iso (int64_t t)
{
  model::Civil c = model::civil (t);
  std::string s  = fmt ("%04lld-%02d-%02dT%02d:%02d:%02d", (long long)c.year, c.month, c.mday, c.hour, c.min, c.sec);
  if (c.nsec)
    s += c.nsec % 1000 ? fmt (".%09u", c.nsec) : fmt (".%06u", c.nsec / 1000);
  return s + "Z";
}
template <size_t N>
void
text_field (Gen &g, Json &e, const char *name, char (&f)[N])
{
  memset (f, 0, N);
  if (g.chance (1, 3))
    return;
  std::string s = g.chance (1, 4) ? std::string (N - 1, 'x') : g.coin () ? gen_text (g) : g.str ("ABCDEFG", 1, 12);
  while (s.size () > N - 1)
    s.pop_back ();
  while (!valid_utf8 (s) && s.size ())
    s.pop_back ();
  strcpy (f, s.c_str ());
  if (s.size ())
    e.set (name, Json::string (s));
}
void
real_field (Gen &g, Json &e, const char *name, double &f)
{
  f = g.chance (1, 3) ? 0 : gen_real (g);
  if (g.chance (1, 60))
    f = g.coin () ? NAN : INFINITY;
  if (f != 0)
    e.set (name, Json::real (f));
}
void
time_field (Gen &g, Json &e, const char *name, nstime_t &f)
{
  f = NSTUNSET;
  if (g.chance (1, 3))
  {
    if (g.coin ())
      f = NSTERROR;
    return;
  }
  f = gen_time (g);
  if (g.coin ())
    f = model::floordiv (f, 1000000) * 1000000;
  if (f == NSTERROR || f == NSTUNSET)
    f++;
  e.set (name, Json::string (iso (f)));
}
void
two_times (Gen &g, Json &e, nstime_t &b, nstime_t &t)
{
  time_field (g, e, "BeginTime", b);
  if (g.chance (1, 4) && b != NSTUNSET && b != NSTERROR) // no duration
  {
    t = b;
    e.set ("EndTime", Json::string (iso (t)));
  }
  else
    time_field (g, e, "EndTime", t);
}
void
flag_field (Gen &g, Json &e, const char *name, int &f)
{
  f = (int)g.range (-1, 2);
  if (f >= 0)
    e.set (name, Json::boolean (f));
}
void
int_field (Gen &g, Json &e, const char *name, int &f)
{
  f = g.chance (1, 3) ? -1 : g.chance (1, 4) ? INT32_MAX : (int)g.range (0, 300);
  if (f >= 0)
    e.set (name, Json::integer (f));
}
// append the entry of a documented structure; what it adds
int
add_entry (Gen &g, MS3Record *m, const char *ptr, LM_PARSED_JSON **state, Json &e, std::string &at)
{
  e = Json::object ();
  switch (g.index (4))
  {
  case 0:
  {
    MSEHEventDetection d;
    memset (&d, 0, sizeof d);
    at = "/FDSN/Event/Detection";
    text_field (g, e, "Type", d.type);
    real_field (g, e, "SignalAmplitude", d.signalamplitude);
    real_field (g, e, "SignalPeriod", d.signalperiod);
    real_field (g, e, "BackgroundEstimate", d.backgroundestimate);
    text_field (g, e, "Wave", d.wave);
    text_field (g, e, "Units", d.units);
    time_field (g, e, "OnsetTime", d.onsettime);
    if (g.coin ())
    {
      Json a = Json::array ();
      bool any = false;
      for (auto &x : d.medsnr)
      {
        x = (uint8_t)(g.chance (1, 3) ? g.range (0, 255) : 0);
        any = any || x;
        a.a.push_back (Json::integer (x));
      }
      if (any)
        e.set ("MEDSNR", a);
    }
    int_field (g, e, "MEDLookback", d.medlookback);
    int_field (g, e, "MEDPickAlgorithm", d.medpickalgorithm);
    text_field (g, e, "Detector", d.detector);
    return mseh_add_event_detection_r (m, ptr, &d, state);
  }
  case 1:
  {
    MSEHCalibration c;
    memset (&c, 0, sizeof c);
    at = "/FDSN/Calibration/Sequence";
    text_field (g, e, "Type", c.type);
    two_times (g, e, c.begintime, c.endtime);
    int_field (g, e, "Steps", c.steps);
    flag_field (g, e, "StepFirstPulsePositive", c.firstpulsepositive);
    flag_field (g, e, "StepAlternateSign", c.alternatesign);
    text_field (g, e, "Trigger", c.trigger);
    flag_field (g, e, "Continued", c.continued);
    real_field (g, e, "Amplitude", c.amplitude);
    text_field (g, e, "InputUnits", c.inputunits);
    text_field (g, e, "AmplitudeRange", c.amplituderange);
    real_field (g, e, "Duration", c.duration);
    real_field (g, e, "SinePeriod", c.sineperiod);
    real_field (g, e, "StepBetween", c.stepbetween);
    text_field (g, e, "InputChannel", c.inputchannel);
    real_field (g, e, "ReferenceAmplitude", c.refamplitude);
    text_field (g, e, "Coupling", c.coupling);
    text_field (g, e, "Rolloff", c.rolloff);
    text_field (g, e, "Noise", c.noise);
    return mseh_add_calibration_r (m, ptr, &c, state);
  }
  case 2:
  {
    MSEHTimingException x;
    memset (&x, 0, sizeof x);
    at = "/FDSN/Time/Exception";
    time_field (g, e, "Time", x.time);
    x.vcocorrection = g.chance (1, 3) ? -1.0f : (float)g.range (0, 1000) / 10.0f;
    if (x.vcocorrection >= 0)
      e.set ("VCOCorrection", Json::real ((double)x.vcocorrection));
    int_field (g, e, "ReceptionQuality", x.receptionquality);
    x.count = g.chance (1, 3) ? 0 : (uint32_t)g.raw (1ull << 32);
    if (x.count)
      e.set ("Count", Json::integer (x.count));
    text_field (g, e, "Type", x.type);
    text_field (g, e, "ClockStatus", x.clockstatus);
    return mseh_add_timing_exception_r (m, ptr, &x, state);
  }
  default:
  {
    MSEHRecenter r;
    memset (&r, 0, sizeof r);
    at = "/FDSN/Recenter/Sequence";
    text_field (g, e, "Type", r.type);
    two_times (g, e, r.begintime, r.endtime);
    text_field (g, e, "Trigger", r.trigger);
    return mseh_add_recenter_r (m, ptr, &r, state);
  }
  }
}
// the text of a document this long may or may not fit
bool
doubtful (const Doc &d)
{
  size_t lo = length (d.root), hi = lo + 25 * reals (d.root);
  return lo <= UINT16_MAX && hi > UINT16_MAX;
}
} // namespace

static void
edits (Gen &g)
{
  {
    Rec r;
    Doc now; // what the record holds
    bool raw = true;
    if (g.chance (2, 3))
    {
      now.none = false;
      now.root = Json::object ();
      for (int k = (int)g.range (0, 4); k > 0; k--)
        now.root.set (g.pick<std::string> ({"FDSN", "A", "b", "Other", "a/b"}), gen_value (g, 2));
      if (g.chance (1, 3))
        now.root.setp ("/FDSN/Event/Detection", g.coin () ? Json::array () : gen_value (g, 2));
      if (g.chance (1, 30))
        now.root = gen_value (g, 2);
      r.store (spaced (g, now.root));
      g.note ("headers " + r.text ().substr (0, 600) + "\n");
    }
    bool shared  = g.coin ();
    Doc work     = now; // what the shared state holds
    bool created = false; // the state exists
    bool edited  = false; // there is something to store
    bool dirty   = false; // something that cannot be written was put in
    int steps    = (int)g.size (1, 12);
    int done     = 0;
    for (int s = 0; s < steps; s++)
    {
      LM_PARSED_JSON **st = shared ? &r.state : nullptr;
      Doc &d              = shared ? work : now;
      Doc before          = d;
      lg::diag ().clear ();
      switch (g.weighted ({8, 6, 3, 3, 3, 2}))
      {
      case 0: // set
      {
        std::string p = gen_pointer (g, d);
        char type     = g.pick<char> ({'n', 'i', 's', 'b'});
        Json v;
        double n  = gen_real (g);
        int64_t i = g.chance (1, 5) ? g.pick<int64_t> ({INT64_MIN, INT64_MAX, 0, -1}) : g.bits (62);
        int b     = (int)g.range (-1, 2);
        std::string t = gen_text (g);
        if (g.chance (1, 25))
          t = std::string ((size_t)g.range (60000, 70000), g.pick<char> ({'x', '"', '\n', '\x02'}));
        if (!shared && g.chance (1, 25))
        {
          n = g.pick<double> ({NAN, INFINITY, -INFINITY});
          t += g.pick<std::string> ({"\xff", "\xc3", "\xed\xa0\x80", "\x80"});
        }
        bool brim = g.chance (1, 12);
        if (brim) // to the limit of what fits
        {
          Doc c = d;
          if (p.size () && p[0] == '/' && put (c, p, Json::string ("")) && writable (c.root) && length (c.root) < 60000 && reals (c.root) == 0)
          {
            type = 's';
            t.assign ((size_t)(UINT16_MAX + g.range (-1, 2)) - length (c.root), 'x');
            g.label ("to the limit");
          }
        }
        v = type == 'n' ? Json::real (n) : type == 'i' ? Json::integer (i) : type == 's' ? Json::string (t) : Json::boolean (b);
        g.note ("set " + quote (p) + " = " + quote (v.text (), 100) + "\n");
        void *vp = type == 'n' ? (void *)&n : type == 'i' ? (void *)&i : type == 's' ? (void *)&t[0] : (void *)&b;
        int rv   = mseh_set_ptr_r (r.m, p.c_str (), vp, type, st);
        bool ok  = p.size () && p[0] == '/';
        created  = created || (shared && ok);
        ok       = ok && put (d, p, v);
        if (!shared && ok && (!writable (d.root) || doubtful (d) || length (d.root) > UINT16_MAX))
        {
          if (doubtful (d))
            DISCARD ();
          d  = before;
          ok = false;
        }
        REQUIRE (rv == 0 ? ok : rv < 0 && !ok, "set", "setting " << quote (p) << " to " << quote (v.text (), 200) << " returns " << rv << ", want " << (ok ? "success" : "an error") << " " << lg::diag ());
        edited = edited || (shared && ok);
        raw    = raw && !(!shared && ok);
        done += ok;
        break;
      }
      case 1: // get
      {
        std::string p = gen_pointer (g, d);
        g.note ("get " + quote (p) + "\n");
        if (shared && p.size () && p[0] == '/' && r.m->extralength)
          created = true;
        check_get (g, r.m, d, p, st);
        if (shared && g.chance (1, 4)) // the stored headers are unchanged until they are stored
          check_get (g, r.m, now, p, nullptr);
        break;
      }
      case 2: // add to an array
      {
        std::string at, p;
        bool custom = g.chance (1, 3);
        if (custom)
          p = gen_pointer (g, d);
        Json e;
        int rv = add_entry (g, r.m, custom ? p.c_str () : nullptr, st, e, at);
        if (custom)
          at = p;
        g.note ("add " + quote (at) + " " + quote (e.text (), 300) + "\n");
        bool ok = at.size () && at[0] == '/';
        created = created || (shared && ok);
        if (ok)
        {
          Json *a = find (d, at);
          if (a && a->t != Json::ARR)
            ok = false;
          else if (a)
            a->a.push_back (e);
          else
          {
            Json n = Json::array ();
            n.a.push_back (e);
            ok = put (d, at, n);
          }
        }
        bool unwritable = ok && !writable (e);
        if (!shared && ok && (unwritable || doubtful (d) || length (d.root) > UINT16_MAX))
        {
          if (doubtful (d))
            DISCARD ();
          d  = before;
          ok = false;
        }
        dirty = dirty || (shared && unwritable);
        REQUIRE (rv == 0 ? ok : rv < 0 && !ok, "add", "adding to " << quote (at) << " returns " << rv << ", want " << (ok ? "success" : "an error") << " " << lg::diag ());
        edited = edited || (shared && ok);
        raw    = raw && !(!shared && ok);
        done += ok;
        if (dirty) // reading it is not defined
          s = steps;
        break;
      }
      case 3: // merge patch
      {
        std::string p = g.chance (1, 3) ? "" : gen_pointer (g, d);
        Json patch    = g.chance (1, 4) ? gen_value (g, 2) : Json::object ();
        if (patch.t == Json::OBJ)
          for (int k = (int)g.range (0, 3); k > 0; k--)
            patch.set (g.pick<std::string> ({"FDSN", "A", "b", "Time", "a/b"}), g.chance (1, 3) ? Json () : gen_value (g, 2));
        std::string t = spaced (g, patch);
        bool bad      = g.chance (1, 12);
        if (bad)
          t = g.pick<std::string> ({"{", "{\"a\":}", "", "{'a':1}", "nul", "{\"a\":1}x"});
        g.note ("merge " + quote (p) + " " + quote (t, 300) + "\n");
        int rv  = mseh_set_ptr_r (r.m, p.c_str (), &t[0], 'M', st);
        created = created || shared;
        std::vector<std::string> tk;
        Json *target = p.empty () || p[0] == '/' ? find (d, p) : nullptr;
        bool ok      = !bad && target;
        if (ok)
        {
          Json mm = merge (target, patch);
          *target = mm;
        }
        if (!shared && ok && (doubtful (d) || length (d.root) > UINT16_MAX))
        {
          if (doubtful (d))
            DISCARD ();
          d  = before;
          ok = false;
        }
        REQUIRE (rv == 0 ? ok : rv < 0 && !ok, "merge", "patching " << quote (p) << " with " << quote (t, 300) << " returns " << rv << ", want " << (ok ? "success" : "an error") << " " << lg::diag ());
        edited = edited || (shared && ok);
        raw    = raw && !(!shared && ok);
        done += ok;
        break;
      }
      case 4: // store what the state holds
        if (!shared)
        {
          check_get (g, r.m, d, gen_pointer (g, d), nullptr);
          break;
        }
        {
          g.note ("serialize\n");
          int rv = mseh_serialize (r.m, &r.state);
          if (!created || !edited)
          {
            // a state that was only read from, or in which every edit failed, may store what it was made of
            REQUIRE (rv >= 0 || work.none, "serialize", "nothing to store returns " << rv);
            if (rv > 0)
              raw = false;
          }
          else if (doubtful (work))
            DISCARD ();
          else if (length (work.root) > UINT16_MAX)
            REQUIRE (rv < 0, "serialize", "document of more than " << length (work.root) << " bytes returns " << rv);
          else
          {
            REQUIRE (rv == (int)r.m->extralength && rv > 0, "serialize", "returns " << rv << " for " << r.m->extralength << " bytes " << lg::diag ());
            now = work;
            raw = false;
          }
          if (g.coin ())
          {
            mseh_free_parsestate (&r.state);
            REQUIRE (!r.state, "free-state", "state is left");
            work    = now;
            created = edited = false;
            shared  = g.coin ();
          }
          break;
        }
      default: // replace everything
        if (shared)
        {
          mseh_free_parsestate (&r.state);
          work    = now;
          created = edited = false;
          shared  = g.coin ();
        }
        else
        {
          Json v        = gen_value (g, 3);
          std::string t = spaced (g, v);
          bool bad = g.chance (1, 6), none = g.chance (1, 8);
          if (bad)
            t = g.pick<std::string> ({"", "{", "{\"a\" 1}", "[1,]", "{\"a\":1,}", "\xff", "{\"\xc3\":1}", "01", "1 2"});
          if (g.chance (1, 20))
          {
            v = Json::string (std::string ((size_t)g.range (65400, 65700), 'y'));
            t = v.text ();
            bad = length (v) > UINT16_MAX;
          }
          g.note ("replace by " + (none ? "nothing" : quote (t, 300)) + "\n");
          int rv = mseh_replace (r.m, none ? nullptr : &t[0]);
          if (none)
          {
            REQUIRE (rv == 0, "replace", "removing returns " << rv);
            now  = Doc ();
            work = now;
          }
          else if (bad)
            REQUIRE (rv < 0, "replace", quote (t, 200) << " returns " << rv);
          else
          {
            REQUIRE (rv == (int)r.m->extralength && rv > 0, "replace", quote (t, 200) << " returns " << rv << " " << lg::diag ());
            now.none = false;
            now.root = v;
            work     = now;
            raw      = false;
            done++;
          }
        }
      }
      stored (r, now, fmt ("step %d", s).c_str (), raw);
    }
    if (dirty)
    {
      int rv = mseh_serialize (r.m, &r.state);
      REQUIRE (rv < 0, "serialize", "a number that is none is stored: " << quote (r.text ()));
      stored (r, now, "after the failed store", raw);
    }
    // printed as it is
    if (!now.none && now.root.t == Json::OBJ)
    {
      lg::out ().clear ();
      int indent = (int)g.range (0, 10);
      REQUIRE (mseh_print (r.m, indent) == 0, "print", "printing fails");
      if (!raw)
      {
        std::string want = printed (r.text (), indent);
        REQUIRE (lg::out () == want, "print", "printed\n" << lg::out ().substr (0, 1500) << "want\n" << want.substr (0, 1500));
      }
    }
    if (done > 1)
      g.nontrivial ();
  }
  mem::require_balanced ("edits");
}

// headers that are no JSON
static void
broken (Gen &g)
{
  {
    Rec r;
    std::string t = spaced (g, gen_value (g, 3));
    if (g.coin () && t.size ())
      t.resize (g.index (t.size ()));
    for (int k = (int)g.range (0, 3); k > 0 && t.size (); k--)
      t[g.index (t.size ())] = (char)g.raw (256);
    Json j;
    bool ok = model::json_parse (t, j);
    r.store (t);
    g.note (quote (t));
    LM_PARSED_JSON **st = g.coin () ? &r.state : nullptr;
    int64_t v           = 5;
    int rv              = mseh_get_ptr_r (r.m, "/A", &v, 'i', 0, st);
    if (t.empty ())
      REQUIRE (rv == 1, "broken-get", "no headers give " << rv);
    else if (!ok)
      REQUIRE (rv < 0, "broken-get", quote (t) << " returns " << rv);
    rv = mseh_set_ptr_r (r.m, "/A", &v, 'i', st);
    if (!t.empty () && !ok)
    {
      REQUIRE (rv < 0, "broken-set", quote (t) << " returns " << rv);
      REQUIRE (r.text () == t, "broken-set", "headers changed");
      REQUIRE (!r.state, "broken-state", "a state of nothing");
      g.nontrivial ();
    }
    lg::out ().clear ();
    mseh_print (r.m, 2);
    int64_t one = 1;
    REQUIRE (mseh_get_ptr_r (nullptr, "/A", &one, 'i', 0, nullptr) < 0 && mseh_get_ptr_r (r.m, nullptr, &one, 'i', 0, nullptr) < 0 && mseh_set_ptr_r (nullptr, "/A", &one, 'i', nullptr) < 0 && mseh_set_ptr_r (r.m, nullptr, &one, 'i', nullptr) < 0 && mseh_set_ptr_r (r.m, "/A", nullptr, 'i', nullptr) < 0, "missing", "missing arguments");
    REQUIRE (mseh_serialize (nullptr, &r.state) < 0 && mseh_serialize (r.m, nullptr) < 0 && mseh_replace (nullptr, &t[0]) < 0 && mseh_print (nullptr, 0) < 0, "missing", "missing arguments");
  }
  mem::require_balanced ("broken");
}

namespace pbt {
Property property = {
    "P14",
    "A case is a document (none, an object, now and then another value, with any white space) and one to a dozen operations on it: set by pointer, get in every type into exactly the stated room, add one of the documented structures, merge patch, serialize, replace, with or without a shared parse state, "
    "compared with a reference document after every step and printed at the end; or headers that are no JSON. Non-trivial: two or more operations that changed the document, headers that are not JSON.",
    {{"edits", 8, edits}, {"broken", 1, broken}},
    std_reset,
    nullptr};
}
