// P12: identifiers map to codes and back; bounded text copies
#include "desc.hpp"
using namespace pbt;

namespace {
const std::string ALNUM = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-";

// bytes in memory of exactly this size
struct Exact
{
  size_t n;
  char *p;
  explicit Exact (size_t n, int fill = 0x7e) : n (n), p ((char *)malloc (n ? n : 1)) { memset (p, fill, n ? n : 1); }
  Exact (const std::string &s, bool term) : n (s.size () + term), p ((char *)malloc (n ? n : 1))
  {
    memcpy (p, s.data (), s.size ());
    if (term)
      p[s.size ()] = 0;
  }
  ~Exact () { free (p); }
  Exact (const Exact &) = delete;
};

std::string
code (Gen &g, size_t lo, size_t hi)
{
  if (g.chance (1, 8)) // any character that is neither delimiter
  {
    size_t n = (size_t)g.range ((int64_t)lo, (int64_t)hi);
    std::string s;
    while (s.size () < n)
    {
      char c = (char)g.range (1, 255);
      if (c != '_' && c != ':')
        s += c;
    }
    return s;
  }
  return g.str (ALNUM, lo, hi);
}
std::vector<std::string>
split (const std::string &s, char d)
{
  std::vector<std::string> v (1);
  for (char c : s)
    if (c == d)
      v.emplace_back ();
    else
      v.back () += c;
  return v;
}
std::string
some_id (Gen &g)
{
  // pieces put together right and wrong
  std::string s = g.weighted ({6, 1, 1, 1}) == 0 ? "FDSN:" : g.pick<const char *> ({"", "FDSN", "XFDSN:", "fdsn:", "ABCD:", ":"});
  for (int k = (int)g.weighted ({8, 2, 1}); k > 0; k--)
    s += code (g, 0, 4) + ":";
  int n = 5 + (g.chance (1, 3) ? (int)g.range (-5, 3) : 0);
  for (int k = 0; k <= n; k++)
    s += (k ? "_" : "") + code (g, 0, g.chance (1, 6) ? 12 : 3);
  if (g.chance (1, 10))
  {
    size_t p = g.index (s.size () + 1);
    s.insert (p, 1, g.pick<char> ({'_', ':', ' ', 'A'}));
  }
  return s;
}

// reference: longest prefix of whole, well-formed UTF-8 characters, at most max bytes, up to a terminator
size_t
utf8_prefix (const std::string &s, size_t max)
{
  size_t at = 0;
  while (at < s.size () && at < max)
  {
    unsigned char c = (unsigned char)s[at];
    if (!c)
      break;
    size_t n;
    uint32_t v;
    if (c < 0x80)
      n = 1, v = c;
    else if (c >= 0xc2 && c < 0xe0)
      n = 2, v = c & 0x1f;
    else if ((c & 0xf0) == 0xe0)
      n = 3, v = c & 0x0f;
    else if (c >= 0xf0 && c < 0xf5)
      n = 4, v = c & 7;
    else
      break;
    if (at + n > max || at + n > s.size ())
      break;
    bool bad = false;
    for (size_t k = 1; k < n; k++)
    {
      unsigned char d = (unsigned char)s[at + k];
      bad             = bad || (d & 0xc0) != 0x80;
      v               = v << 6 | (d & 0x3f);
    }
    if (bad || (n == 3 && (v < 0x800 || (v >= 0xd800 && v < 0xe000))) || (n == 4 && (v < 0x10000 || v > 0x10ffff)))
      break;
    at += n;
  }
  return at;
}
} // namespace

static void
build (Gen &g)
{
  size_t hi       = g.chance (1, 6) ? 12 : 4;
  std::string net = code (g, 0, hi), sta = code (g, 0, g.coin () ? 5 : hi), loc = code (g, 0, hi), chan;
  std::string canonical; // in the identifier
  switch (g.weighted ({4, 3, 3, 1}))
  {
  case 0: // SEED channel
    chan      = code (g, 3, 3);
    canonical = std::string () + chan[0] + "_" + chan[1] + "_" + chan[2];
    break;
  case 1: // the extended form of one
  {
    chan = code (g, 3, 3);
    chan = canonical = std::string () + chan[0] + "_" + chan[1] + "_" + chan[2];
    break;
  }
  default: // extended, some parts may be empty
    chan = canonical = code (g, 0, 4) + "_" + code (g, 0, 4) + "_" + code (g, 0, 4);
    break;
  }
  bool noloc = loc.empty () && g.coin ();
  std::string want = "FDSN:" + net + "_" + sta + "_" + loc + "_" + canonical;
  g.note (quote (net) + " " + quote (sta) + " " + quote (loc) + " " + quote (chan));

  int len;
  switch (g.weighted ({3, 2, 2, 2}))
  {
  case 0: len = (int)want.size () + 1 + (int)g.range (0, 40); break;
  case 1: len = (int)want.size () + 1; break;
  case 2: len = (int)want.size () - (int)g.range (0, 8); break;
  default: len = (int)g.range (0, 40);
  }
  len = std::max (len, 0);
  Exact d ((size_t)len), n (net, true), s (sta, true), l (loc, true), c (chan, true);
  lg::diag ().clear ();
  int rv   = ms_nslc2sid (d.p, len, 0, n.p, s.p, noloc ? nullptr : l.p, c.p);
  bool fit = len >= 16 && (size_t)len > want.size ();
  g.note (fmt (" into %d\n", len));
  if (!fit)
  {
    REQUIRE (rv == -1, "build-small", "identifier of " << want.size () << " characters into " << len << " bytes returns " << rv);
    REQUIRE (!lg::diag ().empty (), "build-small", "no message");
    return;
  }
  REQUIRE (rv == (int)want.size (), "build", "returns " << rv << ", want " << want.size () << " for " << quote (want) << " got " << quote (std::string (d.p, strnlen (d.p, (size_t)len))));
  REQUIRE (strnlen (d.p, (size_t)len) == want.size () && want == d.p, "build", "got " << quote (std::string (d.p, strnlen (d.p, (size_t)len))) << " want " << quote (want));
  for (auto a : {0, 1, 2, 3})
  {
    Exact o ((size_t)len);
    REQUIRE (ms_nslc2sid (a == 0 ? nullptr : o.p, len, 0, a == 1 ? nullptr : n.p, sta.c_str (), nullptr, a == 2 ? nullptr : chan.c_str ()) == (a == 3 ? (int)(want.size () - loc.size ()) : -1), "build-missing", "missing argument " << a);
  }
  // and back
  std::string backchan = chan;
  auto parts           = split (canonical, '_');
  if (parts[0].size () == 1 && parts[1].size () == 1 && parts[2].size () == 1)
    backchan = parts[0] + parts[1] + parts[2];
  unsigned want_of = (unsigned)g.range (0, 15);
  if (g.coin ())
    want_of = 15;
  // room for the codes; the channel is put in shape where it lies
  Exact on (net.size () + 1), os (sta.size () + 1), ol (loc.size () + 1), oc (backchan.size () + 1);
  rv = ms_sid2nslc (d.p, want_of & 1 ? on.p : nullptr, want_of & 2 ? os.p : nullptr, want_of & 4 ? ol.p : nullptr, want_of & 8 ? oc.p : nullptr);
  REQUIRE (rv == 0, "split", quote (want) << " cannot be split: " << lg::diag ());
  REQUIRE (!(want_of & 1) || net == on.p, "split", "network " << quote (on.p));
  REQUIRE (!(want_of & 2) || sta == os.p, "split", "station " << quote (os.p));
  REQUIRE (!(want_of & 4) || loc == ol.p, "split", "location " << quote (ol.p));
  REQUIRE (!(want_of & 8) || backchan == oc.p, "split", "channel " << quote (oc.p) << " want " << quote (backchan));
  mem::require_balanced ("build");
  if (net.size () && sta.size ())
    g.nontrivial ();
}

static void
dissect (Gen &g)
{
  std::string id = some_id (g);
  g.note (quote (id));
  Exact in (id, true);
  // what the documentation says
  bool ok          = id.compare (0, 5, "FDSN:") == 0;
  std::string rest = ok ? id.substr (id.rfind (':') + 1) : "";
  auto p           = split (rest, '_');
  ok               = ok && p.size () == 6;
  Exact n (id.size () + 1), s (id.size () + 1), l (id.size () + 1), c (id.size () + 1);
  lg::diag ().clear ();
  int rv = ms_sid2nslc (in.p, n.p, s.p, l.p, c.p);
  REQUIRE (rv == (ok ? 0 : -1), "dissect", quote (id) << " returns " << rv);
  REQUIRE (id == in.p, "dissect", "identifier changed to " << quote (in.p));
  if (!ok)
    REQUIRE (!lg::diag ().empty (), "dissect", "no message for " << quote (id));
  else
  {
    std::string chan = p[3] + "_" + p[4] + "_" + p[5];
    if (p[3].size () == 1 && p[4].size () == 1 && p[5].size () == 1)
      chan = p[3] + p[4] + p[5];
    REQUIRE (p[0] == n.p && p[1] == s.p && p[2] == l.p && chan == c.p, "dissect", quote (id) << " gives " << quote (n.p) << " " << quote (s.p) << " " << quote (l.p) << " " << quote (c.p));
    Exact again (id.size () + 16);
    rv = ms_nslc2sid (again.p, (int)again.n, 0, n.p, s.p, l.p, c.p);
    REQUIRE (rv > 0 && "FDSN:" + rest == again.p, "rebuild", quote (id) << " is built again as " << quote (again.p) << " (" << rv << ")");
    g.nontrivial ();
  }
  REQUIRE (ms_sid2nslc (nullptr, n.p, s.p, l.p, c.p) == -1, "dissect", "no identifier");
  mem::require_balanced ("dissect");
}

static void
channel (Gen &g)
{
  std::string s = g.weighted ({3, 2, 1, 2}) == 0 ? code (g, 3, 3) : g.str ("ABHZ_ \xc3", 0, 7);
  if (g.chance (1, 3) && s.size () >= 3)
    s = std::string () + s[0] + "_" + s[1] + "_" + s[2] + (g.chance (1, 4) ? "X" : "");
  g.note (quote (s));
  Exact in (s, true), out (6);
  int rv = ms_seedchan2xchan (out.p, in.p);
  REQUIRE (rv == (s.size () == 3 ? 0 : -1), "seed-channel", quote (s) << " returns " << rv);
  if (rv == 0)
  {
    std::string w = std::string () + s[0] + "_" + s[1] + "_" + s[2];
    REQUIRE (w == out.p, "seed-channel", quote (s) << " gives " << quote (out.p));
    Exact back (4), x (w, true);
    REQUIRE (ms_xchan2seedchan (back.p, x.p) == 0 && s == back.p, "channel-back", quote (w) << " gives " << quote (back.p));
    g.nontrivial ();
  }
  bool x = s.size () == 5 && s[1] == '_' && s[3] == '_';
  Exact so (4);
  REQUIRE (ms_xchan2seedchan (nullptr, in.p) == (x ? 0 : -1), "extended-channel", "test of " << quote (s));
  REQUIRE (ms_xchan2seedchan (so.p, in.p) == (x ? 0 : -1), "extended-channel", "mapping of " << quote (s));
  REQUIRE (s == in.p, "extended-channel", "source changed");
  if (x)
  {
    std::string w = std::string () + s[0] + s[2] + s[4];
    REQUIRE (w == so.p, "extended-channel", quote (s) << " gives " << quote (so.p));
    Exact place (s, true), back (6);
    REQUIRE (ms_xchan2seedchan (place.p, place.p) == 0 && w == place.p, "extended-channel", "in place gives " << quote (place.p));
    REQUIRE (ms_seedchan2xchan (back.p, so.p) == 0 && s == back.p, "channel-back", quote (w) << " gives " << quote (back.p));
    g.nontrivial ();
  }
  REQUIRE (ms_seedchan2xchan (nullptr, in.p) == -1 && ms_seedchan2xchan (out.p, nullptr) == -1 && ms_xchan2seedchan (so.p, nullptr) == -1, "channel-missing", "missing arguments");
}

static void
text (Gen &g)
{
  std::string s;
  size_t pieces = (size_t)g.size (0, 24);
  for (size_t k = 0; k < pieces; k++)
    switch (g.weighted ({5, 4, 3, 1, 1, 1}))
    {
    case 0: s += ALNUM[g.index (ALNUM.size ())]; break;
    case 1: s += ' '; break;
    case 2: // a character of two to four bytes
    {
      uint32_t v = g.pick<uint32_t> ({0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0xe9, 0x20ac, 0x1f600});
      if (v < 0x800)
        s += (char)(0xc0 | v >> 6);
      else
      {
        if (v < 0x10000)
          s += (char)(0xe0 | v >> 12);
        else
        {
          s += (char)(0xf0 | v >> 18);
          s += (char)(0x80 | (v >> 12 & 0x3f));
        }
        s += (char)(0x80 | (v >> 6 & 0x3f));
      }
      s += (char)(0x80 | (v & 0x3f));
      break;
    }
    case 3: s += (char)g.range (0x80, 0xff); break;
    case 4: s += g.pick<std::string> ({"\xc0\x80", "\xc1\xbf", "\xe0\x80\x80", "\xed\xa0\x80", "\xf0\x80\x80\x80", "\xf4\x90\x80\x80", "\xf5\x80\x80\x80", "\xed\x9f\xbf", "\xc3", "\xe2\x82", "\xf0\x9f\x98"}); break;
    default: s += (char)g.range (1, 0x1f);
    }
  if (g.chance (1, 10))
    s.insert (g.index (s.size () + 1), 1, '\0');
  int len = (int)(g.coin () ? g.range (0, (int64_t)s.size ()) : g.range (0, (int64_t)s.size () + 6));
  if (g.coin ())
    len = (int)s.size ();
  // a source may end without a terminator only beyond the stated length
  bool term = (size_t)len > s.size () || g.coin ();
  if (!term)
    s.resize ((size_t)len);
  g.note (quote (s) + fmt (" length %d%s", len, term ? "" : " without terminator"));
  std::string use = s.substr (0, utf8_prefix (s, (size_t)len));

  std::string clean, tail = use;
  for (char c : use)
    if (c != ' ')
      clean += c;
  while (!tail.empty () && tail.back () == ' ')
    tail.pop_back ();
  std::string open = use + std::string ((size_t)len - use.size (), ' ');

  Exact src (s, term);
  {
    Exact d ((size_t)len + 1);
    int rv = ms_strncpclean (d.p, src.p, len);
    REQUIRE (rv == (int)clean.size () && !memcmp (d.p, clean.c_str (), clean.size () + 1), "clean", "returns " << rv << " text " << quote (std::string (d.p, strnlen (d.p, d.n))) << " want " << quote (clean));
    // room for the kept characters is enough
    Exact e (clean.size () + 1);
    rv = ms_strncpclean (e.p, src.p, len);
    REQUIRE (rv == (int)clean.size () && clean == e.p, "clean", "returns " << rv << " text " << quote (e.p));
  }
  {
    Exact d ((size_t)len + 1);
    int rv = ms_strncpcleantail (d.p, src.p, len);
    REQUIRE (rv == (int)tail.size () && !memcmp (d.p, tail.c_str (), tail.size () + 1), "clean-tail", "returns " << rv << " text " << quote (std::string (d.p, strnlen (d.p, d.n))) << " want " << quote (tail));
  }
  {
    Exact d ((size_t)len);
    int rv = ms_strncpopen (d.p, src.p, len);
    REQUIRE (rv == (int)use.size () && !memcmp (d.p, open.data (), open.size ()), "open", "returns " << rv << " text " << quote (std::string (d.p, d.n)) << " want " << quote (open));
    rv = ms_strncpopen (d.p, nullptr, len);
    REQUIRE (rv == 0 && std::string (d.p, d.n) == std::string (d.n, ' '), "open", "without source returns " << rv);
    Exact o (1);
    REQUIRE (ms_strncpclean (o.p, nullptr, len) == 0 && !o.p[0], "clean", "without source");
    o.p[0] = 'x';
    REQUIRE (ms_strncpcleantail (o.p, nullptr, len) == 0 && !o.p[0], "clean-tail", "without source");
    REQUIRE (ms_strncpclean (nullptr, src.p, len) == 0 && ms_strncpcleantail (nullptr, src.p, len) == 0 && ms_strncpopen (nullptr, src.p, len) == 0, "no-destination", "without destination");
  }
  REQUIRE (!memcmp (src.p, s.data (), s.size ()), "source", "source changed");
  if (use.size () > 1 && (clean != use || use.size () < (size_t)len))
    g.nontrivial ();
}

namespace pbt {
Property property = {
    "P12",
    "A case is a set of codes built into an identifier in a destination of exactly the stated size and split again into destinations of exactly the needed size, an identifier of right and wrong pieces split and built again, a channel in either form, "
    "or a text of plain, blank, multi-byte and malformed characters copied by each helper from and to memory of exactly the stated length. "
    "Non-trivial: network and station are not empty, the identifier is well-formed, the channel has a counterpart, the text is cut or cleaned.",
    {{"build", 3, build}, {"dissect", 3, dissect}, {"channel", 1, channel}, {"text", 4, text}},
    std_reset,
    nullptr};
}
