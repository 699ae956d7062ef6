// P13: selections match exactly the data their patterns and windows describe
#include "glob.hpp"
#include "store.hpp"
#include <fcntl.h>
#include <unistd.h>
using namespace pbt;
using namespace globs;

namespace {
const int64_t S = 1000000000;

std::string
some_sid (Gen &g)
{
  return std::string ("FDSN:") + g.pick<const char *> ({"XX", "IU", "I", "U2"}) + "_" + g.pick<const char *> ({"ANMO", "AN", "TEST1", "A-B"}) + "_" + g.pick<const char *> ({"", "00", "10"}) + "_" + g.pick<const char *> ({"B_H_Z", "L_H_Z", "B_H_1", "BB_HH_ZZ", "V__Z"});
}

struct Window
{
  int64_t from = NSTUNSET, to = NSTUNSET;
};
struct Entry
{
  Pattern p;
  int pub = 0;
  Window w;
  std::string show;
};
bool
hits (const Entry &e, const std::string &sid, int64_t a, int64_t b, int pub)
{
  if (e.pub > 0 && e.pub != pub)
    return false;
  if (e.w.from != NSTUNSET && b < e.w.from)
    return false;
  if (e.w.to != NSTUNSET && a > e.w.to)
    return false;
  return match (e.p, sid);
}

// times used for windows and data of one case
struct Clock
{
  int64_t base;
  std::vector<int64_t> points;
  explicit Clock (Gen &g)
  {
    base = model::floordiv (g.coin () ? (int64_t)model::to_ns (2015, 1, 0, 0, 0, 0) : gen_time (g), S) * S;
    if (base > INT64_MAX - 400000 * S)
      base -= 800000 * S;
    if (base < (int64_t)model::to_ns (1680, 1, 0, 0, 0, 0))
      base = 0;
    if (llabs (base - NSTERROR) < 1000000 * S)
      base = 0;
  }
  int64_t
  next (Gen &g)
  {
    int64_t t;
    if (points.size () && g.coin ())
      t = g.pick (points) + g.pick<int64_t> ({0, 0, 1, -1, S});
    else
      t = base + g.range (0, 10) * S;
    points.push_back (t);
    return t;
  }
};

struct Selections
{
  MS3Selections *p = nullptr;
  ~Selections () { ms3_freeselections (p); }
};

// the list holds exactly these entries
void
same_list (const MS3Selections *l, const std::vector<Entry> &es)
{
  std::multiset<std::string> a, b;
  std::set<std::string> keys;
  for (; l; l = l->next)
  {
    REQUIRE (keys.insert (std::string (l->sidpattern) + fmt (" %d", l->pubversion)).second, "list", "pattern " << quote (l->sidpattern) << " twice");
    for (const MS3SelectTime *t = l->timewindows; t; t = t->next)
      a.insert (std::string (l->sidpattern) + fmt (" %d %lld %lld", l->pubversion, (long long)t->starttime, (long long)t->endtime));
  }
  for (auto &e : es)
    b.insert (e.p.text + fmt (" %d %lld %lld", e.pub, (long long)e.w.from, (long long)e.w.to));
  if (a != b)
  {
    std::string s = "holds:";
    for (auto &x : a)
      s += "\n  " + x;
    s += "\nwant:";
    for (auto &x : b)
      s += "\n  " + x;
    REQUIRE (false, "list", "list " << s);
  }
}

int
queries (Gen &g, const MS3Selections *l, const std::vector<Entry> &es, Clock &clock, const std::vector<std::string> &ids)
{
  int n = 0;
  for (int q = 0; q < 6; q++)
  {
    std::string sid = ids.size () && g.chance (3, 4) ? g.pick (ids) : some_sid (g);
    int64_t a = clock.next (g), b = g.chance (1, 4) ? a : clock.next (g);
    if (b < a)
      std::swap (a, b);
    bool unset = g.chance (1, 12);
    int pub    = (int)g.pick<int64_t> ({1, 2, 3, 255, 0});
    bool want = false, wantunset = false;
    for (auto &e : es)
    {
      want      = want || hits (e, sid, a, b, pub);
      wantunset = wantunset || ((e.pub <= 0 || e.pub == pub) && match (e.p, sid));
    }
    if (unset)
      a = b = NSTUNSET, want = wantunset;
    MS3SelectTime dummy;
    const MS3SelectTime *st = &dummy;
    std::string where = sid + fmt (" v%d ", pub) + (unset ? "any time" : tstr (a) + " - " + tstr (b));
    const MS3Selections *m = ms3_matchselect (l, sid.c_str (), a, b, pub, &st);
    REQUIRE ((m != nullptr) == want, "match", where << (m ? " matches " + quote (m->sidpattern) : std::string (" matches nothing")) << ", want " << (want ? "a match" : "none"));
    REQUIRE ((ms3_matchselect (l, sid.c_str (), a, b, pub, nullptr) != nullptr) == want, "match", where << " without entry wanted");
    if (m)
    {
      n++;
      // the entry named is one that matches
      bool ok = false;
      for (auto &e : es)
        ok = ok || (e.p.text == m->sidpattern && e.pub == m->pubversion && st && e.w.from == st->starttime && e.w.to == st->endtime && (unset ? match (e.p, sid) : hits (e, sid, a, b, pub)));
      REQUIRE (ok, "match-entry", where << " is given entry " << quote (m->sidpattern) << fmt (" %d", m->pubversion) << (st ? " " + tstr (st->starttime) + " - " + tstr (st->endtime) : std::string (" no window")));
    }
    if (!unset)
    {
      MS3Record r;
      memset (&r, 0, sizeof r);
      strcpy (r.sid, sid.c_str ());
      r.starttime  = a;
      r.pubversion = (uint8_t)pub;
      r.samprate   = g.pick<double> ({1, 10, 0, -2});
      r.samplecnt  = g.range (0, 12);
      int64_t e    = msr3_endtime (&r);
      bool w       = false;
      for (auto &x : es)
        w = w || hits (x, sid, a, e, pub);
      REQUIRE ((msr3_matchselect (l, &r, &st) != nullptr) == w, "match-record", where << fmt (" record of %lld samples at %g", (long long)r.samplecnt, r.samprate));
    }
  }
  return n;
}
} // namespace

static void
glob (Gen &g)
{
  std::string s = g.coin () ? some_sid (g) : g.str ("ABab*?[]\\-^", 0, 8);
  Pattern p     = near (g, s, true, 4);
  g.note (quote (p.text) + " on " + quote (s));
  if (p.text.size () > 99)
    DISCARD ();
  Selections l;
  REQUIRE (ms3_addselect (&l.p, p.text.c_str (), NSTUNSET, NSTUNSET, 0) == 0, "add", "cannot add " << quote (p.text));
  bool want = match (p, s);
  REQUIRE ((ms3_matchselect (l.p, s.c_str (), NSTUNSET, NSTUNSET, 1, nullptr) != nullptr) == want, "glob", quote (p.text) << (want ? " does not match " : " matches ") << quote (s));
  // a neighbour
  std::string t = s;
  if (t.size ())
  {
    if (g.coin ())
      t[g.index (t.size ())] = g.pick<char> ({'A', 'Z', '0', '_', '*', '\\'});
    else
      t.erase (g.index (t.size ()), 1);
  }
  else
    t = "A";
  want = match (p, t);
  REQUIRE ((ms3_matchselect (l.p, t.c_str (), NSTUNSET, NSTUNSET, 1, nullptr) != nullptr) == want, "glob", quote (p.text) << (want ? " does not match " : " matches ") << quote (t));
  if (p.text != s)
    g.nontrivial ();
}

static Entry
gen_entry (Gen &g, Clock &clock, const std::vector<std::string> &ids, bool nows)
{
  Entry e;
  e.p   = near (g, ids.size () ? g.pick (ids) : some_sid (g), !nows, 2);
  e.pub = (int)g.pick<int64_t> ({0, 0, 1, 2, 255});
  if (g.chance (2, 3))
    e.w.from = clock.next (g);
  if (g.chance (2, 3))
    e.w.to = clock.next (g);
  if (e.w.from != NSTUNSET && e.w.to != NSTUNSET && e.w.from > e.w.to)
    std::swap (e.w.from, e.w.to);
  return e;
}
// an entry of separate codes
static Entry
gen_codes (Gen &g, Clock &clock, std::vector<std::string> &codes, std::vector<bool> &none)
{
  Entry e = gen_entry (g, clock, {}, true);
  std::string sid = some_sid (g).substr (5);
  std::vector<std::string> v;
  size_t at = 0;
  for (int k = 0; k < 3; k++)
  {
    size_t n = sid.find ('_', at);
    v.push_back (sid.substr (at, n - at));
    at = n + 1;
  }
  v.push_back (sid.substr (at));
  codes.clear ();
  none.assign (4, false);
  Pattern all = literal ("FDSN:");
  for (int k = 0; k < 4; k++)
  {
    Pattern p;
    std::string text;
    if (g.chance (1, 6))
    {
      none[k] = true;
      add_star (p);
      text = "*";
    }
    else if (k == 2 && v[k].empty ())
      text = "--";
    else if (k == 2 && g.chance (1, 12)) // only two hyphens stand for no location
    {
      text = g.pick<const char *> ({"-", "-1", "1-", "---", "--1"});
      p    = literal (text);
    }
    else if (k == 3 && g.chance (2, 3)) // SEED channel, maybe with wildcards
    {
      for (int c = 0; c < 3; c++)
      {
        char ch = g.pick<char> ({'B', 'H', 'Z', '1', '?', '*', 'L'});
        if (v[k].size () == 5 && g.coin ())
          ch = v[k][2 * c];
        if (c)
          add_char (p, '_', false);
        if (ch == '?')
          add_any (p);
        else if (ch == '*')
          add_star (p);
        else
          add_char (p, ch, false);
        text += ch;
      }
    }
    else
    {
      p    = near (g, v[k], false, 1);
      text = p.text;
      // three characters are taken as a SEED channel
      if (k == 3 && p.e.size () == 3 && p.text.size () == 3 && p.text.find ('_') == std::string::npos)
      {
        Pattern q;
        for (int c = 0; c < 3; c++)
        {
          if (c)
            add_char (q, '_', false);
          q.e.push_back (p.e[c]);
          q.text += p.text[c];
        }
        p = q;
      }
      else if (k == 3 && p.text.size () == 3 && p.text.find ('_') == std::string::npos)
        p = literal ("Z_Z_Z"), text = "ZZZ";
    }
    codes.push_back (text);
    if (k)
      add_char (all, '_', false);
    all.e.insert (all.e.end (), p.e.begin (), p.e.end ());
    all.text += p.text;
  }
  e.p = all;
  return e;
}

static void
list (Gen &g)
{
  Clock clock (g);
  std::vector<std::string> ids;
  for (int k = (int)g.range (1, 3); k > 0; k--)
    ids.push_back (some_sid (g));
  std::vector<Entry> es;
  Selections l;
  int n = (int)g.size (0, 8);
  for (int k = 0; k < n; k++)
  {
    Entry e;
    int rv;
    if (es.size () && g.chance (1, 4)) // another window for the same
    {
      e   = g.pick (es);
      e.w = gen_entry (g, clock, ids, false).w;
      rv  = ms3_addselect (&l.p, e.p.text.c_str (), e.w.from, e.w.to, (uint8_t)e.pub);
    }
    else if (g.coin ())
    {
      e = gen_entry (g, clock, ids, false);
      if (e.p.text.size () > 99)
      {
        rv = ms3_addselect (&l.p, e.p.text.c_str (), e.w.from, e.w.to, (uint8_t)e.pub);
        REQUIRE (rv == -1, "add-long", "pattern of " << e.p.text.size () << " characters is taken");
        continue;
      }
      rv = ms3_addselect (&l.p, e.p.text.c_str (), e.w.from, e.w.to, (uint8_t)e.pub);
    }
    else
    {
      std::vector<std::string> c;
      std::vector<bool> none;
      e = gen_codes (g, clock, c, none);
      for (auto &x : c)
        g.note (quote (x) + " ");
      rv = ms3_addselect_comp (&l.p, none[0] ? nullptr : &c[0][0], none[1] ? nullptr : &c[1][0], none[2] ? nullptr : &c[2][0], none[3] ? nullptr : &c[3][0], e.w.from, e.w.to, (uint8_t)e.pub);
      if (e.p.text.size () > 99)
      {
        REQUIRE (rv == -1, "add-long", "pattern of " << e.p.text.size () << " characters is taken");
        continue;
      }
    }
    g.note (quote (e.p.text) + fmt (" v%d ", e.pub) + (e.w.from == NSTUNSET ? "open" : tstr (e.w.from)) + " - " + (e.w.to == NSTUNSET ? "open" : tstr (e.w.to)) + "\n");
    REQUIRE (rv == 0, "add", "cannot add " << quote (e.p.text) << ": " << lg::diag ());
    es.push_back (e);
  }
  same_list (l.p, es);
  int hit = queries (g, l.p, es, clock, ids);
  // printed as it is
  if (l.p)
  {
    lg::out ().clear ();
    ms3_printselections (l.p);
    std::string want;
    for (const MS3Selections *s = l.p; s; s = s->next)
    {
      want += std::string ("Selection: ") + s->sidpattern + fmt ("  pubversion: %d\n", s->pubversion);
      for (const MS3SelectTime *t = s->timewindows; t; t = t->next)
      {
        char a[50] = "No start time", b[50] = "No end time";
        if (t->starttime != NSTUNSET)
          ms_nstime2timestr (t->starttime, a, ISOMONTHDAY_Z, NANO_MICRO_NONE);
        if (t->endtime != NSTUNSET)
          ms_nstime2timestr (t->endtime, b, ISOMONTHDAY_Z, NANO_MICRO_NONE);
        want += fmt ("  %30s  %30s\n", a, b);
      }
    }
    REQUIRE (lg::out () == want, "print", "printed\n" << lg::out () << "want\n" << want);
  }
  if (es.size () > 1 && hit)
    g.nontrivial ();
  ms3_freeselections (l.p);
  l.p = nullptr;
  mem::require_balanced ("list");
}

static std::string
date_text (Gen &g, int64_t &t)
{
  model::Civil c = model::civil (t);
  std::string clock = fmt ("%02d:%02d:%02d", c.hour, c.min, c.sec) + (c.nsec ? fmt (".%09u", c.nsec) : "");
  switch (g.weighted ({4, 1, 1, 2, 1}))
  {
  case 1: return fmt ("%04lld/%02d/%02dT", (long long)c.year, c.month, c.mday) + clock + "Z";
  case 2: return fmt ("%04lld,%03d,", (long long)c.year, c.doy) + clock;
  case 3: // the day only
    t = model::floordiv (t, 86400 * S) * 86400 * S;
    return g.coin () ? fmt ("%04lld-%02d-%02d", (long long)c.year, c.month, c.mday) : fmt ("%04lld,%03d", (long long)c.year, c.doy);
  case 4: return fmt ("%04lld,%03d,", (long long)c.year, c.doy) + clock;
  default: return fmt ("%04lld-%02d-%02dT", (long long)c.year, c.month, c.mday) + clock;
  }
}
static std::string
bad_date (Gen &g)
{
  return g.pick<const char *> ({"2020-13-01", "2020-02-30", "2020-01-01T25:00:00", "2020-01-01T10:61:00", "2020,367", "2020,366,24:00:00x", "2020-01-01x", "2019,366", "2020-01-01T10:00:00.5y", "0000-01-01", "9999-01-01"});
}
static void
file (Gen &g)
{
  Clock clock (g);
  std::vector<std::string> ids;
  for (int k = (int)g.range (1, 3); k > 0; k--)
    ids.push_back (some_sid (g));
  std::vector<Entry> es;
  Selections l;
  if (g.chance (1, 4)) // added to what is there
  {
    Entry e = gen_entry (g, clock, ids, false);
    if (e.p.text.size () > 99)
      DISCARD ();
    REQUIRE (ms3_addselect (&l.p, e.p.text.c_str (), e.w.from, e.w.to, (uint8_t)e.pub) == 0, "add", "cannot add");
    es.push_back (e);
  }
  auto before = es;
  std::string content;
  bool error = false;
  int count = 0, skipped = 0;
  int n = (int)g.size (0, 10);
  std::string nl = g.chance (1, 5) ? "\r\n" : "\n";
  auto sep       = [&] { return std::string (g.pick<const char *> ({" ", "  ", "\t", " \t "})); };
  for (int k = 0; k < n && !error; k++)
  {
    std::string line;
    switch (g.weighted ({5, 5, 2, 2, 1}))
    {
    case 0:
    {
      Entry e = gen_entry (g, clock, ids, false);
      if (e.w.from == NSTUNSET)
        e.w.to = NSTUNSET;
      if (e.w.to == NSTUNSET)
        e.pub = 0;
      // nothing a comment could start with, no code form
      line = e.p.text;
      if (line[0] == '#' || line.size () > 99)
        continue;
      if (e.w.from != NSTUNSET)
        line += sep () + date_text (g, e.w.from);
      if (e.w.to != NSTUNSET)
        line += sep () + date_text (g, e.w.to);
      if (e.w.to != NSTUNSET && g.coin ())
        line += sep () + std::to_string (e.pub);
      else
        e.pub = 0;
      if (e.w.from != NSTUNSET && g.chance (1, 12))
      {
        bool second = e.w.to != NSTUNSET && g.coin ();
        line = e.p.text + sep () + (second ? "2020-01-01" : bad_date (g)) + (second ? sep () + bad_date (g) : "");
        error = true;
      }
      else if (e.w.to != NSTUNSET && g.chance (1, 20))
      {
        line = e.p.text + " 2020-01-01 2020-01-02 " + g.pick<const char *> ({"256", "1000", "99999999999999999999999"});
        error = true;
      }
      else
      {
        es.push_back (e);
        count++;
      }
      break;
    }
    case 1:
    {
      std::vector<std::string> c;
      std::vector<bool> none;
      Entry e = gen_codes (g, clock, c, none);
      if (e.p.text.size () > 99)
        continue;
      for (int q = 0; q < 4; q++)
        line += (q ? sep () : "") + c[q];
      int fields = (int)g.range (4, 7);
      if (fields < 5)
        e.pub = 0;
      if (fields < 6)
        e.w.from = NSTUNSET;
      else if (e.w.from == NSTUNSET)
        e.w.from = clock.next (g);
      if (fields < 7)
        e.w.to = NSTUNSET;
      else if (e.w.to == NSTUNSET)
        e.w.to = clock.next (g);
      if (fields >= 5)
      {
        if (g.chance (1, 4)) // a quality code means nothing
        {
          line += sep () + g.pick<const char *> ({"M", "Q", "R", "*", "?", "1x"});
          e.pub = 0;
        }
        else
          line += sep () + std::to_string (e.pub);
      }
      if (fields >= 6)
        line += sep () + date_text (g, e.w.from);
      if (fields >= 7)
        line += sep () + date_text (g, e.w.to);
      if (fields >= 5 && g.chance (1, 20))
      {
        line = std::string ("* * * * ") + g.pick<const char *> ({"256", "1000", "99999999999999999999999"}) + (fields >= 6 ? " 2020-01-01" : "") + (fields >= 7 ? " 2020-01-02" : "");
        error = true;
      }
      else if (fields >= 6 && g.chance (1, 12))
      {
        line = "* * * * * " + (fields == 6 ? bad_date (g) : "2020-01-01 " + bad_date (g));
        error = true;
      }
      else
      {
        es.push_back (e);
        count++;
      }
      break;
    }
    case 2: line = g.pick<const char *> ({"", "  ", "\t", "#", "# comment", "#* * * *", "  # * 2020-01-01", "#FDSN:*"}); break;
    case 3: // not in any form
      line = g.pick<const char *> ({"* *", "* * *", "* *  2020-01-01", "* 2020", "XX ANMO", "* * * * * 2020", "* * * * * x y", "* * * * * 2020-01-01 x", "* * * * 1 2020-01-01 2020-01-02 x", "a b c d e f g h i j", "* 2020-01-01 *"});
      skipped++;
      break;
    default: // longer than any line that is read
    {
      bool comment = g.coin ();
      line         = comment ? "#" : "XX";
      int len      = (int)g.range (180, 700);
      while ((int)line.size () < len)
        line += g.pick<const char *> ({" *", "  FDSN:*", " 2020-01-01", " * * * *"});
      skipped += !comment;
    }
    }
    if (g.chance (1, 6))
      line = sep () + line;
    if (g.chance (1, 6))
      line += sep ();
    content += line + (k + 1 < n || g.chance (3, 4) ? nl : "");
  }
  g.note (content);
  std::string path = scratch_dir () + "/sel";
  {
    FILE *f = fopen (path.c_str (), "wb");
    REQUIRE (f, "harness", "cannot write");
    fwrite (content.data (), 1, content.size (), f);
    fclose (f);
  }
  lg::diag ().clear ();
  std::string how = path;
  bool missing    = g.chance (1, 40);
  if (missing)
    how = g.coin () ? path + ".none" : scratch_dir ();
  int rv;
  if (!missing && g.chance (1, 4)) // from standard input
  {
    FILE *save = stdin;
    stdin      = fopen (path.c_str (), "rb");
    rv         = ms3_readselectionsfile (&l.p, "-");
    fclose (stdin);
    stdin = save;
  }
  else
    rv = ms3_readselectionsfile (&l.p, how.c_str ());
  unlink (path.c_str ());
  if (missing)
  {
    REQUIRE (rv == -1 && !lg::diag ().empty (), "file-missing", "file that cannot be read gives " << rv << " " << lg::diag ());
    same_list (l.p, before);
    return;
  }
  REQUIRE (rv == (error ? -1 : count), "file-count", "returns " << rv << " want " << (error ? -1 : count) << " " << lg::diag ());
  if (error)
    REQUIRE (!lg::diag ().empty (), "file-error", "no message");
  size_t told = 0;
  for (size_t p = lg::diag ().find ("Skipping"); p != std::string::npos; p = lg::diag ().find ("Skipping", p + 1))
    told++;
  REQUIRE (told == (size_t)skipped, "file-skipped", told << " lines are reported as skipped, want " << skipped << ": " << lg::diag ());
  same_list (l.p, es);
  queries (g, l.p, es, clock, ids);
  if (es.size () > 1)
    g.nontrivial ();
  if (error) // open after an error as documented
    for (int f = 3; f < 64; f++)
    {
      char name[64], to[512];
      snprintf (name, sizeof name, "/proc/self/fd/%d", f);
      ssize_t r = readlink (name, to, sizeof to - 1);
      if (r > 0 && (to[r] = 0, std::string (to).find (path) == 0))
        close (f);
    }
}

static void
reading (Gen &g)
{
  store::Opt o;
  o.maxpieces = 8;
  o.maxn      = 30;
  o.pubs      = true;
  auto recs   = store::gen (g, o);
  Bytes all   = store::join (recs);
  std::vector<std::string> ids;
  for (auto &r : recs)
    ids.push_back (r.sid);
  std::vector<Entry> es;
  Selections l;
  int n = (int)g.range (1, 3);
  bool timewin = g.chance (1, 4);
  Clock clock (g);
  for (auto &r : recs)
  {
    clock.points.push_back (r.start);
    clock.points.push_back (ms_sampletime (r.start, (int64_t)r.s.size () - 1, r.rate));
  }
  if (timewin)
  {
    Entry e;
    e.w = gen_entry (g, clock, ids, false).w;
    add_star (e.p);
    es.push_back (e);
  }
  else
    for (int k = 0; k < n; k++)
    {
      Entry e = gen_entry (g, clock, ids, false);
      if (g.chance (1, 3))
        e.p = Pattern (), add_star (e.p);
      if (e.p.text.size () > 99)
        DISCARD ();
      if (g.coin () && recs.size ())
        e.pub = g.chance (1, 2) ? 0 : g.pick (recs).pub;
      es.push_back (e);
    }
  for (auto &e : es)
  {
    REQUIRE (ms3_addselect (&l.p, e.p.text.c_str (), e.w.from, e.w.to, (uint8_t)e.pub) == 0, "add", "cannot add");
    g.note (quote (e.p.text) + fmt (" v%d ", e.pub) + (e.w.from == NSTUNSET ? "open" : tstr (e.w.from)) + " - " + (e.w.to == NSTUNSET ? "open" : tstr (e.w.to)) + "\n");
  }
  for (auto &r : recs)
    g.note (r.show () + "\n");
  std::vector<const store::Rec *> kept;
  for (auto &r : recs)
  {
    bool h = false;
    int64_t end = ms_sampletime (r.start, (int64_t)r.s.size () - 1, r.rate);
    for (auto &e : es)
      h = h || hits (e, r.sid, r.start, end, r.pub);
    if (h)
      kept.push_back (&r);
  }
  Bytes some;
  for (auto *r : kept)
    some.insert (some.end (), r->bytes.begin (), r->bytes.end ());
  uint32_t flags = 0;
  if (g.chance (3, 4))
    flags |= MSF_UNPACKDATA;
  if (g.coin ())
    flags |= MSF_VALIDATECRC;
  bool nob1000 = false;
  for (auto &r : recs)
    nob1000 = nob1000 || !r.b1000;
  // of the records alone
  MS3TraceList *want = nullptr, *got = nullptr;
  struct Free
  {
    MS3TraceList **a;
    ~Free ()
    {
      if (*a)
        mstl3_free (a, 1);
    }
  } fa{&want}, fb{&got};
  int8_t split = g.coin ();
  std::string path = scratch_dir () + "/data", path2 = scratch_dir () + "/kept";
  store::write_file (path, all);
  if (!nob1000)
  {
    Buf b (some, 0), c (all, 0);
    int64_t w = mstl3_readbuffer (&want, (const char *)b.p, b.n, split, flags, nullptr, 0);
    REQUIRE (w == (int64_t)kept.size (), "read-plain", "reading the kept " << kept.size () << " records gives " << w);
    if (timewin)
    {
      int rv = ms3_readtracelist_timewin (&got, path.c_str (), nullptr, es[0].w.from, es[0].w.to, split, flags, 0);
      REQUIRE (rv == MS_NOERROR, "read-window", "returns " << rv << " " << lg::diag ());
    }
    else if (g.coin ())
    {
      int64_t rv = mstl3_readbuffer_selection (&got, (const char *)c.p, c.n, split, flags, nullptr, l.p, 0);
      REQUIRE (rv == (int64_t)kept.size (), "read-buffer", "returns " << rv << " want " << kept.size () << " " << lg::diag ());
    }
    else
    {
      int rv = ms3_readtracelist_selection (&got, path.c_str (), nullptr, l.p, split, flags, 0);
      REQUIRE (rv == MS_NOERROR, "read-file", "returns " << rv << " " << lg::diag ());
    }
    std::string why;
    if (kept.size () || got)
      REQUIRE (tl::same (tl::read (got), tl::read (want), why), "read-list", "with selections the list differs: " << why);
  }
  // record by record
  MS3FileParam *fp = nullptr;
  MS3Record *msr   = nullptr;
  size_t k         = 0;
  int rv;
  while ((rv = ms3_readmsr_selection (&fp, &msr, path.c_str (), flags, l.p, 0)) == MS_NOERROR)
  {
    REQUIRE (k < kept.size (), "read-records", "more than " << kept.size () << " records: " << msr->sid << " " << tstr (msr->starttime));
    REQUIRE ((size_t)msr->reclen == kept[k]->bytes.size () && !memcmp (msr->record, kept[k]->bytes.data (), kept[k]->bytes.size ()), "read-records", "record " << k << " is " << msr->sid << " " << tstr (msr->starttime) << " want " << kept[k]->show ());
    if (flags & MSF_UNPACKDATA)
    {
      REQUIRE (msr->numsamples == (int64_t)kept[k]->s.size (), "read-samples", "record " << k << " has " << msr->numsamples << " samples");
      REQUIRE (kept[k]->s.type == msr->sampletype && kept[k]->s.same (msr->datasamples, (size_t)msr->numsamples), "read-samples", "record " << k << " has other samples than " << kept[k]->show ());
    }
    k++;
  }
  ms3_readmsr_selection (&fp, &msr, nullptr, 0, nullptr, 0);
  unlink (path.c_str ());
  REQUIRE (rv == MS_ENDOFFILE, "read-records", "reading ends with " << rv << " " << lg::diag ());
  REQUIRE (k == kept.size (), "read-records", k << " records, want " << kept.size ());
  if (kept.size () && kept.size () < recs.size ())
    g.nontrivial ();
}

namespace pbt {
Property property = {
    "P13",
    "A case is a pattern of plain and escaped characters, wildcards and sets against identifiers near it; a list of entries added by pattern and by codes, printed and queried at times on and next to the window limits; "
    "a selection file of lines in both forms, comments, lines in no form, wrong dates and versions and long lines; or a collection of records read with selections record by record, from a file and from a buffer. "
    "Non-trivial: the pattern is not the plain identifier, several entries with a match, several entries in the file, some records kept and some not.",
    {{"glob", 6, glob}, {"list", 5, list}, {"file", 4, file}, {"reading", 1, reading}},
    std_reset,
    nullptr};
}
