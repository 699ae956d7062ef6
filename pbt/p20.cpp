// P20: log messages are delivered once, in order, complete and bounded
#include "gen.hpp"
#include <deque>
#include <fcntl.h>
#include <thread>
#include <unistd.h>
using namespace pbt;

namespace {
const size_t LIMIT = MAX_LOG_MSG_LENGTH - 1;

// ------------------------------------------------------------ where messages go
struct Got
{
  int sink;
  std::string text;
};
thread_local std::vector<Got> *t_got;
thread_local int t_reenter; // messages to log from within the print function
thread_local MSLogParam *t_reenter_to;
template <int N>
void
sink (const char *m)
{
  t_got->push_back ({N, m});
  if (t_reenter > 0)
  {
    t_reenter--;
    ms_rlog_l (t_reenter_to, "inner", 2, "%s", "logged while emitting");
  }
}
typedef void (*Print) (const char *);
const Print sinks[] = {sink<0>, sink<1>, sink<2>, sink<3>, sink<4>, sink<5>};

// ------------------------------------------------------------ model
struct Entry
{
  int level;
  std::string function; // up to what is kept of it
  std::string text;
  bool cut; // did not fit
};
struct Model
{
  MSLogParam *p = nullptr; // NULL: those of the thread
  int out = -1, diag = -1;
  std::string logprefix, errprefix = "Error: ";
  int max = 0;
  std::deque<Entry> reg;
};

struct World
{
  std::vector<Model> m;
  std::vector<MSLogParam> params; // of the caller
  std::deque<std::string> keep;   // prefixes have to stay
  std::vector<Got> got;
};

std::string
show_text (const std::string &s)
{
  return s.size () > 80 ? fmt ("(%zu) ", s.size ()) + quote (s.substr (0, 70), 400) : quote (s, 400);
}

std::string
gen_text (Gen &g)
{
  size_t n;
  switch (g.raw (5))
  {
  case 0: n = g.raw (10); break;
  case 1: n = (size_t)g.range (150, 170); break;
  case 2: n = (size_t)g.range (190, 205); break;
  case 3: n = (size_t)g.range (200, 1000); break;
  default: n = (size_t)g.size (0, 60); break;
  }
  std::string s;
  if (g.chance (1, 4))
    s = g.str ("abc %sdn\n\t\"\\", n, n);
  else
  {
    static unsigned count = 0;
    s = fmt ("message %u ", ++count);
    while (s.size () < n)
      s += (char)('a' + s.size () % 26);
    s.resize (n);
  }
  if (s.size () && g.chance (1, 3))
    s.back () = '\n';
  if (s.size () > LIMIT && g.chance (1, 6))
    s[LIMIT - 1] = '\n';
  return s;
}

// one message; what it should be, and what the call returns
struct Call
{
  int level;
  std::string function;
  bool nofunction;
  int shape;
  std::string a;
  int i;
  double d;
  std::string text;
};
Call
gen_call (Gen &g)
{
  Call c;
  c.level      = g.pick<int> ({0, 1, 2, 2, 1, 2, 3, 1, 0, 100, -1});
  c.nofunction = g.chance (1, 8);
  c.function   = g.chance (1, 6) ? g.str ("function_", 0, 60) : g.pick<std::string> ({"main", "ms_function_of_usual_length", "f", ""});
  c.shape      = (int)g.weighted ({6, 2, 1, 1, 1});
  c.a          = gen_text (g);
  c.i          = (int)g.range (-100000, 100000);
  c.d          = (double)g.range (-1000, 1000) / 8;
  switch (c.shape)
  {
  case 0: c.text = c.a; break;
  case 1: c.text = c.a + ": " + std::to_string (c.i) + " " + fmt ("%g", c.d) + "\n"; break;
  case 2: c.text = "plain text\n"; break;
  case 3: c.text = ""; break;
  default: c.text = "100% " + c.a.substr (0, 5); break;
  }
  return c;
}
int
send (MSLogParam *p, bool byglobal, const Call &c)
{
  const char *fn = c.nofunction ? nullptr : c.function.c_str ();
#define SEND(...) (byglobal ? ms_rlog (fn, c.level, __VA_ARGS__) : ms_rlog_l (p, fn, c.level, __VA_ARGS__))
  switch (c.shape)
  {
  case 0: return SEND ("%s", c.a.c_str ());
  case 1: return SEND ("%s: %d %g\n", c.a.c_str (), c.i, c.d);
  case 2: return SEND ("plain text\n");
  case 3: return SEND ("%s", "");
  default: return SEND ("100%% %.5s", c.a.c_str ());
  }
#undef SEND
}

void
model_log (Model &m, const Call &c, std::vector<Got> &want, int &ret, bool &retknown)
{
  ret      = 0;
  retknown = true;
  if (c.level < 0)
  {
    retknown = false;
    return;
  }
  std::string full = (c.level >= 2 ? m.errprefix : m.logprefix) + c.text, text = full.substr (0, LIMIT);
  bool cut = full.size () > LIMIT;
  if (cut)
    retknown = false; // as formatted or as delivered
  if (c.level >= 1 && m.max > 0)
  {
    if (!text.empty () && text.back () == '\n' && !cut)
      text.pop_back ();
    m.reg.push_back ({c.level, c.nofunction ? "" : c.function, text, cut});
    while ((int)m.reg.size () > m.max)
      m.reg.pop_front ();
  }
  else
    want.push_back ({c.level >= 1 ? m.diag : m.out, text});
  ret = (int)text.size ();
}

bool
prefix_of (const std::string &a, const std::string &b)
{
  return a.size () <= b.size () && b.compare (0, a.size (), a) == 0;
}

// is this what is printed of a retained message
bool
emitted_ok (const std::string &got, const Entry &e, bool context)
{
  auto one = [&] (const std::string &text) {
    if (!context || e.function.empty ())
      return got == text;
    // the function name, perhaps shortened, then the message as far as there is room
    size_t p = got.find ("() ");
    for (; p != std::string::npos; p = got.find ("() ", p + 1))
    {
      std::string fn = got.substr (0, p), rest = got.substr (p + 3);
      if (prefix_of (fn, e.function) && (fn == e.function || fn.size () >= 29) && prefix_of (rest, text) && (rest == text || rest.size () >= LIMIT - 35))
        return true;
    }
    return false;
  };
  if (got.size () > LIMIT)
    return false;
  if (one (e.text))
    return true;
  // a message that did not fit may end where its last character was a newline
  return e.cut && e.text.size () && e.text.back () == '\n' && one (e.text.substr (0, e.text.size () - 1));
}

// the registry of parameters that can be looked at
void
check_registry (const Model &m)
{
  if (!m.p)
    return;
  const MSLogRegistry &r = m.p->registry;
  std::vector<const MSLogEntry *> es;
  for (const MSLogEntry *e = r.messages; e; e = e->next)
  {
    es.push_back (e);
    REQUIRE (es.size () <= m.reg.size (), "registry", "the registry holds more than " << m.reg.size () << " messages");
  }
  REQUIRE (es.size () == m.reg.size (), "registry", "the registry holds " << es.size () << " messages, want " << m.reg.size ());
  REQUIRE (r.messagecnt == (int)es.size (), "registry-count", "messagecnt is " << r.messagecnt << " of " << es.size () << " messages");
  for (size_t k = 0; k < es.size (); k++)
  {
    const Entry &w = m.reg[m.reg.size () - 1 - k];
    REQUIRE (strnlen (es[k]->message, sizeof es[k]->message) < sizeof es[k]->message && strnlen (es[k]->function, sizeof es[k]->function) < sizeof es[k]->function, "registry", "an entry is not terminated");
    std::string fn = es[k]->function;
    REQUIRE (es[k]->level == w.level && (fn == w.function || (prefix_of (fn, w.function) && fn.size () == sizeof es[k]->function - 1)) && emitted_ok (es[k]->message, w, false), "registry",
             "message " << k << " from the end is level " << es[k]->level << " " << quote (fn) << " " << show_text (es[k]->message) << ", want level " << w.level << " " << quote (w.function) << " " << show_text (w.text));
  }
}

void
check_got (World &w, const std::vector<Got> &want, const char *what)
{
  for (size_t k = 0; k < w.got.size () || k < want.size (); k++)
  {
    REQUIRE (k < w.got.size (), "lost", what << ": " << w.got.size () << " messages, want " << want.size () << ", not " << show_text (want[k].text));
    REQUIRE (k < want.size (), "extra", what << ": " << w.got.size () << " messages, want " << want.size () << ", too many: " << show_text (w.got[k].text));
    REQUIRE (w.got[k].text == want[k].text, "text", what << ": message " << show_text (w.got[k].text) << ", want " << show_text (want[k].text));
    REQUIRE (w.got[k].sink == want[k].sink, "output", what << ": message " << show_text (want[k].text) << " goes to output " << w.got[k].sink << ", want " << want[k].sink);
  }
  w.got.clear ();
}

int
gen_max (Gen &g)
{
  return g.pick<int> ({20, 3, 5, 0, 2, 1, -1, -1, INT_MAX, 4, 200});
}

void
do_init (Gen &g, World &w, Model &m, bool create)
{
  int out = g.chance (2, 3) || create ? (int)g.raw (6) : -1, diag = g.chance (2, 3) || create ? (int)g.raw (6) : -1, max = gen_max (g);
  auto prefix = [&] () -> const char * {
    switch (g.weighted ({4, 4, 4, 2}))
    {
    case 0: return nullptr;
    case 1: w.keep.push_back (g.pick<std::string> ({"", "log: ", "E: ", "%s "})); break;
    case 2: w.keep.push_back (g.str ("prefix", 1, 30)); break;
    default: w.keep.push_back (std::string (g.pick<size_t> ({1, 50, 150, 197, 198, 199, 150, 20, 200, 500}), 'p')); break;
    }
    return w.keep.back ().c_str ();
  };
  const char *lp = prefix (), *ep = prefix ();
  g.note (fmt ("init out=%d diag=%d max=%d logprefix=", out, diag, max) + (lp ? show_text (lp) : "-") + " errprefix=" + (ep ? show_text (ep) : "-") + "\n");
  Model before = m;
  if (out >= 0)
    m.out = out;
  if (diag >= 0)
    m.diag = diag;
  int toolong = 0;
  if (lp && strlen (lp) >= MAX_LOG_MSG_LENGTH)
    toolong++;
  else if (lp)
    m.logprefix = lp;
  if (ep && strlen (ep) >= MAX_LOG_MSG_LENGTH)
    toolong++;
  else if (ep)
    m.errprefix = ep;
  if (max >= 0)
    m.max = max;
  // complaining about a prefix uses settings from before or after: not told apart
  if (toolong && (create || before.max != m.max || before.max > 0))
    DISCARD ();
  Print po = out >= 0 ? sinks[out] : nullptr, pd = diag >= 0 ? sinks[diag] : nullptr;
  if (create)
  {
    m.p = ms_rloginit_l (nullptr, po, lp, pd, ep, max);
    REQUIRE (m.p, "init", "ms_rloginit_l fails");
  }
  else if (m.p)
  {
    MSLogParam *r = ms_rloginit_l (m.p, po, lp, pd, ep, max);
    REQUIRE (r == m.p, "init", "ms_rloginit_l gives another address");
  }
  else
    ms_rloginit (po, lp, pd, ep, max);
  if (toolong)
  {
    g.label ("prefix too long");
    REQUIRE ((int)w.got.size () == toolong, "prefix-error", w.got.size () << " messages about " << toolong << " prefixes that are too long");
    for (auto &x : w.got)
      REQUIRE (x.sink == before.diag || x.sink == m.diag, "prefix-error", "the message about a prefix goes to output " << x.sink);
    w.got.clear ();
  }
  check_got (w, {}, "init");
}

void
do_log (Gen &g, World &w, Model &m)
{
  Call c = gen_call (g);
  g.note (fmt ("log level %d ", c.level) + (c.nofunction ? "-" : quote (c.function)) + " " + show_text (c.text) + "\n");
  std::vector<Got> want;
  int ret;
  bool known;
  size_t before = m.reg.size ();
  model_log (m, c, want, ret, known);
  int rv = send (m.p, !m.p && g.coin (), c);
  if (c.level >= 0)
    REQUIRE (known ? rv == ret : rv >= ret, "return", "logging returns " << rv << ", want " << (known ? "" : "at least ") << ret);
  check_got (w, want, "log");
  if (m.reg.size () == before && m.max > 0 && c.level >= 1)
    g.label ("oldest message dropped");
  if (c.text.size () > LIMIT)
    g.label ("message above the limit");
}

void
do_emit (Gen &g, World &w, Model &m)
{
  int count    = g.pick<int> ({0, 0, 1, 2, 3, 100, 127, 128, 255, 256});
  bool context = g.coin ();
  g.note (fmt ("emit %d%s\n", count, context ? " with context" : ""));
  size_t n = count ? std::min<size_t> (count, m.reg.size ()) : m.reg.size ();
  std::vector<Entry> es (m.reg.end () - n, m.reg.end ());
  m.reg.erase (m.reg.end () - n, m.reg.end ());
  bool reenter = n && m.max > 0 && g.chance (1, 6);
  t_reenter    = reenter ? 1 : 0;
  t_reenter_to = m.p;
  int rv       = ms_rlog_emit (m.p, count, context ? g.pick<int> ({1, -1, 256}) : 0);
  t_reenter    = 0;
  if (reenter)
  {
    g.label ("logged while emitting");
    Call c;
    c.level      = 2;
    c.function   = "inner";
    c.nofunction = false;
    c.shape      = 0;
    c.text       = "logged while emitting";
    std::vector<Got> none;
    int ret;
    bool known;
    model_log (m, c, none, ret, known);
  }
  REQUIRE (rv == (int)n, "emit-return", "ms_rlog_emit returns " << rv << ", want " << n);
  REQUIRE (w.got.size () == n, "emit-count", w.got.size () << " messages are emitted, want " << n);
  for (size_t k = 0; k < n; k++)
  {
    REQUIRE (w.got[k].sink == m.diag, "output", "message " << k << " is emitted to output " << w.got[k].sink << ", want " << m.diag);
    REQUIRE (emitted_ok (w.got[k].text, es[k], context), "emit-text", "message " << k << " of " << n << " is emitted as " << show_text (w.got[k].text) << ", want " << (context ? quote (es[k].function) + " " : "") << show_text (es[k].text));
  }
  w.got.clear ();
  if (n > 1)
    g.nontrivial ();
}

void
do_free (Gen &g, World &w, Model &m)
{
  g.note ("free\n");
  int rv = ms_rlog_free (m.p);
  REQUIRE (rv == (int)m.reg.size (), "free-return", "ms_rlog_free returns " << rv << ", want " << m.reg.size ());
  if (m.reg.size () > 1)
    g.nontrivial ();
  m.reg.clear ();
  check_got (w, {}, "free");
}

void
finish (World &w)
{
  for (auto &m : w.m)
    ms_rlog_free (m.p);
  if (w.m.size () > 3)
    libmseed_memory.free (w.m[3].p);
}

// many short messages
void
do_burst (Gen &g, World &w, Model &m)
{
  int n = (int)g.range (100, 300);
  Call c;
  c.level      = (int)g.range (1, 2);
  c.nofunction = false;
  c.function   = "burst";
  c.shape      = 0;
  g.note (fmt ("burst of %d at level %d\n", n, c.level));
  std::vector<Got> want;
  for (int k = 0; k < n; k++)
  {
    c.a = c.text = "number " + std::to_string (k);
    int ret;
    bool known;
    model_log (m, c, want, ret, known);
    int rv = send (m.p, false, c);
    REQUIRE (!known || rv == ret, "return", "logging returns " << rv << ", want " << ret);
  }
  check_got (w, want, "burst");
  g.label ("burst of messages");
}

// any history of several parameters
void
facet_history (Gen &g)
{
  World w;
  t_got = &w.got;
  ms_rloginit (sinks[0], "", sinks[1], "Error: ", 0);
  w.params.assign (2, MSLogParam MSLogParam_INITIALIZER);
  for (int k = 0; k < 3; k++)
  {
    Model m;
    if (k)
    {
      m.p = &w.params[k - 1];
      m.max = gen_max (g);
      ms_rloginit_l (m.p, sinks[2 * k], nullptr, sinks[2 * k + 1], nullptr, m.max);
      m.max = std::max (m.max, 0);
    }
    m.out  = 2 * k;
    m.diag = 2 * k + 1;
    w.m.push_back (m);
  }
  if (g.chance (1, 3))
  {
    Model m;
    g.note ("new: ");
    do_init (g, w, m, true);
    w.m.push_back (m);
  }
  struct Fin
  {
    World &w;
    ~Fin () { finish (w); }
  } fin{w};
  size_t n  = (size_t)g.range (1, 40);
  int which = (int)g.raw (w.m.size ());
  for (size_t k = 0; k < n; k++)
  {
    if (g.chance (1, 8))
      which = (int)g.raw (w.m.size ());
    Model &m = w.m[which];
    g.note (fmt ("[%d] ", which));
    switch (g.weighted ({64, 12, 12, 4, 1}))
    {
    case 0: do_log (g, w, m); break;
    case 1: do_emit (g, w, m); break;
    case 2: do_init (g, w, m, false); break;
    case 3: do_free (g, w, m); break;
    default: do_burst (g, w, m); break;
    }
    for (auto &x : w.m)
      check_registry (x);
  }
  // what is left in the parameters of the thread
  for (auto &m : w.m)
    if (!m.p)
    {
      size_t n = m.reg.size ();
      int rv   = ms_rlog_emit (nullptr, 0, 0);
      REQUIRE (rv == (int)n && w.got.size () == n, "emit-count", rv << " returned, " << w.got.size () << " messages are emitted at the end, want " << n);
      for (size_t k = 0; k < n; k++)
        REQUIRE (w.got[k].sink == m.diag && emitted_ok (w.got[k].text, m.reg[k], false), "emit-text", "message " << k << " of " << n << " is emitted as " << show_text (w.got[k].text) << ", want " << show_text (m.reg[k].text));
      m.reg.clear ();
      w.got.clear ();
    }
  size_t live = 0;
  for (auto &m : w.m)
    live += m.reg.size ();
  if (w.m.size () > 3)
    live++;
  REQUIRE (mem::live () == live, "memory-leak", mem::live () << " allocations, want " << live << " messages retained");
  finish (w);
  w.m.clear ();
  mem::require_balanced ("logging");
}

// messages that cannot be formatted
void
facet_format_error (Gen &g)
{
  World w;
  t_got = &w.got;
  Model m;
  int max = g.pick<int> ({0, 3}), level = (int)g.raw (3);
  MSLogParam p = MSLogParam_INITIALIZER;
  m.p          = &p;
  w.keep.push_back (g.str ("prefix", 0, 5));
  ms_rloginit_l (&p, sinks[0], w.keep[0].c_str (), sinks[1], w.keep[0].c_str (), max);
  int n = (int)g.range (0, 4);
  for (int k = 0; k < n; k++)
    ms_rlog_l (&p, "f", level, "%d\n", k);
  w.got.clear ();
  int rv;
  g.note (fmt ("level %d max %d\n", level, max));
  static const wchar_t bad[] = {0x7fffffff, 0};
  if (g.coin ())
    rv = ms_rlog_l (&p, "f", level, "%ls", bad);
  else
    rv = ms_rlog_l (&p, "f", level, "%d %s %ls\n", 5, "text", bad);
  struct Fin
  {
    MSLogParam *p;
    ~Fin () { ms_rlog_free (p); }
  } fin{&p};
  REQUIRE (rv < 0, "format-error", "a message that cannot be formatted gives " << rv);
  w.got.clear ();
  int left = 0;
  for (MSLogEntry *e = p.registry.messages; e; e = e->next)
    left++;
  REQUIRE (p.registry.messagecnt == left && left <= max, "registry-count", "messagecnt is " << p.registry.messagecnt << " of " << left);
  ms_rlog_free (&p);
  mem::require_balanced ("logging");
  g.nontrivial ();
}

// without functions messages go to standard output and standard error
struct Redirect
{
  int o, e;
  Redirect (const std::string &of, const std::string &ef)
  {
    fflush (stdout);
    fflush (stderr);
    o     = dup (1);
    e     = dup (2);
    int a = open (of.c_str (), O_CREAT | O_TRUNC | O_WRONLY, 0600), b = open (ef.c_str (), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dup2 (a, 1);
    dup2 (b, 2);
    close (a);
    close (b);
  }
  ~Redirect ()
  {
    fflush (stdout);
    fflush (stderr);
    dup2 (o, 1);
    dup2 (e, 2);
    close (o);
    close (e);
  }
};
std::string
slurp (const std::string &p)
{
  std::string s;
  FILE *f = fopen (p.c_str (), "rb");
  char b[4096];
  size_t n;
  while (f && (n = fread (b, 1, sizeof b, f)) > 0)
    s.append (b, n);
  if (f)
    fclose (f);
  return s;
}
void
facet_default (Gen &g)
{
  MSLogParam p = MSLogParam_INITIALIZER;
  Model m;
  m.p   = &p;
  m.max = g.pick<int> ({0, 0, 1, 3});
  ms_rloginit_l (&p, nullptr, nullptr, nullptr, nullptr, m.max);
  std::string of = scratch_dir () + "/o", ef = scratch_dir () + "/e", out, err;
  size_t n = g.size (1, 8);
  std::vector<Call> cs;
  for (size_t k = 0; k < n; k++)
  {
    cs.push_back (gen_call (g));
    g.note (fmt ("level %d ", cs.back ().level) + show_text (cs.back ().text) + "\n");
    std::vector<Got> want;
    int ret;
    bool known;
    model_log (m, cs.back (), want, ret, known);
    for (auto &x : want)
      (cs.back ().level >= 1 ? err : out) += x.text;
  }
  for (auto &e : m.reg)
  {
    if (e.cut && e.text.back () == '\n')
      DISCARD ();
    err += e.text + "\n";
  }
  {
    Redirect r (of, ef);
    for (auto &c : cs)
      send (&p, false, c);
    ms_rlog_emit (&p, 0, 0);
  }
  REQUIRE (slurp (of) == out, "standard-output", "standard output has " << quote (slurp (of), 600) << ", want " << quote (out, 600));
  REQUIRE (slurp (ef) == err, "standard-error", "standard error has " << quote (slurp (ef), 600) << ", want " << quote (err, 600));
  mem::require_balanced ("logging");
  if (n > 1)
    g.nontrivial ();
}

// every thread has parameters of its own
void
facet_threads (Gen &g)
{
  struct Job
  {
    Model m;
    std::vector<Call> cs;
    std::vector<Got> want, got;
    bool configure;
    int emitted = 0, freed = 0;
    size_t retained = 0;
  };
  libmseed_memory.malloc  = malloc; // the table is for one thread
  libmseed_memory.realloc = realloc;
  libmseed_memory.free    = free;
  struct Fin
  {
    ~Fin () { mem::reset (); }
  } fin;
  std::vector<Job> js (2 + g.raw (3));
  std::deque<std::string> keep;
  for (auto &j : js)
  {
    j.m.out  = (int)g.raw (6);
    j.m.diag = (int)g.raw (6);
    j.m.max  = g.pick<int> ({0, 0, 2, 10});
    keep.push_back (g.str ("lp", 0, 4));
    j.m.logprefix = keep.back ();
    keep.push_back (g.str ("ep", 0, 4));
    j.m.errprefix = keep.back ();
    size_t n      = g.size (1, 30);
    for (size_t k = 0; k < n; k++)
      j.cs.push_back (gen_call (g));
    int ret;
    bool known;
    for (auto &c : j.cs)
      model_log (j.m, c, j.want, ret, known);
    j.retained = j.m.reg.size ();
    for (auto &e : j.m.reg)
    {
      if (e.cut && e.text.back () == '\n')
        DISCARD ();
      j.want.push_back ({j.m.diag, e.text});
    }
    g.note (fmt ("thread: out %d diag %d max %d prefixes ", j.m.out, j.m.diag, j.m.max) + j.m.logprefix + " " + j.m.errprefix + fmt (" %zu messages\n", n));
  }
  std::vector<Got> mine;
  t_got = &mine;
  ms_rloginit (sinks[0], "own ", sinks[1], "own ", 5);
  ms_log (2, "mine\n");
  std::vector<std::thread> ts;
  for (auto &j : js)
    ts.emplace_back ([&j] () {
      t_got = &j.got;
      ms_rloginit (sinks[j.m.out], j.m.logprefix.c_str (), sinks[j.m.diag], j.m.errprefix.c_str (), j.m.max);
      for (auto &c : j.cs)
        send (nullptr, true, c);
      j.emitted = ms_rlog_emit (nullptr, 0, 0);
      j.freed   = ms_rlog_free (nullptr);
    });
  for (auto &t : ts)
    t.join ();
  int left = ms_rlog_emit (nullptr, 0, 0);
  REQUIRE (left == 1 && mine.size () == 1 && mine[0].text == "own mine" && mine[0].sink == 1, "threads", "other threads changed the messages of this one: " << left << " emitted");
  for (size_t k = 0; k < js.size (); k++)
  {
    World w;
    w.got = js[k].got;
    g.note (fmt ("thread %zu\n", k));
    check_got (w, js[k].want, "thread");
    REQUIRE (js[k].freed == 0, "threads", "messages are left");
  }
  g.nontrivial ();
}

void
reset ()
{
  std_reset ();
  static std::vector<Got> none;
  t_got     = &none;
  t_reenter = 0;
}
} // namespace

namespace pbt {
Property property = {
    "P20",
    "A case is a history of up to 40 steps (set up, log a message of any length, level and function name, emit some or all retained messages, free them) on the parameters of the thread, two of the caller and one of the library; messages that cannot be formatted; default outputs; or several threads. "
    "It is non-trivial if at least two retained messages are emitted or freed at once, or for the other kinds if at least two messages are logged.",
    {{"history", 92, facet_history}, {"format-error", 3, facet_format_error}, {"default", 3, facet_default}, {"threads", 2, facet_threads}},
    reset,
    nullptr};
}
