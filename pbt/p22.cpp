// P22: reading from a URL gives what reading the same bytes from a file gives
#include "streams.hpp"
#include "http.hpp"
#include "cli.hpp"
using namespace pbt;
using namespace files;
using http::Answer;

// the library sleeps 100 ms where there is nothing to wait for yet: not that long here
extern "C" int
nanosleep (const struct timespec *t, struct timespec *)
{
  struct timespec s = {0, t->tv_sec || t->tv_nsec > 200000 ? 200000 : t->tv_nsec};
  clock_nanosleep (CLOCK_MONOTONIC, 0, &s, nullptr);
  return 0;
}

namespace {
void
on_alarm (int)
{
  static const char m[] = "\nCASE-HANG: no end of waiting for the network\n";
  ssize_t r = write (2, m, sizeof m - 1);
  (void)r;
  _exit (78);
}
// per case: a fresh server and global state, a limit on waiting
struct Net
{
  http::Server &s;
  Net () : s (http::Server::get ())
  {
    signal (SIGALRM, on_alarm);
    alarm (50);
    s.reset ();
    ms3_url_freeheaders ();
  }
  ~Net ()
  {
    ms3_url_freeheaders ();
    s.reset ();
    alarm (0);
  }
};

// how the answer is sent
Answer
gen_answer (Gen &g, const Bytes &body)
{
  Answer a;
  a.body    = body;
  a.framing = (Answer::Framing)g.weighted ({3, 2, 1});
  a.ranges  = g.chance (2, 3) ? Answer::HONOUR : Answer::IGNORE;
  a.spell   = (int)g.raw (3);
  int n     = (int)g.range (0, 3);
  for (int k = 0; k < n; k++)
    a.pieces.push_back ((size_t)g.pick<int64_t> ({1 + (int64_t)body.size () / 3, g.range (1, 100), g.range (100, 5000), 16384, 16385, 40}));
  // not too many
  size_t least = body.size () / 200 + 1;
  for (auto &p : a.pieces)
    p = std::max (p, least);
  if (g.chance (1, 8))
    a.pause = (int)g.range (1, 3);
  if (g.chance (1, 3))
    a.extra += "Content-Type: application/octet-stream\r\n";
  if (g.chance (1, 6))
    a.extra += "X-Content-Range: bytes 3-40/99\r\n";
  if (g.chance (1, 6))
    a.extra += "Content-Ranges: bytes 64-127/128\r\n";
  if (g.chance (1, 3))
    a.total = "*";
  if (a.framing == Answer::CHUNKED && !body.empty ())
    switch (g.raw (5))
    {
    case 0: a.trailer = "X-Sum: 17\r\n"; break;
    case 1: a.trailer = "Content-Range: bytes 64-127/256\r\n"; break;
    case 2: a.trailer = fmt ("Content-Range: bytes %zu-%zu/%zu\r\n", body.size () / 3, body.size () / 2, body.size ()); break;
    default: break;
    }
  return a;
}
std::string
show (const Answer &a)
{
  std::string s = fmt ("answer %d with %zu bytes %s ranges %s", a.code, a.body.size (), a.framing == Answer::LENGTH ? "by length" : a.framing == Answer::CHUNKED ? "in chunks" : "until closed", a.ranges == Answer::HONOUR ? "honoured" : "ignored") + (a.stop != SIZE_MAX ? fmt (" breaking off after %zu", a.stop) : "") + (a.location.empty () ? "" : " to " + a.location) + fmt (" pieces");
  for (auto p : a.pieces)
    s += fmt (" %zu", p);
  return s + (a.extra.empty () ? "" : " headers " + quote (a.extra)) + (a.trailer.empty () ? "" : " trailer " + quote (a.trailer)) + "\n";
}
// some way to it
std::string
publish (Gen &g, Net &net, const std::string &path, const Answer &a)
{
  std::string url = net.s.add (path, a);
  int hops        = g.chance (1, 8) ? (int)g.range (1, 3) : 0;
  for (int k = 0; k < hops; k++)
  {
    Answer r;
    r.code     = (int)g.pick<int64_t> ({301, 302, 303, 307, 308});
    r.spell    = (int)g.raw (3);
    r.location = g.coin () ? url : url.substr (url.find ('/', 7));
    url        = net.s.add (path + fmt ("/hop%d", k), r);
  }
  if (hops)
    g.label ("redirected");
  return url;
}
std::string
range_text (Gen &g, int64_t start, int64_t end)
{
  std::string t = "@";
  if (start || !end || g.coin ())
    t += std::to_string (start);
  if (end)
    t += "-" + std::to_string (end);
  else if (g.chance (1, 3))
    t += "-";
  return t;
}
// what is read by range from a server
Want
expect_url (const File &f, const Answer &a, Stream &s)
{
  int64_t n = (int64_t)f.bytes.size (), end = s.end;
  if (end && end < s.start) // no range
    DISCARD ();
  // where a record without blockette 1000 ends is known from what follows it
  if (end)
    for (auto &it : f.items)
      if (it.kind == Item::RECORD && !it.rec.b1000 && (int64_t)it.off <= end && end < (int64_t)(it.off + it.bytes.size ()) + 64)
        DISCARD ();
  bool asked = s.start > 0 || s.end > 0;
  bool cut = asked && a.ranges == Answer::HONOUR && n > 0 && s.start < n;
  if (cut)
    end = end ? std::min (end, n - 1) : n - 1;
  s.bounded = end;
  Want w    = expect (f, s.flags, s.start, end, s.sel, cut);
  if (asked && a.ranges == Answer::HONOUR && s.start >= n)
  {
    w.codes  = {MS_GENERROR};
    w.endoff = SIZE_MAX; // nowhere
  }
  return w;
}

void
open_url (Gen &g, Net &net, Stream &s, const File &f, const Answer &a, const std::string &path, bool canglobal)
{
  s.f     = &f;
  s.flags = (g.coin () ? MSF_UNPACKDATA : 0) | (g.coin () ? MSF_VALIDATECRC : 0) | (g.chance (2, 3) ? MSF_SKIPNOTDATA : 0);
  s.how   = (Stream::How)g.weighted ({4, canglobal ? 2 : 0, 0, 2});
  s.name  = publish (g, net, path, a);
  if (g.chance (2, 5))
  {
    gen_range (g, f, s.start, s.end);
    s.flags |= MSF_PNAMERANGE;
    s.name += range_text (g, s.start, s.end);
    g.label (a.ranges == Answer::HONOUR ? "range honoured" : "range ignored");
  }
  else if (g.chance (1, 3))
    s.flags |= MSF_PNAMERANGE;
  gen_selection (g, s, f);
  s.want  = expect_url (f, a, s);
  s.fails = a.stop != SIZE_MAX;
  if (s.fails)
  {
    // bytes of the body are counted from the beginning of the range
    int64_t from = a.ranges == Answer::HONOUR ? s.start : 0;
    int64_t len  = a.ranges == Answer::HONOUR && s.start < (int64_t)f.bytes.size () ? (s.end ? std::min<int64_t> (s.end + 1, (int64_t)f.bytes.size ()) : (int64_t)f.bytes.size ()) - s.start : (int64_t)f.bytes.size ();
    if ((int64_t)a.stop >= len)
      DISCARD ();
    (void)from;
    g.label ("breaks off");
  }
  g.note (s.show ());
  g.label (s.how == Stream::GLOBAL ? "global" : s.how == Stream::SELECTION ? "selection" : "re-entrant");
}

void
gen_stop (Gen &g, Answer &a)
{
  if (a.framing == Answer::CLOSE)
    a.framing = Answer::LENGTH;
  size_t n = a.body.size ();
  a.stop   = n ? (g.chance (1, 3) ? n - 1 : g.chance (1, 3) ? (size_t)0 : g.index (n)) : 0;
}

void
facet_records (Gen &g)
{
  Net net;
  std::vector<std::unique_ptr<File>> files;
  std::vector<Answer> answers;
  std::vector<std::unique_ptr<Stream>> ss;
  size_t nf = 1 + (g.chance (1, 5) ? g.range (1, 2) : 0);
  for (size_t k = 0; k < nf; k++)
  {
    FileOpt o;
    o.dataless = g.chance (1, 4);
    files.emplace_back (new File (gen_file (g, scratch_dir () + fmt ("/file%zu", k), o)));
    g.note (files.back ()->show ());
    label_file (g, *files.back ());
    answers.push_back (gen_answer (g, files.back ()->bytes));
    if (files.back ()->bytes.size () && g.chance (1, 4))
      gen_stop (g, answers.back ());
    g.note (show (answers.back ()));
  }
  size_t ns   = nf > 1 ? nf + g.raw (2) : 1;
  bool global = false;
  for (size_t k = 0; k < ns; k++)
  {
    ss.emplace_back (new Stream);
    open_url (g, net, *ss.back (), *files[k % nf], answers[k % nf], fmt ("/f%zu", k % nf), !global);
    global |= ss.back ()->how == Stream::GLOBAL;
  }
  if (ns > 1)
    g.label ("several streams");
  run_streams (g, ss);
  mem::require_balanced ("reading from URLs");
}

// longer than the read buffer, records as long as the read buffer
void
facet_buffer (Gen &g)
{
  Net net;
  FileOpt o;
  int64_t edge = MAXRECLEN;
  if (g.coin ()) // the longest record
    o.giant = (size_t)(MAXRECLEN - g.pick<int64_t> ({0, 0, 1, -1, g.range (0, 200), g.range (0, 20000)}));
  else
    o.big = (size_t)(edge - g.pick<int64_t> ({g.range (0, 3000), g.range (0, 140), 0, 39, 40, 41, 1, g.range (0, 40000)}));
  File f   = gen_file (g, scratch_dir () + "/file", o);
  Answer a = gen_answer (g, f.bytes);
  g.note (f.show () + show (a));
  label_file (g, f);
  std::vector<std::unique_ptr<Stream>> ss;
  ss.emplace_back (new Stream);
  open_url (g, net, *ss[0], f, a, "/f", true);
  run_streams (g, ss);
  g.nontrivial ();
  mem::require_balanced ("reading from URLs");
}

// a whole list, from the URL and from the file
void
facet_tracelist (Gen &g)
{
  Net net;
  FileOpt o;
  o.dataless = g.chance (1, 4);
  File f     = gen_file (g, scratch_dir () + "/file", o);
  Answer a   = gen_answer (g, f.bytes);
  if (f.bytes.size () && g.chance (1, 4))
    gen_stop (g, a);
  g.note (f.show () + show (a));
  Stream s;
  s.how           = Stream::SELECTION;
  s.f             = &f;
  s.flags         = (g.coin () ? MSF_UNPACKDATA : 0) | (g.coin () ? MSF_VALIDATECRC : 0) | (g.chance (3, 4) ? MSF_SKIPNOTDATA : 0);
  std::string url = publish (g, net, "/f", a), file = f.path;
  if (g.chance (1, 3))
  {
    gen_range (g, f, s.start, s.end);
    s.flags |= MSF_PNAMERANGE;
    std::string r = range_text (g, s.start, s.end);
    url += r;
    file += r;
    g.label (a.ranges == Answer::HONOUR ? "range honoured" : "range ignored");
  }
  int api = (int)g.raw (3); // readtracelist, timewin, selection
  std::vector<const store::Rec *> rs;
  for (auto &it : f.items)
    if (it.kind == Item::RECORD)
      rs.push_back (&it.rec);
  if (api > 0)
  {
    s.sel.on = true;
    if (rs.size ())
    {
      const store::Rec *r = g.pick (rs);
      if (api == 2 && g.coin ())
        s.sel.sid = r->sid;
      int64_t x = r->start + sample_span (r->rate, g.range (-20, 20)), y = g.pick (rs)->start + sample_span (r->rate, g.range (-20, 20));
      s.sel.from = g.coin () ? NSTUNSET : std::min (x, y);
      s.sel.to   = g.coin () ? NSTUNSET : std::max (x, y);
    }
    ms3_addselect (&s.selections, s.sel.sid.empty () ? "*" : s.sel.sid.c_str (), s.sel.from, s.sel.to, 0);
  }
  s.want = expect_url (f, a, s);
  for (size_t k = 0; k < s.want.recs.size (); k++)
    if (s.want.optional[k] || s.want.recs[k]->rec.enc < 0)
      DISCARD ();
  bool reclist = g.coin (), split = g.coin ();
  uint32_t fl  = s.flags | (reclist ? MSF_RECORDLIST : 0);
  g.note (quote (url) + " and " + quote (file) + "\n");
  auto readlist = [&] (tl::List &l, const std::string &n) {
    return api == 0 ? ms3_readtracelist (&l.p, n.c_str (), nullptr, split, fl, 0) : api == 1 ? ms3_readtracelist_timewin (&l.p, n.c_str (), nullptr, s.sel.from, s.sel.to, split, fl, 0) : ms3_readtracelist_selection (&l.p, n.c_str (), nullptr, s.selections, split, fl, 0);
  };
  tl::List lu, lf;
  int ru = readlist (lu, url);
  std::string diag = lg::diag ();
  lg::reset ();
  int rf = readlist (lf, file);
  if (a.stop != SIZE_MAX)
  {
    int64_t len = a.ranges == Answer::HONOUR && s.start < (int64_t)f.bytes.size () ? (s.end ? std::min<int64_t> (s.end + 1, (int64_t)f.bytes.size ()) : (int64_t)f.bytes.size ()) - s.start : (int64_t)f.bytes.size ();
    if ((int64_t)a.stop >= len || (s.bounded && ru == 0))
      DISCARD ();
    REQUIRE (ru < 0, "unreported-failure", "reading a list from a transfer that breaks off returns " << ru << " " << diag);
    g.label ("breaks off");
  }
  else
  {
    bool good = false;
    for (int c : s.want.codes)
      good |= ru == (c == MS_ENDOFFILE ? MS_NOERROR : c);
    REQUIRE (good, "list-code", "reading into a list returns " << ru << ", reading by record ends with " << *s.want.codes.begin () << " " << diag);
    if (ru == rf)
    {
      std::vector<tl::Trace> ta = tl::read (lu.p), tb = tl::read (lf.p);
      std::string why;
      REQUIRE (tl::same (ta, tb, why), "list-content", "the lists read from the URL and from the file differ: " << why);
      for (size_t k = 0; k < ta.size (); k++)
        for (size_t j = 0; j < ta[k].segs.size (); j++)
        {
          auto &pa = ta[k].segs[j].recs, &pb = tb[k].segs[j].recs;
          REQUIRE (pa.size () == pb.size (), "list-entries", pa.size () << " entries, from the file " << pb.size ());
          for (size_t e = 0; e < pa.size (); e++)
            REQUIRE (pa[e]->fileoffset == pb[e]->fileoffset && pa[e]->dataoffset == pb[e]->dataoffset && pa[e]->filename && url == pa[e]->filename, "list-entries", "entry for " << (pa[e]->filename ? pa[e]->filename : "nothing") << " at " << pa[e]->fileoffset << ", from the file " << pb[e]->fileoffset);
        }
    }
    else
      REQUIRE (s.want.codes.count (ru) || ru == 0, "list-code", ru << " and " << rf);
  }
  s.finish ();
  if (s.want.recs.size () > 1)
    g.nontrivial ();
  g.label (api == 0 ? "readtracelist" : api == 1 ? "readtracelist_timewin" : "readtracelist_selection");
}

// what cannot be read
void
facet_errors (Gen &g)
{
  Net net;
  Stream s;
  s.how    = (Stream::How)g.weighted ({3, 2, 0, 2});
  s.flags  = (g.coin () ? MSF_UNPACKDATA : 0) | (g.coin () ? MSF_SKIPNOTDATA : 0) | (g.coin () ? MSF_PNAMERANGE : 0);
  File f   = gen_file (g, scratch_dir () + "/file", FileOpt ());
  Answer a = gen_answer (g, f.bytes);
  std::string url;
  bool generic = true;
  int what     = (int)g.raw (7);
  switch (what)
  {
  case 0:
  case 1: // an error, even with data
    a.code = (int)g.pick<int64_t> ({400, 401, 403, 404, 404, 410, 418, 429, 499, 500, 501, 502, 503, 504, 599});
    url    = publish (g, net, "/f", a);
    g.label ("status " + std::to_string (a.code));
    break;
  case 2: // nobody answers
    url = fmt ("http://127.0.0.1:%d/f", http::Server::nobody ());
    g.label ("nobody listens");
    break;
  case 3: // no HTTP
    a.raw = g.pick<std::string> ({"HTTP/1.1 200 OK\r\nContent-Length: 12", "\r\n\r\n", "xyz", "HTTP/9.9 abc\r\n\r\n", "HTTP/1.1 200 OK\r\nContent-Length: -5\r\n\r\nabc", "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\nabc\r\n", "HTTP/1.1 200 OK\r\nContent-Length: 100\r\n\r\n"});
    url   = publish (g, net, "/f", a);
    g.note (quote (a.raw) + "\n");
    g.label ("no answer in HTTP");
    break;
  case 4:
    url = g.pick<std::string> ({"nosuch://127.0.0.1/x", "http://", "http://127.0.0.1:99999/x", "http://127.0.0.1:x/", "://x", "http://[::zz]/"});
    g.label ("no URL for it");
    break;
  case 5: // for ever elsewhere
  {
    Answer r;
    r.code     = 302;
    r.location = "/loop";
    url        = net.s.add ("/loop", r);
    g.label ("redirects in a circle");
    break;
  }
  default: // nothing there, or no record
    a.body = g.coin () ? Bytes () : gen_junk (g);
    a.trailer.clear ();
    for (size_t p = 0; p < a.body.size (); p++)
      if (header_like (a.body, p))
        DISCARD ();
    url     = publish (g, net, "/f", a);
    generic = false;
    g.label ("no records");
    break;
  }
  g.note ("read " + quote (url) + "\n" + show (a));
  int rv    = 0;
  if (g.chance (1, 3))
  {
    tl::List l;
    rv = ms3_readtracelist (&l.p, url.c_str (), nullptr, 0, s.flags, 0);
  }
  else
  {
    s.name = url;
    int calls = (int)g.range (1, 2);
    for (int k = 0; k < calls; k++)
    {
      int r = s.call (url.c_str ());
      REQUIRE (!s.msr && r < 0, "error-code", "call " << k << " reading " << quote (url) << " returns " << r);
      if (k == 0)
        rv = r;
    }
    s.finish ();
  }
  REQUIRE (rv == (generic ? MS_GENERROR : MS_NOTSEED) || (what == 3 && rv == MS_NOTSEED), "error-code", "reading " << quote (url) << " returns " << rv << " " << lg::diag ());
  REQUIRE (!lg::diag ().empty (), "error-message", "no message about " << quote (url));
  mem::require_balanced ("reading from URLs");
  g.nontrivial ();
}

// what is asked of the server
void
facet_request (Gen &g)
{
  Net net;
  File f   = gen_file (g, scratch_dir () + "/file", FileOpt ());
  Answer a = gen_answer (g, f.bytes);
  std::vector<std::pair<std::string, std::string>> want;
  std::string agent, creds, given;
  int n = (int)g.range (0, 4);
  for (int k = 0; k < n; k++)
  {
    std::string name = g.pick<std::string> ({"X-Test", "Cookie", "Accept", "X-Other", "Authorization-Token", "X-" + g.str ("abcXYZ-", 1, 20)}), value = g.str ("abc XYZ:;/=\"%-_.,0189", 1, 60);
    while (!value.empty () && value.back () == ' ')
      value.pop_back ();
    size_t from = value.find_first_not_of (' ');
    value       = from == std::string::npos ? "v" : value.substr (from);
    std::string h = name + ": " + value;
    REQUIRE (ms3_url_addheader (h.c_str ()) == 0, "add-header", "ms3_url_addheader fails for " << quote (h) << " " << lg::diag ());
    g.note ("header " + quote (h) + "\n");
    want.emplace_back (name, value);
  }
  if (g.coin ())
  {
    std::string prog = g.str ("abcMSI-_.", 1, 30), ver = g.str ("0123456789.", 1, 10);
    bool hasver = g.coin ();
    REQUIRE (ms3_url_useragent (prog.c_str (), hasver ? ver.c_str () : nullptr) == 0, "user-agent", "ms3_url_useragent fails " << lg::diag ());
    agent = prog + (hasver ? "/" + ver : "") + " libmseed/" LIBMSEED_VERSION;
    g.note ("agent " + quote (agent) + "\n");
  }
  if (g.chance (1, 3))
  {
    creds = g.str ("abcXYZ09.-", 1, 12) + ":" + g.str ("abcXYZ09:@/ %", 0, 16);
    given = g.chance (1, 3) ? creds + "x" : creds;
    REQUIRE (ms3_url_userpassword (given.c_str ()) == 0, "user-password", "ms3_url_userpassword fails " << lg::diag ());
    a.auth = creds;
    g.note ("needs " + quote (creds) + " given " + quote (given) + "\n");
    g.label (given == creds ? "credentials" : "wrong credentials");
  }
  bool freed = g.chance (1, 6);
  if (freed)
  {
    ms3_url_freeheaders ();
    want.clear ();
    agent.clear ();
    g.label ("headers freed");
  }
  Stream s;
  s.how   = g.coin () ? Stream::REENTRANT : Stream::GLOBAL;
  s.f     = &f;
  s.flags = (g.coin () ? MSF_UNPACKDATA : 0) | MSF_SKIPNOTDATA;
  s.name  = publish (g, net, "/f" + g.str ("abc/=&_", 0, 30) + g.pick<std::string> ({"", "?a=1&b=%20", "?x"}), a);
  if (g.chance (1, 3))
  {
    gen_range (g, f, s.start, s.end);
    s.flags |= MSF_PNAMERANGE;
    s.name += range_text (g, s.start, s.end);
  }
  s.want = expect_url (f, a, s);
  if (given != creds)
  {
    s.want       = Want ();
    s.want.codes  = {MS_GENERROR};
    s.want.endoff = SIZE_MAX;
  }
  g.note (show (a) + s.show ());
  bool early = g.coin ();
  while (!s.done)
  {
    step (g, s);
    if (early) // nothing of it is needed any more
      ms3_url_freeheaders ();
  }
  s.finish ();
  std::vector<http::Request> rs = net.s.requests ();
  REQUIRE (!rs.empty (), "no-request", "nothing was asked");
  for (auto &q : rs)
  {
    std::map<std::string, int> names;
    for (auto &w : want)
    {
      bool has = false;
      for (auto &h : q.headers)
        has |= h == w;
      REQUIRE (has, "header-missing", "no header " << w.first << ": " << w.second << " in " << q.show ());
    }
    for (auto &h : q.headers)
      if (!h.first.compare (0, 2, "X-") || h.first == "Cookie")
      {
        bool known = false;
        for (auto &w : want)
          known |= w == h;
        REQUIRE (known, "header-extra", "header " << h.first << " was not asked for: " << q.show ());
      }
    const std::string *ua = q.find ("User-Agent");
    REQUIRE (ua && !ua->compare (0, agent.size () ? agent.size () : 9, agent.size () ? agent : "libmseed/"), "user-agent", "want " << (agent.size () ? agent : "libmseed/") << " in " << q.show ());
    const std::string *r = q.find ("Range");
    if (s.start > 0 || s.end > 0)
      REQUIRE (r && *r == "bytes=" + std::to_string (s.start) + "-" + (s.end ? std::to_string (s.end) : ""), "range", "range of " << s.name << " in " << q.show ());
    else
      REQUIRE (!r, "range", "range without asking in " << q.show ());
  }
  if (want.size () || agent.size () || creds.size ())
    g.nontrivial ();
  mem::require_balanced ("reading from URLs");
}

// the program
void
facet_msi (Gen &g)
{
  Net net;
  std::string dir = scratch_dir ();
  std::vector<std::unique_ptr<File>> files;
  std::vector<Answer> answers;
  std::vector<std::string> opts, uargs, fargs;
  size_t nf   = (size_t)g.range (1, 3);
  bool broken = false, list = g.chance (1, 4), missing = false;
  opts.push_back (g.pick<std::string> ({"-s", "-p", "-T", "-tg", "-t", "-d", "-pp"}));
  if (g.coin ())
    opts.push_back ("-s");
  std::string header, creds;
  if (g.coin ())
  {
    header = "X-Asked: " + g.str ("abc XY=", 1, 20) + "z";
    opts.insert (opts.end (), {"-H", header});
  }
  if (g.chance (1, 3))
  {
    creds = g.str ("abc", 1, 6) + ":" + g.str ("abc:", 0, 6);
    opts.insert (opts.end (), {"-u", creds});
  }
  std::vector<std::string> un, fn;
  for (size_t k = 0; k < nf; k++)
  {
    FileOpt fo;
    fo.dirty = false;
    files.emplace_back (new File (gen_file (g, dir + fmt ("/file%zu", k), fo)));
    File &f = *files.back ();
    for (auto &it : f.items)
      if (it.kind == Item::RECORD && (it.rec.enc < 0 || !it.rec.b1000))
        DISCARD ();
    Answer a = gen_answer (g, f.bytes);
    if (g.chance (1, 6) && f.bytes.size () > 1)
    {
      gen_stop (g, a);
      broken = true;
    }
    else if (g.chance (1, 10))
    {
      a.code  = (int)g.pick<int64_t> ({404, 403, 500});
      missing = true;
    }
    a.auth = creds;
    g.note (f.show () + show (a));
    std::string url = publish (g, net, fmt ("/f%zu", k), a), r;
    if (a.stop == SIZE_MAX && g.chance (1, 4) && !f.items.empty ())
    {
      // whole records
      size_t i = g.index (f.items.size ()), j = i + g.index (f.items.size () - i);
      r        = fmt ("@%zu-%zu", f.items[i].off, f.items[j].off + f.items[j].bytes.size () - 1);
      g.label ("byte range");
    }
    bool plain = a.stop == SIZE_MAX && a.code == 200 && g.chance (1, 4);
    un.push_back ((plain ? f.path : url) + r);
    fn.push_back (f.path + r);
  }
  if (list)
  {
    std::string lu, lf;
    for (size_t k = 0; k < nf; k++)
    {
      lu += un[k] + "\n";
      lf += fn[k] + "\n";
    }
    cli::write_file (dir + "/lu", lu);
    cli::write_file (dir + "/lf", lf);
    un = {"@" + dir + "/lu"};
    fn = {"@" + dir + "/lf"};
    g.label ("list of URLs");
  }
  uargs = fargs = opts;
  uargs.insert (uargs.end (), un.begin (), un.end ());
  fargs.insert (fargs.end (), fn.begin (), fn.end ());
  std::string cmd = "msi";
  for (auto &x : uargs)
    cmd += " " + quote (x);
  g.note (cmd + "\n");
  cli::Result ru = cli::run (uargs, dir);
  cli::require_sane (ru, uargs);
  cli::Result rf = cli::run (fargs, dir);
  cli::require_sane (rf, fargs);
  if (broken || missing)
  {
    REQUIRE (ru.status != 0, "msi-status", "exit status 0 although not everything could be read: " << ru.err);
    REQUIRE (!ru.err.empty (), "msi-message", "nothing is said about what could not be read");
    g.label (broken ? "breaks off" : "missing");
  }
  else
  {
    REQUIRE (ru.status == rf.status, "msi-status", "exit status " << ru.status << " from the URL, " << rf.status << " from the file: " << ru.err << rf.err);
    REQUIRE (ru.out == rf.out, "msi-output", "output from the URL\n" << ru.out.substr (0, 1500) << "\nfrom the file\n" << rf.out.substr (0, 1500) << ru.err.substr (0, 300));
  }
  for (auto &q : net.s.requests ())
  {
    const std::string *ua = q.find ("User-Agent");
    REQUIRE (ua && !ua->compare (0, 4, "msi/"), "msi-agent", q.show ());
    if (!header.empty ())
    {
      const std::string *h = q.find ("X-Asked");
      REQUIRE (h && "X-Asked: " + *h == "X-Asked: " + header.substr (header.find_first_not_of (' ', 8)), "msi-header", quote (header) << " in " << q.show ());
    }
  }
  for (size_t k = 0; k < nf; k++)
    if (files[k]->items.size () > 1)
      g.nontrivial ();
}

} // namespace

namespace pbt {
Property property = {
    "P22",
    "A case is a file of generated records, junk and damaged records (as in P15) that a scripted HTTP server on the loopback interface gives out: by length, in chunks or until the connection is closed, in pieces of any size, by range or ignoring ranges, after redirects, with credentials, with trailers, broken off at any byte, or not at all; "
    "read by record through every entry point, several streams interleaved, into a trace list, and by msi. It is non-trivial if at least two records are involved, request headers were asked for, or an error is provoked.",
    {{"records", 50, facet_records}, {"tracelist", 20, facet_tracelist}, {"errors", 10, facet_errors}, {"request", 15, facet_request}, {"msi", 6, facet_msi}, {"buffer", 1, facet_buffer}},
    std_reset,
    nullptr};
}
