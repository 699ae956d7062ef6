// Runner: generates cases in parallel workers, isolates crashes, shrinks a
// failure on its choice tape, replays it and writes statistics as JSON.
#include "pbt.hpp"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt {

void
fail (const std::string &key, const std::string &msg)
{
  throw Failure{key, msg};
}

std::string
hexdump (const void *p, size_t n, size_t max)
{
  std::string s;
  char b[4];
  for (size_t i = 0; i < n && i < max; i++)
  {
    snprintf (b, sizeof b, "%02x", ((const uint8_t *)p)[i]);
    s += b;
  }
  if (n > max)
    s += "...(" + std::to_string (n) + ")";
  return s;
}

std::string
quote (const std::string &s, size_t max)
{
  std::string o = "\"";
  char b[8];
  for (size_t i = 0; i < s.size () && i < max; i++)
  {
    unsigned char c = s[i];
    if (c < 32 || c > 126 || c == '"' || c == '\\')
    {
      snprintf (b, sizeof b, "\\x%02x", c);
      o += b;
    }
    else
      o += (char)c;
  }
  return o + (s.size () > max ? "...\"" : "\"");
}

static std::string g_scratch;
std::string
scratch_dir ()
{
  return g_scratch;
}

} // namespace pbt

using namespace pbt;

static const unsigned CASE_CPU_LIMIT = 40; // seconds of CPU for one case before it counts as a hang

enum { R_OK_ = 0, R_FAIL = 3, R_DISCARD = 4 };

static Shared *
new_shared ()
{
  void *p = mmap (nullptr, sizeof (Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED)
  {
    perror ("mmap");
    exit (2);
  }
  return (Shared *)p;
}

static void
copyto (char *dst, size_t cap, const std::string &s)
{
  size_t n = std::min (cap - 1, s.size ());
  memcpy (dst, s.data (), n);
  dst[n] = 0;
}

static void
on_cpu (int)
{
  static const char m[] = "\nCASE-HANG: cpu limit for one case exceeded\n";
  ssize_t r = write (2, m, sizeof m - 1);
  (void)r;
  _exit (78);
}

static bool g_nocpu = false; // under libFuzzer, which has its own time limit

static void
arm_cpu ()
{
  if (g_nocpu)
    return;
  struct itimerval it = {};
  it.it_value.tv_sec = CASE_CPU_LIMIT;
  setitimer (ITIMER_PROF, &it, nullptr);
}

static int
run_case (Gen &g, uint32_t facet)
{
  Shared *sh  = g.sh;
  sh->facet   = facet;
  sh->ndraws  = 0;
  sh->key[0]  = 0;
  sh->msg[0]  = 0;
  sh->desc[0] = 0;
  sh->incase  = 1;
  arm_cpu ();
  int rv = R_OK_;
  try
  {
    if (property.reset)
      property.reset ();
    property.facets[facet].fn (g);
    if (property.finish)
      property.finish ();
  }
  catch (Failure &f)
  {
    copyto (sh->key, sizeof sh->key, f.key);
    copyto (sh->msg, sizeof sh->msg, f.msg);
    rv = R_FAIL;
  }
  catch (Discard &)
  {
    rv = R_DISCARD;
  }
  sh->incase = 0;
  return rv;
}

static std::string
json (const std::string &s)
{
  std::string o = "\"";
  char b[8];
  for (unsigned char c : s)
  {
    if (c == '"' || c == '\\')
    {
      o += '\\';
      o += c;
    }
    else if (c < 32 || c > 126)
    {
      snprintf (b, sizeof b, "\\u%04x", c);
      o += b;
    }
    else
      o += c;
  }
  return o + "\"";
}

static double
now ()
{
  struct timespec ts;
  clock_gettime (CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec / 1e9;
}

static void
wipe_dir (const std::string &d)
{
  DIR *dp = opendir (d.c_str ());
  if (!dp)
    return;
  while (struct dirent *e = readdir (dp))
  {
    std::string n = e->d_name;
    if (n == "." || n == "..")
      continue;
    unlink ((d + "/" + n).c_str ());
  }
  closedir (dp);
}

// facet of a case index, deterministic, proportional to the weights
static uint32_t
facet_of (uint64_t idx, int only)
{
  if (only >= 0)
    return only;
  int tot = 0;
  for (auto &f : property.facets)
    tot += f.weight;
  uint64_t r = mix64 (idx * 77 + 5) % tot;
  for (uint32_t i = 0; i < property.facets.size (); i++)
  {
    if (r < (uint64_t)property.facets[i].weight)
      return i;
    r -= property.facets[i].weight;
  }
  return 0;
}

static uint64_t
case_seed (uint64_t seed, uint32_t facet, uint64_t idx)
{
  uint64_t h = mix64 (seed);
  for (const char *p = property.id; *p; p++)
    h = mix64 (h ^ (unsigned char)*p);
  for (const char *p = property.facets[facet].name; *p; p++)
    h = mix64 (h ^ (unsigned char)*p);
  return mix64 (h ^ idx);
}

struct Outcome
{
  bool failed = false;
  std::string key, msg, desc;
  std::vector<uint64_t> tape;
};

static std::string
read_tail (const std::string &path, size_t max)
{
  std::ifstream f (path, std::ios::binary);
  std::string s ((std::istreambuf_iterator<char> (f)), std::istreambuf_iterator<char> ());
  // keep the head of a sanitizer report
  size_t p = s.find ("ERROR: AddressSanitizer");
  if (p == std::string::npos)
    p = s.find ("runtime error");
  if (p == std::string::npos)
    p = s.find ("CASE-HANG");
  if (p != std::string::npos)
  {
    size_t b = s.rfind ('\n', p);
    s        = s.substr (b == std::string::npos ? 0 : b + 1);
  }
  if (s.size () > max)
    s.resize (max);
  return s;
}

static std::string
crash_key (int st, const std::string &log)
{
  if (WIFEXITED (st) && WEXITSTATUS (st) == 78)
    return "hang";
  size_t p = log.find ("ERROR: AddressSanitizer: ");
  if (p != std::string::npos)
  {
    size_t b = p + strlen ("ERROR: AddressSanitizer: ");
    size_t e = log.find_first_of (" \n", b);
    return "sanitizer:" + log.substr (b, e - b);
  }
  if (log.find ("runtime error") != std::string::npos)
    return "sanitizer:undefined";
  return "crash";
}

static std::string g_logdir;

// Run one tape (or, without one, a byte string) in a forked child
static Outcome
try_tape (const std::vector<uint64_t> &tape, uint32_t facet, Shared *sh, const std::string *bytes = nullptr)
{
  Outcome o;
  std::string log = g_logdir + "/try.log";
  fflush (stdout);
  sh->key[0] = sh->msg[0] = sh->desc[0] = 0;
  sh->ndraws                            = 0;
  pid_t pid = fork ();
  if (pid == 0)
  {
    int fd = open (log.c_str (), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dup2 (fd, 2);
    dup2 (fd, 1);
    g_scratch = g_logdir + "/scratch-try";
    mkdir (g_scratch.c_str (), 0700);
    wipe_dir (g_scratch);
    Gen g;
    g.mode   = Gen::REPLAY;
    g.replay = &tape;
    g.sh     = sh;
    if (bytes)
    {
      g.mode   = Gen::BYTES;
      g.bytes  = (const uint8_t *)bytes->data ();
      g.nbytes = bytes->size ();
    }
    int rv   = run_case (g, facet);
    fflush (stdout);
    _exit (rv);
  }
  int st = 0;
  while (waitpid (pid, &st, 0) < 0 && errno == EINTR)
    ;
  if (WIFEXITED (st) && (WEXITSTATUS (st) == R_OK_ || WEXITSTATUS (st) == R_DISCARD))
    return o;
  o.failed = true;
  o.desc   = sh->desc;
  o.tape.assign (sh->draws, sh->draws + sh->ndraws);
  if (WIFEXITED (st) && WEXITSTATUS (st) == R_FAIL)
  {
    o.key = sh->key;
    o.msg = sh->msg;
  }
  else
  {
    std::string l = read_tail (log, 5000);
    o.key         = crash_key (st, l);
    o.msg         = l.empty () ? "process ended with status " + std::to_string (st) : l;
  }
  return o;
}

static std::vector<uint64_t>
shrink (std::vector<uint64_t> best, uint32_t facet, const std::string &key, Shared *sh, double budget, int maxruns, int &runs)
{
  double t0 = now ();
  runs      = 0;
  auto ok   = [&] (const std::vector<uint64_t> &cand) {
    runs++;
    Outcome o = try_tape (cand, facet, sh);
    if (o.failed && o.key == key)
    {
      // keep what was really consumed
      std::vector<uint64_t> used = o.tape;
      if (used.size () < cand.size () || key.rfind ("sanitizer", 0) == 0 || key == "hang" || key == "crash")
        best = used.size () <= cand.size () ? used : cand;
      else
        best = cand;
      return true;
    }
    return false;
  };
  auto spent = [&] () { return now () - t0 > budget || runs > maxruns; };
  bool improved = true;
  while (improved && !spent ())
  {
    improved = false;
    for (size_t chunk = std::max<size_t> (1, best.size () / 2); chunk >= 1 && !spent (); chunk /= 2)
    {
      for (size_t i = 0; i + chunk <= best.size () && !spent ();)
      {
        std::vector<uint64_t> c = best;
        c.erase (c.begin () + i, c.begin () + i + chunk);
        size_t before = best.size ();
        if (ok (c) && best.size () < before)
          improved = true;
        else
          i += chunk;
      }
      if (chunk == 1)
        break;
    }
    for (size_t chunk = std::max<size_t> (1, best.size () / 2); chunk >= 1 && !spent (); chunk /= 2)
    {
      for (size_t i = 0; i + chunk <= best.size () && !spent (); i += chunk)
      {
        bool any = false;
        for (size_t j = i; j < i + chunk; j++)
          any |= best[j] != 0;
        if (!any)
          continue;
        std::vector<uint64_t> c = best;
        std::fill (c.begin () + i, c.begin () + i + chunk, 0);
        if (ok (c))
          improved = true;
      }
      if (chunk == 1)
        break;
    }
    for (size_t i = 0; i < best.size () && !spent (); i++)
    {
      uint64_t lo = 0;
      while (i < best.size () && best[i] > lo && !spent ())
      {
        uint64_t mid            = lo + (best[i] - lo) / 2;
        std::vector<uint64_t> c = best;
        c[i]                    = mid;
        if (ok (c))
          improved = true;
        else
          lo = mid + 1;
      }
    }
  }
  return best;
}

static void
write_replay (const std::string &path, uint32_t facet, uint64_t seed, uint64_t idx, const Outcome &o)
{
  std::ofstream f (path);
  f << "property " << property.id << "\n";
  f << "facet " << property.facets[facet].name << "\n";
  f << "seed " << seed << " case " << idx << "\n";
  f << "tape";
  for (uint64_t v : o.tape)
    f << " " << v;
  f << "\n";
  f << "key " << o.key << "\n";
  f << "--- input\n" << o.desc << "\n--- failure\n" << o.msg << "\n";
}

static bool
read_replay (const std::string &path, uint32_t &facet, std::vector<uint64_t> &tape)
{
  std::ifstream f (path);
  std::string line;
  bool got = false;
  while (std::getline (f, line))
  {
    std::istringstream is (line);
    std::string w;
    is >> w;
    if (w == "facet")
    {
      std::string n;
      is >> n;
      for (uint32_t i = 0; i < property.facets.size (); i++)
        if (n == property.facets[i].name)
        {
          facet = i;
          got   = true;
        }
    }
    else if (w == "tape")
    {
      uint64_t v;
      while (is >> v)
        tape.push_back (v);
    }
    else if (w == "---")
      break;
  }
  return got;
}

// known findings: lines "known: property=<id> key=<key> facet=<facet> <text>"
struct Known
{
  std::string facet, key, text;
  uint64_t hits = 0;
};
static std::vector<Known> g_known;

static void
load_known (const std::string &path)
{
  std::ifstream f (path);
  std::string line;
  while (std::getline (f, line))
  {
    if (line.rfind ("known: property=" + std::string (property.id) + " ", 0) != 0)
      continue;
    std::istringstream is (line);
    std::string a, b, c, d;
    is >> a >> b >> c >> d;
    Known k;
    if (c.rfind ("facet=", 0) == 0)
      k.facet = c.substr (6);
    if (d.rfind ("key=", 0) == 0)
      k.key = d.substr (4);
    std::getline (is, k.text);
    g_known.push_back (k);
  }
}

struct WStats // per worker, in shared memory
{
  volatile uint64_t evals, discards, nontrivial, knownhits[16];
  volatile int stop;
};

static std::vector<uint32_t>
facet_list (const std::string &names)
{
  std::vector<uint32_t> v;
  std::istringstream is (names);
  std::string n;
  while (std::getline (is, n, ','))
    for (uint32_t i = 0; i < property.facets.size (); i++)
      if (n == property.facets[i].name)
        v.push_back (i);
  return v;
}

#ifdef PBT_FUZZ
// Coverage-guided mode: libFuzzer supplies the choices as bytes; the first byte selects the facet
extern "C" int
LLVMFuzzerInitialize (int *, char ***)
{
  signal (SIGPIPE, SIG_IGN);
  setenv ("TZ", "UTC", 1);
  g_nocpu   = true;
  g_scratch = std::string (getenv ("VERIF_FUZZ_DIR")) + "/scratch-" + std::to_string (getpid ());
  mkdir (g_scratch.c_str (), 0700);
  atexit ([] { wipe_dir (g_scratch); rmdir (g_scratch.c_str ()); });
  return 0;
}

extern "C" int
LLVMFuzzerTestOneInput (const uint8_t *data, size_t n)
{
  static std::vector<uint32_t> which = facet_list (getenv ("VERIF_FUZZ_FACETS"));
  static Shared *sh                  = new_shared ();
  static unsigned count              = 0;
  if (n < 2)
    return -1;
  if (++count % 256 == 0)
    wipe_dir (g_scratch);
  Gen g;
  g.mode   = Gen::BYTES;
  g.bytes  = data + 1;
  g.nbytes = n - 1;
  g.sh     = sh;
  int r    = run_case (g, which[data[0] % which.size ()]);
  if (r == R_FAIL)
  {
    fprintf (stderr, "\nPBT-FAILURE key=%s\n%s\n--- input\n%s\n", sh->key, sh->msg, sh->desc);
    abort ();
  }
  return r == R_DISCARD ? -1 : 0;
}
#else
int
main (int argc, char **argv)
{
  uint64_t seed = 1, cases = 1000;
  double maxsecs = 300;
  std::string out, faildir = ".", replay, knownfile, onlyname, bytesfile;
  int workers = 8, only = -1;
  bool verbose = false, list = false;
  double shrinkbudget = 45;
  std::string dumpdir, fuzzfacets, bytesdir;
  for (int i = 1; i < argc; i++)
  {
    std::string a = argv[i];
    auto val      = [&] () { return std::string (++i < argc ? argv[i] : ""); };
    if (a == "--seed") seed = strtoull (val ().c_str (), 0, 10);
    else if (a == "--cases") cases = strtoull (val ().c_str (), 0, 10);
    else if (a == "--maxsecs") maxsecs = atof (val ().c_str ());
    else if (a == "--out") out = val ();
    else if (a == "--dir") faildir = val ();
    else if (a == "--replay") replay = val ();
    else if (a == "--known") knownfile = val ();
    else if (a == "--facet") onlyname = val ();
    else if (a == "--workers") workers = atoi (val ().c_str ());
    else if (a == "--shrink") shrinkbudget = atof (val ().c_str ());
    else if (a == "-v") verbose = true;
    else if (a == "--list") list = true;
    else if (a == "--dump-corpus") dumpdir = val ();    // write generated cases as fuzzer inputs
    else if (a == "--fuzz-facets") fuzzfacets = val (); // facets the fuzzer's first byte selects from
    else if (a == "--bytes") bytesfile = val ();        // judge one fuzzer input
    else
    {
      fprintf (stderr, "unknown argument %s\n", a.c_str ());
      return 2;
    }
  }
  if (list)
  {
    for (auto &f : property.facets)
      printf ("%s %d\n", f.name, f.weight);
    return 0;
  }
  for (uint32_t i = 0; i < property.facets.size (); i++)
    if (onlyname == property.facets[i].name)
      only = i;
  if (!onlyname.empty () && only < 0)
  {
    fprintf (stderr, "no facet %s\n", onlyname.c_str ());
    return 2;
  }
  load_known (knownfile);
  signal (SIGPIPE, SIG_IGN);
  signal (SIGPROF, on_cpu);
  setenv ("TZ", "UTC", 1);
  g_logdir = faildir;
  mkdir (faildir.c_str (), 0700);

  if (!replay.empty ())
  {
    uint32_t facet = 0;
    std::vector<uint64_t> tape;
    if (!read_replay (replay, facet, tape))
    {
      fprintf (stderr, "cannot read replay %s\n", replay.c_str ());
      return 2;
    }
    Shared *sh = new_shared ();
    Outcome o  = try_tape (tape, facet, sh);
    if (!o.failed)
    {
      printf ("replay passes\ninput: %s\n", sh->desc);
      return 0;
    }
    printf ("replay fails: %s\n--- input\n%s\n--- failure\n%s\n", o.key.c_str (), o.desc.c_str (), o.msg.c_str ());
    return 1;
  }

  std::vector<uint32_t> ff = facet_list (fuzzfacets);
  if (!dumpdir.empty ())
  {
    Shared *sh = new_shared ();
    mkdir (dumpdir.c_str (), 0700);
    for (uint64_t idx = 0; idx < cases; idx++)
    {
      uint32_t k = idx % ff.size ();
      pid_t pid  = fork ();
      if (pid == 0)
      {
        g_scratch = faildir + "/scratch-dump";
        mkdir (g_scratch.c_str (), 0700);
        wipe_dir (g_scratch);
        std::string enc (1, (char)k);
        Gen g;
        g.state = case_seed (seed, ff[k], idx);
        g.sh    = sh;
        g.enc   = &enc;
        int r   = run_case (g, ff[k]);
        if (r == R_OK_ && g.is_nontrivial && enc.size () < 20000)
          std::ofstream (dumpdir + "/seed" + std::to_string (idx), std::ios::binary) << enc;
        _exit (0);
      }
      int st;
      waitpid (pid, &st, 0);
    }
    return 0;
  }

  double t0 = now ();
  if (!bytesfile.empty ())
  {
    std::ifstream bf (bytesfile, std::ios::binary);
    std::string b ((std::istreambuf_iterator<char> (bf)), std::istreambuf_iterator<char> ());
    if (b.size () < 2)
      return 2;
    uint32_t facet = ff[(uint8_t)b[0] % ff.size ()];
    b.erase (0, 1);
    Shared *ts = new_shared ();
    std::vector<uint64_t> none;
    Outcome o = try_tape (none, facet, ts, &b);
    int again = 0;
    Outcome c;
    for (int r = 0; o.failed && r < 3; r++)
    {
      Outcome x = try_tape (o.tape, facet, ts);
      if (x.failed)
      {
        again++;
        c = x;
      }
    }
    bool kn = false;
    for (auto &k : g_known)
      kn |= k.key == c.key && k.facet == property.facets[facet].name;
    if (again < 3 || kn)
    {
      printf ("input does not fail\n");
      return 0;
    }
    int runs                = 0;
    std::vector<uint64_t> m = shrink (o.tape, facet, c.key, ts, shrinkbudget, 4000, runs);
    Outcome so              = try_tape (m, facet, ts);
    if (!so.failed || so.key != c.key)
    {
      so = c;
      m  = o.tape;
    }
    so.tape    = m;
    uint64_t h = 0;
    for (uint64_t v : m)
      h = mix64 (h ^ v);
    char nm[64];
    snprintf (nm, sizeof nm, "/%s-%08x.replay", property.id, (unsigned)(h & 0xffffffff));
    write_replay (faildir + nm, facet, 0, 0, so);
    std::ofstream f (out);
    f << "{\"facet\":" << json (property.facets[facet].name) << ",\"key\":" << json (so.key) << ",\"msg\":" << json (so.msg)
      << ",\"desc\":" << json (so.desc) << ",\"replay\":" << json (faildir + nm) << ",\"shrink_runs\":" << runs
      << ",\"tape_len\":" << m.size () << "}\n";
    return 1;
  }
  std::vector<Shared *> sh;
  WStats *ws = (WStats *)mmap (nullptr, sizeof (WStats) * workers, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::vector<pid_t> pids (workers);
  Outcome first;
  uint32_t ffacet = 0;
  uint64_t fidx   = 0;
  uint64_t unreproduced = 0;
  int shrinkruns        = 0;
  std::vector<uint64_t> startidx (workers);
  for (int w = 0; w < workers; w++)
  {
    sh.push_back (new_shared ());
    startidx[w] = w;
  }
  auto spawn = [&] (int w) {
    fflush (stdout);
    pid_t pid = fork ();
    if (pid)
    {
      pids[w] = pid;
      return;
    }
    std::string log = faildir + "/worker" + std::to_string (w) + ".log";
    int fd          = open (log.c_str (), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dup2 (fd, 2);
    dup2 (fd, 1);
    g_scratch = faildir + "/scratch" + std::to_string (w);
    mkdir (g_scratch.c_str (), 0700);
    std::map<std::string, uint64_t> labels;
    std::map<std::string, uint64_t> fcount;
    std::set<uint64_t> distinct;
    std::map<int, int> nsamp;
    std::string sampletext;
    int rv = 0;
    for (uint64_t idx = startidx[w]; idx < cases; idx += workers)
    {
      if ((idx / workers) % 16 == 0 && now () - t0 > maxsecs)
        break;
      if (ws[w].stop)
        break;
      uint32_t facet = facet_of (idx, only);
      Gen g;
      g.state           = case_seed (seed, facet, idx);
      g.sh              = sh[w];
      sh[w]->caseidx    = idx;
      if ((idx / workers) % 64 == 0)
      {
        wipe_dir (g_scratch);
        if (ftruncate (fd, 0) == 0)
          lseek (fd, 0, SEEK_SET);
      }
      int r = run_case (g, facet);
      ws[w].evals++;
      if (r == R_DISCARD)
        ws[w].discards++;
      fcount[property.facets[facet].name]++;
      for (auto &l : g.labels)
        labels[std::string (property.facets[facet].name) + "/" + l]++;
      if (g.is_nontrivial && r == R_OK_)
      {
        ws[w].nontrivial++;
        distinct.insert (mix64 (g.keyhash ^ facet));
        if (w == 0 && nsamp[facet] < 2)
        {
          nsamp[facet]++;
          std::string d = g.text;
          if (d.size () > 700)
            d = d.substr (0, 700) + "...";
          sampletext += std::string (property.facets[facet].name) + "\t" + json (d) + "\n";
        }
      }
      if (r == R_FAIL)
      {
        bool kn = false;
        for (size_t k = 0; k < g_known.size () && k < 16; k++)
          if (g_known[k].key == sh[w]->key && g_known[k].facet == property.facets[facet].name)
          {
            ws[w].knownhits[k]++;
            kn = true;
          }
        if (!kn)
        {
          rv = R_FAIL;
          break;
        }
      }
    }
    // append this worker's counters
    std::ofstream f (faildir + "/stats" + std::to_string (w), std::ios::app);
    for (auto &l : labels)
      f << "L " << l.second << " " << l.first << "\n";
    for (auto &l : fcount)
      f << "F " << l.second << " " << l.first << "\n";
    for (auto h : distinct)
      f << "D " << h << "\n";
    f.close ();
    std::ofstream s (faildir + "/samples" + std::to_string (w), std::ios::app);
    s << sampletext;
    s.close ();
    fflush (stdout);
    _exit (rv);
  };
  for (int w = 0; w < workers; w++)
  {
    unlink ((faildir + "/stats" + std::to_string (w)).c_str ());
    unlink ((faildir + "/samples" + std::to_string (w)).c_str ());
    spawn (w);
  }
  int live = workers;
  bool failed = false;
  while (live > 0)
  {
    int st;
    pid_t p = waitpid (-1, &st, 0);
    if (p < 0)
    {
      if (errno == EINTR)
        continue;
      break;
    }
    int w = -1;
    for (int i = 0; i < workers; i++)
      if (pids[i] == p)
        w = i;
    if (w < 0)
      continue;
    live--;
    if (WIFEXITED (st) && WEXITSTATUS (st) == 0)
      continue;
    if (failed)
      continue;
    // a failure: take the tape from shared memory
    Outcome o;
    uint32_t facet = sh[w]->facet;
    uint64_t idx   = sh[w]->caseidx;
    o.failed       = true;
    o.tape.assign (sh[w]->draws, sh[w]->draws + sh[w]->ndraws);
    o.desc = sh[w]->desc;
    if (WIFEXITED (st) && WEXITSTATUS (st) == R_FAIL)
    {
      o.key = sh[w]->key;
      o.msg = sh[w]->msg;
    }
    else
    {
      std::string l = read_tail (faildir + "/worker" + std::to_string (w) + ".log", 5000);
      o.key         = crash_key (st, l);
      o.msg         = l.empty () ? "process ended with status " + std::to_string (st) : l;
    }
    if (WIFSIGNALED (st) && WTERMSIG (st) == SIGKILL)
    {
      // killed from outside (memory): not a verdict
      fprintf (stderr, "worker %d killed from outside at case %llu\n", w, (unsigned long long)idx);
      unreproduced++;
      startidx[w] = idx + workers;
      spawn (w);
      live++;
      continue;
    }
    // confirm in a fresh process
    Shared *ts = new_shared ();
    int again  = 0;
    Outcome c;
    for (int r = 0; r < 3; r++)
    {
      Outcome x = try_tape (o.tape, facet, ts);
      if (x.failed)
      {
        again++;
        c = x;
      }
    }
    if (again == 3)
    {
      bool kn = false;
      for (size_t k = 0; k < g_known.size () && k < 16; k++)
        if (g_known[k].key == c.key && g_known[k].facet == property.facets[facet].name)
        {
          ws[w].knownhits[k]++;
          kn = true;
        }
      if (!kn)
      {
        failed = true;
        for (int i = 0; i < workers; i++)
          ws[i].stop = 1;
        std::vector<uint64_t> m = shrink (c.tape.size () <= o.tape.size () ? c.tape : o.tape, facet, c.key, ts, shrinkbudget, 4000, shrinkruns);
        first  = c;
        ffacet = facet;
        fidx   = idx;
        int s3 = 0;
        Outcome so;
        for (int r = 0; r < 3; r++)
        {
          Outcome x = try_tape (m, facet, ts);
          if (x.failed && x.key == c.key)
          {
            s3++;
            so = x;
          }
        }
        if (s3 == 3)
        {
          first      = so;
          first.tape = m;
        }
        else
          first.tape = o.tape;
        munmap (ts, sizeof (Shared));
        continue;
      }
    }
    else
    {
      unreproduced++;
      fprintf (stderr, "failure at case %llu (%s) not reproduced (%d/3): %s: %s\n", (unsigned long long)idx,
               property.facets[facet].name, again, o.key.c_str (), o.msg.substr (0, 1500).c_str ());
    }
    munmap (ts, sizeof (Shared));
    startidx[w] = idx + workers;
    spawn (w);
    live++;
  }

  uint64_t evals = 0, disc = 0, nt = 0;
  for (int w = 0; w < workers; w++)
  {
    evals += ws[w].evals;
    disc += ws[w].discards;
    nt += ws[w].nontrivial;
    for (size_t k = 0; k < g_known.size () && k < 16; k++)
      g_known[k].hits += ws[w].knownhits[k];
  }
  std::map<std::string, uint64_t> labels, fcount;
  std::set<uint64_t> distinct;
  std::map<std::string, std::vector<std::string>> samples;
  for (int w = 0; w < workers; w++)
  {
    std::ifstream f (faildir + "/stats" + std::to_string (w));
    std::string t;
    while (f >> t)
    {
      uint64_t n;
      f >> n;
      if (t == "D")
        distinct.insert (n);
      else
      {
        std::string l;
        f.get ();
        std::getline (f, l);
        (t == "L" ? labels : fcount)[l] += n;
      }
    }
    std::ifstream s (faildir + "/samples" + std::to_string (w));
    std::string line;
    while (std::getline (s, line))
    {
      size_t tab = line.find ('\t');
      samples[line.substr (0, tab)].push_back (line.substr (tab + 1));
    }
  }
  std::string replaypath;
  if (failed)
  {
    uint64_t h = 0;
    for (uint64_t v : first.tape)
      h = mix64 (h ^ v);
    char nm[64];
    snprintf (nm, sizeof nm, "/%s-%08x.replay", property.id, (unsigned)(h & 0xffffffff));
    replaypath = faildir + nm;
    write_replay (replaypath, ffacet, seed, fidx, first);
  }
  if (!out.empty ())
  {
    std::ofstream f (out);
    f << "{\"evaluations\":" << evals << ",\"discarded\":" << disc << ",\"nontrivial\":" << nt
      << ",\"distinct_nontrivial\":" << distinct.size () << ",\"unreproduced\":" << unreproduced
      << ",\"requested\":" << cases << ",\"wall_s\":" << now () - t0 << ",\"rule\":" << json (property.rule) << ",\"facets\":{";
    bool c = false;
    for (auto &l : fcount)
      f << (c ? "," : "") << json (l.first) << ":" << l.second, c = true;
    f << "},\"labels\":{";
    c = false;
    for (auto &l : labels)
      f << (c ? "," : "") << json (l.first) << ":" << l.second, c = true;
    f << "},\"samples\":[";
    c = false;
    for (auto &s : samples)
      for (auto &x : s.second)
        f << (c ? "," : "") << "{\"facet\":" << json (s.first) << ",\"case\":" << x << "}", c = true;
    f << "],\"known\":[";
    c = false;
    for (auto &k : g_known)
      f << (c ? "," : "") << "{\"key\":" << json (k.key) << ",\"text\":" << json (k.text) << ",\"hits\":" << k.hits << "}", c = true;
    f << "],\"failed\":" << (failed ? "true" : "false");
    if (failed)
      f << ",\"failure\":{\"facet\":" << json (property.facets[ffacet].name) << ",\"key\":" << json (first.key)
        << ",\"msg\":" << json (first.msg) << ",\"desc\":" << json (first.desc) << ",\"replay\":" << json (replaypath)
        << ",\"shrink_runs\":" << shrinkruns << ",\"tape_len\":" << first.tape.size () << "}";
    f << "}\n";
  }
  if (failed)
  {
    printf ("FAILED facet=%s key=%s replay=%s\n--- input\n%s\n--- failure\n%s\n", property.facets[ffacet].name,
            first.key.c_str (), replaypath.c_str (), first.desc.c_str (), first.msg.c_str ());
    return 1;
  }
  if (verbose || out.empty ())
  {
    printf ("ok: %llu cases, %llu nontrivial (%zu distinct), %llu discarded, %llu unreproduced, %.1fs\n",
            (unsigned long long)evals, (unsigned long long)nt, distinct.size (), (unsigned long long)disc,
            (unsigned long long)unreproduced, now () - t0);
    for (auto &l : fcount)
      printf ("  %-24s %llu\n", l.first.c_str (), (unsigned long long)l.second);
    if (verbose)
      for (auto &l : labels)
        printf ("    %-40s %llu\n", l.first.c_str (), (unsigned long long)l.second);
    for (auto &k : g_known)
      printf ("  known %s: %llu\n", k.key.c_str (), (unsigned long long)k.hits);
  }
  return 0;
}
#endif
