// Property-based testing engine: every random choice of a case is drawn from a
// "choice tape".  Generation fills the tape from a seeded PRNG; replay and
// shrinking feed a stored (edited) tape, where missing choices read as 0.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

struct Failure
{
  std::string key; // stable name of the broken requirement
  std::string msg; // details
};
struct Discard
{
};

static inline uint64_t
mix64 (uint64_t x)
{
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}

// Shared (mmap) area one case writes to, so that a crash leaves its tape behind
struct Shared
{
  volatile uint64_t caseidx;
  volatile uint32_t facet;
  volatile uint32_t incase;
  volatile uint64_t ndraws;
  char key[128];
  char msg[6000];
  char desc[8000];
  uint64_t draws[1 << 19];
};

class Gen
{
public:
  enum Mode { RANDOM, REPLAY, BYTES };
  Mode mode = RANDOM;
  uint64_t state = 0;
  const std::vector<uint64_t> *replay = nullptr;
  const uint8_t *bytes = nullptr;
  size_t nbytes = 0;
  size_t pos = 0;
  Shared *sh = nullptr;
  std::string *enc = nullptr; // when set, the draws are also recorded as BYTES input
  bool is_nontrivial = false;
  uint64_t keyhash = 0;
  std::string text;
  std::set<std::string> labels;

  // human readable description of the case; survives a crash
  void
  note (const std::string &t)
  {
    text += t;
    if (sh)
    {
      size_t n = text.size () < sizeof (sh->desc) - 1 ? text.size () : sizeof (sh->desc) - 1;
      memcpy (sh->desc, text.data (), n);
      sh->desc[n] = 0;
    }
  }

  // uniform in [0, bound); bound 0 = full 64 bits
  uint64_t
  raw (uint64_t bound)
  {
    uint64_t v = 0;
    if (mode == RANDOM)
    {
      state += 0x9e3779b97f4a7c15ull;
      uint64_t x = state;
      x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
      x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
      v = x ^ (x >> 31);
      if (bound)
        v = (uint64_t) (((unsigned __int128) v * bound) >> 64);
    }
    else if (mode == REPLAY)
    {
      v = (pos < replay->size ()) ? (*replay)[pos] : 0;
      pos++;
      if (bound && v >= bound)
        v %= bound;
    }
    else
    {
      int need = (bound == 0) ? 8 : (bound <= 256) ? 1 : (bound <= 65536) ? 2 : (bound <= 1ull << 32) ? 4 : 8;
      for (int i = 0; i < need; i++)
        v |= (uint64_t) (pos < nbytes ? bytes[pos] : 0) << (8 * i), pos++;
      if (bound && v >= bound)
        v %= bound;
    }
    if (enc)
    {
      int need = (bound == 0) ? 8 : (bound <= 256) ? 1 : (bound <= 65536) ? 2 : (bound <= 1ull << 32) ? 4 : 8;
      for (int i = 0; i < need; i++)
        *enc += (char)(v >> (8 * i));
    }
    if (sh)
    {
      uint64_t n = sh->ndraws;
      if (n < sizeof (sh->draws) / sizeof (sh->draws[0]))
      {
        sh->draws[n] = v;
        sh->ndraws = n + 1;
      }
      else if (mode == RANDOM)
        v = 0; // tape full: everything further takes the minimal choice
    }
    keyhash = mix64 (keyhash ^ v);
    return v;
  }
  int64_t
  range (int64_t lo, int64_t hi) // inclusive
  {
    if (hi <= lo)
      return lo;
    uint64_t span = (uint64_t) hi - (uint64_t) lo + 1;
    return (int64_t) ((uint64_t)lo + raw (span));
  }
  bool
  chance (int num, int den) // minimal choice is false
  {
    return (int)raw (den) >= den - num;
  }
  bool
  coin ()
  {
    return raw (2);
  }
  size_t
  index (size_t n)
  {
    return n ? raw (n) : 0;
  }
  // pick an index by weights
  size_t
  weighted (std::initializer_list<int> w)
  {
    int tot = 0;
    for (int x : w)
      tot += x;
    int r = (int)raw (tot);
    size_t i = 0;
    for (int x : w)
    {
      if (r < x)
        return i;
      r -= x;
      i++;
    }
    return 0;
  }
  template <class T>
  const T &
  pick (const std::vector<T> &v)
  {
    return v[raw (v.size ())];
  }
  template <class T>
  T
  pick (std::initializer_list<T> v)
  {
    return *(v.begin () + raw (v.size ()));
  }
  // sizes skewed to small
  int64_t
  size (int64_t lo, int64_t hi)
  {
    switch (raw (4))
    {
    case 0: return range (lo, std::min (hi, lo + 3));
    case 1: return range (lo, std::min (hi, lo + 20));
    case 2: return range (lo, lo + (hi - lo) / 4);
    default: return range (lo, hi);
    }
  }
  // signed value of random bit width, magnitude < 2^bits
  int64_t
  bits (int maxbits)
  {
    int b    = (int)raw (maxbits + 1);
    int64_t m = b ? (int64_t)raw (1ull << b) : 0;
    return raw (2) ? -m : m;
  }
  std::string
  str (const std::string &alphabet, size_t lo, size_t hi)
  {
    size_t n = range (lo, hi);
    std::string s;
    for (size_t i = 0; i < n; i++)
      s += alphabet[raw (alphabet.size ())];
    return s;
  }
  void
  label (const std::string &l)
  {
    labels.insert (l);
  }
  void
  nontrivial ()
  {
    is_nontrivial = true;
  }
};

[[noreturn]] void fail (const std::string &key, const std::string &msg);

#define REQUIRE(cond, key, stream)                     \
  do                                                   \
  {                                                    \
    if (!(cond))                                       \
    {                                                  \
      std::ostringstream os_;                          \
      os_ << "[" #cond "] " << stream;                 \
      pbt::fail (key, os_.str ());                     \
    }                                                  \
  } while (0)

#define DISCARD() throw pbt::Discard ()

struct Facet
{
  const char *name;
  int weight;
  void (*fn) (Gen &);
};

struct Property
{
  const char *id;
  const char *rule;
  std::vector<Facet> facets;
  void (*reset) () = nullptr;   // start of each case
  void (*finish) () = nullptr;  // end of each case (only after success); may fail()
};

extern Property property; // provided by the harness

std::string hexdump (const void *p, size_t n, size_t max = 96);
std::string quote (const std::string &s, size_t max = 200);
std::string scratch_dir (); // private directory of this worker, emptied by the runner
} // namespace pbt
