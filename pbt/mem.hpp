// Caller-supplied allocator for the library: balance, failure injection, fill
#pragma once
#include "pbt.hpp"
extern "C" {
#include <libmseed.h>
}
#include <unordered_map>

namespace mem {
struct State
{
  std::unordered_map<void *, size_t> table;
  int64_t failat   = -1; // count down; -1 never
  bool failforever = false;
  uint64_t nalloc  = 0;
  uint64_t failed  = 0;
  uint64_t foreign = 0;
  int fill         = -1;
  size_t total     = 0;
  size_t maxsize   = 1ull << 30; // larger requests fail
};
inline State &
st ()
{
  static State *s = new State;
  return *s;
}
inline bool
should_fail (size_t size)
{
  State &s = st ();
  s.nalloc++;
  if (size > s.maxsize)
    return true;
  if (s.failat < 0)
    return false;
  if (s.failat == 0)
  {
    if (!s.failforever)
      s.failat = -1;
    s.failed++;
    return true;
  }
  s.failat--;
  return false;
}
inline void *
m_malloc (size_t size)
{
  if (should_fail (size))
    return nullptr;
  void *p = malloc (size);
  if (p)
  {
    if (st ().fill >= 0)
      memset (p, st ().fill, size);
    st ().table[p] = size;
  }
  return p;
}
inline void
m_free (void *p)
{
  if (!p)
    return;
  auto it = st ().table.find (p);
  if (it == st ().table.end ())
    st ().foreign++; // let the sanitizer judge it
  else
    st ().table.erase (it);
  free (p);
}
inline void *
m_realloc (void *p, size_t size)
{
  if (!p)
    return m_malloc (size);
  if (should_fail (size))
    return nullptr;
  size_t old = 0;
  auto it    = st ().table.find (p);
  if (it == st ().table.end ())
    st ().foreign++;
  else
  {
    old = it->second;
  }
  void *q = realloc (p, size);
  if (q)
  {
    if (it != st ().table.end ())
      st ().table.erase (it);
    if (st ().fill >= 0 && size > old)
      memset ((char *)q + old, st ().fill, size - old);
    st ().table[q] = size;
  }
  return q;
}
// start of a case: forget everything (what an aborted case left behind is released)
inline void
reset ()
{
  State &s = st ();
  for (auto &e : s.table)
    free (e.first);
  s.table.clear ();
  s.failat      = -1;
  s.failforever = false;
  s.nalloc      = 0;
  s.failed      = 0;
  s.foreign     = 0;
  s.fill        = -1;
  s.maxsize     = 1ull << 30;
  libmseed_memory.malloc  = m_malloc;
  libmseed_memory.realloc = m_realloc;
  libmseed_memory.free    = m_free;
}
inline size_t
live ()
{
  return st ().table.size ();
}
// the stated size of the samples of a record or segment is what there is
template <class T>
inline void
require_room (const T *m, const char *what, bool exact = false)
{
  auto it     = st ().table.find (m->datasamples);
  size_t room = it == st ().table.end () ? 0 : it->second;
  if (m->datasize > room || (m->numsamples > 0 && m->datasize < (uint64_t)m->numsamples * ms_samplesize (m->sampletype)))
    pbt::fail ("datasize", std::string (what) + ": datasize " + std::to_string (m->datasize) + " for " + std::to_string (m->numsamples) + " samples in a buffer of " + std::to_string (room));
  if (exact && m->numsamples > 0 && (m->datasize != (uint64_t)m->numsamples * ms_samplesize (m->sampletype) || room != m->datasize))
    pbt::fail ("datasize", std::string (what) + ": datasize " + std::to_string (m->datasize) + " for " + std::to_string (m->numsamples) + " samples, in a buffer of " + std::to_string (room) + ", after resizing");
}
inline std::string
live_sizes ()
{
  std::string s;
  for (auto &e : st ().table)
    s += " " + std::to_string (e.second);
  return s;
}
inline void
require_balanced (const char *what)
{
  if (live ())
    pbt::fail ("memory-leak", std::string (what) + ": allocations not released, sizes" + live_sizes ());
  if (st ().foreign)
    pbt::fail ("foreign-free", std::string (what) + ": released or resized memory that the allocator did not provide");
}
// paint the stack below the caller so that uninitialised locals are visible
__attribute__ ((noinline)) inline void
paint_stack (int fill)
{
  volatile char area[48 * 1024];
  memset ((void *)area, fill, sizeof area);
  __asm__ volatile ("" : : "r"(area) : "memory");
}
} // namespace mem
