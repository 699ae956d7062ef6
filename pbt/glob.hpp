// Glob patterns as sequences of elements: text, matching, generation
#pragma once
#include "gen.hpp"

namespace globs {
// a pattern as a sequence of elements and its text
struct Elem
{
  enum { ONE, ANY, MANY, SET } kind = ONE;
  char c      = 0;
  bool negate = false;
  std::set<char> set;
};
struct Pattern
{
  std::vector<Elem> e;
  std::string text;
};
inline bool
match (const Pattern &p, const std::string &s)
{
  std::vector<char> at (s.size () + 1, 0); // positions reached
  at[0] = 1;
  for (auto &e : p.e)
  {
    std::vector<char> nx (s.size () + 1, 0);
    bool open = false;
    for (size_t k = 0; k <= s.size (); k++)
    {
      if (e.kind == Elem::MANY)
      {
        open  = open || at[k];
        nx[k] = open;
      }
      else if (at[k] && k < s.size ())
        nx[k + 1] = e.kind == Elem::ANY || (e.kind == Elem::ONE && e.c == s[k]) || (e.kind == Elem::SET && (e.set.count (s[k]) > 0) != e.negate);
    }
    at = nx;
  }
  return at[s.size ()];
}
inline void
add_char (Pattern &p, char c, bool escape)
{
  Elem e;
  e.c = c;
  p.e.push_back (e);
  if (escape)
    p.text += '\\';
  p.text += c;
}
inline void
add_star (Pattern &p)
{
  Elem e;
  e.kind = Elem::MANY;
  p.e.push_back (e);
  p.text += '*';
}
inline void
add_any (Pattern &p)
{
  Elem e;
  e.kind = Elem::ANY;
  p.e.push_back (e);
  p.text += '?';
}
static const std::string SETCH = "ABCHZ019_:ab";
// a set; c is in it unless negated (when not zero)
inline void
add_set (Gen &g, Pattern &p, char c, bool special)
{
  Elem e;
  e.kind     = Elem::SET;
  e.negate   = g.chance (1, 4);
  std::string t = "[";
  if (e.negate)
    t += '^';
  std::string items;
  if (special && g.chance (1, 5))
  {
    char d = g.pick<char> ({']', '-'});
    e.set.insert (d);
    items += d;
  }
  int n = (int)g.range (items.empty () ? 1 : 0, 3);
  size_t put = c && g.coin () ? g.index ((size_t)n + 1) : 99;
  for (int k = 0; k < n; k++)
  {
    if (items == "-" && k == 0 && special)
      ; // a range may follow a hyphen in first place
    char a = (size_t)k == put && isalnum (c) ? c : SETCH[g.index (SETCH.size ())];
    if (g.chance (1, 3))
    {
      char b = SETCH[g.index (SETCH.size ())];
      e.set.insert (a);
      e.set.insert (b); // reversed: the ends only
      for (int x = a; x <= b; x++)
        e.set.insert ((char)x);
      items += std::string () + a + "-" + b;
    }
    else
    {
      e.set.insert (a);
      items += a;
    }
  }
  p.text += t + items + "]";
  p.e.push_back (e);
}
// a pattern near s
inline Pattern
near (Gen &g, const std::string &s, bool special, int stars)
{
  Pattern p;
  for (size_t k = 0; k < s.size ();)
  {
    char c = s[k];
    switch (g.weighted ({12, 2, 2, 1, 1, 1}))
    {
    case 1: add_any (p); k++; break;
    case 2: add_set (g, p, c, special); k++; break;
    case 3:
      if (special)
        add_char (p, c, true);
      else
        add_char (p, c, false);
      k++;
      break;
    case 4:
      if (stars-- > 0)
      {
        add_star (p);
        k += g.range (0, (int64_t)(s.size () - k));
      }
      else
        add_any (p), k++;
      break;
    case 5:
      if (g.chance (1, 4)) // something else
        add_char (p, special ? g.pick<char> ({'X', 'A', '*', '?', '[', '\\', '0'}) : g.pick<char> ({'X', 'A', '0'}), special);
      else
      {
        add_char (p, c, c == '*' || c == '?' || c == '[' || c == '\\');
        k++;
      }
      break;
    default:
      add_char (p, c, c == '*' || c == '?' || c == '[' || c == '\\');
      k++;
    }
  }
  if (g.chance (1, 8))
    add_star (p);
  // an unescaped character that means something else
  return p;
}
inline Pattern
literal (const std::string &s)
{
  Pattern p;
  for (char c : s)
    add_char (p, c, false);
  return p;
}

} // namespace globs
