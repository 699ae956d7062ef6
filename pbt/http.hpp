// An HTTP server on the loopback interface, in this process, whose answers are scripted
#pragma once
#include "gen.hpp"
#include <arpa/inet.h>
#include <atomic>
#include <condition_variable>
#include <map>
#include <memory>
#include <mutex>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/socket.h>
#include <thread>
#include <unistd.h>

namespace http {
struct Answer
{
  int code = 200;
  Bytes body;
  enum Framing { LENGTH, CHUNKED, CLOSE } framing = LENGTH;
  enum Ranges { HONOUR, IGNORE } ranges = HONOUR;
  std::vector<size_t> pieces; // sizes of the pieces it is sent in, again and again
  int pause = 0;              // milliseconds between some of them
  std::string extra;          // header lines
  std::string trailer;        // after the last chunk
  std::string total;          // "*" instead of the length in Content-Range
  int spell = 0;              // how header names are written
  size_t stop  = SIZE_MAX;    // bytes of the body after which the connection is closed
  std::string raw;            // instead of all this
  std::string location;       // redirect
  std::string auth;           // needed credentials ("user:password")
};
struct Request
{
  std::string path;
  std::vector<std::pair<std::string, std::string>> headers;
  const std::string *
  find (const char *name) const
  {
    for (auto &h : headers)
      if (!strcasecmp (h.first.c_str (), name))
        return &h.second;
    return nullptr;
  }
  std::string
  show () const
  {
    std::string s = path;
    for (auto &h : headers)
      s += "\n  " + h.first + ": " + h.second;
    return s;
  }
};

inline std::string
base64 (const std::string &s)
{
  static const char t[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  std::string o;
  for (size_t k = 0; k < s.size (); k += 3)
  {
    uint32_t v = (uint8_t)s[k] << 16 | (k + 1 < s.size () ? (uint8_t)s[k + 1] << 8 : 0) | (k + 2 < s.size () ? (uint8_t)s[k + 2] : 0);
    o += t[v >> 18];
    o += t[v >> 12 & 63];
    o += k + 1 < s.size () ? t[v >> 6 & 63] : '=';
    o += k + 2 < s.size () ? t[v & 63] : '=';
  }
  return o;
}

class Server
{
  int lfd = -1;
  pid_t owner = 0;
  std::mutex mx;
  std::map<std::string, std::shared_ptr<const Answer>> script;
  std::vector<Request> seen;
  std::atomic<uint64_t> epoch{0};

  static bool
  sendall (int c, const char *p, size_t n)
  {
    while (n)
    {
      ssize_t k = ::send (c, p, n, MSG_NOSIGNAL);
      if (k < 0 && errno == EINTR)
        continue;
      if (k <= 0)
        return false;
      p += k;
      n -= (size_t)k;
    }
    return true;
  }
  static std::string
  name (const char *n, int spell)
  {
    std::string s = n;
    for (char &c : s)
      c = spell == 1 ? (char)tolower (c) : spell == 2 ? (char)toupper (c) : c;
    return s;
  }
  // false: the connection is done
  bool
  answer (int c, const Request &q, uint64_t when)
  {
    std::shared_ptr<const Answer> a;
    {
      std::lock_guard<std::mutex> l (mx);
      if (when != epoch)
        return false;
      seen.push_back (q);
      auto i = script.find (q.path);
      if (i != script.end ())
        a = i->second;
    }
    if (!a)
    {
      static const char nf[] = "HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\n\r\n";
      return sendall (c, nf, sizeof nf - 1);
    }
    if (!a->raw.empty ())
    {
      sendall (c, a->raw.data (), a->raw.size ());
      return false;
    }
    int code = a->code;
    std::string head;
    size_t from = 0, to = a->body.size ();
    if (!a->auth.empty ())
    {
      const std::string *h = q.find ("Authorization");
      if (!h || *h != "Basic " + base64 (a->auth))
      {
        std::string r = "HTTP/1.1 401 Unauthorized\r\nWWW-Authenticate: Basic realm=\"data\"\r\nContent-Length: 0\r\n\r\n";
        return sendall (c, r.data (), r.size ());
      }
    }
    if (!a->location.empty ())
    {
      std::string r = fmt ("HTTP/1.1 %d Found\r\n%s: %s\r\n", code, name ("Location", a->spell).c_str (), a->location.c_str ()) + a->extra + "Content-Length: 4\r\n\r\ngone";
      return sendall (c, r.data (), r.size ());
    }
    const std::string *range = q.find ("Range");
    if (range && code == 200 && a->ranges == Answer::HONOUR && !range->compare (0, 6, "bytes="))
    {
      std::string v = range->substr (6);
      size_t dash   = v.find ('-');
      errno         = 0;
      unsigned long long s = strtoull (v.c_str (), nullptr, 10), e = dash + 1 < v.size () ? strtoull (v.c_str () + dash + 1, nullptr, 10) : ULLONG_MAX;
      if (s >= a->body.size () || e < s)
      {
        std::string r = fmt ("HTTP/1.1 416 Range Not Satisfiable\r\nContent-Range: bytes */%zu\r\nContent-Length: 0\r\n\r\n", a->body.size ());
        return sendall (c, r.data (), r.size ());
      }
      code = 206;
      from = (size_t)s;
      to   = e >= a->body.size () ? a->body.size () : (size_t)e + 1;
      head += name ("Content-Range", a->spell) + fmt (": bytes %zu-%zu/", from, to - 1) + (a->total.empty () ? std::to_string (a->body.size ()) : a->total) + "\r\n";
    }
    size_t n = to - from;
    head = fmt ("HTTP/1.1 %d %s\r\n", code, code == 200 ? "OK" : code == 206 ? "Partial Content" : "Other") + a->extra + head;
    if (a->framing == Answer::LENGTH)
      head += name ("Content-Length", a->spell) + fmt (": %zu\r\n", n);
    else if (a->framing == Answer::CHUNKED)
      head += name ("Transfer-Encoding", a->spell) + ": chunked\r\n";
    else
      head += "Connection: close\r\n";
    head += "\r\n";
    if (!sendall (c, head.data (), head.size ()))
      return false;
    size_t pos = from, stop = a->stop > n ? to : from + a->stop, k = 0;
    while (pos < stop)
    {
      size_t m = std::min (stop - pos, a->pieces.empty () ? stop - pos : std::max<size_t> (1, a->pieces[k % a->pieces.size ()]));
      if (a->framing == Answer::CHUNKED)
      {
        std::string h = fmt ("%zx\r\n", m);
        if (!sendall (c, h.data (), h.size ()))
          return false;
      }
      if (!sendall (c, (const char *)&a->body[pos], m))
        return false;
      if (a->framing == Answer::CHUNKED && !sendall (c, "\r\n", 2))
        return false;
      pos += m;
      k++;
      if (a->pause && k < 4)
        usleep (a->pause * 1000);
    }
    if (a->stop != SIZE_MAX)
      return false;
    if (a->framing == Answer::CHUNKED)
    {
      std::string e = "0\r\n" + a->trailer + "\r\n";
      if (!sendall (c, e.data (), e.size ()))
        return false;
    }
    return a->framing != Answer::CLOSE;
  }
  void
  serve (int c)
  {
    uint64_t when = epoch;
    std::string in;
    for (;;)
    {
      size_t e;
      while ((e = in.find ("\r\n\r\n")) == std::string::npos)
      {
        char b[4096];
        ssize_t k = recv (c, b, sizeof b, 0);
        if (k < 0 && errno == EINTR)
          continue;
        if (k <= 0)
          goto out;
        in.append (b, (size_t)k);
      }
      Request q;
      size_t p = in.find ("\r\n");
      std::string line = in.substr (0, p);
      size_t s1 = line.find (' '), s2 = line.rfind (' ');
      q.path = line.substr (s1 + 1, s2 - s1 - 1);
      while (p < e)
      {
        size_t n = in.find ("\r\n", p + 2);
        line     = in.substr (p + 2, n - p - 2);
        size_t k = line.find (':');
        if (k != std::string::npos)
        {
          size_t v = line.find_first_not_of (' ', k + 1);
          q.headers.emplace_back (line.substr (0, k), v == std::string::npos ? "" : line.substr (v));
        }
        p = n;
      }
      in.erase (0, e + 4);
      if (!answer (c, q, when))
        break;
    }
  out:
    shutdown (c, SHUT_WR);
    close (c);
  }

public:
  int port = 0;
  // a server of this process (threads do not survive a fork)
  static Server &
  get ()
  {
    static Server *s = nullptr;
    if (s && s->owner == getpid ())
      return *s;
    s        = new Server;
    s->owner = getpid ();
    s->lfd   = socket (AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
    struct sockaddr_in a = {};
    a.sin_family         = AF_INET;
    a.sin_addr.s_addr    = htonl (INADDR_LOOPBACK);
    socklen_t l          = sizeof a;
    if (s->lfd < 0 || bind (s->lfd, (struct sockaddr *)&a, sizeof a) || listen (s->lfd, 64) || getsockname (s->lfd, (struct sockaddr *)&a, &l))
      pbt::fail ("harness", "cannot listen on the loopback interface");
    s->port   = ntohs (a.sin_port);
    Server *t = s;
    std::thread ([t] {
      for (;;)
      {
        int c = accept4 (t->lfd, nullptr, nullptr, SOCK_CLOEXEC);
        if (c < 0)
          continue;
        int one = 1;
        setsockopt (c, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
        std::thread ([t, c] { t->serve (c); }).detach ();
      }
    }).detach ();
    return *s;
  }
  void
  reset ()
  {
    std::lock_guard<std::mutex> l (mx);
    epoch++;
    script.clear ();
    seen.clear ();
  }
  std::string
  add (const std::string &path, const Answer &a)
  {
    std::lock_guard<std::mutex> l (mx);
    script[path] = std::make_shared<const Answer> (a);
    return fmt ("http://127.0.0.1:%d", port) + path;
  }
  std::vector<Request>
  requests ()
  {
    std::lock_guard<std::mutex> l (mx);
    return seen;
  }
  // a port where nobody listens
  static int
  nobody ()
  {
    int f = socket (AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
    struct sockaddr_in a = {};
    a.sin_family         = AF_INET;
    a.sin_addr.s_addr    = htonl (INADDR_LOOPBACK);
    socklen_t l          = sizeof a;
    bind (f, (struct sockaddr *)&a, sizeof a);
    getsockname (f, (struct sockaddr *)&a, &l);
    close (f);
    return ntohs (a.sin_port);
  }
};
} // namespace http
