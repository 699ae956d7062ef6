// Comparing emitted records, as the library parses them, with what was packed
#pragma once
#include "desc.hpp"
#include "v2.hpp"

// equal apart from members that say nothing (zero, empty, false)
inline bool
extra_same_normed (const std::string &want, const MS3Record *m)
{
  std::string got (m->extra ? m->extra : "", m->extralength);
  Json a = Json::object (), b = Json::object ();
  return (want.empty () || model::json_parse (want, a)) && (got.empty () || model::json_parse (got, b)) && model::json_eq (v2::norm (a), v2::norm (b));
}

// Parse the records and compare everything with the description; returns samples covered
inline size_t
check_records (Gen &g, const Desc &d, int version, const Collector &c, int64_t packed, int rv, bool normed = false)
{
  for (const Bytes &r : c.recs)
    if (version == 2 && v2_ambiguous (r))
      throw pbt::Discard ();
  REQUIRE (rv == (int)c.recs.size (), "record-count", "returned " << rv << ", handler saw " << c.recs.size ());
  size_t pos    = 0;
  MS3Record *m  = nullptr;
  bool onebyone = g.coin (); // reuse one container or a fresh one each time
  if (g.chance (1, 4))
    libmseed_prealloc_block_size = g.pick<size_t> ({16, 100, 1000, 65536});
  for (size_t k = 0; k < c.recs.size (); k++)
  {
    const Bytes &r = c.recs[k];
    REQUIRE ((int)r.size () <= d.reclen, "record-length", "record " << k << " has " << r.size () << " bytes, limit " << d.reclen);
    if (version == 2)
      REQUIRE ((int)r.size () == d.reclen, "record-length", "v2 record " << k << " has " << r.size () << " bytes, want " << d.reclen);
    uint8_t fv  = 0;
    int64_t det = ms3_detect ((const char *)r.data (), r.size (), &fv);
    REQUIRE (det == (int64_t)r.size () && fv == version, "detect", "ms3_detect gives " << det << " version " << (int)fv << " for a v" << version << " record of " << r.size ());
    if (!onebyone && m)
      msr3_free (&m);
    bool separately = g.chance (1, 4);
    int prv         = msr3_parse ((const char *)r.data (), r.size (), &m, (separately ? 0 : MSF_UNPACKDATA) | MSF_VALIDATECRC, 0);
    REQUIRE (prv == MS_NOERROR, "parse", "record " << k << ": msr3_parse returns " << prv << "; " << lg::diag ());
    if (separately && m->samplecnt > 0)
    {
      int64_t u = msr3_unpack_data (m, 0);
      REQUIRE (u == m->samplecnt, "unpack", "record " << k << ": unpacked " << u << " of " << m->samplecnt);
    }
    mem::require_room (m, "parsed record");
    if (g.chance (1, 6))
    {
      int rs = msr3_resize_buffer (m);
      REQUIRE (rs == 0, "resize", "resizing the buffer returns " << rs);
      mem::require_room (m, "parsed record", true);
    }
    REQUIRE (m->formatversion == version && m->reclen == (int)r.size () && m->record == (const char *)r.data (), "container", "record " << k << " version/length/record fields");
    REQUIRE (d.sid == m->sid, "sid", "record " << k << " " << pbt::quote (m->sid) << " want " << pbt::quote (d.sid));
    REQUIRE (m->pubversion == d.pubversion, "pubversion", (int)m->pubversion << " want " << (int)d.pubversion);
    REQUIRE (m->flags == d.flags, "flags", (int)m->flags << " want " << (int)d.flags);
    REQUIRE (rate_ok (version, d.rate, m->samprate), "rate", fmt ("record %zu rate %.17g want %.17g", k, m->samprate, d.rate));
    std::string wantextra = expected_extra (d, version);
    REQUIRE (normed ? extra_same_normed (wantextra, m) : extra_same (wantextra, m), "extra", "record " << k << " has " << std::string (m->extra ? m->extra : "", m->extralength) << " want " << wantextra);
    int64_t want = sample_time (d.start, d.rate, pos);
    REQUIRE (start_ok (d, version, m->starttime, pos), "starttime",
             "record " << k << " of first sample " << pos << " starts " << tstr (m->starttime) << " want " << tstr (want));
    if (d.s.size ())
    {
      REQUIRE (m->encoding == d.enc, "encoding", m->encoding << " want " << d.enc);
      REQUIRE (m->numsamples == m->samplecnt && m->numsamples > 0, "samplecount", m->numsamples << "/" << m->samplecnt);
      REQUIRE (pos + m->numsamples <= d.s.size (), "samples", "more samples than were packed");
      REQUIRE (m->sampletype == d.s.type, "sampletype", m->sampletype << " want " << d.s.type);
      Series part = d.s.slice (pos, m->numsamples);
      if (!part.same (m->datasamples, m->numsamples))
      {
        size_t bad = 0;
        while (memcmp ((char *)m->datasamples + bad * d.s.ssize (), part.at (bad), d.s.ssize ()) == 0)
          bad++;
        Series x = part.slice (bad, std::min<size_t> (4, part.size () - bad));
        pbt::fail ("samples", fmt ("record %zu sample %zu differs: got %s want ", k, bad, pbt::hexdump ((char *)m->datasamples + bad * d.s.ssize (), d.s.ssize ()).c_str ()) + x.show ());
      }
      pos += m->numsamples;
    }
    else
      REQUIRE (m->numsamples == 0 && m->samplecnt == 0, "samplecount", "record without samples reports " << m->samplecnt);
  }
  if (m)
    msr3_free (&m);
  REQUIRE (packed == (int64_t)pos, "packed-count", "reported " << packed << " packed samples, records hold " << pos);
  return pos;
}
