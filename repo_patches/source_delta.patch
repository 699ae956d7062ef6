From 9ed5a10992de7723c9687639816ea03fff754ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:29 +0000
Subject: [PATCH 001/106] fix: report sample values that do not fit INT16
 encoding

---
 libmseed/packdata.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libmseed/packdata.c b/libmseed/packdata.c
index 8187f94..7840c19 100644
--- a/libmseed/packdata.c
+++ b/libmseed/packdata.c
@@ -75,6 +75,13 @@ msr_encode_int16 (int32_t *input, uint64_t samplecount, int16_t *output,
 
   for (idx = 0; idx < samplecount && outputlength >= sizeof (int16_t); idx++)
   {
+    /* Values outside of the 16-bit range cannot be represented */
+    if (input[idx] < INT16_MIN || input[idx] > INT16_MAX)
+    {
+      ms_log (2, "%s: Sample value %d is out of range for 16-bit integers\n", __func__, input[idx]);
+      return -1;
+    }
+
     output[idx] = (int16_t)input[idx];
 
     if (swapflag)
-- 
2.43.0


From fd27070123fcbc5b692e2f2fbb4447e8565cad72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:44 +0000
Subject: [PATCH 002/106] fix: pack only full INT16 records unless flushing

---
 libmseed/pack.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libmseed/pack.c b/libmseed/pack.c
index d9a97dc..224c183 100644
--- a/libmseed/pack.c
+++ b/libmseed/pack.c
@@ -272,6 +272,10 @@ msr3_pack_mseed3 (const MS3Record *msr, void (*record_handler) (char *, int, voi
   {
     maxsamples = (uint32_t)(maxdatabytes / 64) * STEIM2_FRAME_MAX_SAMPLES;
   }
+  else if (encoding == DE_INT16)
+  {
+    maxsamples = maxdatabytes / sizeof (int16_t);
+  }
   else
   {
     maxsamples = maxdatabytes / samplesize;
@@ -730,6 +734,10 @@ msr3_pack_mseed2 (const MS3Record *msr, void (*record_handler) (char *, int, voi
   {
     maxsamples = (int)(maxdatabytes / 64) * STEIM2_FRAME_MAX_SAMPLES;
   }
+  else if (encoding == DE_INT16)
+  {
+    maxsamples = maxdatabytes / sizeof (int16_t);
+  }
   else
   {
     maxsamples = maxdatabytes / samplesize;
-- 
2.43.0


From a7752e279dda63f95fd330ef9a16055a8bf389f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:12 +0000
Subject: [PATCH 003/106] fix: leave room for the terminator of full-length
 blockette 500 strings

---
 libmseed/libmseed.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmseed/libmseed.h b/libmseed/libmseed.h
index c0e1f92..7e347e6 100644
--- a/libmseed/libmseed.h
+++ b/libmseed/libmseed.h
@@ -883,8 +883,8 @@ typedef struct MSEHTimingException
   int usec; /**< [DEPRECATED] microsecond time offset, 0 = not included */
   int receptionquality; /**< Reception quality, 0 to 100% clock accurracy, <0 = not included */
   uint32_t count; /**< The count thereof, 0 = not included */
-  char type[16]; /**< E.g. "MISSING" or "UNEXPECTED", zero length = not included */
-  char clockstatus[128]; /**< Description of clock-specific parameters, zero length = not included */
+  char type[17]; /**< E.g. "MISSING" or "UNEXPECTED", zero length = not included */
+  char clockstatus[129]; /**< Description of clock-specific parameters, zero length = not included */
 } MSEHTimingException;
 
 /**
-- 
2.43.0


From 72fc79cac99087920af5918598ac4fb71b679070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:52 +0000
Subject: [PATCH 004/106] fix: round negative time corrections to the nearest
 unit

---
 libmseed/pack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmseed/pack.c b/libmseed/pack.c
index 224c183..4cd9be3 100644
--- a/libmseed/pack.c
+++ b/libmseed/pack.c
@@ -1097,7 +1097,7 @@ msr3_pack_header2 (const MS3Record *msr, char *record, uint32_t recbuflen, int8_
 
   if (yyjson_ptr_get_num (ehroot, "/FDSN/Time/Correction", &header_number))
   {
-    *pMS2FSDH_TIMECORRECT (record) = HO4d ((int32_t)(header_number * 10000 + 0.5), swapflag);
+    *pMS2FSDH_TIMECORRECT (record) = HO4d ((int32_t)(header_number * 10000 + ((header_number < 0) ? -0.5 : 0.5)), swapflag);
 
     /* Set time correction applied bit in activity flags.
        Rationale: V3 records do not allow unapplied time corrections and unapplied
-- 
2.43.0


From a420ea5d80aa581acadf2010b421ac4581e5280e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:26 +0000
Subject: [PATCH 005/106] fix: read blockette 200 flag bit 2 as wave
 undetermined

---
 libmseed/unpack.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmseed/unpack.c b/libmseed/unpack.c
index 06a59aa..51d5b73 100644
--- a/libmseed/unpack.c
+++ b/libmseed/unpack.c
@@ -459,8 +459,8 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
       eventdetection.signalperiod = HO4f (*pMS2B200_PERIOD (record + blkt_offset), msr->swapflag);
       eventdetection.backgroundestimate = HO4f (*pMS2B200_BACKGROUNDEST (record + blkt_offset), msr->swapflag);
 
-      /* If bit 2 is set, set compression wave according to bit 0 */
-      if (*pMS2B200_FLAGS (record + blkt_offset) & 0x04)
+      /* Unless bit 2 is set (undetermined), set compression wave according to bit 0 */
+      if (!(*pMS2B200_FLAGS (record + blkt_offset) & 0x04))
       {
         if (*pMS2B200_FLAGS (record + blkt_offset) & 0x01)
           strncpy (eventdetection.wave, "DILATATION", sizeof (eventdetection.wave));
-- 
2.43.0


From a5f1fc21154730f4205c25392fb58c21bdf9df3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:55 +0000
Subject: [PATCH 006/106] fix: pack calibration aborts as blockette 395

---
 libmseed/pack.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libmseed/pack.c b/libmseed/pack.c
index 4cd9be3..964c769 100644
--- a/libmseed/pack.c
+++ b/libmseed/pack.c
@@ -1388,6 +1388,12 @@ msr3_pack_header2 (const MS3Record *msr, char *record, uint32_t recbuflen, int8_
           blockette_type   = 390;
           blockette_length = 28;
         }
+        else if (strncasecmp (header_string, "ABORT", 5) == 0 &&
+                 yyjson_ptr_get (ehiterval, "/EndTime"))
+        {
+          blockette_type   = 395;
+          blockette_length = 16;
+        }
       }
       else if (yyjson_ptr_get (ehiterval, "/EndTime"))
       {
-- 
2.43.0


From abf260a0e7a704a91eba4c978d1ba7a94cdf8ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:32 +0000
Subject: [PATCH 007/106] fix: update microseconds of every version 2 record

---
 libmseed/pack.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libmseed/pack.c b/libmseed/pack.c
index 964c769..a78ea64 100644
--- a/libmseed/pack.c
+++ b/libmseed/pack.c
@@ -833,6 +833,10 @@ msr3_pack_mseed2 (const MS3Record *msr, void (*record_handler) (char *, int, voi
     *pMS2FSDH_MIN (rawrec)  = min;
     *pMS2FSDH_SEC (rawrec)  = sec;
     *pMS2FSDH_FSEC (rawrec) = HO2u ((nsec / 100000), swapflag);
+
+    /* Update microsecond offset in Blockette 1001, if present it follows Blockette 1000 */
+    if (headerlen >= 64 && *pMS2B1001_TYPE (rawrec + 56) == HO2u (1001, swapflag))
+      *pMS2B1001_MICROSECOND (rawrec + 56) = (int8_t)((nsec / 1000) - (nsec / 100000) * 100);
   }
 
   if (verbose >= 2)
-- 
2.43.0


From 97ada0eb9d3c6783b52c2aa4f466075dd6132a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:43 +0000
Subject: [PATCH 008/106] fix: look for empty Steim frames in the payload

---
 libmseed/unpack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmseed/unpack.c b/libmseed/unpack.c
index 51d5b73..e8fea2f 100644
--- a/libmseed/unpack.c
+++ b/libmseed/unpack.c
@@ -1083,7 +1083,7 @@ msr3_data_bounds (const MS3Record *msr, uint32_t *dataoffset, uint32_t *datasize
       (msr->encoding == DE_STEIM1 || msr->encoding == DE_STEIM2))
   {
     while (*datasize > 0 &&
-           memcmp (msr->record + (*datasize - 64), nullframe, 64) == 0)
+           memcmp (msr->record + *dataoffset + (*datasize - 64), nullframe, 64) == 0)
     {
       *datasize -= 64;
     }
-- 
2.43.0


From 8d40ee4044814d18bfb5bc983a662ac2d1920e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:50 +0000
Subject: [PATCH 009/106] fix: do not truncate payload sizes to 16 bits

---
 libmseed/unpack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmseed/unpack.c b/libmseed/unpack.c
index e8fea2f..314503f 100644
--- a/libmseed/unpack.c
+++ b/libmseed/unpack.c
@@ -1074,7 +1074,7 @@ msr3_data_bounds (const MS3Record *msr, uint32_t *dataoffset, uint32_t *datasize
     rawsize = msr->samplecnt * samplebytes;
 
     if (rawsize < *datasize)
-      *datasize = (uint16_t)rawsize;
+      *datasize = (uint32_t)rawsize;
   }
 
   /* If datasize is a multiple of 64-bytes and a Steim encoding, test for
-- 
2.43.0


From f7800d2c0d07cb77ddd9bed95c92a88e7749cc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:55 +0000
Subject: [PATCH 010/106] fix: do not read beyond short unaligned buffers when
 calculating CRCs

---
 libmseed/crc32c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmseed/crc32c.c b/libmseed/crc32c.c
index d553409..1a0673d 100644
--- a/libmseed/crc32c.c
+++ b/libmseed/crc32c.c
@@ -328,7 +328,7 @@ static inline uint32_t s_crc_generic_align(
     size_t leading = (4 - input_alignment) & 0x3;
 
     /* Determine what's left without the leading input bytes (might be negative)*/
-    size_t remaining = *length - leading;
+    int remaining = *length - (int)leading;
 
     /* Process unaligned leading input bytes one at a time*/
     if (leading && remaining > 0) {
-- 
2.43.0


From f74e6074ee02057b6d1205dfb7d960dfb2e4b465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:01 +0000
Subject: [PATCH 011/106] fix: do not write to the record when validating the
 CRC

---
 libmseed/unpack.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/libmseed/unpack.c b/libmseed/unpack.c
index 314503f..b91f23e 100644
--- a/libmseed/unpack.c
+++ b/libmseed/unpack.c
@@ -126,11 +126,13 @@ msr3_unpack_mseed3 (const char *record, int reclen, MS3Record **ppmsr,
   /* Validate the CRC */
   if (flags & MSF_VALIDATECRC)
   {
-    /* Save header CRC, set value to 0, calculate CRC, restore CRC */
+    /* Calculate CRC with the header CRC field regarded as 0, the record is not modified */
+    const uint8_t zerocrc[4] = {0};
+
     header_crc = HO4u (*pMS3FSDH_CRC (record), swapflag);
-    memset (pMS3FSDH_CRC(record), 0, sizeof(uint32_t));
-    calculated_crc = ms_crc32c ((const uint8_t*)record, reclen, 0);
-    *pMS3FSDH_CRC(record) = HO4u (header_crc, swapflag);
+    calculated_crc = ms_crc32c ((const uint8_t*)record, 28, 0);
+    calculated_crc = ms_crc32c (zerocrc, 4, calculated_crc);
+    calculated_crc = ms_crc32c ((const uint8_t*)record + 32, reclen - 32, calculated_crc);
 
     if (header_crc != calculated_crc)
     {
-- 
2.43.0


From 8f07721267afedeba5aa17fcb9a73bf36812362b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:07 +0000
Subject: [PATCH 012/106] fix: correct lengths of version 2 blockettes

---
 libmseed/unpack.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/libmseed/unpack.c b/libmseed/unpack.c
index b91f23e..6c826b9 100644
--- a/libmseed/unpack.c
+++ b/libmseed/unpack.c
@@ -1576,19 +1576,19 @@ ms2_blktlen (uint16_t blkttype, const char *blkt, int8_t swapflag)
     blktlen = 12;
     break;
   case 200: /* Generic Event Detection */
-    blktlen = 28;
+    blktlen = 52;
     break;
   case 201: /* Murdock Event Detection */
-    blktlen = 36;
+    blktlen = 60;
     break;
   case 300: /* Step Calibration */
-    blktlen = 32;
+    blktlen = 60;
     break;
   case 310: /* Sine Calibration */
-    blktlen = 32;
+    blktlen = 60;
     break;
   case 320: /* Pseudo-random Calibration */
-    blktlen = 28;
+    blktlen = 64;
     break;
   case 390: /* Generic Calibration */
     blktlen = 28;
@@ -1600,7 +1600,7 @@ ms2_blktlen (uint16_t blkttype, const char *blkt, int8_t swapflag)
     blktlen = 16;
     break;
   case 500: /* Timing */
-    blktlen = 8;
+    blktlen = 200;
     break;
   case 1000: /* Data Only SEED */
     blktlen = 8;
-- 
2.43.0


From cc8736fb620e32820de1e991948ba758073fcc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:13 +0000
Subject: [PATCH 013/106] fix: check that blockette headers are inside the
 record

---
 libmseed/unpack.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/libmseed/unpack.c b/libmseed/unpack.c
index 6c826b9..bf1ccb6 100644
--- a/libmseed/unpack.c
+++ b/libmseed/unpack.c
@@ -417,6 +417,14 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
          (blkt_offset < reclen) &&
          (blkt_offset < MAXRECLEN))
   {
+    /* Make sure blockette header is contained within the record buffer */
+    if ((blkt_offset + 4) > reclen)
+    {
+      ms_log (2, "%s: Blockette header at byte %d extends beyond record size, truncated?\n",
+              msr->sid, blkt_offset);
+      break;
+    }
+
     /* Every blockette has a similar 4 byte header: type and next */
     memcpy (&blkt_type, record + blkt_offset, 2);
     memcpy (&next_blkt, record + blkt_offset + 2, 2);
@@ -427,8 +435,11 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
       ms_gswap2 (&next_blkt);
     }
 
-    /* Get blockette length */
-    blkt_length = ms2_blktlen (blkt_type, record + blkt_offset, msr->swapflag);
+    /* Get blockette length, for Blockette 2000 this is a field following the header */
+    if (blkt_type == 2000 && (blkt_offset + 6) > reclen)
+      blkt_length = 6;
+    else
+      blkt_length = ms2_blktlen (blkt_type, record + blkt_offset, msr->swapflag);
 
     if (blkt_length == 0)
     {
-- 
2.43.0


From a6cd8c0259ce3ec512ed2ff8dd7abd4bea516a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:19 +0000
Subject: [PATCH 014/106] fix: limit version 2 record length to the specified
 length

---
 libmseed/unpack.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/libmseed/unpack.c b/libmseed/unpack.c
index bf1ccb6..fb638e7 100644
--- a/libmseed/unpack.c
+++ b/libmseed/unpack.c
@@ -834,8 +834,18 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
     {
       B1000offset = blkt_offset;
 
-      /* Calculate record length in bytes as 2^(B1000->reclen) */
-      msr->reclen = (uint32_t)1 << *pMS2B1000_RECLEN (record + blkt_offset);
+      /* Calculate record length in bytes as 2^(B1000->reclen), never beyond the specified length */
+      if (*pMS2B1000_RECLEN (record + blkt_offset) < 31 &&
+          ((int32_t)1 << *pMS2B1000_RECLEN (record + blkt_offset)) <= reclen)
+      {
+        msr->reclen = (int32_t)1 << *pMS2B1000_RECLEN (record + blkt_offset);
+      }
+      else
+      {
+        ms_log (1, "%s: Warning: Record length in Blockette 1000 (2^%u) is beyond specified length (%d)\n",
+                msr->sid, *pMS2B1000_RECLEN (record + blkt_offset), reclen);
+        msr->reclen = reclen;
+      }
 
       /* Compare against the specified length */
       if (msr->reclen != reclen && verbose)
-- 
2.43.0


From 9b6a45235f1e904b126b1c6ccf7b9a091a78d18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:39 +0000
Subject: [PATCH 015/106] fix: free parsed extra headers when a blockette
 cannot be mapped

---
 libmseed/unpack.c | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/libmseed/unpack.c b/libmseed/unpack.c
index fb638e7..dea772a 100644
--- a/libmseed/unpack.c
+++ b/libmseed/unpack.c
@@ -490,7 +490,10 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
 
       eventdetection.onsettime = ms_btime2nstime ((uint8_t*)pMS2B200_YEAR (record + blkt_offset), msr->swapflag);
       if (eventdetection.onsettime == NSTERROR)
+      {
+        mseh_free_parsestate (&parsestate);
         return MS_GENERROR;
+      }
 
       memset (eventdetection.medsnr, 0, 6);
       eventdetection.medlookback = -1;
@@ -500,6 +503,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
       if (mseh_add_event_detection_r (msr, NULL, &eventdetection, &parsestate))
       {
         ms_log (2, "%s: Problem mapping Blockette 200 to extra headers\n", msr->sid);
+        mseh_free_parsestate (&parsestate);
         return MS_GENERROR;
       }
     }
@@ -523,7 +527,10 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
 
       eventdetection.onsettime = ms_btime2nstime ((uint8_t*)pMS2B201_YEAR (record + blkt_offset), msr->swapflag);
       if (eventdetection.onsettime == NSTERROR)
+      {
+        mseh_free_parsestate (&parsestate);
         return MS_GENERROR;
+      }
 
       memcpy (eventdetection.medsnr, pMS2B201_MEDSNR (record + blkt_offset), 6);
       eventdetection.medlookback = *pMS2B201_LOOPBACK (record + blkt_offset);
@@ -533,6 +540,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
       if (mseh_add_event_detection_r (msr, NULL, &eventdetection, &parsestate))
       {
         ms_log (2, "%s: Problem mapping Blockette 201 to extra headers\n", msr->sid);
+        mseh_free_parsestate (&parsestate);
         return MS_GENERROR;
       }
     }
@@ -546,7 +554,10 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
 
       calibration.begintime = ms_btime2nstime ((uint8_t*)pMS2B300_YEAR (record + blkt_offset), msr->swapflag);
       if (calibration.begintime == NSTERROR)
+      {
+        mseh_free_parsestate (&parsestate);
         return MS_GENERROR;
+      }
 
       calibration.endtime = NSTERROR;
       calibration.steps = *pMS2B300_NUMCALIBRATIONS (record + blkt_offset);
@@ -588,6 +599,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
       if (mseh_add_calibration_r (msr, NULL, &calibration, &parsestate))
       {
         ms_log (2, "%s: Problem mapping Blockette 300 to extra headers\n", msr->sid);
+        mseh_free_parsestate (&parsestate);
         return MS_GENERROR;
       }
     }
@@ -601,7 +613,10 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
 
       calibration.begintime = ms_btime2nstime ((uint8_t*)pMS2B310_YEAR (record + blkt_offset), msr->swapflag);
       if (calibration.begintime == NSTERROR)
+      {
+        mseh_free_parsestate (&parsestate);
         return MS_GENERROR;
+      }
 
       calibration.endtime = NSTERROR;
       calibration.steps = -1;
@@ -645,6 +660,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
       if (mseh_add_calibration_r (msr, NULL, &calibration, &parsestate))
       {
         ms_log (2, "%s: Problem mapping Blockette 310 to extra headers\n", msr->sid);
+        mseh_free_parsestate (&parsestate);
         return MS_GENERROR;
       }
     }
@@ -658,7 +674,10 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
 
       calibration.begintime = ms_btime2nstime ((uint8_t*)pMS2B320_YEAR (record + blkt_offset), msr->swapflag);
       if (calibration.begintime == NSTERROR)
+      {
+        mseh_free_parsestate (&parsestate);
         return MS_GENERROR;
+      }
 
       calibration.endtime = NSTERROR;
       calibration.steps = -1;
@@ -696,6 +715,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
       if (mseh_add_calibration_r (msr, NULL, &calibration, &parsestate))
       {
         ms_log (2, "%s: Problem mapping Blockette 320 to extra headers\n", msr->sid);
+        mseh_free_parsestate (&parsestate);
         return MS_GENERROR;
       }
     }
@@ -709,7 +729,10 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
 
       calibration.begintime = ms_btime2nstime ((uint8_t*)pMS2B390_YEAR (record + blkt_offset), msr->swapflag);
       if (calibration.begintime == NSTERROR)
+      {
+        mseh_free_parsestate (&parsestate);
         return MS_GENERROR;
+      }
 
       calibration.endtime = NSTERROR;
       calibration.steps = -1;
@@ -743,6 +766,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
       if (mseh_add_calibration_r (msr, NULL, &calibration, &parsestate))
       {
         ms_log (2, "%s: Problem mapping Blockette 390 to extra headers\n", msr->sid);
+        mseh_free_parsestate (&parsestate);
         return MS_GENERROR;
       }
     }
@@ -758,7 +782,10 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
 
       calibration.endtime = ms_btime2nstime ((uint8_t*)pMS2B395_YEAR (record + blkt_offset), msr->swapflag);
       if (calibration.endtime == NSTERROR)
+      {
+        mseh_free_parsestate (&parsestate);
         return MS_GENERROR;
+      }
 
       calibration.steps = -1;
       calibration.firstpulsepositive = -1;
@@ -781,6 +808,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
       if (mseh_add_calibration_r (msr, NULL, &calibration, &parsestate))
       {
         ms_log (2, "%s: Problem mapping Blockette 395 to extra headers\n", msr->sid);
+        mseh_free_parsestate (&parsestate);
         return MS_GENERROR;
       }
     }
@@ -806,7 +834,10 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
 
       exception.time = ms_btime2nstime ((uint8_t*)pMS2B500_YEAR (record + blkt_offset), msr->swapflag);
       if (exception.time == NSTERROR)
+      {
+        mseh_free_parsestate (&parsestate);
         return MS_GENERROR;
+      }
 
       /* Apply microsecond precision if non-zero */
       if (*pMS2B500_MICROSECOND (record + blkt_offset) != 0)
@@ -822,6 +853,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
       if (mseh_add_timing_exception_r (msr, NULL, &exception, &parsestate))
       {
         ms_log (2, "%s: Problem mapping Blockette 500 to extra headers\n", msr->sid);
+        mseh_free_parsestate (&parsestate);
         return MS_GENERROR;
       }
 
@@ -870,6 +902,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
         if (!(msr->extra = (char *)libmseed_memory.malloc (length + 1)))
         {
           ms_log (2, "%s: Cannot allocate memory for extra headers\n", msr->sid);
+          mseh_free_parsestate (&parsestate);
           return MS_GENERROR;
         }
         memcpy (msr->extra, sval, length + 1);
-- 
2.43.0


From b7748b9ac20f3db1d96c8030c25ebc5b30599817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:45 +0000
Subject: [PATCH 016/106] fix: do not replace existing extra headers for
 blockette 1001

---
 libmseed/unpack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmseed/unpack.c b/libmseed/unpack.c
index dea772a..5038bfd 100644
--- a/libmseed/unpack.c
+++ b/libmseed/unpack.c
@@ -894,7 +894,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
       B1001offset = blkt_offset;
 
       /* Optimization: if no other extra headers yet, directly print this common value */
-      if (parsestate == NULL)
+      if (parsestate == NULL && msr->extra == NULL)
       {
         length = snprintf (sval, sizeof(sval), "{\"FDSN\":{\"Time\":{\"Quality\":%d}}}",
                            *pMS2B1001_TIMINGQUALITY (record + blkt_offset));
-- 
2.43.0


From 45a8842a4567fe7d755044b32a5277b32a323f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:14 +0000
Subject: [PATCH 017/106] fix: locate version 3 payload with the lengths in the
 record

---
 libmseed/unpack.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libmseed/unpack.c b/libmseed/unpack.c
index 5038bfd..4e9e5c3 100644
--- a/libmseed/unpack.c
+++ b/libmseed/unpack.c
@@ -1090,8 +1090,11 @@ msr3_data_bounds (const MS3Record *msr, uint32_t *dataoffset, uint32_t *datasize
   /* Determine offset to data */
   if (msr->formatversion == 3)
   {
-    *dataoffset = MS3FSDH_LENGTH + (uint32_t)strlen (msr->sid) + msr->extralength;
-    *datasize = msr->datalength;
+    /* Use lengths in the record, the parsed identifier and extra headers may be different */
+    *dataoffset = MS3FSDH_LENGTH +
+                  *pMS3FSDH_SIDLENGTH (msr->record) +
+                  HO2u (*pMS3FSDH_EXTRALENGTH (msr->record), msr->swapflag & MSSWAP_HEADER);
+    *datasize = HO4u (*pMS3FSDH_DATALENGTH (msr->record), msr->swapflag & MSSWAP_HEADER);
   }
   else if (msr->formatversion == 2)
   {
-- 
2.43.0


From b0ecf7e17f73d6fd6c3e8303ed6dc3414824357c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:19 +0000
Subject: [PATCH 018/106] fix: check that version 2 data offset is inside the
 record

---
 libmseed/unpack.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/libmseed/unpack.c b/libmseed/unpack.c
index 4e9e5c3..2731918 100644
--- a/libmseed/unpack.c
+++ b/libmseed/unpack.c
@@ -1099,7 +1099,16 @@ msr3_data_bounds (const MS3Record *msr, uint32_t *dataoffset, uint32_t *datasize
   else if (msr->formatversion == 2)
   {
     *dataoffset = HO2u (*pMS2FSDH_DATAOFFSET (msr->record), msr->swapflag & MSSWAP_HEADER);
-    *datasize = msr->reclen - *dataoffset;
+
+    if (msr->reclen < 0 || *dataoffset > (uint32_t)msr->reclen)
+    {
+      ms_log (2, "%s: Data offset (%u) is beyond record length (%d)\n",
+              msr->sid, *dataoffset, msr->reclen);
+      return MS_GENERROR;
+    }
+
+    /* No data offset means there is no data payload */
+    *datasize = (*dataoffset > 0) ? msr->reclen - *dataoffset : 0;
   }
   else
   {
-- 
2.43.0


From e08573290eb1565614441612adfb2aaca2ea8a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:24 +0000
Subject: [PATCH 019/106] fix: check that payload contains the samples to
 decode

---
 libmseed/unpack.c | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/libmseed/unpack.c b/libmseed/unpack.c
index 2731918..c641eaa 100644
--- a/libmseed/unpack.c
+++ b/libmseed/unpack.c
@@ -1347,6 +1347,7 @@ ms_decode_data (const void *input, uint64_t inputsize, uint8_t encoding,
   uint64_t decodedsize; /* byte size of decodeded samples */
   int64_t nsamples; /* number of samples unpacked */
   uint8_t samplesize = 0; /* size of the data samples in bytes */
+  uint8_t encodedsize = 0; /* size of fixed-size encoded samples in bytes */
 
   if (!input || !output || !sampletype)
   {
@@ -1371,6 +1372,39 @@ ms_decode_data (const void *input, uint64_t inputsize, uint8_t encoding,
     return MS_GENERROR;
   }
 
+  /* Check that input contains all samples of fixed-size encodings */
+  switch (encoding)
+  {
+  case DE_TEXT:
+    encodedsize = 1;
+    break;
+  case DE_INT16:
+  case DE_GEOSCOPE163:
+  case DE_GEOSCOPE164:
+  case DE_CDSN:
+  case DE_SRO:
+  case DE_DWWSSN:
+    encodedsize = 2;
+    break;
+  case DE_GEOSCOPE24:
+    encodedsize = 3;
+    break;
+  case DE_INT32:
+  case DE_FLOAT32:
+    encodedsize = 4;
+    break;
+  case DE_FLOAT64:
+    encodedsize = 8;
+    break;
+  }
+
+  if (encodedsize && samplecount > inputsize / encodedsize)
+  {
+    ms_log (2, "%s: Input (%" PRIu64 " bytes) does not contain %" PRIu64 " samples of encoding %s\n",
+            (sid) ? sid : "", inputsize, samplecount, (char *)ms_encodingstr (encoding));
+    return MS_GENERROR;
+  }
+
   /* Decode data samples according to encoding */
   switch (encoding)
   {
-- 
2.43.0


From c5997eaa808065004d44be0b9fefa13f49611d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:14 +0000
Subject: [PATCH 020/106] fix: include identifier in size check when repacking

---
 libmseed/pack.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libmseed/pack.c b/libmseed/pack.c
index a78ea64..eb3fbb0 100644
--- a/libmseed/pack.c
+++ b/libmseed/pack.c
@@ -442,10 +442,10 @@ msr3_repack_mseed3 (const MS3Record *msr, char *record, uint32_t recbuflen,
     return -1;
   }
 
-  if (recbuflen < (uint32_t)(MS3FSDH_LENGTH + msr->extralength + origdatasize))
+  if (recbuflen < (uint64_t)dataoffset + origdatasize)
   {
-    ms_log (2, "%s: Destination record buffer length (%u) is not large enough for record (%d)\n",
-            msr->sid, recbuflen, (MS3FSDH_LENGTH + msr->extralength + origdatasize));
+    ms_log (2, "%s: Destination record buffer length (%u) is not large enough for record (%" PRIu64 ")\n",
+            msr->sid, recbuflen, (uint64_t)dataoffset + origdatasize);
     return -1;
   }
 
-- 
2.43.0


From 03a6939b8e0f52c6ca8a5373d86107eca102a652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:20 +0000
Subject: [PATCH 021/106] fix: limit MEDSNR values to those of blockette 201

---
 libmseed/pack.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libmseed/pack.c b/libmseed/pack.c
index eb3fbb0..17eb6b6 100644
--- a/libmseed/pack.c
+++ b/libmseed/pack.c
@@ -1338,6 +1338,10 @@ msr3_pack_header2 (const MS3Record *msr, char *record, uint32_t recbuflen, int8_
             if (!yyjson_is_num (ehsubiterval))
               continue;
 
+            /* Blockette 201 contains 6 values */
+            if (idx >= 6)
+              break;
+
             pMS2B201_MEDSNR (record + written)[idx++] = (uint8_t)yyjson_get_num (ehsubiterval);
           }
         }
-- 
2.43.0


From 308e6b39dda5d37792b93db37b4d38c3bd59dc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:26 +0000
Subject: [PATCH 022/106] fix: keep MEDLookback and MEDPickAlgorithm values of
 255

---
 libmseed/pack.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmseed/pack.c b/libmseed/pack.c
index 17eb6b6..51fd360 100644
--- a/libmseed/pack.c
+++ b/libmseed/pack.c
@@ -1346,10 +1346,10 @@ msr3_pack_header2 (const MS3Record *msr, char *record, uint32_t recbuflen, int8_
           }
         }
 
-        if (yyjson_ptr_get_uint (ehiterval, "/MEDLookback", &header_uint) && header_uint < UINT8_MAX)
+        if (yyjson_ptr_get_uint (ehiterval, "/MEDLookback", &header_uint) && header_uint <= UINT8_MAX)
           *pMS2B201_LOOPBACK (record + written) = (uint8_t)header_uint;
 
-        if (yyjson_ptr_get_uint (ehiterval, "/MEDPickAlgorithm", &header_uint) && header_uint < UINT8_MAX)
+        if (yyjson_ptr_get_uint (ehiterval, "/MEDPickAlgorithm", &header_uint) && header_uint <= UINT8_MAX)
           *pMS2B201_PICKALGORITHM (record + written) = (uint8_t)header_uint;
 
         if (yyjson_ptr_get_str (ehiterval, "/Detector", &header_string))
-- 
2.43.0


From 6b458a42207f599e49dc11b93a52bdee0aa0ae19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:33 +0000
Subject: [PATCH 023/106] fix: free record buffers on packing errors

---
 libmseed/pack.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libmseed/pack.c b/libmseed/pack.c
index 51fd360..3f0bd83 100644
--- a/libmseed/pack.c
+++ b/libmseed/pack.c
@@ -225,6 +225,7 @@ msr3_pack_mseed3 (const MS3Record *msr, void (*record_handler) (char *, int, voi
   if (dataoffset < 0)
   {
     ms_log (2, "%s: Cannot pack miniSEED version 3 header\n", msr->sid);
+    libmseed_memory.free (rawrec);
     return -1;
   }
 
@@ -258,6 +259,7 @@ msr3_pack_mseed3 (const MS3Record *msr, void (*record_handler) (char *, int, voi
   if (!samplesize)
   {
     ms_log (2, "%s: Unknown sample type '%c'\n", msr->sid, msr->sampletype);
+    libmseed_memory.free (rawrec);
     return -1;
   }
 
@@ -352,6 +354,7 @@ msr3_pack_mseed3 (const MS3Record *msr, void (*record_handler) (char *, int, voi
     if (ms_nstime2time (nextstarttime, &year, &day, &hour, &min, &sec, &nsec))
     {
       ms_log (2, "%s: Cannot convert next record starttime: %" PRId64 "\n", msr->sid, nextstarttime);
+      libmseed_memory.free (encoded);
       libmseed_memory.free (rawrec);
       return -1;
     }
@@ -672,7 +675,10 @@ msr3_pack_mseed2 (const MS3Record *msr, void (*record_handler) (char *, int, voi
   headerlen = msr3_pack_header2 (msr, rawrec, reclen, verbose);
 
   if (headerlen < 0)
+  {
+    libmseed_memory.free (rawrec);
     return -1;
+  }
 
   /* Short cut: if there are no samples, record packing is complete */
   if (msr->numsamples <= 0)
@@ -702,6 +708,7 @@ msr3_pack_mseed2 (const MS3Record *msr, void (*record_handler) (char *, int, voi
   if (!samplesize)
   {
     ms_log (2, "%s: Unknown sample type '%c'\n", msr->sid, msr->sampletype);
+    libmseed_memory.free (rawrec);
     return -1;
   }
 
-- 
2.43.0


From 4612d53807d6f4b2e332cbea85082012c5ed2ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:51 +0000
Subject: [PATCH 024/106] fix: check buffer length before packing version 2
 header

---
 libmseed/pack.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libmseed/pack.c b/libmseed/pack.c
index 3f0bd83..89c8792 100644
--- a/libmseed/pack.c
+++ b/libmseed/pack.c
@@ -933,6 +933,14 @@ msr3_pack_header2 (const MS3Record *msr, char *record, uint32_t recbuflen, int8_
     return -1;
   }
 
+  /* Check that buffer is large enough for the fixed header and blockettes 1000, 1001 and 100 */
+  if (recbuflen < 48 + 8 + 8 + 12)
+  {
+    ms_log (2, "%s: Buffer length (%u) is not large enough for miniSEED 2 header\n",
+            msr->sid, recbuflen);
+    return -1;
+  }
+
   /* Check that record length is a power of 2.
    * Power of two if (X & (X - 1)) == 0 */
   if ((reclen & (reclen - 1)) != 0)
-- 
2.43.0


From 598c421637038490b9a76217e282d03cbed99606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:51 +0000
Subject: [PATCH 025/106] fix: report too many version 2 blockettes

---
 libmseed/pack.c | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/libmseed/pack.c b/libmseed/pack.c
index 89c8792..b02bb7f 100644
--- a/libmseed/pack.c
+++ b/libmseed/pack.c
@@ -1196,6 +1196,13 @@ msr3_pack_header2 (const MS3Record *msr, char *record, uint32_t recbuflen, int8_
 
       blockette_length = 200;
 
+      if (*pMS2FSDH_NUMBLOCKETTES (record) == UINT8_MAX)
+      {
+        ms_log (2, "%s: Too many blockettes for a miniSEED 2 record\n", msr->sid);
+        yyjson_doc_free (ehdoc);
+        return -1;
+      }
+
       if ((recbuflen - written) < blockette_length)
       {
         ms_log (2, "%s: Record length not large enough for B500\n", msr->sid);
@@ -1280,6 +1287,13 @@ msr3_pack_header2 (const MS3Record *msr, char *record, uint32_t recbuflen, int8_
         blockette_length = 52;
       }
 
+      if (*pMS2FSDH_NUMBLOCKETTES (record) == UINT8_MAX)
+      {
+        ms_log (2, "%s: Too many blockettes for a miniSEED 2 record\n", msr->sid);
+        yyjson_doc_free (ehdoc);
+        return -1;
+      }
+
       if ((recbuflen - written) < blockette_length )
       {
         ms_log (2, "%s: Record length not large enough for B%u\n", msr->sid, blockette_type);
@@ -1431,6 +1445,13 @@ msr3_pack_header2 (const MS3Record *msr, char *record, uint32_t recbuflen, int8_
         return -1;
       }
 
+      if (*pMS2FSDH_NUMBLOCKETTES (record) == UINT8_MAX)
+      {
+        ms_log (2, "%s: Too many blockettes for a miniSEED 2 record\n", msr->sid);
+        yyjson_doc_free (ehdoc);
+        return -1;
+      }
+
       if ((recbuflen - written) < blockette_length )
       {
         ms_log (2, "%s: Record length not large enough for B%u\n", msr->sid, blockette_type);
@@ -1602,6 +1623,13 @@ msr3_pack_header2 (const MS3Record *msr, char *record, uint32_t recbuflen, int8_
         blockette_type  = 395;
         blockette_length = 16;
 
+        if (*pMS2FSDH_NUMBLOCKETTES (record) == UINT8_MAX)
+        {
+          ms_log (2, "%s: Too many blockettes for a miniSEED 2 record\n", msr->sid);
+          yyjson_doc_free (ehdoc);
+          return -1;
+        }
+
         if ((recbuflen - written) < blockette_length)
         {
           ms_log (2, "%s: Record length not large enough for B%u\n", msr->sid, blockette_type);
-- 
2.43.0


From 79dca38c08d27e216a1480f2005ec8f0b7cf9cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:25 +0000
Subject: [PATCH 026/106] fix: write blockette 100 rate in Hertz

---
 libmseed/pack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmseed/pack.c b/libmseed/pack.c
index b02bb7f..10fb82d 100644
--- a/libmseed/pack.c
+++ b/libmseed/pack.c
@@ -1177,7 +1177,7 @@ msr3_pack_header2 (const MS3Record *msr, char *record, uint32_t recbuflen, int8_
 
     *pMS2B100_TYPE (record + written)     = HO2u (100, swapflag);
     *pMS2B100_NEXT (record + written)     = 0;
-    *pMS2B100_SAMPRATE (record + written) = HO4f ((float)msr->samprate, swapflag);
+    *pMS2B100_SAMPRATE (record + written) = HO4f ((float)msr3_sampratehz (msr), swapflag);
     *pMS2B100_FLAGS (record + written)    = 0;
     memset (pMS2B100_RESERVED (record + written), 0, 3);
 
-- 
2.43.0


From 0ffecd7c0fe771d6f77a35bc92abca290b3ebf23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:50 +0000
Subject: [PATCH 027/106] fix: decode little endian GEOSCOPE 24-bit data

---
 libmseed/unpackdata.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/libmseed/unpackdata.c b/libmseed/unpackdata.c
index 0414b67..b4d1b46 100644
--- a/libmseed/unpackdata.c
+++ b/libmseed/unpackdata.c
@@ -629,10 +629,7 @@ msr_decode_geoscope (char *input, uint64_t samplecount, float *output,
   int16_t sint;
   double dsample = 0.0;
 
-  union {
-    uint8_t b[4];
-    uint32_t i;
-  } sample32;
+  uint32_t sample24;
 
   if (samplecount == 0)
     return 0;
@@ -655,15 +652,18 @@ msr_decode_geoscope (char *input, uint64_t samplecount, float *output,
     switch (encoding)
     {
     case DE_GEOSCOPE24:
-      sample32.i = 0;
-      if (swapflag)
-        for (k = 0; k < 3; k++)
-          sample32.b[2 - k] = input[k];
-      else
-        for (k = 0; k < 3; k++)
-          sample32.b[1 + k] = input[k];
+      /* Place bytes in the low-order 24 bits, data are big endian if swapping
+       * is needed on a little endian host or not on a big endian host */
+      sample24 = 0;
+      for (k = 0; k < 3; k++)
+      {
+        if ((swapflag != 0) != (ms_bigendianhost () != 0))
+          sample24 |= (uint32_t)(uint8_t)input[k] << (8 * (2 - k));
+        else
+          sample24 |= (uint32_t)(uint8_t)input[k] << (8 * k);
+      }
 
-      mantissa = sample32.i;
+      mantissa = sample24;
 
       /* Take 2's complement for mantissa for overflow */
       if ((unsigned long)mantissa > MAX24)
-- 
2.43.0


From 59a041cec24517ae2362e9df1f8c52ec58e8bbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:19 +0000
Subject: [PATCH 028/106] fix: reject blockette 1000 record length exponents
 that cannot be a length

---
 libmseed/parseutils.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libmseed/parseutils.c b/libmseed/parseutils.c
index 0ce29ec..a9dc8c3 100644
--- a/libmseed/parseutils.c
+++ b/libmseed/parseutils.c
@@ -243,7 +243,14 @@ ms3_detect (const char *record, uint64_t recbuflen, uint8_t *formatversion)
 
         /* Field 3 of B1000 is a uint8_t value describing the record
          * length as 2^(value).  Calculate 2-raised with a shift. */
-        reclen = (uint64_t)1 << *pMS2B1000_RECLEN (record + blkt_offset);
+        if (*pMS2B1000_RECLEN (record + blkt_offset) > 62)
+        {
+          ms_log (2, "Invalid record length exponent in blockette 1000: %u\n",
+                  *pMS2B1000_RECLEN (record + blkt_offset));
+          return -1;
+        }
+
+        reclen = (int64_t)1 << *pMS2B1000_RECLEN (record + blkt_offset);
 
         break;
       }
-- 
2.43.0


From de8a98b33b2ae7127049634a3ac807b606b300bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:22 +0000
Subject: [PATCH 029/106] fix: do not read v2 header fields beyond a short
 buffer in detection

---
 libmseed/parseutils.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libmseed/parseutils.c b/libmseed/parseutils.c
index a9dc8c3..69b3c80 100644
--- a/libmseed/parseutils.c
+++ b/libmseed/parseutils.c
@@ -215,6 +215,10 @@ ms3_detect (const char *record, uint64_t recbuflen, uint8_t *formatversion)
   {
     *formatversion = 2;
 
+    /* Length cannot be determined without a complete fixed section header */
+    if (recbuflen < 48)
+      return 0;
+
     /* Check to see if byte swapping is needed by checking for sane year and day */
     if (!MS_ISVALIDYEARDAY (*pMS2FSDH_YEAR(record), *pMS2FSDH_DAY(record)))
       swapflag = 1;
-- 
2.43.0


From 32befcc420527c1c85727974e4ad1c8365f45718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:28 +0000
Subject: [PATCH 030/106] fix: check that the blockette header is inside the
 buffer in detection

---
 libmseed/parseutils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmseed/parseutils.c b/libmseed/parseutils.c
index 69b3c80..b80c87b 100644
--- a/libmseed/parseutils.c
+++ b/libmseed/parseutils.c
@@ -228,7 +228,7 @@ ms3_detect (const char *record, uint64_t recbuflen, uint8_t *formatversion)
     /* Loop through blockettes as long as number is non-zero and viable */
     while (blkt_offset != 0 &&
            blkt_offset > 47 &&
-           blkt_offset <= recbuflen)
+           (uint64_t)(blkt_offset + 4) <= recbuflen)
     {
       memcpy (&blkt_type, record + blkt_offset, 2);
       memcpy (&next_blkt, record + blkt_offset + 2, 2);
-- 
2.43.0


From b5a9e082cef59b03fa3ae33c6a7fe5be2906c269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:35 +0000
Subject: [PATCH 031/106] fix: calculate v3 record length without 32-bit wrap

---
 libmseed/parseutils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmseed/parseutils.c b/libmseed/parseutils.c
index b80c87b..5b52d75 100644
--- a/libmseed/parseutils.c
+++ b/libmseed/parseutils.c
@@ -207,7 +207,7 @@ ms3_detect (const char *record, uint64_t recbuflen, uint8_t *formatversion)
     reclen = MS3FSDH_LENGTH                   /* Length of fixed portion of header */
              + *pMS3FSDH_SIDLENGTH (record)   /* Length of source identifier */
              + *pMS3FSDH_EXTRALENGTH (record) /* Length of extra headers */
-             + *pMS3FSDH_DATALENGTH (record); /* Length of data payload */
+             + (int64_t)*pMS3FSDH_DATALENGTH (record); /* Length of data payload */
 
     foundlen = 1;
   }
-- 
2.43.0


From 16fe0efcc6a306afe6df64168076a7cc66e0fceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:58 +0000
Subject: [PATCH 032/106] fix: check record length exponent when printing raw
 v2 headers

---
 libmseed/parseutils.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/libmseed/parseutils.c b/libmseed/parseutils.c
index 5b52d75..ad38064 100644
--- a/libmseed/parseutils.c
+++ b/libmseed/parseutils.c
@@ -1171,7 +1171,16 @@ ms_parse_raw2 (const char *record, int maxreclen, int8_t details, int8_t swapfla
         char order[40];
 
         /* Calculate record size in bytes as 2^(blkt_1000->rec_len) */
-        b1000reclen = (uint32_t)1 << *pMS2B1000_RECLEN (record + blkt_offset);
+        if (*pMS2B1000_RECLEN (record + blkt_offset) <= 30)
+        {
+          b1000reclen = 1 << *pMS2B1000_RECLEN (record + blkt_offset);
+        }
+        else
+        {
+          ms_log (2, "%s: Blockette 1000 record length exponent invalid: %u\n", sid,
+                  *pMS2B1000_RECLEN (record + blkt_offset));
+          retval++;
+        }
 
         /* Big or little endian? */
         if (*pMS2B1000_BYTEORDER (record + blkt_offset) == 0)
-- 
2.43.0


From f2b6b58f648a4e39bcc07c49f50a43752de3cac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:03 +0000
Subject: [PATCH 033/106] fix: bound blockettes and stop at loops when printing
 raw v2 headers

---
 libmseed/parseutils.c | 37 ++++++++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/libmseed/parseutils.c b/libmseed/parseutils.c
index ad38064..0f16be5 100644
--- a/libmseed/parseutils.c
+++ b/libmseed/parseutils.c
@@ -820,6 +820,15 @@ ms_parse_raw2 (const char *record, int maxreclen, int8_t details, int8_t swapfla
     /* Traverse blockette chain */
     while (blkt_offset != 0 && blkt_offset < maxreclen)
     {
+      /* Sanity check that the blockette header is contained in the record */
+      if (blkt_offset + 4 > maxreclen)
+      {
+        ms_log (2, "%s: Blockette header at offset %d does not fit in record (%d)\n",
+                sid, blkt_offset, maxreclen);
+        retval++;
+        break;
+      }
+
       /* Every blockette has a similar 4 byte header: type and next */
       memcpy (&blkt_type, record + blkt_offset, 2);
       memcpy (&next_blkt, record + blkt_offset + 2, 2);
@@ -838,18 +847,26 @@ ms_parse_raw2 (const char *record, int maxreclen, int8_t details, int8_t swapfla
         ms_log (0, "              next blockette: %u\n", next_blkt);
       }
 
-      blkt_length = ms2_blktlen (blkt_type, record + blkt_offset, swapflag);
+      /* The length of a blockette 2000 is stored following the blockette header */
+      if (blkt_type == 2000 && blkt_offset + 6 > maxreclen)
+        blkt_length = 15;
+      else
+        blkt_length = ms2_blktlen (blkt_type, record + blkt_offset, swapflag);
+
       if (blkt_length == 0)
       {
         ms_log (2, "%s: Unknown blockette length for type %d\n", sid, blkt_type);
         retval++;
+
+        /* Blockette header, and first delay value of blockette 405 */
+        blkt_length = (blkt_type == 405) ? 6 : 4;
       }
 
       /* Track end of blockette chain */
       endofblockettes = blkt_offset + blkt_length - 1;
 
       /* Sanity check that the blockette is contained in the record */
-      if (endofblockettes > maxreclen)
+      if (endofblockettes >= maxreclen)
       {
         ms_log (2, "%s: Blockette type %d at offset %d with length %d does not fit in record (%d)\n",
                 sid, blkt_type, blkt_offset, blkt_length, maxreclen);
@@ -1240,9 +1257,16 @@ ms_parse_raw2 (const char *record, int maxreclen, int8_t details, int8_t swapfla
         }
       }
 
+      else if (blkt_type == 2000 && blkt_length < 15)
+      {
+        ms_log (2, "%s: Blockette 2000 length invalid: %d\n", sid, blkt_length);
+        retval++;
+      }
+
       else if (blkt_type == 2000)
       {
         char order[40];
+        int headerlength;
 
         /* Big or little endian? */
         if (*pMS2B2000_BYTEORDER (record + blkt_offset) == 0)
@@ -1295,10 +1319,13 @@ ms_parse_raw2 (const char *record, int maxreclen, int8_t details, int8_t swapfla
           ms_log (0, "           number of headers: %u\n", *pMS2B2000_NUMHEADERS (record + blkt_offset));
 
           /* Crude display of the opaque data headers, hopefully printable */
-          if (details > 1)
+          headerlength = HO2u(*pMS2B2000_DATAOFFSET (record + blkt_offset), swapflag) - 15;
+          if (headerlength > blkt_length - 15)
+            headerlength = blkt_length - 15;
+
+          if (details > 1 && headerlength > 0)
             ms_log (0, "                     headers: %.*s\n",
-                    (HO2u(*pMS2B2000_DATAOFFSET (record + blkt_offset), swapflag) - 15),
-                    pMS2B2000_PAYLOAD (record + blkt_offset));
+                    headerlength, pMS2B2000_PAYLOAD (record + blkt_offset));
         }
       }
 
-- 
2.43.0


From a5da25f248e109c8a4aefe58a62f84aa59dceece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:09 +0000
Subject: [PATCH 034/106] fix: honour the swapflag argument of ms_parse_raw2()

---
 libmseed/parseutils.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/libmseed/parseutils.c b/libmseed/parseutils.c
index 0f16be5..3c479d1 100644
--- a/libmseed/parseutils.c
+++ b/libmseed/parseutils.c
@@ -563,10 +563,8 @@ ms_parse_raw2 (const char *record, int maxreclen, int8_t details, int8_t swapfla
   ms2_recordsid (record, sid, sizeof (sid));
 
   /* Check to see if byte swapping is needed by testing the year and day */
-  if (swapflag == -1 && !MS_ISVALIDYEARDAY (*pMS2FSDH_YEAR (record), *pMS2FSDH_DAY (record)))
-    swapflag = 1;
-  else
-    swapflag = 0;
+  if (swapflag == -1)
+    swapflag = (!MS_ISVALIDYEARDAY (*pMS2FSDH_YEAR (record), *pMS2FSDH_DAY (record))) ? 1 : 0;
 
   if (details > 1)
   {
-- 
2.43.0


From 681061549a1a0950b08500823c07f0d94eec233b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:16 +0000
Subject: [PATCH 035/106] fix: do not compare v2 offsets to an unknown record
 length

---
 libmseed/parseutils.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmseed/parseutils.c b/libmseed/parseutils.c
index 3c479d1..d7ccd85 100644
--- a/libmseed/parseutils.c
+++ b/libmseed/parseutils.c
@@ -1357,13 +1357,13 @@ ms_parse_raw2 (const char *record, int maxreclen, int8_t details, int8_t swapfla
     }
 
     /* Check that the data and blockette offsets are within the record */
-    if (b1000reclen && HO2u(*pMS2FSDH_DATAOFFSET (record), swapflag) > b1000reclen)
+    if (b1000reclen > 0 && HO2u(*pMS2FSDH_DATAOFFSET (record), swapflag) > b1000reclen)
     {
       ms_log (2, "%s: Data offset (%d) beyond record length (%d)\n",
               sid, HO2u(*pMS2FSDH_DATAOFFSET (record), swapflag), b1000reclen);
       retval++;
     }
-    if (b1000reclen && HO2u(*pMS2FSDH_BLOCKETTEOFFSET (record), swapflag) > b1000reclen)
+    if (b1000reclen > 0 && HO2u(*pMS2FSDH_BLOCKETTEOFFSET (record), swapflag) > b1000reclen)
     {
       ms_log (2, "%s: Blockette offset (%d) beyond record length (%d)\n",
               sid, HO2u(*pMS2FSDH_BLOCKETTEOFFSET (record), swapflag), b1000reclen);
-- 
2.43.0


From 2f827cf0a57f215d63682f4c926a4a07fb80468f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:01 +0000
Subject: [PATCH 036/106] fix: size sync list code buffers for any identifier
 and reset them

---
 libmseed/tracelist.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index 920dede..7dcbc5a 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -2256,10 +2256,10 @@ mstl3_printsynclist (const MS3TraceList *mstl, const char *dccid, ms_subseconds_
   char starttime[40];
   char endtime[40];
   char yearday[32];
-  char net[11] = {0};
-  char sta[11] = {0};
-  char loc[11] = {0};
-  char chan[11] = {0};
+  char net[LM_SIDLEN];
+  char sta[LM_SIDLEN];
+  char loc[LM_SIDLEN];
+  char chan[LM_SIDLEN];
   time_t now;
   struct tm *nt;
 
@@ -2282,7 +2282,9 @@ mstl3_printsynclist (const MS3TraceList *mstl, const char *dccid, ms_subseconds_
   id = mstl->traces.next[0];
   while (id)
   {
-    ms_sid2nslc (id->sid, net, sta, loc, chan);
+    /* Codes are empty if they cannot be determined from the identifier */
+    if (ms_sid2nslc (id->sid, net, sta, loc, chan))
+      net[0] = sta[0] = loc[0] = chan[0] = '\0';
 
     /* Loop through segment list */
     seg = id->first;
-- 
2.43.0


From 6a66554b7d1bf07b56f9fa48dca11356f6f1ea3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:47 +0000
Subject: [PATCH 037/106] fix: check the path length when opening a file for
 reading

---
 libmseed/fileutils.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libmseed/fileutils.c b/libmseed/fileutils.c
index 43cd33e..414b525 100644
--- a/libmseed/fileutils.c
+++ b/libmseed/fileutils.c
@@ -336,6 +336,14 @@ ms3_readmsr_selection (MS3FileParam **ppmsfp, MS3Record **ppmsr, const char *msp
       pathname_range = parse_pathname_range (mspath, &msfp->startoffset, &msfp->endoffset);
     }
 
+    /* Check that the path, without any byte range suffix, can be stored */
+    if (((pathname_range) ? (size_t)(pathname_range - mspath) : strlen (mspath)) >= sizeof (msfp->path))
+    {
+      ms_log (2, "%s(): Path name is too long: '%s'\n", __func__, mspath);
+      msr3_free (ppmsr);
+      return MS_GENERROR;
+    }
+
     /* Store the path */
     strncpy (msfp->path, mspath, sizeof (msfp->path) - 1);
 
-- 
2.43.0


From 880bd1c879c17534efaccd702a3968c4f58033cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:47 +0000
Subject: [PATCH 038/106] fix: size msi time string for any time

---
 src/msi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/msi.c b/src/msi.c
index 4497db3..bc71876 100644
--- a/src/msi.c
+++ b/src/msi.c
@@ -88,7 +88,7 @@ main (int argc, char **argv)
   int64_t totalsamps = 0;
   int64_t totalfiles = 0;
 
-  char stime[30];
+  char stime[40];
 
   /* Set default error message prefix */
   ms_loginit (NULL, NULL, NULL, "ERROR: ");
-- 
2.43.0


From 02010d341a306f5435ff7114ba0acfb73b5cb605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:51 +0000
Subject: [PATCH 039/106] fix: ignore impossible small record length in
 blockette 1000

---
 libmseed/unpack.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libmseed/unpack.c b/libmseed/unpack.c
index c641eaa..c2c8e03 100644
--- a/libmseed/unpack.c
+++ b/libmseed/unpack.c
@@ -868,13 +868,14 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
 
       /* Calculate record length in bytes as 2^(B1000->reclen), never beyond the specified length */
       if (*pMS2B1000_RECLEN (record + blkt_offset) < 31 &&
+          ((int32_t)1 << *pMS2B1000_RECLEN (record + blkt_offset)) >= MINRECLEN &&
           ((int32_t)1 << *pMS2B1000_RECLEN (record + blkt_offset)) <= reclen)
       {
         msr->reclen = (int32_t)1 << *pMS2B1000_RECLEN (record + blkt_offset);
       }
       else
       {
-        ms_log (1, "%s: Warning: Record length in Blockette 1000 (2^%u) is beyond specified length (%d)\n",
+        ms_log (1, "%s: Warning: Record length in Blockette 1000 (2^%u) is not possible within specified length (%d)\n",
                 msr->sid, *pMS2B1000_RECLEN (record + blkt_offset), reclen);
         msr->reclen = reclen;
       }
-- 
2.43.0


From abd45c3cfad4850596c2505eda42fa7a245012c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:29 +0000
Subject: [PATCH 040/106] fix: print v2 reserved byte of NUL without ending the
 line

---
 libmseed/parseutils.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libmseed/parseutils.c b/libmseed/parseutils.c
index d7ccd85..3598b25 100644
--- a/libmseed/parseutils.c
+++ b/libmseed/parseutils.c
@@ -705,7 +705,8 @@ ms_parse_raw2 (const char *record, int maxreclen, int8_t details, int8_t swapfla
             pMS2FSDH_SEQNUM (record)[4], pMS2FSDH_SEQNUM (record)[5]);
     ms_log (0, " data quality indicator: '%c'\n", *pMS2FSDH_DATAQUALITY (record));
     if (details > 0)
-      ms_log (0, "               reserved: '%c'\n", *pMS2FSDH_RESERVED (record));
+      ms_log (0, "               reserved: '%c'\n",
+              (*pMS2FSDH_RESERVED (record)) ? *pMS2FSDH_RESERVED (record) : ' ');
     ms_log (0, "           station code: '%c%c%c%c%c'\n",
             pMS2FSDH_STATION (record)[0], pMS2FSDH_STATION (record)[1],
             pMS2FSDH_STATION (record)[2], pMS2FSDH_STATION (record)[3], pMS2FSDH_STATION (record)[4]);
-- 
2.43.0


From f57e64cc0eb0806c2a63452544692c13e3e4a4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:22 +0000
Subject: [PATCH 041/106] fix: convert payload byte order and undefined
 encoding when repacking as version 3

---
 libmseed/pack.c | 108 ++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 108 insertions(+)

diff --git a/libmseed/pack.c b/libmseed/pack.c
index 10fb82d..7325177 100644
--- a/libmseed/pack.c
+++ b/libmseed/pack.c
@@ -378,6 +378,99 @@ msr3_pack_mseed3 (const MS3Record *msr, void (*record_handler) (char *, int, voi
   return recordcnt;
 } /* End of msr3_pack_mseed3() */
 
+/***************************************************************************
+ * msr_swap_steim:
+ *
+ * Reverse the byte order of little endian Steim-1 or Steim-2 frames.
+ *
+ * The differences in each 32-bit word keep their order: 8-bit values
+ * need no swapping and each of two 16-bit values is swapped separately.
+ ***************************************************************************/
+static void
+msr_swap_steim (char *payload, uint32_t size, uint8_t encoding)
+{
+  uint8_t *control;
+  char *word;
+  uint32_t nibbles;
+  uint32_t offset;
+  int nibble;
+  int widx;
+
+  for (offset = 0; offset + 64 <= size; offset += 64)
+  {
+    control = (uint8_t *)payload + offset;
+    nibbles = (uint32_t)control[3] << 24 | (uint32_t)control[2] << 16 |
+              (uint32_t)control[1] << 8 | (uint32_t)control[0];
+
+    for (widx = 0; widx < 16; widx++)
+    {
+      word   = payload + offset + 4 * widx;
+      nibble = (nibbles >> (30 - 2 * widx)) & 0x3;
+
+      /* Nibbles, and integration constants in the first frame */
+      if (widx == 0 || (offset == 0 && widx <= 2))
+      {
+        ms_gswap4 (word);
+      }
+      else if (nibble == 2 && encoding == DE_STEIM1)
+      {
+        ms_gswap2 (word);
+        ms_gswap2 (word + 2);
+      }
+      else if (nibble >= 2)
+      {
+        ms_gswap4 (word);
+      }
+    }
+  }
+} /* End of msr_swap_steim() */
+
+/***************************************************************************
+ * msr_swap_payload:
+ *
+ * Reverse the byte order of each value in an encoded data payload.
+ ***************************************************************************/
+static void
+msr_swap_payload (char *payload, uint32_t size, uint8_t encoding)
+{
+  uint32_t offset;
+  char byte;
+
+  switch (encoding)
+  {
+  case DE_INT16:
+  case DE_GEOSCOPE163:
+  case DE_GEOSCOPE164:
+  case DE_CDSN:
+  case DE_SRO:
+  case DE_DWWSSN:
+    for (offset = 0; offset + 2 <= size; offset += 2)
+      ms_gswap2 (payload + offset);
+    break;
+  case DE_GEOSCOPE24:
+    for (offset = 0; offset + 3 <= size; offset += 3)
+    {
+      byte                = payload[offset];
+      payload[offset]     = payload[offset + 2];
+      payload[offset + 2] = byte;
+    }
+    break;
+  case DE_INT32:
+  case DE_FLOAT32:
+    for (offset = 0; offset + 4 <= size; offset += 4)
+      ms_gswap4 (payload + offset);
+    break;
+  case DE_FLOAT64:
+    for (offset = 0; offset + 8 <= size; offset += 8)
+      ms_gswap8 (payload + offset);
+    break;
+  case DE_STEIM1:
+  case DE_STEIM2:
+    msr_swap_steim (payload, size, encoding);
+    break;
+  }
+} /* End of msr_swap_payload() */
+
 /**********************************************************************/ /**
  * @brief Repack a parsed miniSEED record into a version 3 record.
  *
@@ -407,6 +500,7 @@ msr3_repack_mseed3 (const MS3Record *msr, char *record, uint32_t recbuflen,
   uint32_t crc;
   uint32_t reclen;
   int8_t swapflag;
+  int swap_payload;
 
   if (!msr || !msr->record || ! record)
   {
@@ -460,6 +554,20 @@ msr3_repack_mseed3 (const MS3Record *msr, char *record, uint32_t recbuflen,
   /* Check to see if byte swapping is needed, miniSEED 3 is little endian */
   swapflag = (ms_bigendianhost ()) ? 1 : 0;
 
+  /* Unknown encoding is assumed to be Steim-1, same as when unpacking */
+  if (msr->encoding < 0)
+    *pMS3FSDH_ENCODING (record) = DE_STEIM1;
+
+  /* Ensure the byte order required for miniSEED 3: Steim is big endian, others are little endian */
+  swap_payload = (msr->swapflag & MSSWAP_PAYLOAD) ? 1 : 0;
+  if (*pMS3FSDH_ENCODING (record) == DE_STEIM1 || *pMS3FSDH_ENCODING (record) == DE_STEIM2)
+    swap_payload ^= !ms_bigendianhost ();
+  else
+    swap_payload ^= ms_bigendianhost ();
+
+  if (swap_payload)
+    msr_swap_payload (record + dataoffset, origdatasize, *pMS3FSDH_ENCODING (record));
+
   /* Update number of samples and data length */
   *pMS3FSDH_NUMSAMPLES(record) = HO4u ((uint32_t)msr->samplecnt, swapflag);
   *pMS3FSDH_DATALENGTH(record) = HO4u (origdatasize, swapflag);
-- 
2.43.0


From 43a61eb5284db8585f561f7bc309f2e8880c2076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:38 +0000
Subject: [PATCH 042/106] fix: join data with rates inside the supplied
 tolerance, not outside

---
 libmseed/tracelist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index 7dcbc5a..5d85dd6 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -35,7 +35,7 @@ static uint32_t lm_lcg_r (uint64_t *state);
 static uint8_t lm_random_height (uint8_t maximum, uint64_t *state);
 
 /* Test if two sample rates are similar using either specified tolerance (if positive) or default tolerance */
-#define IS_SAMPRATE_SIMILAR(SR1, SR2, SRT) ((SRT > 0.0) ? fabs (SR1 - SR2) > SRT : MS_ISRATETOLERABLE (SR1, SR2))
+#define IS_SAMPRATE_SIMILAR(SR1, SR2, SRT) ((SRT > 0.0) ? fabs (SR1 - SR2) <= SRT : MS_ISRATETOLERABLE (SR1, SR2))
 
 /**********************************************************************/ /**
  * @brief Initialize a ::MS3TraceList container
-- 
2.43.0


From c614fe60a819ec52e874bebdd7b2ada580bd9f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:48 +0000
Subject: [PATCH 043/106] fix: keep publication version 0 separate when
 splitting versions

---
 libmseed/tracelist.c | 58 ++++++++++++++++++++++++++------------------
 1 file changed, 35 insertions(+), 23 deletions(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index 5d85dd6..80f3eda 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -160,24 +160,13 @@ mstl3_free (MS3TraceList **ppmstl, int8_t freeprvtptr)
   return;
 } /* End of mstl3_free() */
 
-/**********************************************************************/ /**
- * @brief Find matching ::MS3TraceID in a ::MS3TraceList
- *
- * Return the ::MS3TraceID matching the \a sid in the specified ::MS3TraceList.
- *
- * If \a prev is not NULL, set pointers to previous entries for the
- * expected location of the trace ID.  Useful for adding a new ID
- * with mstl3_addID(), and should be set to \a NULL otherwise.
- *
- * @param[in] mstl Pointer to the ::MS3TraceList to search
- * @param[in] sid Source ID to search for in the list
- * @param[in] pubversion If non-zero, find the entry with this version
- * @param[out] prev Pointers to previous entries in expected location or NULL
- *
- * @returns a pointer to the matching ::MS3TraceID or NULL if not found or error.
+/***************************************************************************
+ * Find matching MS3TraceID as described for mstl3_findID(), limiting the
+ * search to the publication version, which may be 0, if matchversion is set.
  ***************************************************************************/
-MS3TraceID *
-mstl3_findID (MS3TraceList *mstl, const char *sid, uint8_t pubversion, MS3TraceID **prev)
+static MS3TraceID *
+lm_findID_version (MS3TraceList *mstl, const char *sid, uint8_t pubversion,
+                   int8_t matchversion, MS3TraceID **prev)
 {
   MS3TraceID *id = NULL;
   int level;
@@ -185,7 +174,7 @@ mstl3_findID (MS3TraceList *mstl, const char *sid, uint8_t pubversion, MS3TraceI
 
   if (!mstl || !sid)
   {
-    ms_log (2, "%s(): Required input not defined: 'mstl' or 'sid'\n", __func__);
+    ms_log (2, "%s(): Required input not defined: 'mstl' or 'sid'\n", "mstl3_findID");
     return NULL;
   }
 
@@ -209,7 +198,7 @@ mstl3_findID (MS3TraceList *mstl, const char *sid, uint8_t pubversion, MS3TraceI
       cmp = strcmp(id->next[level]->sid, sid);
 
       /* If source IDs match, check publication if matching requested */
-      if (!cmp && pubversion && id->next[level]->pubversion != pubversion)
+      if (!cmp && matchversion && id->next[level]->pubversion != pubversion)
       {
         cmp = (id->next[level]->pubversion < pubversion) ? -1 : 1;
       }
@@ -230,6 +219,28 @@ mstl3_findID (MS3TraceList *mstl, const char *sid, uint8_t pubversion, MS3TraceI
   }
 
   return NULL;
+} /* End of lm_findID_version() */
+
+/**********************************************************************/ /**
+ * @brief Find matching ::MS3TraceID in a ::MS3TraceList
+ *
+ * Return the ::MS3TraceID matching the \a sid in the specified ::MS3TraceList.
+ *
+ * If \a prev is not NULL, set pointers to previous entries for the
+ * expected location of the trace ID.  Useful for adding a new ID
+ * with mstl3_addID(), and should be set to \a NULL otherwise.
+ *
+ * @param[in] mstl Pointer to the ::MS3TraceList to search
+ * @param[in] sid Source ID to search for in the list
+ * @param[in] pubversion If non-zero, find the entry with this version
+ * @param[out] prev Pointers to previous entries in expected location or NULL
+ *
+ * @returns a pointer to the matching ::MS3TraceID or NULL if not found or error.
+ ***************************************************************************/
+MS3TraceID *
+mstl3_findID (MS3TraceList *mstl, const char *sid, uint8_t pubversion, MS3TraceID **prev)
+{
+  return lm_findID_version (mstl, sid, pubversion, pubversion != 0, prev);
 } /* End of mstl3_findID() */
 
 /**********************************************************************/ /**
@@ -401,10 +412,11 @@ mstl3_addmsr_recordptr (MS3TraceList *mstl, const MS3Record *msr, MS3RecordPtr *
   }
 
   /* Search for matching trace ID */
-  id = mstl3_findID (mstl,
-                     msr->sid,
-                     (splitversion) ? msr->pubversion : 0,
-                     previd);
+  id = lm_findID_version (mstl,
+                          msr->sid,
+                          msr->pubversion,
+                          splitversion,
+                          previd);
 
   /* If no matching ID was found create new MS3TraceID and MS3TraceSeg entries */
   if (!id)
-- 
2.43.0


From 68c4ee3bf9eaff30c5cc8b60f0823b628848a078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:46 +0000
Subject: [PATCH 044/106] fix: round negative values, check ranges and leave
 samples alone when conversion fails

---
 libmseed/tracelist.c | 78 ++++++++++++++++++++++----------------------
 1 file changed, 39 insertions(+), 39 deletions(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index 80f3eda..bf92ba3 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -1387,7 +1387,10 @@ mstl3_convertsamples (MS3TraceSeg *seg, char type, int8_t truncate)
   int32_t *idata;
   float *fdata;
   double *ddata;
+  double value;
   int64_t idx;
+  size_t reducedsize = 0;
+  void *reduced;
 
   if (!seg)
   {
@@ -1412,47 +1415,42 @@ mstl3_convertsamples (MS3TraceSeg *seg, char type, int8_t truncate)
   /* Convert to 32-bit integers */
   if (type == 'i')
   {
-    if (seg->sampletype == 'f') /* Convert floats to integers with simple rounding */
+    if (seg->sampletype == 'f' || seg->sampletype == 'd')
     {
+      /* Check all samples before converting any of them */
       for (idx = 0; idx < seg->numsamples; idx++)
       {
-        /* Check for loss of sub-integer */
-        if (!truncate && (fdata[idx] - (int32_t)fdata[idx]) > 0.000001)
+        value = (seg->sampletype == 'f') ? fdata[idx] : ddata[idx];
+
+        /* Check for values that have no integer counterpart */
+        if (!(value > INT32_MIN - 0.5 && value < INT32_MAX + 0.5))
         {
-          ms_log (2, "Loss of precision when converting floats to integers, loss: %g\n",
-                  (fdata[idx] - (int32_t)fdata[idx]));
+          ms_log (2, "Sample value cannot be represented as 32-bit integer: %g\n", value);
           return -1;
         }
 
-        idata[idx] = (int32_t) (fdata[idx] + 0.5);
-      }
-    }
-    else if (seg->sampletype == 'd') /* Convert doubles to integers with simple rounding */
-    {
-      for (idx = 0; idx < seg->numsamples; idx++)
-      {
         /* Check for loss of sub-integer */
-        if (!truncate && (ddata[idx] - (int32_t)ddata[idx]) > 0.000001)
+        if (!truncate && fabs (value - (int32_t)value) > 0.000001)
         {
-          ms_log (2, "Loss of precision when converting doubles to integers, loss: %g\n",
-                  (ddata[idx] - (int32_t)ddata[idx]));
+          ms_log (2, "Loss of precision when converting %s to integers, loss: %g\n",
+                  (seg->sampletype == 'f') ? "floats" : "doubles",
+                  (value - (int32_t)value));
           return -1;
         }
-
-        idata[idx] = (int32_t) (ddata[idx] + 0.5);
       }
+    }
 
-      /* Reallocate buffer for reduced size needed, only if not pre-allocating */
-      if (libmseed_prealloc_block_size == 0)
-      {
-        if (!(seg->datasamples = libmseed_memory.realloc (seg->datasamples,
-                                                          (size_t) (seg->numsamples * sizeof (int32_t)))))
-        {
-          ms_log (2, "Cannot re-allocate buffer for sample conversion\n");
-          return -1;
-        }
-        seg->datasize = seg->numsamples * sizeof (int32_t);
-      }
+    if (seg->sampletype == 'f') /* Convert floats to integers with simple rounding */
+    {
+      for (idx = 0; idx < seg->numsamples; idx++)
+        idata[idx] = (int32_t) (fdata[idx] + ((fdata[idx] < 0) ? -0.5 : 0.5));
+    }
+    else if (seg->sampletype == 'd') /* Convert doubles to integers with simple rounding */
+    {
+      for (idx = 0; idx < seg->numsamples; idx++)
+        idata[idx] = (int32_t) (ddata[idx] + ((ddata[idx] < 0) ? -0.5 : 0.5));
+
+      reducedsize = sizeof (int32_t);
     }
 
     seg->sampletype = 'i';
@@ -1471,17 +1469,7 @@ mstl3_convertsamples (MS3TraceSeg *seg, char type, int8_t truncate)
       for (idx = 0; idx < seg->numsamples; idx++)
         fdata[idx] = (float)ddata[idx];
 
-      /* Reallocate buffer for reduced size needed, only if not pre-allocating */
-      if (libmseed_prealloc_block_size == 0)
-      {
-        if (!(seg->datasamples = libmseed_memory.realloc (seg->datasamples,
-                                                          (size_t) (seg->numsamples * sizeof (float)))))
-        {
-          ms_log (2, "Cannot re-allocate buffer after sample conversion\n");
-          return -1;
-        }
-        seg->datasize = seg->numsamples * sizeof (float);
-      }
+      reducedsize = sizeof (float);
     }
 
     seg->sampletype = 'f';
@@ -1516,6 +1504,18 @@ mstl3_convertsamples (MS3TraceSeg *seg, char type, int8_t truncate)
     seg->sampletype = 'd';
   } /* Done converting to 64-bit doubles */
 
+  /* Reallocate buffer for reduced size needed, only if not pre-allocating,
+   * otherwise the samples simply stay in the larger buffer */
+  if (reducedsize && seg->numsamples > 0 && libmseed_prealloc_block_size == 0)
+  {
+    if ((reduced = libmseed_memory.realloc (seg->datasamples,
+                                            (size_t) (seg->numsamples * reducedsize))))
+    {
+      seg->datasamples = reduced;
+      seg->datasize = seg->numsamples * reducedsize;
+    }
+  }
+
   return 0;
 } /* End of mstl3_convertsamples() */
 
-- 
2.43.0


From ec329d2252f2ac0bfe5ebe7db08e582dc261282d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:13 +0000
Subject: [PATCH 045/106] fix: report unknown sample types to convert to

---
 libmseed/tracelist.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index bf92ba3..ad7e818 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -1408,6 +1408,12 @@ mstl3_convertsamples (MS3TraceSeg *seg, char type, int8_t truncate)
     return -1;
   }
 
+  if (type != 'i' && type != 'f' && type != 'd')
+  {
+    ms_log (2, "Unrecognized sample type to convert to: %c\n", type);
+    return -1;
+  }
+
   idata = (int32_t *)seg->datasamples;
   fdata = (float *)seg->datasamples;
   ddata = (double *)seg->datasamples;
-- 
2.43.0


From 8acf66deaf732e5865eab8ea3e060a927a9b760e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:23 +0000
Subject: [PATCH 046/106] fix: report errors when packing a trace list and keep
 the caller's extra headers

---
 libmseed/tracelist.c | 56 ++++++++++++++++++++++++--------------------
 1 file changed, 30 insertions(+), 26 deletions(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index ad7e818..cc76f80 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -1966,7 +1966,9 @@ mstl3_pack (MS3TraceList *mstl, void (*record_handler) (char *, int, void *),
   int64_t segpackedsamples = 0;
   int samplesize;
   size_t bufsize;
-  size_t extralength;
+  size_t extralength = 0;
+  void *datasamples;
+  int8_t failed = 0;
 
   if (!mstl)
   {
@@ -1983,6 +1985,17 @@ mstl3_pack (MS3TraceList *mstl, void (*record_handler) (char *, int, void *),
   if (packedsamples)
     *packedsamples = 0;
 
+  if (extra)
+  {
+    extralength = strlen(extra);
+
+    if (extralength > UINT16_MAX)
+    {
+      ms_log (2, "Extra headers are too long: %"PRIsize_t"\n", extralength);
+      return -1;
+    }
+  }
+
   msr = msr3_init (NULL);
 
   if (msr == NULL)
@@ -1997,27 +2010,19 @@ mstl3_pack (MS3TraceList *mstl, void (*record_handler) (char *, int, void *),
   if (extra)
   {
     msr->extra = extra;
-    extralength = strlen(extra);
-
-    if (extralength > UINT16_MAX)
-    {
-      ms_log (2, "Extra headers are too long: %"PRIsize_t"\n", extralength);
-      return -1;
-    }
-
     msr->extralength = (uint16_t)extralength;
   }
 
   /* Loop through trace list */
   id = mstl->traces.next[0];
-  while (id)
+  while (id && !failed)
   {
     memcpy (msr->sid, id->sid, sizeof(msr->sid));
     msr->pubversion = id->pubversion;
 
     /* Loop through segment list */
     seg = id->first;
-    while (seg)
+    while (seg && !failed)
     {
       msr->starttime = seg->starttime;
       msr->samprate = seg->samprate;
@@ -2045,6 +2050,12 @@ mstl3_pack (MS3TraceList *mstl, void (*record_handler) (char *, int, void *),
       segpackedsamples = 0;
       segpackedrecords = msr3_pack (msr, record_handler, handlerdata, &segpackedsamples, flags, verbose);
 
+      /* Samples in records created before an error are removed as usual */
+      if (segpackedrecords < 0)
+        failed = 1;
+      else
+        totalpackedrecords += segpackedrecords;
+
       if (verbose > 1)
       {
         ms_log (0, "Packed %d records for %s segment\n", segpackedrecords, msr->sid);
@@ -2059,11 +2070,7 @@ mstl3_pack (MS3TraceList *mstl, void (*record_handler) (char *, int, void *),
         else
           seg->starttime = ms_sampletime (seg->starttime, segpackedsamples, seg->samprate);
 
-        if (!(samplesize = ms_samplesize (seg->sampletype)))
-        {
-          ms_log (2, "Unknown sample size for sample type: %c\n", seg->sampletype);
-          return -1;
-        }
+        samplesize = ms_samplesize (seg->sampletype);
 
         bufsize = (seg->numsamples - segpackedsamples) * samplesize;
 
@@ -2076,15 +2083,12 @@ mstl3_pack (MS3TraceList *mstl, void (*record_handler) (char *, int, void *),
           /* Reallocate buffer for reduced size needed, only if not pre-allocating */
           if (libmseed_prealloc_block_size == 0)
           {
-            seg->datasamples = libmseed_memory.realloc (seg->datasamples, bufsize);
-
-            if (seg->datasamples == NULL)
+            /* On failure the remaining samples simply stay in the larger buffer */
+            if ((datasamples = libmseed_memory.realloc (seg->datasamples, bufsize)))
             {
-              ms_log (2, "Cannot (re)allocate datasamples buffer\n");
-              return -1;
+              seg->datasamples = datasamples;
+              seg->datasize = bufsize;
             }
-
-            seg->datasize = bufsize;
           }
         }
         else
@@ -2099,7 +2103,6 @@ mstl3_pack (MS3TraceList *mstl, void (*record_handler) (char *, int, void *),
         seg->numsamples -= segpackedsamples;
       }
 
-      totalpackedrecords += segpackedrecords;
       totalpackedsamples += segpackedsamples;
 
       seg = seg->next;
@@ -2108,14 +2111,15 @@ mstl3_pack (MS3TraceList *mstl, void (*record_handler) (char *, int, void *),
     id = id->next[0];
   }
 
-  /* The record structure never owns the actual data so it should not free it */
+  /* The record structure never owns the actual data or extra headers so it should not free them */
   msr->datasamples = NULL;
+  msr->extra = NULL;
   msr3_free (&msr);
 
   if (packedsamples)
     *packedsamples = totalpackedsamples;
 
-  return totalpackedrecords;
+  return (failed) ? -1 : totalpackedrecords;
 } /* End of mstl3_pack() */
 
 /**********************************************************************/ /**
-- 
2.43.0


From 64b2a6f9679d75d5df485c6d8509a0b4012ee3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:55 +0000
Subject: [PATCH 047/106] fix: keep segments in time order when packing a trace
 list

---
 libmseed/tracelist.c | 123 ++++++++++++++++++++++++++-----------------
 1 file changed, 74 insertions(+), 49 deletions(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index cc76f80..1e73a63 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -311,6 +311,66 @@ mstl3_addID (MS3TraceList *mstl, MS3TraceID *id, MS3TraceID **prev)
 } /* End of mstl3_addID() */
 
 
+/***************************************************************************
+ * Sort a modified segment into place in the segment list of a trace ID.
+ ***************************************************************************/
+static void
+lm_sort_segment (MS3TraceID *id, MS3TraceSeg *seg)
+{
+  MS3TraceSeg *segbefore;
+  MS3TraceSeg *segafter;
+
+  while (seg->next &&
+         (seg->starttime > seg->next->starttime ||
+          (seg->starttime == seg->next->starttime && seg->endtime < seg->next->endtime)))
+  {
+    /* Move segment down list, swap seg and seg->next */
+    segafter = seg->next;
+
+    if (seg->prev)
+      seg->prev->next = segafter;
+
+    if (segafter->next)
+      segafter->next->prev = seg;
+
+    segafter->prev = seg->prev;
+    seg->prev = segafter;
+    seg->next = segafter->next;
+    segafter->next = seg;
+
+    /* Reset first and last segment pointers if replaced */
+    if (id->first == seg)
+      id->first = segafter;
+
+    if (id->last == segafter)
+      id->last = seg;
+  }
+  while (seg->prev && (seg->starttime < seg->prev->starttime ||
+                       (seg->starttime == seg->prev->starttime && seg->endtime > seg->prev->endtime)))
+  {
+    /* Move segment up list, swap seg and seg->prev */
+    segbefore = seg->prev;
+
+    if (seg->next)
+      seg->next->prev = segbefore;
+
+    if (segbefore->prev)
+      segbefore->prev->next = seg;
+
+    segbefore->next = seg->next;
+    seg->next = segbefore;
+    seg->prev = segbefore->prev;
+    segbefore->prev = seg;
+
+    /* Reset first and last segment pointers if replaced */
+    if (id->first == segbefore)
+      id->first = seg;
+
+    if (id->last == seg)
+      id->last = segbefore;
+  }
+} /* End of lm_sort_segment() */
+
 /**********************************************************************/ /**
  * @brief Add data coverage from an ::MS3Record to a ::MS3TraceList
  *
@@ -736,55 +796,7 @@ mstl3_addmsr_recordptr (MS3TraceList *mstl, const MS3Record *msr, MS3RecordPtr *
   } /* End of adding coverage to matching ID */
 
   /* Sort modified segment into place, logic above should limit these to few shifts if any */
-  while (seg->next &&
-         (seg->starttime > seg->next->starttime ||
-          (seg->starttime == seg->next->starttime && seg->endtime < seg->next->endtime)))
-  {
-    /* Move segment down list, swap seg and seg->next */
-    segafter = seg->next;
-
-    if (seg->prev)
-      seg->prev->next = segafter;
-
-    if (segafter->next)
-      segafter->next->prev = seg;
-
-    segafter->prev = seg->prev;
-    seg->prev = segafter;
-    seg->next = segafter->next;
-    segafter->next = seg;
-
-    /* Reset first and last segment pointers if replaced */
-    if (id->first == seg)
-      id->first = segafter;
-
-    if (id->last == segafter)
-      id->last = seg;
-  }
-  while (seg->prev && (seg->starttime < seg->prev->starttime ||
-                       (seg->starttime == seg->prev->starttime && seg->endtime > seg->prev->endtime)))
-  {
-    /* Move segment up list, swap seg and seg->prev */
-    segbefore = seg->prev;
-
-    if (seg->next)
-      seg->next->prev = segbefore;
-
-    if (segbefore->prev)
-      segbefore->prev->next = seg;
-
-    segbefore->next = seg->next;
-    seg->next = segbefore;
-    seg->prev = segbefore->prev;
-    segbefore->prev = seg;
-
-    /* Reset first and last segment pointers if replaced */
-    if (id->first == segbefore)
-      id->first = seg;
-
-    if (id->last == seg)
-      id->last = segbefore;
-  }
+  lm_sort_segment (id, seg);
 
   return seg;
 } /* End of mstl3_addmsr_recordptr() */
@@ -1959,6 +1971,7 @@ mstl3_pack (MS3TraceList *mstl, void (*record_handler) (char *, int, void *),
   MS3Record *msr = NULL;
   MS3TraceID *id = NULL;
   MS3TraceSeg *seg = NULL;
+  MS3TraceSeg *nextseg = NULL;
 
   int64_t totalpackedrecords = 0;
   int64_t totalpackedsamples = 0;
@@ -1969,6 +1982,7 @@ mstl3_pack (MS3TraceList *mstl, void (*record_handler) (char *, int, void *),
   size_t extralength = 0;
   void *datasamples;
   int8_t failed = 0;
+  int8_t resort;
 
   if (!mstl)
   {
@@ -2019,6 +2033,7 @@ mstl3_pack (MS3TraceList *mstl, void (*record_handler) (char *, int, void *),
   {
     memcpy (msr->sid, id->sid, sizeof(msr->sid));
     msr->pubversion = id->pubversion;
+    resort = 0;
 
     /* Loop through segment list */
     seg = id->first;
@@ -2101,6 +2116,7 @@ mstl3_pack (MS3TraceList *mstl, void (*record_handler) (char *, int, void *),
 
         seg->samplecnt -= segpackedsamples;
         seg->numsamples -= segpackedsamples;
+        resort = 1;
       }
 
       totalpackedsamples += segpackedsamples;
@@ -2108,6 +2124,15 @@ mstl3_pack (MS3TraceList *mstl, void (*record_handler) (char *, int, void *),
       seg = seg->next;
     }
 
+    /* Restore order of segments if their start times were adjusted */
+    seg = (resort) ? id->first : NULL;
+    while (seg)
+    {
+      nextseg = seg->next;
+      lm_sort_segment (id, seg);
+      seg = nextseg;
+    }
+
     id = id->next[0];
   }
 
-- 
2.43.0


From 0022ca463218ae1af77d073ce9243efabd92b082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:42 +0000
Subject: [PATCH 048/106] fix: start data added to emptied segments at their
 own time and do not pack empty records

---
 libmseed/tracelist.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index 1e73a63..94048a7 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -1126,6 +1126,14 @@ mstl3_addmsrtoseg (MS3TraceSeg *seg, const MS3Record *msr, nstime_t endtime, int
     seg->datasamples = newdatasamples;
   }
 
+  /* A segment emptied by packing, which remains at the time of the last packed
+   * sample, covers exactly the added record */
+  if (seg->sampletype && seg->samplecnt == 0 && seg->numsamples == 0)
+  {
+    seg->starttime = msr->starttime;
+    seg->endtime = endtime;
+  }
+
   /* Add coverage to end of segment */
   if (whence == 1)
   {
@@ -1229,8 +1237,9 @@ mstl3_addsegtoseg (MS3TraceSeg *seg1, MS3TraceSeg *seg2)
     seg1->datasamples = newdatasamples;
   }
 
-  /* Add seg2 coverage to end of seg1 */
-  seg1->endtime = seg2->endtime;
+  /* Add seg2 coverage to end of seg1, unless emptied by packing */
+  if (!(seg2->sampletype && seg2->samplecnt == 0 && seg2->numsamples == 0))
+    seg1->endtime = seg2->endtime;
   seg1->samplecnt += seg2->samplecnt;
 
   if (seg2->datasamples && seg2->numsamples > 0)
@@ -2039,6 +2048,13 @@ mstl3_pack (MS3TraceList *mstl, void (*record_handler) (char *, int, void *),
     seg = id->first;
     while (seg && !failed)
     {
+      /* Skip segments emptied by previous packing */
+      if (seg->sampletype && seg->samplecnt == 0 && seg->numsamples == 0)
+      {
+        seg = seg->next;
+        continue;
+      }
+
       msr->starttime = seg->starttime;
       msr->samprate = seg->samprate;
       msr->samplecnt = seg->samplecnt;
-- 
2.43.0


From 66612c9a8e1c3841323e24fd30ca7ef191bef4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:02 +0000
Subject: [PATCH 049/106] fix: unpack record lists with the payload's own byte
 order and encoding fallback

---
 libmseed/tracelist.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index 94048a7..ec80fd4 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -1662,6 +1662,7 @@ mstl3_unpack_recordlist (MS3TraceID *id, MS3TraceSeg *seg, void *output,
 
   uint64_t outputoffset = 0;
   uint64_t decodedsize = 0;
+  uint8_t encoding = 0;
   uint8_t samplesize = 0;
   char sampletype = 0;
   char recsampletype = 0;
@@ -1690,15 +1691,24 @@ mstl3_unpack_recordlist (MS3TraceID *id, MS3TraceSeg *seg, void *output,
     return -1;
   }
 
+  /* Determine sample size and type from first record with samples */
   recordptr = seg->recordlist->first;
 
-  if (ms_encoding_sizetype((uint8_t)recordptr->msr->encoding, &samplesize, &sampletype))
+  while (recordptr->msr->samplecnt == 0 && recordptr->next)
+    recordptr = recordptr->next;
+
+  /* Fallback encoding for when encoding is unknown, same as msr3_unpack_data() */
+  encoding = (recordptr->msr->encoding < 0) ? DE_STEIM1 : (uint8_t)recordptr->msr->encoding;
+
+  if (ms_encoding_sizetype (encoding, &samplesize, &sampletype))
   {
     ms_log (2, "%s: Cannot determine sample size and type for encoding: %u\n",
-            id->sid, recordptr->msr->encoding);
+            id->sid, encoding);
     return -1;
   }
 
+  recordptr = seg->recordlist->first;
+
   /* Calculate buffer size needed for unpacked samples */
   decodedsize = seg->samplecnt * samplesize;
 
@@ -1742,9 +1752,11 @@ mstl3_unpack_recordlist (MS3TraceID *id, MS3TraceSeg *seg, void *output,
       continue;
     }
 
-    if (ms_encoding_sizetype((uint8_t)recordptr->msr->encoding, NULL, &recsampletype))
+    encoding = (recordptr->msr->encoding < 0) ? DE_STEIM1 : (uint8_t)recordptr->msr->encoding;
+
+    if (ms_encoding_sizetype (encoding, NULL, &recsampletype))
     {
-      ms_log (2, "%s: Cannot determine sample type for encoding: %u\n", id->sid, recordptr->msr->encoding);
+      ms_log (2, "%s: Cannot determine sample type for encoding: %u\n", id->sid, encoding);
 
       totalunpackedsamples = -1;
       break;
@@ -1861,9 +1873,9 @@ mstl3_unpack_recordlist (MS3TraceID *id, MS3TraceSeg *seg, void *output,
 
     /* Decode data from buffer */
     unpackedsamples = ms_decode_data (input, recordptr->msr->reclen - recordptr->dataoffset,
-                                      (uint8_t)recordptr->msr->encoding, recordptr->msr->samplecnt,
+                                      encoding, recordptr->msr->samplecnt,
                                       (unsigned char *)output + outputoffset, decodedsize - outputoffset,
-                                      &sampletype, recordptr->msr->swapflag, id->sid, verbose);
+                                      &sampletype, (recordptr->msr->swapflag & MSSWAP_PAYLOAD), id->sid, verbose);
 
     if (unpackedsamples < 0)
     {
-- 
2.43.0


From 7e4ef8e8d43ee82949e8411d6704805f3d285d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:07 +0000
Subject: [PATCH 050/106] fix: release memory when unpacking a record list
 fails

---
 libmseed/tracelist.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index ec80fd4..ae4fd87 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -1658,6 +1658,7 @@ mstl3_unpack_recordlist (MS3TraceID *id, MS3TraceSeg *seg, void *output,
   int64_t totalunpackedsamples = 0;
 
   char *filebuffer = NULL;
+  char *newfilebuffer = NULL;
   int64_t filebuffersize = 0;
 
   uint64_t outputoffset = 0;
@@ -1809,6 +1810,7 @@ mstl3_unpack_recordlist (MS3TraceID *id, MS3TraceSeg *seg, void *output,
           {
             ms_log (2, "%s: Cannot open file (%s): %s\n", id->sid, recordptr->filename, strerror(errno));
 
+            libmseed_memory.free (filelistptr);
             totalunpackedsamples = -1;
             break;
           }
@@ -1825,7 +1827,9 @@ mstl3_unpack_recordlist (MS3TraceID *id, MS3TraceSeg *seg, void *output,
       /* Allocate memory if needed, over-allocating (x2) to minimize reallocation */
       if (recordptr->msr->reclen > filebuffersize)
       {
-        if ((filebuffer = libmseed_memory.realloc (filebuffer, recordptr->msr->reclen * 2)) == NULL)
+        newfilebuffer = libmseed_memory.realloc (filebuffer, (size_t)recordptr->msr->reclen * 2);
+
+        if (newfilebuffer == NULL)
         {
           ms_log (2, "%s: Cannot allocate memory for file read buffer\n", id->sid);
 
@@ -1833,7 +1837,8 @@ mstl3_unpack_recordlist (MS3TraceID *id, MS3TraceSeg *seg, void *output,
           break;
         }
 
-        filebuffersize = recordptr->msr->reclen * 2;
+        filebuffer     = newfilebuffer;
+        filebuffersize = (int64_t)recordptr->msr->reclen * 2;
       }
 
       /* Seek to record position in file */
-- 
2.43.0


From 4d0a7b8f4a565a2c4aa1ace4af5dcb2c0b9e1bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:13 +0000
Subject: [PATCH 051/106] fix: read a final record of minimum length from a
 buffer

---
 libmseed/tracelist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index ae4fd87..4a42b57 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -920,7 +920,7 @@ mstl3_readbuffer_selection (MS3TraceList **ppmstl, const char *buffer, uint64_t
   if ((flags & MSF_UNPACKDATA) && selections)
     pflags &= ~(MSF_UNPACKDATA);
 
-  while ((bufferlength - offset) > MINRECLEN)
+  while ((bufferlength - offset) >= MINRECLEN)
   {
     parsevalue = msr3_parse (buffer + offset, bufferlength - offset, &msr, pflags, verbose);
 
-- 
2.43.0


From c8ee6835246ef57fc95f2184d0bad58518b367a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:19 +0000
Subject: [PATCH 052/106] fix: release or keep memory when list operations fail

---
 libmseed/tracelist.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index 4a42b57..fc47dd9 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -981,7 +981,11 @@ mstl3_readbuffer_selection (MS3TraceList **ppmstl, const char *buffer, uint64_t
     {
       /* Determine offset to data and length of data payload */
       if (msr3_data_bounds (msr, &dataoffset, &datasize))
+      {
+        msr3_free (&msr);
+
         return MS_GENERROR;
+      }
 
       recordptr->bufferptr  = buffer + offset;
       recordptr->fileptr    = NULL;
@@ -1339,6 +1343,7 @@ mstl3_add_recordptr (MS3TraceSeg *seg, const MS3Record *msr, nstime_t endtime, i
     if (seg->recordlist == NULL)
     {
       ms_log (2, "Cannot allocate memory\n");
+      msr3_free (&recordptr->msr);
       libmseed_memory.free (recordptr);
       return NULL;
     }
@@ -1564,6 +1569,7 @@ mstl3_resize_buffers (MS3TraceList *mstl)
   MS3TraceID *id = NULL;
   MS3TraceSeg *seg = NULL;
   uint8_t samplesize = 0;
+  void *resized = NULL;
   size_t datasize;
 
   if (!mstl)
@@ -1587,14 +1593,15 @@ mstl3_resize_buffers (MS3TraceList *mstl)
 
         if (seg->datasize > datasize)
         {
-          seg->datasamples = libmseed_memory.realloc (seg->datasamples, datasize);
+          resized = libmseed_memory.realloc (seg->datasamples, datasize);
 
-          if (seg->datasamples == NULL)
+          if (resized == NULL)
           {
             ms_log (2, "%s: Cannot (re)allocate memory\n", id->sid);
             return MS_GENERROR;
           }
 
+          seg->datasamples = resized;
           seg->datasize = datasize;
         }
       }
-- 
2.43.0


From 1636add6aa370c548d88765ae4bceb4664616eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:08 +0000
Subject: [PATCH 053/106] fix: do not accept day 0 of a month

---
 libmseed/genutils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmseed/genutils.c b/libmseed/genutils.c
index 8a2b650..e1afdf4 100644
--- a/libmseed/genutils.c
+++ b/libmseed/genutils.c
@@ -124,7 +124,7 @@ static const int monthdays_leap[] = {31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30,
 #define VALIDMONTH(month) (month >= 1 && month <= 12)
 
 /* Check that a day-of-month is in a valid range */
-#define VALIDMONTHDAY(year, month, mday) (mday >= 0 && mday <= (LEAPYEAR (year) ? monthdays_leap[month - 1] : monthdays[month - 1]))
+#define VALIDMONTHDAY(year, month, mday) (mday >= 1 && mday <= (LEAPYEAR (year) ? monthdays_leap[month - 1] : monthdays[month - 1]))
 
 /* Check that a day-of-year is in a valid range */
 #define VALIDYEARDAY(year, yday) (yday >= 1 && yday <= (365 + (LEAPYEAR (year) ? 1 : 0)))
-- 
2.43.0


From 6d35ad89deaceb75ab4db7acf750e2dbc50e6d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:14 +0000
Subject: [PATCH 054/106] fix: report times after the end of the representable
 range

---
 libmseed/genutils.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/libmseed/genutils.c b/libmseed/genutils.c
index e1afdf4..9d40e4c 100644
--- a/libmseed/genutils.c
+++ b/libmseed/genutils.c
@@ -1161,12 +1161,13 @@ ms_nstime2timestrz (nstime_t nstime, char *timestr,
  * assumed that checking the range for each value has already been
  * done.
  *
- * Returns high-precision epoch time value
+ * Returns high-precision epoch time value or NSTERROR if the time
+ * cannot be represented.
  ***************************************************************************/
 static nstime_t
 ms_time2nstime_int (int year, int yday, int hour, int min, int sec, uint32_t nsec)
 {
-  nstime_t nstime;
+  int64_t seconds;
   int shortyear;
   int a4, a100, a400;
   int intervening_leap_days;
@@ -1181,9 +1182,17 @@ ms_time2nstime_int (int year, int yday, int hour, int min, int sec, uint32_t nse
 
   days = (365 * (shortyear - 70) + intervening_leap_days + (yday - 1));
 
-  nstime = (nstime_t) (60 * (60 * ((nstime_t)24 * days + hour) + min) + sec) * NSTMODULUS + nsec;
+  seconds = 60 * (60 * ((int64_t)24 * days + hour) + min) + sec;
+
+  /* The range of nstime_t ends within year 2262 */
+  if (seconds > INT64_MAX / NSTMODULUS ||
+      (seconds == INT64_MAX / NSTMODULUS && nsec > INT64_MAX % NSTMODULUS))
+  {
+    ms_log (2, "time in year %d and day-of-year %d cannot be represented\n", year, yday);
+    return NSTERROR;
+  }
 
-  return nstime;
+  return (nstime_t)seconds * NSTMODULUS + nsec;
 } /* End of ms_time2nstime_int() */
 
 
-- 
2.43.0


From 2b1c3e80f571d52a0ea326085fdc88813eb28bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:20 +0000
Subject: [PATCH 055/106] fix: do not wrap out of range values in time strings

---
 libmseed/genutils.c | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/libmseed/genutils.c b/libmseed/genutils.c
index 9d40e4c..37e355b 100644
--- a/libmseed/genutils.c
+++ b/libmseed/genutils.c
@@ -1457,21 +1457,27 @@ ms_mdtimestr2nstime (const char *timestr)
     return NSTERROR;
   }
 
-  fields = sscanf (timestr, "%d%*[-,/:.]%d%*[-,/:.]%d%*[-,/:.Tt ]%d%*[-,/:.]%d%*[-,/:.]%d%lf",
+  fields = sscanf (timestr, "%9d%*[-,/:.]%9d%*[-,/:.]%9d%*[-,/:.Tt ]%9d%*[-,/:.]%9d%*[-,/:.]%9d%lf",
                    &year, &mon, &mday, &hour, &min, &sec, &fsec);
 
-  /* Convert fractional seconds to nanoseconds */
-  if (fsec != 0.0)
+  if (fields < 1)
   {
-    nsec = (uint32_t)(fsec * 1000000000.0 + 0.5);
+    ms_log (2, "Cannot parse time string: %s\n", timestr);
+    return NSTERROR;
   }
 
-  if (fields < 1)
+  if (!(fsec >= 0.0 && fsec < 1.0))
   {
-    ms_log (2, "Cannot parse time string: %s\n", timestr);
+    ms_log (2, "fractional second (%g) is out of range\n", fsec);
     return NSTERROR;
   }
 
+  /* Convert fractional seconds to nanoseconds */
+  if (fsec != 0.0)
+  {
+    nsec = (uint32_t)(fsec * 1000000000.0 + 0.5);
+  }
+
   if (!VALIDYEAR (year))
   {
     ms_log (2, "year (%d) is out of range\n", year);
@@ -1563,21 +1569,27 @@ ms_seedtimestr2nstime (const char *seedtimestr)
     return NSTERROR;
   }
 
-  fields = sscanf (seedtimestr, "%d%*[-,:.]%d%*[-,:.Tt ]%d%*[-,:.]%d%*[-,:.]%d%lf",
+  fields = sscanf (seedtimestr, "%9d%*[-,:.]%9d%*[-,:.Tt ]%9d%*[-,:.]%9d%*[-,:.]%9d%lf",
                    &year, &yday, &hour, &min, &sec, &fsec);
 
-  /* Convert fractional seconds to nanoseconds */
-  if (fsec != 0.0)
+  if (fields < 1)
   {
-    nsec = (uint32_t)(fsec * 1000000000.0 + 0.5);
+    ms_log (2, "Cannot parse time string: %s\n", seedtimestr);
+    return NSTERROR;
   }
 
-  if (fields < 1)
+  if (!(fsec >= 0.0 && fsec < 1.0))
   {
-    ms_log (2, "Cannot parse time string: %s\n", seedtimestr);
+    ms_log (2, "fractional second (%g) is out of range\n", fsec);
     return NSTERROR;
   }
 
+  /* Convert fractional seconds to nanoseconds */
+  if (fsec != 0.0)
+  {
+    nsec = (uint32_t)(fsec * 1000000000.0 + 0.5);
+  }
+
   if (!VALIDYEAR (year))
   {
     ms_log (2, "year (%d) is out of range\n", year);
-- 
2.43.0


From 517191a05029c4da21e122cfbe4226dff632f794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:25 +0000
Subject: [PATCH 056/106] fix: keep sign and range of epoch values in time
 strings

---
 libmseed/genutils.c | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/libmseed/genutils.c b/libmseed/genutils.c
index 37e355b..c365b7c 100644
--- a/libmseed/genutils.c
+++ b/libmseed/genutils.c
@@ -930,6 +930,7 @@ ms_nstime2timestr (nstime_t nstime, char *timestr,
   struct tm tms = {0};
   int64_t rawisec;
   int rawnanosec;
+  const char *rawsign = "";
   int64_t isec;
   int nanosec;
   int microsec;
@@ -953,6 +954,10 @@ ms_nstime2timestr (nstime_t nstime, char *timestr,
     isec -= 1;
     nanosec = NSTMODULUS - (-nanosec);
     rawnanosec *= -1;
+
+    /* Zero has no sign of its own */
+    if (rawisec == 0)
+      rawsign = "-";
   }
 
   /* Determine microsecond and sub-microsecond values */
@@ -1052,7 +1057,7 @@ ms_nstime2timestr (nstime_t nstime, char *timestr,
       break;
     case UNIXEPOCH:
       expected = -1;
-      printed  = snprintf (timestr, 22, "%" PRId64 ".%06d", rawisec, rawnanosec / 1000);
+      printed  = snprintf (timestr, 22, "%s%" PRId64 ".%06d", rawsign, rawisec, rawnanosec / 1000);
       break;
     case NANOSECONDEPOCH:
       expected = -1;
@@ -1096,7 +1101,7 @@ ms_nstime2timestr (nstime_t nstime, char *timestr,
       break;
     case UNIXEPOCH:
       expected = -1;
-      printed  = snprintf (timestr, 22, "%" PRId64 ".%09d", rawisec, rawnanosec);
+      printed  = snprintf (timestr, 22, "%s%" PRId64 ".%09d", rawsign, rawisec, rawnanosec);
       break;
     case NANOSECONDEPOCH:
       expected = -1;
@@ -1297,6 +1302,7 @@ ms_timestr2nstime (const char *timestr)
   int fields;
   int64_t sec = 0;
   double fsec = 0.0;
+  int64_t nanosec;
   nstime_t nstime;
 
   if (!timestr)
@@ -1357,9 +1363,9 @@ ms_timestr2nstime (const char *timestr)
   length = (int)(cp - timestr);
 
   /* If the time string is all number-like characters assume it is an epoch time.
-   * Unless it is 4 characters, which could be a year, unless it starts with a sign. */
+   * Unless it is 4 digits, which could be a year. */
   if (!error && length == numberlike &&
-      (length != 4 || (length == 4 && (timestr[0] == '-' || timestr[0] == '+'))))
+      (length != 4 || firstdelimiter || timestr[0] == '+'))
   {
     fields = sscanf (timestr, "%" SCNd64 "%lf", &sec, &fsec);
 
@@ -1370,16 +1376,23 @@ ms_timestr2nstime (const char *timestr)
     }
 
     /* Convert seconds and fractional seconds to nanoseconds, return combination */
-    nstime = MS_EPOCH2NSTIME (sec);
+    nanosec = (int64_t)(fsec * 1000000000.0 + 0.5);
 
-    if (fsec != 0.0)
+    if (sec > INT64_MAX / NSTMODULUS || sec < -(INT64_MAX / NSTMODULUS) ||
+        ((sec == INT64_MAX / NSTMODULUS || sec == -(INT64_MAX / NSTMODULUS)) &&
+         nanosec > INT64_MAX % NSTMODULUS))
     {
-      if (nstime >= 0)
-        nstime += (int)(fsec * 1000000000.0 + 0.5);
-      else
-        nstime -= (int)(fsec * 1000000000.0 + 0.5);
+      ms_log (2, "Epoch value is out of range: '%s'\n", timestr);
+      return NSTERROR;
     }
 
+    nstime = MS_EPOCH2NSTIME (sec);
+
+    if (timestr[0] == '-')
+      nstime -= nanosec;
+    else
+      nstime += nanosec;
+
     return nstime;
   }
   /* Otherwise, a non-epoch value time string */
-- 
2.43.0


From 9e7f04412a1e3e1970c3bc4a97b7ff1160d96077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:25 +0000
Subject: [PATCH 057/106] fix: print microseconds of negative epoch values

---
 libmseed/genutils.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libmseed/genutils.c b/libmseed/genutils.c
index c365b7c..867f629 100644
--- a/libmseed/genutils.c
+++ b/libmseed/genutils.c
@@ -964,6 +964,10 @@ ms_nstime2timestr (nstime_t nstime, char *timestr,
   microsec = nanosec / 1000;
   submicro = nanosec - (microsec * 1000);
 
+  /* Epoch values are printed as sign and magnitude */
+  if (timeformat == UNIXEPOCH)
+    microsec = rawnanosec / 1000;
+
   /* Calculate date-time parts if needed by format */
   if (timeformat == ISOMONTHDAY || timeformat == ISOMONTHDAY_Z ||
       timeformat == ISOMONTHDAY_DOY || timeformat == ISOMONTHDAY_DOY_Z ||
-- 
2.43.0


From 83a100b715d7ebcf485afb55db1a0ea232e94b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:56 +0000
Subject: [PATCH 058/106] fix: close leap second file on errors

---
 libmseed/genutils.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libmseed/genutils.c b/libmseed/genutils.c
index 867f629..2ad5ece 100644
--- a/libmseed/genutils.c
+++ b/libmseed/genutils.c
@@ -1852,6 +1852,7 @@ ms_readleapsecondfile (const char *filename)
       if ((ls = (LeapSecond *)libmseed_memory.malloc (sizeof (LeapSecond))) == NULL)
       {
         ms_log (2, "Cannot allocate LeapSecond entry, out of memory?\n");
+        fclose (fp);
         return -1;
       }
 
@@ -1882,6 +1883,7 @@ ms_readleapsecondfile (const char *filename)
   if (ferror (fp))
   {
     ms_log (2, "Error reading leap second file (%s): %s\n", filename, strerror (errno));
+    fclose (fp);
     return -1;
   }
 
-- 
2.43.0


From af4c3f4b462c9f45fb7e1e75386728a52f50b53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:01 +0000
Subject: [PATCH 059/106] fix: do not take parts of long lines or wrapped
 values as leap seconds

---
 libmseed/genutils.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/libmseed/genutils.c b/libmseed/genutils.c
index 2ad5ece..34a46ee 100644
--- a/libmseed/genutils.c
+++ b/libmseed/genutils.c
@@ -1811,7 +1811,19 @@ ms_readleapsecondfile (const char *filename)
 
     /* Terminate string at first newline character if any */
     if ((cp = strchr (readline, '\n')))
+    {
       *cp = '\0';
+    }
+    /* Otherwise, skip the rest of a line longer than the buffer */
+    else
+    {
+      int c;
+
+      do
+      {
+        c = fgetc (fp);
+      } while (c != '\n' && c != EOF);
+    }
 
     /* Skip empty lines */
     if (!strlen (readline))
@@ -1847,7 +1859,9 @@ ms_readleapsecondfile (const char *filename)
 
     fields = sscanf (readline, "%" SCNd64 " %d ", &leapsecond, &TAIdelta);
 
-    if (fields == 2)
+    /* Limit to values that can be represented as nstime_t */
+    if (fields == 2 &&
+        leapsecond >= 0 && leapsecond <= INT64_MAX / NSTMODULUS + NTPPOSIXEPOCHDELTA)
     {
       if ((ls = (LeapSecond *)libmseed_memory.malloc (sizeof (LeapSecond))) == NULL)
       {
-- 
2.43.0


From 1c696d2db7a709faf37dac0f9403c863e7bcfe97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:28 +0000
Subject: [PATCH 060/106] fix: account for sample periods in the host latency

---
 libmseed/msrutils.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libmseed/msrutils.c b/libmseed/msrutils.c
index 763bbd9..560ee95 100644
--- a/libmseed/msrutils.c
+++ b/libmseed/msrutils.c
@@ -407,6 +407,8 @@ msr3_host_latency (const MS3Record *msr)
   /* Calculate the time covered by the samples */
   if (msr->samprate > 0.0 && msr->samplecnt > 0)
     span = (1.0 / msr->samprate) * (msr->samplecnt - 1);
+  else if (msr->samprate < 0.0 && msr->samplecnt > 0)
+    span = -msr->samprate * (msr->samplecnt - 1);
 
   /* Grab UTC time according to the system clock */
   epoch = (double)time (&tv);
-- 
2.43.0


From d08d94f27070b4bae62cbd8bac2196aabde4a524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:47 +0000
Subject: [PATCH 061/106] fix: do not read past the stated length of a string

---
 libmseed/genutils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmseed/genutils.c b/libmseed/genutils.c
index 34a46ee..d4a7a29 100644
--- a/libmseed/genutils.c
+++ b/libmseed/genutils.c
@@ -549,7 +549,7 @@ utf8length_int (const char *str, int maxlength)
   int length = 0;
   int offset;
 
-  for (offset = 0; str[offset] && offset < maxlength; offset++)
+  for (offset = 0; offset < maxlength && str[offset]; offset++)
   {
     type = utf8d[(uint8_t)str[offset]];
     state = utf8d[256 + state * 16 + type];
-- 
2.43.0


From 498e33e129f90cc443f430d6d593ed027bd79f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:03 +0000
Subject: [PATCH 062/106] fix: only map channels without delimiters to extended
 form

---
 libmseed/genutils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmseed/genutils.c b/libmseed/genutils.c
index d4a7a29..be3fd05 100644
--- a/libmseed/genutils.c
+++ b/libmseed/genutils.c
@@ -382,7 +382,7 @@ ms_nslc2sid (char *sid, int sidlen, uint16_t flags,
   needed++;
 
   /* Map SEED channel to extended channel if possible, otherwise direct copy */
-  if (!ms_seedchan2xchan (xchan, chan))
+  if (!strchr (chan, '_') && !ms_seedchan2xchan (xchan, chan))
   {
     chan = xchan;
   }
-- 
2.43.0


From f158011a16bdf1a1dc6e1d4f20dadc412991bd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:13 +0000
Subject: [PATCH 063/106] fix: match the escaped character in selection
 patterns

---
 libmseed/selection.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libmseed/selection.c b/libmseed/selection.c
index cd7cb31..8bac6d7 100644
--- a/libmseed/selection.c
+++ b/libmseed/selection.c
@@ -916,6 +916,8 @@ ms_globmatch (const char *string, const char *pattern)
     case '\\':
       if (*pattern)
         c = *pattern++;
+      if (c != *string)
+        return GLOBMATCH_FALSE;
       break;
 
     default:
-- 
2.43.0


From 4fddb05747116a443d9720b5a45b40602236e502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:19 +0000
Subject: [PATCH 064/106] fix: report invalid dates in selection files

---
 libmseed/selection.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmseed/selection.c b/libmseed/selection.c
index 8bac6d7..261472d 100644
--- a/libmseed/selection.c
+++ b/libmseed/selection.c
@@ -553,7 +553,7 @@ ms3_readselectionsfile (MS3Selections **ppselections, const char *filename)
     if (cp)
     {
       starttime = ms_timestr2nstime (cp);
-      if (starttime == NSTUNSET)
+      if (starttime == NSTERROR || starttime == NSTUNSET)
       {
         ms_log (2, "Cannot convert data selection start time (line %d): %s\n", linecount, cp);
         return -1;
@@ -570,7 +570,7 @@ ms3_readselectionsfile (MS3Selections **ppselections, const char *filename)
     if (cp)
     {
       endtime = ms_timestr2nstime (cp);
-      if (endtime == NSTUNSET)
+      if (endtime == NSTERROR || endtime == NSTUNSET)
       {
         ms_log (2, "Cannot convert data selection end time (line %d): %s\n", linecount, cp);
         return -1;
-- 
2.43.0


From 3668aa74cf790d1d9afab07ee613922a3c2e2db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:24 +0000
Subject: [PATCH 065/106] fix: do not take the rest of a long line as a
 selection

---
 libmseed/selection.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/libmseed/selection.c b/libmseed/selection.c
index 261472d..cddc1dd 100644
--- a/libmseed/selection.c
+++ b/libmseed/selection.c
@@ -439,6 +439,8 @@ ms3_readselectionsfile (MS3Selections **ppselections, const char *filename)
   int selectcount = 0;
   int linecount = 0;
   int fieldidx;
+  int toolong;
+  int skip;
   uint8_t isstart2;
   uint8_t isend3;
   uint8_t isstart6;
@@ -476,6 +478,14 @@ ms3_readselectionsfile (MS3Selections **ppselections, const char *filename)
     /* Guarantee termination */
     selectline[sizeof (selectline) - 1] = '\0';
 
+    /* Skip the rest of a line longer than the buffer */
+    toolong = 0;
+    if (!strchr (selectline, '\n'))
+    {
+      while ((skip = fgetc (fp)) != EOF && skip != '\n')
+        toolong = 1;
+    }
+
     line = selectline;
 
     /* Trim trailing whitespace (including newlines, carriage returns, etc.) if any */
@@ -506,6 +516,12 @@ ms3_readselectionsfile (MS3Selections **ppselections, const char *filename)
     if (*line == '#')
       continue;
 
+    if (toolong)
+    {
+      ms_log (1, "%s: Skipping data selection that is too long on line %d\n", filename, linecount);
+      continue;
+    }
+
     /* Set fields array to whitespace delimited fields */
     cp = line;
     next = 0;  /* For this loop: 0 = whitespace, 1 = non-whitespace */
-- 
2.43.0


From 4a14027a0573af9402844f234c1640720bc3e388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:31 +0000
Subject: [PATCH 066/106] fix: count only the selections added from a file

---
 libmseed/selection.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libmseed/selection.c b/libmseed/selection.c
index cddc1dd..d65d84e 100644
--- a/libmseed/selection.c
+++ b/libmseed/selection.c
@@ -659,6 +659,7 @@ ms3_readselectionsfile (MS3Selections **ppselections, const char *filename)
     else
     {
       ms_log (1, "%s: Skipping unrecognized data selection on line %d\n", filename, linecount);
+      continue;
     }
 
     selectcount++;
-- 
2.43.0


From f1f51cfab97d9e9d37f0002abe1912f8f1233485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:59 +0000
Subject: [PATCH 067/106] fix: report selection files that cannot be read

---
 libmseed/selection.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libmseed/selection.c b/libmseed/selection.c
index d65d84e..b7e728d 100644
--- a/libmseed/selection.c
+++ b/libmseed/selection.c
@@ -665,6 +665,12 @@ ms3_readselectionsfile (MS3Selections **ppselections, const char *filename)
     selectcount++;
   }
 
+  if (ferror (fp))
+  {
+    ms_log (2, "Cannot read selection file %s\n", filename);
+    selectcount = -1;
+  }
+
   if (fp != stdin)
     fclose (fp);
 
-- 
2.43.0


From 09e42e030a7984008ee07ca78fd72fef0a12c4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:05 +0000
Subject: [PATCH 068/106] fix: do not cut selection patterns

---
 libmseed/selection.c | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/libmseed/selection.c b/libmseed/selection.c
index b7e728d..e82586e 100644
--- a/libmseed/selection.c
+++ b/libmseed/selection.c
@@ -191,6 +191,12 @@ ms3_addselect (MS3Selections **ppselections, const char *sidpattern,
     return -1;
   }
 
+  if (strlen (sidpattern) >= sizeof (newsl->sidpattern))
+  {
+    ms_log (2, "%s(): Source ID pattern is too long: %s\n", __func__, sidpattern);
+    return -1;
+  }
+
   /* Allocate new SelectTime and populate */
   if (!(newst = (MS3SelectTime *)libmseed_memory.malloc (sizeof (MS3SelectTime))))
   {
@@ -307,10 +313,10 @@ ms3_addselect_comp (MS3Selections **ppselections, char *network, char *station,
                     nstime_t endtime, uint8_t pubversion)
 {
   char sidpattern[100];
-  char selnet[20];
-  char selsta[20];
-  char selloc[20];
-  char selchan[20];
+  char selnet[100];
+  char selsta[100];
+  char selloc[100];
+  char selchan[100];
 
   if (!ppselections)
   {
@@ -320,6 +326,12 @@ ms3_addselect_comp (MS3Selections **ppselections, char *network, char *station,
 
   if (network)
   {
+    if (strlen (network) >= sizeof (selnet))
+    {
+      ms_log (2, "%s(): Network pattern is too long: %s\n", __func__, network);
+      return -1;
+    }
+
     strncpy (selnet, network, sizeof (selnet));
     selnet[sizeof (selnet) - 1] = '\0';
   }
@@ -330,6 +342,12 @@ ms3_addselect_comp (MS3Selections **ppselections, char *network, char *station,
 
   if (station)
   {
+    if (strlen (station) >= sizeof (selsta))
+    {
+      ms_log (2, "%s(): Station pattern is too long: %s\n", __func__, station);
+      return -1;
+    }
+
     strncpy (selsta, station, sizeof (selsta));
     selsta[sizeof (selsta) - 1] = '\0';
   }
@@ -345,6 +363,11 @@ ms3_addselect_comp (MS3Selections **ppselections, char *network, char *station,
     {
       selloc[0] = '\0';
     }
+    else if (strlen (location) >= sizeof (selloc))
+    {
+      ms_log (2, "%s(): Location pattern is too long: %s\n", __func__, location);
+      return -1;
+    }
     else
     {
       strncpy (selloc, location, sizeof (selloc));
@@ -363,6 +386,11 @@ ms3_addselect_comp (MS3Selections **ppselections, char *network, char *station,
     {
       ms_seedchan2xchan (selchan, channel);
     }
+    else if (strlen (channel) >= sizeof (selchan))
+    {
+      ms_log (2, "%s(): Channel pattern is too long: %s\n", __func__, channel);
+      return -1;
+    }
     else
     {
       strncpy (selchan, channel, sizeof (selchan));
-- 
2.43.0


From afc738c8fb056c4ecf6d3458c40dc32a29d3a729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:15 +0000
Subject: [PATCH 069/106] fix: do not report a file without selected records as
 not SEED

---
 libmseed/fileutils.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libmseed/fileutils.c b/libmseed/fileutils.c
index 414b525..eed16a4 100644
--- a/libmseed/fileutils.c
+++ b/libmseed/fileutils.c
@@ -448,9 +448,10 @@ ms3_readmsr_selection (MS3FileParam **ppmsfp, MS3Record **ppmsr, const char *msp
                     (*ppmsr)->sid, (*ppmsr)->reclen, msfp->streampos);
           }
 
-          /* Skip record length bytes, update reading offset and file position */
+          /* Skip record length bytes, update reading offset, file position and record count */
           msfp->readoffset += (*ppmsr)->reclen;
           msfp->streampos += (*ppmsr)->reclen;
+          msfp->recordcount++;
         }
         else
         {
-- 
2.43.0


From 4cb57b1229bb914d72b58535a8cf9c1f6a755ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:08 +0000
Subject: [PATCH 070/106] fix: report extra headers that cannot be serialized

---
 libmseed/extraheaders.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libmseed/extraheaders.c b/libmseed/extraheaders.c
index ae9f896..adb90c6 100644
--- a/libmseed/extraheaders.c
+++ b/libmseed/extraheaders.c
@@ -462,7 +462,11 @@ mseh_set_ptr_r (MS3Record *msr, const char *ptr,
   /* Serialized extra headers and free parse state if not being retained */
   if (parsestate == NULL)
   {
-    mseh_serialize (msr, &parsed);
+    if (rv == true && mseh_serialize (msr, &parsed) < 0)
+    {
+      rv = false;
+    }
+
     mseh_free_parsestate (&parsed);
   }
   /* If changes were applied, the immutable form of the document is now invalid */
-- 
2.43.0


From fd8eed6e52ec4528a622497dc1c8c63cc98bac69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:14 +0000
Subject: [PATCH 071/106] fix: find extra headers that are only in the parse
 state

---
 libmseed/extraheaders.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmseed/extraheaders.c b/libmseed/extraheaders.c
index adb90c6..74fbeb0 100644
--- a/libmseed/extraheaders.c
+++ b/libmseed/extraheaders.c
@@ -166,12 +166,12 @@ mseh_get_ptr_r (const MS3Record *msr, const char *ptr,
   }
 
   /* Nothing can be found in no headers */
-  if (!msr->extralength)
+  if (!parsed && !msr->extralength)
   {
     return 1;
   }
 
-  if (!msr->extra)
+  if (!parsed && !msr->extra)
   {
     ms_log (2, "%s() Expected extra headers (msr->extra) are not present\n", __func__);
     return MS_GENERROR;
-- 
2.43.0


From b413fea83943ced4d5d52537c0e11a413f9e0c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:20 +0000
Subject: [PATCH 072/106] fix: do not return integer headers that do not fit
 the requested type

---
 libmseed/extraheaders.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libmseed/extraheaders.c b/libmseed/extraheaders.c
index 74fbeb0..03bfab1 100644
--- a/libmseed/extraheaders.c
+++ b/libmseed/extraheaders.c
@@ -230,7 +230,8 @@ mseh_get_ptr_r (const MS3Record *msr, const char *ptr,
     if (value)
       *((double *)value) = unsafe_yyjson_get_num (extravalue);
   }
-  else if (type == 'i' && yyjson_is_int (extravalue))
+  else if (type == 'i' && yyjson_is_int (extravalue) &&
+           !(yyjson_is_uint (extravalue) && unsafe_yyjson_get_uint (extravalue) > INT64_MAX))
   {
     if (value)
       *((int64_t *)value) = unsafe_yyjson_get_int (extravalue);
-- 
2.43.0


From 663ab641b6ac908d7d411abc19b958d12a37afc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:26 +0000
Subject: [PATCH 073/106] fix: do not write to string destinations without room

---
 libmseed/extraheaders.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmseed/extraheaders.c b/libmseed/extraheaders.c
index 03bfab1..142d32b 100644
--- a/libmseed/extraheaders.c
+++ b/libmseed/extraheaders.c
@@ -238,7 +238,7 @@ mseh_get_ptr_r (const MS3Record *msr, const char *ptr,
   }
   else if (type == 's' && yyjson_is_str (extravalue))
   {
-    if (value)
+    if (value && maxlength > 0)
     {
       stringvalue = unsafe_yyjson_get_str (extravalue);
       strncpy ((char *)value, stringvalue, maxlength - 1);
-- 
2.43.0


From b5ccba23bf831dbde21126147f032dec5676f607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:32 +0000
Subject: [PATCH 074/106] fix: free the parsed document when replacing extra
 headers

---
 libmseed/extraheaders.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libmseed/extraheaders.c b/libmseed/extraheaders.c
index 142d32b..b6acc06 100644
--- a/libmseed/extraheaders.c
+++ b/libmseed/extraheaders.c
@@ -1121,6 +1121,8 @@ mseh_replace (MS3Record *msr, char *jsonstring)
     /* Serialize new JSON string */
     serialized = yyjson_write_opts (doc, write_flg, &alc, &serialsize, &write_err);
 
+    yyjson_doc_free (doc);
+
     if (serialized == NULL)
     {
       ms_log (2, "%s() Cannot write extra header JSON: %s\n",
-- 
2.43.0


From 11fee88ad3a78c284ce128d8dd27fd79d2161579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:39 +0000
Subject: [PATCH 075/106] fix: free the parse state when extra headers cannot
 be parsed

---
 libmseed/extraheaders.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libmseed/extraheaders.c b/libmseed/extraheaders.c
index b6acc06..03c427e 100644
--- a/libmseed/extraheaders.c
+++ b/libmseed/extraheaders.c
@@ -58,10 +58,13 @@ parse_json (char *jsonstring, size_t length, LM_PARSED_JSON *parsed)
   yyjson_read_flag flg = YYJSON_READ_NOFLAG;
   yyjson_read_err err;
   yyjson_alc alc = {_priv_malloc, _priv_realloc, _priv_free, NULL};
+  int allocated = 0;
 
   /* Allocate parsed state if needed */
   if (!parsed)
   {
+    allocated = 1;
+
     if ((parsed = libmseed_memory.malloc (sizeof (LM_PARSED_JSON))) == NULL)
     {
       ms_log (2, "%s() Cannot allocate memory for internal JSON parsing state\n", __func__);
@@ -99,6 +102,10 @@ parse_json (char *jsonstring, size_t length, LM_PARSED_JSON *parsed)
   {
     ms_log (2, "%s() Cannot parse extra header JSON: %s\n",
             __func__, (err.msg) ? err.msg : "Unknown error");
+
+    if (allocated)
+      libmseed_memory.free (parsed);
+
     return NULL;
   }
 
-- 
2.43.0


From 60e18a3773d1af02228ed0f46cece02e4cb32b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:45 +0000
Subject: [PATCH 076/106] fix: print strings with escaped quotes in extra
 headers as they are

---
 libmseed/extraheaders.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libmseed/extraheaders.c b/libmseed/extraheaders.c
index 03c427e..828e65e 100644
--- a/libmseed/extraheaders.c
+++ b/libmseed/extraheaders.c
@@ -1172,6 +1172,7 @@ mseh_print (const MS3Record *msr, int indent)
   char *extra;
   int idx;
   int instring = 0;
+  int escaped  = 0;
 
   if (!msr)
     return MS_GENERROR;
@@ -1191,10 +1192,12 @@ mseh_print (const MS3Record *msr, int indent)
   ms_log (0, "%*s", indent, "");
   for (idx = 1; idx < (msr->extralength - 1); idx++)
   {
-    /* Toggle "in string" flag for double quotes */
-    if (extra[idx] == '"')
+    /* Toggle "in string" flag for double quotes that are not escaped */
+    if (extra[idx] == '"' && !escaped)
       instring = (instring) ? 0 : 1;
 
+    escaped = (instring && extra[idx] == '\\' && !escaped) ? 1 : 0;
+
     if (!instring)
     {
       if (extra[idx] == ':')
-- 
2.43.0


From 6e72b667aa8ad1f6f17c0031ec2c99df72c3c1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:01 +0000
Subject: [PATCH 077/106] fix: read 64-bit integers in extra headers without
 truncation

---
 libmseed/extraheaders.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmseed/extraheaders.c b/libmseed/extraheaders.c
index 828e65e..17d0886 100644
--- a/libmseed/extraheaders.c
+++ b/libmseed/extraheaders.c
@@ -241,7 +241,7 @@ mseh_get_ptr_r (const MS3Record *msr, const char *ptr,
            !(yyjson_is_uint (extravalue) && unsafe_yyjson_get_uint (extravalue) > INT64_MAX))
   {
     if (value)
-      *((int64_t *)value) = unsafe_yyjson_get_int (extravalue);
+      *((int64_t *)value) = unsafe_yyjson_get_sint (extravalue);
   }
   else if (type == 's' && yyjson_is_str (extravalue))
   {
-- 
2.43.0


From 1ef2473f53273c6f4ee3ff73997f4a56ecec2ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:46 +0000
Subject: [PATCH 078/106] fix: find nothing in an empty parse state instead of
 failing

---
 libmseed/extraheaders.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmseed/extraheaders.c b/libmseed/extraheaders.c
index 17d0886..04de09b 100644
--- a/libmseed/extraheaders.c
+++ b/libmseed/extraheaders.c
@@ -209,8 +209,8 @@ mseh_get_ptr_r (const MS3Record *msr, const char *ptr,
     }
   }
 
-  /* Create immutable document from mutable if needed */
-  if (parsed->mut_doc != NULL && parsed->doc == NULL)
+  /* Create immutable document from mutable if needed, nothing can be found in an empty one */
+  if (yyjson_mut_doc_get_root (parsed->mut_doc) != NULL && parsed->doc == NULL)
   {
     if ((parsed->doc = yyjson_mut_doc_imut_copy (parsed->mut_doc, &alc)) == NULL)
     {
-- 
2.43.0


From b731fa7d8478e7b2bc3181c28dd4cc5f326e1c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:29 +0000
Subject: [PATCH 079/106] fix: close the file when seeking to the start offset
 fails

---
 libmseed/msio.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libmseed/msio.c b/libmseed/msio.c
index 8eacc9f..8106f69 100644
--- a/libmseed/msio.c
+++ b/libmseed/msio.c
@@ -399,6 +399,8 @@ msio_fopen (LMIO *io, const char *path, const char *mode,
       if (lmp_fseek64 (io->handle, *startoffset, SEEK_SET))
       {
         ms_log (2, "Cannot seek in %s to offset %" PRId64 "\n", path, *startoffset);
+        fclose (io->handle);
+        io->handle = NULL;
         return -1;
       }
     }
-- 
2.43.0


From d1d18a16ce9e50a2ca5f4b23268fddec44f972ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:35 +0000
Subject: [PATCH 080/106] fix: limit byte range offsets to the largest instead
 of wrapping

---
 libmseed/fileutils.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libmseed/fileutils.c b/libmseed/fileutils.c
index eed16a4..178d28e 100644
--- a/libmseed/fileutils.c
+++ b/libmseed/fileutils.c
@@ -386,7 +386,7 @@ ms3_readmsr_selection (MS3FileParam **ppmsfp, MS3Record **ppmsr, const char *msp
   for (;;)
   {
     /* Finished when within MINRECLEN from known end offset in stream */
-    if (msfp->endoffset && (msfp->endoffset + 1 - msfp->streampos) < MINRECLEN)
+    if (msfp->endoffset && (msfp->endoffset - msfp->streampos) < MINRECLEN - 1)
     {
       retcode = MS_ENDOFFILE;
       break;
@@ -1061,12 +1061,12 @@ parse_pathname_range (const char *string, int64_t *start, int64_t *end)
         return NULL;
     }
 
-    /* Convert start and end values to numbers if non-zero length */
+    /* Convert start and end values to numbers if non-zero length, limited to the maximum */
     if (start && startdigits)
-      *start = (int64_t) strtoull (startstr, NULL, 10);
+      *start = (int64_t) strtoll (startstr, NULL, 10);
 
     if (end && enddigits)
-      *end = (int64_t) strtoull (endstr, NULL, 10);
+      *end = (int64_t) strtoll (endstr, NULL, 10);
   }
 
   return at;
-- 
2.43.0


From c3dc68fb7ca08fd8a3b927bbe78b9226f7cda5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:41 +0000
Subject: [PATCH 081/106] fix: report output that cannot be written in
 msr3_writemseed() and mstl3_writemseed()

---
 libmseed/fileutils.c | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/libmseed/fileutils.c b/libmseed/fileutils.c
index 178d28e..cbbc3ee 100644
--- a/libmseed/fileutils.c
+++ b/libmseed/fileutils.c
@@ -879,6 +879,31 @@ ms_record_handler_int (char *record, int reclen, void *ofp)
   }
 } /* End of ms_record_handler_int() */
 
+/***************************************************************************
+ *
+ * Finish writing to an output stream: close a file or flush stdout.
+ *
+ * Returns 0 on success and -1 if not everything could be written.
+ *
+ * \ref MessageOnError - this function logs a message on error
+ ***************************************************************************/
+static int
+ms_finish_output (FILE *ofp, const char *mspath)
+{
+  int failed = ferror (ofp);
+
+  if (((ofp == stdout) ? fflush (ofp) : fclose (ofp)) != 0)
+    failed = 1;
+
+  if (failed)
+  {
+    ms_log (2, "Cannot write all records to output file %s\n", mspath);
+    return -1;
+  }
+
+  return 0;
+} /* End of ms_finish_output() */
+
 /**********************************************************************/ /**
  * @brief Write miniSEED from an ::MS3Record container to a file
  *
@@ -932,8 +957,9 @@ msr3_writemseed (MS3Record *msr, const char *mspath, int8_t overwrite,
   /* Pack the MS3Record */
   packedrecords = msr3_pack (msr, &ms_record_handler_int, ofp, NULL, flags, verbose - 1);
 
-  /* Close file and return record count */
-  fclose (ofp);
+  /* Finish output and return record count */
+  if (ms_finish_output (ofp, mspath))
+    return -1;
 
   return packedrecords;
 } /* End of msr3_writemseed() */
@@ -999,8 +1025,9 @@ mstl3_writemseed (MS3TraceList *mstl, const char *mspath, int8_t overwrite,
   packedrecords = mstl3_pack (mstl, &ms_record_handler_int, ofp, maxreclen,
                               encoding, NULL, flags, verbose, NULL);
 
-  /* Close file and return record count */
-  fclose (ofp);
+  /* Finish output and return record count */
+  if (ms_finish_output (ofp, mspath))
+    return -1;
 
   return packedrecords;
 } /* End of mstl3_writemseed() */
-- 
2.43.0


From 2a1b81a03dba8790a275ffb3679cfad2a4ba8fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:48 +0000
Subject: [PATCH 082/106] fix: read the fraction of a time separated by commas

---
 libmseed/genutils.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/libmseed/genutils.c b/libmseed/genutils.c
index be3fd05..71740a3 100644
--- a/libmseed/genutils.c
+++ b/libmseed/genutils.c
@@ -1555,7 +1555,7 @@ ms_mdtimestr2nstime (const char *timestr)
  * delimiter can be a dash [-], comma [,], colon [:] or period [.].
  * Additionally a [T] or space may be used to seprate the day and hour
  * fields.  The fractional seconds ("FFFFFFFFF") must begin with a
- * period [.] if present.
+ * period [.] or comma [,] if present.
  *
  * The time string can be "short" in which case the omitted values are
  * assumed to be zero (with the exception of DDD which is assumed to
@@ -1579,6 +1579,9 @@ ms_seedtimestr2nstime (const char *seedtimestr)
   int sec       = 0;
   double fsec   = 0.0;
   uint32_t nsec = 0;
+  int length    = 0;
+
+  char fraction[24] = "0.";
 
   if (!seedtimestr)
   {
@@ -1586,8 +1589,14 @@ ms_seedtimestr2nstime (const char *seedtimestr)
     return NSTERROR;
   }
 
-  fields = sscanf (seedtimestr, "%9d%*[-,:.]%9d%*[-,:.Tt ]%9d%*[-,:.]%9d%*[-,:.]%9d%lf",
-                   &year, &yday, &hour, &min, &sec, &fsec);
+  fields = sscanf (seedtimestr, "%9d%*[-,:.]%9d%*[-,:.Tt ]%9d%*[-,:.]%9d%*[-,:.]%9d%n%lf",
+                   &year, &yday, &hour, &min, &sec, &length, &fsec);
+
+  /* Fractional seconds following a comma */
+  if (fields == 5 && sscanf (seedtimestr + length, ",%20[0-9]", fraction + 2) == 1)
+  {
+    fsec = strtod (fraction, NULL);
+  }
 
   if (fields < 1)
   {
-- 
2.43.0


From b83feeaddc255ca34241ae96f0069fabde8b10a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:03 +0000
Subject: [PATCH 083/106] fix: report output that cannot be written by msi

---
 src/msi.c | 37 ++++++++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/src/msi.c b/src/msi.c
index bc71876..846c21d 100644
--- a/src/msi.c
+++ b/src/msi.c
@@ -25,6 +25,7 @@ static char *getoptval (int argcount, char **argvec, int argopt);
 static int lisnumber (char *number);
 static int addfile (char *filename);
 static int addlistfile (char *filename);
+static int closeoutput (FILE *fp, const char *filename);
 static int my_globmatch (const char *string, const char *pattern);
 static void usage (void);
 
@@ -87,6 +88,7 @@ main (int argc, char **argv)
   int64_t totalrecs = 0;
   int64_t totalsamps = 0;
   int64_t totalfiles = 0;
+  int outputerror = 0;
 
   char stime[40];
 
@@ -346,11 +348,11 @@ main (int argc, char **argv)
     flp = flp->next;
   } /* End of looping over file list */
 
-  if (binfile)
-    fclose (bfp);
+  if (binfile && closeoutput (bfp, binfile))
+    outputerror = 1;
 
-  if (outfile)
-    fclose (ofp);
+  if (outfile && closeoutput (ofp, outfile))
+    outputerror = 1;
 
   if (basicsum)
     ms_log (0, "Files: %" PRId64 ", Records: %" PRId64 ", Samples: %" PRId64 "\n",
@@ -375,7 +377,7 @@ main (int argc, char **argv)
   if (mstl)
     mstl3_free (&mstl, 0);
 
-  return 0;
+  return (outputerror) ? 1 : 0;
 } /* End of main() */
 
 /***************************************************************************
@@ -812,6 +814,31 @@ addlistfile (char *filename)
   return filecount;
 } /* End of addlistfile() */
 
+/***************************************************************************
+ * closeoutput:
+ *
+ * Close an output file, or flush it when it is stdout, and check that
+ * everything could be written.
+ *
+ * Returns 0 on success and -1 on error.
+ ***************************************************************************/
+static int
+closeoutput (FILE *fp, const char *filename)
+{
+  int failed = ferror (fp);
+
+  if (((fp == stdout) ? fflush (fp) : fclose (fp)) != 0)
+    failed = 1;
+
+  if (failed)
+  {
+    ms_log (2, "Cannot write all data to output file: %s\n", filename);
+    return -1;
+  }
+
+  return 0;
+} /* End of closeoutput() */
+
 /***********************************************************************
  * robust glob pattern matcher
  * ozan s. yigit/dec 1994
-- 
2.43.0


From d73bd8dd5f66130c65e1290325e9ebc3fcfa914a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:00 +0000
Subject: [PATCH 084/106] fix: list gaps longer than 292 years as gaps

---
 libmseed/tracelist.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index fc47dd9..4b95ac1 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -2187,6 +2187,22 @@ mstl3_pack (MS3TraceList *mstl, void (*record_handler) (char *, int, void *),
   return (failed) ? -1 : totalpackedrecords;
 } /* End of mstl3_pack() */
 
+/***************************************************************************
+ *
+ * Calculate the difference between two times, later - earlier, in
+ * seconds for any times, the difference may not fit in an ::nstime_t.
+ *
+ * Returns difference in seconds
+ ***************************************************************************/
+static double
+ms_timediff_seconds (nstime_t later, nstime_t earlier)
+{
+  if (later >= earlier)
+    return (double)((uint64_t)later - (uint64_t)earlier) / NSTMODULUS;
+
+  return -((double)((uint64_t)earlier - (uint64_t)later) / NSTMODULUS);
+} /* End of ms_timediff_seconds() */
+
 /**********************************************************************/ /**
  * @brief Print trace list summary information for a ::MS3TraceList
  *
@@ -2269,7 +2285,7 @@ mstl3_printtracelist (const MS3TraceList *mstl, ms_timeformat_t timeformat,
         nogap = 0;
 
         if (seg->prev)
-          gap = (double)(seg->starttime - seg->prev->endtime) / NSTMODULUS;
+          gap = ms_timediff_seconds (seg->starttime, seg->prev->endtime);
         else
           nogap = 1;
 
@@ -2445,7 +2461,7 @@ mstl3_printgaplist (const MS3TraceList *mstl, ms_timeformat_t timeformat,
         continue;
       }
 
-      gap = (double)(seg->next->starttime - seg->endtime) / NSTMODULUS;
+      gap = ms_timediff_seconds (seg->next->starttime, seg->endtime);
 
       /* Check that any overlap is not larger than the trace coverage */
       if (gap < 0.0)
-- 
2.43.0


From 757ace1646ddeee2ba9e5e433220036b5472749e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:28 +0000
Subject: [PATCH 085/106] fix: look for the newline of a registered message
 within the buffer

---
 libmseed/logging.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/libmseed/logging.c b/libmseed/logging.c
index 32b3859..fc85ebf 100644
--- a/libmseed/logging.c
+++ b/libmseed/logging.c
@@ -343,6 +343,7 @@ rlog_int (MSLogParam *logp, const char *function, int level,
           const char *format, va_list *varlist)
 {
   char message[MAX_LOG_MSG_LENGTH];
+  size_t length;
   int presize = 0;
   int printed = 0;
 
@@ -404,15 +405,21 @@ rlog_int (MSLogParam *logp, const char *function, int level,
     message[MAX_LOG_MSG_LENGTH - 1] = '\0';
   }
 
+  /* Return formatting error */
+  if (printed < 0)
+    return printed;
+
   printed += presize;
 
   /* Add warning/error message to registry if enabled */
   if (level >= 1 && logp->registry.maxmessages > 0)
   {
+    length = strlen (message);
+
     /* Remove trailing newline if present */
-    if (message[printed - 1] == '\n')
+    if (length > 0 && message[length - 1] == '\n')
     {
-      message[printed - 1] = '\0';
+      message[length - 1] = '\0';
       printed -= 1;
     }
 
-- 
2.43.0


From 22c71f5b2aff592f8ca73125d5d8dbfa8b1f35cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:45 +0000
Subject: [PATCH 086/106] fix: release registered messages with the allocator
 they came from

---
 libmseed/logging.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libmseed/logging.c b/libmseed/logging.c
index fc85ebf..582b71a 100644
--- a/libmseed/logging.c
+++ b/libmseed/logging.c
@@ -499,7 +499,7 @@ add_message_int (MSLogRegistry *logreg, const char *function, int level,
         logentry->next = NULL;
 
       if (count > logreg->maxmessages)
-        free (logentry);
+        libmseed_memory.free (logentry);
 
       logentry = lognext;
     }
@@ -624,7 +624,7 @@ ms_rlog_emit (MSLogParam *logp, int count, int context)
     print_message_int (logp, logprint->level, message, "\n");
 
     logentry = logprint->next;
-    free (logprint);
+    libmseed_memory.free (logprint);
     logprint = logentry;
   }
 
@@ -656,7 +656,7 @@ ms_rlog_free (MSLogParam *logp)
     freed++;
 
     logp->registry.messages = logentry->next;
-    free (logentry);
+    libmseed_memory.free (logentry);
     logentry = logp->registry.messages;
   }
 
-- 
2.43.0


From c64ac2dc71f2666729e32260834b520d3f344c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:52 +0000
Subject: [PATCH 087/106] fix: keep the message count of the log registry

---
 libmseed/logging.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libmseed/logging.c b/libmseed/logging.c
index 582b71a..b7aca2c 100644
--- a/libmseed/logging.c
+++ b/libmseed/logging.c
@@ -499,7 +499,10 @@ add_message_int (MSLogRegistry *logreg, const char *function, int level,
         logentry->next = NULL;
 
       if (count > logreg->maxmessages)
+      {
         libmseed_memory.free (logentry);
+        logreg->messagecnt -= 1;
+      }
 
       logentry = lognext;
     }
@@ -596,6 +599,7 @@ ms_rlog_emit (MSLogParam *logp, int count, int context)
 
     logentry->next = logprint;
     logprint = logentry;
+    logp->registry.messagecnt -= 1;
 
     if (emit > 0)
       emit--;
@@ -656,6 +660,7 @@ ms_rlog_free (MSLogParam *logp)
     freed++;
 
     logp->registry.messages = logentry->next;
+    logp->registry.messagecnt -= 1;
     libmseed_memory.free (logentry);
     logentry = logp->registry.messages;
   }
-- 
2.43.0


From ace98804a4001a911f928aacbd3b473f10bd28b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:57 +0000
Subject: [PATCH 088/106] fix: return the number of emitted messages

---
 libmseed/logging.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libmseed/logging.c b/libmseed/logging.c
index b7aca2c..0144ff1 100644
--- a/libmseed/logging.c
+++ b/libmseed/logging.c
@@ -587,6 +587,7 @@ ms_rlog_emit (MSLogParam *logp, int count, int context)
   char local_message[MAX_LOG_MSG_LENGTH];
   char *message = NULL;
   int emit = (count > 0) ? count : -1;
+  int emitted = 0;
 
   if (!logp)
     logp = &gMSLogParam;
@@ -626,13 +627,14 @@ ms_rlog_emit (MSLogParam *logp, int count, int context)
     }
 
     print_message_int (logp, logprint->level, message, "\n");
+    emitted++;
 
     logentry = logprint->next;
     libmseed_memory.free (logprint);
     logprint = logentry;
   }
 
-  return 0;
+  return emitted;
 } /* End of ms_rlog_emit() */
 
 
-- 
2.43.0


From c8fbe81c3f69be05bf4f83216052685c1ba8b3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:38 +0000
Subject: [PATCH 089/106] fix: leave a trace list as it was when adding a
 source fails

---
 libmseed/tracelist.c | 65 ++++++++++++++++++++++++++++++++++++++------
 1 file changed, 57 insertions(+), 8 deletions(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index 4b95ac1..d20b32d 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -311,6 +311,39 @@ mstl3_addID (MS3TraceList *mstl, MS3TraceID *id, MS3TraceID **prev)
 } /* End of mstl3_addID() */
 
 
+/***************************************************************************
+ * Free a segment that is not part of a list, including its data samples
+ * and record list.
+ ***************************************************************************/
+static void
+lm_free_segment (MS3TraceSeg *seg)
+{
+  MS3RecordPtr *recordptr;
+  MS3RecordPtr *nextrecordptr;
+
+  if (seg->datasamples)
+    libmseed_memory.free (seg->datasamples);
+
+  if (seg->recordlist)
+  {
+    recordptr = seg->recordlist->first;
+    while (recordptr)
+    {
+      nextrecordptr = recordptr->next;
+
+      msr3_free (&recordptr->msr);
+      libmseed_memory.free (recordptr);
+
+      recordptr = nextrecordptr;
+    }
+
+    libmseed_memory.free (seg->recordlist);
+  }
+
+  libmseed_memory.free (seg);
+} /* End of lm_free_segment() */
+
+
 /***************************************************************************
  * Sort a modified segment into place in the segment list of a trace ID.
  ***************************************************************************/
@@ -497,6 +530,7 @@ mstl3_addmsr_recordptr (MS3TraceList *mstl, const MS3Record *msr, MS3RecordPtr *
 
     if (!(seg = mstl3_msr2seg (msr, endtime)))
     {
+      libmseed_memory.free (id);
       return NULL;
     }
     id->first = id->last = seg;
@@ -504,6 +538,8 @@ mstl3_addmsr_recordptr (MS3TraceList *mstl, const MS3Record *msr, MS3RecordPtr *
     /* Add MS3RecordPtr if requested */
     if (pprecptr && !(*pprecptr = mstl3_add_recordptr (seg, msr, endtime, 1)))
     {
+      lm_free_segment (seg);
+      libmseed_memory.free (id);
       return NULL;
     }
 
@@ -511,6 +547,10 @@ mstl3_addmsr_recordptr (MS3TraceList *mstl, const MS3Record *msr, MS3RecordPtr *
     if (mstl3_addID (mstl, id, previd) == NULL)
     {
       ms_log (2, "Error adding new ID to trace list\n");
+      if (pprecptr)
+        *pprecptr = NULL;
+      lm_free_segment (seg);
+      libmseed_memory.free (id);
       return NULL;
     }
   }
@@ -574,6 +614,13 @@ mstl3_addmsr_recordptr (MS3TraceList *mstl, const MS3Record *msr, MS3RecordPtr *
       if (!(seg = mstl3_msr2seg (msr, endtime)))
         return NULL;
 
+      /* Add MS3RecordPtr if requested */
+      if (pprecptr && !(*pprecptr = mstl3_add_recordptr (seg, msr, endtime, 0)))
+      {
+        lm_free_segment (seg);
+        return NULL;
+      }
+
       /* Add to end of list */
       id->last->next = seg;
       seg->prev = id->last;
@@ -582,10 +629,6 @@ mstl3_addmsr_recordptr (MS3TraceList *mstl, const MS3Record *msr, MS3RecordPtr *
 
       if (endtime > id->latest)
         id->latest = endtime;
-
-      /* Add MS3RecordPtr if requested */
-      if (pprecptr && !(*pprecptr = mstl3_add_recordptr (seg, msr, endtime, 0)))
-        return NULL;
     }
     /* Record coverage is before all other coverage */
     else if ((endtime + nsperiod + nstimetol) < id->earliest)
@@ -593,6 +636,13 @@ mstl3_addmsr_recordptr (MS3TraceList *mstl, const MS3Record *msr, MS3RecordPtr *
       if (!(seg = mstl3_msr2seg (msr, endtime)))
         return NULL;
 
+      /* Add MS3RecordPtr if requested */
+      if (pprecptr && !(*pprecptr = mstl3_add_recordptr (seg, msr, endtime, 0)))
+      {
+        lm_free_segment (seg);
+        return NULL;
+      }
+
       /* Add to beginning of list */
       id->first->prev = seg;
       seg->next = id->first;
@@ -601,10 +651,6 @@ mstl3_addmsr_recordptr (MS3TraceList *mstl, const MS3Record *msr, MS3RecordPtr *
 
       if (msr->starttime < id->earliest)
         id->earliest = msr->starttime;
-
-      /* Add MS3RecordPtr if requested */
-      if (pprecptr && !(*pprecptr = mstl3_add_recordptr (seg, msr, endtime, 0)))
-        return NULL;
     }
     /* Record coverage fits at beginning of first segment */
     else if (firstgap <= nstimetol && firstgap >= nnstimetol &&
@@ -754,6 +800,7 @@ mstl3_addmsr_recordptr (MS3TraceList *mstl, const MS3Record *msr, MS3RecordPtr *
         /* Add MS3RecordPtr if requested */
         if (pprecptr && !(*pprecptr = mstl3_add_recordptr (seg, msr, endtime, 0)))
         {
+          lm_free_segment (seg);
           return NULL;
         }
 
@@ -1046,6 +1093,7 @@ mstl3_msr2seg (const MS3Record *msr, nstime_t endtime)
     if (!(samplesize = ms_samplesize (msr->sampletype)))
     {
       ms_log (2, "Unknown sample size for sample type: %c\n", msr->sampletype);
+      libmseed_memory.free (seg);
       return NULL;
     }
 
@@ -1054,6 +1102,7 @@ mstl3_msr2seg (const MS3Record *msr, nstime_t endtime)
     if (!(seg->datasamples = libmseed_memory.malloc ((size_t) (datasize))))
     {
       ms_log (2, "Error allocating memory\n");
+      libmseed_memory.free (seg);
       return NULL;
     }
     seg->datasize = datasize;
-- 
2.43.0


From aa60a2b6390ae07347ec4e9f78aaf229b0f7a5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:44 +0000
Subject: [PATCH 090/106] fix: keep trace list times and sizes consistent on
 failures

---
 libmseed/tracelist.c | 40 +++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index d20b32d..3deaa86 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -490,6 +490,7 @@ mstl3_addmsr_recordptr (MS3TraceList *mstl, const MS3Record *msr, MS3RecordPtr *
 
   double sampratehz;
   double sampratetol = -1.0;
+  int8_t failed = 0;
 
   if (!mstl || !msr)
   {
@@ -606,7 +607,7 @@ mstl3_addmsr_recordptr (MS3TraceList *mstl, const MS3Record *msr, MS3RecordPtr *
 
       /* Add MS3RecordPtr if requested */
       if (pprecptr && !(*pprecptr = mstl3_add_recordptr (seg, msr, endtime, 1)))
-        return NULL;
+        failed = 1;
     }
     /* Record coverage is after all other coverage */
     else if ((msr->starttime - nsperiod - nstimetol) > id->latest)
@@ -666,7 +667,7 @@ mstl3_addmsr_recordptr (MS3TraceList *mstl, const MS3Record *msr, MS3RecordPtr *
 
       /* Add MS3RecordPtr if requested */
       if (pprecptr && !(*pprecptr = mstl3_add_recordptr (seg, msr, endtime, 2)))
-        return NULL;
+        failed = 1;
     }
     /* Search complete segment list for matches */
     else
@@ -733,18 +734,19 @@ mstl3_addmsr_recordptr (MS3TraceList *mstl, const MS3Record *msr, MS3RecordPtr *
         /* Add MS3RecordPtr if requested */
         if (pprecptr && !(*pprecptr = mstl3_add_recordptr (segbefore, msr, endtime, 1)))
         {
-          return NULL;
+          failed = 1;
         }
 
-        /* Merge two segments that now fit if autohealing */
-        if (autoheal && segafter && segbefore != segafter)
+        /* Merge two segments that now fit if autohealing,
+         * add segafter coverage to segbefore */
+        if (autoheal && segafter && segbefore != segafter && !failed &&
+            !mstl3_addsegtoseg (segbefore, segafter))
+        {
+          failed = 1;
+        }
+        /* Remove segafter when merged */
+        else if (autoheal && segafter && segbefore != segafter && !failed)
         {
-          /* Add segafter coverage to segbefore */
-          if (!mstl3_addsegtoseg (segbefore, segafter))
-          {
-            return NULL;
-          }
-
           /* Shift last segment pointer if it's going to be removed */
           if (segafter == id->last)
             id->last = id->last->prev;
@@ -783,7 +785,7 @@ mstl3_addmsr_recordptr (MS3TraceList *mstl, const MS3Record *msr, MS3RecordPtr *
         /* Add MS3RecordPtr if requested */
         if (pprecptr && !(*pprecptr = mstl3_add_recordptr (segafter, msr, endtime, 2)))
         {
-          return NULL;
+          failed = 1;
         }
 
         seg = segafter;
@@ -845,7 +847,7 @@ mstl3_addmsr_recordptr (MS3TraceList *mstl, const MS3Record *msr, MS3RecordPtr *
   /* Sort modified segment into place, logic above should limit these to few shifts if any */
   lm_sort_segment (id, seg);
 
-  return seg;
+  return (failed) ? NULL : seg;
 } /* End of mstl3_addmsr_recordptr() */
 
 
@@ -1161,22 +1163,22 @@ mstl3_addmsrtoseg (MS3TraceSeg *seg, const MS3Record *msr, nstime_t endtime, int
     {
       size_t current_size = seg->datasize;
       newdatasamples = libmseed_memory_prealloc (seg->datasamples, newdatasize, &current_size);
-      seg->datasize = current_size;
+      newdatasize = current_size;
     }
     else
     {
       newdatasamples = libmseed_memory.realloc (seg->datasamples, newdatasize);
-      seg->datasize = newdatasize;
     }
 
+    /* On failure the existing buffer remains as it is */
     if (!newdatasamples)
     {
       ms_log (2, "Error allocating memory\n");
-      seg->datasize = 0;
       return NULL;
     }
 
     seg->datasamples = newdatasamples;
+    seg->datasize = newdatasize;
   }
 
   /* A segment emptied by packing, which remains at the time of the last packed
@@ -1272,22 +1274,22 @@ mstl3_addsegtoseg (MS3TraceSeg *seg1, MS3TraceSeg *seg2)
     {
       size_t current_size = seg1->datasize;
       newdatasamples = libmseed_memory_prealloc (seg1->datasamples, newdatasize, &current_size);
-      seg1->datasize = current_size;
+      newdatasize = current_size;
     }
     else
     {
       newdatasamples = libmseed_memory.realloc (seg1->datasamples, newdatasize);
-      seg1->datasize = newdatasize;
     }
 
+    /* On failure the existing buffer remains as it is */
     if (!newdatasamples)
     {
       ms_log (2, "Error allocating memory\n");
-      seg1->datasize = 0;
       return NULL;
     }
 
     seg1->datasamples = newdatasamples;
+    seg1->datasize = newdatasize;
   }
 
   /* Add seg2 coverage to end of seg1, unless emptied by packing */
-- 
2.43.0


From bb56b0834e0e8918ad55adc3167f5c29d6e67e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:50 +0000
Subject: [PATCH 091/106] fix: do not remove an extra header when a value
 cannot be allocated

---
 libmseed/extraheaders.c | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/libmseed/extraheaders.c b/libmseed/extraheaders.c
index 04de09b..68009c0 100644
--- a/libmseed/extraheaders.c
+++ b/libmseed/extraheaders.c
@@ -328,6 +328,7 @@ mseh_set_ptr_r (MS3Record *msr, const char *ptr,
   yyjson_mut_val *merged_val = NULL;
   yyjson_mut_val *target_val = NULL;
   yyjson_mut_val *array_val = NULL;
+  yyjson_mut_val *new_val = NULL;
   bool rv = false;
 
   if (!msr || !ptr || !value)
@@ -397,20 +398,20 @@ mseh_set_ptr_r (MS3Record *msr, const char *ptr,
   switch (type)
   {
   case 'n':
-    rv = yyjson_mut_doc_ptr_set (parsed->mut_doc, ptr,
-                                 yyjson_mut_real (parsed->mut_doc, *((double *)value)));
+    new_val = yyjson_mut_real (parsed->mut_doc, *((double *)value));
+    rv = new_val && yyjson_mut_doc_ptr_set (parsed->mut_doc, ptr, new_val);
     break;
   case 'i':
-    rv = yyjson_mut_doc_ptr_set (parsed->mut_doc, ptr,
-                                 yyjson_mut_sint (parsed->mut_doc, *((int64_t *)value)));
+    new_val = yyjson_mut_sint (parsed->mut_doc, *((int64_t *)value));
+    rv = new_val && yyjson_mut_doc_ptr_set (parsed->mut_doc, ptr, new_val);
     break;
   case 's':
-    rv = yyjson_mut_doc_ptr_set (parsed->mut_doc, ptr,
-                                 yyjson_mut_strcpy (parsed->mut_doc, (const char *)value));
+    new_val = yyjson_mut_strcpy (parsed->mut_doc, (const char *)value);
+    rv = new_val && yyjson_mut_doc_ptr_set (parsed->mut_doc, ptr, new_val);
     break;
   case 'b':
-    rv = yyjson_mut_doc_ptr_set (parsed->mut_doc, ptr,
-                                 yyjson_mut_bool (parsed->mut_doc, *((int *)value) ? true : false));
+    new_val = yyjson_mut_bool (parsed->mut_doc, *((int *)value) ? true : false);
+    rv = new_val && yyjson_mut_doc_ptr_set (parsed->mut_doc, ptr, new_val);
     break;
   case 'M':
     /* Parse supplied patch */
@@ -442,8 +443,8 @@ mseh_set_ptr_r (MS3Record *msr, const char *ptr,
 
     break;
   case 'V':
-    rv = yyjson_mut_doc_ptr_set (parsed->mut_doc, ptr,
-                                 yyjson_mut_val_mut_copy (parsed->mut_doc, (yyjson_mut_val *)value));
+    new_val = yyjson_mut_val_mut_copy (parsed->mut_doc, (yyjson_mut_val *)value);
+    rv = new_val && yyjson_mut_doc_ptr_set (parsed->mut_doc, ptr, new_val);
     break;
   case 'A':
     /* Search for existing array, create if necessary */
-- 
2.43.0


From d70afdc430c8739c837a516a4a05ea6104b940fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:57 +0000
Subject: [PATCH 092/106] fix: report failures to set extra headers of version
 2 records

---
 libmseed/extraheaders.c |  6 +++--
 libmseed/unpack.c       | 49 +++++++++++++++++++++++------------------
 2 files changed, 32 insertions(+), 23 deletions(-)

diff --git a/libmseed/extraheaders.c b/libmseed/extraheaders.c
index 68009c0..d78eef9 100644
--- a/libmseed/extraheaders.c
+++ b/libmseed/extraheaders.c
@@ -1032,7 +1032,9 @@ mseh_serialize (MS3Record *msr, LM_PARSED_JSON **parsestate)
   {
     ms_log (2, "%s() Cannot write extra header JSON: %s\n",
             __func__, (err.msg) ? err.msg : "Unknown error");
-    return MS_GENERROR;
+
+    /* Content that cannot be represented is not a general error */
+    return (err.code == YYJSON_WRITE_ERROR_MEMORY_ALLOCATION) ? MS_GENERROR : MS_OUTOFRANGE;
   }
 
   if (serialsize > UINT16_MAX)
@@ -1040,7 +1042,7 @@ mseh_serialize (MS3Record *msr, LM_PARSED_JSON **parsestate)
     ms_log (2, "%s() New serialization size exceeds limit of %d bytes: %" PRIu64 "\n",
             __func__, UINT16_MAX, (uint64_t)serialsize);
     libmseed_memory.free(serialized);
-    return MS_GENERROR;
+    return MS_OUTOFRANGE;
   }
 
   /* Set new extra headers, replacing existing headers */
diff --git a/libmseed/unpack.c b/libmseed/unpack.c
index c2c8e03..876f154 100644
--- a/libmseed/unpack.c
+++ b/libmseed/unpack.c
@@ -282,6 +282,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
   uint16_t next_blkt;
 
   LM_PARSED_JSON *parsestate = NULL;
+  int ehfailed = 0;
   MSEHEventDetection eventdetection;
   MSEHCalibration calibration;
   MSEHTimingException exception;
@@ -355,51 +356,51 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
   if (*pMS2FSDH_ACTFLAGS (record) & 0x01) /* Bit 0 */
     msr->flags |= 0x01;
   if (*pMS2FSDH_ACTFLAGS (record) & 0x04) /* Bit 2 */
-    mseh_set_ptr_r (msr, "/FDSN/Event/Begin", &ione, 'b', &parsestate);
+    ehfailed |= mseh_set_ptr_r (msr, "/FDSN/Event/Begin", &ione, 'b', &parsestate);
   if (*pMS2FSDH_ACTFLAGS (record) & 0x08) /* Bit 3 */
-    mseh_set_ptr_r (msr, "/FDSN/Event/End", &ione, 'b', &parsestate);
+    ehfailed |= mseh_set_ptr_r (msr, "/FDSN/Event/End", &ione, 'b', &parsestate);
   if (*pMS2FSDH_ACTFLAGS (record) & 0x10) /* Bit 4 */
   {
     ival = 1;
-    mseh_set_ptr_r (msr, "/FDSN/Time/LeapSecond", &ival, 'i', &parsestate);
+    ehfailed |= mseh_set_ptr_r (msr, "/FDSN/Time/LeapSecond", &ival, 'i', &parsestate);
   }
   if (*pMS2FSDH_ACTFLAGS (record) & 0x20) /* Bit 5 */
   {
     ival = -1;
-    mseh_set_ptr_r (msr, "/FDSN/Time/LeapSecond", &ival, 'i', &parsestate);
+    ehfailed |= mseh_set_ptr_r (msr, "/FDSN/Time/LeapSecond", &ival, 'i', &parsestate);
   }
   if (*pMS2FSDH_ACTFLAGS (record) & 0x40) /* Bit 6 */
-    mseh_set_ptr_r (msr, "/FDSN/Event/InProgress", &ione, 'b', &parsestate);
+    ehfailed |= mseh_set_ptr_r (msr, "/FDSN/Event/InProgress", &ione, 'b', &parsestate);
 
   /* Map I/O and clock flags */
   if (*pMS2FSDH_IOFLAGS (record) & 0x01) /* Bit 0 */
-    mseh_set_ptr_r (msr, "/FDSN/Flags/StationVolumeParityError", &ione, 'b', &parsestate);
+    ehfailed |= mseh_set_ptr_r (msr, "/FDSN/Flags/StationVolumeParityError", &ione, 'b', &parsestate);
   if (*pMS2FSDH_IOFLAGS (record) & 0x02) /* Bit 1 */
-    mseh_set_ptr_r (msr, "/FDSN/Flags/LongRecordRead", &ione, 'b', &parsestate);
+    ehfailed |= mseh_set_ptr_r (msr, "/FDSN/Flags/LongRecordRead", &ione, 'b', &parsestate);
   if (*pMS2FSDH_IOFLAGS (record) & 0x04) /* Bit 2 */
-    mseh_set_ptr_r (msr, "/FDSN/Flags/ShortRecordRead", &ione, 'b', &parsestate);
+    ehfailed |= mseh_set_ptr_r (msr, "/FDSN/Flags/ShortRecordRead", &ione, 'b', &parsestate);
   if (*pMS2FSDH_IOFLAGS (record) & 0x08) /* Bit 3 */
-    mseh_set_ptr_r (msr, "/FDSN/Flags/StartOfTimeSeries", &ione, 'b', &parsestate);
+    ehfailed |= mseh_set_ptr_r (msr, "/FDSN/Flags/StartOfTimeSeries", &ione, 'b', &parsestate);
   if (*pMS2FSDH_IOFLAGS (record) & 0x10) /* Bit 4 */
-    mseh_set_ptr_r (msr, "/FDSN/Flags/EndOfTimeSeries", &ione, 'b', &parsestate);
+    ehfailed |= mseh_set_ptr_r (msr, "/FDSN/Flags/EndOfTimeSeries", &ione, 'b', &parsestate);
   if (*pMS2FSDH_IOFLAGS (record) & 0x20) /* Bit 5 */
     msr->flags |= 0x04;
 
   /* Map data quality flags */
   if (*pMS2FSDH_DQFLAGS (record) & 0x01) /* Bit 0 */
-    mseh_set_ptr_r (msr, "/FDSN/Flags/AmplifierSaturation", &ione, 'b', &parsestate);
+    ehfailed |= mseh_set_ptr_r (msr, "/FDSN/Flags/AmplifierSaturation", &ione, 'b', &parsestate);
   if (*pMS2FSDH_DQFLAGS (record) & 0x02) /* Bit 1 */
-    mseh_set_ptr_r (msr, "/FDSN/Flags/DigitizerClipping", &ione, 'b', &parsestate);
+    ehfailed |= mseh_set_ptr_r (msr, "/FDSN/Flags/DigitizerClipping", &ione, 'b', &parsestate);
   if (*pMS2FSDH_DQFLAGS (record) & 0x04) /* Bit 2 */
-    mseh_set_ptr_r (msr, "/FDSN/Flags/Spikes", &ione, 'b', &parsestate);
+    ehfailed |= mseh_set_ptr_r (msr, "/FDSN/Flags/Spikes", &ione, 'b', &parsestate);
   if (*pMS2FSDH_DQFLAGS (record) & 0x08) /* Bit 3 */
-    mseh_set_ptr_r (msr, "/FDSN/Flags/Glitches", &ione, 'b', &parsestate);
+    ehfailed |= mseh_set_ptr_r (msr, "/FDSN/Flags/Glitches", &ione, 'b', &parsestate);
   if (*pMS2FSDH_DQFLAGS (record) & 0x10) /* Bit 4 */
-    mseh_set_ptr_r (msr, "/FDSN/Flags/MissingData", &ione, 'b', &parsestate);
+    ehfailed |= mseh_set_ptr_r (msr, "/FDSN/Flags/MissingData", &ione, 'b', &parsestate);
   if (*pMS2FSDH_DQFLAGS (record) & 0x20) /* Bit 5 */
-    mseh_set_ptr_r (msr, "/FDSN/Flags/TelemetrySyncError", &ione, 'b', &parsestate);
+    ehfailed |= mseh_set_ptr_r (msr, "/FDSN/Flags/TelemetrySyncError", &ione, 'b', &parsestate);
   if (*pMS2FSDH_DQFLAGS (record) & 0x40) /* Bit 6 */
-    mseh_set_ptr_r (msr, "/FDSN/Flags/FilterCharging", &ione, 'b', &parsestate);
+    ehfailed |= mseh_set_ptr_r (msr, "/FDSN/Flags/FilterCharging", &ione, 'b', &parsestate);
   if (*pMS2FSDH_DQFLAGS (record) & 0x80) /* Bit 7 */
     msr->flags |= 0x02;
 
@@ -407,7 +408,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
   if (dval != 0.0)
   {
     dval = dval / 10000.0;
-    mseh_set_ptr_r (msr, "/FDSN/Time/Correction", &dval, 'n', &parsestate);
+    ehfailed |= mseh_set_ptr_r (msr, "/FDSN/Time/Correction", &dval, 'n', &parsestate);
   }
 
   /* Traverse the blockettes */
@@ -859,7 +860,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
 
       /* Clock model maps to a single value at /FDSN/Clock/Model */
       ms_strncpcleantail (sval, pMS2B500_CLOCKMODEL (record + blkt_offset), 32);
-      mseh_set_ptr_r (msr, "/FDSN/Clock/Model", sval, 's', &parsestate);
+      ehfailed |= mseh_set_ptr_r (msr, "/FDSN/Clock/Model", sval, 's', &parsestate);
     }
 
     else if (blkt_type == 1000)
@@ -914,7 +915,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
       else
       {
         ival = *pMS2B1001_TIMINGQUALITY (record + blkt_offset);
-        mseh_set_ptr_r (msr, "/FDSN/Time/Quality", &ival, 'i', &parsestate);
+        ehfailed |= mseh_set_ptr_r (msr, "/FDSN/Time/Quality", &ival, 'i', &parsestate);
       }
     }
 
@@ -955,10 +956,16 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
   /* Serialize extra header JSON structure and free parsed state */
   if (parsestate)
   {
-    mseh_serialize (msr, &parsestate);
+    ehfailed |= (mseh_serialize (msr, &parsestate) == MS_GENERROR);
     mseh_free_parsestate (&parsestate);
   }
 
+  if (ehfailed)
+  {
+    ms_log (2, "%s: Cannot set extra headers\n", msr->sid);
+    return MS_GENERROR;
+  }
+
   /* Check for a Blockette 1000 and log warning if not found */
   if (B1000offset == 0 && verbose > 1)
   {
-- 
2.43.0


From 22d972ecb08e371526d8c7a31e4bb7ea3ec68f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:03 +0000
Subject: [PATCH 093/106] fix: keep the data buffer when reallocation fails

---
 libmseed/msrutils.c |  6 ++++--
 libmseed/unpack.c   | 15 +++++++++------
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/libmseed/msrutils.c b/libmseed/msrutils.c
index 560ee95..b1f3a2a 100644
--- a/libmseed/msrutils.c
+++ b/libmseed/msrutils.c
@@ -306,6 +306,7 @@ msr3_resize_buffer (MS3Record *msr)
 {
   uint8_t samplesize = 0;
   size_t datasize;
+  void *resized;
 
   if (!msr)
   {
@@ -321,14 +322,15 @@ msr3_resize_buffer (MS3Record *msr)
 
     if (msr->datasize > datasize)
     {
-      msr->datasamples = libmseed_memory.realloc (msr->datasamples, datasize);
+      resized = libmseed_memory.realloc (msr->datasamples, datasize);
 
-      if (msr->datasamples == NULL)
+      if (resized == NULL)
       {
         ms_log (2, "%s: Cannot (re)allocate memory\n", msr->sid);
         return MS_GENERROR;
       }
 
+      msr->datasamples = resized;
       msr->datasize = datasize;
     }
   }
diff --git a/libmseed/unpack.c b/libmseed/unpack.c
index 876f154..39f6fb1 100644
--- a/libmseed/unpack.c
+++ b/libmseed/unpack.c
@@ -1202,6 +1202,7 @@ msr3_unpack_data (MS3Record *msr, int8_t verbose)
   uint32_t dataoffset = 0;
   const char *encoded = NULL;
   char *encoded_allocated = NULL;
+  void *datasamples = NULL;
 
   if (!msr)
   {
@@ -1286,23 +1287,25 @@ msr3_unpack_data (MS3Record *msr, int8_t verbose)
     if (libmseed_prealloc_block_size)
     {
       size_t current_size  = msr->datasize;
-      msr->datasamples = libmseed_memory_prealloc (msr->datasamples, unpacksize, &current_size);
-      msr->datasize = current_size;
+      datasamples = libmseed_memory_prealloc (msr->datasamples, unpacksize, &current_size);
+      unpacksize = current_size;
     }
     else
     {
-      msr->datasamples = libmseed_memory.realloc (msr->datasamples, unpacksize);
-      msr->datasize = unpacksize;
+      datasamples = libmseed_memory.realloc (msr->datasamples, unpacksize);
     }
 
-    if (msr->datasamples == NULL)
+    /* On failure the existing buffer remains as it is */
+    if (datasamples == NULL)
     {
       ms_log (2, "%s: Cannot (re)allocate memory\n", msr->sid);
-      msr->datasize = 0;
       if (encoded_allocated)
         libmseed_memory.free (encoded_allocated);
       return MS_GENERROR;
     }
+
+    msr->datasamples = datasamples;
+    msr->datasize = unpacksize;
   }
   else
   {
-- 
2.43.0


From dda433a2069d49fd7f4c821c26fe64c0df82f2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:09 +0000
Subject: [PATCH 094/106] fix: free new selection time when a selection cannot
 be allocated

---
 libmseed/selection.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libmseed/selection.c b/libmseed/selection.c
index e82586e..ea23fab 100644
--- a/libmseed/selection.c
+++ b/libmseed/selection.c
@@ -215,6 +215,7 @@ ms3_addselect (MS3Selections **ppselections, const char *sidpattern,
     if (!(newsl = (MS3Selections *)libmseed_memory.malloc (sizeof (MS3Selections))))
     {
       ms_log (2, "Cannot allocate memory\n");
+      libmseed_memory.free (newst);
       return -1;
     }
     memset (newsl, 0, sizeof (MS3Selections));
@@ -256,6 +257,7 @@ ms3_addselect (MS3Selections **ppselections, const char *sidpattern,
       if (!(newsl = (MS3Selections *)libmseed_memory.malloc (sizeof (MS3Selections))))
       {
         ms_log (2, "Cannot allocate memory\n");
+        libmseed_memory.free (newst);
         return -1;
       }
       memset (newsl, 0, sizeof (MS3Selections));
-- 
2.43.0


From 286e8a94007504a354d96d9fa0b4c2d14224f722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:14 +0000
Subject: [PATCH 095/106] fix: close the selections file on errors

---
 libmseed/selection.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/libmseed/selection.c b/libmseed/selection.c
index ea23fab..9afad88 100644
--- a/libmseed/selection.c
+++ b/libmseed/selection.c
@@ -602,7 +602,8 @@ ms3_readselectionsfile (MS3Selections **ppselections, const char *filename)
       if (starttime == NSTERROR || starttime == NSTUNSET)
       {
         ms_log (2, "Cannot convert data selection start time (line %d): %s\n", linecount, cp);
-        return -1;
+        selectcount = -1;
+        break;
       }
     }
 
@@ -619,7 +620,8 @@ ms3_readselectionsfile (MS3Selections **ppselections, const char *filename)
       if (endtime == NSTERROR || endtime == NSTUNSET)
       {
         ms_log (2, "Cannot convert data selection end time (line %d): %s\n", linecount, cp);
-        return -1;
+        selectcount = -1;
+        break;
       }
     }
 
@@ -640,7 +642,8 @@ ms3_readselectionsfile (MS3Selections **ppselections, const char *filename)
         if (longpver < 0 || longpver > 255 )
         {
           ms_log (2, "Cannot convert publication version (line %d): %s\n", linecount, fields[3]);
-          return -1;
+          selectcount = -1;
+          break;
         }
         else
         {
@@ -652,7 +655,8 @@ ms3_readselectionsfile (MS3Selections **ppselections, const char *filename)
       if (ms3_addselect (ppselections, fields[0], starttime, endtime, pubversion))
       {
         ms_log (2, "%s: Error adding selection on line %d\n", filename, linecount);
-        return -1;
+        selectcount = -1;
+        break;
       }
     }
     /* Test for "Network  Station  Location  Channel  [Quality  [Starttime  [Endtime]]]" */
@@ -671,7 +675,8 @@ ms3_readselectionsfile (MS3Selections **ppselections, const char *filename)
         if (longpver < 0 || longpver > 255 )
         {
           ms_log (2, "Cannot convert publication version (line %d): %s\n", linecount, fields[4]);
-          return -1;
+          selectcount = -1;
+          break;
         }
         else
         {
@@ -683,7 +688,8 @@ ms3_readselectionsfile (MS3Selections **ppselections, const char *filename)
                               starttime, endtime, pubversion))
       {
         ms_log (2, "%s: Error adding selection on line %d\n", filename, linecount);
-        return -1;
+        selectcount = -1;
+        break;
       }
     }
     else
-- 
2.43.0


From ea7f1c11c42a0465e2da1e5c46214b967a41e4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:21 +0000
Subject: [PATCH 096/106] fix: log failures to set extra headers

---
 libmseed/extraheaders.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libmseed/extraheaders.c b/libmseed/extraheaders.c
index d78eef9..12b7c27 100644
--- a/libmseed/extraheaders.c
+++ b/libmseed/extraheaders.c
@@ -468,6 +468,11 @@ mseh_set_ptr_r (MS3Record *msr, const char *ptr,
     rv = false;
   }
 
+  if (rv == false)
+  {
+    ms_log (2, "%s() Cannot set extra header value at '%s'\n", __func__, ptr);
+  }
+
   /* Serialized extra headers and free parse state if not being retained */
   if (parsestate == NULL)
   {
-- 
2.43.0


From 67e126b00938de66c7214915ea9ad2248302b447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:27 +0000
Subject: [PATCH 097/106] fix: return an error when a log message cannot be
 stored

---
 libmseed/logging.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libmseed/logging.c b/libmseed/logging.c
index 0144ff1..524f321 100644
--- a/libmseed/logging.c
+++ b/libmseed/logging.c
@@ -423,7 +423,8 @@ rlog_int (MSLogParam *logp, const char *function, int level,
       printed -= 1;
     }
 
-    add_message_int (&logp->registry, function, level, message);
+    if (add_message_int (&logp->registry, function, level, message))
+      printed = -1;
   }
   else
   {
-- 
2.43.0


From 63e7901f06d6f10382487e842f63c622d3c1cf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:46 +0000
Subject: [PATCH 098/106] fix: ignore the first Steim difference also when it
 follows a frame without differences

---
 libmseed/unpackdata.c | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/libmseed/unpackdata.c b/libmseed/unpackdata.c
index b4d1b46..fc63732 100644
--- a/libmseed/unpackdata.c
+++ b/libmseed/unpackdata.c
@@ -199,6 +199,7 @@ msr_decode_steim1 (int32_t *input, uint64_t inputlength, uint64_t samplecount,
   uint64_t maxframes = inputlength / 64;
   uint64_t frameidx;
   int diffidx;
+  int firstdiff = 1;
   int startnibble;
   int nibble;
   int widx;
@@ -330,10 +331,15 @@ msr_decode_steim1 (int32_t *input, uint64_t inputlength, uint64_t samplecount,
     }   /* Done looping over nibbles and 32-bit words */
 
     /* Apply differences in this frame to calculate output samples,
-     * ignoring first difference for first frame */
-    for (idx = (frameidx == 0) ? 1 : 0;
-         idx < diffidx && outputidx < samplecount;
-         idx++, outputidx++)
+     * ignoring first difference, which may follow a frame without any */
+    idx = 0;
+    if (firstdiff && diffidx > 0)
+    {
+      firstdiff = 0;
+      idx = 1;
+    }
+
+    for (; idx < diffidx && outputidx < samplecount; idx++, outputidx++)
     {
       output[outputidx] = output[outputidx - 1] + diff[idx];
     }
@@ -369,6 +375,7 @@ msr_decode_steim2 (int32_t *input, uint64_t inputlength, uint64_t samplecount,
   uint64_t maxframes = inputlength / 64;
   uint64_t frameidx;
   int diffidx;
+  int firstdiff = 1;
   int startnibble;
   int nibble;
   int widx;
@@ -580,10 +587,15 @@ msr_decode_steim2 (int32_t *input, uint64_t inputlength, uint64_t samplecount,
     }   /* Done looping over nibbles and 32-bit words */
 
     /* Apply differences in this frame to calculate output samples,
-     * ignoring first difference for first frame */
-    for (idx = (frameidx == 0) ? 1 : 0;
-         idx < diffidx && outputidx < samplecount;
-         idx++, outputidx++)
+     * ignoring first difference, which may follow a frame without any */
+    idx = 0;
+    if (firstdiff && diffidx > 0)
+    {
+      firstdiff = 0;
+      idx = 1;
+    }
+
+    for (; idx < diffidx && outputidx < samplecount; idx++, outputidx++)
     {
       output[outputidx] = output[outputidx - 1] + diff[idx];
     }
-- 
2.43.0


From 715aa0dd722dfbe85130ada64206dd296f49d264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:16 +0000
Subject: [PATCH 099/106] fix: do not join records without samples to data in
 trace lists

---
 libmseed/tracelist.c | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index 3deaa86..7581dc8 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -344,6 +344,23 @@ lm_free_segment (MS3TraceSeg *seg)
 } /* End of lm_free_segment() */
 
 
+/***************************************************************************
+ * Determine if a record can be joined with a segment according to what
+ * they contain: a record without samples has no coverage that could
+ * continue a time series and is not joined with data.  Segments emptied
+ * by packing are still those of a time series.
+ *
+ * Return 1 when the record can be joined, otherwise 0.
+ ***************************************************************************/
+static int
+lm_joinable (const MS3Record *msr, const MS3TraceSeg *seg)
+{
+  int recorddata = (msr->samplecnt > 0 || msr->numsamples > 0);
+  int segmentdata = (seg->samplecnt > 0 || seg->numsamples > 0 || seg->sampletype);
+
+  return (recorddata == segmentdata);
+} /* End of lm_joinable() */
+
 /***************************************************************************
  * Sort a modified segment into place in the segment list of a trace ID.
  ***************************************************************************/
@@ -594,7 +611,7 @@ mstl3_addmsr_recordptr (MS3TraceList *mstl, const MS3Record *msr, MS3RecordPtr *
      */
 
     /* Record coverage fits at end of last segment */
-    if (lastgap <= nstimetol && lastgap >= nnstimetol &&
+    if (lastgap <= nstimetol && lastgap >= nnstimetol && lm_joinable (msr, id->last) &&
         IS_SAMPRATE_SIMILAR (sampratehz, id->last->samprate, sampratetol))
     {
       if (!mstl3_addmsrtoseg (id->last, msr, endtime, 1))
@@ -654,7 +671,7 @@ mstl3_addmsr_recordptr (MS3TraceList *mstl, const MS3Record *msr, MS3RecordPtr *
         id->earliest = msr->starttime;
     }
     /* Record coverage fits at beginning of first segment */
-    else if (firstgap <= nstimetol && firstgap >= nnstimetol &&
+    else if (firstgap <= nstimetol && firstgap >= nnstimetol && lm_joinable (msr, id->first) &&
              IS_SAMPRATE_SIMILAR (sampratehz, id->first->samprate, sampratetol))
     {
       if (!mstl3_addmsrtoseg (id->first, msr, endtime, 2))
@@ -684,7 +701,7 @@ mstl3_addmsr_recordptr (MS3TraceList *mstl, const MS3Record *msr, MS3RecordPtr *
          * Rationale: autohealing would have combined this segment
          * with another if that were possible, so this record will
          * also not fit with any other segment. */
-        if (autoheal &&
+        if (autoheal && lm_joinable (msr, searchseg) &&
             msr->starttime == searchseg->starttime &&
             endtime == searchseg->endtime)
         {
@@ -699,7 +716,7 @@ mstl3_addmsr_recordptr (MS3TraceList *mstl, const MS3Record *msr, MS3RecordPtr *
         {
           postgap = msr->starttime - searchseg->endtime - nsperiod;
 
-          if (postgap <= nstimetol && postgap >= nnstimetol &&
+          if (postgap <= nstimetol && postgap >= nnstimetol && lm_joinable (msr, searchseg) &&
               IS_SAMPRATE_SIMILAR (sampratehz, searchseg->samprate, sampratetol))
             segbefore = searchseg;
         }
@@ -708,7 +725,7 @@ mstl3_addmsr_recordptr (MS3TraceList *mstl, const MS3Record *msr, MS3RecordPtr *
         {
           pregap = searchseg->starttime - endtime - nsperiod;
 
-          if (pregap <= nstimetol && pregap >= nnstimetol &&
+          if (pregap <= nstimetol && pregap >= nnstimetol && lm_joinable (msr, searchseg) &&
               IS_SAMPRATE_SIMILAR (sampratehz, searchseg->samprate, sampratetol))
             segafter = searchseg;
         }
-- 
2.43.0


From 61fa09f66b886436ef43dde732518d1bd579c1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:22 +0000
Subject: [PATCH 100/106] fix: exit with an error status when samples requested
 from msi cannot be decoded

---
 src/msi.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/msi.c b/src/msi.c
index 846c21d..9c98f69 100644
--- a/src/msi.c
+++ b/src/msi.c
@@ -247,6 +247,14 @@ main (int argc, char **argv)
         /* Parse the record (again) and unpack the data */
         int unpacked = msr3_unpack_data (msr, verbose);
 
+        /* Continue with other records, but report the failure at the end */
+        if (unpacked < 0)
+        {
+          ms_log (2, "Cannot unpack data samples for record at byte offset %" PRId64 ": %s\n",
+                  (msfp->streampos - msr->reclen), flp->filename);
+          outputerror = 1;
+        }
+
         if (unpacked > 0 && printdata && !tracegaponly)
         {
           int line, col, cnt, samplesize;
-- 
2.43.0


From 5be47ecb3719a10892bf220be4f4e7e29219690b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:28 +0000
Subject: [PATCH 101/106] fix: exit with an error status when msi cannot write
 its listings

---
 src/msi.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/msi.c b/src/msi.c
index 9c98f69..62bf1e1 100644
--- a/src/msi.c
+++ b/src/msi.c
@@ -385,6 +385,10 @@ main (int argc, char **argv)
   if (mstl)
     mstl3_free (&mstl, 0);
 
+  /* Check that everything printed could be written */
+  if (closeoutput (stdout, "standard output"))
+    outputerror = 1;
+
   return (outputerror) ? 1 : 0;
 } /* End of main() */
 
-- 
2.43.0


From bb9bca6f4d4586651c4fe4bf50917a7c0267d8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:34 +0000
Subject: [PATCH 102/106] fix: open record list files named with byte ranges or
 file:// as they were read

---
 libmseed/fileutils.c | 48 ++++++++++++++++++++++++++++++++++++++++++++
 libmseed/msio.h      |  1 +
 libmseed/tracelist.c |  3 ++-
 3 files changed, 51 insertions(+), 1 deletion(-)

diff --git a/libmseed/fileutils.c b/libmseed/fileutils.c
index cbbc3ee..4939d49 100644
--- a/libmseed/fileutils.c
+++ b/libmseed/fileutils.c
@@ -1033,6 +1033,54 @@ mstl3_writemseed (MS3TraceList *mstl, const char *mspath, int8_t overwrite,
 } /* End of mstl3_writemseed() */
 
 
+/***************************************************************************
+ * Open the local file identified by a path name as given to the file
+ * reading routines: the name of a file, optionally with a "file://"
+ * scheme and optionally with a byte range suffix.
+ *
+ * A file with the complete name takes precedence.
+ *
+ * Returns a file opened for reading or NULL on error, with errno set.
+ ***************************************************************************/
+FILE *
+ms3_open_pathname (const char *mspath)
+{
+  FILE *fileptr;
+  char *path;
+  char *range;
+  int64_t start = 0;
+  int64_t end   = 0;
+
+  if ((fileptr = fopen (mspath, "rb")) != NULL)
+    return fileptr;
+
+  /* Treat "file://" specifications as local files by removing the scheme */
+  if (!strncasecmp (mspath, "file://", 7))
+  {
+    mspath += 7;
+
+    if ((fileptr = fopen (mspath, "rb")) != NULL)
+      return fileptr;
+  }
+
+  /* Remove byte range suffix */
+  if ((range = parse_pathname_range (mspath, &start, &end)) != NULL)
+  {
+    if ((path = (char *)libmseed_memory.malloc (range - mspath + 1)) == NULL)
+      return NULL;
+
+    memcpy (path, mspath, range - mspath);
+    path[range - mspath] = '\0';
+
+    fileptr = fopen (path, "rb");
+
+    libmseed_memory.free (path);
+  }
+
+  return fileptr;
+} /* End of ms3_open_pathname() */
+
+
 /*****************************************************************/ /**
  * Parse a range from the end of a string.
  *
diff --git a/libmseed/msio.h b/libmseed/msio.h
index 606866e..ed082a7 100644
--- a/libmseed/msio.h
+++ b/libmseed/msio.h
@@ -36,6 +36,7 @@ extern int msio_url_useragent (const char *program, const char *version);
 extern int msio_url_userpassword (const char *userpassword);
 extern int msio_url_addheader (const char *header);
 extern void msio_url_freeheaders (void);
+extern FILE *ms3_open_pathname (const char *mspath);
 
 #ifdef __cplusplus
 }
diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index 7581dc8..9e77b46 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -25,6 +25,7 @@
 #include <time.h>
 
 #include "libmseed.h"
+#include "msio.h"
 
 MS3TraceSeg *mstl3_msr2seg (const MS3Record *msr, nstime_t endtime);
 MS3TraceSeg *mstl3_addmsrtoseg (MS3TraceSeg *seg, const MS3Record *msr, nstime_t endtime, int8_t whence);
@@ -1881,7 +1882,7 @@ mstl3_unpack_recordlist (MS3TraceID *id, MS3TraceSeg *seg, void *output,
             break;
           }
 
-          if ((filelistptr->fileptr = fopen (recordptr->filename, "rb")) == NULL)
+          if ((filelistptr->fileptr = ms3_open_pathname (recordptr->filename)) == NULL)
           {
             ms_log (2, "%s: Cannot open file (%s): %s\n", id->sid, recordptr->filename, strerror(errno));
 
-- 
2.43.0


From 4ff4cc992f6918be49a0c67a5ef3a1b25476bfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:39 +0000
Subject: [PATCH 103/106] fix: do not use header callback parameters after
 opening a URL

---
 libmseed/msio.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libmseed/msio.c b/libmseed/msio.c
index 8106f69..f901d07 100644
--- a/libmseed/msio.c
+++ b/libmseed/msio.c
@@ -369,6 +369,14 @@ msio_fopen (LMIO *io, const char *path, const char *mode,
     /* Start connection, get status & headers, without consuming any data */
     msio_fread (io, NULL, 0);
 
+    /* The header callback parameters are only valid here, ignore any later headers (trailers) */
+    if (curl_easy_setopt (io->handle, CURLOPT_HEADERFUNCTION, NULL) != CURLE_OK ||
+        curl_easy_setopt (io->handle, CURLOPT_HEADERDATA, NULL) != CURLE_OK)
+    {
+      ms_log (2, "Cannot unset CURLOPT_HEADERFUNCTION and/or CURLOPT_HEADERDATA\n");
+      return -1;
+    }
+
     curl_easy_getinfo (io->handle, CURLINFO_RESPONSE_CODE, &response_code);
 
     if (response_code == 404)
-- 
2.43.0


From 38b7cebbb76ae1d32660d4b600d4d2d55132b9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:44 +0000
Subject: [PATCH 104/106] fix: report failed transfers when reading from URLs
 as errors

---
 libmseed/fileutils.c |  2 +-
 libmseed/msio.c      | 27 ++++++++++++++++++++++++++-
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/libmseed/fileutils.c b/libmseed/fileutils.c
index 4939d49..98ab980 100644
--- a/libmseed/fileutils.c
+++ b/libmseed/fileutils.c
@@ -414,7 +414,7 @@ ms3_readmsr_selection (MS3FileParam **ppmsfp, MS3Record **ppmsr, const char *msp
       /* Read data into record buffer */
       readcount = (int)msio_fread (&msfp->input, msfp->readbuffer + msfp->readlength, readsize);
 
-      if (readcount <= 0 && !msio_feof (&msfp->input))
+      if (readcount < 0 || (readcount == 0 && !msio_feof (&msfp->input)))
       {
         ms_log (2, "Error reading %s at offset %" PRId64 "\n", msfp->path, msfp->streampos);
         retcode = MS_GENERROR;
diff --git a/libmseed/msio.c b/libmseed/msio.c
index f901d07..2fc068d 100644
--- a/libmseed/msio.c
+++ b/libmseed/msio.c
@@ -389,6 +389,11 @@ msio_fopen (LMIO *io, const char *path, const char *mode,
       ms_log (2, "Cannot open %s: response code %ld\n", path, response_code);
       return -1;
     }
+    else if (io->still_running < 0)
+    {
+      ms_log (2, "Cannot open %s\n", path);
+      return -1;
+    }
 #endif /* defined(LIBMSEED_URL) */
   }
   else
@@ -518,7 +523,13 @@ msio_fread (LMIO *io, void *buffer, size_t size)
     fd_set fdexcep;
     long curl_timeo = -1;
     int maxfd       = -1;
+    int msgs;
     int rc;
+    CURLMsg *msg;
+
+    /* A transfer that failed earlier */
+    if (io->still_running < 0)
+      return -1;
 
     if (!io->still_running)
       return 0;
@@ -585,6 +596,19 @@ msio_fread (LMIO *io, void *buffer, size_t size)
       }
     } while (io->still_running > 0 && !rcp.is_paused && (rcp.size > 0 || rcp.buffer == NULL));
 
+    /* Check result of a finished transfer, if failed report data received so far and then an error */
+    while (!io->still_running && (msg = curl_multi_info_read (io->handle2, &msgs)) != NULL)
+    {
+      if (msg->msg == CURLMSG_DONE && msg->data.result != CURLE_OK)
+      {
+        /* HTTP error responses are reported when opening */
+        if (msg->data.result != CURLE_HTTP_RETURNED_ERROR)
+          ms_log (2, "Cannot receive data: %s\n", curl_easy_strerror (msg->data.result));
+
+        io->still_running = -1;
+      }
+    }
+
     read = size - rcp.size;
 
 #endif /* defined(LIBMSEED_URL) */
@@ -622,7 +646,8 @@ msio_feof (LMIO *io)
 #else
     /* The still_running flag is only changed by curl_multi_perform()
      * and indicates current "transfers in progress".  Presumably no data
-     * are in internal libcurl buffers either. */
+     * are in internal libcurl buffers either.  The flag is negative when
+     * the transfer failed, which is an error instead of end of stream. */
     if (!io->still_running)
       return 1;
 #endif
-- 
2.43.0


From 67593e228eb6865fcfd52bfbc78edec85320a883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:50 +0000
Subject: [PATCH 105/106] fix: leave space for received data behind the longest
 record when reading URLs

---
 libmseed/fileutils.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libmseed/fileutils.c b/libmseed/fileutils.c
index 98ab980..a7d7c43 100644
--- a/libmseed/fileutils.c
+++ b/libmseed/fileutils.c
@@ -32,6 +32,9 @@
 /* Skip length in bytes when skipping non-data */
 #define SKIPLEN 1
 
+/* Length of read buffer, space for the longest record and a block of data received from a URL (CURL_MAX_WRITE_SIZE) */
+#define READBUFFERLEN (MAXRECLEN + 16384)
+
 /* Initialize the global file reading parameters */
 MS3FileParam gMS3FileParam = MS3FileParam_INITIALIZER;
 
@@ -320,7 +323,7 @@ ms3_readmsr_selection (MS3FileParam **ppmsfp, MS3Record **ppmsr, const char *msp
   /* Allocate reading buffer */
   if (msfp->readbuffer == NULL)
   {
-    if (!(msfp->readbuffer = (char *)libmseed_memory.malloc (MAXRECLEN)))
+    if (!(msfp->readbuffer = (char *)libmseed_memory.malloc (READBUFFERLEN)))
     {
       ms_log (2, "Cannot allocate memory for read buffer\n");
       return MS_GENERROR;
@@ -408,8 +411,8 @@ ms3_readmsr_selection (MS3FileParam **ppmsfp, MS3Record **ppmsr, const char *msp
         ms3_shift_msfp (msfp, msfp->readoffset);
       }
 
-      /* Determine read size */
-      readsize = (MAXRECLEN - msfp->readlength);
+      /* Determine read size, data from URLs are received in whole blocks only */
+      readsize = ((msfp->input.type == LMIO_URL) ? READBUFFERLEN : MAXRECLEN) - msfp->readlength;
 
       /* Read data into record buffer */
       readcount = (int)msio_fread (&msfp->input, msfp->readbuffer + msfp->readlength, readsize);
-- 
2.43.0


From 7f4e3cc87cf14d3b6ff28b8d4dbf47753c2c399f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:56 +0000
Subject: [PATCH 106/106] fix: start at the requested offset if a server
 ignores the byte range

---
 libmseed/fileutils.c | 27 +++++++++++++++++++++++++++
 libmseed/msio.c      |  4 ++++
 2 files changed, 31 insertions(+)

diff --git a/libmseed/fileutils.c b/libmseed/fileutils.c
index a7d7c43..252c4fc 100644
--- a/libmseed/fileutils.c
+++ b/libmseed/fileutils.c
@@ -263,6 +263,7 @@ ms3_readmsr_selection (MS3FileParam **ppmsfp, MS3Record **ppmsr, const char *msp
   MS3FileParam *msfp;
   uint32_t pflags = flags;
   char *pathname_range = NULL;
+  int64_t rangestart = 0;
 
   int parseval  = 0;
   int readsize  = 0;
@@ -367,6 +368,8 @@ ms3_readmsr_selection (MS3FileParam **ppmsfp, MS3Record **ppmsr, const char *msp
     }
     else
     {
+      rangestart = msfp->startoffset;
+
       if (msio_fopen(&msfp->input, msfp->path, "rb", &msfp->startoffset, &msfp->endoffset))
       {
         msr3_free (ppmsr);
@@ -378,6 +381,30 @@ ms3_readmsr_selection (MS3FileParam **ppmsfp, MS3Record **ppmsr, const char *msp
       {
         msfp->streampos = msfp->startoffset;
       }
+
+      /* Discard data before the range if the stream starts earlier */
+      while (msfp->startoffset < rangestart && msfp->streampos < rangestart && !msio_feof (&msfp->input))
+      {
+        readcount = (int)msio_fread (&msfp->input, msfp->readbuffer, READBUFFERLEN);
+
+        if (readcount < 0 || (readcount == 0 && !msio_feof (&msfp->input)))
+        {
+          ms_log (2, "Error reading %s at offset %" PRId64 "\n", msfp->path, msfp->streampos);
+          msr3_free (ppmsr);
+          return MS_GENERROR;
+        }
+
+        if (readcount > rangestart - msfp->streampos)
+        {
+          msfp->readoffset = (int)(rangestart - msfp->streampos);
+          msfp->readlength = readcount;
+          msfp->streampos  = rangestart;
+        }
+        else
+        {
+          msfp->streampos += readcount;
+        }
+      }
     }
   }
 
diff --git a/libmseed/msio.c b/libmseed/msio.c
index 2fc068d..f390113 100644
--- a/libmseed/msio.c
+++ b/libmseed/msio.c
@@ -394,6 +394,10 @@ msio_fopen (LMIO *io, const char *path, const char *mode,
       ms_log (2, "Cannot open %s\n", path);
       return -1;
     }
+
+    /* A complete HTTP response (200) means that a requested range was ignored, data start at offset 0 */
+    if (startoffset && response_code == 200 && !strncasecmp (path, "http", 4))
+      *startoffset = 0;
 #endif /* defined(LIBMSEED_URL) */
   }
   else
-- 
2.43.0

