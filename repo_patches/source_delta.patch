From 7d6eea1de28041bba0cc445c89f386bd76d2fa46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:00 +0000
Subject: [PATCH 01/40] fix: freqcd: refuse ill-formed and out-of-range
 frequency corrections

'-f 1e6' was read as 1, '-f 4294967297' and '-f -2147483648' wrapped into
(or escaped) the permitted range, '-d' overflowed before the range check,
and 'abs' on a long let wrapped values in via '-F'.
---
 src/fpfind/freqcd.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/fpfind/freqcd.c b/src/fpfind/freqcd.c
index 146f0c4..9be57ac 100644
--- a/src/fpfind/freqcd.c
+++ b/src/fpfind/freqcd.c
@@ -129,7 +129,7 @@ int readint(char *buff) {
     long value;
     value = strtol(buff, &end, 10);
     // string is a decimal, zero-terminated, and fits in an int
-    if ((end != buff) && (*end == 0) && (abs(value) < INT_MAX))
+    if ((end != buff) && (*end == 0) && (value > -INT_MAX) && (value < INT_MAX))
         return (int)value;
     return INT_MAX;
 }
@@ -193,7 +193,8 @@ int main(int argc, char *argv[]) {
             freqfilename[FNAMELENGTH-1] = 0;  // security termination
             break;
         case 'f':
-            if (sscanf(optarg, "%d", &fcorr) != 1) return -emsg(4);
+            fcorr = readint(optarg);
+            if (fcorr == INT_MAX) return -emsg(4);
             break;
         case 'x':
             islegacy = 1;
@@ -209,8 +210,10 @@ int main(int argc, char *argv[]) {
 
     /* check specified frequency correction is within-bounds */
     // needs to be done after argument reading for position-agnostic '-f'
-    if (isdecimal) fcorr = (int) fcorr * FCORR_DTOB;
-    if (abs(fcorr) >= FCORR_MAX) return -emsg(5);
+    // range check precedes the conversion, which is undefined if out of range
+    double fcorr_scaled = isdecimal ? fcorr * FCORR_DTOB : fcorr;
+    if (fabs(fcorr_scaled) >= FCORR_MAX) return -emsg(5);
+    fcorr = (int) fcorr_scaled;
 
     /* set input and output handler */
     int inhandle = 0;  // stdin by default
-- 
2.43.0


From d2b9c85c6dbd44eb9b25bf7036cd155b89f01772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:00 +0000
Subject: [PATCH 02/40] fix: freqcd: take filenames verbatim without
 overflowing the name buffer

'%200s' writes up to 201 bytes into 200-byte buffers, silently cuts longer
names and stops at the first whitespace, so another file was opened.
---
 src/fpfind/freqcd.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/fpfind/freqcd.c b/src/fpfind/freqcd.c
index 9be57ac..06dc9c1 100644
--- a/src/fpfind/freqcd.c
+++ b/src/fpfind/freqcd.c
@@ -80,7 +80,6 @@
 
 /* default definitions */
 #define FNAMELENGTH 200            /* length of file name buffers */
-#define FNAMEFORMAT "%200s"        /* for sscanf of filenames */
 #define FILE_PERMISSONS 0644       /* for all output files */
 #define INBUFENTRIES 1024          /* max. elements in input buffer */
 #define OUTBUFENTRIES 1024         /* max. elements in output buffer */
@@ -134,6 +133,12 @@ int readint(char *buff) {
     return INT_MAX;
 }
 
+/* for reading filenames: non-empty, taken verbatim and never truncated */
+int readfname(char *arg, char *fname) {
+    int length = snprintf(fname, FNAMELENGTH, "%s", arg);
+    return (length < 1) || (length >= FNAMELENGTH);
+}
+
 void usage() {
     fprintf(stderr, "\
 Usage: freqcd [-i infilename] [-o outfilename] [-x]\n\
@@ -181,16 +186,13 @@ int main(int argc, char *argv[]) {
     while ((opt = getopt(argc, argv, "i:o:F:f:xdh")) != EOF) {
         switch (opt) {
         case 'i':
-            if (sscanf(optarg, FNAMEFORMAT, infilename) != 1) return -emsg(2);
-            infilename[FNAMELENGTH-1] = 0;  // security termination
+            if (readfname(optarg, infilename)) return -emsg(2);
             break;
         case 'o':
-            if (sscanf(optarg, FNAMEFORMAT, outfilename) != 1) return -emsg(8);
-            outfilename[FNAMELENGTH-1] = 0;  // security termination
+            if (readfname(optarg, outfilename)) return -emsg(8);
             break;
         case 'F':
-            if (sscanf(optarg, FNAMEFORMAT, freqfilename) != 1) return -emsg(10);
-            freqfilename[FNAMELENGTH-1] = 0;  // security termination
+            if (readfname(optarg, freqfilename)) return -emsg(10);
             break;
         case 'f':
             fcorr = readint(optarg);
-- 
2.43.0


From ea1d6963fe0c78cdbbdb4f96b7138804858c8f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:00 +0000
Subject: [PATCH 03/40] fix: freqcd: keep partially received frequency values
 across reads

A value split over two reads lost its first part when no newline had been
seen yet, and a line filling the buffer was mistaken for end-of-file, which
stopped all further updates.
---
 src/fpfind/freqcd.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/fpfind/freqcd.c b/src/fpfind/freqcd.c
index 06dc9c1..feeb418 100644
--- a/src/fpfind/freqcd.c
+++ b/src/fpfind/freqcd.c
@@ -254,6 +254,7 @@ int main(int argc, char *argv[]) {
     int freqbytesread = 0;
     int freqbytesread_next = 0;
     int freqbytespartial = 0;  // size of partial freqcorr value remaining
+    int isfreqdiscard = 0;  // mark if remainder of overlong line is to be ignored
     char *freqbuffer_next;
     if (freqhandle) {  // allocate memory only if needed
         freqbuffer = (char *)malloc(FREQBUFSIZE);
@@ -420,7 +421,8 @@ int main(int argc, char *argv[]) {
                 if (freqbuffer[i] == '\n') {
                     freqbuffer[i] = 0;  // zero-terminate for readint
                     fcorr_tmp = readint(&freqbuffer[next_num_idx]);
-                    if (abs(fcorr_tmp) < FCORR_MAX) fcorr = fcorr_tmp;
+                    if (!isfreqdiscard && abs(fcorr_tmp) < FCORR_MAX) fcorr = fcorr_tmp;
+                    isfreqdiscard = 0;  // end of line reached
 #ifdef __DEBUG__
                     fprintf(stderr, "[debug] 'fcorr' updated to '%d'.\n", fcorr);
 #endif
@@ -429,13 +431,17 @@ int main(int argc, char *argv[]) {
             }
 
             /* clear parsed numbers from freqbuffer */
-            if (next_num_idx > 0) {
-                freqbytespartial = freqbytesread - next_num_idx;
-                for (i = freqbytesread - freqbytespartial, j = 0; j < freqbytespartial; i++, j++) {
-                    freqbuffer[j] = freqbuffer[i];
-                }
-                freqbuffer_next = &freqbuffer[freqbytespartial];
+            freqbytespartial = freqbytesread - next_num_idx;
+            for (i = freqbytesread - freqbytespartial, j = 0; j < freqbytespartial; i++, j++) {
+                freqbuffer[j] = freqbuffer[i];
+            }
+
+            // Buffer full without any newline -> cannot be a valid value
+            if (freqbytespartial == FREQBUFSIZE - 1) {
+                isfreqdiscard = 1;
+                freqbytespartial = 0;
             }
+            freqbuffer_next = &freqbuffer[freqbytespartial];
         }
 
         // TODO: Shift this back to select call to write only when pipe available,
-- 
2.43.0


From beef679b50159ebc451796610b871b466ef763ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:00 +0000
Subject: [PATCH 04/40] fix: freqcd: do not accumulate correction on reads
 without complete event

A read delivering fewer than 8 bytes re-added the correction of the previous
batch (or an uninitialized value on the first read).
---
 src/fpfind/freqcd.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/fpfind/freqcd.c b/src/fpfind/freqcd.c
index feeb418..8a56356 100644
--- a/src/fpfind/freqcd.c
+++ b/src/fpfind/freqcd.c
@@ -277,8 +277,8 @@ int main(int argc, char *argv[]) {
     ull tsref = 0;  // reference timestamp to scale by frequency correction,
                     // noting subsequent initializations should zero 'tsref'
     int isset_tsref = 0;    // initialization marker for tsref
-    ull ts, tsmeas;         // timestamp
-    ll tscorr;              // timestamp correction
+    ull ts, tsmeas = 0;     // timestamp
+    ll tscorr = 0;          // timestamp correction
     ll tsoverflowcorr = 0;  // timestamp overflow corrections
     unsigned int high;      // high word in timestamp
     unsigned int low;       // low word in timestamp
@@ -386,8 +386,11 @@ int main(int argc, char *argv[]) {
             }
 
             /* update reference timestamp to keep within 20 hour overflow condition */
-            tsref = tsmeas;
-            tsoverflowcorr += tscorr;
+            // noting there is nothing to update if only a partial event was read
+            if (eventnum > 0) {
+                tsref = tsmeas;
+                tsoverflowcorr += tscorr;
+            }
         }
 
         // Read frequency correction values
-- 
2.43.0


From 531ef8f19293c974c3f61bdac34bda8234f34b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:00 +0000
Subject: [PATCH 05/40] fix: freqcd: handle rollover of the 54-bit timestamp
 counter

The elapsed time wrapped at 64 bits instead of 54, which shifted all later
events by an arbitrary offset once the counter rolled over (every 20 hours).
---
 src/fpfind/freqcd.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fpfind/freqcd.c b/src/fpfind/freqcd.c
index 8a56356..5c708d7 100644
--- a/src/fpfind/freqcd.c
+++ b/src/fpfind/freqcd.c
@@ -85,6 +85,7 @@
 #define OUTBUFENTRIES 1024         /* max. elements in output buffer */
 #define FREQBUFSIZE 100            /* max. length of frequency correction values */
 #define RETRYREADWAIT 500000       /* sleep time in usec after an empty read */
+#define TS_MASK (((ull)1 << 54) - 1) /* timestamps are 54 bits wide */
 #define FCORR_ARESBITS -34         /* absolute resolution of correction, in power of 2 */
 #define FCORR_AMAXBITS -13         /* absolute maximum allowed correction, in power of 2 */
 #define FCORR_DEFAULT 0            /* frequency correction in units of 2^FCORR_ARESBITS */
@@ -364,7 +365,8 @@ int main(int argc, char *argv[]) {
                 tsmeas = ((ull)high << 22) | (low >> 10);
 
                 /* calculate timestamp correction */
-                tscorr = ((ll)((tsmeas - tsref) >> FCORR_TBITS1) * fcorr) >> FCORR_TBITS2;
+                // Elapsed time taken modulo 54 bits, in case of timestamp rollover
+                tscorr = ((ll)(((tsmeas - tsref) & TS_MASK) >> FCORR_TBITS1) * fcorr) >> FCORR_TBITS2;
                 ts = tsmeas + tscorr + tsoverflowcorr;
 
                 /* write corrected timestamp to output buffer */
-- 
2.43.0


From eee1dda75ea1a9c72a439b386b68cd95faced01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:26 +0000
Subject: [PATCH 06/40] fix: freqcd: correction must not depend on how the
 input is split into reads

The correction was truncated to whole units at the end of every read, and the
fraction was lost: with a few events per read (e.g. a slow source) the
correction drifted, or was lost altogether, depending on pipe timing.
---
 src/fpfind/freqcd.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/fpfind/freqcd.c b/src/fpfind/freqcd.c
index 5c708d7..68654fa 100644
--- a/src/fpfind/freqcd.c
+++ b/src/fpfind/freqcd.c
@@ -280,6 +280,8 @@ int main(int argc, char *argv[]) {
     int isset_tsref = 0;    // initialization marker for tsref
     ull ts, tsmeas = 0;     // timestamp
     ll tscorr = 0;          // timestamp correction
+    ull tsstep;             // elapsed time with correction free of truncation
+    int fcorr_prev;         // frequency correction in use before an update
     ll tsoverflowcorr = 0;  // timestamp overflow corrections
     unsigned int high;      // high word in timestamp
     unsigned int low;       // low word in timestamp
@@ -389,9 +391,13 @@ int main(int argc, char *argv[]) {
 
             /* update reference timestamp to keep within 20 hour overflow condition */
             // noting there is nothing to update if only a partial event was read
+            // Only whole steps are taken, for which the correction is exact, so that
+            // truncations do not accumulate with every read.
             if (eventnum > 0) {
-                tsref = tsmeas;
-                tsoverflowcorr += tscorr;
+                tsstep = ((tsmeas - tsref) & TS_MASK) >> (FCORR_TBITS1 + FCORR_TBITS2);
+                tsref += tsstep << (FCORR_TBITS1 + FCORR_TBITS2);
+                tsoverflowcorr += (ll)tsstep * fcorr;
+                tscorr -= (ll)tsstep * fcorr;
             }
         }
 
@@ -422,6 +428,7 @@ int main(int argc, char *argv[]) {
 
             /* search for valid fcorr values */
             int next_num_idx = 0, fcorr_tmp;
+            fcorr_prev = fcorr;
             for (i = 0; i < freqbytesread; i++) {
                 if (freqbuffer[i] == '\n') {
                     freqbuffer[i] = 0;  // zero-terminate for readint
@@ -435,6 +442,13 @@ int main(int argc, char *argv[]) {
                 }
             }
 
+            /* new correction applies from the last event onwards */
+            if (fcorr != fcorr_prev) {
+                tsref = tsmeas;
+                tsoverflowcorr += tscorr;
+                tscorr = 0;
+            }
+
             /* clear parsed numbers from freqbuffer */
             freqbytespartial = freqbytesread - next_num_idx;
             for (i = freqbytesread - freqbytespartial, j = 0; j < freqbytespartial; i++, j++) {
-- 
2.43.0


From 54408751d607237bf98398a706f0d85bbd317bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:58 +0000
Subject: [PATCH 07/40] fix: parse_timestamps: read a0/a2 events with exact
 integer arithmetic

Values were held as int64 (or object/float64 once the top bit is set): such
events raised TypeError, or lost their least significant bits when read in
the raw 4ps resolution.
---
 src/fpfind/lib/parse_timestamps.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/fpfind/lib/parse_timestamps.py b/src/fpfind/lib/parse_timestamps.py
index 24200ab..0822e16 100755
--- a/src/fpfind/lib/parse_timestamps.py
+++ b/src/fpfind/lib/parse_timestamps.py
@@ -105,10 +105,10 @@ def read_a0(
         the function signature to maintain parity with 'read_a1'.
     """
     data = np.genfromtxt(filename, delimiter="\n", dtype="U8")
-    data = np.array([int(v,16) for v in data]).reshape(-1, 2)
-    t = ((np.uint64(data[:, 1]) << 22) + (data[:, 0] >> 10))
+    data = np.array([int(v,16) for v in data], dtype=np.uint64).reshape(-1, 2)
+    t = ((data[:, 1] << np.uint64(22)) + (data[:, 0] >> np.uint64(10)))
     t = _format_timestamps(t, resolution, fractional)
-    p = data[:, 0] & 0xF
+    p = (data[:, 0] & np.uint64(0xF)).astype(np.uint32)
     return t, p
 
 def read_a1(
@@ -135,10 +135,10 @@ def read_a2(
     ):
     """See documentation for 'read_a0'."""
     data = np.genfromtxt(filename, delimiter="\n", dtype="U16")
-    data = np.array([int(v,16) for v in data])
-    t = np.uint64(data >> 10)
+    data = np.array([int(v,16) for v in data], dtype=np.uint64)
+    t = data >> np.uint64(10)
     t = _format_timestamps(t, resolution, fractional)
-    p = data & 0xF
+    p = (data & np.uint64(0xF)).astype(np.uint32)
     return t, p
 
 def sread_a1(
@@ -217,10 +217,10 @@ def sread_a0(
                     break
 
                 data = buffer.strip().split("\n")
-                data = np.array([int(v,16) for v in data]).reshape(-1, 2)
-                t = ((np.uint64(data[:, 1]) << 22) + (data[:, 0] >> 10))
+                data = np.array([int(v,16) for v in data], dtype=np.uint64).reshape(-1, 2)
+                t = ((data[:, 1] << np.uint64(22)) + (data[:, 0] >> np.uint64(10)))
                 t = _format_timestamps(t, resolution, fractional)
-                p = data[:, 0] & 0xF
+                p = (data[:, 0] & np.uint64(0xF)).astype(np.uint32)
                 yield t, p
 
     size = pathlib.Path(filename).stat().st_size
@@ -243,10 +243,10 @@ def sread_a2(
                     break
 
                 data = buffer.strip().split("\n")
-                data = np.array([int(v,16) for v in data])
-                t = np.uint64(data >> 10)
+                data = np.array([int(v,16) for v in data], dtype=np.uint64)
+                t = data >> np.uint64(10)
                 t = _format_timestamps(t, resolution, fractional)
-                p = data & 0xF
+                p = (data & np.uint64(0xF)).astype(np.uint32)
                 yield t, p
 
     size = pathlib.Path(filename).stat().st_size
-- 
2.43.0


From cfb300786f380efb22a5569ca80260c95a51e6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:58 +0000
Subject: [PATCH 08/40] fix: parse_timestamps: read a2 files holding a single
 event

'genfromtxt' returns a 0-d array for a single line, which is not iterable.
---
 src/fpfind/lib/parse_timestamps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fpfind/lib/parse_timestamps.py b/src/fpfind/lib/parse_timestamps.py
index 0822e16..6e8f127 100755
--- a/src/fpfind/lib/parse_timestamps.py
+++ b/src/fpfind/lib/parse_timestamps.py
@@ -134,7 +134,7 @@ def read_a2(
         fractional: bool = True,
     ):
     """See documentation for 'read_a0'."""
-    data = np.genfromtxt(filename, delimiter="\n", dtype="U16")
+    data = np.atleast_1d(np.genfromtxt(filename, delimiter="\n", dtype="U16"))
     data = np.array([int(v,16) for v in data], dtype=np.uint64)
     t = data >> np.uint64(10)
     t = _format_timestamps(t, resolution, fractional)
-- 
2.43.0


From 968878627fc48fb364b8d942535244b008a9fd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:58 +0000
Subject: [PATCH 09/40] fix: parse_timestamps: print statistics of empty and
 zero-duration streams

A single event has no event rate (division by zero), and '--inmemory' looked
up the first event even if none was left after filtering.
---
 src/fpfind/lib/parse_timestamps.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fpfind/lib/parse_timestamps.py b/src/fpfind/lib/parse_timestamps.py
index 6e8f127..b4bc980 100755
--- a/src/fpfind/lib/parse_timestamps.py
+++ b/src/fpfind/lib/parse_timestamps.py
@@ -423,8 +423,8 @@ def print_statistics(filename: str, t: list, p: list):
         ch4_counts=count(p & 0b1000 != 0),
         multi_counts=count(np.isin(p, (0, 1, 2, 4, 8), invert=True)),
         non_counts=count(p == 0),
-        start_timestamp=t[0],
-        end_timestamp=t[-1],
+        start_timestamp=t[0] if len(t) != 0 else None,
+        end_timestamp=t[-1] if len(t) != 0 else None,
         patterns=sorted(np.unique(p)),
     )
 
@@ -514,7 +514,8 @@ def print_statistics_report(
         print(f"Duration (s) : {duration:15.9f}")
         print(f"  ~ start    : {start_timestamp*1e-9:>15.9f}")
         print(f"  ~ end      : {end_timestamp*1e-9:>15.9f}")
-        print(f"Event rate (/s) : {int(num_events//duration)}")
+        if duration > 0:
+            print(f"Event rate (/s) : {int(num_events//duration)}")
         print(f"Detection patterns: {patterns}")
 
 
-- 
2.43.0


From 45ca3b8a06ff6c4d36c6acda0d9a4156200fda02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:00 +0000
Subject: [PATCH 10/40] fix: parse_epochs: allow T2 epochs to be read as
 integers in 4ps resolution

Adding to a np.uint64 scalar yields floats, which cannot be bit-shifted.
---
 src/fpfind/lib/parse_epochs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fpfind/lib/parse_epochs.py b/src/fpfind/lib/parse_epochs.py
index 6f472a9..575743d 100755
--- a/src/fpfind/lib/parse_epochs.py
+++ b/src/fpfind/lib/parse_epochs.py
@@ -309,7 +309,7 @@ def read_T2(
     # Add 17-bit epoch LSB as per regular timestamp spec,
     # i.e. (17-bit epoch LSB)(32-bit timestamp) => 49-bits
     epoch_lsb = header.epoch & ((1 << 17) - 1)
-    timestamp = np.uint64(epoch_lsb << 32)  # current timestamp, deltas stored in T2
+    timestamp = epoch_lsb << 32  # current timestamp, deltas stored in T2
     buffer = 0
     size = 0  # number of bits in buffer
     with open(filename, "rb") as f:
-- 
2.43.0


From de9fbe473bd96e7315422f4cc28f461316424d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:00 +0000
Subject: [PATCH 11/40] fix: parse_epochs: reject truncated T2/T4 epochs

Reads past the end of file yielded endless zero words, i.e. the readers
never returned and exhausted memory.
---
 src/fpfind/lib/parse_epochs.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fpfind/lib/parse_epochs.py b/src/fpfind/lib/parse_epochs.py
index 575743d..5146656 100755
--- a/src/fpfind/lib/parse_epochs.py
+++ b/src/fpfind/lib/parse_epochs.py
@@ -244,7 +244,7 @@ def extract_bits(msb_size: int, buffer: int, size: int, fileobject=None):
     from file 'fileobject' provided (must be already open in "rb" mode).
 
     Raises:
-        ValueError: msb_size > size but fileobject not provided.
+        ValueError: msb_size > size but fileobject not provided or exhausted.
 
     Example:
 
@@ -264,8 +264,11 @@ def extract_bits(msb_size: int, buffer: int, size: int, fileobject=None):
     """
     # Append word from fileobject if insufficient bits
     if size < msb_size and fileobject:
+        word = fileobject.read(4)
+        if len(word) != 4:
+            raise ValueError("File ended before termination")
         buffer <<= 32
-        buffer += int.from_bytes(fileobject.read(4), byteorder="little")
+        buffer += int.from_bytes(word, byteorder="little")
         size += 32
 
     # Extract MSB from buffer
-- 
2.43.0


From 6aa2b125109b8b46a2bb06a2ce24fe617f3536af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:00 +0000
Subject: [PATCH 12/40] fix: parse_epochs: reject T1 epochs truncated in the
 middle of an event

The missing bytes of the last event were silently read as zeros.
---
 src/fpfind/lib/parse_epochs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fpfind/lib/parse_epochs.py b/src/fpfind/lib/parse_epochs.py
index 5146656..51e2947 100755
--- a/src/fpfind/lib/parse_epochs.py
+++ b/src/fpfind/lib/parse_epochs.py
@@ -187,6 +187,9 @@ def read_T1(
             event_high = f.read(4)
             event_low = f.read(4)
 
+            if 0 < len(event_high + event_low) < 8:
+                raise ValueError("File ended in the middle of an event")
+
             value = \
                 (int.from_bytes(event_high, byteorder="little") << 32) \
                 + int.from_bytes(event_low, byteorder="little")
-- 
2.43.0


From 60c3971e369c14dd8e452ff20c21e782f9239fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:00 +0000
Subject: [PATCH 13/40] fix: parse_epochs: allow arrays of timestamps in
 'write_T1'

NumPy integers overflowed when shifted into the 64-bit event.
---
 src/fpfind/lib/parse_epochs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fpfind/lib/parse_epochs.py b/src/fpfind/lib/parse_epochs.py
index 51e2947..dc81034 100755
--- a/src/fpfind/lib/parse_epochs.py
+++ b/src/fpfind/lib/parse_epochs.py
@@ -412,7 +412,7 @@ def write_T1(directory, full_epoch, timestamps, detectors):
         # 17-bit LSB epoch fits into a timestamp event
         timestamp_epoch = ((full_epoch & ((1<<17)-1)) << (32 + 5))
         for timestamp, detector in zip(timestamps, detectors):
-            full_timestamp = timestamp_epoch + timestamp
+            full_timestamp = timestamp_epoch + int(timestamp)
             event = (full_timestamp << 10) + int(detector)
 
             # Write high word, then low word
-- 
2.43.0


From 172d669a235cb6ef5045674ed7fdbabb32553017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:00 +0000
Subject: [PATCH 14/40] fix: utils: keep timeline continuous over rollover of
 the 17-bit epoch counter

Epochs after the rollover (every 20 hours) were placed 20 hours too early.
---
 src/fpfind/lib/utils.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/fpfind/lib/utils.py b/src/fpfind/lib/utils.py
index d11d69d..2af2f46 100644
--- a/src/fpfind/lib/utils.py
+++ b/src/fpfind/lib/utils.py
@@ -10,6 +10,7 @@ from dataclasses import dataclass
 import numpy as np
 import scipy
 
+from fpfind.lib.constants import EPOCH_LENGTH
 from fpfind.lib.parse_epochs import (
     epoch2int, int2epoch, read_T1, read_T2,
 )
@@ -404,10 +405,14 @@ def get_first_overlapping_epoch(
 def get_timestamp(dirname, file_type, first_epoch, skip_epoch, num_of_epochs):
     epochdir = pathlib.Path(dirname)
     timestamp = np.array([], dtype=np.float128)
+    start_epoch = epoch2int(first_epoch) + skip_epoch
     for i in range(num_of_epochs):
-        epoch_name = epochdir / int2epoch(epoch2int(first_epoch) + skip_epoch + i)
+        epoch_name = epochdir / int2epoch(start_epoch + i)
         reader = read_T1 if file_type == "T1" else read_T2
-        timestamp = np.append(timestamp, reader(epoch_name)[0])
+        # Timestamps only hold the 17-bit LSB of the epoch
+        rollovers = ((start_epoch + i) >> 17) - (start_epoch >> 17)
+        ts = reader(epoch_name)[0] + rollovers * (EPOCH_LENGTH << 17)
+        timestamp = np.append(timestamp, ts)
     return timestamp
 
 def normalize_timestamps(*T, skip: float = 0.0, preserve_relative: bool = True):
-- 
2.43.0


From 98a4108e3a40913ecaf1f1b88d537081113e9b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:00 +0000
Subject: [PATCH 15/40] fix: fpfind: time offset of inverted output ('-V1')

From bob = alice * (1 + f_bob) + t_bob follows t_alice = -t_bob / (1 + f_bob),
as obtained by actually swapping the inputs.
---
 src/fpfind/fpfind.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fpfind/fpfind.py b/src/fpfind/fpfind.py
index e06acf2..a132f8a 100755
--- a/src/fpfind/fpfind.py
+++ b/src/fpfind/fpfind.py
@@ -663,7 +663,7 @@ def main():
     # Use if the low-count side is undergoing frequency correction
     flag = args.output
     if flag & 0b0001:
-        dt = -dt * (1 + df)    # t_alice * (1 + f_alice) + t_bob = 0
+        dt = -dt / (1 + df)    # t_alice * (1 + f_bob) + t_bob = 0
         df = 1 / (1 + df) - 1  # (1 + f_alice) * (1 + f_bob) = 1
     if flag & 0b0010:
         df = f"{round(df * (1 << 34)):d}"
-- 
2.43.0


From ec3b95b909c58e0b870f4c441dea572809a3bb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:00 +0000
Subject: [PATCH 16/40] fix: fpfind: '--precomp-fullscan' always failed with
 'No peak found!'

The 'else' branch of the loop ran even if a peak was found. The first peak
found is returned, i.e. same as without the full scan.
---
 src/fpfind/fpfind.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/fpfind/fpfind.py b/src/fpfind/fpfind.py
index a132f8a..09d2c0b 100755
--- a/src/fpfind/fpfind.py
+++ b/src/fpfind/fpfind.py
@@ -347,6 +347,7 @@ def fpfind(
         precompensation_fullscan: Specify whether to continue even after peak found.
     """
     df0s = precompensations
+    result = None
 
     # Go through all precompensations
     for df0 in df0s:
@@ -375,16 +376,17 @@ def fpfind(
         logger.info(f"Peak found,          {df0*1e6:7.3f} ppm: {str(e)}")
         # TODO: Justify the good enough frequency value
         # TODO(2024-01-31): Add looping code to customize refinement steps.
+        if result is None:
+            result = dt, f - 1
         if precompensation_fullscan:
             continue
         break
 
     # No appropriate frequency compensation found
-    else:
+    if result is None:
         raise ValueError("No peak found!")  # TODO
 
-    df = f - 1
-    return dt, df
+    return result
 
 
 def generate_precompensations(start, stop, step, ordered=False) -> list:
-- 
2.43.0


From 7cf11214979564fbb175f157393b9e08b09c2212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:37 +0000
Subject: [PATCH 17/40] fix: generate_freqcd_testcase: '-x' had no effect on
 generated events

The flag was assigned to a local variable.
---
 src/fpfind/lib/generate_freqcd_testcase.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fpfind/lib/generate_freqcd_testcase.py b/src/fpfind/lib/generate_freqcd_testcase.py
index 2be66eb..7566aff 100644
--- a/src/fpfind/lib/generate_freqcd_testcase.py
+++ b/src/fpfind/lib/generate_freqcd_testcase.py
@@ -83,8 +83,8 @@ def main():
         sys.exit(1)
 
     args = parser.parse_args()
-    if args.x:
-        LEGACY = True
+    global LEGACY
+    LEGACY = args.x
 
     # Modify method of writing
     write = owrite
-- 
2.43.0


From f86660dc06feb94db1eeb665ab047029d3e6d233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:37 +0000
Subject: [PATCH 18/40] fix: generate_freqcd_testcase: do not overwrite the
 events file to be read

A named input file was truncated and filled from stdin.
---
 src/fpfind/lib/generate_freqcd_testcase.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fpfind/lib/generate_freqcd_testcase.py b/src/fpfind/lib/generate_freqcd_testcase.py
index 7566aff..fa995a0 100644
--- a/src/fpfind/lib/generate_freqcd_testcase.py
+++ b/src/fpfind/lib/generate_freqcd_testcase.py
@@ -114,8 +114,9 @@ def main():
 
         # Read binary timestamps from file
         try:
-            with open(inputfile, "wb") as f:
-                f.write(sys.stdin.buffer.read())
+            if HAS_TEMP_FILE:
+                with open(inputfile, "wb") as f:
+                    f.write(sys.stdin.buffer.read())
 
             # Parsing binary timestamps
             ts, _ = ts_parser.read_a1(inputfile, args.x)
-- 
2.43.0


From 9880802c3d3c4d248d73f2468ba85ed2e9db472b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:59 +0000
Subject: [PATCH 19/40] fix: freqcd stub: first run changed directory before
 running the binary

Relative filenames (and a relative path of the program itself) were resolved
in the library folder during the run that triggers the compilation.
---
 src/fpfind/freqcd | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fpfind/freqcd b/src/fpfind/freqcd
index ae28943..321ceff 100755
--- a/src/fpfind/freqcd
+++ b/src/fpfind/freqcd
@@ -10,7 +10,7 @@
 
 # Gets the full call to current script, then retrieves program path
 # e.g. /bin/sh /home/justin/.pyenv/versions/3.10.6/bin/freqcd -x ...
-PROGRAM=$(ps -q $$ -o args= | awk -F ' ' '{print $2}')
+PROGRAM=$(readlink -f "$(ps -q $$ -o args= | awk -F ' ' '{print $2}')")
 
 # Get root directory of installed library, where postinstall script is located
 ENTRYPOINT=$(python3 -c "import importlib.util; print(importlib.util.find_spec('fpfind').origin)")
@@ -22,7 +22,8 @@ rm -f ${INSTALL_ROOT}/freqcd_path \
     && echo "${PROGRAM}" > ${INSTALL_ROOT}/freqcd_path
 
 # Trigger post-install compilation and write directly to target
-cd ${INSTALL_ROOT} && ./_postinstall ${PROGRAM} \
+# (in a subshell, so that relative filenames in the arguments remain valid)
+(cd ${INSTALL_ROOT} && ./_postinstall ${PROGRAM}) \
     || { echo "'freqcd.c' failed to compile... not running."; exit 1; }
 
 # Pass arguments and directly execute
-- 
2.43.0


From ef4073148240040af08bbce560837b1da2ed2646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:47 +0000
Subject: [PATCH 20/40] fix: freqcd: events of one read may span more than 20
 hours

The reference time only advanced at the end of a read, so that the elapsed time
wrapped when one read (1024 events) covered more than the 54-bit range.
---
 src/fpfind/freqcd.c | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/fpfind/freqcd.c b/src/fpfind/freqcd.c
index 68654fa..80b2384 100644
--- a/src/fpfind/freqcd.c
+++ b/src/fpfind/freqcd.c
@@ -371,6 +371,14 @@ int main(int argc, char *argv[]) {
                 tscorr = ((ll)(((tsmeas - tsref) & TS_MASK) >> FCORR_TBITS1) * fcorr) >> FCORR_TBITS2;
                 ts = tsmeas + tscorr + tsoverflowcorr;
 
+                /* update reference timestamp to keep within 20 hour overflow condition */
+                // Only whole steps are taken, for which the correction is exact, so that
+                // truncations do not accumulate.
+                tsstep = ((tsmeas - tsref) & TS_MASK) >> (FCORR_TBITS1 + FCORR_TBITS2);
+                tsref += tsstep << (FCORR_TBITS1 + FCORR_TBITS2);
+                tsoverflowcorr += (ll)tsstep * fcorr;
+                tscorr -= (ll)tsstep * fcorr;
+
                 /* write corrected timestamp to output buffer */
                 eventptr->high = ts >> 22;
                 eventptr->low = (ts << 10) | (low & 0x3ff);
@@ -388,17 +396,6 @@ int main(int argc, char *argv[]) {
                 outbuffer[outevents++] = *eventptr;
                 eventptr++;
             }
-
-            /* update reference timestamp to keep within 20 hour overflow condition */
-            // noting there is nothing to update if only a partial event was read
-            // Only whole steps are taken, for which the correction is exact, so that
-            // truncations do not accumulate with every read.
-            if (eventnum > 0) {
-                tsstep = ((tsmeas - tsref) & TS_MASK) >> (FCORR_TBITS1 + FCORR_TBITS2);
-                tsref += tsstep << (FCORR_TBITS1 + FCORR_TBITS2);
-                tsoverflowcorr += (ll)tsstep * fcorr;
-                tscorr -= (ll)tsstep * fcorr;
-            }
         }
 
         // Read frequency correction values
-- 
2.43.0


From f09a4c130748285f03af429b5d054164174042ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:53 +0000
Subject: [PATCH 21/40] fix: freqcd stub: report failed compilation on stderr

The message went to standard output, i.e. into the event stream of a
consumer, although nothing had been forwarded.
---
 src/fpfind/freqcd | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fpfind/freqcd b/src/fpfind/freqcd
index 321ceff..fb424fa 100755
--- a/src/fpfind/freqcd
+++ b/src/fpfind/freqcd
@@ -24,7 +24,7 @@ rm -f ${INSTALL_ROOT}/freqcd_path \
 # Trigger post-install compilation and write directly to target
 # (in a subshell, so that relative filenames in the arguments remain valid)
 (cd ${INSTALL_ROOT} && ./_postinstall ${PROGRAM}) \
-    || { echo "'freqcd.c' failed to compile... not running."; exit 1; }
+    || { echo "'freqcd.c' failed to compile... not running." >&2; exit 1; }
 
 # Pass arguments and directly execute
 exec "${PROGRAM}" "$@"
-- 
2.43.0


From 4c88782b2d3a0af11ee58a5fc896581076bdbfc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:45 +0000
Subject: [PATCH 22/40] fix: fpfind: late cross-correlation lost the peak after
 doubling the bin width

The late cross-correlation kept the number of bins when the earlier one merged
its bins, so that it wrapped at a multiple of the acquisition time. The
background then has a maximum at zero delay, which was taken for the peak.
---
 src/fpfind/fpfind.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/fpfind/fpfind.py b/src/fpfind/fpfind.py
index 09d2c0b..390b491 100755
--- a/src/fpfind/fpfind.py
+++ b/src/fpfind/fpfind.py
@@ -232,12 +232,14 @@ def time_freq(
         )
         ats_late = slice_timestamps(ats, separation_duration, _duration)
         bts_late = slice_timestamps(bts, separation_duration, _duration)
-        _afft = generate_fft(ats_late, num_bins, resolution)
-        _bfft = generate_fft(bts_late, num_bins, resolution)
+        # Cover the same range of delays as the earlier xcorr: fewer but larger
+        # bins remain if the resolution has been doubled above
+        _afft = generate_fft(ats_late, len(ys), resolution)
+        _bfft = generate_fft(bts_late, len(ys), resolution)
         _ys = get_xcorr(_afft, _bfft)
 
         # Calculate timing delay for late set of timestamps
-        xs = np.arange(num_bins) * resolution
+        xs = np.arange(len(ys)) * resolution
         _dt1 = get_timing_delay_fft(_ys, xs)[0]
         df1 = (_dt1 - dt1) / separation_duration
 
-- 
2.43.0


From 5e40351ccc7ed329e8cc73247e02b6004c97da77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:45 +0000
Subject: [PATCH 23/40] fix: fpfind: search failed with 'Array is empty!' after
 doubling the bin width

The number of wraps rounds to zero if the refined bin width is still larger
than twice the initial one.
---
 src/fpfind/fpfind.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fpfind/fpfind.py b/src/fpfind/fpfind.py
index 390b491..b9cabec 100755
--- a/src/fpfind/fpfind.py
+++ b/src/fpfind/fpfind.py
@@ -155,7 +155,7 @@ def time_freq(
         # avoids event overflow/underflow
         max_wraps = np.floor(end_time / (resolution * num_bins))
         num_wraps = np.round(duration / (resolution * num_bins))
-        _duration = min(num_wraps, max_wraps) * resolution * num_bins
+        _duration = max(min(num_wraps, max_wraps), 1) * resolution * num_bins
 
         # Perform cross-correlation
         logger.debug(
-- 
2.43.0


From 711a46ceb47761df2547aa09f6c2aa7e1b493140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:26 +0000
Subject: [PATCH 24/40] fix: parse_timestamps: malformed or cut a0/a2 lines
 were read as events that had never been recorded

---
 src/fpfind/lib/parse_timestamps.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/fpfind/lib/parse_timestamps.py b/src/fpfind/lib/parse_timestamps.py
index b4bc980..d8526ea 100755
--- a/src/fpfind/lib/parse_timestamps.py
+++ b/src/fpfind/lib/parse_timestamps.py
@@ -73,6 +73,8 @@ else:
     )
 
 
+_HEXDIGITS = frozenset("0123456789abcdefABCDEF")
+
 
 #############
 #  READERS  #
@@ -104,8 +106,8 @@ def read_a0(
         There is no legacy formatting for event types a0 and a2. Preserved in
         the function signature to maintain parity with 'read_a1'.
     """
-    data = np.genfromtxt(filename, delimiter="\n", dtype="U8")
-    data = np.array([int(v,16) for v in data], dtype=np.uint64).reshape(-1, 2)
+    with open(filename, "r") as f:
+        data = _parse_hex(f.read(), 8).reshape(-1, 2)
     t = ((data[:, 1] << np.uint64(22)) + (data[:, 0] >> np.uint64(10)))
     t = _format_timestamps(t, resolution, fractional)
     p = (data[:, 0] & np.uint64(0xF)).astype(np.uint32)
@@ -134,8 +136,8 @@ def read_a2(
         fractional: bool = True,
     ):
     """See documentation for 'read_a0'."""
-    data = np.atleast_1d(np.genfromtxt(filename, delimiter="\n", dtype="U16"))
-    data = np.array([int(v,16) for v in data], dtype=np.uint64)
+    with open(filename, "r") as f:
+        data = _parse_hex(f.read(), 16)
     t = data >> np.uint64(10)
     t = _format_timestamps(t, resolution, fractional)
     p = (data & np.uint64(0xF)).astype(np.uint32)
@@ -216,8 +218,7 @@ def sread_a0(
                 if len(buffer) == 0:
                     break
 
-                data = buffer.strip().split("\n")
-                data = np.array([int(v,16) for v in data], dtype=np.uint64).reshape(-1, 2)
+                data = _parse_hex(buffer, 8).reshape(-1, 2)
                 t = ((data[:, 1] << np.uint64(22)) + (data[:, 0] >> np.uint64(10)))
                 t = _format_timestamps(t, resolution, fractional)
                 p = (data[:, 0] & np.uint64(0xF)).astype(np.uint32)
@@ -242,8 +243,7 @@ def sread_a2(
                 if len(buffer) == 0:
                     break
 
-                data = buffer.strip().split("\n")
-                data = np.array([int(v,16) for v in data], dtype=np.uint64)
+                data = _parse_hex(buffer, 16)
                 t = data >> np.uint64(10)
                 t = _format_timestamps(t, resolution, fractional)
                 p = (data & np.uint64(0xF)).astype(np.uint32)
@@ -253,6 +253,18 @@ def sread_a2(
     num_batches = int(((size-1) // (buffer_size*17)) + 1)
     return _sread_a2(), num_batches
 
+def _parse_hex(text: str, width: int):
+    """Returns values of fixed-width hexadecimal lines.
+
+    Lines of other width or content, e.g. from a truncated file, are refused,
+    since they would otherwise yield events that have never been recorded.
+    """
+    lines = text.strip().split()
+    for line in lines:
+        if len(line) != width or not set(line) <= _HEXDIGITS:
+            raise ValueError(f"Malformed timestamp line '{line}'.")
+    return np.array([int(v,16) for v in lines], dtype=np.uint64)
+
 def _format_timestamps(t: list, resolution: TSRES, fractional: bool):
     """Returns conversion of timestamps into desired format and resolution.
 
-- 
2.43.0


From 8fbecd2d7e2af1ccd1da93b3e3c08dc069efdf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:38 +0000
Subject: [PATCH 25/40] fix: parse_epochs: header readers warned of an epoch
 mismatch for names with leading zeros, as returned by date2epoch

---
 src/fpfind/lib/parse_epochs.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/fpfind/lib/parse_epochs.py b/src/fpfind/lib/parse_epochs.py
index dc81034..926c82d 100755
--- a/src/fpfind/lib/parse_epochs.py
+++ b/src/fpfind/lib/parse_epochs.py
@@ -55,6 +55,13 @@ class HeadT4(NamedTuple):
 # Header readers
 # Extracted from ref [2]
 
+def _is_epoch_name(epoch: int, name: str):
+    """Returns whether hex filename, with or without leading zeros, matches epoch."""
+    try:
+        return int(name, base=16) == epoch
+    except ValueError:
+        return False
+
 def read_T1_header(file_name: str):
     file_name = str(file_name)
     with open(file_name, 'rb') as f:
@@ -62,7 +69,7 @@ def read_T1_header(file_name: str):
     headt1 = HeadT1._make(unpack('iIIii', head_info))
     if (headt1.tag != 0x101 and headt1.tag != 1) :
         logger.warning(f'{file_name} is not a Type2 header file')
-    if hex(headt1.epoch) != ('0x' + file_name.split('/')[-1]):
+    if not _is_epoch_name(headt1.epoch, file_name.split('/')[-1]):
         logger.warning(f'Epoch in header {headt1.epoch} does not match epoc filename {file_name}')
     return headt1
 
@@ -73,7 +80,7 @@ def read_T2_header(file_name: str):
     headt2 = HeadT2._make(unpack('iIIiii', head_info))
     if (headt2.tag != 0x102 and headt2.tag != 2) :
         logger.warning(f'{file_name} is not a Type2 header file')
-    if hex(headt2.epoch) != ('0x' + file_name.split('/')[-1]):
+    if not _is_epoch_name(headt2.epoch, file_name.split('/')[-1]):
         logger.warning(f'Epoch in header {headt2.epoch} does not match epoc filename {file_name}')
     return headt2
 
@@ -84,7 +91,7 @@ def read_T3_header(file_name: str):
     headt3 = HeadT3._make(unpack('iIIi', head_info))
     if (headt3.tag != 0x103 and headt3.tag != 3) :
         logger.warning(f'{file_name} is not a Type3 header file')
-    if hex(headt3.epoch) != ('0x' + file_name.split('/')[-1]):
+    if not _is_epoch_name(headt3.epoch, file_name.split('/')[-1]):
         logger.warning(f'Epoch in header {headt3.epoch} does not match epoc filename {file_name}')
     return headt3
 
@@ -95,7 +102,7 @@ def read_T4_header(file_name: str):
     headt4 = HeadT4._make(unpack('IIIII', head_info))
     if (headt4.tag != 0x104 and headt4.tag != 4) :
         logger.warning(f'{file_name} is not a Type4 header file')
-    if hex(headt4.epoch) != ('0x' + file_name.split('/')[-1]):
+    if not _is_epoch_name(headt4.epoch, file_name.split('/')[-1]):
         logger.warning(f'Epoch in header {headt4.epoch} does not match epoc filename {file_name}')
     return headt4
 
-- 
2.43.0


From 532b4b0505139266ff9bd80878d8636ead9a41e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:45 +0000
Subject: [PATCH 26/40] fix: overlapping or interrupted first runs of freqcd
 ran or left behind an incomplete program

---
 src/fpfind/_postinstall | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fpfind/_postinstall b/src/fpfind/_postinstall
index 7b4b278..7f30338 100755
--- a/src/fpfind/_postinstall
+++ b/src/fpfind/_postinstall
@@ -2,4 +2,9 @@
 # Performs post-installation compilation of freqcd. Do not modify.
 TARGET=freqcd
 if [ ! -z "$1" ]; then TARGET="$1"; fi
-gcc -o ${TARGET} freqcd.c lib/getopt.c
+
+# Replace target only once completely written, since it may be in use
+# by other instances, or the compilation may be interrupted
+gcc -o ${TARGET}.$$ freqcd.c lib/getopt.c \
+    && mv -f ${TARGET}.$$ ${TARGET} \
+    || { rm -f ${TARGET}.$$; exit 1; }
-- 
2.43.0


From 521e2b09c36500ec53f8a321d6fadb24f28ad566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:43 +0000
Subject: [PATCH 27/40] fix: freqcd discarded the contents of an input file
 that was also given as output

---
 src/fpfind/freqcd.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/fpfind/freqcd.c b/src/fpfind/freqcd.c
index 80b2384..6031fa4 100644
--- a/src/fpfind/freqcd.c
+++ b/src/fpfind/freqcd.c
@@ -73,6 +73,7 @@
 #include <stdlib.h>
 #include <fcntl.h>   // open, O_RDONLY, O_NONBLOCK
 #include <sys/select.h> // fd_set, usually implicitly declared
+#include <sys/stat.h> // stat, fstat
 #include <unistd.h>  // getopt, select
 #include <errno.h>   // select errno
 #include <limits.h>  // INT_MAX
@@ -117,6 +118,7 @@ char *errormessage[] = {
     "Error opening freq correction stream source",
     "Freq correction value not newline terminated",
     "Unable to allocate memory to freqbuffer",
+    "Output stream is also an input",
 };
 int emsg(int code) {
     fprintf(stderr, "%s\n", errormessage[code]);
@@ -140,6 +142,15 @@ int readfname(char *arg, char *fname) {
     return (length < 1) || (length >= FNAMELENGTH);
 }
 
+/* for checking if output is a regular file that is also used as input */
+int isinput(char *outfilename, int inhandle, char *freqfilename) {
+    struct stat out, in;
+    if (stat(outfilename, &out) || !S_ISREG(out.st_mode)) return 0;
+    if (!fstat(inhandle, &in) && (in.st_dev == out.st_dev) && (in.st_ino == out.st_ino)) return 1;
+    if (!freqfilename[0] || stat(freqfilename, &in)) return 0;
+    return (in.st_dev == out.st_dev) && (in.st_ino == out.st_ino);
+}
+
 void usage() {
     fprintf(stderr, "\
 Usage: freqcd [-i infilename] [-o outfilename] [-x]\n\
@@ -227,6 +238,8 @@ int main(int argc, char *argv[]) {
 
     int outhandle = 1;  // stdout by default
     if (outfilename[0]) {
+        // opening discards the previous contents, so do not lose the input
+        if (isinput(outfilename, inhandle, freqfilename)) return -emsg(14);
         outhandle = open(outfilename, O_WRONLY | O_CREAT | O_TRUNC, FILE_PERMISSONS);
         if (outhandle == -1) return -emsg(9);
     }
-- 
2.43.0


From 998d6a51d487a8410136860ed13b3679cc5c1bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:43 +0000
Subject: [PATCH 28/40] fix: parse_timestamps: converting a file onto itself
 discarded all events

---
 src/fpfind/lib/parse_timestamps.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fpfind/lib/parse_timestamps.py b/src/fpfind/lib/parse_timestamps.py
index d8526ea..39e9f00 100755
--- a/src/fpfind/lib/parse_timestamps.py
+++ b/src/fpfind/lib/parse_timestamps.py
@@ -739,6 +739,11 @@ def main():
     if not filepath.is_file():
         raise ValueError(f"'{args.infile}' is not a file.")
 
+    # Check that destination does not overwrite input while being read
+    if not (args.print or args.inmemory) \
+            and pathlib.Path(args.outfile).exists() and filepath.samefile(args.outfile):
+        raise ValueError("destination filepath is also the input, use '--inmemory' instead.")
+
     # Define filter function for event and event stream
     has_filtering = \
         (args.pfilter_pattern is not None) \
-- 
2.43.0


From 763d7f7410f6d223360c93c3161ae7255dc2c963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:43 +0000
Subject: [PATCH 29/40] fix: generate_freqcd_testcase: event file to be read
 was truncated if also given as output

---
 src/fpfind/lib/generate_freqcd_testcase.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fpfind/lib/generate_freqcd_testcase.py b/src/fpfind/lib/generate_freqcd_testcase.py
index fa995a0..c55b450 100644
--- a/src/fpfind/lib/generate_freqcd_testcase.py
+++ b/src/fpfind/lib/generate_freqcd_testcase.py
@@ -89,6 +89,10 @@ def main():
     # Modify method of writing
     write = owrite
     if args.o:
+        outputfile = pathlib.Path(args.o)
+        if args.infile and args.infile != "-" \
+                and outputfile.exists() and outputfile.samefile(args.infile):
+            raise ValueError("output file is also the input file.")
         write = lambda e: fwrite(e, args.o)
         open(args.o, "wb").close()  # truncate file
 
-- 
2.43.0


From f17c2554f6b63cea61bf1d9df3c5f062fb2a2a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:04 +0000
Subject: [PATCH 30/40] fix: freqcd stub: modules of the working directory were
 taken for the installed library

---
 src/fpfind/freqcd | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fpfind/freqcd b/src/fpfind/freqcd
index fb424fa..07c9be1 100755
--- a/src/fpfind/freqcd
+++ b/src/fpfind/freqcd
@@ -13,7 +13,7 @@
 PROGRAM=$(readlink -f "$(ps -q $$ -o args= | awk -F ' ' '{print $2}')")
 
 # Get root directory of installed library, where postinstall script is located
-ENTRYPOINT=$(python3 -c "import importlib.util; print(importlib.util.find_spec('fpfind').origin)")
+ENTRYPOINT=$(python3 -c "import sys; sys.path = [p for p in sys.path if p]; import importlib.util; print(importlib.util.find_spec('fpfind').origin)")
 INSTALL_ROOT=$(dirname "$(readlink -f ${ENTRYPOINT})")
 
 # Keep a record of program path, in case one desires a manual recompilation;
-- 
2.43.0


From 8fb66bf7d71b9be79c11bc0b0bd44194c0eaf9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:04 +0000
Subject: [PATCH 31/40] fix: fpfind did not end with separations below 1.4
 epochs

---
 src/fpfind/fpfind.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fpfind/fpfind.py b/src/fpfind/fpfind.py
index b9cabec..12502a1 100755
--- a/src/fpfind/fpfind.py
+++ b/src/fpfind/fpfind.py
@@ -304,7 +304,9 @@ def time_freq(
 
         # Update for next iteration
         bts = (bts - dt1) / (1 + df1)
-        resolution /= (separation_duration / duration / RES_REFINE_FACTOR)
+        # Always refine, since the loop does not end if the separation is too
+        # small to suggest an improved resolution
+        resolution /= max(separation_duration / duration / RES_REFINE_FACTOR, RES_REFINE_FACTOR)
         resolution = max(resolution, target_resolution)
         curr_iteration += 1
 
-- 
2.43.0


From cc1f77484a85d33c5d8a12d2f2c779eed9573580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:39 +0000
Subject: [PATCH 32/40] fix: fpfind precompensation scan missed the stop value
 through rounding

1e-4 // 1e-5 is 9.0, so that '--precomp-stop 1e-4 --precomp-step 1e-5' ended at 90 ppm.
---
 src/fpfind/fpfind.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fpfind/fpfind.py b/src/fpfind/fpfind.py
index 12502a1..0ebea3c 100755
--- a/src/fpfind/fpfind.py
+++ b/src/fpfind/fpfind.py
@@ -414,6 +414,9 @@ def generate_precompensations(start, stop, step, ordered=False) -> list:
     if step == 0:
         return [0]
 
+    # Include the stop value regardless of rounding, e.g. 1e-4 // 1e-5 == 9
+    stop += 1e-9 * step
+
     # Prepare pre-compensations
     if ordered:
         df0s = np.arange(0, int((stop-start) // step + 1))  # conventional
-- 
2.43.0


From 8c8b7341e1a645d1bf0b5ceb5a949a03a305981f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:14 +0000
Subject: [PATCH 33/40] fix: fpfind option --quiet had no effect

The help text promises to suppress errors without blocking logging.
---
 src/fpfind/fpfind.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fpfind/fpfind.py b/src/fpfind/fpfind.py
index 0ebea3c..9d7e491 100755
--- a/src/fpfind/fpfind.py
+++ b/src/fpfind/fpfind.py
@@ -559,6 +559,9 @@ def main():
         parser.print_help(sys.stderr)
         sys.exit(1)
 
+    # Suppress errors on stderr, i.e. the first handler, without blocking logging
+    logger.handlers[0].setLevel("CRITICAL" if args.quiet else "NOTSET")
+
     # Set logging level and log arguments
     if args.logging is not None:
         set_logfile(logger, args.logging, human_readable=True)
-- 
2.43.0


From 3c2d65367517dde83acd094eb5df84d5f2d97be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:32 +0000
Subject: [PATCH 34/40] fix: correct gaps just below the range of the 54-bit
 counter

The reference lags the previous event by up to 69 ms, so that the time elapsed
since then exceeded 54 bits for gaps within 69 ms of the counter range.
---
 src/fpfind/freqcd.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/fpfind/freqcd.c b/src/fpfind/freqcd.c
index 6031fa4..c7e46d5 100644
--- a/src/fpfind/freqcd.c
+++ b/src/fpfind/freqcd.c
@@ -292,6 +292,7 @@ int main(int argc, char *argv[]) {
                     // noting subsequent initializations should zero 'tsref'
     int isset_tsref = 0;    // initialization marker for tsref
     ull ts, tsmeas = 0;     // timestamp
+    ull tsprev;             // timestamp of previous event
     ll tscorr = 0;          // timestamp correction
     ull tsstep;             // elapsed time with correction free of truncation
     int fcorr_prev;         // frequency correction in use before an update
@@ -362,6 +363,7 @@ int main(int argc, char *argv[]) {
                     high = _swp;
                 }
                 tsref = ((ull)high << 22) | (low >> 10);
+                tsmeas = tsref;
                 isset_tsref = 1;  // we are done initializing
             }
 
@@ -377,20 +379,21 @@ int main(int argc, char *argv[]) {
                     low = high;
                     high = _swp;
                 }
+                tsprev = tsmeas;
                 tsmeas = ((ull)high << 22) | (low >> 10);
 
-                /* calculate timestamp correction */
-                // Elapsed time taken modulo 54 bits, in case of timestamp rollover
-                tscorr = ((ll)(((tsmeas - tsref) & TS_MASK) >> FCORR_TBITS1) * fcorr) >> FCORR_TBITS2;
-                ts = tsmeas + tscorr + tsoverflowcorr;
-
                 /* update reference timestamp to keep within 20 hour overflow condition */
                 // Only whole steps are taken, for which the correction is exact, so that
-                // truncations do not accumulate.
-                tsstep = ((tsmeas - tsref) & TS_MASK) >> (FCORR_TBITS1 + FCORR_TBITS2);
+                // truncations do not accumulate. Elapsed time since the previous event is
+                // taken modulo 54 bits, in case of timestamp rollover.
+                tsstep = ((tsmeas - tsprev) & TS_MASK) + ((tsprev - tsref) & TS_MASK);
+                tsstep >>= FCORR_TBITS1 + FCORR_TBITS2;
                 tsref += tsstep << (FCORR_TBITS1 + FCORR_TBITS2);
                 tsoverflowcorr += (ll)tsstep * fcorr;
-                tscorr -= (ll)tsstep * fcorr;
+
+                /* calculate timestamp correction */
+                tscorr = ((ll)(((tsmeas - tsref) & TS_MASK) >> FCORR_TBITS1) * fcorr) >> FCORR_TBITS2;
+                ts = tsmeas + tscorr + tsoverflowcorr;
 
                 /* write corrected timestamp to output buffer */
                 eventptr->high = ts >> 22;
-- 
2.43.0


From a9e2763b960ba23ddc2581718812e9b9f7e67e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:32 +0000
Subject: [PATCH 35/40] fix: let the accumulated correction wrap without signed
 overflow

---
 src/fpfind/freqcd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fpfind/freqcd.c b/src/fpfind/freqcd.c
index c7e46d5..684f7f4 100644
--- a/src/fpfind/freqcd.c
+++ b/src/fpfind/freqcd.c
@@ -296,7 +296,7 @@ int main(int argc, char *argv[]) {
     ll tscorr = 0;          // timestamp correction
     ull tsstep;             // elapsed time with correction free of truncation
     int fcorr_prev;         // frequency correction in use before an update
-    ll tsoverflowcorr = 0;  // timestamp overflow corrections
+    ull tsoverflowcorr = 0; // timestamp overflow corrections
     unsigned int high;      // high word in timestamp
     unsigned int low;       // low word in timestamp
     unsigned int _swp;      // temporary swap variable, support 'legacy' option
-- 
2.43.0


From cb2dbf63a25388c22ac4b4edfc7e034f202c75b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:00 +0000
Subject: [PATCH 36/40] fix: first run of freqcd failed in folders with white
 space in their name

---
 src/fpfind/_postinstall |  6 +++---
 src/fpfind/freqcd       | 17 ++++++++---------
 2 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/fpfind/_postinstall b/src/fpfind/_postinstall
index 7f30338..47c49d9 100755
--- a/src/fpfind/_postinstall
+++ b/src/fpfind/_postinstall
@@ -5,6 +5,6 @@ if [ ! -z "$1" ]; then TARGET="$1"; fi
 
 # Replace target only once completely written, since it may be in use
 # by other instances, or the compilation may be interrupted
-gcc -o ${TARGET}.$$ freqcd.c lib/getopt.c \
-    && mv -f ${TARGET}.$$ ${TARGET} \
-    || { rm -f ${TARGET}.$$; exit 1; }
+gcc -o "${TARGET}.$$" freqcd.c lib/getopt.c \
+    && mv -f "${TARGET}.$$" "${TARGET}" \
+    || { rm -f "${TARGET}.$$"; exit 1; }
diff --git a/src/fpfind/freqcd b/src/fpfind/freqcd
index 07c9be1..39ee8e0 100755
--- a/src/fpfind/freqcd
+++ b/src/fpfind/freqcd
@@ -6,24 +6,24 @@
 # this script will automatically trigger the compilation and then proceed
 # to run the desired binary :)
 #
-# Works only on Linux, with 'ps', 'awk' and 'python3' dependencies.
+# Works only on Linux, with 'python3' dependency.
 
-# Gets the full call to current script, then retrieves program path
+# Retrieves program path from the call to current script (may contain spaces)
 # e.g. /bin/sh /home/justin/.pyenv/versions/3.10.6/bin/freqcd -x ...
-PROGRAM=$(readlink -f "$(ps -q $$ -o args= | awk -F ' ' '{print $2}')")
+PROGRAM=$(readlink -f "$0")
 
 # Get root directory of installed library, where postinstall script is located
 ENTRYPOINT=$(python3 -c "import sys; sys.path = [p for p in sys.path if p]; import importlib.util; print(importlib.util.find_spec('fpfind').origin)")
-INSTALL_ROOT=$(dirname "$(readlink -f ${ENTRYPOINT})")
+INSTALL_ROOT=$(dirname "$(readlink -f "${ENTRYPOINT}")")
 
 # Keep a record of program path, in case one desires a manual recompilation;
 # will be created in-situ only in an editable installation.
-rm -f ${INSTALL_ROOT}/freqcd_path \
-    && echo "${PROGRAM}" > ${INSTALL_ROOT}/freqcd_path
+rm -f "${INSTALL_ROOT}/freqcd_path" \
+    && echo "${PROGRAM}" > "${INSTALL_ROOT}/freqcd_path"
 
 # Trigger post-install compilation and write directly to target
 # (in a subshell, so that relative filenames in the arguments remain valid)
-(cd ${INSTALL_ROOT} && ./_postinstall ${PROGRAM}) \
+(cd "${INSTALL_ROOT}" && ./_postinstall "${PROGRAM}") \
     || { echo "'freqcd.c' failed to compile... not running." >&2; exit 1; }
 
 # Pass arguments and directly execute
@@ -57,8 +57,7 @@ exec "${PROGRAM}" "$@"
 #    python3 -m pip show ${LIBNAME} | grep 'Location' | awk -F ': ' '{print $2}'
 #
 # Instead, we rely on the fact that this script will be triggered by 'sh',
-# with the desired path supplied as an argument. Extracting the path is thus
-# a simple matter of a 'ps' + 'awk' hack.
+# with the desired path supplied as an argument, which the shell provides in '$0'.
 #
 # A small side-note, use of '$PPID' to extract the parent path will not work,
 # which may end up deferring to the shell emulator's process instead.
-- 
2.43.0


From ad0d4e7a88e896b54e7a0f5728a8443c8daa7478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:56 +0000
Subject: [PATCH 37/40] fix: read errors in timestamp files yielded events that
 were never stored

---
 src/fpfind/lib/parse_timestamps.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fpfind/lib/parse_timestamps.py b/src/fpfind/lib/parse_timestamps.py
index 39e9f00..ba32167 100755
--- a/src/fpfind/lib/parse_timestamps.py
+++ b/src/fpfind/lib/parse_timestamps.py
@@ -123,7 +123,8 @@ def read_a1(
     high_pos = 1; low_pos = 0
     if legacy: high_pos, low_pos = low_pos, high_pos
     with open(filename, "rb") as f:
-        data = np.fromfile(file=f, dtype="=I").reshape(-1, 2)
+        buffer = f.read()  # unlike 'np.fromfile', does not hide read errors
+    data = np.frombuffer(buffer, dtype="=I", count=len(buffer)//4).reshape(-1, 2)
     t = ((np.uint64(data[:, high_pos]) << 22) + (data[:, low_pos] >> 10))
     t = _format_timestamps(t, resolution, fractional)
     p = data[:, low_pos] & 0xF
-- 
2.43.0


From 575a897690259d973a8df75bdcb1f3a45adf52f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:52 +0000
Subject: [PATCH 38/40] fix: detuning and slow cross-correlation scripts failed
 on import

---
 src/fpfind/lib/g2_two_timestamps.py     | 2 +-
 src/fpfind/lib/generate_freqdetuneg2.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fpfind/lib/g2_two_timestamps.py b/src/fpfind/lib/g2_two_timestamps.py
index 7952d0b..ac47dc9 100644
--- a/src/fpfind/lib/g2_two_timestamps.py
+++ b/src/fpfind/lib/g2_two_timestamps.py
@@ -1,6 +1,6 @@
 import numpy as np
 import matplotlib.pyplot as plt
-import parse_timestamps as parser
+import fpfind.lib.parse_timestamps as parser
 
 Ta = 2**27
 N = 2**18
diff --git a/src/fpfind/lib/generate_freqdetuneg2.py b/src/fpfind/lib/generate_freqdetuneg2.py
index 42d5d24..0bd7255 100644
--- a/src/fpfind/lib/generate_freqdetuneg2.py
+++ b/src/fpfind/lib/generate_freqdetuneg2.py
@@ -15,7 +15,7 @@
 #   Given a detuning ratio R, the frequency fed to the device is now
 #   f + R*f, so the effective timestamp has an additional (1+R) product.
 
-import parse_timestamps as parser
+import fpfind.lib.parse_timestamps as parser
 import numpy as np
 
 DATA_DIR = "./Clock-sync/20221007_freqdetuneg2"
-- 
2.43.0


From 9fe56bf9cb08d91f75ff016d3348a403dc93085d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:12 +0000
Subject: [PATCH 39/40] fix: parse_epochs: empty T3 files were reported as
 inconsistent

---
 src/fpfind/lib/parse_epochs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fpfind/lib/parse_epochs.py b/src/fpfind/lib/parse_epochs.py
index 926c82d..41d4398 100755
--- a/src/fpfind/lib/parse_epochs.py
+++ b/src/fpfind/lib/parse_epochs.py
@@ -480,7 +480,7 @@ def read_T3(file_name: str) -> ServiceT3:
 
     # Digest file
     HEADER_INFO_SIZE = 16
-    data_b = b"\x00\x00\x00\x00"
+    data_b = b""
     with open(file_name,"rb") as f:
         f.seek(HEADER_INFO_SIZE)
         while True:
-- 
2.43.0


From 48951733de7cb9223cd93020022341f832eedd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:59 +0000
Subject: [PATCH 40/40] fix: raw peak significance always failed

---
 src/fpfind/lib/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fpfind/lib/utils.py b/src/fpfind/lib/utils.py
index 2af2f46..7dd3bbd 100644
--- a/src/fpfind/lib/utils.py
+++ b/src/fpfind/lib/utils.py
@@ -93,7 +93,7 @@ class PeakStatistics:
     def significance_raw(self):
         if self.stdev == 0:
             return None
-        full = np.hstack(self.signal, self.background)
+        full = np.hstack((self.signal, self.background))
         return (np.max(full) - np.mean(full)) / np.std(full)
 
     @property
-- 
2.43.0

